"""The deductive layer as check.py sees it: dumps the MIR of /repo's current source and discharges the obligations of one property."""
import os, json, subprocess, hashlib, fcntl, time

ASSUME = [
    "the MIR that rustc nightly emits for /repo's source at -Zmir-opt-level=0 is what the tests' and users' compiler executes (same source, another compiler version)",
    "the MIR parser, the verification-condition generator (mirvc/core.py, loops.py) and z3 are correct",
    "the models of std (mirvc/std.py) and of num-bigint integers as mathematical integers are faithful; memory is never exhausted",
    "usize values that count gates stay below 2^64 because memory is finite (widths are quantified over 1 <= n <= 2^32)",
]


def has(prop):
    return True


def mir_file(REPO, rh, BUILD, ENV):
    d = os.path.join(BUILD, "mir")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, rh + ".txt")
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out) and os.path.getsize(out) > 1000:
            return out, 0.0
        t = time.time()
        env = dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "mirtgt"), CARGO_NET_OFFLINE="true")
        # a fresh --cfg makes cargo run rustc again even when its fingerprint is up to date
        cmd = ["cargo", "+nightly", "rustc", "--offline", "--quiet", "--lib", "--", "-Zunpretty=mir", "-Zmir-opt-level=0", "--cfg", "vpdump_" + rh[:16]]
        p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600)
        if p.returncode != 0 or len(p.stdout) < 1000:
            raise RuntimeError("no MIR: " + p.stderr.decode(errors="replace")[-1500:])
        for f in os.listdir(d):
            if f.endswith(".txt"):
                os.unlink(os.path.join(d, f))
        with open(out + ".tmp", "wb") as f:
            f.write(p.stdout)
        os.rename(out + ".tmp", out)
        return out, time.time() - t


def build(REPO, rh, BUILD, ENV):
    mir_file(REPO, rh, BUILD, ENV)


# switch targets of the unchanged crate's enums and counters are no thresholds
BASE_CONSTANTS = {9, 10, 11, 12, 13}


def constants(mf):
    """Integer literals above 8 in the crate's functions: thresholds at which the code may change its behaviour."""
    import re
    c = set()
    with open(mf) as f:
        for l in f:
            if "switchInt(" in l:
                c |= {int(x) for x in re.findall(r"[\[ ](\d+): bb", l)} - BASE_CONSTANTS
            if "const " in l:
                for m in re.finditer(r"const (\d+)_(?:usize|u64|u32|u8|i32|i64|u128)\b", l):
                    c.add(int(m.group(1)))
    return sorted(x for x in c if 8 < x <= 400000)


def prove(prop, REPO, rh, tier, BUILD, ENV):
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    secs = 900 if tier != "quick" else 520 if prop == "C18" else 400
    cmd = ["python3-vt", "-m", "mirvc.run", prop, REPO]
    try:
        mf, dump_s = mir_file(REPO, rh, BUILD, ENV)
        p = subprocess.run(cmd + [mf, str(secs)], cwd=here, env=dict(ENV, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs + 100)
        rep = json.loads(p.stdout.strip().split("\n")[-1])
    except Exception as e:
        return {"failed": [], "unproved": ["the deductive layer did not run: %s" % str(e)[:600]], "obligations": 0, "coverage": {}, "assumptions": [], "complete": False,
                "summary": "deductive layer did not run (%s); bounded layer only" % str(e)[:200].replace("\n", " ")}
    if not rep["tasks"]:
        return {"failed": [], "unproved": [], "obligations": 0, "coverage": {}, "assumptions": [], "complete": False, "constants": constants(mf), "summary": "no contract in reach; bounded layer only"}
    obls = [dict(o, task=t["name"]) for t in rep["tasks"] for o in t["obligations"]] + [dict(o, task="lemmas") for o in rep["lemmas"]]
    ok = [o for o in obls if o["status"] == "proved"]
    # a refuted obligation (the solver has a counterexample; not one it gave up on) of a function whose every path the verifier followed
    partial = {t["name"] for t in rep["tasks"] if t["error"]}
    failed = [o for o in obls if o["status"] == "refuted" and (o.get("definite") or o["task"] not in partial)]
    unproved = ["%s: %s" % (t["name"], t["error"]) for t in rep["tasks"] if t["error"]]
    unproved += ["%s (%s): %s" % (o["name"], o["status"], o["detail"][:300]) for o in obls if o["status"] != "proved"]
    backends = {}
    for o in ok:
        backends[o["backend"]] = backends.get(o["backend"], 0) + 1
    u = lambda k: sorted(set(x for t in rep["tasks"] for x in t[k]))
    full = [t["name"] for t in rep["tasks"] if not t["error"] and all(o["status"] == "proved" for o in t["obligations"])]
    trusted = ["vreplay --dump", "mirvc/netproof.py", "z3 (python3-vt z3-solver)"] if prop == "C18" else ["rustc nightly (MIR)", "mirvc (MIR parser and verification-condition generator of this repository)", "z3 (python3-vt z3-solver)"]
    trusted += ["assumed contract: " + c for c in ASSUMED.get(prop, [])]
    trusted += ["std/num model: " + m for m in u("models")]
    cov = {"obligations": len(obls), "discharged": len(ok), "checker_cmd": " ".join(cmd + [".build/mir/%s.txt" % rh, str(secs)]), "trusted_base": trusted,
           "functions_under_contract": [t["name"] for t in rep["tasks"]], "functions_proved": full, "bodies_executed_inline": u("inlined"),
           "callee_contracts_used": u("contracts"), "backends": backends, "solver_s": round(sum(t["solver_s"] for t in rep["tasks"]), 2),
           "solver_queries": sum(t["queries"] for t in rep["tasks"]), "mir_dump_s": round(dump_s, 1), "proof_s": rep["secs"], "unproved": unproved,
           "obligation_names": [o["name"] for o in obls]}
    return {"failed": failed, "unproved": unproved, "open": [o for o in obls if o["status"] == "refuted"], "obligations": len(obls), "coverage": cov, "assumptions": LIMITS[prop] if prop == "C18" else ASSUME + LIMITS.get(prop, []),
            "complete": not unproved, "constants": constants(mf) if unproved else [],
            "summary": "%d/%d obligations discharged, %d/%d functions proved, %.1f s (MIR dump %.1f s)%s" % (len(ok), len(obls), len(full), len(rep["tasks"]), rep["secs"], dump_s,
                       "" if not unproved else "; NOT PROVED: " + " | ".join(unproved)[:600])}


GATES = ["BoolCircuitRef::%s: %s" % x for x in (
    ("input", "a fresh gate registered as the next input"), ("constant", "a fresh gate with the given value"),
    ("not/and/or/xor/equivalent/identity", "a fresh gate whose value is the operation on its operands; everything else unchanged"),
    ("output", "appends one output"), ("sub_circuit", "an empty circuit under a fresh module id, sharing the registry"),
    ("module", "one fresh gate per output of the called circuit, in order, with the values that circuit computes"))]
ASSUMED = {p: GATES for p in ("C10", "C11", "C12", "C13", "C14", "C15")}
LEVEL1 = [
    "HashMap is a finite map with the usual laws (get/insert/remove/contains_key/entry/iteration-free use); GateId, WireId and ModuleId hash and compare by value (required: PartialEq, Eq and Hash are the derived ones; a hand-written impl is reported as out of reach)",
    "Rc/RefCell: one heap cell per handle with a borrow flag; a borrow conflict would be a refuted obligation",
    "no count of gates, wires, modules or arguments reaches 2^40 (memory)",
    "a circuit is changed only through its operations (its fields are public, but a caller who edits them by hand is outside the contract)",
    "a module called by a circuit is not that same circuit (a circuit registered in itself and then calling itself is outside the contract)",
]
EVAL = LEVEL1 + [
    "ghost state of the evaluator: done (set of evaluated gates) and R(x) = number of operand positions of gates not done that hold x; the facts used about these sums are the lemmas `sums`",
    "recursion of eval_single_gate is on earlier gates, so it terminates; the stack is not exhausted",
]
CALLS = EVAL + [
    "the circuits of a registry call each other without cycles (the evaluation of a called circuit is used by its contract; induction over the depth of calls)",
    "a module is called with as many arguments as the circuit has inputs, and that circuit gets no further input after it is first called (outputs and gates may be added)",
]
READER = [
    "strings: a file is a sequence of lines, a line a sequence of tokens; BufRead::lines, split_whitespace, str::parse and string comparison behave as documented (which strings are numbers is left open); an input line may fail to be read",
    "the file has a first empty line after the header or none (a fact of arithmetic, stated as an assumption), and fewer than 2^40 inputs are declared",
    "the circuit the file is read into is used by the contracts of its operations (C01, C05), discharged again in the check of C06",
]
NETS = [
    "the gate list `vreplay --dump` prints (input_to_gate_id, output_to_gate_id, get_gate of the circuit the real build_* made on this run) is the circuit",
    "the value of a gate and of an output is what C01/C03 say; the specification is the named function (word programs in mirvc/netproof.py: lemmas for their arithmetic, tested against integers and the FIPS-197 example)",
    "mirvc/netproof.py's cuts, truth tables and rewriting (rules enumerated on every run) and z3 are correct; simulation only proposes",
]
WRITER = LEVEL1 + [
    "text: format!, String::push_str and BufWriter behave as documented, a usize is printed as its decimal digits, writes to the underlying writer succeed",
    "ghost state of the writer: W(w) = value of wire w, given by the input, the constant or the gate line that defines it (each line defines the next wire, an obligation, so W is a definition by recursion over the lines); "
    "NC(c) = constants of c with all calls expanded (those c lists and NC of the module for each call; computed by count_const), CR = the part of NC of the calls not yet expanded; the facts used about these sums are the lemmas `sums`",
    "the recursion of the writer is on earlier gates and on called circuits; calls are acyclic and the stack suffices; write_single_gate and write_all_gates are used by their contracts",
    "a module is called with as many arguments as the circuit has inputs, and a called circuit gets no further inputs after it is first called (constants, gates and outputs it may)",
    "`write` is called without a map of wires or with an empty one (a caller who passes gates with wires of its own is outside the contract)",
]
LIMITS = {"C08": WRITER, "C09": WRITER + READER[:2] + ["the written file is read as it was written; a decimal number is parsed as that number"], "C18": NETS, "C06": READER + LEVEL1, "C07": READER, "C04": CALLS, "C03": EVAL, "C01": LEVEL1, "C02": LEVEL1, "C05": LEVEL1}
