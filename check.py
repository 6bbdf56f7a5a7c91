#!/usr/bin/env python3
"""Check one property of circuit_converters against /repo's current working tree.

usage: check.py <ID>     (environment: VERIF_SEED, VERIF_TIER)
       check.py --build  (build everything the checks need)
       check.py --replay <replay file>

1. deductive layer (mirvc): dumps the MIR of /repo's crate, generates the obligations of the
   contracts the property depends on and has z3 discharge them;
2. bounded layer (vreplay): deterministic cases on the real crate; supplies the failing input.
Exit 0: held; exit 1: a VIOLATION line was printed; exit 2: the check itself could not run.
"""
import fcntl, hashlib, json, os, resource, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
KNOWN = os.path.join(VERIF, "known-findings.txt")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "")
ENV.setdefault("HOME", "/root")


def repo_hash():
    h = hashlib.sha256()
    files = []
    for top in ("src", "circuit_examples", "build.rs", "Cargo.toml", "Cargo.lock"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            files.append(p)
        for d, _, fs in os.walk(p):
            files += [os.path.join(d, f) for f in fs]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


class Fatal(Exception):
    pass


def locked(name):
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, name + ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def build_replay(rh, width=None):
    """Builds the replay crate against the current tree (cargo's mtime tracking is not relied upon)."""
    lock = locked("replay")
    tgt = os.path.join(BUILD, "replay")
    stamp = os.path.join(tgt, "STAMP")
    exe = os.path.join(tgt, "debug", "vreplay")
    h = hashlib.sha256((rh + (" width %d" % width if width else "")).encode())
    rd = os.path.join(VERIF, "replay")
    for d, _, fs in sorted(os.walk(rd)):
        for f in sorted(fs):
            if f.endswith((".rs", ".toml", ".lock")):
                with open(os.path.join(d, f), "rb") as fh:
                    h.update(fh.read())
    want = h.hexdigest()
    if os.path.exists(stamp) and os.path.exists(exe) and open(stamp).read() == want:
        return exe
    if os.path.exists(stamp):
        os.unlink(stamp)
    env = dict(ENV, CARGO_TARGET_DIR=tgt, RUSTUP_TOOLCHAIN="stable")
    env.pop("VP_WIDTH", None)
    if width:
        env["VP_WIDTH"] = str(width)
    subprocess.run(["cargo", "clean", "--offline", "-p", "circuit_converters", "-p", "vreplay"], cwd=rd, env=env,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=rd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Fatal("the replay crate does not build against /repo:\n" + p.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(want)
    lock.close()
    return exe


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (26 << 30, 26 << 30))


def run_replay(exe, prop, seed, tier, only=None, timeout=780, hints=None):
    jf = os.path.join(BUILD, "journal.%s.%d" % (prop, os.getpid()))
    cmd = [exe, prop, "--seed", str(seed), "--tier", tier, "--journal", jf]
    for k, v in sorted((hints or {}).items()):
        cmd += ["--hint", "%s=%s" % (k, v)]
    if only:
        cmd += ["--only", only[0], str(only[1])]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout, preexec_fn=limits)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"
    slots = []
    try:
        with open(jf) as f:
            slots = [l.split() for l in f.read().replace("\0", "").split("\n") if len(l.split()) == 2]
        os.unlink(jf)
    except OSError:
        pass
    try:
        return json.loads(out.strip().split("\n")[-1]), rc, slots
    except (ValueError, IndexError):
        return None, rc, slots


def bounded(prop, seed, tier, rh):
    exe = build_replay(rh)
    budget = 780 if tier == "quick" else 3600
    d, rc, slots = run_replay(exe, prop, seed, tier, timeout=budget)
    if d is None:
        # The process died or hung: find the case.
        d = {"evaluations": 0, "distinct_nontrivial": 0, "skipped": 0, "wall_s": 0, "families": {}, "samples": [], "fails": []}
        for fam, k in slots:
            e, erc, _ = run_replay(exe, prop, seed, tier, only=(fam, int(k)), timeout=120)
            if e is None:
                d["fails"].append({"family": fam, "index": int(k), "key": "", "detail": "the process ends abnormally (%s) on this case" % erc})
            else:
                d["evaluations"] += 1
                d["fails"] += e["fails"]
        if not d["fails"]:
            raise Fatal("vreplay ended abnormally (%s) and no single case reproduces it" % rc)
    return exe, d


BUILDERS = ("C10", "C11", "C12", "C13")
CIRCUITS = ("C01", "C02", "C03", "C04", "C05")
FILES = ("C06", "C07", "C08", "C09")
SIZES = ("gates", "inputs", "outputs", "consts", "modules", "nargs")


def replay_thresholds(prop, seed, tier, rh, consts, t0):
    """Where a function is out of the verifier's reach, the bounded layer also looks around the thresholds in the code."""
    fails, tried = [], 0
    if prop in BUILDERS:
        small = [c for c in consts if c <= 2200][:12]
        widths = [w for c in small for w in (c, c + 1, c + 5)]
        widths += [2 * c + 1 for c in small]
        runs = [{"n": str(w)} for w in dict.fromkeys(widths)] + [{"N": str(c + 1)} for c in small[:3] if c < 600]
    elif prop in CIRCUITS:
        runs = [{k: str(v)} for c in consts[:12] for k in SIZES for v in ((max(c - 12, 1), c, c + 1) if k in ("gates", "nargs") else (max(c - 5, 1), c))]
    else:
        runs = [{"t": str(c)} for c in consts[:40] if c <= 300000]
    for h in runs:
        if time.time() - t0 > 450:
            break
        width = int(h["N"]) if "N" in h else None
        d, rc, _ = run_replay(build_replay(rh, width), prop, seed, tier, timeout=120, hints=h)
        tried += 1
        for f in (d or {"fails": []})["fails"]:
            fails.append(dict(f, hints=h, width=width))
        if fails:
            break
    return fails, tried


def replay_models(prop, seed, tier, rh, opens, t0):
    """Replays the verifier's counterexamples against the real code.  Returns the failures found."""
    tried, fails = set(), []
    for o in opens:
        m = o.get("model") or {}
        h = {}
        for k in ("n", "N", "a", "b") + SIZES:
            if k in m and m[k] >= 0:
                h[k] = str(m[k])
        if "N" in h and not 1 <= m["N"] <= 600:
            del h["N"]
        if "circuit" in m:
            h["circuit"], h["x"] = m["circuit"], "%x" % m["x"]
        key = tuple(sorted(h.items()))
        if not h or key in tried or len(tried) >= 6 or time.time() - t0 > 500:
            continue
        tried.add(key)
        width = int(h["N"]) if "N" in h else None
        exe = build_replay(rh, width)
        d, rc, _ = run_replay(exe, prop, seed, tier, timeout=150, hints=h)
        o["replayed"] = h
        if d is None and rc != "timeout":
            d = {"fails": [{"family": "hint", "index": 0, "key": "", "detail": "the process ends abnormally (%s) on the verifier's counterexample %s" % (rc, h)}]}
        for f in (d or {"fails": []})["fails"]:
            fails.append(dict(f, hints=h, width=width, detail=f["detail"] + "  [verifier's counterexample %s of: %s]" % (h, o["name"])))
        if fails:
            break
    return fails, len(tried)


def known_findings(prop):
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("finding: "):
                w = l[len("finding: "):].split(None, 2)
                if w[0] == "property=" + prop:
                    assert w[1].startswith("key=")
                    res.append((w[1][4:], w[2].strip()))
    return res


def write_replay(prop, data):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha256(json.dumps(data, sort_keys=True).encode()).hexdigest()[:12]))
    with open(p, "w") as f:
        json.dump(data, f, indent=1)
    return p


RULES = {
    "default": "deterministic pseudo-random cases drawn from (property, family, index, seed) on the real crate against an independent oracle; a case is non-trivial when its description (circuit, file, operands, width) is distinct from all earlier ones and it exercises the property's quantified part",
}


def check(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = None
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        d = json.loads(l)
        if d["id"] == prop:
            spec = d
    if spec is None:
        raise Fatal("unknown property " + prop)
    rh = repo_hash()
    proof = None
    try:
        from mirvc import props
        env = ENV
        if prop == "C18":
            env = dict(ENV, VP_REPLAY_EXE=build_replay(rh))
        proof = props.prove(prop, REPO, rh, tier, BUILD, env)
    except ImportError:
        pass
    exe, d = bounded(prop, seed, tier, rh)

    known = dict(known_findings(prop))
    new = [f for f in d["fails"] if f["key"] not in known]
    seen_known = sorted({f["key"] for f in d["fails"] if f["key"] in known})
    failed_obls = proof["failed"] if proof else []
    if proof and not new and proof.get("open"):
        more, tried = replay_models(prop, seed, tier, rh, proof["open"], t0)
        d["evaluations"] += tried
        new = [f for f in more if f["key"] not in known]
    if proof and not new and (proof["unproved"] or not proof["obligations"]) and proof.get("constants") and prop in BUILDERS + CIRCUITS + FILES:
        more, tried = replay_thresholds(prop, seed, tier, rh, proof["constants"], t0)
        d["evaluations"] += tried
        new = [f for f in more if f["key"] not in known]
    violation = None
    if new:
        f = new[0]
        violation = write_replay(prop, {"property": prop, "kind": "failing input", "seed": seed, "tier": tier, "family": f["family"], "index": f["index"], "hints": f.get("hints"), "width": f.get("width"),
                                        "detail": f["detail"], "replay": "python3 check.py --replay <this file>", "other_failures": new[1:20],
                                        "failed_obligations": failed_obls}), ""
    elif failed_obls:
        violation = write_replay(prop, {"property": prop, "kind": "failed obligation", "failed_obligations": failed_obls}), " no-failing-input-found"

    ev = {"property": prop, "tier": tier, "seed": seed, "wall_s": 0, "violations": (len(new) or len(failed_obls)), "assumptions": []}
    bnd = {"evaluations": d["evaluations"], "distinct_nontrivial": d["distinct_nontrivial"], "rule": RULES.get(prop, RULES["default"]),
           "samples": d["samples"], "families": d["families"], "wall_s": d["wall_s"]}
    if proof and proof["obligations"] and proof["complete"]:
        ev["level"] = "proof"
        ev["coverage"] = dict(proof["coverage"])
        ev["coverage"]["bounded_layer"] = bnd
        ev["assumptions"] = proof["assumptions"]
    else:
        ev["level"] = "exploration"
        ev["coverage"] = bnd
        if proof and proof["obligations"]:
            ev["coverage"]["deductive_layer"] = dict(proof["coverage"], unproved=proof["unproved"])
        ev["assumptions"] = ["bounded: only the listed cases were explored"]
    ev["known_findings"] = seen_known
    ev["wall_s"] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    if proof:
        print("%s: %s" % (prop, proof["summary"]))
    print("%s: bounded layer %d cases, %d distinct, %d failing (%d known); %.1f s" % (prop, d["evaluations"], d["distinct_nontrivial"], len(d["fails"]), len(seen_known), time.time() - t0))
    if violation:
        for f in new[:3]:
            print("  failing input %s#%d: %s" % (f["family"], f["index"], f["detail"][:400]))
        for o in failed_obls[:5]:
            print("  failed obligation %s" % o["name"])
        print("VIOLATION property=%s replay=%s%s" % (prop, violation[0], violation[1]))
        return 1
    return 0


def replay(path):
    data = json.load(open(path))
    if data["kind"] != "failing input":
        print(json.dumps(data, indent=1))
        return 1
    exe = build_replay(repo_hash(), data.get("width"))
    d, rc, _ = run_replay(exe, data["property"], data["seed"], data["tier"], only=(data["family"], data["index"]), hints=data.get("hints"))
    print(json.dumps(d, indent=1) if d else "the process ended with %s" % rc)
    return 1 if d is None or d["fails"] else 0


def main():
    sys.path.insert(0, VERIF)
    try:
        if sys.argv[1] == "--build":
            rh = repo_hash()
            build_replay(rh)
            try:
                from mirvc import props
                props.build(REPO, rh, BUILD, ENV)
            except ImportError:
                pass
            return 0
        if sys.argv[1] == "--replay":
            return replay(sys.argv[2])
        return check(sys.argv[1])
    except Fatal as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        return 2


if __name__ == "__main__":
    sys.exit(main())
