#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand when the claims change)."""
import json, os
PROVED = "deductive verification of the MIR of /repo's current source (mirvc: contracts, loop summaries, z3); refuted obligations are replayed on the real crate"
BOUNDED = "bounded stand-in for the contracts: deterministic cases on the real crate against an independent oracle"
NOTE_P = ("Every obligation of the contracts is discharged for all inputs and all widths from the MIR dumped on this run; trusted: rustc's MIR, mirvc, z3, the models of std and num-bigint%s. "
          "A tree the verifier cannot follow falls back to the bounded layer, and the evidence then says so (level exploration).")
NETS = "deductive verification of the bundled circuits as straight-line programs: the circuit the real code builds on this run, an intermediate assertion per gate and a postcondition per output, discharged by enumeration of cuts and z3; refuting inputs are replayed on the real crate"
NOTE_18 = ("Every output of every bundled circuit is proved equal to its specification for all inputs; trusted: the dump of the built circuit through the public accessors, mirvc/netproof.py, z3, "
           "the text of the specifications (word programs; their arithmetic is proved by lemmas and compared with integers). Evaluation being the value of the gates is C01/C03.")
GATE = ", and the contracts of the gate operations of BoolCircuitRef (C01, C02, C05)"
LEVELS = {
    "C10": ("proof", GATE), "C11": ("proof", GATE), "C12": ("proof", GATE), "C13": ("proof", GATE), "C14": ("proof", GATE), "C15": ("proof", GATE), "C16": ("proof", ""),
    "C01": ("proof", ", and of HashMap, Rc and RefCell; counts below 2^40; fields are not edited by hand"), "C02": ("proof", ", and of HashMap, Rc and RefCell; counts below 2^40; fields are not edited by hand"),
    "C03": ("proof", ", and of HashMap, Rc and RefCell; counts below 2^40; fields are not edited by hand; the stack suffices for the recursion"),
    "C04": ("proof", ", and of HashMap, Rc and RefCell; counts below 2^40; fields are not edited by hand; the stack suffices for the recursion; calls are acyclic and a called circuit gets no new inputs"),
    "C05": ("proof", ", and of HashMap, Rc and RefCell; counts below 2^40; a circuit does not call itself"),
    "C06": ("proof", ", of BufRead::lines, split_whitespace and str::parse, and of HashMap, Rc and RefCell; counts below 2^40"),
    "C07": ("proof", ", of BufRead::lines, split_whitespace and str::parse, and of HashMap; the circuit operations used by their contracts (C01, C05)"),
    "C08": ("proof", ", of HashMap, Rc, RefCell, format!, String and BufWriter (writes succeed); counts below 2^40; the stack suffices for the recursion; calls are acyclic and a called circuit gets no new inputs"),
    "C09": ("proof", ", of HashMap, Rc, RefCell, format!, String, BufWriter (writes succeed), BufRead::lines, split_whitespace and str::parse; counts below 2^40; calls are acyclic and a called circuit gets no new inputs"),
    "C18": ("proof", ""),
    "C17": ("proof", ", and the hex crate"),
}
BN = {
    "C19": "bounded; the multiplication is genuinely wrong on the current tree (known finding fp-mul-zero), so there is no proof to be had; new violations are still reported",
}
checks = []
for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in LEVELS:
        lv, t = LEVELS[i]
        c = {"technique": PROVED, "level": lv, "level_note": NOTE_P % t}
        if i == "C18":
            c = {"technique": NETS, "level": lv, "level_note": NOTE_18}
    else:
        c = {"technique": BOUNDED, "level": "exploration", "level_note": BN.get(i, "bounded: only the listed cases are explored; nothing is counted as proved")}
    checks.append(dict({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i}, **c))
json.dump({"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": [], "notes": "see DESIGN.md"},
          open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
