"""Runs the proof obligations of one property and prints a JSON report.  Usage: python3-vt -m mirvc.run PROP REPO MIRFILE SECONDS"""
import sys, json, time, traceback, multiprocessing
from . import mir, builders, lemmas
from .mir import Unsupported
from .core import Timeout

LOGIC = ["build_not_circuit", "build_and_circuit", "build_or_circuit", "build_xor_circuit", "build_eq_circuit", "build_neq_circuit"]
ADD = ["build_add_circuit", "build_sub_circuit"]
CMP = ["build_less_circuit", "build_less_or_eq_circuit", "build_larger_circuit", "build_larger_or_eq_circuit"]
USES = {
    "C10": LOGIC,
    "C11": ["build_add_circuit", "build_sub_circuit", "build_not_circuit"],
    "C12": ["build_add_circuit", "build_mul_circuit", "build_mul_extend_circuit"],
    "C13": ["build_eq_circuit", "build_neq_circuit"] + ADD + CMP,
    "C14": [],
    "C15": ["build_add_circuit", "build_sub_circuit", "build_eq_circuit", "build_neq_circuit", "build_not_circuit"],
}


def tasks(prop):
    """[(name, function(crate, results, deadline))]"""
    out = []
    for b in USES.get(prop, []):
        out.append((b, lambda c, r, d, b=b: builders.verify_builder(c, b, r, d)))
    from . import ops
    for n, body in ops.OPS.get(prop, []):
        out.append((n, lambda c, r, d, n=n, body=body: ops.case(c, n, r, d, body)))
    for mod in EXTRA:
        out += mod.tasks(prop)
    return out


EXTRA = []
for _m in ("numeric", "codecs", "level1", "evalproof", "bristolproof", "netproof", "writerproof"):
    try:
        EXTRA.append(__import__("mirvc." + _m, fromlist=["tasks"]))
    except ModuleNotFoundError as e:
        if _m not in str(e):
            raise


def run_task(job):
    i, prop, end, verbose = job
    name, f = tasks(prop)[i]
    res, t = [], time.time()
    builders.STATS = st = []
    err = None
    left = end - time.time()
    if left < 1:
        err = "out of time"
    else:
        try:
            f(CRATE, res, time.time() + min(left, LIMIT.get(prop, 150)))
        except Unsupported as e:
            err = "outside the verifier's reach: %s" % e
        except Timeout:
            err = "out of time"
        except RecursionError:
            err = "outside the verifier's reach: recursion depth"
        except Exception as e:
            err = "the verifier stopped: %s: %s" % (type(e).__name__, e)
            if verbose:
                traceback.print_exc()
    u = lambda k: sorted(set().union(*[s[k] for s in st])) if st else []
    return {"name": name, "error": err, "secs": round(time.time() - t, 2), "inlined": u("inlined"), "contracts": u("contracts"), "models": u("models"),
            "solver_s": round(sum(s["solver_s"] for s in st), 2), "queries": sum(s["queries"] for s in st),
            "obligations": [{"name": o.name, "status": o.status, "backend": o.backend, "detail": o.detail, "definite": o.definite, "model": o.model} for o in res]}


CRATE = None
LIMIT = {"C18": 500, "C08": 300, "C09": 300}


def main():
    global CRATE
    prop, repo, mirfile, secs = sys.argv[1:5]
    t0 = time.time()
    out = {"property": prop, "tasks": []}
    ts = tasks(prop)
    if ts:
        CRATE = mir.Crate(open(mirfile).read(), repo)
        only = sys.argv[5] if len(sys.argv) > 5 else ""
        out["parse_s"] = round(time.time() - t0, 2)
        end = t0 + float(secs)
        jobs = [(i, prop, end, bool(only)) for i, (name, _) in enumerate(ts) if only in name]
        if len(jobs) == 1:
            out["tasks"] = [run_task(jobs[0])]
        else:
            # one process per task: no task sees what another left behind
            with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
                out["tasks"] = pool.map(run_task, jobs, chunksize=1)
    ls = lemmas.prove_all() if prop in NEEDS_LEMMAS else []
    out["lemmas"] = [{"name": o.name, "status": o.status, "backend": o.backend, "detail": o.detail} for o in ls]
    out["secs"] = round(time.time() - t0, 2)
    print(json.dumps(out))


NEEDS_LEMMAS = ("C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17")

if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    main()
