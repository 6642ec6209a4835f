"""python -m pyvc.main C05 --out FILE: generate and discharge the obligations of one property"""
import argparse
import json
import multiprocessing as mp
import os
import re
import resource
import signal
import time

HERE = os.path.dirname(os.path.abspath(__file__))

ASSUMPTIONS = [
    "machine arithmetic is treated as mathematical: float64 as the real numbers (no rounding, no overflow), numpy and Python integers as the integers",
    "denominators of divisions are assumed nonzero unless the verifier finds them zero; logarithm of a product is the sum of the logarithms (positive factors)",
    "library contracts assumed, not proved: numpy array operations (shape, broadcasting, reductions, sorting, indexing), numpy.random.Generator (each call returns fresh variates "
    "of the documented law), scipy.special / scipy.stats functions (uninterpreted functions with their defining identities); every run cross-checks them against CPython on sampled inputs",
    "matrices passed to Cholesky / inverse / determinant are symmetric positive definite",
    "the interpreter of Python source (pyvc/interp.py, loops.py), the normaliser (norm.py) and z3 are trusted; the concrete reading of every contract on the real code cross-checks them",
    "partial correctness: termination of while loops over random draws holds almost surely and is not proved",
]
TRUSTED = ["pyvc (this engine: parser of the Python subset, symbolic heap, loop summaries, equational normaliser)", "z3 4.x (python bindings)",
           "contracts of numpy / scipy / CPython builtins in pyvc/npstub.py"]


# A contract stated for several properties: the clauses that are the property's own. The others only support
# its proof there (a wrong law breaks C04, not C01): unproved, they leave the property undecided by the contract.
OWN = {"C01": r"fractions|weights:|returned|size|as-many|stick-products|normalized|cumulative|get_|^all$",
       "C02": r"kept|returned|size|as-many|independent|covers|unchanged|refused|nothing-drawn|^all$",
       "C03": r"^kept|returned|size|covers|unchanged|refused|nothing-drawn|weights:|^all$",
       "C04": r"^(?!kept|covers|unchanged|refused|nothing-drawn)"}


def job(a):
    i, seconds, samples, replay, seed = a
    from . import con, contracts  # noqa
    c = con.CONTRACTS[i]

    def hard(*_):
        raise TimeoutError("contract %s" % c.name)
    signal.signal(signal.SIGALRM, hard)
    signal.setitimer(signal.ITIMER_REAL, seconds * 2 + 60)
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    try:
        return con.run_contract(c, seconds, samples, replay, seed)
    except BaseException as e:   # noqa
        return {"contract": c.name, "prop": c.prop, "function": c.func, "obligations": [{"name": "all", "status": "unsupported", "reason": "engine %s %s" % (type(e).__name__, e), "s": 0, "backend": ""}],
                "paths": 0, "error": "engine", "called": [], "held": 0, "fails": 0, "first": None, "skips": {}, "symbolic_s": 0, "solver_s": 0, "solver_calls": 0, "total_s": 0}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def expected():
    try:
        return json.load(open(os.path.join(HERE, "expected.json")))
    except (OSError, ValueError):
        return {}


def collect(prop, tier, seed, budget):
    from . import con, contracts  # noqa
    t0 = time.time()
    ids = [i for i, c in enumerate(con.CONTRACTS) if c.prop == prop]
    sec = 100.0 if tier == "quick" else 250.0
    samples, replay = (6, 60) if tier == "quick" else (150, 400)
    exp = expected().get(prop, {})
    obls, funcs, backends = [], {}, {}
    solver = calls = cross = covers = 0.0
    notes = []
    done = set()
    results = []
    names = [c.name for c in con.CONTRACTS]
    shared = {x for x in names if names.count(x) > 1}
    if ids:
        with mp.Pool(min(8, len(ids)), maxtasksperchild=1) as pool:
            rs = [(i, pool.apply_async(job, ((i, sec, samples, replay, seed),))) for i in ids]
            for i, r in rs:
                try:
                    results.append(r.get(max(1.0, budget - (time.time() - t0))))
                    done.add(i)
                except mp.TimeoutError:
                    notes.append("contract %s not finished within the time budget" % con.CONTRACTS[i].name)
            if len(done) < len(ids):
                pool.terminate()
    for i in ids:
        if i not in done:
            c = con.CONTRACTS[i]
            obls.append({"name": c.name + "/all", "status": "unsupported", "reason": "time budget of the check", "backend": "", "s": 0})
    for r in results:
        n = r["contract"]
        fails = r.get("failures", [])
        labels = {}
        for o in r["obligations"]:
            o = dict(o)
            labels[o["name"]] = o
            for b in o["backend"].split("+"):
                if o["status"] == "proved" and b:
                    backends[b] = backends.get(b, 0) + 1
            if o["status"] == "unknown" and o["name"] in exp.get(n, []) and o.get("definite"):
                # accepted on the unchanged tree, not provable now, and the engine understood every path
                o["status"] = "refuted"
                o["replayed"] = False
        for f in fails:
            o = labels.get(f["label"]) or labels.get("all")
            if o is None or o["name"] != f["label"]:
                o = {"name": f["label"], "reason": "", "backend": "", "s": 0}
                labels[f["label"]] = o
            o["status"] = "refuted"
            # an input of an internal function or state is no input of the property's interface
            o["replayed"] = not f.get("internal")
            o["failing_input"] = f
            o["reason"] = "contract clause fails on the real code: %s | %s" % (f["text"][:400], o.get("reason", "")[:400])
        broken = False
        for o in labels.values():
            if n in shared and prop in OWN and o["status"] in ("refuted", "unknown") and not re.search(OWN[prop], o["name"]):
                o.update(status="unsupported", replayed=False, reason="supports the proof only, not a clause of %s: %s" % (prop, o.get("reason", "")))
                broken = broken or re.match("loop|sweep", o["name"])
        for o in labels.values():
            if broken and o["status"] == "proved":   # the proof used the invariant that does not hold
                o.update(status="unsupported", reason="rests on an invariant of the contract that was not proved")
            o["name"] = n + "/" + o["name"]
            o["function"] = r["function"]
            obls.append(o)
        funcs.setdefault(r["function"], 0)
        for c in r["called"]:
            funcs.setdefault(c, 0)
        solver += r["solver_s"]
        calls += r["solver_calls"]
        cross += r["held"]
        covers += r["paths"]
        if r["error"]:
            notes.append("%s: %s" % (n, r["error"][:300]))
    lv = {}
    p = os.path.join(os.path.dirname(HERE), "tools", "levels.json")
    if os.path.exists(p):
        lv = json.load(open(p)).get(prop, {})
    return {"obligations": obls, "functions": sorted(funcs), "assumptions": ASSUMPTIONS, "trusted": TRUSTED, "solver_s": round(solver, 2),
            "backends": dict(backends, **{"z3_queries": int(calls)}), "covers": int(covers), "crosschecks": int(cross), "level": lv.get("level"), "explanation": lv.get("note", ""), "notes": notes,
            "contracts": len(ids), "wall_s": round(time.time() - t0, 2)}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=0)
    ap.add_argument("--out")
    a = ap.parse_args()
    r = collect(a.prop, a.tier, a.seed, a.budget or (400 if a.tier == "quick" else 780))
    s = json.dumps(r, default=str)
    if a.out:
        open(a.out, "w").write(s)
    else:
        print(s)


if __name__ == "__main__":
    main()
