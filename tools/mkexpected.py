"""accept the obligations proved on the current (unchanged) tree: pyvc/expected.json"""
import json, sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from pyvc import con, contracts
import multiprocessing as mp


def go(i):
    return con.run_contract(con.CONTRACTS[i], 100.0, 2, 5, 1)


if __name__ == "__main__":
    props = sys.argv[1:]
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "pyvc", "expected.json")
    try:
        exp = json.load(open(path))
    except OSError:
        exp = {}
    ids = [i for i, c in enumerate(con.CONTRACTS) if not props or c.prop in props]
    for p in {con.CONTRACTS[i].prop for i in ids}:
        exp[p] = {}
    tot = n = 0
    with mp.Pool(8, maxtasksperchild=1) as pool:
        for r in pool.imap(go, ids, chunksize=1):
            ok = sorted(o["name"] for o in r["obligations"] if o["status"] == "proved")
            exp[r["prop"]][r["contract"]] = ok
            tot += len(r["obligations"])
            n += len(ok)
            bad = [o["name"] for o in r["obligations"] if o["status"] != "proved"]
            if bad:
                print(r["prop"], r["contract"], "not proved:", bad, (r["error"] or "")[:150])
    json.dump(exp, open(path, "w"), indent=0, sort_keys=True)
    print(n, "of", tot, "obligations proved")
