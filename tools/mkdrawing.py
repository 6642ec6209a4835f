"""the contracts whose functions draw variates (their source reading is part of C27): pyvc/drawing.json"""
import json, sys, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from pyvc import con, contracts
import multiprocessing as mp


def go(i):
    c = con.CONTRACTS[i]
    r = con.run_contract(con.Contract("C27", c.func, c.f, c.name, False, dict(c.opts, source=True)), 60.0, 0, 0, 1)
    return c.name, any(o["status"] == "proved" for o in r["obligations"]), [o for o in r["obligations"] if o["status"] != "proved" and o["reason"] != "no obligation generated"], r["error"]


if __name__ == "__main__":
    names = set()
    ids = [i for i, c in enumerate(con.CONTRACTS) if not c.opts.get("source") and c.prop != "C27"]
    with mp.Pool(8, maxtasksperchild=1) as pool:
        for nm, ok, bad, err in pool.imap(go, ids, chunksize=1):
            if bad:
                print(nm, bad, err)
            if ok and not bad:
                names.add(nm)
    old = set(json.load(open(os.path.join(H, "pyvc", "drawing.json"))))
    print("new", sorted(names - old), "gone", sorted(old - names))
    json.dump(sorted(names), open(os.path.join(H, "pyvc", "drawing.json"), "w"), indent=0)
