"""development driver: run contracts of one property, in parallel"""
import sys, json, multiprocessing as mp
from . import con
from . import contracts

def go(i):
    c = con.CONTRACTS[i]
    return con.run_contract(c, seconds=float(sys.argv[3]) if len(sys.argv) > 3 else 60)

def main():
    prop = sys.argv[1]
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    ids = [i for i, c in enumerate(con.CONTRACTS) if (prop == "all" or c.prop == prop) and __import__("re").search(pat, c.name)]
    with mp.Pool(min(8, max(1, len(ids))), maxtasksperchild=1) as p:
        for r in p.imap(go, ids, chunksize=1):
            bad = [o for o in r["obligations"] if o["status"] != "proved"]
            print("%-4s %-40s %3d/%3d proved  paths %d  held %d fails %d  %.1fs (z3 %.1fs/%d) %s" % (r["prop"], r["contract"], len(r["obligations"]) - len(bad), len(r["obligations"]), r["paths"], r["held"], r["fails"], r["symbolic_s"], r["solver_s"], r["solver_calls"], (r["error"] or "")[:500]))
            for o in bad[:3 if r["error"] else 99]:
                print("      ", o["status"], o["name"], o["reason"][:9000])
            if r["first"]:
                print("       CONCRETE:", r["first"]["label"], r["first"]["text"][:300], json.dumps(r["first"]["inputs"])[:300])
            if r["skips"]:
                print("       skips:", r["skips"])

if __name__ == "__main__":
    main()
