"""usage: python -m oracle.run C05 [--tier quick|thorough] [--seed N] [--budget S]  -> one JSON line"""
import argparse
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--max-fail", type=int, default=3)
    ap.add_argument("--out")
    ap.add_argument("--case", help="run only this scenario")
    a = ap.parse_args()
    from oracle.common import Ctx, Stop
    ctx = Ctx(a.prop, a.seed, a.tier, a.budget or (150 if a.tier == "quick" else 600), a.max_fail)
    ctx.only = a.case
    f = None
    err = None
    for mod in ("weights", "mixture", "misc"):
        try:
            m = importlib.import_module("oracle." + mod)
        except ModuleNotFoundError as e:
            if "oracle" in str(e):
                continue
            raise
        if a.prop in m.CHECKS:
            f = m.CHECKS[a.prop]
            break
    if f is None:
        raise SystemExit("no oracle for " + a.prop)
    try:
        f(ctx)
    except Stop:
        pass
    r = ctx.result()
    s = json.dumps(r, default=str)
    if a.out:
        with open(a.out, "w") as fh:
            fh.write(s)
    else:
        print(s)


if __name__ == "__main__":
    main()
