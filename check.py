#!/usr/bin/env python3
"""Decide one property of /repo's current working tree.

python3-vt /verif/check.py --property C05 [--tier quick|thorough]

1. deductive phase: pyvc parses /repo, generates the verification conditions of
   the contracts the property rests on and discharges them;
2. concrete phase: the same contracts evaluated on the real code (replay of
   counter-models, bounded stand-in for functions out of the verifier's reach);
3. verdict and evidence/<id>.json.
"""
import argparse
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/venv/bin/python"
VT = "/opt/veriftools/pyvenv/bin/python"


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: "):
                out.append(line[len("known: "):].strip())
    return out


def start(cmd, log):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    return subprocess.Popen(cmd, cwd=HERE, stdout=open(log + ".out", "w"), stderr=open(log + ".err", "w"), env=env)


def wait(p, t):
    try:
        return p.wait(timeout=max(1, t))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return None


def load(path):
    try:
        with open(path) as fh:
            return json.load(fh)
    except (OSError, ValueError):
        return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    pid, t0 = a.property, time.time()
    ev = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(ev, "replays"), exist_ok=True)
    os.makedirs(os.path.join(ev, "logs"), exist_ok=True)
    log = os.path.join(ev, "logs", pid)
    res_o, res_d = log + ".oracle.json", log + ".vc.json"
    for f in (res_o, res_d):
        if os.path.exists(f):
            os.unlink(f)
    total = 780 if a.tier == "quick" else 860
    budget = 200 if a.tier == "quick" else 600
    po = start([VENV, "-m", "oracle.run", pid, "--tier", a.tier, "--seed", str(a.seed), "--budget", str(budget), "--out", res_o], log + ".oracle")
    pdv = start([VENV, "-m", "pyvc.main", pid, "--tier", a.tier, "--seed", str(a.seed), "--out", res_d], log + ".vc")
    rc_d = wait(pdv, total - (time.time() - t0))
    rc_o = wait(po, total - (time.time() - t0))
    orc, vc = load(res_o), load(res_d)
    errors = []
    if orc is None:
        errors.append("the concrete phase gave no result (exit %s): %s" % (rc_o, open(log + ".oracle.err").read()[-800:]))
    if vc is None:
        errors.append("the deductive phase gave no result (exit %s): %s" % (rc_d, open(log + ".vc.err").read()[-800:]))
        vc = {"obligations": [], "functions": [], "assumptions": [], "solver_s": 0, "backends": {}, "notes": ["deductive phase unavailable: " + errors[-1][:300]]}
    obs = vc["obligations"]
    proved = [o for o in obs if o["status"] == "proved"]
    refuted = [o for o in obs if o["status"] == "refuted"]
    other = [o for o in obs if o["status"] not in ("proved", "refuted")]

    known = known_findings()
    violations = []
    for f in (orc or {}).get("failures", []):
        hit = [k for k in known if k.startswith("property=%s " % pid) and ("case=%s " % f["case"]) in k + " "]
        if hit:
            print("KNOWN-FINDING: " + hit[0])
            continue
        violations.append(("input", f))
    for o in refuted:
        violations.append(("replayed" if o.get("replayed") else "obligation", o))
    replay = os.path.join(ev, "replays", pid + ".json")
    if os.path.exists(replay):
        os.unlink(replay)

    # ------------------------------------------------------------- evidence
    cov = {}
    if obs:
        cov.update({
            "obligations": len(obs), "discharged": len(proved),
            "checker_cmd": "%s -m pyvc.main %s --tier %s" % (VENV, pid, a.tier),
            "trusted_base": vc.get("trusted", []),
            "functions_under_contract": vc.get("functions", []),
            "backends": vc.get("backends", {}), "solver_s": vc.get("solver_s", 0),
            "undischarged": [{"name": o["name"], "status": o["status"], "reason": o.get("reason", "")[:300]} for o in other + refuted],
            "reachability_checks": vc.get("covers", 0), "crosschecks_against_cpython": vc.get("crosschecks", 0),
            "obligation_list": [{"name": o["name"], "status": o["status"], "backend": o.get("backend"), "s": o.get("s")} for o in obs],
        })
    if orc:
        cov.update({"evaluations": orc["evaluations"], "distinct_nontrivial": orc["distinct"],
                    "rule": "bounded stand-in / replay layer, not counted as proved: concrete contract evaluations on the real code; a case is one scenario "
                            "(model, parameters, call history, data), distinct by its full label, and counts only if it evaluated at least one contract clause",
                    "samples": orc["samples"], "concrete_cases": orc["cases"], "concrete_undecided": orc["undecided"],
                    "concrete_skipped_over_budget": orc["skipped_over_budget"]})
    level = vc.get("level") or "exploration"
    if level == "proof" and (not obs or len(proved) != len(obs)):
        # reported as it was: the remaining obligations were decided by the bounded stand-in only
        cov["explanation"] = "%d of %d obligations discharged on this run; the others rest on the bounded stand-in" % (len(proved), len(obs))
    cov.setdefault("explanation", vc.get("explanation", ""))
    rec = {"property": pid, "tier": a.tier, "seed": a.seed, "level": level, "coverage": cov,
           "assumptions": vc.get("assumptions", []) + ["concrete cases are bounded: they cover the sampled inputs only"],
           "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    if errors:
        rec["coverage"]["errors"] = errors
    with open(os.path.join(ev, pid + ".json"), "w") as fh:
        json.dump(rec, fh, indent=1, default=str)

    # -------------------------------------------------------------- verdict
    print("%s: %d/%d obligations discharged, %d concrete evaluations in %d cases, %.1f s" % (
        pid, len(proved), len(obs), (orc or {}).get("evaluations", 0), (orc or {}).get("cases", 0), time.time() - t0))
    for o in other:
        print("UNDECIDED obligation (bounded stand-in only): %s: %s" % (o["name"], o.get("reason", "")[:200]))
    if violations:
        with open(replay, "w") as fh:
            json.dump({"property": pid,
                       "failing_inputs": [dict(f, reproduce="cd /verif && %s -m oracle.run %s --tier %s --seed %d --case %r" % (VENV, pid, a.tier, a.seed, f["case"]))
                                          for k, f in violations if k == "input"],
                       "failed_obligations": refuted}, fh, indent=1, default=str)
        with_input = any(k in ("input", "replayed") for k, _ in violations)
        k, f = violations[0]
        print(json.dumps(f, default=str)[:1500])
        print("VIOLATION property=%s replay=%s%s" % (pid, replay, "" if with_input else " no-failing-input-found"))
        return 1
    if errors:
        for e in errors:
            print("ERROR", e)
        return 0 if orc is not None and orc["evaluations"] else 3
    if orc["evaluations"] == 0 and not proved:
        print("ERROR nothing was checked")
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
