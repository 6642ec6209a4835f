"""author tool: seedrun.py ID... -- run the property's check on a scratch copy with the planted bug, print what the layers say"""
import json, os, shutil, subprocess, sys, tempfile
for i in sys.argv[1:]:
    d = tempfile.mkdtemp(prefix="sr_", dir="/tmp")
    sd = "/verif/seeded/" + i
    prop = os.environ.get("PROP") or json.load(open(sd + "/meta.json"))["property"]
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    subprocess.run(["git", "apply", sd + "/patch.diff"], cwd=d, check=True)
    subprocess.run(["python3-vt", "check.py", "--property", prop], cwd="/verif", env=dict(os.environ, VERIF_REPO=d, VERIF_SEED=os.environ.get("SEED", "1"), VERIF_TIER="quick"), capture_output=True)
    v = json.load(open("/verif/evidence/logs/%s.vc.json" % prop))
    o = json.load(open("/verif/evidence/logs/%s.oracle.json" % prop))
    print("==", i, prop)
    for x in v["obligations"]:
        if x["status"] != "proved":
            print("   ", x["status"], x["name"], x.get("replayed"), (x.get("reason") or "")[:200])
    print("    oracle:", [(f["case"], f["what"][:60]) for f in o["failures"]][:3], "undecided", o["n_undecided"])
    shutil.rmtree(d)
