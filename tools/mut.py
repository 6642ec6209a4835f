"""author tool: mut.py PROP[,PROP] FILE OLD NEW [FILE OLD NEW ...] -- run the checks on a scratch copy with the text replaced"""
import json, os, shutil, subprocess, sys, tempfile
props, rest = sys.argv[1].split(","), sys.argv[2:]
d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
try:
    subprocess.run(["cp", "-a", "/repo/.", d], check=True)
    for f, old, new in zip(rest[::3], rest[1::3], rest[2::3]):
        p = os.path.join(d, "pyrichlet", f)
        s = open(p).read()
        old, new = (x.encode().decode("unicode_escape") for x in (old, new))
        assert old in s, old
        open(p, "w").write(s.replace(old, new))
    if os.environ.get("TESTS"):
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", d], cwd=d, env=dict(os.environ, PYTHONPATH=d), capture_output=True, text=True)
        print(r.stdout[-200:])
    for prop in props:
        r = subprocess.run(["python3-vt", "check.py", "--property", prop], cwd="/verif", env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True)
        print(prop, "rc", r.returncode, [x for x in r.stdout.splitlines() if "VIOLATION" in x or "KNOWN" in x][:3], r.stderr[-300:])
        try:
            v = json.load(open("/verif/evidence/logs/%s.vc.json" % prop))
            for o in v["obligations"]:
                if o["status"] != "proved":
                    print("   ", o["status"], o["name"], o.get("replayed"), (o.get("reason") or "")[:160])
            o = json.load(open("/verif/evidence/logs/%s.oracle.json" % prop))
            print("    oracle failures:", [(f["case"], f.get("clause", "")) for f in o["failures"]][:4])
        except Exception as e:
            print(e)
finally:
    shutil.rmtree(d)
