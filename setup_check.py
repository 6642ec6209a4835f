"""verifies that the tools the checks need are present (nothing is built or installed)"""
import os
import subprocess
import sys
import z3  # noqa: F401
subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy, pandas, sklearn"], check=True)
assert os.path.isdir("/repo/pyrichlet")
os.makedirs(os.path.join(os.path.dirname(os.path.abspath(__file__)), "evidence"), exist_ok=True)
print("ready", sys.version.split()[0], z3.get_version_string())
