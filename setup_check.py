"""Nothing to build: checks that the tools the checks need are there."""
import os
import subprocess
import sys

PY = "/opt/veriftools/pyvenv/bin/python3"
if not os.path.exists(PY):
    PY = "python3-vt"
r = subprocess.run([PY, "-c", "import z3, sys; sys.path.insert(0, '.'); import pyvc.core, pyvc.lang, pyvc.sym, pyvc.rt, "
                    "pyvc.shims; print(z3.get_version_string())"], cwd=os.path.dirname(os.path.abspath(__file__)))
sys.exit(r.returncode)
