#!/usr/bin/env python3
"""Developer tool: apply each behaviour-preserving variant to a scratch copy, run the tests and every check on it.
   python3 tools/quiet.py [-j N] [variant ...] [--props C01,C02]"""
import os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); Vd = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import refactors
args = sys.argv[1:]
n = 2
props = [f"C{i:02d}" for i in range(1, 21)] + ["C22", "C25"]
if "-j" in args:
    i = args.index("-j"); n = int(args[i + 1]); del args[i:i + 2]
if "--props" in args:
    i = args.index("--props"); props = args[i + 1].split(","); del args[i:i + 2]
jobs = []
for name, edits in refactors.V.items():
    if args and name not in args:
        continue
    root = f"/tmp/quiet/{name}"
    shutil.rmtree(root, ignore_errors=True); os.makedirs("/tmp/quiet", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", root])
    bad = 0
    for f, old, new in edits:
        p = os.path.join(root, f); s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != 1:
            print(name, "EDIT matches", s.count(old), f, repr(old[:70])); bad = 1; continue
        open(p, "w", newline="").write(s.replace(old, new))
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=10", "tests"], cwd=root,
                       env=dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True)
    print(name, "tests:", r.stdout.strip().splitlines()[-1])
    jobs += [(name, root, p) for p in props]


def one(j):
    name, root, prop = j
    t = time.time()
    r = subprocess.run(["python3", "check.py", prop], cwd=Vd, env=dict(os.environ, PYVC_REPO=root, PYVC_EVIDENCE=f"/tmp/quiet/ev-{name}"),
                       capture_output=True, text=True)
    out = r.stdout + r.stderr
    m = re.search(r"(\d+)/(\d+) contracts proved", out)
    full = m and m.group(1) == m.group(2)
    if r.returncode or not full:
        print(f"{name:8} {prop} exit {r.returncode} {time.time() - t:4.0f}s {m.group(0) if m else ''}", flush=True)
        print("    " + "\n    ".join(l[:300] for l in out.splitlines() if "not proved" in l or "VIOL" in l or "failed" in l or "not eval" in l), flush=True)
    elif time.time() - t > 150:
        print(f"{name:8} {prop} slow {time.time() - t:4.0f}s", flush=True)


with ThreadPoolExecutor(n) as ex:
    list(ex.map(one, jobs))
print("done")
