#!/usr/bin/env python3
"""Developer tool: run every planted bug's check against a patched copy, N at a time (python3 tools/sweep.py [-j N] [id-prefix ...])."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
n = 3
if args[:1] == ["-j"]:
    n = int(args[1]); args = args[2:]
ids = sorted(d for d in os.listdir(V + "/seeded") if not args or any(d.startswith(a) for a in args))


def one(i):
    root = f"/tmp/sweep/{i}"
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs("/tmp/sweep", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", root])
    subprocess.run(["git", "apply", f"{V}/seeded/{i}/patch.diff"], cwd=root, check=True)
    prop = json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]
    t = time.time()
    ev = f"/tmp/sweep/ev-{i}"
    r = subprocess.run(["python3", "check.py", prop], cwd=V, env=dict(os.environ, PYVC_REPO=root, PYVC_EVIDENCE=ev), capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    shutil.rmtree(root, ignore_errors=True)
    print(f"{i:14} exit {r.returncode} {time.time() - t:5.0f}s {'CAUGHT' if r.returncode == 1 and v else 'MISSED'}"
          f"{' (no input)' if v and all('no-failing' in l for l in v) else ''}", flush=True)
    f = [l.split(":", 1)[1].strip() for l in r.stdout.splitlines() if l.startswith("failed obligation")]
    if f:
        print(f"      {i} -> {f[0][:100]}", flush=True)
    if not v:
        print("     ", (r.stdout + r.stderr).strip()[-400:], flush=True)


with ThreadPoolExecutor(n) as ex:
    list(ex.map(one, ids))
