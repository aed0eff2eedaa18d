#!/usr/bin/env python3
"""Developer tool: build /verif/seeded/<id> from bugs.py and confirm it (python3 tools/plant.py [id ...] [--check] [--all]).

Each bug: id, prop, edits [(file, old, new)], demo (python text), needs, breaks.
Confirms in a scratch copy: applies, builds, stable tests pass, demo 0 before / nonzero after.
--check: runs the property's check against the bug (PYVC_REPO points at the copy) and prints the verdict."""
import json, os, shutil, subprocess, sys, textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import bugs

DEMO = '#!/bin/bash\n# exit 0: the property holds; nonzero: broken\nhere="$(cd "$(dirname "$0")" && pwd)"\nPY=/opt/venv/bin/python; [ -x "$PY" ] || PY=python3\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" timeout 120 "$PY" "$here/demo.py"\n'
SCR = "/tmp/plant"


def sh(c, **k):
    return subprocess.run(c, shell=isinstance(c, str), capture_output=True, text=True, **k)


def tests(root):
    code = open("/opt/vp/test.sh").read()
    r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=10", "-o", "timeout_method=signal",
            "-rA", "tests"], cwd=root, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=root))
    ok = {l.split()[1] for l in r.stdout.splitlines() if l.startswith("PASSED ")}
    return ok, r.stdout[-600:]


def plant(b, base_ok):
    root = f"{SCR}/{b['id']}"
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(SCR, exist_ok=True)
    sh(["cp", "-a", "/repo", root])
    for f, old, new in b["edits"]:
        p = os.path.join(root, f)
        s = open(p, newline="").read()
        crlf = "\r\n" in s
        if crlf:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if s.count(old) != 1:
            print(b["id"], "EDIT: matches", s.count(old), f, repr(old[:60])); return None
        open(p, "w", newline="").write(s.replace(old, new))
    d = f"{V}/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "diff", "--no-color"], cwd=root, capture_output=True).stdout
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(textwrap.dedent(b["demo"]).lstrip())
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
    ok, tail = tests(root)
    if not base_ok <= ok:
        print(b["id"], "TESTS fail:", sorted(base_ok - ok)[:3]); return None
    r = sh(["bash", d + "/demo.sh"], cwd="/repo")
    if r.returncode:
        print(b["id"], "DEMO fails on clean:", r.stdout[-300:], r.stderr[-600:]); return None
    r2 = sh(["bash", d + "/demo.sh"], cwd=root)
    if r2.returncode == 0:
        print(b["id"], "DEMO passes on bug"); return None
    a = sh(["git", "apply", "--check", d + "/patch.diff"], cwd="/repo")
    if a.returncode:
        print(b["id"], "APPLY:", a.stderr); return None
    # lines touched must be original ones
    touched = []
    cur = None
    for l in diff.decode().splitlines():
        if l.startswith("--- "):
            cur = l[6:].strip()
        elif l.startswith("@@"):
            n = int(l.split()[1].lstrip("-").split(",")[0])
        elif l.startswith("-"):
            touched.append((cur, n)); n += 1
        elif l.startswith(" "):
            n += 1
    orig = 0
    for f, n in touched:
        bl = sh(["git", "blame", "-l", "-s", "-L", f"{n},{n}", "f0fe885..HEAD", "--", f], cwd="/repo").stdout
        orig += bl.startswith("^")
    if not orig:
        print(b["id"], "NOT ORIGINAL lines"); return None
    print(b["id"], "ok  demo:", (r2.stdout + r2.stderr).strip().splitlines()[-1:] )
    return root


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    base_ok, _ = tests("/repo")
    for b in bugs.BUGS:
        if ids and not any(b["id"] == i or b["prop"] == i or b["id"].startswith(i) and i.endswith("-") for i in ids):
            continue
        root = plant(b, base_ok)
        if root and "--check" in sys.argv:
            r = sh(["python3", "check.py", b["prop"]], cwd=V, env=dict(os.environ, PYVC_REPO=root))
            v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
            print("    check:", r.returncode, v[:2] or (r.stdout + r.stderr).strip().splitlines()[-2:])
        if not root:
            shutil.rmtree(f"{V}/seeded/{b['id']}", ignore_errors=True)
        shutil.rmtree(f"{SCR}/{b['id']}", ignore_errors=True)


main()
