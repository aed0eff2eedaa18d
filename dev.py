"""Developer tool: python3-vt dev.py C20 [harness-substring] [sym|conc]"""
import json, sys, time
from pyvc import worker
prop = sys.argv[1]; pat = sys.argv[2] if len(sys.argv) > 2 else ""; modes = sys.argv[3:] or ["sym"]
mode = modes[0]
worker._monitor()
hs = worker.load(mode, prop)
for n, h in hs.items():
    if pat not in n: continue
    t = time.time()
    if mode == "sym":
        r = worker.run_sym(h, {})
        print(n, r["status"], f"obl {r['discharged']}/{r['obligations']} paths {r['paths']} rounds {r['rounds']} q {r['queries']} {time.time()-t:.2f}s")
        for k in ("refuted", "undecided", "unsupported"):
            for x in r[k][:4]: print("   ", k, x)
        c = [k for k, v in r["covers"].items() if not v]
        if c: print("    uncovered", c)
        if "-v" in sys.argv: print(json.dumps({k: r[k] for k in ("by_label", "functions", "loops_cut", "stubs")}, indent=1))
    else:
        r = worker.run_conc(h, dict(seed=1, seconds=float(modes[1]) if len(modes) > 1 and modes[1][0].isdigit() else 1))
        print(n, {k: r[k] for k in ("evaluations", "distinct", "checks", "skipped", "fail", "errors", "covered")})
