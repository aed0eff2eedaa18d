#!/usr/bin/env python3
"""Developer tool: no execution of the real code may be missing from the engine's path tree.

For every contract, the inputs of evaluations on the real code (those its precondition admits) are collected; then the
contract is explored symbolically, and every such input must be consistent with at least one explored path: the union of
the paths is the whole precondition.  python3-vt tools/audit.py ID [contract-substring] [seconds] [vectors]"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)


def collect(prop, pat, secs, limit):
    from pyvc import conc, worker
    hs = worker.load("conc", prop)
    out = {}
    for n, h in hs.items():
        if pat not in n or h.only:
            continue
        got = []

        class Rec:
            def __getattr__(self, a):
                return getattr(h, a)

            def __call__(self, vc):
                try:
                    h(vc)
                except conc.Stopped:
                    pass
                x = conc.show(vc.inputs)
                if x not in got and len(got) < limit * 20:
                    got.append(x)

        conc.explore(Rec(), 1, secs)
        step = max(1, len(got) // limit)
        out[n] = got[::step][:limit]
    return out


def audit(prop, pat, vecs):
    from pyvc import api, core, sym, worker
    hs = worker.load("sym", prop)
    bad = 0
    for n, h in hs.items():
        if pat not in n or n not in vecs or not vecs[n]:
            continue
        t = time.time()
        left = {}
        err = {}

        def check(c):
            for i, v in list(left.items()):
                if any(type(x) is int and c.inputs.get(k) != x for k, x in v.items()
                       if k in c.inputs and type(c.inputs[k]) is int):
                    continue

                def fits():
                    for k, x in v.items():
                        y = c.inputs.get(k)
                        if y is None or type(y) is int:
                            continue
                        if isinstance(x, dict):
                            x = x["b"].encode("latin-1")
                        if isinstance(x, bool):
                            c.assume(y.cond if x else __import__("z3").Not(y.cond)) if isinstance(y, sym.SymBool) else None
                            continue
                        if not sym.truth(y == x):
                            raise core.Infeasible()
                    c.check_diseqs()
                    if not c.feasible(__import__("z3").BoolVal(True)):
                        raise core.Infeasible()
                    return True

                try:
                    keep = c.approx, c.run.stats.feas_unknown
                    if c.nested(fits):
                        del left[i]
                except core.Unsupported as e:
                    err[i] = str(e)
                    del left[i]

        def fn(vc):
            c = core.ctx()
            try:
                h(vc)
            except core.Infeasible:
                raise
            except BaseException:
                check(c)
                raise
            check(c)

        r = core.Run(n, fn, budget=900)
        reset = r.reset

        def fresh():
            reset()
            left.clear()
            left.update(enumerate(vecs[n]))
            err.clear()

        r.reset = fresh
        fresh()
        r.go(api.SymVC())
        rep = r.report()
        print(f"{prop} {n}: {rep['status']} paths {rep['paths']} inputs {len(vecs[n])} lost {len(left)} undecided {len(err)} {time.time() - t:.0f}s", flush=True)
        for i, v in list(left.items())[:4]:
            print("    LOST", json.dumps(v)[:400], flush=True)
            bad += 1
        for e in list(set(err.values()))[:2]:
            print("    ", e)
        if rep["status"] != "proved":
            print("    ", (rep["unsupported"] or rep["undecided"] or rep["refuted"])[:1])
    return bad


if __name__ == "__main__":
    if sys.argv[1] == "--collect":
        json.dump(collect(sys.argv[2], sys.argv[3], float(sys.argv[4]), int(sys.argv[5])), open(sys.argv[6], "w"))
        sys.exit(0)
    prop = sys.argv[1]
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    secs = sys.argv[3] if len(sys.argv) > 3 else "1"
    lim = sys.argv[4] if len(sys.argv) > 4 else "60"
    f = f"/tmp/audit-{os.getpid()}.json"
    subprocess.run([sys.executable, __file__, "--collect", prop, pat, secs, lim, f], check=True, stdout=subprocess.DEVNULL)
    vecs = json.load(open(f))
    os.remove(f)
    sys.exit(1 if audit(prop, pat, vecs) else 0)
