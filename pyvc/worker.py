"""A worker process: evaluates contracts symbolically (proof) or on the real code (replay, cross-check).

Jobs arrive as JSON lines on stdin, results leave as JSON lines on stdout.
"""
import importlib
import json
import os
import sys
import time
import traceback

REPO = os.environ.get("PYVC_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_seen = {}


def _monitor():
    """Record which functions of the code under verification are executed."""
    mon = sys.monitoring
    tool = 4
    mon.use_tool_id(tool, "pyvc")
    root = os.path.join(REPO, "pyown") + os.sep

    def start(code, off):
        if code.co_filename.startswith(root):
            q = code.co_qualname
            if "<" not in q.replace("<locals>", ""):
                _seen[(code.co_filename[len(root):], q.replace(".<locals>", ""))] = code.co_firstlineno
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
    return mon


def load(mode, prop):
    sys.path.insert(0, VERIF)
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    from pyvc import api_common

    if mode == "sym":
        from pyvc import instrument, rt, shims

        instrument.install({"pyown": os.path.join(REPO, "pyown"), "contracts": os.path.join(VERIF, "contracts")},
                           rt, shims.SHIMS)
    else:
        import logging

        logging.disable(logging.CRITICAL)
        sys.path.insert(0, REPO)
    importlib.import_module("contracts." + prop.lower())
    from pyvc import state

    state.save()
    return {h.name: h for h in api_common.REG if h.prop == prop and h.only in (None, mode)}


def run_sym(h, job):
    from pyvc import api, core

    r = core.Run(h.name, h, budget=job.get("budget") or h.budget)
    _seen.clear()
    sys.monitoring.restart_events()
    r.go(api.SymVC())
    rep = r.report()
    rep["functions"] = sorted(f"{f}:{q}" for f, q in _seen)
    rep["doc"] = h.doc
    rep["exact"] = h.exact
    return rep


def run_conc(h, job):
    from pyvc import conc

    _seen.clear()
    sys.monitoring.restart_events()
    r = conc.explore(h, job.get("seed", 1), job.get("seconds", 1.0), job.get("replay"), job.get("limit"), job.get("window"))
    r["functions"] = sorted(f"{f}:{q}" for f, q in _seen)
    return r


def main():
    mode, prop = sys.argv[1], sys.argv[2]
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    try:
        _monitor()
        hs = load(mode, prop)
        out.write(json.dumps(dict(ready=True, harnesses=[
            dict(name=h.name, weight=h.weight, budget=h.budget, exact=h.exact) for h in hs.values()])) + "\n")
    except Exception:
        out.write(json.dumps(dict(ready=False, error=traceback.format_exc()[-1500:])) + "\n")
        out.flush()
        return
    out.flush()
    for line in sys.stdin:
        job = json.loads(line)
        t = time.time()
        try:
            h = hs[job["harness"]]
            r = run_sym(h, job) if mode == "sym" else run_conc(h, job)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            r = dict(harness=job["harness"], error=traceback.format_exc()[-1500:])
        r["mode"] = mode
        r["job_s"] = round(time.time() - t, 2)
        out.write(json.dumps(r, default=str) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
