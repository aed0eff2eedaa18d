#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]      decide one property on /repo's working tree
   check.py --replay <file>                          run a recorded failing input again

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.  2: the check itself failed.
"""
import json
import os
import queue
import select
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PYVC_REPO", "/repo")
EVID = os.environ.get("PYVC_EVIDENCE") or os.path.join(HERE, "evidence")
PY = "/opt/veriftools/pyvenv/bin/python3"
if not os.path.exists(PY):
    PY = "python3-vt"
QUICK_S = 450  # when this is used up, what is left of a quick check gets little time
CORES = max(2, min(8, os.cpu_count() or 2))


class Worker:
    def __init__(self, mode, prop):
        self.mode = mode
        env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYVC_REPO=REPO)
        self.p = subprocess.Popen([PY, "-m", "pyvc.worker", mode, prop], cwd=HERE, env=env, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.hello = self._read(120)

    def _read(self, timeout):
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            return None
        line = self.p.stdout.readline()
        return json.loads(line) if line else None

    def run(self, job, timeout):
        try:
            self.p.stdin.write(json.dumps(job) + "\n")
            self.p.stdin.flush()
        except OSError:
            return None
        return self._read(timeout)

    def kill(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


class Pool:
    """Jobs on persistent worker processes; a worker that dies or hangs costs only its job."""

    def __init__(self, prop):
        self.prop = prop
        self.clock = None
        self.idle = {"sym": [], "conc": []}
        self.lock = threading.Lock()

    def _get(self, mode):
        with self.lock:
            if self.idle[mode]:
                return self.idle[mode].pop()
        return Worker(mode, self.prop)

    def one(self, mode, job, timeout):
        w = self._get(mode)
        if not w.hello or not w.hello.get("ready"):
            w.kill()
            return dict(harness=job["harness"], mode=mode, error=(w.hello or {}).get("error", "worker did not start"))
        r = w.run(job, timeout)
        if r is None:
            w.kill()
            return dict(harness=job["harness"], mode=mode, error="the worker died or ran out of time")
        with self.lock:
            self.idle[mode].append(w)
        return r

    def map(self, jobs):
        """jobs: [(mode, job, timeout)], longest first"""
        q = queue.Queue()
        for i, j in enumerate(jobs):
            q.put((i, j))
        out = [None] * len(jobs)

        def work():
            while True:
                try:
                    i, (mode, job, to) = q.get_nowait()
                except queue.Empty:
                    return
                if self.clock is not None:  # a quick check answers in time, whatever happens
                    left = self.clock()
                    if mode == "sym":
                        job = dict(job, budget=max(5, min(job["budget"], left)))
                        to = job["budget"] + max(20, min(60, left))
                    elif left < -300:
                        out[i] = dict(harness=job["harness"], mode=mode, error="no time left")
                        continue
                try:
                    out[i] = self.one(mode, job, to)
                except Exception as e:
                    out[i] = dict(harness=job["harness"], mode=mode, error=repr(e))

        ts = [threading.Thread(target=work) for _ in range(min(CORES, len(jobs)))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        return out

    def close(self):
        for l in self.idle.values():
            for w in l:
                w.kill()


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(HERE, "known_findings.jsonl")) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get("property") == prop and d.get("status") == "known":
                        out.append(d)
    except FileNotFoundError:
        pass
    return out


def matches(kf, harness, fail):
    return kf.get("harness") == harness and kf.get("label") == fail["label"] and all(
        fail["inputs"].get(k) == v for k, v in kf.get("inputs", {}).items())


def write_replay(prop, d):
    p = os.path.join(EVID, f"{prop}.replay.json")
    with open(p, "w") as f:
        json.dump(d, f, indent=1, default=str)
    return p


def hello(prop, mode, pool):
    w = Worker(mode, prop)
    if not w.hello or not w.hello.get("ready"):
        w.kill()
        return None, (w.hello or {}).get("error", "worker did not start")
    pool.idle[mode].append(w)
    return w.hello["harnesses"], None


def main():
    if sys.argv[1:2] == ["--replay"]:
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    thorough = tier == "thorough"
    pool = Pool(prop)
    if not thorough:
        pool.clock = lambda: QUICK_S - (time.time() - t0)
    sym_h, err1 = hello(prop, "sym", pool)
    conc_h, err2 = hello(prop, "conc", pool)
    if sym_h is None and conc_h is None:
        print(f"ERROR property={prop}: the contracts could not be loaded\n{err2}")
        return 2
    sym_h, conc_h = sym_h or [], conc_h or []
    jobs = []
    for h in sym_h:
        b = h["budget"] * (5 if thorough else 1)
        jobs.append((h["weight"] * 10, ("sym", dict(harness=h["name"], budget=b), b + 60)))
    per = max(0.4, min(6.0, 32.0 / max(1, len(conc_h)))) * (15 if thorough else 1)
    for h in conc_h:
        n = 4 if thorough else 1
        for k in range(n):
            jobs.append((per / 2, ("conc", dict(harness=h["name"], seed=seed + 1000 * k, seconds=per), per + 90)))
    jobs.sort(key=lambda j: -j[0])
    res = pool.map([j for _, j in jobs])
    sym = [r for r in res if r["mode"] == "sym"]
    conc = [r for r in res if r["mode"] == "conc"]
    if err1:
        sym.append(dict(harness="*", mode="sym", error=err1))

    # phase 2: replay counterexamples on the real code; search harder where there is no proof
    more = []
    concnames = {h["name"] for h in conc_h}
    open_ = [r for r in sym if r.get("error") or r["status"] != "proved"]
    for r in open_:
        name = r["harness"]
        for k, m in enumerate(r.get("refuted") or []):
            if name in concnames:
                for s in range(2):
                    more.append(("conc", dict(harness=name, seed=seed + 77 * s, seconds=2.0, replay=m["inputs"], limit=300), 90))
    if open_:
        names = [r["harness"] for r in open_ if r["harness"] in concnames] or sorted(concnames)
        extra = 4 if len(names) > 8 else 10
        for n in names:
            for s in (1, 2):
                more.append(("conc", dict(harness=n, seed=seed + 13 * s, seconds=extra * (6 if thorough else 1)), 200))
    if more and not any(r.get("fail") for r in conc):
        conc += pool.map(more)
    pool.close()

    kfs = known_findings(prop)
    kf_seen = {}
    violation = None
    for r in conc:
        f = r.get("fail")
        if not f:
            continue
        k = next((k for k in kfs if matches(k, r["harness"], f)), None)
        if k is not None:
            kf_seen[k["what"]] = k
            continue
        if violation is None:
            violation = dict(property=prop, kind="failing input on the real code", harness=r["harness"], obligation=f["label"],
                             inputs=f["inputs"], window=f.get("window"), detail=f.get("detail", ""), found_by="replay of the verifier's counterexample or "
                             "concrete evaluation of the same contract", how_to_rerun=f"{PY} {HERE}/check.py --replay <this file>",
                             refuted=[dict(harness=x["harness"], refuted=x.get("refuted")) for x in sym if x.get("refuted")][:5])
    tail = ""
    if violation is None:
        for r in sym:
            # a refutation stands by itself only if every loop on its way was really summarised: with a path the engine
            # could not follow, the state after a loop may be wrong
            if r.get("unsupported") and r.get("loops_cut"):
                continue
            bad = [m for m in (r.get("refuted") or []) if r.get("exact") and not m.get("approx")]
            if bad:
                violation = dict(property=prop, kind="failed obligation", harness=r["harness"], obligation=bad[0]["label"],
                                 inputs=bad[0].get("inputs"), goal=bad[0].get("goal"), verifier_output=bad[:3])
                tail = " no-failing-input-found"
                break
    for k in kfs:
        if k["what"] in kf_seen:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")

    ev = evidence(prop, tier, seed, sym, conc, violation, time.time() - t0)
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    c = ev["coverage"]
    print(f"{prop} [{tier}]: {c['discharged']}/{c['obligations']} obligations, {c['contracts_proved']}/{c['contracts']} contracts "
          f"proved, {c['crosscheck_evaluations']} concrete evaluations, {ev['wall_s']} s")
    for r in sym:
        if r.get("error") or r["status"] != "proved":
            why = r.get("error") or "; ".join(str(x) for x in (
                [m["label"] for m in r["refuted"]] + [u["label"] for u in r["undecided"]] + r["unsupported"]))
            print(f"  not proved: {r['harness']} ({r.get('status', 'error')}): {why[-600:]}")
    for r in conc:
        if r.get("error") or r.get("errors"):
            print(f"  not evaluated: {r['harness']}: {str(r.get('error') or list(r['errors'])[:2])[-400:]}")
    if violation:
        p = write_replay(prop, violation)
        print(f"failed obligation: {violation['harness']}: {violation['obligation']}")
        print(f"VIOLATION property={prop} replay={p}{tail}")
        return 1
    return 0


def evidence(prop, tier, seed, sym, conc, violation, wall):
    done = [r for r in sym if not r.get("error")]
    proved = [r for r in done if r["status"] == "proved"]
    labels = {}
    back = dict(evaluation=0, languages=0, z3=0, cvc5=0)
    solver = {}
    for r in done:
        for k, o in r["by_label"].items():
            labels[f"{r['harness']}: {k}"] = f"{o['discharged']}/{o['n']}"
            back["evaluation"] += o["trivial"]
            back["languages"] += o.get("strings", 0)
            back["z3"] += o["z3"]
            back["cvc5"] += o["cvc5"]
    funcs = sorted({f for r in proved for f in r["functions"]})
    allf = sorted({f for r in done for f in r["functions"]})
    stubs = sorted({s for r in done for s in r["stubs"]})
    bounded = [dict(contract=r["harness"], why=(r.get("error") or "; ".join(
        [str(x.get("label")) for x in r.get("refuted", [])] + [str(x.get("label")) for x in r.get("undecided", [])]
        + list(r.get("unsupported", []))) or r.get("status"))[-500:]) for r in sym if r.get("error") or r["status"] != "proved"]
    only_conc = sorted({r["harness"] for r in conc} - {r["harness"] for r in sym})
    sys.path.insert(0, HERE)
    try:
        from pyvc.trust import assumptions, TRUSTED

        ass = assumptions(prop)
    except Exception as e:  # pragma: no cover
        ass, TRUSTED = [f"(assumption list missing: {e})"], []
    cov = dict(
        obligations=sum(r["obligations"] for r in done),
        discharged=sum(r["discharged"] for r in done),
        checker_cmd=f"{PY} check.py {prop} --tier {tier}",
        trusted_base=TRUSTED,
        contracts=len(sym), contracts_proved=len(proved), fully_proved=bool(sym) and len(proved) == len(sym),
        discharged_by=dict(back, note="evaluation: the goal reduces to true on the path after the path's string/arithmetic facts "
                           "are applied; languages: the engine's regular-language/word-equation procedure; z3, cvc5: SMT query"),
        path_queries=sum(r["queries"] for r in done), paths=sum(r["paths"] for r in done),
        infeasible_paths=sum(r["infeasible"] for r in done),
        solver_seconds=round(sum(r["solver_s"] for r in done), 3),
        proof_seconds=round(sum(r["wall_s"] for r in done), 2),
        slowest_contracts={r["harness"]: round(r["wall_s"], 1) for r in sorted(done, key=lambda r: -r["wall_s"])[:3]},
        loops_cut_by_invariant=sorted({l for r in done for l in r["loops_cut"]}),
        functions_under_contract=funcs, functions_executed_symbolically=allf,
        functions_replaced_by_their_contract=stubs,
        obligations_by_label=labels,
        covers={r["harness"]: r["covers"] for r in done if r["covers"]},
        not_proved_bounded_only=bounded,
        concrete_only_scenarios=only_conc,
        crosscheck_evaluations=sum(r.get("evaluations", 0) for r in conc),
        crosscheck_distinct=sum(r.get("distinct", 0) for r in conc),
        crosscheck_rule="random and corpus-derived inputs (seeded by VERIF_SEED) through the same contracts on the uninstrumented "
                        "code; distinct input vectors counted",
        samples=[s for r in done for s in r["samples"]][:3] + [dict(harness=r["harness"], inputs=s) for r in conc
                                                              for s in r.get("samples", [])[:1]][:3],
    )
    return dict(property=prop, tier=tier, seed=seed, level="proof", coverage=cov, assumptions=ass, wall_s=round(wall, 2),
                violations=1 if violation else 0)


def replay(path):
    d = json.load(open(path))
    pool = Pool(d["property"])
    r = pool.one("conc", dict(harness=d["harness"], seed=1, seconds=5, replay=None if d.get("window") else d.get("inputs") or {}, limit=50,
                              window=d.get("window")), 120)
    pool.close()
    print(json.dumps(r, indent=1))
    return 1 if r.get("fail") else 0


if __name__ == "__main__":
    sys.exit(main())
