#!/usr/bin/env python3
"""Developer tool: mutation testing of the checks.  Mutates pyown in scratch copies, keeps the mutants the repository's tests
accept, and reports the ones no check kills.  Stage 1: every contract evaluated concretely; stage 2 (--full): the checks.
   python3 tools/mutate.py [-j N] [--sample N] [--full] [--files substring] OUT.jsonl"""
import ast, copy, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]


def opt(name, default):
    if name in args:
        i = args.index(name); v = args[i + 1]; del args[i:i + 2]; return v
    return default


N, SAMPLE, FILES = int(opt("-j", 4)), int(opt("--sample", 100000)), opt("--files", "")
full = "--full" in args
if full: args.remove("--full")
OUT = args[0]
PROPS = [c["property"] for c in json.load(open(V + "/MANIFEST.json"))["checks"]]
SWAP = {ast.Lt: [ast.LtE], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
        ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}


def islog(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "log"


def mutants(src):
    """[(line, description, new source)]"""
    tree = ast.parse(src)
    sites = []

    def walk(node, path, infunc):
        for f, v in ast.iter_fields(node):
            if f in ("annotation", "returns", "decorator_list", "type_params"):
                continue
            items = enumerate(v) if isinstance(v, list) else [(None, v)]
            for i, x in items:
                if not isinstance(x, ast.AST) or islog(x):
                    continue
                if isinstance(x, ast.Assign) and ast.unparse(x.targets[0]) == "__all__":
                    continue
                if isinstance(x, ast.Expr) and (isinstance(x.value, ast.Constant) or islog(x.value)):
                    continue
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)) and x.name in ("__repr__", "__str__") and "Item" in str(path):
                    continue
                p = path + [(f, i)]
                sites.append((p, x))
                walk(x, p, infunc)

    walk(tree, [], False)

    def at(t, path):
        for f, i in path:
            t = getattr(t, f)
            if i is not None:
                t = t[i]
        return t

    def put(t, path, new):
        par = at(t, path[:-1]); f, i = path[-1]
        if i is None:
            setattr(par, f, new)
        elif new is None:
            del getattr(par, f)[i]
        else:
            getattr(par, f)[i] = new

    out = []

    def emit(p, x, desc, new):
        t = copy.deepcopy(tree)
        put(t, p, new)
        try:
            s = ast.unparse(ast.fix_missing_locations(t))
            compile(s, "m", "exec")
        except Exception:
            return
        out.append((getattr(x, "lineno", 0), desc, s))

    for p, x in sites:
        if isinstance(x, ast.Compare) and len(x.ops) == 1:
            for o in SWAP.get(type(x.ops[0]), []):
                y = copy.deepcopy(x); y.ops = [o()]
                emit(p, x, f"{ast.unparse(x)} -> {ast.unparse(y)}", y)
        if isinstance(x, ast.BoolOp):
            y = copy.deepcopy(x); y.op = ast.And() if isinstance(x.op, ast.Or) else ast.Or()
            emit(p, x, f"{ast.unparse(x)} -> {ast.unparse(y)}", y)
            for k in range(len(x.values)):
                y = x.values[1 - k] if len(x.values) == 2 else ast.BoolOp(x.op, [v for j, v in enumerate(x.values) if j != k])
                emit(p, x, f"{ast.unparse(x)} -> {ast.unparse(y)}", y)
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
            emit(p, x, f"{ast.unparse(x)} -> {ast.unparse(x.operand)}", x.operand)
        if isinstance(x, ast.Constant):
            if type(x.value) is bool:
                emit(p, x, f"{x.value} -> {not x.value}", ast.Constant(not x.value))
            elif type(x.value) is int:
                for d in (1, -1):
                    emit(p, x, f"{x.value} -> {x.value + d}", ast.Constant(x.value + d))
            elif type(x.value) is str and len(x.value) <= 40 and p[-1][0] != "values" and not any(c == " " for c in x.value):
                emit(p, x, f"{x.value!r} -> {x.value + '1'!r}", ast.Constant(x.value + "1"))
                if x.value:
                    emit(p, x, f"{x.value!r} -> {x.value[:-1]!r}", ast.Constant(x.value[:-1]))
        if isinstance(x, ast.BinOp):
            for a, b in ((ast.Add, ast.Sub), (ast.Sub, ast.Add), (ast.Mult, ast.FloorDiv), (ast.FloorDiv, ast.Mult), (ast.BitAnd, ast.BitOr),
                         (ast.BitOr, ast.BitAnd), (ast.LShift, ast.RShift), (ast.RShift, ast.LShift), (ast.Mod, ast.FloorDiv)):
                if isinstance(x.op, a):
                    y = copy.deepcopy(x); y.op = b()
                    emit(p, x, f"{ast.unparse(x)} -> {ast.unparse(y)}", y)
        if isinstance(x, ast.If):
            for b in (True, False):
                y = copy.deepcopy(x); y.test = ast.Constant(b)
                emit(p, x, f"if {ast.unparse(x.test)} -> {b}", y)
        if isinstance(x, (ast.Expr, ast.Raise, ast.Assign, ast.AugAssign)) and isinstance(p[-1][1], int):
            emit(p, x, f"delete {ast.unparse(x)[:80]}", ast.Pass())
        if isinstance(x, ast.Break):
            emit(p, x, "break -> continue", ast.Continue())
        if isinstance(x, ast.Continue):
            emit(p, x, "continue -> break", ast.Break())
        if isinstance(x, ast.Return) and x.value is not None and not (isinstance(x.value, ast.Constant) and x.value.value is None):
            emit(p, x, f"return {ast.unparse(x.value)[:60]} -> None", ast.Return(ast.Constant(None)))
        if isinstance(x, ast.ExceptHandler) and isinstance(x.type, ast.Tuple):
            for k in range(len(x.type.elts)):
                y = copy.deepcopy(x); del y.type.elts[k]
                emit(p, x, f"except without {ast.unparse(x.type.elts[k])}", y)
        if isinstance(x, ast.Call) and len(x.args) == 2 and not x.keywords and not any(isinstance(a, ast.Starred) for a in x.args):
            y = copy.deepcopy(x); y.args.reverse()
            emit(p, x, f"{ast.unparse(x)[:60]}: arguments swapped", y)
        if isinstance(x, ast.Await):
            pass
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and not x.keywords and x.func.attr in ("strip", "removeprefix", "removesuffix", "lower", "upper"):
            emit(p, x, f"{ast.unparse(x)[:60]} -> {ast.unparse(x.func.value)[:40]}", x.func.value)
    return out


todo = []
for d, _, fs in os.walk("/repo/pyown"):
    for f in sorted(fs):
        p = os.path.relpath(os.path.join(d, f), "/repo")
        if f.endswith(".py") and FILES in p:
            for line, desc, s in mutants(open("/repo/" + p, encoding="utf-8").read()):
                todo.append((p, line, desc, s))
random.Random(7).shuffle(todo)
total = len(todo)
todo = todo[:SAMPLE]
print(total, "mutants,", len(todo), "tried", flush=True)
done = {}
if os.path.exists(OUT):
    for l in open(OUT):
        d = json.loads(l); done[(d["file"], d["line"], d["desc"])] = d
outf = open(OUT, "a")


def kill(root, p, src):
    open(f"{root}/{p}", "w", encoding="utf-8").write(src)
    env = dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE="1")
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=10", "tests"], cwd=root, env=env,
                           capture_output=True, text=True, timeout=60)
        if r.returncode:
            return "tests"
    except subprocess.TimeoutExpired:
        return "tests"
    ev = root + "-ev"
    first = (["C17", "C18", "C19", "C20", "C14", "C15", "C16", "C22"] if "/items/" in p else ["C07", "C08", "C05", "C06"] if "/auth/" in p
             else ["C25", "C22", "C10", "C11", "C12", "C13", "C14"] if "/client/" in p or "/protocol/" in p else [])
    order = [q for q in first if q in PROPS] + [q for q in PROPS if q not in first]
    for prop in order:
        try:
            r = subprocess.run(["python3-vt", V + "/tools/mutconc.py", prop], cwd=V, env=dict(os.environ, PYVC_REPO=root, PYTHONHASHSEED="0"),
                               capture_output=True, text=True, timeout=400)
            if r.returncode == 1:
                return prop + " (concrete) " + r.stdout.strip()[-150:]
            if r.returncode not in (0, 1):
                return prop + " load error " + r.stderr[-100:]
        except subprocess.TimeoutExpired:
            return prop + " timeout"
    if full:
        for prop in order:
            r = subprocess.run(["python3", "check.py", prop], cwd=V, env=dict(os.environ, PYVC_REPO=root, PYVC_EVIDENCE=ev), capture_output=True, text=True)
            if r.returncode == 1:
                return prop + " (full)"
    return "SURVIVED"


def worker(k):
    root = f"/tmp/mut/w{k}"
    shutil.rmtree(root, ignore_errors=True); os.makedirs("/tmp/mut", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", root])
    for i, (p, line, desc, s) in enumerate(todo):
        if i % N != k or (p, line, desc) in done:
            continue
        t = time.time()
        r = kill(root, p, s)
        shutil.copy("/repo/" + p, f"{root}/{p}")
        outf.write(json.dumps(dict(file=p, line=line, desc=desc, result=r, s=round(time.time() - t, 1))) + "\n"); outf.flush()
        if r == "SURVIVED":
            print(p, line, desc, flush=True)


with ThreadPoolExecutor(N) as ex:
    list(ex.map(worker, range(N)))
print("done")
