"""Mechanical instrumentation of the code under verification.

The source text is read from the working tree on every run and rewritten, node by
node, so that the operations CPython cannot perform on symbolic values are routed
through the engine (`_vc_`).  Nothing is dropped: every statement of the file is
executed by CPython, annotations and docstrings included.  The rewriting is the
identity on concrete values (cross-checked by running the repository's behaviour
both ways, see check.py --selftest).
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys


def _name(n, ctx=None):
    return ast.Name(id=n, ctx=ctx or ast.Load())


def _vc(attr):
    return ast.Attribute(value=_name("_vc_"), attr=attr, ctx=ast.Load())


def _const(v):
    return ast.Constant(value=v)


_PURE = {"strip", "lstrip", "rstrip", "split", "rsplit", "partition", "rpartition", "find", "rfind", "index", "count", "startswith",
         "endswith", "removeprefix", "removesuffix", "isdigit", "isdecimal", "isascii", "replace", "lower", "upper", "encode", "decode"}


def _plain(e):
    """An expression without effects, which may be computed again."""
    for x in ast.walk(e):
        if isinstance(x, ast.Call) and not (
                isinstance(x.func, ast.Attribute) and x.func.attr in _PURE
                or isinstance(x.func, ast.Name) and x.func.id in ("str", "int", "len", "ord", "chr", "bool", "isinstance")):
            return False
        if not isinstance(x, (ast.expr, ast.expr_context, ast.operator, ast.cmpop, ast.unaryop, ast.boolop, ast.keyword)) or isinstance(
                x, (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.ListComp, ast.GeneratorExp, ast.Lambda)):
            return False
    return True


class _Assigned(ast.NodeVisitor):
    """Local names (re)bound in a loop body, not descending into nested scopes."""

    def __init__(self):
        self.names = []
        self.accs = []  # names of objects appended to

    def add(self, n):
        if n not in self.names and not n.startswith("_vc_"):
            self.names.append(n)

    def visit_Name(self, node):
        if isinstance(node.ctx, (ast.Store, ast.Del)):
            self.add(node.id)

    def visit_Call(self, node):
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in ("append", "extend") and isinstance(f.value, ast.Name):
            if f.value.id not in self.accs and not f.value.id.startswith("_vc_"):
                self.accs.append(f.value.id)
        self.generic_visit(node)

    def visit_FunctionDef(self, node):
        self.add(node.name)

    visit_AsyncFunctionDef = visit_FunctionDef
    visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, node):
        pass

    def visit_ListComp(self, node):
        for g in node.generators:
            self.visit(g.iter)

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_ExceptHandler(self, node):
        if node.name:
            self.add(node.name)
        self.generic_visit(node)

    def visit_MatchAs(self, node):
        if node.name:
            self.add(node.name)
        self.generic_visit(node)

    def visit_MatchStar(self, node):
        if node.name:
            self.add(node.name)


class _HasAwait(ast.NodeVisitor):
    def __init__(self):
        self.found = False

    def visit_Await(self, node):
        self.found = True

    visit_Yield = visit_YieldFrom = visit_NamedExpr = visit_Await


def _has_await(*nodes):
    v = _HasAwait()
    for n in nodes:
        v.visit(n)
    return v.found


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.modname = modname
        self.scope = []  # 'class', 'func', 'module'
        self.qual = []
        self.globals_ = [set()]
        self.locals_ = [set()]
        self.n = 0
        self.fns = []

    # -- scopes -------------------------------------------------------------
    def _func(self, node):
        import copy as _copy

        self.fns.append(_copy.deepcopy(node))
        try:
            return self._func1(node)
        finally:
            self.fns.pop()

    def _func1(self, node):
        decl = set()
        for s in ast.walk(node):
            if isinstance(s, (ast.Global, ast.Nonlocal)):
                decl.update(s.names)
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.scope.append("func")
        self.qual.append(node.name)
        self.globals_.append(decl)
        asn = _Assigned()
        for b in node.body:
            asn.visit(b)
        a = node.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        self.locals_.append(set(asn.names) - decl - params)
        node.body = self._body(node.body)
        self.locals_.pop()
        self.globals_.pop()
        self.qual.pop()
        self.scope.pop()
        return node

    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if isinstance(r, list):
                out.extend(r)
            elif r is not None:
                out.append(r)
        return out

    visit_FunctionDef = _func
    visit_AsyncFunctionDef = _func

    def visit_Lambda(self, node):
        self.scope.append("func")
        self.generic_visit(node)
        self.scope.pop()
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        self.scope.append("class")
        self.qual.append(node.name)
        node.body = self._body(node.body)
        self.qual.pop()
        self.scope.pop()
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if isinstance(node.target, ast.Subscript):
            node.target.value = self.visit(node.target.value)
            node.target.slice = self.visit(node.target.slice)
        elif isinstance(node.target, ast.Attribute):
            node.target.value = self.visit(node.target.value)
        return node

    def visit_arg(self, node):
        return node  # leave annotations alone

    def visit_Try(self, node):
        """An exception of the engine is not the program's to handle."""
        self.generic_visit(node)
        if node.handlers and "func" in self.scope:
            name = "_vc_exc"
            check = ast.Expr(ast.Call(func=_vc("engine_error"), args=[ast.Name(id=name, ctx=ast.Load())], keywords=[]))
            h = ast.ExceptHandler(type=_vc("Exception_"), name=name, body=[check, ast.Raise()])
            stop = ast.ExceptHandler(type=_vc("EngineStop"), name=None, body=[ast.Raise()])
            node.handlers = [ast.copy_location(stop, node)] + node.handlers
            node.body = [ast.copy_location(ast.Try(body=node.body, handlers=[h], orelse=[], finalbody=[]), node)]
        return node

    def visit_Match(self, node):
        subject = self.visit(node.subject)
        if "func" not in self.scope or any(isinstance(p, ast.MatchMapping) for c in node.cases for p in ast.walk(c.pattern)):
            node.subject = ast.copy_location(ast.Call(func=_vc("plain_subject"), args=[subject], keywords=[]), subject)
            for c in node.cases:
                if c.guard is not None:
                    c.guard = self.visit(c.guard)
                c.body = self._body(c.body)
            return node  # patterns untouched
        # otherwise: the same tests as a chain of conditions (captures bind as they are reached, as in CPython)
        self.n += 1
        tmp = f"_vc_m{self.n}"
        chain = []
        for c in reversed(node.cases):
            test = self._pattern(c.pattern, lambda: _name(tmp))
            if c.guard is not None:
                test = ast.BoolOp(op=ast.And(), values=[test, self.visit(c.guard)])
            chain = [ast.copy_location(ast.If(test=test, body=self._body(c.body), orelse=chain), c.pattern)]
        first = ast.copy_location(ast.Assign(targets=[_name(tmp, ast.Store())], value=subject), node)
        return [first] + chain

    def _pattern(self, p, subj):
        """An expression that is true when the pattern matches subj()."""
        def all_(tests):
            return tests[0] if len(tests) == 1 else ast.BoolOp(op=ast.And(), values=tests)

        def temp(value):
            self.n += 1
            t = f"_vc_m{self.n}"
            return t, ast.NamedExpr(target=_name(t, ast.Store()), value=value)

        def item(t, i):
            return lambda: ast.Subscript(value=_name(t), slice=_const(i), ctx=ast.Load())

        if isinstance(p, ast.MatchValue):
            return ast.Compare(left=subj(), ops=[ast.Eq()], comparators=[self.visit(p.value)])
        if isinstance(p, ast.MatchSingleton):
            return ast.Call(func=_vc("same_object"), args=[subj(), _const(p.value)], keywords=[])
        if isinstance(p, ast.MatchAs):
            tests = [self._pattern(p.pattern, subj)] if p.pattern is not None else []
            if p.name is not None:
                tests.append(ast.Call(func=_vc("true"), args=[
                    ast.NamedExpr(target=_name(p.name, ast.Store()), value=subj())], keywords=[]))
            return all_(tests or [_const(True)])
        if isinstance(p, ast.MatchOr):
            return ast.BoolOp(op=ast.Or(), values=[self._pattern(x, subj) for x in p.patterns])
        if isinstance(p, ast.MatchSequence):
            stars = [i for i, x in enumerate(p.patterns) if isinstance(x, ast.MatchStar)]
            n = len(p.patterns)
            args = [subj(), _const(stars[0] if stars else n), _const(n - stars[0] - 1 if stars else None)]
            t, w = temp(ast.Call(func=_vc("match_seq"), args=args, keywords=[]))
            tests = [ast.Compare(left=w, ops=[ast.IsNot()], comparators=[_const(None)])]
            for i, x in enumerate(p.patterns):
                if isinstance(x, ast.MatchStar):
                    if x.name is not None:
                        tests.append(ast.Call(func=_vc("true"), args=[
                            ast.NamedExpr(target=_name(x.name, ast.Store()), value=item(t, i)())], keywords=[]))
                else:
                    tests.append(self._pattern(x, item(t, i)))
            return all_(tests)
        if isinstance(p, ast.MatchClass):
            args = [subj(), self.visit(p.cls), _const(len(p.patterns)),
                    ast.Tuple(elts=[_const(a) for a in p.kwd_attrs], ctx=ast.Load())]
            t, w = temp(ast.Call(func=_vc("match_class"), args=args, keywords=[]))
            tests = [ast.Compare(left=w, ops=[ast.IsNot()], comparators=[_const(None)])]
            for i, x in enumerate(list(p.patterns) + list(p.kwd_patterns)):
                tests.append(self._pattern(x, item(t, i)))
            return all_(tests)
        raise NotImplementedError(type(p).__name__)

    def visit_Delete(self, node):
        if "func" not in self.scope:
            return self.generic_visit(node)
        node = self.generic_visit(node)
        out = []
        for t in node.targets:
            if isinstance(t, ast.Subscript):
                sl = t.slice
                if isinstance(sl, ast.Slice):
                    sl = ast.Call(func=_vc("mkslice"), args=[sl.lower or _const(None), sl.upper or _const(None),
                                                            sl.step or _const(None)], keywords=[])
                out.append(ast.Expr(ast.Call(func=_vc("delitem"), args=[t.value, sl], keywords=[])))
            else:
                out.append(ast.Delete(targets=[t]))
        return [ast.copy_location(o, node) for o in out]

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and "func" in self.scope:
            return ast.copy_location(ast.Call(func=_vc("mod"), args=[node.left, node.right], keywords=[]), node)
        return node

    # -- expressions --------------------------------------------------------
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id in ("super", "locals", "globals"):
            return self.generic_visit(node)
        args = [self.visit(a) for a in node.args]
        kws = [self.visit(k) for k in node.keywords]
        if isinstance(node.func, ast.Attribute):
            obj = self.visit(node.func.value)
            attr = node.func.attr
            if attr.startswith("__") and not attr.endswith("__"):
                cls = [q for q, s in zip(self.qual, self.scope) if s == "class"]
                if cls:
                    attr = "_" + cls[-1].lstrip("_") + attr
            new = ast.Call(func=_vc("callm"), args=[obj, _const(attr)] + args, keywords=kws)
        else:
            new = ast.Call(func=_vc("call"), args=[self.visit(node.func)] + args, keywords=kws)
        return ast.copy_location(new, node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else _const("")
                parts.append(
                    ast.Tuple(
                        elts=[self.visit(v.value), _const(v.conversion), spec], ctx=ast.Load()
                    )
                )
        return ast.copy_location(ast.Call(func=_vc("fstr"), args=parts, keywords=[]), node)

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            if len(node.ops) != 1:
                return node  # chained membership: left native (leaks are detected)
            c = ast.Call(func=_vc("contains"), args=[node.left, node.comparators[0]], keywords=[])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.UnaryOp(op=ast.Not(), operand=c)
            return ast.copy_location(c, node)
        return node

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and self.scope and "func" in self.scope:
            sl = node.slice
            if isinstance(sl, ast.Slice):
                sl = ast.Call(
                    func=_vc("mkslice"),
                    args=[sl.lower or _const(None), sl.upper or _const(None), sl.step or _const(None)],
                    keywords=[],
                )
            return ast.copy_location(
                ast.Call(func=_vc("getitem"), args=[node.value, sl], keywords=[]), node
            )
        return node

    def _display(self, node, fn):
        node = self.generic_visit(node)
        if isinstance(getattr(node, "ctx", ast.Load()), ast.Load) and any(
            isinstance(e, ast.Starred) for e in node.elts
        ):
            parts = []
            for e in node.elts:
                if isinstance(e, ast.Starred):
                    parts.append(ast.Tuple(elts=[_const(True), e.value], ctx=ast.Load()))
                else:
                    parts.append(ast.Tuple(elts=[_const(False), e], ctx=ast.Load()))
            return ast.copy_location(ast.Call(func=_vc(fn), args=parts, keywords=[]), node)
        return node

    def visit_Tuple(self, node):
        if "func" not in self.scope:
            return self.generic_visit(node)
        return self._display(node, "mktuple")

    def visit_List(self, node):
        if "func" not in self.scope:
            return self.generic_visit(node)
        return self._display(node, "mklist")

    def _comp(self, node, fn, elts):
        gens = node.generators
        ok = (
            len(gens) == 1
            and not gens[0].is_async
            and isinstance(gens[0].target, (ast.Name, ast.Tuple))
            and not _has_await(*elts, *gens[0].ifs)
            and "func" in self.scope
        )
        if isinstance(gens[0].target, ast.Tuple):
            ok = ok and all(isinstance(e, ast.Name) for e in gens[0].target.elts)
        if not ok:
            return self.generic_visit(node)
        tgt = gens[0].target
        it = self.visit(gens[0].iter)
        self.scope.append("func")

        def lam(body):
            names = [tgt.id] if isinstance(tgt, ast.Name) else [e.id for e in tgt.elts]
            args = ast.arguments(
                posonlyargs=[],
                args=[ast.arg(arg=n) for n in names],
                kwonlyargs=[],
                kw_defaults=[],
                defaults=[],
            )
            l = ast.Lambda(args=args, body=body)
            if isinstance(tgt, ast.Name):
                return l
            return ast.Call(func=_vc("untuple"), args=[l], keywords=[])

        conds = [self.visit(i) for i in gens[0].ifs]
        cond = None
        if conds:
            cond = conds[0] if len(conds) == 1 else ast.BoolOp(op=ast.And(), values=conds)
        bodies = [self.visit(e) for e in elts]
        body = bodies[0] if len(bodies) == 1 else ast.Tuple(elts=bodies, ctx=ast.Load())
        self.scope.pop()
        args = [it, lam(body), lam(cond) if cond is not None else _const(None)]
        return ast.copy_location(ast.Call(func=_vc(fn), args=args, keywords=[]), node)

    def visit_ListComp(self, node):
        g = node.generators
        if (
            len(g) == 1
            and g[0].is_async
            and not g[0].ifs
            and isinstance(g[0].target, ast.Name)
            and isinstance(node.elt, ast.Name)
            and node.elt.id == g[0].target.id
        ):
            it = self.visit(g[0].iter)
            return ast.copy_location(
                ast.Await(value=ast.Call(func=_vc("alist"), args=[it], keywords=[])), node
            )
        return self._comp(node, "listcomp", [node.elt])

    def visit_SetComp(self, node):
        return self._comp(node, "setcomp", [node.elt])

    def visit_GeneratorExp(self, node):
        return self._comp(node, "genexp", [node.elt])

    def visit_DictComp(self, node):
        return self._comp(node, "dictcomp", [node.key, node.value])

    # -- statements ---------------------------------------------------------
    def visit_Assign(self, node):
        if "func" not in self.scope:
            return self.generic_visit(node)
        node = self.generic_visit(node)
        t = node.targets[0]
        if len(node.targets) == 1 and isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
            return ast.copy_location(
                ast.Expr(ast.Call(func=_vc("setitem"), args=[t.value, t.slice, node.value], keywords=[])),
                node,
            )
        if len(node.targets) > 1 and any(
            isinstance(x, ast.Subscript) and not isinstance(x.slice, ast.Slice) for x in node.targets
        ):
            self.n += 1
            tmp = f"_vc_t{self.n}"
            out = [ast.Assign(targets=[_name(tmp, ast.Store())], value=node.value)]
            for x in node.targets:
                if isinstance(x, ast.Subscript) and not isinstance(x.slice, ast.Slice):
                    out.append(
                        ast.Expr(ast.Call(func=_vc("setitem"), args=[x.value, x.slice, _name(tmp)], keywords=[]))
                    )
                else:
                    out.append(ast.Assign(targets=[x], value=_name(tmp)))
            return [ast.copy_location(o, node) for o in out]
        if len(node.targets) == 1 and isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if len(stars) == 1:
                i = stars[0]
                node.value = ast.Call(
                    func=_vc("unpack_ex"),
                    args=[node.value, _const(i), _const(len(t.elts) - i - 1)],
                    keywords=[],
                )
                t.elts[i] = t.elts[i].value
            elif not stars:
                node.value = ast.Call(
                    func=_vc("unpack"), args=[node.value, _const(len(t.elts))], keywords=[]
                )
        return node

    def visit_AugAssign(self, node):
        node = self.generic_visit(node)
        if "func" in self.scope and isinstance(node.op, ast.Add):
            if isinstance(node.target, ast.Name):
                load = _name(node.target.id)
                return ast.copy_location(
                    ast.Assign(
                        targets=[node.target],
                        value=ast.Call(func=_vc("iadd"), args=[load, node.value], keywords=[]),
                    ),
                    node,
                )
            if isinstance(node.target, ast.Attribute) and isinstance(node.target.value, ast.Name):
                load = ast.Attribute(value=node.target.value, attr=node.target.attr, ctx=ast.Load())
                return ast.copy_location(
                    ast.Assign(
                        targets=[node.target],
                        value=ast.Call(func=_vc("iadd"), args=[load, node.value], keywords=[]),
                    ),
                    node,
                )
        return node

    def _collects(self, node):
        """The loop only appends to a list no one else can hold yet: (list name, element, conditions).

        The list is a local set once, to a list display, before the loop; it is not loaded before the loop except to call
        its methods as statements; the loop is in no other loop and in no try; its variables are not loaded afterwards."""
        fn = self.fns[-1] if self.fns else None
        if fn is None or node.orelse:
            return None
        # the function as written (the one being rewritten changes under us)
        node = [x for x in ast.walk(fn) if isinstance(x, ast.For) and (x.lineno, x.col_offset) == (node.lineno, node.col_offset)][0]
        tgt = node.target
        names = [tgt] if isinstance(tgt, ast.Name) else list(tgt.elts) if isinstance(tgt, ast.Tuple) else None
        if not names or not all(isinstance(x, ast.Name) for x in names):
            return None
        conds, body = [], list(node.body)
        lets = []  # locals of one pass: (name, value)

        def let(e):
            """e, with the locals of the pass bound"""
            for n, v in reversed(lets):
                e = ast.copy_location(ast.Call(func=ast.copy_location(ast.Lambda(args=ast.arguments(
                    posonlyargs=[], args=[ast.arg(arg=n)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e), e), args=[v], keywords=[]), e)
            return e

        while True:
            s = body[0]
            if isinstance(s, ast.If) and lets and not all(_plain(v) for _, v in lets):
                return None  # the values would be computed more than once
            if isinstance(s, ast.If) and not s.orelse and len(body) == 1:
                conds.append(let(s.test))
                body = list(s.body)
            elif (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and len(body) > 1
                  or isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None and len(body) > 1):
                n = s.targets[0].id if isinstance(s, ast.Assign) else s.target.id
                if n in [x.id for x in names] or n in [m for m, _ in lets] or n not in self.locals_[-1] or n in self.globals_[-1]:
                    return None
                if any(isinstance(x, ast.Name) and x.id == n for e in conds + [v for _, v in lets] + [s.value] for x in ast.walk(e)):
                    return None
                lets.append((n, s.value))
                body = body[1:]
            elif isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and len(body) > 1:
                conds.append(let(ast.copy_location(ast.UnaryOp(op=ast.Not(), operand=s.test), s)))
                body = body[1:]
            elif (isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Raise) and len(body) > 1
                  and s.body[0].exc is not None and s.body[0].cause is None):
                # `raise` as an expression, to be reached only when the condition holds
                f = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=s.body[0].exc)
                conds.append(let(ast.copy_location(ast.BoolOp(op=ast.Or(), values=[
                    ast.UnaryOp(op=ast.Not(), operand=s.test), ast.Call(func=_vc("raise_"), args=[f], keywords=[])]), s)))
                body = body[1:]
            else:
                break
        if not (
            len(body) == 1
            and isinstance(s, ast.Expr)
            and isinstance(s.value, ast.Call)
            and isinstance(s.value.func, ast.Attribute)
            and s.value.func.attr == "append"
            and isinstance(s.value.func.value, ast.Name)
            and len(s.value.args) == 1
            and not s.value.keywords
            and not isinstance(s.value.args[0], ast.Starred)
        ):
            return None
        acc, elt = s.value.func.value.id, s.value.args[0]
        bad = (ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)
        if any(isinstance(x, bad) for e in conds + [elt] + [v for _, v in lets] for x in ast.walk(e)):
            return None
        if acc in [n for n, _ in lets]:
            return None
        if acc not in self.locals_[-1] or acc in self.globals_[-1] or acc in [x.id for x in names]:
            return None
        inside = set()
        for x in ast.walk(node):
            inside.add(id(x))
        for x in ast.walk(fn):
            if isinstance(x, (ast.For, ast.AsyncFor, ast.While, ast.Try, ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                if x is not fn and x is not node and any(y is node for y in ast.walk(x)):
                    return None
        methods = {id(x.value.func.value) for x in ast.walk(fn)
                   if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute)}
        sets = 0
        for x in ast.walk(fn):
            if isinstance(x, (ast.Assign, ast.AnnAssign)):
                ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                if len(ts) == 1 and isinstance(ts[0], ast.Name) and ts[0].id == acc and isinstance(x.value, ast.List) and x.lineno < node.lineno:
                    sets += 1
            if not isinstance(x, ast.Name):
                continue
            after = x.lineno > node.end_lineno
            if x.id == acc:
                if isinstance(x.ctx, ast.Load):
                    if id(x) in inside:
                        if x is not s.value.func.value:
                            return None
                    elif not after and id(x) not in methods:
                        return None
                else:
                    sets += 10 if x.lineno >= node.lineno else 100
            elif x.id in [y.id for y in names] and isinstance(x.ctx, ast.Load) and after:
                return None
            elif x.id in [n for n, _ in lets] and isinstance(x.ctx, ast.Load) and id(x) not in inside:
                return None
        if sets != 101:
            return None
        return acc, let(elt), conds

    def _loop(self, node, kind):
        if "func" not in self.scope or self.scope[-1] != "func":
            return self.generic_visit(node)
        c = self._collects(node) if kind == "for" else None
        if c is None:
            return self._cutloop(node, kind)
        import copy as _copy

        acc, elt, conds = c
        self.n += 1
        it = f"_vc_I{self.n}"
        first = ast.Assign(targets=[_name(it, ast.Store())], value=self.visit(_copy.deepcopy(node.iter)))
        comp = ast.ListComp(elt=_copy.deepcopy(elt), generators=[ast.comprehension(
            target=_copy.deepcopy(node.target), iter=_name(it), ifs=[_copy.deepcopy(x) for x in conds], is_async=0)])
        new = ast.Assign(targets=[_name(acc, ast.Store())], value=ast.Call(
            func=_vc("append_all"), args=[_name(acc), self.visit(comp)], keywords=[]))
        node.iter = _name(it)
        loop = self._cutloop(node, kind)
        test = ast.Call(func=_vc("collects"), args=[_name(it)], keywords=[])
        return [ast.copy_location(o, node) for o in (first, ast.If(test=test, body=[new], orelse=loop))]

    def _cutloop(self, node, kind):
        self.n += 1
        L = f"_vc_L{self.n}"
        asn = _Assigned()
        for s in node.body:
            asn.visit(s)
        if kind != "while":
            asn.visit(node.target)
        else:
            asn.visit(node.test)
        import copy as _copy

        loopid = f"{self.modname}:{'.'.join(self.qual)}#{self.n}"
        names = [n for n in asn.names if n not in self.globals_[-1]]
        # objects appended to: rebound only if they are locals of this function (never globals or closure variables)
        accs = [n for n in asn.accs if n not in names and n in self.locals_[-1]]
        body1 = self._body([_copy.deepcopy(s) for s in node.body])
        body2 = self._body([_copy.deepcopy(s) for s in node.body])
        orelse1 = self._body([_copy.deepcopy(s) for s in node.orelse])
        orelse2 = self._body([_copy.deepcopy(s) for s in node.orelse])
        args = [_const(loopid), _const(kind), ast.Tuple(elts=[_const(n) for n in names], ctx=ast.Load())]
        if kind == "while":
            args.append(_const(None))
        else:
            args.append(self.visit(_copy.deepcopy(node.iter)))
        args.append(ast.Tuple(elts=[_const(n) for n in accs], ctx=ast.Load()))
        out = [
            ast.Assign(
                targets=[_name(L, ast.Store())],
                value=ast.Call(func=_vc("loop"), args=args, keywords=[]),
            )
        ]

        def A(attr):
            return ast.Attribute(value=_name(L), attr=attr, ctx=ast.Load())

        # native
        if kind == "for":
            native = ast.For(target=_copy.deepcopy(node.target), iter=A("it"), body=body1, orelse=orelse1)
        elif kind == "asyncfor":
            native = ast.AsyncFor(target=_copy.deepcopy(node.target), iter=A("it"), body=body1, orelse=orelse1)
        else:
            tick = ast.Expr(ast.Call(func=A("tick"), args=[], keywords=[]))
            native = ast.While(test=self.visit(_copy.deepcopy(node.test)), body=[tick] + body1, orelse=orelse1)
        # cut: one arbitrary iteration from an arbitrary state allowed by the invariant
        cut = [
            ast.Expr(
                ast.Call(
                    func=A("head"),
                    args=[ast.Call(func=_name("locals"), args=[], keywords=[])],
                    keywords=[],
                )
            )
        ]
        for n in names + accs:
            cut.append(
                ast.If(
                    test=ast.Call(func=A("has"), args=[_const(n)], keywords=[]),
                    body=[
                        ast.Assign(
                            targets=[_name(n, ast.Store())],
                            value=ast.Call(func=A("val"), args=[_const(n)], keywords=[]),
                        )
                    ],
                    orelse=[],
                )
            )
        back = ast.Expr(
            ast.Call(func=A("back"), args=[ast.Call(func=_name("locals"), args=[], keywords=[])], keywords=[])
        )
        once = ast.For(
            target=_name("_vc_once", ast.Store()),
            iter=ast.Tuple(elts=[_const(0)], ctx=ast.Load()),
            body=body2,
            orelse=[back, ast.Continue()],
        )
        exit_ = ast.Expr(ast.Call(func=A("exit"), args=[], keywords=[]))
        if kind == "while":
            test = self.visit(_copy.deepcopy(node.test))
            inner = [ast.If(test=test, body=[once], orelse=[exit_])]
        else:
            bind = ast.Assign(targets=[_copy.deepcopy(node.target)], value=ast.Call(func=A("elem"), args=[], keywords=[]))
            if isinstance(node.target, (ast.Tuple, ast.List)) and not any(
                isinstance(e, ast.Starred) for e in node.target.elts
            ):
                bind.value = ast.Call(
                    func=_vc("unpack"), args=[bind.value, _const(len(node.target.elts))], keywords=[]
                )
            inner = [
                ast.If(
                    test=ast.Call(func=A("more"), args=[], keywords=[]),
                    body=[bind, once],
                    orelse=[exit_],
                )
            ]
        cut = [ast.While(test=_const(True), body=cut + inner + [ast.Break()], orelse=[])]
        if orelse2:
            cut.append(ast.If(test=A("exhausted"), body=orelse2, orelse=[]))
        out.append(ast.If(test=A("native"), body=[native], orelse=cut))
        return [ast.copy_location(o, node) for o in out]

    def visit_For(self, node):
        return self._loop(node, "for")

    def visit_AsyncFor(self, node):
        return self._loop(node, "asyncfor")

    def visit_While(self, node):
        return self._loop(node, "while")


def rewrite(source, filename, modname):
    tree = ast.parse(source, filename)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class _Loader(importlib.abc.Loader):
    def __init__(self, path, finder):
        self.path = path
        self.finder = finder

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding="utf-8") as f:
            src = f.read()
        self.finder.sources[module.__name__] = self.path
        code = rewrite(src, self.path, module.__name__)
        module.__dict__["_vc_"] = self.finder.vc
        module.__dict__["__builtins__"] = self.finder.builtins
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """Loads `pyown` (and the contract modules) instrumented, from the given roots."""

    def __init__(self, roots, vc, shims):
        self.roots = roots  # package name -> directory
        self.vc = vc
        self.sources = {}
        import builtins

        self.builtins = dict(vars(builtins))
        real_import = builtins.__import__

        def _imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level == 0:
                top = name.split(".")[0]
                if name in shims:
                    return shims[name]
                if top in shims and top != name:
                    return real_import(name, globals, locals, fromlist, level)
            return real_import(name, globals, locals, fromlist, level)

        self.builtins["__import__"] = _imp

    def find_spec(self, fullname, path=None, target=None):
        top = fullname.split(".")[0]
        if top not in self.roots:
            return None
        rel = fullname.split(".")[1:]
        base = os.path.join(self.roots[top], *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, "__init__.py")):
            p = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(
                fullname, p, loader=_Loader(p, self), submodule_search_locations=[base]
            )
        if os.path.exists(base + ".py"):
            p = base + ".py"
            return importlib.util.spec_from_file_location(fullname, p, loader=_Loader(p, self))
        return None


def install(roots, vc, shims):
    for m in list(sys.modules):
        if m.split(".")[0] in roots:
            del sys.modules[m]
    f = Finder(roots, vc, shims)
    sys.meta_path.insert(0, f)
    return f
