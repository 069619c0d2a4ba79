"""Source-to-source instrumentation of the code under test.

Every run parses the current files of /repo/qtcodes, rewrites their syntax trees so that
control flow, containers, calls and stores go through the runtime in rt.py, and
compiles the result.  With concrete values the rewritten code behaves as the original.
"""
import ast
import importlib.abc
import importlib.machinery
import os
import sys

RT = "_vrt_"


class _Names(ast.NodeVisitor):
    """Names assigned in a statement list (function scope, not nested functions)."""

    def __init__(self):
        self.out = []

    def add(self, n):
        if n not in self.out:
            self.out.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        self.visit(n.generators[0].iter)

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import


def assigned(stmts):
    v = _Names()
    for s in stmts:
        v.visit(s)
    return v.out


class _Esc(ast.NodeVisitor):
    """Does a statement list contain control flow that leaves it?"""

    def __init__(self):
        self.ret = self.brk = self.cont = self.other = False
        self.loop = 0

    def visit_Return(self, n):
        self.ret = True

    def visit_Break(self, n):
        if not self.loop:
            self.brk = True

    def visit_Continue(self, n):
        if not self.loop:
            self.cont = True

    def visit_Yield(self, n):
        self.other = True

    visit_YieldFrom = visit_Await = visit_Global = visit_Nonlocal = visit_Delete = visit_Yield
    visit_AsyncFor = visit_AsyncWith = visit_Raise = visit_Yield

    def visit_FunctionDef(self, n):
        pass

    visit_AsyncFunctionDef = visit_ClassDef = visit_Lambda = visit_FunctionDef

    def _loop(self, n):
        self.loop += 1
        for s in n.body:
            self.visit(s)
        self.loop -= 1
        for s in n.orelse:
            self.visit(s)

    visit_For = visit_While = _loop


def esc(stmts):
    v = _Esc()
    for s in stmts:
        v.visit(s)
    return v


class _GiveUp(Exception):
    pass


def _count(stmts):
    return sum(1 for s in stmts for _ in ast.walk(s))


def _ret_in(stmts, kind):
    e = esc(stmts)
    return e.ret if kind is ast.Return else e.cont


def _structured(stmts, kind):
    """Is every `kind` in stmts reachable through ifs only?"""
    for s in stmts:
        if isinstance(s, kind):
            continue
        if isinstance(s, ast.If):
            if not (_structured(s.body, kind) and _structured(s.orelse, kind)):
                return False
        elif _ret_in([s], kind):
            return False
    return True


def _always(stmts, kind):
    for s in stmts:
        if isinstance(s, (kind, ast.Raise)):
            return True
        if isinstance(s, ast.If) and s.orelse and _always(s.body, kind) and _always(s.orelse, kind):
            return True
    return False


def _norm(stmts, kind, leaf):
    """Rewrite so that `kind` statements occur only in tail position; leaf(stmt) replaces them."""
    out = []
    for i, s in enumerate(stmts):
        rest = stmts[i + 1 :]
        if isinstance(s, kind):
            return out + leaf(s)
        if isinstance(s, ast.If) and _ret_in([s], kind):
            ba, oa = _always(s.body, kind), _always(s.orelse, kind)
            if not ba and not oa and _count(rest) > 150:
                raise _GiveUp()
            body = _norm(s.body + ([] if ba else rest), kind, leaf)
            orelse = _norm(s.orelse + ([] if oa else rest), kind, leaf)
            n = ast.If(s.test, body or [ast.Pass()], orelse)
            return out + [ast.copy_location(n, s)]
        out.append(s)
    return out + leaf(None)


class _Has(ast.NodeVisitor):
    def __init__(self, kinds):
        self.kinds, self.found = kinds, False

    def generic_visit(self, n):
        if isinstance(n, self.kinds):
            self.found = True
        else:
            super().generic_visit(n)


def _own(stmts):
    """All nodes of a statement list outside nested functions, classes and lambdas."""
    out, todo = [], list(stmts)
    while todo:
        n = todo.pop()
        out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return out


def has(node, *kinds):
    v = _Has(kinds)
    v.visit(node)
    return v.found


def _rt(name, *args):
    return ast.Call(ast.Attribute(ast.Name(RT, ast.Load()), name, ast.Load()), list(args), [])


def _const(v):
    return ast.Constant(v)


def _lam(expr, args=()):
    return ast.Lambda(
        ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in args], kwonlyargs=[], kw_defaults=[], defaults=[]),
        expr,
    )


_LAZY_BAD = (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)

_OPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
    ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@",
}
_NOCALL = {"super", "locals", "globals", "vars", "eval", "exec", "dir", "__import__"}


class Instrumenter:
    def __init__(self, fname):
        self.fname = fname
        self.n = 0
        self.scope = ["module"]
        self.hoist = [[]]
        self.nomerge = [False]

    def tmp(self, p):
        self.n += 1
        return "_v%s_%d" % (p, self.n)

    def site(self, n):
        return "%s:%d:%d" % (self.fname, getattr(n, "lineno", 0), getattr(n, "col_offset", 0))

    def module(self, tree):
        tree.body = self.stmts(tree.body)
        i = 0
        if tree.body and isinstance(tree.body[0], ast.Expr) and isinstance(tree.body[0].value, ast.Constant):
            i = 1
        while i < len(tree.body) and isinstance(tree.body[i], ast.ImportFrom) and tree.body[i].module == "__future__":
            i += 1
        tree.body.insert(i, ast.parse("import symqt.rt as %s" % RT).body[0])
        return ast.fix_missing_locations(tree)

    # ------------------------------------------------------------------ statements
    def stmts(self, ss):
        out = []
        for s in ss:
            self.hoist.append([])
            r = self.stmt(s)
            h = self.hoist.pop()
            r = r if isinstance(r, list) else [r]
            for x in h + r:
                if not hasattr(x, "lineno") and isinstance(x, ast.stmt):
                    ast.copy_location(x, s)
                out.append(x)
        return out

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m:
            return m(s)
        # default: transform expressions, recurse into statement lists
        for f, v in ast.iter_fields(s):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(s, f, self.stmts(v))
            elif isinstance(v, list):
                setattr(s, f, [self.x(y) if isinstance(y, ast.expr) else self.misc(y) for y in v])
            elif isinstance(v, ast.expr):
                setattr(s, f, self.x(v))
        return s

    def misc(self, y):
        if isinstance(y, ast.ExceptHandler):
            y.body = self.stmts(y.body)
            if y.type is None or (isinstance(y.type, ast.Name) and y.type.id == "BaseException"):
                name = y.name or self.tmp("e")
                y.type = ast.Name("BaseException", ast.Load())
                y.name = name
                y.body.insert(0, ast.Expr(_rt("reraise", ast.Name(name, ast.Load()))))
        elif isinstance(y, ast.withitem):
            y.context_expr = self.x(y.context_expr)
        elif isinstance(y, ast.match_case):
            y.body = self.stmts(y.body)
        return y

    def s_FunctionDef(self, s):
        s.decorator_list = [self.x(d) for d in s.decorator_list]
        s.args.defaults = [self.x(d) for d in s.args.defaults]
        s.args.kw_defaults = [self.x(d) if d else None for d in s.args.kw_defaults]
        self.scope.append("func")
        self.hoist.append([])
        body = self._gen_body(s) or s.body
        e = esc(body)
        self.nomerge.append(any(isinstance(y, (ast.Global, ast.Nonlocal)) for y in ast.walk(s)))
        # tail-return normalisation
        if e.ret and not e.other and not (len(body) and isinstance(body[-1], ast.Return) and _nrets(body) == 1):
            doc = []
            b = body
            if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
                doc, b = b[:1], b[1:]
            if _structured(b, ast.Return):
                rv = self.tmp("ret")

                def leaf(r):
                    val = r.value if r is not None and r.value is not None else ast.Constant(None)
                    a = ast.Assign([ast.Name(rv, ast.Store())], val)
                    return [ast.copy_location(a, r) if r is not None else a]

                try:
                    import copy

                    b = _norm(copy.deepcopy(b), ast.Return, leaf)
                    b = b + [ast.Return(ast.Name(rv, ast.Load()))]
                    for x in b:
                        ast.fix_missing_locations(ast.copy_location(x, s) if not hasattr(x, "lineno") else x)
                    body = doc + b
                except _GiveUp:
                    pass
        s.body = self.stmts(body)
        self.nomerge.pop()
        self.hoist.pop()
        self.scope.pop()
        return s

    def _gen_body(self, s):
        """The body of a simple generator function, rewritten to collect what it yields.

        Only functions whose yields are statements of their own outside try, with and while
        are rewritten: what they yield does not depend on who asks for it, or when."""
        own = _own(s.body)
        ys = [n for n in own if isinstance(n, (ast.Yield, ast.YieldFrom))]
        if not ys:
            return None
        exprs = {id(n.value) for n in own if isinstance(n, ast.Expr)}
        if any(id(y) not in exprs for y in ys):
            return None
        bad = (ast.While, ast.Try, ast.With, ast.Global, ast.Nonlocal, ast.Await, ast.AsyncFor, ast.Raise)
        if any(isinstance(n, bad) or isinstance(n, ast.Return) and n.value is not None for n in own):
            return None
        import copy

        acc, rv = self.tmp("acc"), self.tmp("y")

        class T(ast.NodeTransformer):
            def visit_FunctionDef(self, n):
                return n

            visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

            def visit_Return(self, n):
                return ast.copy_location(ast.Return(_rt("genlist", ast.Name(acc, ast.Load()))), n)

            def visit_Expr(self, n):
                v = n.value
                app = ast.Attribute(ast.Name(acc, ast.Load()), "append", ast.Load())
                if isinstance(v, ast.Yield):
                    return ast.copy_location(ast.Expr(ast.Call(app, [v.value or _const(None)], [])), n)
                if isinstance(v, ast.YieldFrom):
                    b = ast.Expr(ast.Call(app, [ast.Name(rv, ast.Load())], []))
                    return ast.copy_location(ast.For(ast.Name(rv, ast.Store()), v.value, [b], []), n)
                return n

        body = [T().visit(copy.deepcopy(x)) for x in s.body]
        i = int(bool(body) and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant))
        body.insert(i, ast.Assign([ast.Name(acc, ast.Store())], ast.List([], ast.Load())))
        body.append(ast.Return(_rt("genlist", ast.Name(acc, ast.Load()))))
        for x in body:
            ast.fix_missing_locations(ast.copy_location(x, s) if not hasattr(x, "lineno") else x)
        return body

    s_AsyncFunctionDef = lambda self, s: s

    def s_ClassDef(self, s):
        self.scope.append("class")
        s.decorator_list = [self.x(d) for d in s.decorator_list]
        s.bases = [self.x(b) for b in s.bases]
        s.body = self.stmts(s.body)
        self.scope.pop()
        return s

    def s_Import(self, s):
        return s

    s_ImportFrom = s_Global = s_Nonlocal = s_Pass = s_Break = s_Continue = s_Import

    def s_AnnAssign(self, s):
        # keep the annotation unevaluated-equivalent: drop it inside functions, keep it elsewhere
        if s.value is None:
            return s
        if self.scope[-1] == "func":
            return self.s_Assign(ast.copy_location(ast.Assign([s.target], s.value), s))
        s.value = self.x(s.value)
        return s

    def s_Assign(self, s):
        val = self.x(s.value)
        out = []
        if len(s.targets) == 1 and self._simple(s.targets[0]):
            return self._store(s.targets[0], val, s)
        t = self.tmp("t")
        out.append(ast.Assign([ast.Name(t, ast.Store())], val))
        for tg in s.targets:
            r = self._store(tg, ast.Name(t, ast.Load()), s)
            out += r if isinstance(r, list) else [r]
        return out

    def _simple(self, t):
        return True

    def _store(self, t, val, s):
        if isinstance(t, ast.Name):
            return [ast.copy_location(ast.Assign([t], val), s)]
        if isinstance(t, ast.Attribute):
            if t.attr.startswith("__") and not t.attr.endswith("__"):
                t.value = self.x(t.value)
                return [ast.Assign([t], val)]
            # value is evaluated before the target object, as in Python
            return [ast.Expr(_rt("setattr_", val, self.x(t.value), _const(t.attr)))]
        if isinstance(t, ast.Subscript):
            return [ast.Expr(_rt("setitem", val, self.x(t.value), self.sl(t.slice)))]
        if isinstance(t, (ast.Tuple, ast.List)):
            out, ts = [], []
            for e in t.elts:
                if isinstance(e, ast.Name) or (isinstance(e, ast.Starred) and isinstance(e.value, ast.Name)):
                    ts.append(e)
                elif isinstance(e, ast.Starred):
                    n = self.tmp("t")
                    ts.append(ast.Starred(ast.Name(n, ast.Store()), ast.Store()))
                    out += self._store(e.value, ast.Name(n, ast.Load()), s)
                else:
                    n = self.tmp("t")
                    ts.append(ast.Name(n, ast.Store()))
                    out += self._store(e, ast.Name(n, ast.Load()), s)
            return [ast.Assign([ast.Tuple(ts, ast.Store())], _rt("unpack", val))] + out
        return [ast.Assign([t], val)]

    def s_AugAssign(self, s):
        op = _const(_OPS[type(s.op)])
        t = s.target
        if isinstance(t, ast.Name):
            return ast.Assign([t], _rt("iop", op, ast.Name(t.id, ast.Load()), self.x(s.value)))
        if isinstance(t, ast.Attribute):
            if t.attr.startswith("__") and not t.attr.endswith("__"):
                t.value, s.value = self.x(t.value), self.x(s.value)
                return s
            return ast.Expr(_rt("iattr", op, self.x(t.value), _const(t.attr), _lam_or(self, s.value)))
        return ast.Expr(_rt("iitem", op, self.x(t.value), self.sl(t.slice), _lam_or(self, s.value)))

    def s_Assert(self, s):
        s.test = _rt("truth", self.x(s.test))
        if s.msg:
            s.msg = self.x(s.msg)
        return s

    def s_While(self, s):
        s.test = _rt("branch", self.x(s.test), _const(self.site(s)))
        s.body = self.stmts(s.body)
        s.orelse = self.stmts(s.orelse)
        return s

    def s_If(self, s):
        site = self.site(s)
        test = self.x(s.test)
        e = esc(s.body + s.orelse)
        if self.scope[-1] != "func" or self.nomerge[-1] or e.ret or e.brk or e.cont or e.other or has_def(s.body + s.orelse):
            s.test = _rt("branch", test, _const(site))
            s.body, s.orelse = self.stmts(s.body), self.stmts(s.orelse)
            return s
        return self.merge_if(test, s.body, s.orelse, site, s)

    def merge_if(self, test, body, orelse, site, at):
        names = assigned(body + orelse)
        b, o = self.stmts(body), self.stmts(orelse)
        # comprehension helpers and temporaries introduced by the rewriting need no merging
        vm = self.tmp("m")

        def nm(ctx):
            return ast.Name(vm, ctx)

        def call(meth, *a):
            return ast.Call(ast.Attribute(nm(ast.Load()), meth, ast.Load()), list(a), [])

        out = [ast.Assign([nm(ast.Store())], _rt("If", test, _const(site)))]
        inner = []
        if names:
            inner.append(
                ast.If(
                    ast.Attribute(nm(ast.Load()), "merged", ast.Load()),
                    [
                        _assign_names(
                            names,
                            call(
                                "restore",
                                ast.Call(ast.Name("locals", ast.Load()), [], []),
                                ast.Tuple([_const(n) for n in names], ast.Load()),
                            ),
                        )
                    ],
                    [],
                )
            )
        inner.append(ast.If(ast.Attribute(nm(ast.Load()), "side", ast.Load()), b or [ast.Pass()], o))
        if names:
            inner.append(
                ast.If(
                    ast.Attribute(nm(ast.Load()), "merged", ast.Load()),
                    [ast.Expr(call("leave", ast.Call(ast.Name("locals", ast.Load()), [], [])))],
                    [],
                )
            )
        ename = self.tmp("e")
        tr = ast.Try(
            inner,
            [
                ast.ExceptHandler(
                    ast.Name("Exception", ast.Load()),
                    ename,
                    [ast.Expr(call("fail", ast.Name(ename, ast.Load()))), ast.Raise(None, None)],
                )
            ],
            [],
            [],
        )
        out.append(ast.While(call("more"), [tr], []))
        if names:
            out.append(
                ast.If(
                    ast.Attribute(nm(ast.Load()), "merged", ast.Load()),
                    [_assign_names(names, call("result"))],
                    [],
                )
            )
        for x in out:
            ast.fix_missing_locations(ast.copy_location(x, at))
        return out

    def s_For(self, s):
        site = self.site(s)
        it = _rt("giter", self.x(s.iter), _const(site))
        body = s.body
        e = esc(body)
        if e.cont and not e.other and _structured(body, ast.Continue):
            try:
                import copy

                body = _norm(copy.deepcopy(body), ast.Continue, lambda r: [])
                for x in body:
                    ast.fix_missing_locations(x)
            except _GiveUp:
                body = s.body
        e = esc(body)
        g = self.tmp("g")
        v = self.tmp("v")
        if self.scope[-1] == "func":
            asg = self._store(s.target, ast.Name(v, ast.Load()), s)
            for a in asg:
                ast.fix_missing_locations(ast.copy_location(a, s))
            if self.nomerge[-1] or e.ret or e.brk or e.cont or e.other or has_def(body):
                nb = asg + self.stmts(body)
                nb = [ast.If(_rt("branch", ast.Name(g, ast.Load()), _const(site)), nb, [])]
            else:
                # the loop variable is also conditional, but is not read where the element is absent
                full = asg + [ast.Pass()]
                names = assigned([ast.For(s.target, s.iter, s.body, [])])
                inner = self.merge_if(ast.Name(g, ast.Load()), body, [], site, s)
                nb = asg + inner
            new = ast.For(
                ast.Tuple([ast.Name(g, ast.Store()), ast.Name(v, ast.Store())], ast.Store()),
                it,
                nb,
                self.stmts(s.orelse),
            )
            return ast.fix_missing_locations(ast.copy_location(new, s))
        s.iter = self.x(s.iter)
        s.body, s.orelse = self.stmts(s.body), self.stmts(s.orelse)
        return s

    def s_Return(self, s):
        if s.value is not None:
            s.value = self.x(s.value)
        return s

    def s_Delete(self, s):
        out = []
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                out.append(ast.Expr(_rt("delitem", self.x(t.value), self.sl(t.slice))))
            else:
                out.append(ast.Delete([t]))
        return out

    # ------------------------------------------------------------------ expressions
    def sl(self, n):
        if isinstance(n, ast.Slice):
            return ast.Call(
                ast.Name("slice", ast.Load()),
                [self.x(p) if p is not None else _const(None) for p in (n.lower, n.upper, n.step)],
                [],
            )
        return self.x(n)

    def x(self, n):
        if n is None:
            return None
        m = getattr(self, "x_" + type(n).__name__, None)
        if m:
            r = m(n)
        else:
            for f, v in ast.iter_fields(n):
                if isinstance(v, ast.expr):
                    setattr(n, f, self.x(v))
                elif isinstance(v, list):
                    setattr(n, f, [self.x(y) if isinstance(y, ast.expr) else y for y in v])
            r = n
        if r is not n:
            ast.copy_location(r, n)
            ast.fix_missing_locations(r)
        return r

    def x_Name(self, n):
        return n

    def x_Constant(self, n):
        return n

    def x_Lambda(self, n):
        n.args.defaults = [self.x(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.x(d) if d else None for d in n.args.kw_defaults]
        self.scope.append("lambda")
        n.body = self.x(n.body)
        self.scope.pop()
        return _rt("mklambda", n)

    def x_List(self, n):
        if not isinstance(n.ctx, ast.Load):
            return n
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return self._star(n)
        n.elts = [self.x(e) for e in n.elts]
        return _rt("mklist", n)

    def _star(self, n):
        """A display with starred parts, one list per part."""
        parts = [
            ast.Tuple([ast.Constant(isinstance(e, ast.Starred)), self.x(e.value if isinstance(e, ast.Starred) else e)], ast.Load())
            for e in n.elts
        ]
        return _rt("mkstar", ast.List(parts, ast.Load()))

    def x_Tuple(self, n):
        n.elts = [self.x(e) for e in n.elts]
        return n

    def x_Dict(self, n):
        n.keys = [self.x(k) if k is not None else None for k in n.keys]
        n.values = [self.x(v) for v in n.values]
        return _rt("mkdict", n)

    def x_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in _NOCALL:
            n.args = [self.x(a) for a in n.args]
            return n
        f = self.x(n.func)
        args = [self.x(a) for a in n.args]
        kws = [ast.keyword(k.arg, self.x(k.value)) for k in n.keywords]
        c = _rt("call", f, *args)
        c.keywords = kws
        return c

    def x_Starred(self, n):
        n.value = _rt("star", self.x(n.value))
        return n

    def x_Subscript(self, n):
        if not isinstance(n.ctx, ast.Load):
            return n
        return _rt("getitem", self.x(n.value), self.sl(n.slice))

    def x_Slice(self, n):
        return self.sl(n)

    def x_UnaryOp(self, n):
        v = self.x(n.operand)
        if isinstance(n.op, ast.Not):
            return _rt("not_", v)
        n.operand = v
        return n

    def _lazy(self, n):
        return _lam(self.x(n))

    def x_BoolOp(self, n):
        f = "and_" if isinstance(n.op, ast.And) else "or_"
        if any(has(v, *_LAZY_BAD) for v in n.values[1:]) or self.scope[-1] == "class":
            n.values = [self.x(v) for v in n.values]
            return n
        vals = n.values
        r = self.x(vals[0])
        for v in vals[1:]:
            r = _rt(f, r, self._inlam(v))
        return r

    def _inlam(self, v):
        return _lam(self.x(v))

    def x_IfExp(self, n):
        if has(n.body, *_LAZY_BAD) or has(n.orelse, *_LAZY_BAD) or self.scope[-1] == "class":
            n.test, n.body, n.orelse = _rt("truth", self.x(n.test)), self.x(n.body), self.x(n.orelse)
            return n
        return _rt("ifexp", self.x(n.test), self._inlam(n.body), self._inlam(n.orelse), _const(self.site(n)))

    def x_Compare(self, n):
        def one(op, a, b):
            if isinstance(op, ast.In):
                return _rt("contains", b, a)
            if isinstance(op, ast.NotIn):
                return _rt("not_", _rt("contains", b, a))
            if isinstance(op, ast.Is):
                return _rt("is_", a, b)
            if isinstance(op, ast.IsNot):
                return _rt("not_", _rt("is_", a, b))
            if isinstance(op, ast.Eq):
                return _rt("eq", a, b)
            if isinstance(op, ast.NotEq):
                return _rt("ne", a, b)
            return ast.Compare(a, [op], [b])

        if len(n.ops) == 1:
            l = self.x(n.left)
            return one(n.ops[0], l, self.x(n.comparators[0]))
        if any(has(c, *_LAZY_BAD) for c in n.comparators):
            return n
        # chained: a op b op c  ->  chain([ops], lambda: a, ...)
        fs = []
        for op in n.ops:
            fs.append(_lam(one(op, ast.Name("_va", ast.Load()), ast.Name("_vb", ast.Load())), ("_va", "_vb")))
        return _rt(
            "chain",
            ast.Tuple(fs, ast.Load()),
            self.x(n.left),
            *[self._inlam(c) for c in n.comparators],
        )

    def x_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                if v.conversion != -1 or v.format_spec is not None:
                    v.value = self.x(v.value)
                    parts.append(ast.JoinedStr([v]))
                else:
                    parts.append(_rt("fmt", self.x(v.value)))
            else:
                parts.append(v)
        return _rt("fstr", *parts)

    # comprehensions
    def _comp(self, n, kind):
        if self.scope[-1] != "func" or has(n, *_LAZY_BAD) or any(g.is_async for g in n.generators):
            for g in n.generators:
                g.iter = self.x(g.iter)
                g.ifs = [_rt("truth", self.x(i)) for i in g.ifs]
            if kind == "dict":
                n.key, n.value = self.x(n.key), self.x(n.value)
                return _rt("mkdict", n)
            n.elt = self.x(n.elt)
            return _rt("mklist", n) if kind == "list" else n
        import copy

        orig = copy.deepcopy(n) if kind == "gen" else None
        fn = self.tmp("comp")
        it0, out = self.tmp("it"), self.tmp("out")
        first = self.x(n.generators[0].iter)
        if kind == "dict":
            leaf = [
                ast.Assign(
                    [ast.Subscript(ast.Name(out, ast.Load()), n.key, ast.Store())], n.value
                )
            ]
        else:
            leaf = [
                ast.Expr(
                    ast.Call(ast.Attribute(ast.Name(out, ast.Load()), "append", ast.Load()), [n.elt], [])
                )
            ]
        body = leaf
        for i, g in reversed(list(enumerate(n.generators))):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            it = ast.Name(it0, ast.Load()) if i == 0 else g.iter
            body = [ast.For(g.target, it, body, [])]
        init = ast.Assign([ast.Name(out, ast.Store())], ast.Dict([], []) if kind == "dict" else ast.List([], ast.Load()))
        fd = ast.FunctionDef(
            fn,
            ast.arguments(posonlyargs=[], args=[ast.arg(it0)], kwonlyargs=[], kw_defaults=[], defaults=[]),
            [init] + body + [ast.Return(ast.Name(out, ast.Load()))],
            [],
            type_params=[],
        )
        for x in ast.walk(fd):
            if not hasattr(x, "lineno"):
                ast.copy_location(x, n)
        ast.fix_missing_locations(ast.copy_location(fd, n))
        fd = self._hoistdef(fd)
        h = [fd]
        call = ast.Call(ast.Name(fn, ast.Load()), [first], [])
        if kind == "set":
            call = _rt("mkset_", call)
        if kind == "gen":
            gn = self.tmp("gen")
            orig.generators[0].iter = ast.Name(it0, ast.Load())
            self.scope.append("lambda")
            for g in orig.generators[1:]:
                g.iter = self.x(g.iter)
            for g in orig.generators:
                g.ifs = [_rt("truth", self.x(i)) for i in g.ifs]
            orig.elt = self.x(orig.elt)
            self.scope.pop()
            gd = ast.FunctionDef(
                gn,
                ast.arguments(posonlyargs=[], args=[ast.arg(it0)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                [ast.Return(orig)],
                [],
                type_params=[],
            )
            ast.fix_missing_locations(ast.copy_location(gd, n))
            h.append(gd)
            call = _rt("gen", ast.Name(fn, ast.Load()), ast.Name(gn, ast.Load()), first)
        self.hoist[-1] += h
        return call

    def _hoistdef(self, fd):
        self.hoist.append([])
        r = self.s_FunctionDef(fd)
        self.hoist.pop()
        return r

    def x_ListComp(self, n):
        return self._comp(n, "list")

    def x_Set(self, n):
        return _rt("mkset_", self.x_List(ast.List(n.elts, ast.Load())))

    def x_SetComp(self, n):
        return self._comp(n, "set")

    def x_DictComp(self, n):
        return self._comp(n, "dict")

    def x_GeneratorExp(self, n):
        return self._comp(n, "gen")

    def x_NamedExpr(self, n):
        n.value = self.x(n.value)
        return n


def _lam_or(self, v):
    """Right-hand side of an augmented assignment, evaluated after the target is read."""
    if has(v, *_LAZY_BAD):
        return _lam(v)
    return _lam(self.x(v))


def _assign_names(names, val):
    if len(names) == 1:
        return ast.Assign(
            [ast.Tuple([ast.Name(names[0], ast.Store())], ast.Store())], val
        )
    return ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())], val)


def _nrets(body):
    n = 0

    class V(ast.NodeVisitor):
        def visit_Return(self, x):
            nonlocal n
            n += 1

        def visit_FunctionDef(self, x):
            pass

        visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

    for s in body:
        V().visit(s)
    return n


def has_def(stmts):
    return any(isinstance(y, (ast.ClassDef, ast.AsyncFunctionDef)) for s in stmts for y in ast.walk(s))


# A lambda body may contain comprehensions whose helper must be hoisted to the enclosing
# statement although it uses lambda parameters; _comp handles this by leaving comprehensions
# in lambda scope untransformed (scope "lambda").


def instrument_source(src, fname, modname):
    tree = ast.parse(src)
    return Instrumenter(modname).module(tree)


_code = {}  # compiled in this process


class Loader(importlib.abc.Loader):
    def __init__(self, name, path, pkg):
        self.name, self.path, self.pkg = name, path, pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        code = _code.get(self.path)
        if code is None:
            with open(self.path, encoding="utf-8") as f:
                src = f.read()
            tree = instrument_source(src, self.path, self.name)
            code = _code[self.path] = compile(tree, self.path, "exec", dont_inherit=True)
        module.__dict__["__verif_instrumented__"] = True
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root, package):
        self.root, self.package = root, package

    def find_spec(self, name, path=None, target=None):
        if name != self.package and not name.startswith(self.package + "."):
            return None
        p = os.path.join(self.root, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            f = os.path.join(p, "__init__.py")
            return _spec(name, f, p)
        f = p + ".py"
        if os.path.exists(f):
            return _spec(name, f, None)
        return None


def _spec(name, f, pkgdir):
    import importlib.util

    return importlib.util.spec_from_file_location(
        name, f, loader=Loader(name, f, pkgdir is not None), submodule_search_locations=[pkgdir] if pkgdir else None
    )


def install(root="/repo", package="qtcodes"):
    sys.meta_path.insert(0, Finder(root, package))
