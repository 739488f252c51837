"""Extraction: reads the current source of a module of /repo, rewrites it and executes it
with modelled built-ins and imports.

Rewriting (all mechanical, every run):
 * float literals become exact rationals, ``/`` and ``**`` go through helpers;
 * list literals and comprehensions build tracked lists;
 * ``for`` loops without break/return/else become calls with the body as a closure, so that a
   loop over a sequence of symbolic length is verified for an arbitrary element;
 * logging, docstrings, print are dropped (no effect on results).
"""
import ast
import builtins
import os
import sys
import types
from . import seq
from .core import Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")
MAXLOOP = None


# ------------------------------------------------------------------ AST analysis
class _Names(ast.NodeVisitor):
    """linear list of (pos, name, 'L'|'S') events"""
    def __init__(self):
        self.ev = []

    def visit_Assign(self, n):
        self.visit(n.value)
        for t in n.targets:
            self.visit(t)

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)
        self.visit(n.target)

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            self.ev.append((n.target.id, "L"))
        self.visit(n.value)
        self.visit(n.target)

    def visit_For(self, n):
        self.visit(n.iter)
        self.visit(n.target)
        for s in n.body + n.orelse:
            self.visit(s)

    def visit_Name(self, n):
        self.ev.append((n.id, "S" if isinstance(n.ctx, (ast.Store, ast.Del)) else "L"))

    def visit_FunctionDef(self, n):
        self.ev.append((n.name, "S"))
        sub = _Names()
        for s in n.body:
            sub.visit(s)
        bound = {a.arg for a in n.args.args} | {x for x, k in sub.ev if k == "S"}
        for x, k in sub.ev:
            if x not in bound:
                self.ev.append((x, k))

    def visit_Lambda(self, n):
        sub = _Names()
        sub.visit(n.body)
        bound = {a.arg for a in n.args.args}
        for x, k in sub.ev:
            if x not in bound:
                self.ev.append((x, k))

    def _comp(self, n):
        sub = _Names()
        for g in n.generators:
            sub.visit(g.iter)
            sub.visit(g.target)
            for i in g.ifs:
                sub.visit(i)
        if isinstance(n, ast.DictComp):
            sub.visit(n.key)
            sub.visit(n.value)
        else:
            sub.visit(n.elt)
        bound = {x for x, k in sub.ev if k == "S"}
        for x, k in sub.ev:
            if x not in bound:
                self.ev.append((x, k))
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_ClassDef(self, n):
        self.ev.append((n.name, "S"))

    def visit_Import(self, n):
        for a in n.names:
            self.ev.append(((a.asname or a.name).split(".")[0], "S"))

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.type:
            self.visit(n.type)
        if n.name:
            self.ev.append((n.name, "S"))
        for s in n.body:
            self.visit(s)


def events(nodes):
    v = _Names()
    for n in nodes:
        v.visit(n)
    return v.ev


def has_node(nodes, kinds, into_loops=True):
    """does the statement list contain a node of these kinds outside nested functions"""
    st = list(nodes)
    while st:
        n = st.pop()
        if isinstance(n, kinds):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st += list(ast.iter_child_nodes(n))
    return False


def loop_has_break(body):
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, ast.Break):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.For, ast.While)):
            # break in there belongs to the inner loop, but look at its else
            st += n.orelse
            continue
        st += list(ast.iter_child_nodes(n))
    return False


class _Continue(ast.NodeTransformer):
    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(value=None), n)

    def visit_For(self, n):
        return n

    visit_While = visit_FunctionDef = visit_Lambda = visit_For


def name(i, ctx=None):
    return ast.Name(id=i, ctx=ctx or ast.Load())


def call(f, *a):
    return ast.Call(func=name(f), args=list(a), keywords=[])


class Rewriter(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.scope = [("module", None, set())]
        self.after = []          # stack of event lists that follow the current statement

    # ---- expressions
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(call("__q__", ast.Constant(repr(n.value))), n)
        return n

    def visit_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), v.format_spec or ast.Constant("")],
                                       ctx=ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(call("__fstr__", *parts), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(call("__div__", n.left, n.right), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(call("__pow__", n.left, n.right), n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            return ast.copy_location(call("__percent__", n.left, n.right), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = call("__in__", n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.NotIn):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return ast.copy_location(r, n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("format", "join"):
            n.args = [n.func.value, ast.Constant(n.func.attr)] + n.args
            n.func = ast.copy_location(name("__strmethod__"), n.func)
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and isinstance(n.slice, (ast.Name, ast.Attribute, ast.Call)):
            return ast.copy_location(call("__sub__", n.value, n.slice), n)
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and n.attr == "shape":
            return ast.copy_location(call("__shape__", n.value), n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(call("__mklist__", n), n)
        return n

    def _comp(self, n, kind):
        if any(g.is_async for g in n.generators):
            return n
        if any(isinstance(x, (ast.Yield, ast.NamedExpr, ast.Await)) for x in ast.walk(n)):
            return n
        if kind == "dict":
            elt = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())
        else:
            elt = n.elt
        gens = n.generators
        cur = self.visit(elt)
        for gi in range(len(gens) - 1, -1, -1):
            g = gens[gi]
            it = self.visit(g.iter)
            names, pat = self._pat(g.target)
            cond = ast.Constant(None)
            if g.ifs:
                tests = [self.visit(x) for x in g.ifs]
                test = tests[0] if len(tests) == 1 else ast.BoolOp(op=ast.And(), values=tests)
                cond = self._lam(names, pat, test)
            inner = gi < len(gens) - 1
            k = kind if gi == 0 else "list"
            cur = call("__comp__", ast.Constant(k), it, cond, self._lam(names, pat, cur), ast.Constant(inner))
        return ast.copy_location(cur, n)

    def _pat(self, t):
        names = []

        def rec(x):
            if isinstance(x, ast.Name):
                names.append(x.id)
                return ast.Constant(None)
            if isinstance(x, (ast.Tuple, ast.List)):
                return ast.Tuple(elts=[rec(y) for y in x.elts], ctx=ast.Load())
            raise Unsupported("comprehension target")
        return names, rec(t)

    def _lam(self, names, pat, body):
        args = lambda ns: ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in ns], kwonlyargs=[],
                                        kw_defaults=[], defaults=[], vararg=None, kwarg=None)
        if isinstance(pat, ast.Constant):
            return ast.Lambda(args=args(names), body=body)
        inner = ast.Lambda(args=args(names), body=body)
        c = ast.Call(func=inner, args=[ast.Starred(value=call("__destruct__", name("__x"), pat), ctx=ast.Load())],
                     keywords=[])
        return ast.Lambda(args=args(["__x"]), body=c)

    def visit_ListComp(self, n): return self._comp(n, "list")
    def visit_SetComp(self, n): return self._comp(n, "set")
    def visit_DictComp(self, n): return self._comp(n, "dict")
    def visit_GeneratorExp(self, n): return self._comp(n, "gen")

    # ---- statements
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Div, ast.Pow)) and isinstance(n.target, ast.Name):
            return n
        return n

    def body(self, stmts, tail):
        """visit a statement list; tail = events after it"""
        out = []
        evs = [events([s]) for s in stmts]
        for i, s in enumerate(stmts):
            rest = [e for ev in evs[i + 1:] for e in ev] + tail
            self.after.append(rest)
            r = self.visit(s)
            self.after.pop()
            if isinstance(r, list):
                out += r
            elif r is not None:
                out.append(r)
        return out

    def _blocks(self, n, extra=()):
        tail = (self.after[-1] if self.after else []) + list(extra)
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b:
                setattr(n, f, self.body(b, tail))
        for h in getattr(n, "handlers", []) or []:
            h.body = self.body(h.body, tail)
        for f in ("test", "iter"):
            if hasattr(n, f):
                setattr(n, f, self.visit(getattr(n, f)))
        if hasattr(n, "items"):
            for it in n.items:
                it.context_expr = self.visit(it.context_expr)
        return n

    def visit_If(self, n):
        b = n.body
        if (len(b) == 1 and not n.orelse and isinstance(b[0], ast.Assign) and len(b[0].targets) == 1
                and isinstance(b[0].targets[0], ast.Name) and isinstance(b[0].value, ast.Constant)
                and isinstance(b[0].value.value, bool) and self.scope[-1][0] == "func"):
            # setting a flag: a conditional value instead of two paths
            t = b[0].targets[0].id
            old = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[],
                                                vararg=None, kwarg=None), body=name(t))
            return ast.copy_location(ast.Assign(targets=[name(t, ast.Store())],
                                                value=call("__flag__", self.visit(n.test), b[0].value, old)), n)
        return self._blocks(n)
    def visit_Try(self, n): return self._blocks(n)
    def visit_With(self, n): return self._blocks(n)

    def visit_While(self, n):
        return self._blocks(n, events([n]))

    def visit_Module(self, n):
        n.body = self.body(n.body, [])
        return n

    def visit_ClassDef(self, n):
        self.scope.append(("class", n, set()))
        n.bases = [self.visit(b) for b in n.bases]
        n.body = self.body(n.body, [])
        self.scope.pop()
        return n

    def visit_FunctionDef(self, n):
        glob = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Global):
                glob.update(x.names)
        hoist = set()
        self.scope.append(("func", n, hoist))
        self.after.append([])
        n.args.defaults = [self.visit(d) for d in n.args.defaults]
        n.args.kw_defaults = [self.visit(d) if d is not None else None for d in n.args.kw_defaults]
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        doc = []
        if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc = [n.body[0]]
            n.body = n.body[1:] or [ast.Pass()]
        n.body = self.body(n.body, [])
        self.after.pop()
        self.scope.pop()
        params = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs}
        for v in (n.args.vararg, n.args.kwarg):
            if v:
                params.add(v.arg)
        h = sorted(hoist - params - glob)
        if h:
            n.body.insert(0, ast.If(test=ast.Constant(0), body=[
                ast.Assign(targets=[name(x, ast.Store()) for x in h], value=ast.Constant(None))], orelse=[]))
        return n

    def visit_For(self, n):
        kind, fn, hoist = self.scope[-1]
        tail = self.after[-1] if self.after else []
        hard = n.orelse or has_node(n.body, (ast.Return,)) or loop_has_break(n.body) or kind == "class" or \
            kind == "module"
        # a yield used for its value: coroutine body
        for x in n.body:
            for y in ast.walk(x):
                if isinstance(y, (ast.Assign, ast.AugAssign)) and isinstance(y.value, (ast.Yield, ast.YieldFrom)):
                    hard = True
        own = events([n])
        bev = events(n.body)
        tgt = events([n.target])
        loop_tail = tail + own
        if hard:
            n.iter = call("__iternative__", self.visit(n.iter))
            n.body = self.body(n.body, loop_tail)
            n.orelse = self.body(n.orelse, tail)
            return n
        stored = []
        for x, k in tgt + bev:
            if k == "S" and x not in stored:
                stored.append(x)
        carried = []
        for x in stored:
            # read before assigned within one iteration
            first = next((k for y, k in tgt + bev if y == x), None)
            nxt = next((k for y, k in tail if y == x), None)
            if first == "L" or nxt == "L":
                carried.append(x)
        gen = has_node(n.body, (ast.Yield, ast.YieldFrom))
        it = self.visit(n.iter)
        body = self.body(n.body, loop_tail)
        body = [_Continue().visit(s) for s in body]
        self.n += 1
        fname = "__body_%d" % self.n
        pre = []
        glob = set()
        for x in ast.walk(fn):
            if isinstance(x, ast.Global):
                glob.update(x.names)
        nl = [x for x in stored if x not in glob]
        if nl:
            pre.append(ast.Nonlocal(names=nl))
        if [x for x in stored if x in glob]:
            pre.append(ast.Global(names=[x for x in stored if x in glob]))
        pre.append(ast.Assign(targets=[n.target], value=name("__elt")))
        for s in self.scope:
            pass
        hoist.update(nl)
        f = ast.FunctionDef(name=fname, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="__elt")],
                                                           kwonlyargs=[], kw_defaults=[], defaults=[],
                                                           vararg=None, kwarg=None),
                            body=pre + body, decorator_list=[], returns=None, type_params=[])
        c = call("__loopgen__" if gen else "__loop__", it, name(fname),
                 ast.Tuple(elts=[ast.Constant(x) for x in carried], ctx=ast.Load()))
        st = ast.Expr(value=ast.YieldFrom(value=c) if gen else c)
        return [ast.copy_location(f, n), ast.copy_location(st, n)]


# ------------------------------------------------------------------ imports
class Stub:
    """Something imported that has no model: using it is outside the generator's reach."""
    def __init__(self, nm):
        self.__dict__["_nm"] = nm

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return Stub(self._nm + "." + a)

    def __call__(self, *a, **k):
        raise Unsupported("call of unmodelled %s" % self._nm)

    def __mro_entries__(self, bases):
        return (object,)


REAL = {"itertools": seq.ItertoolsModel}
MODELS = {}
PASS = {"os", "sys", "re", "collections", "functools", "struct", "warnings", "argparse", "time", "operator",
        "fractions", "copy", "contextlib", "socket", "subprocess", "glob", "uuid", "traceback", "abc"}


class _Log:
    def __getattr__(self, a):
        return lambda *x, **k: self if a == "getLogger" else None


class _Logging:
    def getLogger(self, *a):
        return _Log()

    def __getattr__(self, a):
        if a.isupper():
            return 0
        return lambda *x, **k: None


def model_for(nm):
    if nm in MODELS:
        return MODELS[nm]
    if nm == "logging":
        return _Logging()
    if nm in REAL:
        return REAL[nm]
    return None


class Loader:
    def __init__(self, repo=None, overrides=None):
        self.repo = repo or REPO
        self.mods = {}
        self.overrides = overrides or {}
        self.sources = {}

    def path(self, nm):
        p = os.path.join(self.repo, *nm.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return p + ".py"

    def load(self, nm):
        if nm in self.mods:
            return self.mods[nm]
        p = self.path(nm)
        src = open(p).read()
        self.sources[nm] = src
        tree = ast.parse(src, p)
        tree = Rewriter().visit(tree)
        ast.fix_missing_locations(tree)
        m = types.ModuleType(nm)
        m.__file__ = p
        b = seq.model_builtins()
        b["__import__"] = self.importer(nm)
        b["open"] = self.overrides.get("open", _no_open)
        m.__dict__["__builtins__"] = b
        m.__dict__["__name__"] = nm
        if os.path.basename(p) == "__init__.py":
            m.__path__ = [os.path.dirname(p)]
            m.__package__ = nm
        else:
            m.__package__ = nm.rpartition(".")[0]
        self.mods[nm] = m
        code = compile(tree, p, "exec")
        exec(code, m.__dict__)
        return m

    def importer(self, cur):
        def imp(nm, globals=None, locals=None, fromlist=(), level=0):
            if level:
                base = (globals or {}).get("__package__") or cur.rpartition(".")[0]
                parts = base.split(".")
                parts = parts[:len(parts) - level + 1]
                nm = ".".join(parts + ([nm] if nm else []))
            if nm.split(".")[0] == "glmtools":
                if fromlist:
                    try:
                        m = self.load(nm)
                    except FileNotFoundError:
                        raise ImportError(nm)
                    for f in fromlist:
                        if f != "*" and not hasattr(m, f):
                            try:
                                setattr(m, f, self.load(nm + "." + f))
                            except FileNotFoundError:
                                pass
                    return m
                self.load(nm)
                return _tree(self, nm)
            if nm in self.overrides:
                return self.overrides[nm] if fromlist or "." not in nm else _dotted(nm, self.overrides)
            mdl = model_for(nm)
            if mdl is not None:
                if fromlist or "." not in nm:
                    return mdl
                top = model_for(nm.split(".")[0])
                return top if top is not None else _dotted(nm, MODELS)
            if nm.split(".")[0] in PASS:
                return builtins.__import__(nm, globals, locals, fromlist, 0)
            if nm == "__future__":
                return builtins.__import__(nm, globals, locals, fromlist, 0)
            if fromlist:
                return Stub(nm)
            return Stub(nm.split(".")[0])
        return imp


def _no_open(*a, **k):
    raise Unsupported("file access")


def _dotted(nm, table):
    class N:
        pass
    parts = nm.split(".")
    top = cur = N()
    for i, p in enumerate(parts[1:], 1):
        full = ".".join(parts[:i + 1])
        nx = table.get(full)
        if nx is None:
            nx = N()
        setattr(cur, p, nx)
        cur = nx
    return top


def _tree(ld, nm):
    class N:
        pass
    parts = nm.split(".")
    top = cur = N()
    for i, p in enumerate(parts[1:], 1):
        full = ".".join(parts[:i + 1])
        nx = ld.mods.get(full)
        if nx is None:
            nx = N()
        setattr(cur, p, nx)
        cur = nx
    return top
