"""What contract files use: units, symbolic inputs, running and reporting."""
import time
import traceback
from fractions import Fraction
import z3
from . import core, arr, seq, theory, npmod, xrmod, dtmod, pdmod, lmamod, loader
from .core import E, S, Unsupported, mk, raw, iraw, unS, c_and, c_or, c_not, ite
from .arr import Arr, F8, I8, B1, OBJ, asarray
from .seq import Seq, TList

R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
Q = Fraction


class Unit:
    """One function under contract."""
    def __init__(self, func, name, fn, raises=(), opts=None, note=""):
        self.func, self.name, self.fn, self.raises, self.opts, self.note = func, name, fn, raises, opts or {}, note


class Contract:
    def __init__(self, pid):
        self.pid = pid
        self.units = []
        self.assumptions = []

    def unit(self, func, name=None, raises=(), note="", **opts):
        def d(fn):
            self.units.append(Unit(func, name or fn.__name__, fn, raises, opts, note))
            return fn
        return d

    def assume(self, *txt):
        self.assumptions += txt


class Env:
    def __init__(self, repo=None):
        self.ld = loader.Loader(repo)

    def mod(self, nm):
        return self.ld.load(nm)

    def override(self, **mods):
        """stand-ins for imported modules (dots written as __); modules are loaded anew"""
        self.ld.mods.clear()
        self.ld.overrides.update({k.replace("__", "."): v for k, v in mods.items()})

    def fn(self, modname, *names):
        m = self.mod(modname)
        for n in names[0].split("."):
            if not hasattr(m, n):
                raise Unsupported("%s.%s not found" % (modname, names[0]))
            m = getattr(m, n)
        return m


# ---- symbolic inputs
def real(name):
    return mk(z3.Real(name))


def integer(name, lo=None, hi=None):
    t = z3.Int(name)
    if lo is not None:
        E.assume(t >= lo)
    if hi is not None:
        E.assume(t <= hi)
    return mk(t)


def boolean(name):
    return mk(z3.Bool(name))


def length(name, lo=0):
    t = z3.Int(name)
    E.assume(t >= lo)
    return t


def array(name, *shape, sort="Real", dt=None, nan=False):
    shape = [unS(s) for s in shape]
    s = core.sort_of(sort)
    f = z3.Function(name, *([I] * len(shape) + [s]))
    g = z3.Function(name + ".nan", *([I] * len(shape) + [B])) if nan else None
    if dt is None:
        dt = F8 if s == R else (B1 if s == B else I8)
    a = Arr(shape, lambda *i: mk(f(*[iraw(x) for x in i]), g(*[iraw(x) for x in i]) if nan else None), dt)
    a.sym = f
    a.frozen = a.snapshot()
    return a


def idx(name, n):
    """an arbitrary index 0 <= i < n"""
    t = z3.Int(name)
    E.skolem[t.get_id()] = z3.And(t >= 0, t < iraw(n))
    E.kept.append(t)
    return t


def forall(name, n, f):
    k = z3.Int(name)
    E.axioms.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < iraw(n)), raw(f(k)))))


def A(v):
    """result -> Arr"""
    if isinstance(v, Arr):
        return v
    if hasattr(v, "to_arr"):
        return v.to_arr()
    return asarray(v)


def eq(a, b):
    """scalar equality as a condition (NaN equals NaN)"""
    na, nb = core.nan_of(a), core.nan_of(b)
    if na is not False or nb is not False:
        x, y = core.unify(core.num(a), core.num(b))
        return z3.And(raw(na) == raw(nb), z3.Or(raw(na), x == y))
    r = (a == b)
    if r is NotImplemented:
        return a is b
    return raw(r) if isinstance(r, S) else bool(r)


def prove(name, goal, **k):
    return E.prove(name, raw(goal) if isinstance(goal, S) else goal, **k)


def lemma(name, goal, hints=()):
    """proved, then available"""
    g = raw(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
    prove("lemma: " + name, g, hints=hints)
    learn(g)


def learn(g):
    r = E.ranges(g)
    E.assume(z3.Implies(z3.And(*r), g) if r else g)


def helper(goal, ms=3000, hints=()):
    """available if it can be shown here; otherwise left out (a stepping stone, not part of the contract)"""
    g = raw(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
    if E.valid(g, ms, hints):
        learn(g)
        return True
    return False


def everywhere(ns, body, pats=None, ms=3000):
    """shown for arbitrary indices 0 <= k < n, then available for all of them; left out if it cannot be shown"""
    ks = [idx(E.name("ev"), n) for n in ns]
    if not E.valid(raw(body(*ks)), ms):
        return False
    qs = [z3.Int("evq!%d" % j) for j in range(len(ns))]
    rng = z3.And(*[z3.And(q >= 0, q < iraw(n)) for q, n in zip(qs, ns)])
    E.axioms.append(z3.ForAll(qs, z3.Implies(rng, raw(body(*qs))), patterns=pats(*qs) if pats else []))
    return True


def same_array(name, a, spec, shape=None, names=None):
    """array a has this shape and a[i] == spec(i) for arbitrary i"""
    a = A(a)
    if shape is not None:
        if len(shape) != a.ndim:
            prove(name + ": rank %d" % len(shape), False)
            return
        for d, s in enumerate(shape):
            prove(name + ": length of axis %d" % d, core.i_eq(a.shape[d], unS(s)))
    ks = [idx(names[d] if names else E.name("at"), s) for d, s in enumerate(shape or a.shape)]
    prove(name, eq(a.elem(*ks), spec(*ks)))
    return ks


def holds(name, a, lo, hi):
    """the column's type has every whole number lo <= q < hi, so storing one of them there keeps it"""
    dt = A(a).dtype
    if dt.kind not in "iuf":
        raise Unsupported("whole numbers in a column of type %s" % dt)
    b = 8 * dt.itemsize
    top = {"i": 2 ** (b - 1), "u": 2 ** b, "f": 2 ** (24 if b == 32 else 53)}[dt.kind]
    prove(name + ": the column's type holds every such value", lo >= (0 if dt.kind == "u" else -top) and hi <= top)


def unchanged(name, a):
    """the caller's array still holds what it held (frame)"""
    ks = [idx(E.name("fr"), s) for s in a.frozen.shape]
    prove(name + " is left unchanged", eq(a.elem(*ks), a.frozen.elem(*ks)), kind="frame")


# ---- running
class UnitResult:
    def __init__(self, unit):
        self.unit = unit
        self.obls = []
        self.status = None           # proved / refuted / unknown / unsupported
        self.note = ""
        self.secs = 0.0
        self.paths = 0
        self.returns = 0
        self.vacuous = False


def run_unit(u, env, timeout_ms=8000, budget_s=120):
    r = UnitResult(u)
    t0 = time.time()
    E.reset()
    E.all_obls = []
    E.paths = 0
    E.timeout_ms = u.opts.get("timeout_ms", timeout_ms)
    E.feas_ms = u.opts.get("feas_ms", 300)
    E.simplify_ite = u.opts.get("simplify_ite", False)
    E.singletons = u.opts.get("singletons", False)
    E.want_counts = u.opts.get("counts", False)
    E.allowed, E.raised = tuple(u.raises), []
    E.deadline = t0 + u.opts.get("budget_s", budget_s)
    live = [0]

    def ret(v):
        r.returns += 1
        # vacuity guard: False must not follow from the hypotheses of this path
        c = core.Obl("canary", E.hyps(), z3.BoolVal(False), "canary")
        s = z3.Solver()
        s.set("timeout", 1500)
        s.add(*c.hyps)
        s.add(*E.extra_axioms(c.hyps, 1))
        if s.check() != z3.unsat:
            live[0] += 1

    def rais(ex):
        nm = type(ex).__name__
        if isinstance(ex, tuple(u.raises)):
            r.returns += 1
            live[0] += 1
            return
        r.note = getattr(ex, "_tb", str(ex))
        if u.opts.get("soft"):
            # text of stated layout only: an exception may be the model's
            raise Unsupported("exception on symbolic text: %s\n%s" % (ex, r.note[-2000:]))
        E.prove("no exception: %s %s" % (nm, str(ex)[:100]), z3.BoolVal(False), kind="definedness")

    try:
        E.explore(lambda: u.fn(env), ret, rais)
        r.obls = E.all_obls
        bad = [o for o in r.obls if o.status != "discharged"]
        if any(o.status == "refuted" for o in bad):
            r.status = "refuted"
        elif bad:
            r.status = "unknown"
        elif not r.obls:
            r.status, r.note = "unsupported", "no obligation was generated"
        elif live[0] == 0:
            r.status, r.note, r.vacuous = "unsupported", "hypotheses contradictory on every path (vacuous)", True
        else:
            r.status = "proved"
    except Unsupported as ex:
        r.obls = E.all_obls
        r.status, r.note = "unsupported", "outside reach: %s\n%s" % (ex, traceback.format_exc()[-1500:])
    except FileNotFoundError as ex:
        r.status, r.note = "unsupported", str(ex)
    except RecursionError as ex:
        r.status, r.note = "unsupported", "recursion limit"
    except z3.Z3Exception as ex:
        r.status, r.note = "unsupported", "z3: %s\n%s" % (ex, traceback.format_exc()[-1500:])
    except Exception as ex:
        # a defect of the generator or a construct it mis-handles: no verdict
        r.status, r.note = "unsupported", "generator error: %s\n%s" % (ex, traceback.format_exc()[-3000:])
    r.paths = E.paths
    r.secs = time.time() - t0
    return r
