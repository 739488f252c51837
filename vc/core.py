"""Core of the verification-condition generator.

The source of a function of /repo is executed, unmodified in meaning, over symbolic
values.  This module holds the path explorer, the symbolic scalar, sums, and the
discharge of obligations (z3, then cvc5).
"""
import time
from fractions import Fraction
import z3


class Unsupported(Exception):
    """The construct is outside the reach of the generator (never a violation)."""


class Infeasible(BaseException):
    pass


class Frame:
    __slots__ = ("prefix", "taken", "alts", "pc", "k", "n", "effects", "native")

    def __init__(self, prefix, k=None, n=None):
        self.prefix = prefix
        self.taken = []
        self.alts = []
        self.pc = []
        self.k = k
        self.n = n
        self.effects = []
        self.native = False


class Obl:
    __slots__ = ("name", "hyps", "goal", "status", "backend", "secs", "model", "kind", "hints")

    def __init__(self, name, hyps, goal, kind="post", hints=()):
        self.name, self.hyps, self.goal, self.kind = name, hyps, goal, kind
        self.status = self.backend = self.model = None
        self.secs = 0.0
        self.hints = list(hints)


class Engine:
    def __init__(self, feas_ms=300):
        self.feas_ms = feas_ms
        self.reset()
        self.all_obls = []
        self.assumed = {}          # assumed library contracts that were used
        self.inlined = set()
        self.solver_secs = 0.0
        self.paths = 0
        self.max_paths = 400
        self.allowed = ()          # exceptions the contract allows
        self.raised = []
        self.deadline = None

    def reset(self):
        self.cnt = {}
        self.axioms = []
        self.frames = []
        self.sums = {}             # decl name -> SumInfo
        self.ghost = {}
        self.genvars = set()
        self.mathfuncs = {}
        self.hint_terms = []
        self.skolem = {}           # arbitrary index -> its range
        self.kept = []

    # ---- names
    def name(self, base):
        i = self.cnt.get(base, 0)
        self.cnt[base] = i + 1
        return "%s!%d" % (base, i)

    def gens(self):
        return [f for f in self.frames if f.k is not None]

    def fresh(self, base, sort="Int"):
        """A fresh symbol; inside generic bodies, a function of the bound indices."""
        s = sort_of(sort)
        ks = [f.k for f in self.gens()]
        nm = self.name(base)
        if not ks:
            return z3.Const(nm, s)
        return z3.Function(nm, *([z3.IntSort()] * len(ks) + [s]))(*ks)

    def fresh_fun(self, base, sorts, ret):
        ks = [f.k for f in self.gens()]
        nm = self.name(base)
        f = z3.Function(nm, *([z3.IntSort()] * len(ks) + [sort_of(x) for x in sorts] + [sort_of(ret)]))

        def call(*args):
            return f(*ks, *[raw(a) for a in args])
        call.decl = f
        call.ks = ks
        return call

    # ---- assumptions
    def assume(self, fact, pats=None, qvars=(), everywhere=False):
        """fact may mention the bound indices of the enclosing generic bodies and qvars.
        everywhere: the fact holds whatever the bound indices and path conditions"""
        if fact is True:
            return
        if isinstance(fact, S):
            fact = fact.t
        gs = self.gens()
        conds = []
        ks = []
        for f in self.frames:
            if f.k is not None:
                ks.append(f.k)
                conds += [f.k >= 0, f.k < iraw(f.n)]
                conds += f.pc
        if not ks or everywhere:
            if qvars:
                fact = z3.ForAll(list(qvars), fact, patterns=pats or [])
            self.add_axiom(fact)
            return
        body = z3.Implies(z3.And(*conds), fact) if conds else fact
        vs = ks + list(qvars)
        ok = [p for p in pats or [] if covers(p, vs)]
        self.add_axiom(z3.ForAll(vs, body, patterns=ok))
        # also for the generic indices themselves
        if qvars:
            self.add_axiom(z3.ForAll(list(qvars), body, patterns=pats or []))
        else:
            self.add_axiom(body)

    def add_axiom(self, f):
        if not any(f.get_id() == x.get_id() for x in self.axioms):
            self.axioms.append(f)

    def hyps(self, about=()):
        """what holds here; the ranges of arbitrary indices only where the statement is about them"""
        h = list(self.axioms)
        if self.skolem and about:
            from .theory import free_consts
            seen = set()
            for t in about:
                seen.update(free_consts(t))
            h += [f for i, f in self.skolem.items() if i in seen]
        for f in self.frames:
            if f.k is not None:
                h += [f.k >= 0, f.k < iraw(f.n)]
            h += f.pc
        return h

    # ---- branching
    def decide(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        f = self.frames[-1]
        i = len(f.taken)
        b = None
        if i < len(f.prefix):
            b = f.prefix[i]
        else:
            t = self.feasible(c)
            e = self.feasible(z3.Not(c))
            if t and e and self.ranges(c):
                r = self.ranges(c)
                if not self.feasible(c, r):
                    b = 2              # false for every index in range
                elif not self.feasible(z3.Not(c), r):
                    b = 3
            if b is not None:
                pass
            elif t and e:
                if f.native:
                    raise Unsupported("fork inside a loop body that cannot be re-executed")
                f.alts.append(f.taken + [False])
                b = True
            elif t or e:
                b = t
            else:
                raise Infeasible()
        f.taken.append(b)
        if b in (2, 3) and not isinstance(b, bool):
            b = b == 3
            f.pc.append(z3.Implies(z3.And(*self.ranges(c)), c if b else z3.Not(c)))
            return b
        f.pc.append(c if b else z3.Not(c))
        return b

    def ranges(self, c):
        """the ranges of the arbitrary indices c mentions"""
        if not self.skolem:
            return []
        from .theory import free_consts
        fc = free_consts(c)
        return [f for i, f in self.skolem.items() if i in fc]

    def feasible(self, c, more=()):
        h = self.hyps() + [c] + list(more)
        # the quantifier-free part alone often decides
        s = z3.Solver()
        s.set("timeout", 100)
        s.add(*[x for x in h if not has_quant(x)])
        if s.check() == z3.unsat:
            return False
        h = h + self.extra_axioms(h, rounds=1)
        s = z3.Solver()
        s.set("timeout", self.feas_ms)
        s.add(*h)
        t0 = time.time()
        r = s.check()
        self.solver_secs += time.time() - t0
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget for symbolic evaluation used up")
        return r != z3.unsat

    def valid(self, c, ms=None, hints=()):
        """Is c certainly true here (used for shape equality and the like)?"""
        if isinstance(c, bool):
            return c
        if isinstance(c, S):
            c = c.t
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        h = self.hyps([c] + list(hints)) + [z3.Not(c)] + hint_facts(hints)
        h = h + self.extra_axioms(h, rounds=1)
        s = z3.Solver()
        s.set("timeout", ms or 2000)
        s.add(*h)
        t0 = time.time()
        r = s.check()
        self.solver_secs += time.time() - t0
        return r == z3.unsat

    # ---- exploration
    def explore(self, fn, on_return, on_raise):
        """Run fn() along every feasible path."""
        todo = [[]]
        while todo:
            prefix = todo.pop()
            self.reset()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported("more than %d paths" % self.max_paths)
            fr = Frame(prefix)
            self.frames = [fr]
            self.obls = []
            try:
                try:
                    v = fn()
                except Unsupported:
                    raise
                except Infeasible:
                    todo += fr.alts
                    continue
                except Exception as ex:
                    import traceback
                    ex._tb = traceback.format_exc()
                    if generator_fault(ex):
                        raise Unsupported("modelled library call: %s\n%s" % (ex, ex._tb[-3000:]))
                    on_raise(ex)
                else:
                    on_return(v)
            except Infeasible:
                pass
            todo += fr.alts
            self.flush()

    def local(self, fn, n, kname="k"):
        """Explore fn(k) for a generic index 0 <= k < n.

        Returns (k, [(cond, value, effects)]).  cond is over k."""
        k = z3.Int(self.name(kname))
        self.genvars.add(k.get_id())
        self._keep = getattr(self, "_keep", [])
        self._keep.append(k)
        res = []
        todo = [[]]
        count = 0
        while todo:
            prefix = todo.pop()
            count += 1
            if count > 64:
                raise Unsupported("more than 64 local paths")
            fr = Frame(prefix, k=k, n=n)
            self.frames.append(fr)
            try:
                try:
                    v = fn(k)
                    res.append((zand(*fr.pc), v, fr.effects))
                except Infeasible:
                    pass
                except Unsupported:
                    raise
                except (KeyError, IndexError, ValueError, TypeError, AttributeError, ZeroDivisionError, NameError) as ex:
                    # the whole computation raises if this happens for any element
                    if generator_fault(ex):
                        raise Unsupported("modelled library call: %s" % ex)
                    if isinstance(ex, self.allowed):
                        self.raised.append(type(ex).__name__)
                        fr.pc, saved = [], fr.pc
                        self.assume(z3.Not(zand(*saved)))
                        fr.pc = saved
                    else:
                        self.prove("no %s (%s) in element-wise evaluation" % (type(ex).__name__, str(ex)[:80]),
                                   z3.BoolVal(False), kind="definedness")
            finally:
                self.frames.pop()
            todo += fr.alts
        return k, res

    # ---- obligations
    def prove(self, name, goal, kind="post", hints=()):
        if isinstance(goal, S):
            goal = goal.t
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        o = Obl(name, self.hyps([goal]), goal, kind, list(hints) + self.hint_terms)
        self.obls.append(o)
        return o

    def need(self, name, goal):
        """A definedness condition of the code itself: proved, then assumed."""
        if goal is True:
            return
        if isinstance(goal, S):
            goal = goal.t
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = z3.simplify(goal)
        if z3.is_true(g):
            return
        self.prove(name, goal, kind="definedness")
        r = self.ranges(goal)
        if r:
            goal = z3.Implies(z3.And(*r), goal)
        self.assume(goal)

    def flush(self):
        for o in self.obls:
            self.solve(o)
        self.all_obls += self.obls
        self.obls = []

    timeout_ms = 8000
    simplify_ite = False
    use_cvc5 = True

    def solve(self, o):
        t0 = time.time()
        g = z3.simplify(o.goal)
        if z3.is_true(g):
            o.status, o.backend = "discharged", "simplifier"
            o.secs = time.time() - t0
            return
        h = list(o.hyps)
        neg = z3.Not(o.goal)
        hints = hint_facts(o.hints)
        extra = self.extra_axioms(h + [neg] + hints)
        allh = h + extra + hints
        quant = any(has_quant(x) for x in allh + [neg])

        def plain(ms):
            s = z3.Solver()
            s.set("timeout", ms)
            s.add(*allh)
            s.add(neg)
            r = s.check()
            if r == z3.unsat:
                o.status, o.backend = "discharged", "z3"
            elif r == z3.sat:
                o.model = s.model()
                if incomplete(allh + [neg]):
                    o.status, o.backend = "unknown", "z3: countermodel of an incompletely axiomatised theory"
                else:
                    o.status, o.backend = "refuted", "z3"
            else:
                o.status, o.backend = "unknown", "z3:" + s.reason_unknown()

        def nlsat(ms):
            # nonlinear real arithmetic on the quantifier-free part, function applications
            # replaced by constants (weaker hypotheses, so still sound)
            try:
                t = z3.Then("simplify", "solve-eqs", "purify-arith", "qfnra-nlsat").solver()
                t.set("timeout", ms)
                t.add(*purify([x for x in allh + [neg] if not has_quant(x)]))
                if t.check() == z3.unsat:
                    o.status, o.backend = "discharged", "z3-nlsat"
            except z3.Z3Exception:
                pass

        def cvc(ms):
            if not self.use_cvc5:
                return
            r = cvc5_check(allh + [neg], ms)
            if r == "unsat":
                o.status, o.backend = "discharged", "cvc5"
            elif r == "sat" and not quant and not incomplete(allh + [neg]):
                o.status, o.backend = "refuted", "cvc5"
        T = self.timeout_ms
        if sum(x.status == "unknown" for x in self.all_obls + self.obls if x is not o and x.backend) >= 3:
            T = min(T, 1500)         # the unit is undecided already
        for step, ms in ((plain, min(1500, T)), (nlsat, min(4000, T)), (cvc, min(3000, T)), (plain, T), (cvc, T)):
            step(ms)
            if o.status != "unknown":
                break
        o.secs = time.time() - t0
        self.solver_secs += o.secs

    # ---- ground instances of the assumed theories (sums, elementary functions)
    def extra_axioms(self, terms, rounds=2):
        from . import theory
        return theory.instances(self, terms, rounds)


E = Engine()


def engine():
    return E


# ---------------------------------------------------------------- helpers
def hint_facts(terms):
    """ground terms offered to the instantiation engine (carry no information)"""
    return [z3.Function("hint!%s" % x.sort(), x.sort(), z3.BoolSort())(x) for x in terms]


def covers(p, vs):
    """does the pattern mention every variable"""
    from .theory import free_consts
    if not isinstance(p, z3.ExprRef):
        return True
    fc = free_consts(p)
    return all(v.get_id() in fc for v in vs)


# the generator's own classes: a complaint about one of them is a gap in the generator, not in the code
MODEL_TYPES = ("S", "Seq", "SSet", "TList", "Family", "SymDict", "Groups", "GroupBy", "Arr", "DType", "Var", "DataArray",
               "Dataset", "Fraction", "XR", "Struct", "datetime", "timedelta")


def generator_fault(ex):
    """TypeError and the like raised inside the modelled library (unmodelled argument), not by the code"""
    if isinstance(ex, (RecursionError, z3.Z3Exception)):
        return True
    tb = ex.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    import os
    here = os.path.dirname(os.path.abspath(__file__))
    if last is not None and last.startswith(os.path.join(here, "contracts")):
        return True          # the contract could not read the result: its shape is not the one it is written for
    if not isinstance(ex, (TypeError, AttributeError, NameError)):
        return False
    # a call with arguments the modelled function does not take raises in the calling frame
    if isinstance(ex, TypeError) and ("argument" in str(ex) or any("'%s'" % m in str(ex) for m in MODEL_TYPES)):
        return True
    if isinstance(ex, AttributeError) and getattr(type(getattr(ex, "obj", None)), "__module__", "").startswith("vc."):
        return True
    return last is not None and last.startswith(here)


def sort_of(s):
    if isinstance(s, str):
        return {"Int": z3.IntSort(), "Real": z3.RealSort(), "Bool": z3.BoolSort()}[s]
    return s


def incomplete(fs):
    """sums and elementary functions are only partly axiomatised: their countermodels prove nothing"""
    seen, st = set(), list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name().startswith(("math.", "Sum!", "abs!", "civil!")):
            return True
        st += [x.body()] if z3.is_quantifier(x) else x.children()
    return False


def has_quant(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st += x.children()
    return False


def purify(fs):
    apps = {}
    seen = set()
    st = list(fs)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                apps[x.get_id()] = x
            st += x.children()
    pairs = [(a, z3.Const("pure!%d" % i, a.sort())) for i, a in apps.items()]
    # outermost applications first: substitution is simultaneous on the original term
    out = []
    for f in fs:
        out.append(z3.substitute(f, *pairs) if pairs else f)
    return out


def cvc5_check(fs, ms):
    try:
        import cvc5
        s = z3.Solver()
        s.add(*fs)
        txt = "(set-logic ALL)\n" + s.to_smt2()
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        sl = cvc5.Solver(tm) if tm else cvc5.Solver()
        sl.setOption("tlimit-per", str(ms))
        ip = cvc5.InputParser(sl)
        ip.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "vc")
        sm = ip.getSymbolManager()
        out = None
        while True:
            c = ip.nextCommand()
            if c.isNull():
                break
            r = str(c.invoke(sl, sm)).strip()
            if r in ("sat", "unsat", "unknown"):
                out = r
        return out
    except Exception as ex:      # parse trouble: no answer
        return "error:%s" % ex


def raw(v):
    """Python/S value -> z3 term."""
    if isinstance(v, S):
        return v.t
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, float):
        return z3.RealVal(Fraction(v))
    if isinstance(v, z3.ExprRef):
        return v
    raise Unsupported("no term for %r" % type(v))


def iraw(v):
    if isinstance(v, S):
        v = v.t
    if isinstance(v, int):
        return z3.IntVal(v)
    return v


def mk(t, nan=None):
    """z3 term -> Python value when constant, S otherwise."""
    if not isinstance(t, z3.ExprRef):
        return t
    if nan is None or nan is False or (isinstance(nan, z3.ExprRef) and z3.is_false(nan)):
        if z3.is_int_value(t):
            return t.as_long()
        if z3.is_rational_value(t):
            return Fraction(t.numerator_as_long(), t.denominator_as_long())
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        return S(t)
    if nan is True:
        nan = z3.BoolVal(True)
    return S(t, nan)


def zand(*cs):
    out = []
    for c in cs:
        if isinstance(c, S):
            c = c.t
        if c is True:
            continue
        if c is False:
            return z3.BoolVal(False)
        out.append(c)
    if not out:
        return z3.BoolVal(True)
    return z3.And(*out) if len(out) > 1 else out[0]


def pyc(c):
    """constant-fold a condition: Python bool when decided, z3 Bool otherwise."""
    if isinstance(c, S):
        c = c.t
    if isinstance(c, bool):
        return c
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return c


def c_and(*cs):
    out = []
    for c in cs:
        c = pyc(c)
        if c is True:
            continue
        if c is False:
            return False
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def c_or(*cs):
    out = []
    for c in cs:
        c = pyc(c)
        if c is False:
            continue
        if c is True:
            return True
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def c_not(c):
    c = pyc(c)
    if isinstance(c, bool):
        return not c
    return z3.Not(c)


def i_eq(a, b):
    a, b = unS(a), unS(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b):
        return True
    return iraw(a) == iraw(b)


def i_lt(a, b):
    a, b = unS(a), unS(b)
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return iraw(a) < iraw(b)


def i_le(a, b):
    a, b = unS(a), unS(b)
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return iraw(a) <= iraw(b)


def i_add(a, b):
    a, b = unS(a), unS(b)
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return z3.simplify(iraw(a) + iraw(b))


def i_sub(a, b):
    a, b = unS(a), unS(b)
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return z3.simplify(iraw(a) - iraw(b))


def i_mul(a, b):
    a, b = unS(a), unS(b)
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    return iraw(a) * iraw(b)


def unS(v):
    if isinstance(v, S):
        return v.t
    return v


def ite(c, a, b):
    """scalar if-then-else (a, b Python numbers, S or other scalar values)"""
    c = pyc(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if E.simplify_ite and E.frames:
        if E.valid(c, 200):
            return a
        if E.valid(z3.Not(c), 200):
            return b
    if not is_num(a) or not is_num(b):
        if type(a) is type(b) and a == b:
            return a
        if hasattr(a, "ite_with"):
            return a.ite_with(c, b)
        if hasattr(b, "ite_with"):
            return b.ite_with(z3.Not(c), a)
        raise Unsupported("merge of %r and %r" % (type(a), type(b)))
    ta, tb = raw(a), raw(b)
    ta, tb = unify(ta, tb)
    na, nb = nan_of(a), nan_of(b)
    nan = None
    if na is not False or nb is not False:
        nan = z3.If(c, raw(na), raw(nb))
    if ta.eq(tb) and nan is None:
        return mk(ta)
    return mk(z3.If(c, ta, tb), nan)


def is_num(v):
    return isinstance(v, (S, bool, int, Fraction, float))


def nan_of(v):
    if isinstance(v, S) and v.nan is not None:
        return v.nan
    return False


def unify(a, b):
    if a.sort() == b.sort():
        return a, b
    if z3.is_bool(a):
        a = z3.If(a, z3.IntVal(1), z3.IntVal(0))
    if z3.is_bool(b):
        b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
    if a.sort() == b.sort():
        return a, b
    if z3.is_int(a) and z3.is_real(b):
        return (z3.ToReal(a) if not z3.is_int_value(a) else z3.RealVal(a.as_long())), b
    if z3.is_real(a) and z3.is_int(b):
        return a, (z3.ToReal(b) if not z3.is_int_value(b) else z3.RealVal(b.as_long()))
    raise Unsupported("sorts %s and %s" % (a.sort(), b.sort()))


def to_real(t):
    t = raw(t)
    if z3.is_bool(t):
        t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
    if z3.is_int(t):
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t


class S:
    """Symbolic scalar: a z3 term and, for reals, an optional 'is NaN' condition."""
    __slots__ = ("t", "nan")
    __array_priority__ = 0

    def __init__(self, t, nan=None):
        if isinstance(t, S):
            t = t.t
        self.t = t
        self.nan = nan if not (isinstance(nan, z3.ExprRef) and z3.is_false(nan)) else None

    # ---- arithmetic
    def _bin(self, o, f, rev=False):
        if not is_num(o):
            return NotImplemented
        a, b = unify(num(self), num(o))
        if rev:
            a, b = b, a
        nan = c_or(nan_of(self), nan_of(o))
        return mk(f(a, b), nan)

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __radd__(self, o): return self._bin(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._bin(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._bin(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        if not is_num(o):
            return NotImplemented
        return sdiv(self, o)

    def __rtruediv__(self, o):
        if not is_num(o):
            return NotImplemented
        return sdiv(o, self)

    def __floordiv__(self, o):
        if not is_num(o):
            return NotImplemented
        return sfloordiv(self, o)

    def __rfloordiv__(self, o):
        if not is_num(o):
            return NotImplemented
        return sfloordiv(o, self)

    def __mod__(self, o):
        if not is_num(o):
            return NotImplemented
        return self - sfloordiv(self, o) * o

    def __rmod__(self, o):
        if not is_num(o):
            return NotImplemented
        return o - sfloordiv(o, self) * self

    def __pow__(self, o):
        if isinstance(o, Fraction) and o.denominator == 1:
            o = int(o)
        if isinstance(o, float) and o == int(o):
            o = int(o)
        if isinstance(o, int) and not isinstance(o, bool) and 0 <= o <= 8:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        if isinstance(o, (Fraction, float)) and o == Fraction(1, 2):
            from .theory import fn1
            return fn1("sqrt", self)
        raise Unsupported("power %r" % (o,))

    def __neg__(self): return mk(-num(self), self.nan)
    def __pos__(self): return self
    def __abs__(self):
        t = num(self)
        return mk(z3.If(t >= 0, t, -t), self.nan)

    # ---- comparison
    def _cmp(self, o, f):
        if not is_num(o):
            return NotImplemented
        a, b = unify(num(self), num(o))
        nan = c_or(nan_of(self), nan_of(o))
        return mk(raw(c_and(f(a, b), c_not(nan))))

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if not is_num(o):
            return NotImplemented
        if z3.is_bool(self.t) and (isinstance(o, bool) or (isinstance(o, S) and z3.is_bool(o.t))):
            return mk(self.t == raw(o))
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if not is_num(o):
            return NotImplemented
        r = self.__eq__(o)
        return mk(raw(c_not(r)))

    # ---- logic
    def __and__(self, o): return slogic(self, o, "and")
    def __rand__(self, o): return slogic(o, self, "and")
    def __or__(self, o): return slogic(self, o, "or")
    def __ror__(self, o): return slogic(o, self, "or")

    def __invert__(self):
        if z3.is_bool(self.t):
            return mk(z3.Not(self.t))
        return mk(-self.t - 1)

    def __bool__(self):
        t = self.t
        if not z3.is_bool(t):
            t = t != 0
        return E.decide(t)

    def __hash__(self):
        raise Unsupported("symbolic value used as a hash key")

    def __index__(self):
        t = z3.simplify(self.t)
        if z3.is_int_value(t):
            return t.as_long()
        raise Unsupported("symbolic value used as a concrete index")

    def __int__(self):
        raise Unsupported("int() of a symbolic value outside the rewritten source")

    def __float__(self):
        raise Unsupported("float() of a symbolic value outside the rewritten source")

    def __repr__(self):
        return "<sym>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    # ---- numpy-scalar look-alikes
    shape = ()
    ndim = 0

    @property
    def data(self):
        return self

    @property
    def T(self):
        return self

    def astype(self, dt):
        from .arr import cast_scalar
        return cast_scalar(self, dt)

    def item(self):
        return self

    def copy(self):
        return self

    def any(self):
        return self

    def all(self):
        return self

    def sum(self):
        return self

    def isoformat(self):
        return "<sym>"


def num(v):
    t = raw(v)
    if z3.is_bool(t):
        t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def slogic(a, b, op):
    if not is_num(a) or not is_num(b):
        return NotImplemented
    ta, tb = raw(a), raw(b)
    if not (z3.is_bool(ta) and z3.is_bool(tb)):
        raise Unsupported("bitwise operation on symbolic integers")
    r = c_and(ta, tb) if op == "and" else c_or(ta, tb)
    return mk(raw(r))


def sdiv(a, b):
    """True division over the reals."""
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)) and not isinstance(a, bool):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return Fraction(a) / Fraction(b)
    ta, tb = to_real(a), to_real(b)
    nan = c_or(nan_of(a), nan_of(b))
    return mk(ta / tb, nan)


def sfloor(a):
    if isinstance(a, (int, Fraction)):
        import math
        return math.floor(a)
    t = num(a)
    if z3.is_int(t):
        return mk(t)
    return mk(z3.ToInt(t))


def sfloordiv(a, b):
    if isinstance(a, (int, Fraction)) and isinstance(b, (int, Fraction)):
        return a // b
    if z3.is_int(num(a)) and z3.is_int(num(b)):
        if isinstance(b, int) and b > 0:
            return mk(num(a) / num(b))
        tb = num(b)
        if not E.valid(tb > 0):
            raise Unsupported("floor division by a value not known to be positive")
        return mk(num(a) / tb)
    return sfloor(sdiv(a, b))


def strunc(a):
    """Truncation toward zero (Python int() of a float, numpy float->int cast)."""
    if isinstance(a, (int, Fraction)):
        return int(a)
    t = num(a)
    if z3.is_int(t):
        return mk(t)
    return mk(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))


def subst_term(t, pairs):
    return z3.substitute(t, *pairs) if pairs else t


def subst(v, pairs):
    """Substitute bound indices in any value."""
    if not pairs:
        return v
    if isinstance(v, S):
        return mk(subst_term(v.t, pairs), subst_term(v.nan, pairs) if v.nan is not None else None)
    if v is None or isinstance(v, (bool, int, float, Fraction, str, bytes, slice)) and not isinstance(v, slice):
        return v
    if isinstance(v, z3.ExprRef):
        return subst_term(v, pairs)
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if hasattr(v, "subst"):
        return v.subst(pairs)
    if isinstance(v, list):
        return [subst(x, pairs) for x in v]
    if isinstance(v, dict):
        return {k: subst(x, pairs) for k, x in v.items()}
    raise Unsupported("substitution into %r" % type(v))


def merge(cvs):
    """[(cond, value)] with exclusive, exhaustive conditions -> one value."""
    v = cvs[-1][1]
    for c, w in reversed(cvs[:-1]):
        v = merge2(c, w, v)
    return v


def merge2(c, a, b):
    if a is b:
        return a
    if is_num(a) and is_num(b):
        return ite(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge2(c, x, y) for x, y in zip(a, b))
    if isinstance(a, str) and a == b:
        return a
    if hasattr(a, "merge_with"):
        return a.merge_with(c, b)
    return ite(c, a, b)
