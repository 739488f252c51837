"""Ground instances of the assumed theories: finite sums and elementary functions."""
from fractions import Fraction
import z3
from . import core
from .core import S, mk, raw, to_real, nan_of, iraw, Unsupported

R = z3.RealSort()
FN1 = {n: z3.Function("math." + n, R, R) for n in
       ("sin", "cos", "tan", "atan", "asin", "acos", "sqrt", "exp", "log", "log10")}
ATAN2 = z3.Function("math.atan2", R, R, R)
PI = z3.Const("math.pi", R)
NAMES = {("math." + k): k for k in FN1}


def fn1(name, v):
    if isinstance(v, (int, Fraction)) and not isinstance(v, bool):
        if name == "sqrt" and v >= 0:
            import math
            v = Fraction(v)
            a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if a * a == v.numerator and b * b == v.denominator:
                return Fraction(a, b)
        if v == 0 and name in ("sin", "tan", "atan", "asin"):
            return Fraction(0)
        if v == 0 and name in ("cos", "exp"):
            return Fraction(1)
    t = z3.simplify(to_real(v), som=True)
    core.E.assumed["numpy." + name] = "real function; algebraic identities only"
    neg = False
    if name in ("sin", "cos", "tan"):
        t, neg = trig_arg(t, name)
    r = FN1[name](t)
    return mk(-r if neg else r, nan_of(v) or None)


def _monos(t):
    return list(t.children()) if z3.is_add(t) else [t]


def _coef(m):
    """monomial -> (rational coefficient, rest or None)"""
    if z3.is_rational_value(m):
        return Fraction(m.numerator_as_long(), m.denominator_as_long()), None
    if z3.is_mul(m) and z3.is_rational_value(m.arg(0)):
        rest = m.children()[1:]
        r = rest[0]
        for x in rest[1:]:
            r = r * x
        return Fraction(m.arg(0).numerator_as_long(), m.arg(0).denominator_as_long()), r
    return Fraction(1), m


def trig_arg(t, name):
    """Normal form of an angle: whole turns removed, sign of the first monomial positive."""
    ms = [_coef(m) for m in _monos(t)]
    c = sum((k for k, r in ms if r is not None and r.eq(PI)), Fraction(0))
    period = 1 if name == "tan" else 2
    turns = c // period
    if c - turns * period > Fraction(period, 2):
        turns += 1
    if turns:
        t = z3.simplify(t - PI * z3.RealVal(turns * period), som=True)
        ms = [_coef(m) for m in _monos(t)]
    nz = [k for k, r in ms if r is not None]
    if nz and nz[0] < 0:
        t = z3.simplify(-t, som=True)
        return t, name != "cos"
    return t, False


def fatan2(y, x):
    core.E.assumed["numpy.arctan2"] = "real function; algebraic identities only"
    return mk(ATAN2(z3.simplify(to_real(y)), z3.simplify(to_real(x))))


class SumInfo:
    def __init__(self, decl, params, k, n, body):
        self.decl, self.params, self.k, self.n, self.body = decl, params, k, n, body

    def at(self, args):
        pr = list(zip(self.params, args))
        if not pr:
            return self.n, self.body
        return z3.substitute(self.n, *pr), z3.substitute(self.body, *pr)


def free_consts(t):
    out, seen, st = {}, set(), [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[i] = x
        elif z3.is_quantifier(x):
            st.append(x.body())
        else:
            st += x.children()
    return out


def mksum(n, f):
    """Sum over 0 <= k < n of f(k); f returns a scalar value."""
    E = core.E
    n = core.unS(n)
    if isinstance(n, int):
        r = 0
        if n > 400:
            raise Unsupported("long concrete sum")
        for i in range(n):
            r = r + f(i)
        return r
    k = z3.Int("sumk!")
    v = f(k)
    nan = nan_of(v)
    if nan is not False:
        raise Unsupported("sum of possibly-NaN values")
    body = z3.simplify(core.num(v))
    n = z3.simplify(iraw(n))
    coef = None
    kid = k.get_id()
    if z3.is_mul(body):
        ins, outs = [], []
        for c in body.children():
            (ins if kid in free_consts(c) else outs).append(c)
        if outs and ins:
            coef = outs[0]
            for c in outs[1:]:
                coef = coef * c
            body = ins[0]
            for c in ins[1:]:
                body = body * c
    if kid not in free_consts(body):
        cnt = z3.If(n > 0, n, z3.IntVal(0))
        return mk(z3.simplify((z3.ToReal(cnt) if z3.is_real(body) else cnt) * body)) if coef is None else \
            mk((z3.ToReal(cnt) if z3.is_real(body) else cnt) * body * coef)
    # the summand with everything that does not depend on the index abstracted out
    lifted, args = lift_params(body, k)
    nvar = z3.Int("sumn!")
    key = lifted.get_id()
    tab = E.ghost.setdefault("sumtab", {})
    if key not in tab:
        params = [z3.Const("sump!%d!%s" % (j, x.sort()), x.sort()) for j, x in enumerate(args)]
        nm = E.name("Sum")
        d = z3.Function(nm, *([z3.IntSort()] + [p.sort() for p in params] + [body.sort()]))
        E.sums[nm] = SumInfo(d, [nvar] + params, k, nvar, lifted)
        tab[key] = (d, lifted)
        E.assumed["finite sums"] = "extensionality, sign, emptiness, common factors"
    atom = tab[key][0](n, *args)
    return mk(atom if coef is None else coef * atom)


def lift_params(body, k):
    """body with its maximal index-free subterms (other than literals) replaced by placeholders"""
    kid = k.get_id()
    dep = {}

    def depends(t):
        i = t.get_id()
        if i not in dep:
            dep[i] = i == kid or z3.is_quantifier(t) or any(depends(c) for c in t.children())
        return dep[i]
    args, index = [], {}

    def walk(t):
        if not depends(t):
            if z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t):
                return
            if t.get_id() not in index:
                index[t.get_id()] = len(args)
                args.append(t)
            return
        if z3.is_quantifier(t):
            return
        for c in t.children():
            walk(c)
    walk(body)
    pr = [(x, z3.Const("sump!%d!%s" % (j, x.sort()), x.sort())) for j, x in enumerate(args)]
    return (z3.simplify(z3.substitute(body, *pr)) if pr else body), args


_cache = {}
_keep = []


def ground_apps(t):
    """ids -> ground applications of the functions of interest in t (cached)."""
    key = t.get_id()
    if key in _cache:
        return _cache[key]
    out, seen, st = {}, set(), [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x) or z3.is_var(x):
            continue
        if z3.is_app(x):
            nm = x.decl().name()
            if nm.startswith("math.") or nm.startswith("Sum!"):
                if not has_var(x):
                    out[i] = x
            st += x.children()
    _cache[key] = out
    _keep.append(t)
    if len(_cache) > 20000:
        _cache.clear()
        _keep.clear()
    return out


def has_var(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        if z3.is_quantifier(x):
            continue
        st += x.children()
    return False


def instances(E, terms, rounds=2):
    ax = []
    done = set()
    cur = list(terms)
    trig_args = {}
    sums = {}
    usepi = False
    for _ in range(rounds):
        new = []
        apps = {}
        for t in cur:
            apps.update(ground_apps(t))
        for i, a in apps.items():
            if i in done:
                continue
            done.add(i)
            nm = a.decl().name()
            if nm == "math.pi":
                usepi = True
                continue
            if nm in NAMES:
                x = a.arg(0)
                kind = NAMES[nm]
                if kind in ("sin", "cos", "tan"):
                    s, c = FN1["sin"](x), FN1["cos"](x)
                    if x.get_id() not in trig_args:
                        new.append(s * s + c * c == 1)
                        new.append(z3.And(s <= 1, s >= -1, c <= 1, c >= -1))
                        trig_args[x.get_id()] = x
                    if kind == "tan":
                        new.append(z3.Implies(c != 0, a * c == s))
                elif kind == "atan":
                    s, c = FN1["sin"](a), FN1["cos"](a)
                    new += [c > 0, s == x * c, s * s + c * c == 1, FN1["tan"](a) == x]
                    new.append(z3.And(a > -PI / 2, a < PI / 2))
                    usepi = True
                elif kind == "asin":
                    s, c = FN1["sin"](a), FN1["cos"](a)
                    new += [z3.Implies(z3.And(x >= -1, x <= 1),
                                       z3.And(s == x, c >= 0, s * s + c * c == 1))]
                elif kind == "acos":
                    s, c = FN1["sin"](a), FN1["cos"](a)
                    new += [z3.Implies(z3.And(x >= -1, x <= 1),
                                       z3.And(c == x, s >= 0, s * s + c * c == 1))]
                elif kind == "sqrt":
                    new.append(z3.Implies(x >= 0, z3.And(a >= 0, a * a == x)))
            elif nm == "math.atan2":
                y, x = a.arg(0), a.arg(1)
                s, c = FN1["sin"](a), FN1["cos"](a)
                r = FN1["sqrt"](x * x + y * y)
                new += [s * r == y, c * r == x, s * s + c * c == 1]
            elif nm in E.sums:
                info = E.sums[nm]
                n, body = info.at(a.children())
                sk = z3.Int("sumsk!%d" % i)
                b = z3.substitute(body, (info.k, sk))
                inr = z3.And(sk >= 0, sk < n)
                zero = 0
                new.append(z3.Implies(n <= 0, a == zero))
                new.append(z3.Implies(z3.Implies(inr, b >= 0), a >= 0))
                sk2 = z3.Int("sumskz!%d" % i)
                b2 = z3.substitute(body, (info.k, sk2))
                new.append(z3.Implies(z3.Implies(z3.And(sk2 >= 0, sk2 < n), b2 == 0), a == 0))
                for j, (a2, n2, body2, k2) in sums.items():
                    if a2.sort() != a.sort():
                        continue
                    sk = z3.Int("sumext!%d!%d" % (min(i, j), max(i, j)))
                    ba = z3.substitute(body, (info.k, sk))
                    bb = z3.substitute(body2, (k2, sk))
                    new.append(z3.Implies(z3.And(n == n2, z3.Implies(z3.And(sk >= 0, sk < n), ba == bb)),
                                          a == a2))
                sums[i] = (a, n, body, info.k)
        ax += new
        cur = new
        if not new:
            break
    if usepi:
        ax.append(z3.And(PI > z3.RealVal("3.14159"), PI < z3.RealVal("3.1416")))
    return ax
