"""The numpy model: assumed contracts of the library functions the code calls."""
import math
from fractions import Fraction
import z3
from . import core, arr, theory, loader
from .core import (S, E, Unsupported, mk, raw, iraw, unS, is_num, ite, c_and, c_or, c_not, pyc, sdiv, sfloor,
                   i_eq, i_lt, i_add, i_sub, i_mul, num, nan_of, strunc, to_real)
from .arr import (Arr, asarray, ew, todt, F8, I8, B1, stack, concat, scalar_arr, unwrap0, reduce_sum, reduce_any,
                  reduce_all, reduce_mean, reduce_minmax, DT, prom, OBJ)
from .seq import Seq, TList, lift, unique as seq_unique, contains, SSet


def used(n, what="element-wise"):
    E.assumed.setdefault("numpy." + n, what)


def nok(k, ok=("order", "copy", "subok")):
    """keyword arguments that are not modelled make the call unsupported"""
    bad = [x for x in k if x not in ok]
    if bad:
        raise Unsupported("numpy keyword argument %s" % ", ".join(bad))


def A(x):
    return x if isinstance(x, Arr) else asarray(x)


def recdt(d):
    """a list of fields -> the record dtype"""
    return arr.RecDT(d) if isinstance(d, (list, tuple)) else d


def isdata(x):
    return hasattr(x, "vc_wrap")


def ufunc1(nm, f, dt=None):
    def g(x, *a, **k):
        nok(k)
        used(nm)
        if a:
            raise Unsupported("numpy.%s with an output argument" % nm)
        nok(k, ())
        if isdata(x):
            return x.vc_wrap(g(x.to_arr()))
        if is_num(x):
            return f(x)
        return ew(f, A(x), dt=dt)
    g.__name__ = nm
    return g


def ufunc2(nm, f, dt=None):
    def g(x, y, *a, **k):
        nok(k)
        used(nm)
        if a:
            raise Unsupported("numpy.%s with an output argument" % nm)
        nok(k, ())
        for v in (x, y):
            if isdata(v):
                return v.vc_wrap(g(x.to_arr() if isdata(x) else x, y.to_arr() if isdata(y) else y))
        if is_num(x) and is_num(y):
            return f(x, y)
        return ew(f, A(x), A(y), dt=dt)
    g.__name__ = nm
    return g


def sround(x):
    """nearest integer, ties to even"""
    if isinstance(x, (int, Fraction)):
        return round(x)
    t = num(x)
    if z3.is_int(t):
        return mk(t)
    f = z3.ToInt(t)
    d = t - z3.ToReal(f)
    r = z3.If(d < z3.RealVal("1/2"), f, z3.If(d > z3.RealVal("1/2"), f + 1, z3.If(f % 2 == 0, f, f + 1)))
    return mk(r)


def _fl(v):
    return mk(to_real(v), nan_of(v) or None) if isinstance(v, S) else (Fraction(v) if is_num(v) else v)


def fcmp(pick):
    def f(a, b):
        c = (a <= b) if pick == "min" else (a >= b)
        na, nb = nan_of(a), nan_of(b)
        r = ite(raw(c) if isinstance(c, S) else c, a, b)
        if na is False and nb is False:
            return r
        # fmin/fmax ignore NaN when the other is a number
        r = ite(raw(c_or(nb, c_and(c_not(na), _tb(c)))), a, b)
        return r
    return f


def pcmp(pick, a, b):
    """minimum/maximum: NaN if either is"""
    r = ite(raw((a <= b) if pick == "min" else (a >= b)), a, b)
    n = c_or(nan_of(a), nan_of(b))
    if n is False:
        return r
    return mk(to_real(r), raw(n))


def _tb(c):
    return c.t if isinstance(c, S) else c


def s_isnan(v):
    n = nan_of(v)
    return n if isinstance(n, bool) else mk(n)


class MaskedArray:
    """data and where they are missing"""
    def __init__(self, data, mask):
        self.data, self.mask = data, mask
        self.shape, self.dtype, self.ndim = data.shape, data.dtype, data.ndim

    def __getitem__(self, k):
        return MaskedArray(self.data[k], self.mask[k])

    def flatten(self):
        return MaskedArray(self.data.flatten(), self.mask.flatten())

    ravel = flatten

    @property
    def T(self):
        return MaskedArray(self.data.T, self.mask.T)

    def to_arr(self):
        ks = [E.fresh("mk") for _ in self.shape]
        inr = z3.And(*[z3.And(k >= 0, k < iraw(n)) for k, n in zip(ks, self.shape)])
        if not E.valid(z3.Implies(inr, z3.Not(raw(self.mask.elem(*ks))))):
            raise Unsupported("a masked array used as a plain one")
        return self.data

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("masked array .%s has no model" % a)


class _Ma:
    class core:
        MaskedArray = MaskedArray
    MaskedArray = MaskedArray


class _NP:
    ma = _Ma
    nan = property(lambda self: S(z3.RealVal(0), z3.BoolVal(True)))
    NaN = nan
    pi = property(lambda self: mk(theory.PI))
    newaxis = None
    float64, float32, int64, int32, int16, int8 = F8, arr.F4, I8, arr.I4, arr.I2, arr.I1
    uint64, uint32, uint16, uint8, bool_, float_, int_ = arr.U8, arr.U4, arr.U2, arr.U1, B1, F8, I8
    ndarray = Arr

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("numpy.%s has no model" % a)

    cos = staticmethod(ufunc1("cos", lambda v: theory.fn1("cos", v), F8))
    sin = staticmethod(ufunc1("sin", lambda v: theory.fn1("sin", v), F8))
    tan = staticmethod(ufunc1("tan", lambda v: theory.fn1("tan", v), F8))
    arctan = staticmethod(ufunc1("arctan", lambda v: theory.fn1("atan", v), F8))
    arcsin = staticmethod(ufunc1("arcsin", lambda v: theory.fn1("asin", v), F8))
    arccos = staticmethod(ufunc1("arccos", lambda v: theory.fn1("acos", v), F8))
    sqrt = staticmethod(ufunc1("sqrt", lambda v: theory.fn1("sqrt", v), F8))
    arctan2 = staticmethod(ufunc2("arctan2", theory.fatan2, F8))
    deg2rad = radians = staticmethod(ufunc1("radians", lambda v: sdiv(v * mk(theory.PI), 180), F8))
    rad2deg = degrees = staticmethod(ufunc1("degrees", lambda v: sdiv(v * 180, mk(theory.PI)), F8))
    abs = absolute = fabs = staticmethod(ufunc1("abs", lambda v: abs(v)))
    square = staticmethod(ufunc1("square", lambda v: v * v))
    floor = staticmethod(ufunc1("floor", lambda v: _fl(sfloor(v)), F8))
    ceil = staticmethod(ufunc1("ceil", lambda v: _fl(-sfloor(-v)), F8))
    trunc = fix = staticmethod(ufunc1("trunc", lambda v: _fl(strunc(v)), F8))
    rint = staticmethod(ufunc1("rint", lambda v: _fl(sround(v)), F8))
    isnan = staticmethod(ufunc1("isnan", s_isnan, B1))
    isfinite = staticmethod(ufunc1("isfinite", lambda v: mk(raw(c_not(s_isnan(v)))), B1))
    logical_not = staticmethod(ufunc1("logical_not", lambda v: mk(raw(c_not(v))), B1))
    logical_and = staticmethod(ufunc2("logical_and", lambda a, b: mk(raw(c_and(a, b))), B1))
    logical_or = staticmethod(ufunc2("logical_or", lambda a, b: mk(raw(c_or(a, b))), B1))
    fmin = staticmethod(ufunc2("fmin", fcmp("min")))
    fmax = staticmethod(ufunc2("fmax", fcmp("max")))
    minimum = staticmethod(ufunc2("minimum", lambda a, b: pcmp("min", a, b)))
    maximum = staticmethod(ufunc2("maximum", lambda a, b: pcmp("max", a, b)))
    add = staticmethod(ufunc2("add", lambda a, b: a + b))
    multiply = staticmethod(ufunc2("multiply", lambda a, b: a * b))
    subtract = staticmethod(ufunc2("subtract", lambda a, b: a - b))
    divide = true_divide = staticmethod(ufunc2("divide", sdiv, F8))

    @staticmethod
    def round(x, nd=0, *a, **k):
        if nd:
            raise Unsupported("round to decimals")
        used("round", "nearest integer, ties to even")
        return _NP.rint(x)
    around = round_ = round

    @staticmethod
    def asarray(x, dtype=None, **k):
        nok(k)
        return asarray(x, dtype)

    @staticmethod
    def array(x, dtype=None, copy=True, **k):
        nok(k)
        r = asarray(x, dtype)
        return r.copy()
    ascontiguousarray = asanyarray = asarray

    @staticmethod
    def atleast_1d(x):
        x = A(x)
        if x.ndim == 0:
            return Arr((1,), lambda i: x.elem(), x.dtype)
        return x

    @staticmethod
    def _shape(s):
        if isinstance(s, (tuple, list)):
            return tuple(s)
        if isinstance(s, (Seq, Arr)):
            return tuple(lift(s))
        return (s,)

    @staticmethod
    def full(shape, v, dtype=None, **k):
        nok(k)
        dt = todt(dtype) if dtype is not None else arr.dt_of(v)
        return Arr(_NP._shape(shape), lambda *i: v, dt)

    @staticmethod
    def zeros(shape, dtype=F8, **k):
        nok(k)
        dtype = recdt(dtype)
        if getattr(dtype, "vc_rec", None):
            return dtype.make(_NP._shape(shape), zero=True)
        dt = todt(dtype)
        z = False if dt.kind == "b" else (Fraction(0) if dt.kind == "f" else 0)
        return Arr(_NP._shape(shape), lambda *i: z, dt)

    @staticmethod
    def ones(shape, dtype=F8, **k):
        nok(k)
        dt = todt(dtype)
        z = True if dt.kind == "b" else (Fraction(1) if dt.kind == "f" else 1)
        return Arr(_NP._shape(shape), lambda *i: z, dt)

    @staticmethod
    def empty(shape, dtype=F8, **k):
        nok(k)
        dtype = recdt(dtype)
        if getattr(dtype, "vc_rec", None):
            return dtype.make(_NP._shape(shape))
        shp = _NP._shape(shape)
        dt = todt(dtype)
        f = E.fresh_fun("empty", ["Int"] * len(shp), "Real" if dt.kind == "f" else ("Bool" if dt.kind == "b" else "Int"))
        return Arr(shp, lambda *i: mk(f(*i)), dt)

    @staticmethod
    def zeros_like(x, dtype=None, **k):
        nok(k)
        if isdata(x):
            return x.vc_wrap(_NP.zeros(x.to_arr().shape, dtype or x.dtype))
        x = A(x)
        return _NP.zeros(x.shape, dtype or x.dtype)

    @staticmethod
    def ones_like(x, dtype=None, **k):
        nok(k)
        if isdata(x):
            return x.vc_wrap(_NP.ones(x.to_arr().shape, dtype or x.dtype))
        x = A(x)
        return _NP.ones(x.shape, dtype or x.dtype)

    @staticmethod
    def empty_like(x, dtype=None, **k):
        nok(k)
        x = A(x)
        return _NP.empty(x.shape, dtype or x.dtype)

    @staticmethod
    def full_like(x, v, dtype=None, **k):
        nok(k)
        x = A(x)
        return _NP.full(x.shape, v, dtype or x.dtype)

    @staticmethod
    def arange(*a, **k):
        dt = k.pop("dtype", None)
        nok(k)
        if len(a) == 1:
            st, sp, step = 0, a[0], 1
        elif len(a) == 2:
            st, sp, step = a[0], a[1], 1
        else:
            st, sp, step = a
        if all(isinstance(v, int) for v in (st, sp, step)):
            n = max(0, -((st - sp) // step))
        elif isinstance(step, int) and step == 1 and not any(isinstance(v, Fraction) or (isinstance(v, S) and z3.is_real(v.t)) for v in (st, sp)):
            d = i_sub(sp, st)
            n = d if E.valid(iraw(d) >= 0) else z3.If(iraw(d) >= 0, iraw(d), 0)
        else:
            q = sdiv(sp - st, step)
            c = -sfloor(-q)
            n = unS(c)
            if isinstance(n, int):
                n = max(0, n)
            elif not E.valid(iraw(n) >= 0):
                n = z3.If(iraw(n) >= 0, iraw(n), 0)
        r = Arr((n,), lambda i: st + (mk(i) if not isinstance(i, int) else i) * step,
                arr.prom(arr.dt_of(st), arr.dt_of(step)))
        return r if dt is None else r.astype(dt)

    @staticmethod
    def linspace(a, b, n=50, **k):
        nok(k)
        n = unS(n)
        if isinstance(n, int) and n == 1:
            return Arr((1,), lambda i: a, F8)
        d = sdiv(b - a, mk(i_sub(n, 1)) if not isinstance(n, int) else n - 1)
        return Arr((n,), lambda i: a + d * (mk(i) if not isinstance(i, int) else i), F8)

    @staticmethod
    def meshgrid(*xs, indexing="xy", **k):
        nok(k)
        xs = [A(x).snapshot() for x in xs]
        if len(xs) != 2:
            raise Unsupported("meshgrid of %d arrays" % len(xs))
        x, y = xs
        used("meshgrid", "documented index layout")
        if indexing == "xy":
            shp = (y.shape[0], x.shape[0])
            return TList([Arr(shp, lambda i, j: x.elem(j), x.dtype), Arr(shp, lambda i, j: y.elem(i), y.dtype)])
        shp = (x.shape[0], y.shape[0])
        return TList([Arr(shp, lambda i, j: x.elem(i), x.dtype), Arr(shp, lambda i, j: y.elem(j), y.dtype)])

    @staticmethod
    def where(c, *ab):
        if not ab:
            return _NP.nonzero(c)
        a, b = ab
        return ew(lambda c, x, y: ite(raw(c) if isinstance(c, S) else c, x, y), A(c), A(a), A(b),
                  dt=prom(A(a).dtype, A(b).dtype))

    @staticmethod
    def nonzero(c):
        c = A(c)
        if c.dtype.kind != "b":
            c = ew(lambda v: v != 0, c, dt=B1)
        m, pos, rank = arr.compress(c)
        res = []
        for d in range(c.ndim):
            a = Arr((m,), (lambda d: lambda p: core.mk(pos(p)[d]) if not isinstance(pos(p)[d], int) else pos(p)[d])(d), I8)
            a._nonneg = True
            res.append(a)
        return tuple(res)
    flatnonzero = staticmethod(lambda c: _NP.nonzero(A(c).flatten())[0])

    @staticmethod
    def vstack(xs):
        xs = [A(x) for x in lift(xs)]
        if all(x.ndim <= 1 for x in xs):
            return stack([_NP.atleast_1d(x) for x in xs], 0)
        return concat([x if x.ndim > 1 else x[None, :] for x in xs], 0)
    row_stack = vstack

    @staticmethod
    def hstack(xs):
        xs = [_NP.atleast_1d(A(x)) for x in lift(xs)]
        return concat(xs, 0 if xs[0].ndim == 1 else 1)

    @staticmethod
    def stack(xs, axis=0):
        return stack([A(x) for x in lift(xs)], axis)

    @staticmethod
    def column_stack(xs):
        return stack([A(x) for x in lift(xs)], 1)

    @staticmethod
    def dstack(xs):
        xs = [A(x) for x in lift(xs)]
        if xs[0].ndim == 2:
            return stack(xs, 2)
        raise Unsupported("dstack")

    @staticmethod
    def concatenate(xs, axis=0):
        return concat([A(x) for x in lift(xs)], axis)

    @staticmethod
    def reshape(x, s):
        return A(x).reshape(s)

    @staticmethod
    def ravel(x):
        return A(x).ravel()

    @staticmethod
    def transpose(x, *a):
        return A(x).transpose(*a)

    @staticmethod
    def squeeze(x, axis=None):
        return A(x).squeeze(axis)

    @staticmethod
    def expand_dims(x, axis):
        x = A(x)
        axis = axis % (x.ndim + 1)
        return x[tuple([slice(None)] * axis + [None])]

    @staticmethod
    def swapaxes(x, a, b):
        x = A(x)
        ax = list(range(x.ndim))
        ax[a], ax[b] = ax[b], ax[a]
        return x.transpose(tuple(ax))

    @staticmethod
    def roll(x, k, axis=None):
        x = A(x).snapshot()
        if axis is None:
            if x.ndim != 1:
                raise Unsupported("roll of a matrix without axis")
            axis = 0
        axis = axis % x.ndim
        n = x.shape[axis]
        k = unS(k)

        def f(*i):
            j = i[axis]
            s = i_sub(j, k)
            if isinstance(s, int) and isinstance(n, int):
                s = s % n
            elif isinstance(k, int) and abs(k) <= 2:
                t = iraw(s)
                for _ in range(abs(k)):
                    t = z3.If(t < 0, t + iraw(n), z3.If(t >= iraw(n), t - iraw(n), t))
                s = t
            else:
                raise Unsupported("roll amount")
            return x.elem(*(i[:axis] + (s,) + i[axis + 1:]))
        return Arr(x.shape, f, x.dtype)

    @staticmethod
    def diff(x, axis=-1):
        x = A(x)
        if x.ndim != 1:
            raise Unsupported("diff")
        return x[1:] - x[:-1]

    @staticmethod
    def dot(a, b):
        a, b = A(a).snapshot(), A(b).snapshot()
        if a.ndim == 1 and b.ndim == 1:
            return reduce_sum(a * b)
        raise Unsupported("dot")

    @staticmethod
    def sum(x, axis=None, **k):
        nok(k)
        if isdata(x):
            return x.sum(axis) if axis is not None else x.sum()
        return reduce_sum(A(x), axis)

    @staticmethod
    def mean(x, axis=None, **k):
        nok(k)
        return reduce_mean(A(x), axis)

    @staticmethod
    def min(x, axis=None, **k):
        nok(k)
        return reduce_minmax(A(x), axis, "min")
    amin = min

    @staticmethod
    def max(x, axis=None, **k):
        nok(k)
        return reduce_minmax(A(x), axis, "max")
    amax = max

    @staticmethod
    def any(x, axis=None):
        return reduce_any(A(x), axis)

    @staticmethod
    def all(x, axis=None):
        return reduce_all(A(x), axis)

    @staticmethod
    def unique(x, **k):
        if k:
            raise Unsupported("unique with options")
        return seq_unique(A(x))

    @staticmethod
    def isin(x, y, **k):
        if k:
            raise Unsupported("isin options")
        if isinstance(x, (Seq, TList, list, set)) or not is_num(x):
            x = A(x)
        used("isin", "membership")
        ys = y
        if isinstance(x, Arr):
            contains(ys, x.elem(*[z3.Int("inprobe!%d" % d) for d in range(x.ndim)]))
            return ew(lambda v: contains(ys, v), x, dt=B1)
        return contains(ys, x)
    in1d = isin

    @staticmethod
    def fromiter(it, dtype, count=-1):
        dtype = recdt(dtype)
        xs = lift(it)
        if isinstance(xs, Seq):
            xs = xs.compact()
        if not (isinstance(count, int) and count == -1):
            n = len(xs) if isinstance(xs, list) else xs.n
            if core.pyc(core.i_eq(n, core.unS(count))) is not True:
                E.need("fromiter: the iterator holds at least count items", core.i_le(core.unS(count), n))
                if isinstance(xs, list):
                    if not isinstance(count, int):
                        raise Unsupported("fromiter with a symbolic count")
                    xs = xs[:count]
                else:
                    xs = Seq(core.unS(count), xs.at)
        if getattr(dtype, "vc_rec", None):
            return dtype.from_rows(xs)
        return asarray(TList(xs) if isinstance(xs, list) else xs, dtype)

    @staticmethod
    def einsum(*ops, **k):
        """one operand; labels that are absent from the output are summed over"""
        if k or len(ops) not in (2, 3):
            raise Unsupported("einsum form")
        if isinstance(ops[0], str):
            lhs, rhs = ops[0].replace(" ", "").split("->") if "->" in ops[0] else (None, None)
            if lhs is None or "," in lhs:
                raise Unsupported("einsum form")
            tok = lambda t: list(t.replace("...", "\0"))
            ins, outs, x = tok(lhs), tok(rhs), A(ops[1])
        else:
            if len(ops) != 3 or isinstance(ops[1], Arr):
                raise Unsupported("einsum form")
            f = lambda l: ["\0" if v is Ellipsis else v for v in l]
            x, ins, outs = A(ops[0]), f(ops[1]), f(ops[2])
        if "\0" in ins:
            i, m = ins.index("\0"), x.ndim - len(ins) + 1
            more = [("e", j) for j in range(m)]
            ins = ins[:i] + more + ins[i + 1:]
            if "\0" in outs:
                i = outs.index("\0")
                outs = outs[:i] + more + outs[i + 1:]
        if len(ins) != x.ndim or len(set(ins)) != len(ins):
            raise Unsupported("einsum form")
        if [l for l in ins if l in outs] != outs:
            raise Unsupported("einsum with transposition")
        used("einsum", "sum over the labels absent from the output")
        for ax in range(x.ndim - 1, -1, -1):
            if ins[ax] not in outs:
                x = A(reduce_sum(x, ax))
        return x if x.ndim else x.item()

    @staticmethod
    def repeat(x, n, axis=None):
        x = A(x)
        if x.ndim != 1 and axis is None:
            x = x.flatten()
        if x.ndim != 1:
            raise Unsupported("np.repeat along an axis")
        me = x.snapshot()
        if is_num(n):
            raise Unsupported("np.repeat by one number")
        cnt = A(n).snapshot()
        if core.pyc(core.i_eq(cnt.shape[0], me.shape[0])) is not True:
            E.need("np.repeat: one count per element", core.i_eq(cnt.shape[0], me.shape[0]))
        j = z3.Int(E.name("rep"))
        E.need("np.repeat: counts are not negative", z3.ForAll([j], z3.Implies(
            z3.And(j >= 0, j < core.iraw(me.shape[0])), raw(cnt.elem(j)) >= 0)))
        used("repeat", "each element as many times as its count, in order")
        from .seq import flatten
        f = flatten(Seq(me.shape[0], lambda i: Seq(core.unS(cnt.elem(i)), lambda q: me.elem(i))))
        if isinstance(f, list):
            return asarray(f)
        return Arr((f.n,), lambda i: f.at(i), me.dtype)

    @staticmethod
    def flipud(x):
        return A(x)[::-1]

    @staticmethod
    def fliplr(x):
        return A(x)[:, ::-1]

    @staticmethod
    def flip(x, axis=None):
        x = A(x)
        ax = range(x.ndim) if axis is None else [a % x.ndim for a in (axis if isinstance(axis, (tuple, list)) else (axis,))]
        return x[tuple(slice(None, None, -1) if d in ax else slice(None) for d in range(x.ndim))]

    @staticmethod
    def datetime64(x, unit=None):
        """an instant, in nanoseconds since 1970"""
        from . import dtmod
        if isinstance(x, str):
            import datetime as _d
            try:
                x = _d.datetime.fromisoformat(x)
            except ValueError:
                raise Unsupported("datetime64 of %r" % x)
            x = dtmod.datetime._of((x - dtmod.EPOCH) // _d.timedelta(microseconds=1))
        if isinstance(x, Arr) and x.ndim == 0 and x.dtype.kind == "M":
            v = x.elem()
        elif isinstance(x, dtmod.datetime):
            v = x.us * 1000 if isinstance(x.us, int) else mk(iraw(x.us) * 1000)
        else:
            raise Unsupported("datetime64 of %s" % type(x).__name__)
        if unit not in (None, "ns", "us"):
            raise Unsupported("datetime64 in units of %s" % unit)
        return Arr((), lambda: v, arr.M8)

    @staticmethod
    def timedelta64(x, unit=None):
        u = {"ns": 1, "us": 10 ** 3, "ms": 10 ** 6, "s": 10 ** 9, "m": 60 * 10 ** 9, "h": 3600 * 10 ** 9,
             "D": 86400 * 10 ** 9}.get(unit)
        if u is None or not isinstance(x, (int, S)):
            raise Unsupported("timedelta64")
        v = x * u
        return Arr((), lambda: v, arr.TD8)

    @staticmethod
    def array_split(x, k, axis=0):
        x = A(x)
        if axis != 0 or not is_num(k) or isinstance(k, Fraction):
            raise Unsupported("array_split at given positions")
        k = core.unS(k)
        if isinstance(k, int) and k <= 0 or not isinstance(k, int) and E.decide(iraw(k) <= 0):
            raise ValueError("number sections must be larger than 0.")
        used("array_split", "consecutive parts, in order, that together make up the array")
        n, me = x.shape[0], x
        st = E.fresh_fun("split", ["Int"], "Int")
        i = z3.Int("spl!")
        E.assume(z3.And(st(z3.IntVal(0)) == 0, st(iraw(k)) == iraw(n)))
        E.assume(z3.Implies(z3.And(i >= 0, i < iraw(k)), z3.And(st(i) >= 0, st(i) <= st(i + 1), st(i + 1) <= iraw(n))),
                 pats=[st(i)], qvars=[i])
        E.ghost.setdefault("splits", []).append((st, k, n))

        def part(i):
            b = st(iraw(i))
            return Arr((st(z3.simplify(iraw(i) + 1)) - b,) + me.shape[1:], None, me.dtype, base=me,
                       vmap=lambda j, *r: (z3.simplify(b + iraw(j)),) + r)
        if isinstance(k, int):
            return [part(i) for i in range(k)]
        return Seq(k, part)

    @staticmethod
    def isscalar(x):
        return is_num(x) or isinstance(x, str)

    @staticmethod
    def dtype(x):
        if isinstance(x, (list, tuple)):
            return arr.RecDT(x)
        return todt(x)

    @staticmethod
    def ndim(x):
        return A(x).ndim

    @staticmethod
    def shape(x):
        return A(x).shape

    @staticmethod
    def size(x):
        return A(x).size

    @staticmethod
    def allclose(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10**8), **k):
        nok(k)
        used("allclose", "every |a - b| <= atol + rtol |b|")
        c = ew(lambda x, y: abs(x - y) <= atol + rtol * abs(y), A(a), A(b), dt=B1)
        r = reduce_all(c) if isinstance(c, Arr) else c
        if isinstance(c, Arr) and isinstance(r, S) and c.ndim == 1:
            n = iraw(c.shape[0])          # instances at both ends
            E.assume(z3.Implies(z3.And(raw(r), n > 0), z3.And(raw(c.elem(0)), raw(c.elem(z3.simplify(n - 1))))))
        return r

    @staticmethod
    def digitize(x, bins, right=False):
        used("digitize", "index of the bin that holds the value, bins monotone")
        x, bins = A(x), A(bins).snapshot()
        if x.ndim > 1 or bins.ndim != 1 or (x.ndim and not isinstance(x.shape[0], int)):
            raise Unsupported("digitize of arrays of symbolic length")
        n = bins.shape[0]
        k = z3.Int(E.name("dig"))
        rng = z3.And(k >= 0, k < iraw(n) - 1)
        lo, hi = raw(bins.elem(k)), raw(bins.elem(i_add(k, 1)))
        if E.valid(z3.Implies(rng, lo <= hi)):
            up = True
        elif E.valid(z3.Implies(rng, lo >= hi)):
            up = False
        else:
            raise Unsupported("digitize: direction of the bins is not known")

        def one(v):
            d = E.fresh("digit")
            v = raw(v)
            prev, nxt = raw(bins.elem(z3.simplify(d - 1))), raw(bins.elem(d))
            if up:
                a, b = (prev < v, v <= nxt) if right else (prev <= v, v < nxt)
            else:
                a, b = (prev >= v, v > nxt) if right else (prev > v, v >= nxt)
            E.assume(z3.And(d >= 0, d <= iraw(n), z3.Implies(d > 0, a), z3.Implies(d < iraw(n), b)))
            E.ghost.setdefault("digits", []).append((d, bins, v))
            return mk(d)
        if x.ndim == 0:
            return one(x.elem())
        vals = [one(x.elem(i)) for i in range(x.shape[0])]
        return asarray(vals)

    @staticmethod
    def isclose(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10**8), **k):
        raise Unsupported("isclose")

    class errstate:
        def __init__(self, **k): pass
        def __enter__(self): return self
        def __exit__(self, *a): return False

    @staticmethod
    def seterr(**k):
        return {}


_np = _NP()
loader.MODELS["numpy"] = _np


class _Math:
    pi = property(lambda self: mk(theory.PI))
    sin = staticmethod(lambda v: theory.fn1("sin", v))
    cos = staticmethod(lambda v: theory.fn1("cos", v))
    tan = staticmethod(lambda v: theory.fn1("tan", v))
    atan = staticmethod(lambda v: theory.fn1("atan", v))
    asin = staticmethod(lambda v: theory.fn1("asin", v))
    sqrt = staticmethod(lambda v: theory.fn1("sqrt", v))
    atan2 = staticmethod(theory.fatan2)
    floor = staticmethod(sfloor)
    ceil = staticmethod(lambda v: -sfloor(-v))
    radians = staticmethod(lambda v: sdiv(v * mk(theory.PI), 180))


loader.MODELS["math"] = _Math()
