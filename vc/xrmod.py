"""The xarray model: assumed contracts of Dataset, DataArray and groupby as the code uses them."""
import collections
from fractions import Fraction
import z3
from . import core, arr, loader, theory
from .core import (S, E, Unsupported, mk, raw, iraw, unS, is_num, ite, c_and, c_or, c_not, pyc, i_eq, num)
from .arr import Arr, asarray, F8, I8, B1, OBJ
from .seq import Seq, TList, SymDict, SSet, lift, unique, contains


def mkn(n):
    return n if isinstance(n, int) else mk(n)


# ------------------------------------------------------------------ grouping by value
class Groups(SymDict):
    """value -> positions with that value, increasing."""
    def __init__(self, a, what="groupby"):
        a = a.snapshot()
        if a.ndim != 1:
            raise Unsupported("groupby of a %d-dimensional variable" % a.ndim)
        self.a = a
        n = iraw(a.shape[0])
        k = z3.Int("gk!")
        if core.nan_of(a.elem(k)) is not False:
            raise Unsupported("groupby of values that may be NaN")
        t = z3.simplify(num(a.elem(k)))
        srt = t.sort()
        at = lambda i: z3.substitute(t, (k, i))
        tab = E.ghost.setdefault("groups", {})
        key = (n.get_id(), t.get_id())
        if key not in tab:
            cnt = E.fresh_fun("cnt", [srt], "Int")
            pos = E.fresh_fun("pos", [srt, "Int"], "Int")
            rnk = E.fresh_fun("rnk", ["Int"], "Int")
            v, j, j2 = z3.Const("v!g", srt), z3.Int("j!g"), z3.Int("j2!g")
            E.assume(cnt(v) >= 0, pats=[cnt(v)], qvars=[v])
            E.assume(z3.Implies(z3.And(j >= 0, j < cnt(v)),
                                z3.And(pos(v, j) >= 0, pos(v, j) < n, at(pos(v, j)) == v, rnk(pos(v, j)) == j)),
                     pats=[pos(v, j)], qvars=[v, j])
            E.assume(z3.Implies(z3.And(k >= 0, k < n),
                                z3.And(rnk(k) >= 0, rnk(k) < cnt(t), pos(t, rnk(k)) == k)),
                     pats=[rnk(k)], qvars=[k])
            if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                E.assume(z3.Implies(z3.And(k >= 0, k < n),
                                    z3.And(rnk(k) >= 0, rnk(k) < cnt(t), pos(t, rnk(k)) == k)),
                         pats=[t], qvars=[k])
            E.assume(z3.Implies(z3.And(j >= 0, j < j2, j2 < cnt(v)), pos(v, j) < pos(v, j2)),
                     pats=[z3.MultiPattern(pos(v, j), pos(v, j2))], qvars=[v, j, j2])
            # every position belongs to a nonempty group; a nonempty group has a first position
            E.assume(z3.Implies(cnt(v) > 0, z3.And(pos(v, 0) >= 0, pos(v, 0) < n, at(pos(v, 0)) == v)),
                     pats=[cnt(v)], qvars=[v])
            tab[key] = (cnt, pos, rnk, t)
        self.cnt, self.pos, self.rnk, self.t = tab[key]
        self.k, self.n, self.at, self.srt = k, n, at, srt
        E.assumed["xarray.%s" % what] = "value -> its positions in increasing order, every position in one group"
        SymDict.__init__(self, self._has, self._getv, self._uk)
        E.ghost.setdefault("groupers", []).append(self)

    def _c(self, x):
        if isinstance(x, Arr):
            x = x.item()
        t = num(x)
        if t.sort() != self.srt:
            if self.srt == z3.RealSort():
                t = core.to_real(t)
            else:
                raise Unsupported("group key of another type")
        return t

    def _has(self, x):
        if getattr(E, "want_counts", False):
            self.count_fact(mk(self._c(x)))
        return mk(self.cnt(self._c(x)) > 0)

    def _getv(self, x):
        t = self._c(x)
        s = Seq(self.cnt(t), lambda j: mk(self.pos(t, iraw(j))))
        s.group_of = (self, mk(t))
        return s

    def _uk(self):
        u = unique(self.a)
        s = Seq(u.shape[0], lambda i: u.elem(i))
        s.uniq_arr = u
        return s

    def count_fact(self, v):
        """cnt(v) is the number of positions holding v"""
        done = E.ghost.setdefault("count_facts", set())
        if id(self.cnt) in done:
            return
        x = z3.Const("v!g", self.srt)
        E.assume(self.cnt(x) == raw(theory.mksum(self.n, lambda k: ite(raw(self.at(k)) == x, 1, 0))),
                 pats=[self.cnt(x)], qvars=[x], everywhere=not self.cnt.ks)
        if not self.cnt.ks:
            done.add(id(self.cnt))

    def count_at(self, v):
        """the instance of count_fact for one value"""
        v = self._c(v)
        E.assume(self.cnt(v) == raw(theory.mksum(self.n, lambda k: ite(raw(self.at(k)) == v, 1, 0))))

    def items(self):
        ks = self._uk()
        return Seq(ks.n, lambda i: (ks.at(i), self._getv(ks.at(i))))

    def values(self):
        ks = self._uk()
        return Seq(ks.n, lambda i: self._getv(ks.at(i)))

    def vc_len(self):
        return self._uk().n


class GroupBy:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name
        da = obj[name] if isinstance(name, str) else name
        if len(da.dims) != 1:
            raise Unsupported("groupby of a multidimensional variable")
        if da.dims == (da.name,):
            raise Unsupported("groupby of a dimension coordinate")
        self.dim = da.dims[0]
        n = da.to_arr().shape[0]
        if (n == 0) if isinstance(n, int) else E.decide(iraw(n) <= 0):
            raise ValueError("%s must not be empty" % da.name)
        self.groups = Groups(da.to_arr())

    def __iter__(self):
        raise Unsupported("native iteration over groups")

    def to_seq(self):
        g = self.groups
        ks = g._uk()
        return Seq(ks.n, lambda i: (ks.at(i), self.obj.isel({self.dim: g._getv(ks.at(i))})))


# ------------------------------------------------------------------ grouping by intervals
def instant(x):
    """a time as nanoseconds since 1970, a number as it is"""
    from . import dtmod
    if isinstance(x, dtmod.datetime):
        return x.us * 1000 if isinstance(x.us, int) else x.us * 1000
    if isinstance(x, dtmod.Timestamp):
        return x.ns
    if isinstance(x, Arr) and x.ndim == 0:
        x = x.elem()
    if is_num(x) or isinstance(x, S):
        return x if is_num(x) else raw(x)
    raise Unsupported("bin edge %s" % type(x).__name__)


def pattern(v, *more):
    """a trigger that has the term v, where the solver takes it"""
    if not (z3.is_app(v) and v.num_args() and v.decl().kind() == z3.Z3_OP_UNINTERPRETED):
        return None
    return [z3.MultiPattern(v, *more)] if more else [v]


class Interval:
    def __init__(self, left, right, closed):
        self.left, self.right, self.closed = left, right, closed

    def subst(self, pairs):
        return Interval(core.subst(self.left, pairs), core.subst(self.right, pairs), self.closed)

    @property
    def mid(self):
        raise Unsupported("Interval.mid")


class Binned:
    """rows k with edge(r) <= value < edge(r + 1) make up interval r (or < and <=, closed on the right)"""
    def __init__(self, obj, name, bins, right=True, labels=None, include_lowest=False, squeeze=True, **kw):
        if labels is not None or include_lowest or kw or not isinstance(name, str):
            raise Unsupported("groupby_bins options")
        self.obj, self.name, self.right = obj, name, right
        da = obj[name]
        if len(da.dims) != 1:
            raise Unsupported("groupby_bins of a multidimensional variable")
        self.dim = da.dims[0]
        a = self.a = da.to_arr().snapshot()
        k = z3.Int("bk!")
        if core.nan_of(a.elem(k)) is not False:
            raise Unsupported("groupby_bins of values that may be NaN")
        self.times = a.dtype.kind == "M"
        if isinstance(bins, (int, S)):
            raise Unsupported("groupby_bins with a number of bins")
        bs = lift(bins)
        if isinstance(bs, Seq):
            if bs.guard is not None:
                raise Unsupported("filtered bin edges")
            self.edge = lambda i: iraw(instant(bs.at(i))) if self.times else raw(instant(bs.at(i)))
            nb = iraw(bs.n)
        else:
            vs = [instant(b) for b in bs]

            def edge(i):
                r = raw(vs[-1])
                for j in range(len(vs) - 2, -1, -1):
                    r = z3.If(iraw(i) == j, raw(vs[j]), r)
                return z3.simplify(r)
            self.edge, nb = edge, z3.IntVal(len(vs))
        self.nb = z3.simplify(nb - 1)
        E.need("at least one interval", self.nb >= 1)
        q = E.fresh("be")
        E.need("bin edges increase", z3.Implies(z3.And(q >= 0, q < self.nb), self.edge(q) < self.edge(q + 1)))
        v = raw(a.elem(k))
        n = self.n = iraw(a.shape[0])
        lo, hi = self.edge(z3.IntVal(0)), self.edge(self.nb)
        inside = z3.And(lo < v, v <= hi) if right else z3.And(lo <= v, v < hi)
        some, w = E.fresh("inbins", z3.BoolSort()), E.fresh("inbin")
        E.assume(z3.Implies(some, z3.And(w >= 0, w < n, z3.substitute(inside, (k, w)))))
        E.assume(z3.Implies(z3.And(z3.Not(some), k >= 0, k < n), z3.Not(inside)), pats=pattern(v), qvars=[k])
        if E.decide(z3.Not(some)):
            raise ValueError("None of the data falls within bins with edges")
        em = self.empty = E.fresh_fun("emptybin", ["Int"], "Bool")
        wit = E.fresh_fun("binrow", ["Int"], "Int")
        r = z3.Int("br!")
        E.assume(z3.Implies(z3.And(r >= 0, r < self.nb, k >= 0, k < n, self.inside(k, r)), z3.Not(em(r))),
                 pats=pattern(v, em(r)), qvars=[r, k])
        E.assume(z3.Implies(z3.And(r >= 0, r < self.nb, z3.Not(em(r))),
                            z3.And(wit(r) >= 0, wit(r) < n, self.inside(wit(r), r))), pats=[em(r)], qvars=[r])
        E.assumed["xarray.groupby_bins"] = ("one result per interval, over the rows whose value lies in it (closed on the side "
                                            "asked for); sum and min leave missing values out; missing where an interval has no rows")

    def inside(self, k, r):
        v = raw(self.a.elem(k))
        lo, hi = self.edge(iraw(r)), self.edge(iraw(r) + 1)
        return z3.And(lo < v, v <= hi) if self.right else z3.And(lo <= v, v < hi)

    def _red(self, f, dim, keep_attrs=None, skipna=None, **kw):
        if kw or dim not in (None, self.dim) or (dim is None and any(len(v.dims) > 1 for v in self.obj.vars.values())):
            raise Unsupported("reduction of intervals")
        o, nm = self.obj, self.name + "_bins"
        r = Dataset(attrs=o.attrs if keep_attrs else None)
        for c, v in o.vars.items():
            if self.dim not in v.dims:
                if c in o.cset:
                    r.vars[c] = v.copy()
                    r.cset.add(c)
                    continue
                raise Unsupported("interval reduction of a variable without the dimension")
            if c in o.cset:
                continue
            ax = v.dims.index(self.dim)
            a = v.arr.snapshot()
            if a.dtype.kind not in "fiu":
                raise Unsupported("interval reduction of %s" % a.dtype)
            shp = a.shape[:ax] + (self.nb,) + a.shape[ax + 1:]
            el = f(a, ax)
            if skipna is not None and not skipna:
                el = self._keepna(a, ax, el)
            r.vars[c] = Var(Arr(shp, el, F8), v.dims[:ax] + (nm,) + v.dims[ax + 1:], dict(v.attrs) if keep_attrs else {})
        r.vars[nm] = Var(Arr((self.nb,), self.interval, OBJ), (nm,))
        r.cset.add(nm)
        return r

    def _keepna(self, a, ax, el):
        """missing wherever some row of the interval is missing"""
        qs = [z3.Int("bx!%d" % d) for d in range(a.ndim)]
        k = z3.Int("bk!")
        N = E.fresh_fun("binna", ["Int"] * a.ndim, "Bool")
        W = E.fresh_fun("binnarow", ["Int"] * a.ndim, "Int")
        na = lambda kk: z3.And(kk >= 0, kk < self.n, self.inside(kk, qs[ax]),
                               raw(core.nan_of(a.elem(*(tuple(qs[:ax]) + (kk,) + tuple(qs[ax + 1:]))))))
        rng = [z3.And(x >= 0, x < iraw(s)) for d, (x, s) in enumerate(zip(qs, a.shape)) if d != ax] + [qs[ax] >= 0, qs[ax] < self.nb]
        E.assume(z3.Implies(z3.And(*rng, na(k)), N(*qs)), pats=pattern(raw(self.a.elem(k)), N(*qs)), qvars=qs + [k])
        E.assume(z3.Implies(z3.And(*rng, N(*qs)), na(W(*qs))), pats=[N(*qs)], qvars=qs)

        def g(*ix):
            v = el(*ix)
            return core.mk(num(v), z3.Or(raw(core.nan_of(v)), N(*[iraw(x) for x in ix])))
        return g

    def interval(self, r):
        from . import dtmod
        w = (lambda x: dtmod.Timestamp(x)) if self.times else mk
        return Interval(w(self.edge(iraw(r))), w(self.edge(iraw(r) + 1)), "right" if self.right else "left")

    def sum(self, dim=None, **kw):
        def f(a, ax):
            def el(*ix):
                r = ix[ax]

                def at(k):
                    v = a.elem(*(ix[:ax] + (k,) + ix[ax + 1:]))
                    c = z3.And(self.inside(iraw(k), r), z3.Not(raw(core.nan_of(v))))
                    return ite(c, mk(core.to_real(num(v))), Fraction(0))
                return core.mk(num(theory.mksum(self.n, at)), self.empty(iraw(r)))
            return el
        return self._red(f, dim, **kw)

    def _extreme(self, which):
        def f(a, ax):
            nd = a.ndim
            qs = [z3.Int("bx!%d" % d) for d in range(nd)]
            k = z3.Int("bk!")
            F = E.fresh_fun("bin" + which, ["Int"] * nd, "Real")
            W = E.fresh_fun("binarg" + which, ["Int"] * nd, "Int")
            N = E.fresh_fun("binnone" + which, ["Int"] * nd, "Bool")
            at = lambda kk: a.elem(*(tuple(qs[:ax]) + (kk,) + tuple(qs[ax + 1:])))
            v, w = at(k), at(W(*qs))
            r = qs[ax]
            rng = [z3.And(x >= 0, x < iraw(s)) for d, (x, s) in enumerate(zip(qs, a.shape)) if d != ax] + [r >= 0, r < self.nb]
            T = lambda x: core.to_real(num(x))
            has = z3.And(k >= 0, k < self.n, self.inside(k, r), z3.Not(raw(core.nan_of(v))))
            cmp = F(*qs) <= T(v) if which == "min" else F(*qs) >= T(v)
            E.assume(z3.Implies(z3.And(*rng, has), z3.And(z3.Not(N(*qs)), cmp)),
                     pats=pattern(raw(self.a.elem(k)), F(*qs)), qvars=qs + [k])
            E.assume(z3.Implies(z3.And(*rng, z3.Not(N(*qs))),
                                z3.And(W(*qs) >= 0, W(*qs) < self.n, self.inside(W(*qs), r), z3.Not(raw(core.nan_of(w))),
                                       F(*qs) == T(w))), pats=[F(*qs)], qvars=qs)
            return lambda *ix: core.mk(F(*[iraw(x) for x in ix]), N(*[iraw(x) for x in ix]))
        return f

    def min(self, dim=None, **kw):
        return self._red(self._extreme("min"), dim, **kw)

    def max(self, dim=None, **kw):
        return self._red(self._extreme("max"), dim, **kw)

    def __iter__(self):
        raise Unsupported("native iteration over intervals")

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("groupby_bins.%s has no model" % a)


# ------------------------------------------------------------------ variables
class Var:
    """data, dimension names, attributes: shared between a dataset and the DataArrays taken from it"""
    def __init__(self, a, dims, attrs=None, encoding=None):
        self.arr, self.dims = a, tuple(dims)
        self.attrs = attrs if attrs is not None else {}
        self.encoding = encoding if encoding is not None else {}
        if a.ndim != len(self.dims):
            raise ValueError("dimensions %s must have the same length as the number of data dimensions, ndim=%d"
                             % (self.dims, a.ndim))

    def copy(self, deep=True):
        return Var(self.arr.copy() if deep else self.arr, self.dims, dict(self.attrs), dict(self.encoding))

    def subst(self, pairs):
        return Var(core.subst(self.arr, pairs), self.dims, {k: core.subst(v, pairs) for k, v in self.attrs.items()},
                   dict(self.encoding))


def to_index(i):
    """indexers -> something Arr understands"""
    if isinstance(i, DataArray):
        return i.to_arr()
    if isinstance(i, (Seq, TList, list, tuple)):
        return asarray(i) if not isinstance(i, (list, tuple)) or len(i) else slice(0, 0)
    return i


def isel_var(v, sel):
    """v indexed by {dim: indexer}; indexers act on one dimension each (outer indexing)"""
    hit = [d for d in v.dims if d in sel]
    if not hit:
        return v
    a, dims = v.arr, list(v.dims)
    for d in hit:
        ax = dims.index(d)
        ix = to_index(sel[d])
        key = [slice(None)] * len(dims)
        key[ax] = ix
        a = a[tuple(key)]
        if is_num(ix) and not isinstance(ix, bool):
            dims.pop(ax)
        if not isinstance(a, Arr):
            a = Arr((), (lambda x: lambda: x)(a), v.arr.dtype)
    return Var(a, dims, dict(v.attrs), dict(v.encoding))


class Mapping:
    """read-only mapping with symbolic sizes"""
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __contains__(self, k):
        return k in self.d

    def __iter__(self):
        return iter(self.d)

    def keys(self): return self.d.keys()
    def values(self): return self.d.values()
    def items(self): return self.d.items()
    def get(self, k, x=None): return self.d.get(k, x)

    def vc_len(self):
        return len(self.d)

    def __len__(self):
        return len(self.d)


class Coords(Mapping):
    def __init__(self, owner):
        self.owner = owner
        self.d = {c: owner[c] for c in owner._cvars()}

    def __setitem__(self, k, v):
        self.owner._set_coord(k, v)


def _arith(f, rev=False, dt=None):
    def g(self, o):
        if isinstance(o, DataArray):
            dims = list(self.dims) + [d for d in o.dims if d not in self.dims]
            a, b = self._bcast(dims), o._bcast(dims)
        else:
            dims = self.dims
            a, b = self.to_arr(), o
        r = f(b, a) if rev else f(a, b)
        cs = dict(self.coordvars)
        if isinstance(o, DataArray):
            for k, v in o.coordvars.items():
                cs.setdefault(k, v)
        return DataArray(Var(asarray(r), dims), self.name, cs)
    return g


class DataArray:
    def __init__(self, data=None, name=None, coordvars=None, **kw):
        if isinstance(data, Var):
            self.var = data
            self.name = name
            self.coordvars = coordvars or {}
            self._dataset = kw.get("_dataset")
            return
        coords, dims, attrs = kw.pop("coords", None), kw.pop("dims", None), kw.pop("attrs", None)
        if isinstance(name, (dict, list)) or kw:
            raise Unsupported("DataArray construction")
        self._dataset = None
        self.coordvars = {}
        if isinstance(data, DataArray):
            dims = dims or data.dims
            data = data.to_arr()
        a = asarray(data)
        cs = {}
        if coords is not None:
            if isinstance(coords, Coords):
                coords = coords.d
            if not isinstance(coords, dict):
                raise Unsupported("DataArray coordinates")
            for k, v in coords.items():
                cs[k] = v.var if isinstance(v, DataArray) else None
                if cs[k] is None:
                    raise Unsupported("DataArray coordinate values")
        if dims is None:
            if a.ndim:
                raise Unsupported("DataArray without dimension names")
            dims = ()
        if isinstance(dims, str):
            dims = (dims,)
        self.var = Var(a, dims, dict(attrs or {}))
        self.name = name
        self.coordvars = cs

    # ---- data
    vc_scalar = False

    def to_arr(self):
        return self.var.arr

    @property
    def data(self):
        return self.var.arr

    @data.setter
    def data(self, v):
        self.var.arr = asarray(v)
    values = data

    @property
    def dims(self):
        return self.var.dims

    @property
    def shape(self):
        return tuple(mkn(s) for s in self.var.arr.shape)

    @property
    def ndim(self):
        return self.var.arr.ndim

    @property
    def size(self):
        return self.var.arr.size

    @property
    def dtype(self):
        return self.var.arr.dtype

    @property
    def attrs(self):
        return self.var.attrs

    @attrs.setter
    def attrs(self, v):
        self.var.attrs = dict(v)

    @property
    def encoding(self):
        return self.var.encoding

    @encoding.setter
    def encoding(self, v):
        self.var.encoding = dict(v)

    @property
    def sizes(self):
        return Mapping(dict(zip(self.dims, self.shape)))

    @property
    def coords(self):
        return Coords(self)

    @property
    def dt(self):
        from .dtmod import Dt
        if self.dtype.kind != "M":
            raise AttributeError("Can only use .dt accessor with datetimelike values")
        return Dt(self)

    def _cvars(self):
        return self.coordvars

    def _set_coord(self, k, v):
        self.coordvars[k] = v.var if isinstance(v, DataArray) else Var(asarray(v), (k,))

    def __getattr__(self, a):
        if a.startswith("__") or a in ("var", "coordvars"):
            raise AttributeError(a)
        if a in self.var.attrs:
            return self.var.attrs[a]
        if a in self.coordvars:
            return self[a]
        raise Unsupported("DataArray.%s has no model" % a)

    def vc_len(self):
        if not self.dims:
            raise TypeError("len() of unsized object")
        return self.var.arr.shape[0]

    def vc_wrap(self, a):
        """result of an elementwise numpy function"""
        return DataArray(Var(asarray(a), self.dims), self.name, dict(self.coordvars))

    def to_seq(self):
        a = self.var.arr
        if a.ndim != 1:
            raise Unsupported("iteration over a multidimensional DataArray")
        x = lift(a)
        mkd = lambda v: DataArray(Var(Arr((), lambda: v, a.dtype), (), dict(self.attrs)), self.name, {})
        if isinstance(x, list):
            return [mkd(v) for v in x]
        return Seq(x.n, lambda i: mkd(x.at(i)), x.guard)

    def item(self):
        return self.var.arr.item()

    def to_int(self):
        from .seq import b_int
        return b_int(self.item())

    def to_float(self):
        from .seq import b_float
        return b_float(self.item())

    def __bool__(self):
        return bool(self.var.arr)

    def __iter__(self):
        raise Unsupported("native iteration over a DataArray")

    __hash__ = object.__hash__

    def _bcast(self, dims):
        a = self.var.arr
        if tuple(dims) == self.dims:
            return a
        me = a.snapshot()
        pos = [dims.index(d) for d in self.dims]
        ax = [None] * len(dims)
        if pos != sorted(pos):
            raise Unsupported("DataArray arithmetic with transposed dimensions")
        key = tuple(slice(None) if d in self.dims else None for d in dims)
        return me[key]

    __add__ = _arith(lambda a, b: a + b)
    __radd__ = _arith(lambda a, b: a + b, True)
    __sub__ = _arith(lambda a, b: a - b)
    __rsub__ = _arith(lambda a, b: a - b, True)
    __mul__ = _arith(lambda a, b: a * b)
    __rmul__ = _arith(lambda a, b: a * b, True)
    __truediv__ = _arith(lambda a, b: a / b)
    __rtruediv__ = _arith(lambda a, b: a / b, True)
    __mod__ = _arith(lambda a, b: a % b)
    __floordiv__ = _arith(lambda a, b: a // b)
    __pow__ = _arith(lambda a, b: a ** b)
    __lt__ = _arith(lambda a, b: a < b)
    __le__ = _arith(lambda a, b: a <= b)
    __gt__ = _arith(lambda a, b: a > b)
    __ge__ = _arith(lambda a, b: a >= b)
    __eq__ = _arith(lambda a, b: a == b)
    __ne__ = _arith(lambda a, b: a != b)
    __and__ = _arith(lambda a, b: a & b)
    __rand__ = _arith(lambda a, b: a & b, True)
    __or__ = _arith(lambda a, b: a | b)
    __ror__ = _arith(lambda a, b: a | b, True)

    def __neg__(self): return self.vc_wrap(-self.to_arr())
    def __invert__(self): return self.vc_wrap(~self.to_arr())
    def __abs__(self): return self.vc_wrap(abs(self.to_arr()))

    def _inplace(self, o, f):
        b = o._bcast(list(self.dims)) if isinstance(o, DataArray) else o
        self.var.arr = asarray(f(self.var.arr, b))
        return self

    def __iadd__(self, o):
        def f(a, b):
            a += b
            return a
        return self._inplace(o, f)

    def __isub__(self, o):
        def f(a, b):
            a -= b
            return a
        return self._inplace(o, f)

    def __imul__(self, o):
        def f(a, b):
            a *= b
            return a
        return self._inplace(o, f)

    def __itruediv__(self, o):
        def f(a, b):
            a /= b
            return a
        return self._inplace(o, f)

    # ---- indexing
    def _key(self, key):
        if isinstance(key, dict):
            return key
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            i = [k is Ellipsis for k in key].index(True)
            key = key[:i] + (slice(None),) * (len(self.dims) - len(key) + 1) + key[i + 1:]
        return dict(zip(self.dims, key))

    def __getitem__(self, key):
        if isinstance(key, str):
            if key in self.coordvars:
                v = self.coordvars[key]
                return DataArray(v, key, {c: w for c, w in self.coordvars.items() if set(w.dims) <= set(v.dims)})
            if key == self.name:
                return self
            raise KeyError(key)
        return self.isel(self._key(key))

    def __setitem__(self, key, val):
        if isinstance(key, str):
            self._set_coord(key, val)
            return
        if isinstance(val, DataArray):
            val = val.to_arr()
        if isinstance(key, DataArray):
            self.var.arr[key.to_arr()] = val
            return
        sel = self._key(key)
        k = tuple(to_index(sel[d]) if d in sel else slice(None) for d in self.dims)
        self.var.arr[k if len(k) != 1 else k[0]] = val

    def isel(self, sel=None, **kw):
        sel = dict(sel or {}, **kw)
        for d in sel:
            if d not in self.dims:
                raise ValueError("Dimensions {%r} do not exist" % d)
        v = isel_var(self.var, sel)
        return DataArray(v, self.name, {c: isel_var(w, sel) for c, w in self.coordvars.items()})

    # ---- conversions
    def astype(self, d, **k):
        return DataArray(Var(self.to_arr().astype(d), self.dims, dict(self.attrs)), self.name, dict(self.coordvars))

    def copy(self, deep=True, data=None):
        v = self.var.copy(deep)
        if data is not None:
            v.arr = asarray(data)
        return DataArray(v, self.name, {c: w.copy(deep) for c, w in self.coordvars.items()})

    def squeeze(self, *a):
        if a:
            raise Unsupported("squeeze of a named dimension")
        keep = [d for d, s in zip(self.dims, self.var.arr.shape) if not (isinstance(s, int) and s == 1)]
        return DataArray(Var(self.to_arr().squeeze(), keep, dict(self.attrs)), self.name, {})

    def flatten(self, *a):
        raise AttributeError("'DataArray' object has no attribute 'flatten'")

    def _reduce(self, dim, f):
        if dim is None and True:
            r = f(self.to_arr(), None)
            return DataArray(Var(asarray(r), ()), self.name, {})
        if isinstance(dim, (list, tuple)):
            raise Unsupported("reduction over several dimensions")
        ax = self.dims.index(dim) if isinstance(dim, str) else dim
        r = f(self.to_arr(), ax)
        dims = [d for i, d in enumerate(self.dims) if i != ax]
        return DataArray(Var(asarray(r), dims), self.name,
                         {c: w for c, w in self.coordvars.items() if set(w.dims) <= set(dims)})

    def sum(self, dim=None):
        self._nonan("sum")
        return self._reduce(dim, lambda a, ax: arr.reduce_sum(a, ax))

    def mean(self, dim=None):
        self._nonan("mean")
        return self._reduce(dim, lambda a, ax: arr.reduce_mean(a, ax))

    def _minmax(self, a, ax, which):
        r = arr.reduce_minmax(a, ax, which)
        return r if isinstance(r, Arr) or a.dtype.kind not in "Mm" else Arr((), lambda: r, a.dtype)

    def min(self, dim=None):
        return self._reduce(dim, lambda a, ax: self._minmax(a, ax, "min"))

    def max(self, dim=None):
        return self._reduce(dim, lambda a, ax: self._minmax(a, ax, "max"))

    def any(self): return self._reduce(None, lambda a, ax: arr.reduce_any(a))
    def all(self): return self._reduce(None, lambda a, ax: arr.reduce_all(a))

    def _nonan(self, what):
        a = self.to_arr()
        if core.nan_of(a.elem(*[z3.Int("nn!%d" % d) for d in range(a.ndim)])) is not False:
            raise Unsupported("DataArray.%s skips NaN; values may be NaN" % what)

    def isnull(self):
        return self.vc_wrap(arr.ew(lambda v: mk(raw(core.nan_of(v))), self.to_arr(), dt=B1))

    def groupby(self, name):
        raise Unsupported("DataArray.groupby")

    def equals(self, o):
        raise Unsupported("DataArray.equals")

    @property
    def nbytes(self):
        raise Unsupported("nbytes")

    # ---- engine hooks
    def subst(self, pairs):
        return DataArray(self.var.subst(pairs), self.name, {c: w.subst(pairs) for c, w in self.coordvars.items()})

    def merge_with(self, c, b):
        if not isinstance(b, DataArray) or b.dims != self.dims:
            raise Unsupported("merge of DataArrays")
        return DataArray(Var(core.merge2(c, self.to_arr(), b.to_arr()), self.dims, dict(self.attrs)), self.name, {})


class Loc:
    """Selection by label along one dimension with a coordinate of distinct labels."""
    def __init__(self, ds):
        self.ds = ds

    def __getitem__(self, key):
        if not isinstance(key, dict) or len(key) != 1:
            raise Unsupported("label selection along several dimensions")
        (dim, lab), = key.items()
        ds = self.ds
        if dim not in ds.vars or ds.vars[dim].dims != (dim,):
            if dim not in ds._sizes():
                raise KeyError(dim)
            raise Unsupported("labels of a dimension without coordinate")
        if isinstance(lab, slice) or is_num(lab):
            raise Unsupported("label selection by %s" % type(lab).__name__)
        a = ds.vars[dim].arr.snapshot()
        b = lab.to_arr().snapshot() if isinstance(lab, DataArray) else asarray(lab).snapshot()
        if b.ndim != 1:
            raise Unsupported("label selection by a %d-dimensional array" % b.ndim)
        n = a.shape[0]
        p, q = z3.Int(E.name("lp")), z3.Int(E.name("lq"))
        E.need("labels of %s are distinct (selection by label)" % dim, z3.ForAll([p, q], z3.Implies(
            z3.And(p >= 0, p < q, q < iraw(n)), raw(a.elem(p)) != raw(a.elem(q)))))
        sa = Seq(n, lambda i: a.elem(i))
        k = z3.Int(E.name("lk"))
        E.need("every label exists along %s" % dim, z3.ForAll([k], z3.Implies(
            z3.And(k >= 0, k < iraw(b.shape[0])), raw(contains(sa, b.elem(k))))))
        probe = contains(sa, b.elem(z3.Int("lprobe!")))
        wit = _witness(raw(probe))
        ix = Arr(b.shape, lambda i: mk(wit(raw(b.elem(i)))), I8)
        new = lab.dims[0] if isinstance(lab, DataArray) else dim
        E.assumed["xarray label selection"] = "each label's row, in the order of the labels"
        r = Dataset(attrs=ds.attrs)
        for nm, v in ds.vars.items():
            if dim in v.dims:
                ax = v.dims.index(dim)
                src = v.arr.snapshot()
                f = (lambda src, ax: lambda *i: src.elem(*(i[:ax] + (raw(ix.elem(i[ax])),) + i[ax + 1:])))(src, ax)
                shp = src.shape[:ax] + (b.shape[0],) + src.shape[ax + 1:]
                v = Var(Arr(shp, f, src.dtype), [new if d == dim else d for d in v.dims], dict(v.attrs), dict(v.encoding))
            r.vars[nm] = v
        r.cset.update(ds.cset)
        return r


def _witness(has):
    """position function of the membership test has(x)"""
    for m in E.ghost.get("member", {}).values():
        if m[0](has.arg(has.num_args() - 1)).decl().eq(has.decl()):
            return m[1]
    raise Unsupported("membership test without positions")


class Dataset:
    def __init__(self, data_vars=None, coords=None, attrs=None):
        self.__dict__.update(vars=collections.OrderedDict(), cset=set(), attrs=dict(attrs or {}), encoding={})
        for src, isc in ((coords, True), (data_vars, False)):
            if src is None:
                continue
            for k, v in (src.items() if not isinstance(src, Coords) else src.d.items()):
                self._put(k, v)
                if isc:
                    self.cset.add(k)

    # ---- structure
    def _put(self, k, v):
        if isinstance(v, DataArray):
            var = v.var
            for c, w in v.coordvars.items():
                if c != k and c not in self.vars:
                    self.vars[c] = w
                    self.cset.add(c)
            if k in v.dims:
                self.cset.add(k)
        elif isinstance(v, Var):
            var = v
        elif isinstance(v, tuple) and len(v) in (2, 3, 4):
            dims = (v[0],) if isinstance(v[0], str) else tuple(v[0])
            d = v[1].to_arr() if hasattr(v[1], "to_arr") else asarray(v[1])
            var = Var(d, dims, dict(v[2]) if len(v) > 2 else {}, dict(v[3]) if len(v) > 3 else {})
        elif is_num(v) or isinstance(v, str):
            var = Var(asarray(v), ())
        else:
            raise Unsupported("dataset variable from %r" % type(v).__name__)
        mine = self._sizes(skip=k)
        for d, s in zip(var.dims, var.arr.shape):
            if d in mine and i_eq(mine[d], s) is not True:
                E.need("conflicting sizes for dimension %r do not occur" % d, i_eq(mine[d], s))
        if k in var.dims:
            self.cset.add(k)
        # xarray copies the variable shell, not its data
        self.vars[k] = Var(var.arr, var.dims, dict(var.attrs), dict(var.encoding))

    def _sizes(self, skip=None):
        r = collections.OrderedDict()
        for k, v in self.vars.items():
            if k == skip:
                continue
            for d, s in zip(v.dims, v.arr.shape):
                if d not in r or isinstance(s, int):
                    r[d] = s
        return r

    @property
    def dims(self):
        return Mapping({d: mkn(s) for d, s in self._sizes().items()})
    sizes = dims

    @property
    def data_vars(self):
        return Mapping({k: self[k] for k in self.vars if k not in self.cset})

    @property
    def variables(self):
        return Mapping({k: self[k] for k in self.vars})

    @property
    def coords(self):
        return Coords(self)

    def _cvars(self):
        return [k for k in self.vars if k in self.cset]

    def _set_coord(self, k, v):
        self._put(k, v)
        self.cset.add(k)

    def keys(self):
        return [k for k in self.vars]

    def __iter__(self):
        return iter([k for k in self.vars if k not in self.cset])

    def __contains__(self, k):
        return k in self.vars

    def vc_len(self):
        return len([k for k in self.vars if k not in self.cset])

    def _da(self, k):
        v = self.vars[k]
        return DataArray(v, k, {c: self.vars[c] for c in self.vars if c in self.cset and
                                set(self.vars[c].dims) <= set(v.dims)}, _dataset=self)

    def __getitem__(self, key):
        if isinstance(key, str):
            if key in self.vars:
                return self._da(key)
            raise KeyError(key)
        if isinstance(key, dict):
            return self.isel(key)
        if isinstance(key, (list, TList)):
            names = list(key)
            need = set(d for k in names for d in self.vars[k].dims)
            r = Dataset(attrs=self.attrs)
            for k, v in self.vars.items():
                if k in names or (k in self.cset and set(v.dims) <= need):
                    r.vars[k] = Var(v.arr, v.dims, dict(v.attrs), dict(v.encoding))
                    if k in self.cset:
                        r.cset.add(k)
            for k in names:
                if k not in self.vars:
                    raise KeyError(k)
            return r
        raise Unsupported("dataset key %r" % type(key).__name__)

    def __setitem__(self, k, v):
        self._put(k, v)

    def __delitem__(self, k):
        del self.vars[k]
        self.cset.discard(k)

    def __getattr__(self, a):
        if a.startswith("__") or a in ("vars", "cset"):
            raise AttributeError(a)
        if a in self.vars:
            return self._da(a)
        if a in self.__dict__.get("attrs", {}):
            return self.attrs[a]
        raise Unsupported("Dataset.%s has no model" % a)

    def __setattr__(self, a, v):
        if a == "attrs":
            self.__dict__[a] = dict(v)
            return
        if a == "encoding":
            self.__dict__[a] = v
            return
        raise AttributeError("cannot set attribute %r on a 'Dataset' object." % a)

    def isel(self, sel=None, **kw):
        sel = dict(sel or {}, **kw)
        dims = self._sizes()
        for d in sel:
            if d not in dims:
                raise ValueError("Dimensions {%r} do not exist" % d)
        # evaluate each indexer once
        sel = {d: to_index(i) for d, i in sel.items()}
        r = Dataset(attrs=self.attrs)
        for k, v in self.vars.items():
            w = isel_var(v, sel)
            r.vars[k] = Var(w.arr, w.dims, dict(w.attrs), dict(w.encoding))
        r.cset.update(self.cset)
        r.__dict__["encoding"] = dict(self.encoding)
        return r

    @property
    def loc(self):
        return Loc(self)

    def sel(self, sel=None, **kw):
        return Loc(self)[dict(sel or {}, **kw)]

    def groupby(self, name):
        if not isinstance(name, (str, DataArray)):
            raise Unsupported("groupby key")
        return GroupBy(self, name)

    def groupby_bins(self, group, bins, **kw):
        return Binned(self, group, bins, **kw)

    def copy(self, deep=False):
        r = Dataset(attrs=self.attrs)
        for k, v in self.vars.items():
            r.vars[k] = v.copy(deep)
        r.cset.update(self.cset)
        r.__dict__["encoding"] = dict(self.encoding)
        return r

    def set_coords(self, names):
        names = [names] if isinstance(names, str) else list(names)
        r = self.copy()
        for n in names:
            if n not in r.vars:
                raise ValueError("variables %s not found" % n)
            r.cset.add(n)
        return r

    def reset_coords(self, names=None, drop=False):
        if drop:
            raise Unsupported("reset_coords(drop=True)")
        r = self.copy()
        for n in ([names] if isinstance(names, str) else list(names) if names is not None else list(self.cset)):
            r.cset.discard(n)
        return r

    def update(self, other):
        for k, v in (other.vars.items() if isinstance(other, Dataset) else other.items()):
            self._put(k, v)
            if isinstance(other, Dataset) and k in other.cset:
                self.cset.add(k)
        return self

    def assign(self, **kw):
        r = self.copy()
        for k, v in kw.items():
            r._put(k, v)
        return r

    def assign_coords(self, **kw):
        r = self.copy()
        for k, v in kw.items():
            r._set_coord(k, v)
        return r

    def assign_attrs(self, *a, **kw):
        r = self.copy()
        for d in a:
            r.attrs.update(d)
        r.attrs.update(kw)
        return r

    def rename(self, m):
        r = Dataset(attrs=self.attrs)
        for k, v in self.vars.items():
            r.vars[m.get(k, k)] = Var(v.arr, [m.get(d, d) for d in v.dims], dict(v.attrs), dict(v.encoding))
            if k in self.cset:
                r.cset.add(m.get(k, k))
        return r

    def drop_vars(self, names):
        r = self.copy()
        for n in ([names] if isinstance(names, str) else list(names)):
            del r[n]
        return r
    drop = drop_vars

    def merge(self, other):
        r = self.copy()
        for k, v in other.vars.items():
            if k in r.vars:
                if r.vars[k].arr is not v.arr:
                    raise Unsupported("merge of datasets sharing a variable")
                continue
            r._put(k, v)
            if k in other.cset:
                r.cset.add(k)
        return r

    @classmethod
    def from_dataframe(cls, df):
        from .pdmod import DataFrame
        if not isinstance(df, DataFrame) or df.index_ is None or len(df.index_) != 1:
            raise Unsupported("dataset from a frame without an index of its own")
        (d, a), = df.index_.items()
        r = cls()
        r._put(d, Var(a, (d,)))
        for k, v in df.cols.items():
            r._put(k, Var(v, (d,)))
        return r

    def to_dataframe(self):
        from .pdmod import DataFrame
        dims = list(self._sizes())
        if len(dims) != 1 or any(v.dims != tuple(dims) for v in self.vars.values()):
            raise Unsupported("data frame of several dimensions")
        return DataFrame({k: v.arr.snapshot() for k, v in self.vars.items() if k not in dims})

    def close(self):
        pass

    def load(self):
        return self

    @classmethod
    def from_dict(cls, d):
        if not set(d) <= {"coords", "attrs", "dims", "data_vars", "encoding"}:
            d = {"data_vars": d}
        r = cls(attrs=d.get("attrs"))
        for part, isc in (("coords", True), ("data_vars", False)):
            for k, v in d.get(part, {}).items():
                dims = v["dims"]
                dims = (dims,) if isinstance(dims, str) else tuple(dims)
                data = v["data"]
                a = data.to_arr() if hasattr(data, "to_arr") else asarray(data)
                r._put(k, Var(a, dims, dict(v.get("attrs", {})), dict(v.get("encoding", {}))))
                if isc:
                    r.cset.add(k)
        return r

    def subst(self, pairs):
        r = Dataset(attrs=self.attrs)
        for k, v in self.vars.items():
            r.vars[k] = v.subst(pairs)
        r.cset.update(self.cset)
        return r

    def merge_with(self, c, b):
        r = Dataset(attrs=self.attrs)
        if set(self.vars) != set(b.vars):
            raise Unsupported("merge of datasets")
        for k, v in self.vars.items():
            r.vars[k] = Var(core.merge2(c, v.arr, b.vars[k].arr), v.dims, dict(v.attrs), dict(v.encoding))
        r.cset.update(self.cset)
        return r


class XR:
    Dataset = Dataset
    DataArray = DataArray

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("xarray.%s has no model" % a)


loader.MODELS["xarray"] = XR()
