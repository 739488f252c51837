"""The pandas model: frames of equally long columns and grouping by column values, as the code uses them."""
import collections
from fractions import Fraction
import z3
from . import core, arr, loader, seq, theory
from .core import S, E, Unsupported, mk, raw, iraw, is_num, ite, num, nan_of
from .arr import Arr, asarray, F8, I8


def plain(a, what):
    v = a.elem(z3.Int("pdk!"))
    if nan_of(v) is not False:
        raise Unsupported("%s of values that may be NaN" % what)
    return z3.simplify(num(v))


class Series:
    """one column; rows are matched by position with columns of the same frame"""
    vc_scalar = False

    def __init__(self, a, ix, name=None):
        self.a, self.ix, self.name = a, ix, name

    def to_arr(self):
        return self.a

    def vc_wrap(self, a):
        return Series(asarray(a), self.ix, self.name)

    def vc_len(self):
        return self.a.shape[0]

    data = values = property(lambda self: self.a)
    shape = property(lambda self: self.a.shape)
    dtype = property(lambda self: self.a.dtype)
    size = property(lambda self: self.a.size)
    ndim = 1

    def to_numpy(self, *k, **kw):
        if k or kw:
            raise Unsupported("Series.to_numpy with arguments")
        return self.a

    def astype(self, d):
        return self.vc_wrap(self.a.astype(d))

    def to_seq(self):
        from .seq import lift
        return lift(self.a)

    def _other(self, o):
        if isinstance(o, Series):
            if o.ix is not self.ix:
                raise Unsupported("Series of different frames combined")
            return o.a
        return o

    def sum(self): return arr.reduce_sum(self.a)
    def mean(self): return arr.reduce_mean(self.a)
    def min(self): return arr.reduce_minmax(self.a, None, "min")
    def max(self): return arr.reduce_minmax(self.a, None, "max")
    def abs(self): return self.vc_wrap(abs(self.a))
    def __abs__(self): return self.vc_wrap(abs(self.a))
    def __neg__(self): return self.vc_wrap(-self.a)
    __hash__ = object.__hash__

    def __iter__(self):
        raise Unsupported("native iteration over a Series")

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("Series.%s has no model" % a)

    def subst(self, pairs):
        return Series(core.subst(self.a, pairs), self.ix, self.name)


def _op(nm):
    def f(self, o):
        return self.vc_wrap(getattr(self.a, nm)(self._other(o)))
    return f


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "floordiv", "mod", "lt", "le", "gt", "ge", "eq", "ne"):
    setattr(Series, "__%s__" % _n, _op("__%s__" % _n))


class RowNumbers:
    """the default index: 0, 1, 2 ..."""
    name = None

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("Index.%s has no model" % a)


class DataFrame:
    def __init__(self, cols, ix=None, index=None, **kw):
        if kw:
            raise Unsupported("DataFrame construction")
        self.__dict__.update(cols=collections.OrderedDict(), ix=ix if ix is not None else object(), index_=index)
        if isinstance(cols, arr.RecArr):
            cols = {k: a.snapshot() for k, a in cols.cols.items()}
        if not isinstance(cols, dict):
            raise Unsupported("DataFrame construction")
        for k, v in cols.items():
            self.cols[k] = asarray(v)
        ns = [a.shape[0] for a in self.cols.values()]
        for s in ns[1:]:
            if core.i_eq(ns[0], s) is not True:
                E.need("columns of a frame have one length", core.i_eq(ns[0], s))

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise KeyError(k)
            return Series(self.cols[k], self.ix, k)
        if isinstance(k, (list, tuple)) and all(isinstance(x, str) for x in k):
            for x in k:
                if x not in self.cols:
                    raise KeyError(x)
            return DataFrame({x: self.cols[x] for x in k}, self.ix, self.index_)
        raise Unsupported("DataFrame key")

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise Unsupported("DataFrame assignment")
        if isinstance(v, Series) and v.ix is not self.ix:
            raise Unsupported("Series of different frames combined")
        a = asarray(v)
        if a.ndim != 1:
            raise Unsupported("DataFrame assignment")
        self.cols[k] = a.snapshot()

    def __getattr__(self, a):
        if a.startswith("__") or a in ("cols", "ix", "index_"):
            raise AttributeError(a)
        if a in self.cols:
            return self[a]
        raise Unsupported("DataFrame.%s has no model" % a)

    columns = property(lambda self: list(self.cols))

    @classmethod
    def from_records(cls, data, index=None, columns=None, **kw):
        if kw or index is not None or columns is None:
            raise Unsupported("from_records options")
        names = [x for x in columns]
        rows = seq.lift(data)
        if isinstance(rows, seq.Seq):
            rows = rows.compact()
        n = len(rows) if isinstance(rows, list) else rows.n
        at = (lambda i: seq._pick(rows, i)) if isinstance(rows, list) else rows.at
        if isinstance(n, int) and n == 0:
            return cls({c: Arr((0,), lambda i: 0, arr.F8) for c in names})
        k = z3.Int(E.name("row"))
        row = at(0) if isinstance(n, int) else at(k)
        if not isinstance(row, tuple):
            raise Unsupported("from_records rows")
        if len(row) != len(names):
            raise ValueError("%d columns passed, passed data had %d columns" % (len(names), len(row)))
        kind = lambda v: arr.F8 if isinstance(v, Fraction) or (isinstance(v, S) and z3.is_real(v.t)) else arr.I8
        if any(not core.is_num(v) for v in row):
            raise Unsupported("from_records of other than numbers")
        return cls({c: Arr((n,), (lambda j: lambda i: at(i)[j])(j), kind(row[j])) for j, c in enumerate(names)})

    @property
    def index(self):
        if self.index_ is not None:
            raise Unsupported("DataFrame.index")
        if "rows_" not in self.__dict__:
            self.__dict__["rows_"] = RowNumbers()
        return self.__dict__["rows_"]

    def to_xarray(self):
        from .xrmod import Dataset, Var
        if self.index_ is not None:
            return Dataset.from_dataframe(self)
        d = self.index.name or "index"
        r = Dataset()
        r._put(d, Var(Arr((self._n(),), lambda i: i if isinstance(i, int) else mk(i), arr.I8), (d,)))
        for k, v in self.cols.items():
            r._put(k, Var(v.snapshot(), (d,)))
        return r

    def _n(self):
        for a in self.cols.values():
            return a.shape[0]
        raise Unsupported("frame without columns")

    shape = property(lambda self: (self._n(), len(self.cols)))

    def vc_len(self):
        return self._n()

    def __contains__(self, k):
        return k in self.cols

    def set_index(self, k, **kw):
        if not isinstance(k, str) or kw:
            raise Unsupported("set_index")
        return DataFrame({c: a for c, a in self.cols.items() if c != k}, None, {k: self[k].a})

    def reset_index(self, drop=False):
        if self.index_ is None and not drop:
            raise Unsupported("reset_index")
        c = collections.OrderedDict() if drop else collections.OrderedDict(self.index_)
        c.update(self.cols)
        return DataFrame(c)

    def groupby(self, by, sort=True, as_index=True, **kw):
        if kw:
            raise Unsupported("groupby options")
        if isinstance(by, (str, Series, Arr)):
            by = [by]
        keys = collections.OrderedDict()
        for j, b in enumerate(by):
            if isinstance(b, str):
                keys[b] = self[b].a
            elif isinstance(b, Series) and b.ix is self.ix:
                keys[b.name or "key%d" % j] = b.a
            else:
                raise Unsupported("groupby key")
        if sort is not True:
            raise Unsupported("groupby without sorting")
        return DFGroupBy(self, keys, [b for b in by if isinstance(b, str)], as_index)

    def subst(self, pairs):
        return DataFrame({k: core.subst(a, pairs) for k, a in self.cols.items()})


class Partition:
    """Groups 0 <= r < m of rows with equal keys, in increasing order of the keys: src(r) is a row of group r,
    loc(row) its group."""
    def __init__(self, keys):
        self.keys = [a.snapshot() for a in keys]
        k = self.k = z3.Int("pdk!")
        ts = [plain(a, "groupby") for a in self.keys]
        n = self.n = iraw(self.keys[0].shape[0])
        m = self.m = E.fresh("ngroups")
        src = self.src = E.fresh_fun("gsrc", ["Int"], "Int")
        L = E.fresh_fun("gloc", [t.sort() for t in ts], "Int")
        W = self.where = E.fresh_fun("gof", ["Int"], "Int")
        at = lambda i: [z3.substitute(t, (k, i)) for t in ts]
        self.at, self.L = at, L
        loc = self.loc = lambda i: W(i)
        r, q = z3.Int("gr!"), z3.Int("gq!")
        E.assume(z3.And(m >= 0, m <= n, z3.Implies(n > 0, m > 0)))
        E.assume(z3.Implies(z3.And(r >= 0, r < m), z3.And(src(r) >= 0, src(r) < n, W(src(r)) == r)), pats=[src(r)], qvars=[r])
        E.assume(z3.Implies(z3.And(k >= 0, k < n), z3.And(W(k) >= 0, W(k) < m, W(k) == L(*ts),
                                                          *[x == y for x, y in zip(ts, at(src(W(k))))])),
                 pats=[W(k)], qvars=[k])
        if len(ts) == 1:
            E.assume(z3.Implies(z3.And(r >= 0, r < q, q < m), at(src(r))[0] < at(src(q))[0]),
                     pats=[z3.MultiPattern(src(r), src(q))], qvars=[r, q])
        E.assumed["pandas.groupby"] = ("one group per distinct key, in increasing order of the keys, holding the rows with "
                                       "that key; sum, mean, min, max and size over the rows of a group")
        self.red = {}

    def sum_of(self, a):
        a = a.snapshot()
        plain(a, "groupby sum")
        z = Fraction(0) if a.dtype.kind == "f" else 0

        def f(r):
            return theory.mksum(self.n, lambda k: ite(raw(self.loc(iraw(k)) == iraw(r)), a.elem(k), z))
        if a.dtype.kind not in "fiub":
            raise Unsupported("groupby sum of %s" % a.dtype)
        return Arr((self.m,), f, F8 if a.dtype.kind == "f" else I8)

    def size(self):
        return Arr((self.m,), lambda r: theory.mksum(self.n, lambda k: ite(raw(self.loc(iraw(k)) == iraw(r)), 1, 0)), I8)

    def mean_of(self, a):
        s, c = self.sum_of(a), self.size()
        return Arr((self.m,), lambda r: core.sdiv(s.elem(r), c.elem(r)), F8)

    def extreme(self, a, which):
        a = a.snapshot()
        t = plain(a, "groupby " + which)
        if (which, t.get_id()) not in self.red:
            f = E.fresh_fun("g" + which, ["Int"], t.sort())
            g = E.fresh_fun("garg" + which, ["Int"], "Int")
            r, k = z3.Int("gr!"), self.k
            at = lambda i: z3.substitute(t, (k, i))
            E.assume(z3.Implies(z3.And(r >= 0, r < self.m), z3.And(g(r) >= 0, g(r) < self.n, self.loc(g(r)) == r,
                                                                   f(r) == at(g(r)))), pats=[f(r)], qvars=[r])
            v = f(self.loc(k))
            E.assume(z3.Implies(z3.And(k >= 0, k < self.n), v <= t if which == "min" else v >= t),
                     pats=[self.loc(k)], qvars=[k])
            self.red[which, t.get_id()] = (f, g, t)
        f, g, t = self.red[which, t.get_id()]
        return Arr((self.m,), lambda r: mk(f(iraw(r))), a.dtype)

    def picked(self, a):
        """the value of some row of the group, the same row for every column"""
        a = a.snapshot()
        return Arr((self.m,), lambda r: a.elem(self.src(iraw(r))), a.dtype)


def partition(keys):
    ks = [a.snapshot() for a in keys]
    key = tuple(x for a in ks for x in (iraw(a.shape[0]).get_id(), plain(a, "groupby").get_id()))
    tab = E.ghost.setdefault("partitions", {})
    if key not in tab:
        tab[key] = Partition(ks)
    return tab[key]


HOW = {"sum": Partition.sum_of, "mean": Partition.mean_of, "min": lambda p, a: p.extreme(a, "min"),
       "max": lambda p, a: p.extreme(a, "max")}


class DFGroupBy:
    def __init__(self, df, keys, drop, as_index=True, only=None):
        self.df, self.keys, self.drop, self.as_index, self.only = df, keys, drop, as_index, only
        self.p = partition(list(keys.values()))

    def _cols(self):
        return [c for c in self.df.cols if c not in self.drop] if self.only is None else list(self.only)

    def _frame(self, cols):
        ix = collections.OrderedDict((k, self.p.picked(a)) for k, a in self.keys.items())
        if self.as_index:
            # results of one grouping share their rows
            return DataFrame(cols, self.p, ix)
        ix.update(cols)
        return DataFrame(ix)

    def _red(self, how, kw=None):
        if kw:
            raise Unsupported("groupby reduction options")
        return self._frame({c: HOW[how](self.p, self.df.cols[c]) for c in self._cols()})

    def sum(self, **k): return self._red("sum", k)
    def mean(self, **k): return self._red("mean", k)
    def min(self, **k): return self._red("min", k)
    def max(self, **k): return self._red("max", k)

    def size(self):
        return Series(self.p.size(), self.p, None)

    def agg(self, how=None, **kw):
        if kw or how is None:
            if not all(isinstance(v, tuple) and len(v) == 2 and v[1] in HOW for v in kw.values()) or how is not None:
                raise Unsupported("groupby aggregation")
            return self._frame({k: HOW[h](self.p, self.df[c].a) for k, (c, h) in kw.items()})
        if isinstance(how, str):
            if how not in HOW:
                raise Unsupported("groupby aggregation by %s" % how)
            return self._red(how)
        if isinstance(how, dict) and all(isinstance(h, str) and h in HOW for h in how.values()):
            return self._frame({c: HOW[h](self.p, self.df[c].a) for c, h in how.items()})
        raise Unsupported("groupby aggregation")
    aggregate = agg

    def __getitem__(self, k):
        if isinstance(k, str):
            return SeriesGroupBy(self, k)
        if isinstance(k, (list, tuple)):
            return DFGroupBy(self.df, self.keys, self.drop, self.as_index, list(k))
        raise Unsupported("column of a grouped frame")

    def __iter__(self):
        raise Unsupported("iteration over a grouped frame")

    def __getattr__(self, a):
        if a.startswith("__") or a in ("df", "p"):
            raise AttributeError(a)
        if a in self.df.cols:
            return self[a]
        raise Unsupported("DataFrameGroupBy.%s has no model" % a)


class SeriesGroupBy:
    def __init__(self, g, c):
        self.g, self.c = g, c
        self.a = g.df[c].a

    def _r(self, how):
        return Series(HOW[how](self.g.p, self.a), self.g.p, self.c)

    def sum(self): return self._r("sum")
    def mean(self): return self._r("mean")
    def min(self): return self._r("min")
    def max(self): return self._r("max")

    def agg(self, how):
        if how not in HOW:
            raise Unsupported("groupby aggregation")
        return self._r(how)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("SeriesGroupBy.%s has no model" % a)


class PD:
    DataFrame, Series = DataFrame, Series

    @staticmethod
    def to_datetime(x, **kw):
        from . import dtmod
        if hasattr(x, "to_arr"):
            x = x.to_arr()
        if kw or not isinstance(x, Arr) or x.ndim or x.dtype.kind != "M":
            raise Unsupported("pandas.to_datetime")
        v = x.elem()
        return dtmod.Timestamp(v if isinstance(v, int) else iraw(v))

    @classmethod
    def Timestamp(cls, x, **kw):
        from . import dtmod
        if isinstance(x, dtmod.datetime) and not kw:
            return dtmod.Timestamp(x.us * 1000)
        return cls.to_datetime(x, **kw)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("pandas.%s has no model" % a)


loader.MODELS["pandas"] = PD()
