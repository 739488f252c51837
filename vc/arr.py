"""Symbolic n-dimensional arrays: element closures with views and in-place update."""
from fractions import Fraction
import z3
from . import core
from .core import (S, E, Unsupported, mk, raw, iraw, unS, is_num, ite, c_and, c_or, c_not, pyc,
                   i_eq, i_lt, i_le, i_add, i_sub, i_mul, subst, merge2, sdiv, sfloor, sfloordiv,
                   strunc, to_real, num, nan_of)


# ------------------------------------------------------------------ dtypes
class DT:
    def __init__(self, kind, size):
        self.kind, self.itemsize = kind, size
        self.names = None

    @property
    def name(self):
        return {"f": "float", "i": "int", "u": "uint", "b": "bool", "O": "object", "M": "datetime64",
                "m": "timedelta64", "U": "str"}[self.kind] + (
            "" if self.kind in "bOMmU" else str(8 * self.itemsize)) + ("[ns]" if self.kind in "Mm" else "")

    def __eq__(self, o):
        try:
            o = todt(o)
        except Unsupported:
            return False
        return self.kind == o.kind and (self.itemsize == o.itemsize or self.kind in "bOUMm")

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.kind, self.itemsize))

    def __repr__(self):
        return self.name
    __str__ = __repr__

    order = "<"

    @property
    def str(self):
        if self.kind not in "fiu":
            raise Unsupported("dtype string of %s" % self.name)
        return (self.order if self.itemsize > 1 else "|") + self.kind + "%d" % self.itemsize

    char = property(lambda self: {("i", 2): "h", ("i", 4): "i", ("i", 8): "l", ("u", 2): "H", ("u", 4): "I",
                                  ("u", 8): "L", ("f", 4): "f", ("f", 8): "d", ("b", 1): "?"}[self.kind, self.itemsize])

    @property
    def type(self):
        return self

    def __call__(self, v=0):
        return cast_scalar(v, self)


F8, F4, I8, I4, I2, I1 = DT("f", 8), DT("f", 4), DT("i", 8), DT("i", 4), DT("i", 2), DT("i", 1)
U8, U4, U2, U1, B1, OBJ, M8, TD8 = (DT("u", 8), DT("u", 4), DT("u", 2), DT("u", 1), DT("b", 1), DT("O", 8),
                                    DT("M", 8), DT("m", 8))
STR = DT("U", 4)


def todt(d):
    if isinstance(d, DT):
        return d
    if d is float or d is Fraction:
        return F8
    if d is int:
        return I8
    if d is bool:
        return B1
    if d is object:
        return OBJ
    if isinstance(d, str):
        x = d.lstrip("<>=|")
        if x in ("bool", "b1", "?"):
            return B1
        for p, k in (("float", "f"), ("uint", "u"), ("int", "i")):
            if x.startswith(p):
                r = x[len(p):]
                return DT(k, int(r) // 8 if r else 8)
        if x.startswith("M8") or x.startswith("datetime64"):
            return M8
        if x.startswith("m8") or x.startswith("timedelta64"):
            return TD8
        if x == "object" or x == "O":
            return OBJ
        if x[:1] in ("S", "U", "a"):
            return STR
        if x[:1] in "fiu" and x[1:].isdigit():
            r = DT(x[0], int(x[1:]))
            if d[:1] == ">":
                r.order = ">"
            return r
        if x in "fd":
            return F8
        if x == "B":
            return U1
    nm = getattr(d, "__vc_dt__", None)
    if nm is not None:
        return nm
    raise Unsupported("dtype %r" % (d,))


def cast_scalar(v, d):
    d = todt(d)
    if d.kind == "f":
        if isinstance(v, bool):
            return Fraction(int(v))
        if isinstance(v, (int, Fraction)):
            return Fraction(v)
        if isinstance(v, S):
            return mk(to_real(v), v.nan)
        if isinstance(v, str):
            return Fraction(v)
        if hasattr(v, "to_float"):
            return v.to_float()
    if d.kind == "b":
        if isinstance(v, S):
            return v if z3.is_bool(v.t) else mk(v.t != 0)
        return bool(v)
    if d.kind in "iu":
        if isinstance(v, str):
            v = int(v)
        if hasattr(v, "to_int"):
            v = v.to_int()
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, S) and z3.is_bool(v.t):
            v = mk(num(v))
        if is_num(v):
            if nan_of(v) is not False:
                E.need("cast of NaN to integer does not happen", c_not(nan_of(v)))
                v = mk(v.t)
            t = strunc(v)
            bits = 8 * d.itemsize
            if d.kind == "u":
                return t % (1 << bits) if not isinstance(t, S) else mk(t.t % (1 << bits))
            if bits < 32:
                h = 1 << (bits - 1)
                if isinstance(t, S):
                    return mk((t.t + h) % (1 << bits) - h)
                return (t + h) % (1 << bits) - h
            return t
    if d.kind in "OMmU":
        return v
    raise Unsupported("cast of %r to %r" % (type(v), d))


def dt_of(v):
    if isinstance(v, S):
        return B1 if z3.is_bool(v.t) else (I8 if z3.is_int(v.t) else F8)
    if isinstance(v, bool):
        return B1
    if isinstance(v, int):
        return I8
    if isinstance(v, (float, Fraction)):
        return F8
    if isinstance(v, str):
        return STR
    return OBJ


def prom(a, b):
    if a.kind == "O" or b.kind == "O":
        return OBJ
    if a.kind == "M" or b.kind == "M":
        return a if a.kind == "M" else b
    if a.kind == "m" or b.kind == "m":
        return a if a.kind == "m" else b
    order = "biuf"
    if a.kind == b.kind:
        return a if a.itemsize >= b.itemsize else b
    k = a if order.index(a.kind) > order.index(b.kind) else b
    if k.kind == "f":
        return F8
    if k.kind == "u":
        o = a if k is b else b
        if o.kind == "i":
            return I8 if max(a.itemsize, b.itemsize) < 8 or True else F8
    return k


# ------------------------------------------------------------------ arrays
class Arr:
    __array_priority__ = 1000
    _mask_meta = None

    def __init__(self, shape, fn, dt=F8, base=None, vmap=None, inv=None):
        self._shape = tuple(unS(s) for s in shape)
        self.dtype = dt
        self.base, self.vmap, self.inv = base, vmap, inv
        if base is not None:
            base._viewed = True
        self.fn = fn
        self.memo = {}
        self.depth = len(E.frames)
        self.born = E.frames[-1] if E.frames else None

    # ---- element access
    def elem(self, *idx):
        if self.base is not None:
            return self.base.elem(*self.vmap(*idx))
        key = tuple(i if isinstance(i, int) else ("z", i.get_id()) for i in idx)
        m = self.memo.get(key)
        if m is not None:
            return m[0]
        v = self.fn(*idx)
        self.memo[key] = (v, idx)
        return v

    def owner(self):
        return self if self.base is None else self.base.owner()

    def update(self, f):
        """f(idx) -> (cond, value-thunk); value used where cond holds."""
        if self.base is not None:
            inv = self.inv
            if inv is None:
                raise Unsupported("write through this view")

            def g(*bidx):
                c, idx = inv(*bidx)
                c = pyc(c)
                if c is False:
                    return False, None
                c2, th = f(*idx)
                return c_and(c, c2), th
            self.base.update(g)
            return
        if E.frames and E.frames[-1] is not self.born and any(
                fr.k is not None for fr in E.frames[self.depth:]):
            raise Unsupported("array updated inside a generic loop body")
        old = self.fn
        oldmemo = self.memo

        dt = self.dtype

        def new(*idx):
            c, th = f(*idx)
            c = pyc(c)
            if c is False:
                return old(*idx)
            v = th()
            if dt.kind in "fiub" and is_num(v):
                v = cast_scalar(v, dt)
            if c is True:
                return v
            return ite(c, v, old(*idx))
        self.fn = new
        self.memo = {}

    # ---- attributes
    _viewed = False

    @property
    def shape(self):
        return self._shape

    @shape.setter
    def shape(self, shp):
        """reshape in place: this object becomes a view of its former self"""
        if self._viewed:
            raise Unsupported("shape of an array with views set in place")
        old = Arr(self._shape, self.fn, self.dtype, self.base, self.vmap, self.inv)
        old.memo, old.depth, old.born = self.memo, self.depth, self.born
        new = reshape(old, tuple(unS(s) for s in (shp if isinstance(shp, (tuple, list)) else (shp,))))
        self._shape, self.base, self.vmap, self.inv, self.fn, self.memo = new._shape, new.base, new.vmap, new.inv, new.fn, {}

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = i_mul(r, s)
        return mk(r) if not isinstance(r, int) else r

    @property
    def T(self):
        return self.transpose()

    @property
    def data(self):
        return self

    @property
    def values(self):
        return self

    @property
    def flat(self):
        return self.flatten()

    def __len__(self):
        raise Unsupported("len() outside rewritten source")

    def __iter__(self):
        n = self.shape[0]
        if isinstance(n, int):
            return iter([self[i] for i in range(n)])
        raise Unsupported("native iteration over a symbolic-length array")

    def __bool__(self):
        if self.ndim == 0:
            return bool(self.elem())
        if all(i_eq(s, 1) is True for s in self.shape):
            return bool(self.elem(*[0] * self.ndim))
        raise ValueError("truth value of an array")

    def __hash__(self):
        return id(self)

    def __repr__(self):
        return "<Arr %s %s>" % (len(self.shape), self.dtype)

    def __array_ufunc__(self, *a, **k):
        raise Unsupported("real numpy ufunc on symbolic array")

    # ---- symbolic plumbing
    def subst(self, pairs):
        me = self.snapshot()
        return Arr([subst(s, pairs) if not isinstance(s, int) else s for s in me.shape],
                   lambda *idx: subst(me.elem(*idx), pairs), me.dtype)

    def snapshot(self):
        """immutable copy of the current contents"""
        o = self.owner()
        fn = o.fn
        fz = Arr(o.shape, fn, o.dtype)
        fz.memo = o.memo
        if self.base is None:
            return fz
        chain = []
        a = self
        while a.base is not None:
            chain.append(a.vmap)
            a = a.base

        def g(*idx):
            for vm in chain:
                idx = vm(*idx)
            return fz.elem(*idx)
        return Arr(self.shape, g, self.dtype)

    def merge_with(self, c, b):
        if not isinstance(b, Arr) or b.ndim != self.ndim:
            raise Unsupported("merge of arrays of different rank")
        a, b = self.snapshot(), b.snapshot()
        shp = []
        for x, y in zip(a.shape, b.shape):
            e = i_eq(x, y)
            shp.append(x if e is True else z3.If(c, iraw(x), iraw(y)))
        return Arr(shp, lambda *i: ite(c, a.elem(*i), b.elem(*i)), prom(a.dtype, b.dtype))

    def copy(self, *a, **k):
        me = self.snapshot()
        return Arr(me.shape, me.elem, me.dtype)

    def astype(self, d, **k):
        d = todt(d)
        me = self.snapshot()
        if d.kind == "f" and me.dtype.kind == "f" or d == me.dtype:
            return Arr(me.shape, me.elem, d)
        return Arr(me.shape, lambda *i: cast_scalar(me.elem(*i), d), d)

    def view(self, *a):
        if a:
            raise Unsupported("view as another type")
        return Arr(self.shape, None, self.dtype, base=self, vmap=lambda *i: i, inv=lambda *b: (True, b))

    def item(self):
        return self.elem(*[0] * self.ndim)

    def tolist(self):
        if self.ndim == 0:
            return self.elem()
        n = self.shape[0]
        if isinstance(n, int):
            return [self[i].tolist() if self.ndim > 1 else self[i] for i in range(n)]
        from .seq import Seq
        if self.ndim != 1:
            raise Unsupported("tolist of symbolic matrix")
        me = self.snapshot()
        return Seq(me.shape[0], lambda i: me.elem(i))

    # ---- shape manipulation
    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        nd = self.ndim
        if not axes:
            axes = tuple(reversed(range(nd)))
        inv = [axes.index(i) for i in range(nd)]
        return Arr([self.shape[a] for a in axes], None, self.dtype, base=self,
                   vmap=lambda *i: tuple(i[inv[d]] for d in range(nd)),
                   inv=lambda *b: (True, tuple(b[a] for a in axes)))

    def squeeze(self, axis=None):
        if axis is not None:
            drop = [axis % self.ndim] if isinstance(axis, int) else [a % self.ndim for a in axis]
        else:
            drop = []
            for d, s in enumerate(self.shape):
                e = pyc(i_eq(s, 1))
                if e is not True and e is not False:
                    e = E.decide(e)
                if e:
                    drop.append(d)
        keep = [d for d in range(self.ndim) if d not in drop]

        def vmap(*i):
            it = iter(i)
            return tuple(next(it) if d in keep else 0 for d in range(self.ndim))
        return Arr([self.shape[d] for d in keep], None, self.dtype, base=self, vmap=vmap,
                   inv=lambda *b: (True, tuple(b[d] for d in keep)))

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        shape = tuple(unS(s) for s in shape)
        return reshape(self, shape)

    def flatten(self, *a):
        if self.ndim == 1:
            return self.copy()
        return reshape(self.copy(), (-1,))

    def ravel(self, *a):
        if self.ndim == 1:
            return self
        return reshape(self, (-1,))

    # ---- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    # ---- arithmetic
    def _b(self, o, f, rev=False, dt=None):
        o = coerce(o)
        if o is None:
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        return ew(f, a, b, dt=dt)

    def _span(self, o):
        """the difference of two instants is a duration"""
        o = coerce(o)
        return TD8 if self.dtype.kind == "M" and o is not None and o.dtype.kind == "M" else None

    def __add__(self, o): return self._b(o, lambda a, b: a + b)
    def __radd__(self, o): return self._b(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._b(o, lambda a, b: a - b, dt=self._span(o))
    def __rsub__(self, o): return self._b(o, lambda a, b: a - b, True, dt=self._span(o))
    def __mul__(self, o): return self._b(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._b(o, lambda a, b: a * b, True)
    def __truediv__(self, o): return self._b(o, sdiv, dt=F8)
    def __rtruediv__(self, o): return self._b(o, sdiv, True, dt=F8)
    def __floordiv__(self, o): return self._b(o, sfloordiv)
    def __rfloordiv__(self, o): return self._b(o, sfloordiv, True)
    def __mod__(self, o): return self._b(o, lambda a, b: a % b)
    def __pow__(self, o): return self._b(o, lambda a, b: a ** b)
    def __neg__(self): return ew(lambda a: -a, self)
    def __pos__(self): return self.copy()
    def __abs__(self): return ew(abs, self)
    def __lt__(self, o): return self._b(o, lambda a, b: a < b, dt=B1)
    def __le__(self, o): return self._b(o, lambda a, b: a <= b, dt=B1)
    def __gt__(self, o): return self._b(o, lambda a, b: a > b, dt=B1)
    def __ge__(self, o): return self._b(o, lambda a, b: a >= b, dt=B1)
    def __eq__(self, o): return self._b(o, lambda a, b: a == b, dt=B1)
    def __ne__(self, o): return self._b(o, lambda a, b: a != b, dt=B1)
    def __and__(self, o): return self._b(o, lambda a, b: a & b)
    def __rand__(self, o): return self._b(o, lambda a, b: a & b, True)
    def __or__(self, o): return self._b(o, lambda a, b: a | b)
    def __ror__(self, o): return self._b(o, lambda a, b: a | b, True)

    def __invert__(self):
        if self.dtype.kind != "b":
            raise Unsupported("~ of non-boolean array")
        return ew(lambda a: (not a) if isinstance(a, bool) else ~a, self, dt=B1)

    def _i(self, o, f):
        o = coerce(o)
        if o is None:
            raise Unsupported("in-place operand")
        me = self.snapshot()
        r = ew(f, me, o)
        rs = r.snapshot()
        setitem(self, Ellipsis, rs)
        return self

    def __iadd__(self, o): return self._i(o, lambda a, b: a + b)
    def __isub__(self, o): return self._i(o, lambda a, b: a - b)
    def __imul__(self, o): return self._i(o, lambda a, b: a * b)
    def __itruediv__(self, o): return self._i(o, sdiv)
    def __iand__(self, o): return self._i(o, lambda a, b: a & b)
    def __ior__(self, o): return self._i(o, lambda a, b: a | b)

    # ---- reductions
    def sum(self, axis=None): return reduce_sum(self, axis)
    def mean(self, axis=None): return reduce_mean(self, axis)
    def min(self, axis=None): return reduce_minmax(self, axis, "min")
    def max(self, axis=None): return reduce_minmax(self, axis, "max")
    def any(self, axis=None): return reduce_any(self, axis)
    def all(self, axis=None): return reduce_all(self, axis)

    def fill(self, v):
        setitem(self, Ellipsis, v)


def scalar_arr(v):
    return Arr((), lambda: v, dt_of(v))


def coerce(o):
    if isinstance(o, Arr):
        return o
    if is_num(o) or isinstance(o, str):
        return scalar_arr(o)
    if hasattr(o, "to_arr"):
        return o.to_arr()
    if isinstance(o, (list, tuple)):
        return asarray(o)
    if isinstance(o, MaskedConst):
        return None
    if getattr(o, "vc_scalar", False):
        return Arr((), lambda: o, OBJ)
    return None


class MaskedConst:
    pass


def unwrap0(a):
    return a.elem() if isinstance(a, Arr) and a.ndim == 0 else a


def bshape(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for d in range(nd):
        cur = 1
        for s in shapes:
            j = d - (nd - len(s))
            if j < 0:
                continue
            x = s[j]
            if isinstance(x, int) and x == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = x
                continue
            e = pyc(i_eq(cur, x))
            if e is True:
                continue
            if e is False:
                raise ValueError("operands could not be broadcast together")
            if not E.valid(e):
                # one of them may be 1: numpy would broadcast; we ask for equality
                E.need("operands broadcast together (equal lengths)", e)
            if isinstance(x, int):
                cur = x
        out.append(cur)
    return tuple(out)


def bidx(idx, shape):
    """index of an operand of this shape for a broadcast index"""
    off = len(idx) - len(shape)
    return tuple(0 if (isinstance(s, int) and s == 1) else idx[off + d] for d, s in enumerate(shape))


def ew(f, *ops, dt=None):
    ops = [o.snapshot() if isinstance(o, Arr) else scalar_arr(o) for o in ops]
    shp = bshape([o.shape for o in ops])
    if dt is None:
        dt = ops[0].dtype
        for o in ops[1:]:
            dt = prom(dt, o.dtype)
    if not shp:
        return unwrap0_np(f(*[o.elem() for o in ops]))
    return Arr(shp, lambda *i: f(*[o.elem(*bidx(i, o.shape)) for o in ops]), dt)


def unwrap0_np(v):
    return v


def asarray(v, dtype=None):
    from .seq import Seq, TList
    if isinstance(v, Arr):
        return v if dtype is None or todt(dtype) == v.dtype else v.astype(dtype)
    if hasattr(v, "to_arr") and not isinstance(v, Seq):
        a = v.to_arr()
        return a if dtype is None else a.astype(dtype)
    if isinstance(v, TList):
        v = v.as_seq() if v.symbolic() else list(v.items())
    if isinstance(v, Seq):
        if v.oneshot:
            raise Unsupported("array of an iterator object")
        v = v.compact()
        a = stack_seq(v)
        return a if dtype is None else a.astype(dtype)
    if isinstance(v, (list, tuple)):
        if len(v) == 0:
            return Arr((0,), lambda i: Fraction(0), todt(dtype) if dtype else F8)
        parts = [asarray(x) if not is_num(x) and not isinstance(x, str) and not getattr(x, "vc_scalar", False)
                 else Arr((), (lambda x: lambda: x)(x), dt_of(x)) for x in v]
        a = stack(parts)
        return a if dtype is None else a.astype(dtype)
    if is_num(v) or isinstance(v, str):
        a = scalar_arr(v)
        return a if dtype is None else a.astype(dtype)
    if getattr(v, "vc_scalar", False):
        return Arr((), lambda: v, OBJ)
    raise Unsupported("asarray(%r)" % type(v))


def stack(parts, axis=0):
    parts = [p.snapshot() for p in parts]
    shp = parts[0].shape
    for p in parts[1:]:
        if p.ndim != len(shp):
            raise ValueError("inhomogeneous")
        for a, b in zip(shp, p.shape):
            if i_eq(a, b) is not True:
                E.need("stacked arrays have equal shapes", i_eq(a, b))
    dt = parts[0].dtype
    for p in parts[1:]:
        dt = prom(dt, p.dtype)
    nd = len(shp) + 1
    axis = axis % nd
    n = len(parts)

    def g(*i):
        j = i[axis]
        r = i[:axis] + i[axis + 1:]
        if isinstance(j, int):
            return parts[j].elem(*r)
        v = parts[-1].elem(*r)
        for q in range(n - 2, -1, -1):
            v = ite(j == q, parts[q].elem(*r), v)
        return v
    return Arr(shp[:axis] + (n,) + shp[axis:], g, dt)


def stack_seq(s):
    """Seq of scalars or arrays of a common shape -> array"""
    n = s.n
    v0 = s.at(z3.Int("probe!")) if not isinstance(n, int) else (s.at(0) if n > 0 else 0)
    if is_num(v0) or isinstance(v0, str) or getattr(v0, "vc_scalar", False):
        return Arr((n,), lambda i: s.at(i), dt_of(v0))
    if isinstance(v0, (tuple, list)):
        w = len(v0)
        a0 = asarray(v0)
    else:
        a0 = asarray(v0)
    shp = []
    for d, w in enumerate(a0.shape):
        if not isinstance(w, int):
            # one length for every element?
            def one(k):
                v = s.at(k)
                hints = []
                if hasattr(v, "group_of"):
                    g, x = v.group_of
                    hints = [g.pos(raw(x), 0), g.pos(raw(x), 1)]
                return E.valid(iraw(asarray(v).shape[d]) == 1, hints=hints)
            _, res = E.local(one, n)
            if not res or not all(x for _, x, _ in res):
                raise Unsupported("ragged sequence to array")
            w = 1
        shp.append(w)
    return Arr((n,) + tuple(shp), lambda i, *r: asarray(s.at(i)).elem(*r), a0.dtype)


def concat(parts, axis=0):
    parts = [asarray(p).snapshot() for p in parts]
    axis = axis % parts[0].ndim
    shp = list(parts[0].shape)
    offs = [0]
    for p in parts:
        offs.append(i_add(offs[-1], p.shape[axis]))
    for p in parts[1:]:
        for d in range(len(shp)):
            if d != axis and i_eq(shp[d], p.shape[d]) is not True:
                E.need("concatenated arrays have equal other dimensions", i_eq(shp[d], p.shape[d]))
    dt = parts[0].dtype
    for p in parts[1:]:
        dt = prom(dt, p.dtype)
    shp[axis] = offs[-1]

    def g(*i):
        j = i[axis]
        v = None
        for q in range(len(parts) - 1, -1, -1):
            jj = i_sub(j, offs[q])
            c = pyc(i_lt(j, offs[q + 1]))
            if q == len(parts) - 1:
                if isinstance(parts[q].shape[axis], int) and parts[q].shape[axis] == 0:
                    continue
                v = parts[q].elem(*(i[:axis] + (jj,) + i[axis + 1:]))
            else:
                if c is False or (isinstance(parts[q].shape[axis], int) and parts[q].shape[axis] == 0):
                    continue
                w = parts[q].elem(*(i[:axis] + (jj,) + i[axis + 1:]))
                v = w if v is None else ite(c, w, v)
        return v
    return Arr(shp, g, dt)


# ------------------------------------------------------------------ reshape
def prod(xs):
    r = 1
    for x in xs:
        r = i_mul(r, x)
    return r


def reshape(a, shape):
    shape = list(shape)
    if len(shape) == len(a.shape) and all((isinstance(x, int) and x == -1) or i_eq(x, y) is True
                                          for x, y in zip(shape, a.shape)) and shape.count(-1) <= 1:
        shp = [y if isinstance(x, int) and x == -1 else x for x, y in zip(shape, a.shape)]
        return Arr(shp, None, a.dtype, base=a, vmap=lambda *i: i, inv=lambda *b: (True, b))
    # drop/insert unit dimensions
    if all(isinstance(s, int) for s in a.shape):
        tot = prod(a.shape)
        if -1 in [s for s in shape if isinstance(s, int)]:
            k = shape.index(-1)
            other = prod([s for j, s in enumerate(shape) if j != k])
            if not isinstance(other, int):
                raise Unsupported("reshape")
            if other == 0 or tot % other:
                raise ValueError("cannot reshape")
            shape[k] = tot // other
        if not all(isinstance(s, int) for s in shape):
            for j, s in enumerate(shape):
                if not isinstance(s, int):
                    others = prod([t for q, t in enumerate(shape) if q != j])
                    if isinstance(others, int) and others and tot % others == 0:
                        E.need("reshape keeps the size", i_eq(s, tot // others))
                        shape[j] = tot // others
        if prod(shape) != tot:
            raise ValueError("cannot reshape")
        return _reshape_view(a, tuple(shape))
    nz = [s for s in a.shape if not (isinstance(s, int) and s == 1)]
    if len(shape) == 1 and isinstance(shape[0], int) and shape[0] == -1:
        return _reshape_view(a, (prod(a.shape),))
    if len(shape) == 1:
        p = prod(a.shape)
        E.need("reshape keeps the size", i_eq(p, shape[0]))
        return _reshape_view(a, (shape[0],))
    minus = [j for j, s in enumerate(shape) if isinstance(s, int) and s == -1]
    nzs = [s for s in shape if not (isinstance(s, int) and s == 1)]
    if len(nzs) == len(nz):
        out = []
        it = iter(nz)
        for s in shape:
            if isinstance(s, int) and s == 1:
                out.append(1)
            else:
                x = next(it)
                if not (isinstance(s, int) and s == -1) and i_eq(x, s) is not True:
                    E.need("reshape keeps the size", i_eq(x, s))
                out.append(x)
        src = [d for d, s in enumerate(a.shape) if not (isinstance(s, int) and s == 1)]
        dst = [d for d, s in enumerate(out) if not (isinstance(s, int) and s == 1)]

        def vmap(*i):
            r = [0] * a.ndim
            for x, y in zip(src, dst):
                r[x] = i[y]
            return tuple(r)

        def inv(*b):
            r = [0] * len(out)
            for x, y in zip(src, dst):
                r[y] = b[x]
            return True, tuple(r)
        return Arr(out, None, a.dtype, base=a, vmap=vmap, inv=inv)
    if minus:
        other = prod([s for j, s in enumerate(shape) if j != minus[0]])
        tot = prod(a.shape)
        # leading dimension is the unknown one and the trailing ones agree
        fresh = E.fresh("rdim")
        E.assume(iraw(i_mul(fresh, other)) == iraw(tot))
        E.assume(fresh >= 0)
        shape[minus[0]] = fresh
        return _reshape_view(a, tuple(shape))
    tot, tot2 = prod(a.shape), prod(shape)
    if i_eq(tot, tot2) is not True:
        E.need("reshape keeps the size", i_eq(tot, tot2))
    return _reshape_view(a, tuple(shape))


def _flatidx(idx, shape):
    r = 0
    for i, s in zip(idx, shape):
        r = i_add(i_mul(r, s), i)
    return r


def _unflat(p, shape):
    """row-major multi-index of flat position p"""
    out = []
    rest = p
    for d in range(len(shape) - 1, 0, -1):
        s = shape[d]
        if isinstance(s, int) and s == 1:
            out.append(0)
            continue
        q, r = divmod_idx(rest, s)
        out.append(r)
        rest = q
    out.append(rest)
    return tuple(reversed(out))


def divmod_idx(p, s):
    if isinstance(p, int) and isinstance(s, int):
        return divmod(p, s)
    if isinstance(s, int):
        return mk_i(iraw(p) / s), mk_i(iraw(p) % s)
    # symbolic width: abstract quotient/remainder, p = q*s + r, 0<=r<s
    tab = E.ghost.setdefault("divmod", {})
    p, s = z3.simplify(iraw(p)), z3.simplify(iraw(s))
    key = (s.get_id(),)
    if key not in tab:
        q = z3.Function(E.name("rowof"), z3.IntSort(), z3.IntSort())
        r = z3.Function(E.name("colof"), z3.IntSort(), z3.IntSort())
        flat = z3.Function(E.name("flatof"), z3.IntSort(), z3.IntSort(), z3.IntSort())
        x, y = z3.Ints("x! y!")
        if free_gen(s):
            raise Unsupported("row length depends on a bound index")
        E.axioms.append(z3.ForAll([x], z3.Implies(s > 0, z3.And(x == q(x) * s + r(x), 0 <= r(x), r(x) < s,
                                                                z3.Implies(x >= 0, q(x) >= 0),
                                                                flat(q(x), r(x)) == x)), patterns=[q(x)]))
        E.axioms.append(z3.ForAll([x], z3.Implies(s > 0, z3.And(0 <= r(x), r(x) < s)), patterns=[r(x)]))
        E.axioms.append(z3.ForAll([x, y], z3.Implies(z3.And(s > 0, y >= 0, y < s),
                                                     z3.And(q(flat(x, y)) == x, r(flat(x, y)) == y,
                                                            flat(x, y) == x * s + y)),
                                  patterns=[flat(x, y)]))
        tab[key] = (q, r, flat, s)
    q, r, flat, _ = tab[key]
    return q(p), r(p)


def flat_bounds(n, s):
    """positions of an n by s array in row-major order: 0 <= p < n*s just when the row is in 0..n"""
    if isinstance(s, int):
        return
    divmod_idx(z3.Int("z!"), s)
    s, n = z3.simplify(iraw(s)), z3.simplify(iraw(n))
    done = E.ghost.setdefault("flatbounds", set())
    if (n.get_id(), s.get_id()) in done or free_gen(n):
        return
    done.add((n.get_id(), s.get_id()))
    E.kept += [n, s]
    q, r, flat, _ = E.ghost["divmod"][(s.get_id(),)]
    x, y = z3.Ints("x! y!")
    tot = iraw(i_mul(n, s))
    E.axioms.append(z3.ForAll([x], z3.Implies(z3.And(s > 0, x >= 0, x < tot), z3.And(q(x) >= 0, q(x) < n)), patterns=[q(x)]))
    E.axioms.append(z3.ForAll([x, y], z3.Implies(z3.And(x >= 0, x < n, y >= 0, y < s), z3.And(flat(x, y) >= 0, flat(x, y) < tot)),
                              patterns=[flat(x, y)]))
    E.axioms.append(z3.Implies(s > 0, z3.And(q(0) == 0, r(0) == 0)))
    E.axioms.append(z3.Implies(z3.Or(s <= 0, n <= 0), z3.Implies(z3.And(s >= 0, n >= 0), tot <= 0)))


def free_gen(t):
    from .theory import free_consts
    return any(i in E.genvars for i in free_consts(t))


def mk_i(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else t


def flat_of(idx, shape):
    """flat position, using the abstract flat function for symbolic widths"""
    r = idx[0]
    for d in range(1, len(shape)):
        s = shape[d]
        if isinstance(s, int):
            r = i_add(i_mul(r, s), idx[d])
        else:
            divmod_idx(z3.Int("z!"), s)
            s2 = z3.simplify(iraw(s))
            f = E.ghost["divmod"][(s2.get_id(),)][2]
            r = f(iraw(r), iraw(idx[d]))
    return r


def _reshape_view(a, shape):
    src = a.shape
    # trailing dimensions that stay as they are
    t = 0
    while t < min(len(src), len(shape)) - 1 and i_eq(src[-1 - t], shape[-1 - t]) is True:
        t += 1
    if t:
        ls, ld = src[:len(src) - t], shape[:len(shape) - t]
        lead = Arr(ls, None, a.dtype, base=None)
        v = _reshape_view(lead, ld)
        return Arr(shape, None, a.dtype, base=a,
                   vmap=lambda *i: tuple(v.vmap(*i[:len(ld)])) + tuple(i[len(ld):]),
                   inv=lambda *b: (True, tuple(v.inv(*b[:len(ls)])[1]) + tuple(b[len(ls):])))
    for shp in (src, shape):
        if len(shp) == 2:
            flat_bounds(*shp)

    def vmap(*i):
        return _unflat(flat_of(i, shape) if len(shape) > 1 else i[0], src) if len(src) > 1 else (
            (flat_of(i, shape) if len(shape) > 1 else i[0]),)

    def inv(*b):
        p = flat_of(b, src) if len(src) > 1 else b[0]
        return True, (_unflat(p, shape) if len(shape) > 1 else (p,))
    return Arr(shape, None, a.dtype, base=a, vmap=vmap, inv=inv)


# ------------------------------------------------------------------ indexing
def norm_slice(sl, n):
    """slice over an axis of length n -> (start, length, step)"""
    step = 1 if sl.step is None else unS(sl.step)
    if isinstance(step, Fraction):
        raise TypeError("slice indices must be integers")
    if not isinstance(step, int):
        raise Unsupported("symbolic slice step")

    def bound(v, default):
        if v is None:
            return default
        v = unS(v)
        if isinstance(v, Arr):
            v = unS(v.elem())
        if isinstance(v, Fraction):
            raise TypeError("slice indices must be integers")
        if isinstance(v, int) and isinstance(n, int):
            if v < 0:
                v += n
            return max(0, min(v, n))
        if isinstance(v, int) and v < 0:
            t = i_add(n, v)
            return t if E.valid(iraw(t) >= 0) else z3.If(iraw(t) >= 0, iraw(t), 0)
        t = iraw(v)
        if isinstance(v, z3.ExprRef) and not z3.is_int(v):
            raise Unsupported("non-integer slice bound")
        if not (isinstance(v, int) or E.valid(t >= 0)):
            t = z3.If(t >= 0, t, z3.If(t + iraw(n) >= 0, t + iraw(n), 0))
        if E.valid(t <= iraw(n)):
            return unS(mk(t)) if not isinstance(v, int) else v
        return z3.If(t <= iraw(n), t, iraw(n))
    if step > 0:
        a = bound(sl.start, 0)
        b = bound(sl.stop, n)
        if step == 1:
            if isinstance(a, int) and isinstance(b, int):
                return a, max(0, b - a), 1
            d = i_sub(b, a)
            if not E.valid(iraw(d) >= 0):
                d = z3.If(iraw(d) >= 0, iraw(d), 0)
            return a, d, 1
        if isinstance(a, int) and isinstance(b, int):
            return a, max(0, (b - a + step - 1) // step), step
        d = i_sub(b, a)
        ln = (iraw(d) + (step - 1)) / step
        if not E.valid(iraw(d) >= 0):
            ln = z3.If(iraw(d) >= 0, ln, 0)
        return a, unS(mk(z3.simplify(ln))), step
    if step == -1 and sl.start is None and sl.stop is None:
        return i_sub(n, 1), n, -1
    if isinstance(n, int):
        st, sp, se = slice(sl.start, sl.stop, step).indices(n)
        return st, len(range(st, sp, se)), se
    raise Unsupported("slice with negative step")


def norm_int(i, n, what="index"):
    i = unS(i)
    if isinstance(i, Arr):
        i = unS(i.elem())
    if isinstance(i, Fraction):
        raise IndexError("non-integer index")
    if isinstance(i, int) and isinstance(n, int):
        if i < -n or i >= n:
            raise IndexError("%s out of bounds" % what)
        return i + n if i < 0 else i
    t = iraw(i)
    if not z3.is_int(t):
        raise IndexError("non-integer index")
    ok = c_and(iraw(0) - iraw(n) <= t, t < iraw(n))
    c = pyc(ok)
    if c is False:
        raise IndexError("%s out of bounds" % what)
    if isinstance(i, int):
        if i >= 0:
            need_ix(iraw(n) > i, what)
            return i
        need_ix(iraw(n) >= -i, what)
        return i_add(n, i)
    if E.valid(t >= 0, 500):
        need_ix(t < iraw(n), what)
        return i
    need_ix(z3.And(t < iraw(n), t >= -iraw(n)), what)
    return z3.If(t < 0, t + iraw(n), t)


def need_ix(c, what):
    if E.valid(c, 1000):
        return
    E.need("array %s in bounds" % what, c)


def is_boolarr(k):
    return isinstance(k, Arr) and k.dtype.kind == "b"


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    out = []
    nd = 0
    from .seq import Seq, TList
    for k in key:
        if isinstance(k, TList) or isinstance(k, Seq) or isinstance(k, list):
            k = asarray(k)
            if k.ndim == 1 and isinstance(k.shape[0], int) and k.shape[0] == 0:
                k = Arr(k.shape, k.fn, I8)
        elif hasattr(k, "to_arr"):
            k = k.to_arr()
        if isinstance(k, Arr) and k.ndim == 0 and k.dtype.kind != "b":
            k = k.elem()
        out.append(k)
        if k is Ellipsis or k is None:
            continue
        nd += k.ndim if is_boolarr(k) else 1
    res = []
    for k in out:
        if k is Ellipsis:
            res += [slice(None)] * (a.ndim - nd)
        else:
            res.append(k)
    if Ellipsis not in [k for k in out if not isinstance(k, Arr)]:
        res += [slice(None)] * (a.ndim - nd)
    if nd > a.ndim:
        raise IndexError("too many indices for array")
    return res


def getitem(a, key):
    if isinstance(key, str):
        raise IndexError("only integers, slices...")
    ks = expand_key(a, key)
    if any(isinstance(k, Arr) for k in ks):
        return fancy_get(a, ks)
    v = basic_view(a, ks)
    if v.ndim == 0:
        return v.elem()
    return v


def basic_view(a, ks):
    dims = []       # per output axis: ('s', axis, start, step) or ('n',)
    fixed = {}
    shp = []
    ax = 0
    for k in ks:
        if k is None:
            dims.append(None)
            shp.append(1)
            continue
        n = a.shape[ax]
        if isinstance(k, slice):
            st, ln, step = norm_slice(k, n)
            dims.append((ax, st, step))
            shp.append(ln)
        elif is_num(k):
            fixed[ax] = norm_int(k, n)
        else:
            raise Unsupported("index %r" % type(k))
        ax += 1
    nd = a.ndim

    def vmap(*i):
        r = [None] * nd
        for x, v in fixed.items():
            r[x] = v
        for j, d in zip(i, dims):
            if d is not None:
                x, st, step = d
                r[x] = i_add(st, i_mul(step, j))
        return tuple(r)

    def inv(*b):
        cs = [i_eq(b[x], v) for x, v in fixed.items()]
        out = []
        for d, ln in zip(dims, shp):
            if d is None:
                out.append(0)
                continue
            x, st, step = d
            off = i_sub(b[x], st)
            if step == 1:
                j = off
                full = isinstance(st, int) and st == 0 and i_eq(ln, a.shape[x]) is True
                if not full:
                    cs += [i_le(0, j), i_lt(j, ln)]
            elif step == -1:
                j = i_sub(st, b[x])
                cs += [i_le(0, j), i_lt(j, ln)]
            else:
                if isinstance(off, int):
                    cs.append(off % step == 0)
                    j = off // step
                else:
                    cs.append(off % step == 0)
                    j = mk_i(off / step)
                cs += [i_le(0, j), i_lt(j, ln)]
            out.append(j)
        return c_and(*cs), tuple(out)
    return Arr(shp, None, a.dtype, base=a, vmap=vmap, inv=inv)


def compress(mask):
    """Positions of the true elements of a boolean array, in row-major order.

    Returns (m, pos, rank): pos(p) is the multi-index of the p-th true element."""
    mask = mask.snapshot()
    nd = mask.ndim
    n = prod(mask.shape)
    if isinstance(n, int) and n <= 64:
        import itertools
        vals = [mask.elem(*i) for i in itertools.product(*[range(s) for s in mask.shape])]
        if all(isinstance(v, bool) for v in vals):
            idx = [i for i, v in zip(itertools.product(*[range(s) for s in mask.shape]), vals) if v]
            pos = lambda p: idx[p] if isinstance(p, int) else _sel_tuple(idx, p)
            return len(idx), pos, None
        # decide each element
    ks = [z3.Int("maskk!%d" % d) for d in range(nd)]
    body = z3.simplify(raw(mask.elem(*ks)))
    if z3.is_true(body) and nd == 1:
        return mask.shape[0], (lambda p: (p,)), (lambda p: p)
    key = tuple(iraw(s).get_id() for s in mask.shape) + (body.get_id(),)
    tab = E.ghost.setdefault("compress", {})
    if key in tab:
        return tab[key][:3]
    for k2, t2 in tab.items():
        if k2[:-1] == key[:-1] and _same_cond(body, t2[3]):
            tab[key] = t2
            return t2[:3]
    m = E.fresh("cnt")
    posf = [E.fresh_fun("pos%d" % d, ["Int"], "Int") for d in range(nd)]
    rank = E.fresh_fun("rank", ["Int"] * nd, "Int")
    p, q = z3.Ints("p! q!")
    at = lambda *i: z3.substitute(body, *zip(ks, [iraw(x) for x in i]))
    pi = [f(p) for f in posf]
    inr = z3.And(*[z3.And(x >= 0, x < iraw(s)) for x, s in zip(pi, mask.shape)])
    E.assume(z3.And(m >= 0, m <= iraw(n)) if nd == 1 else m >= 0)
    E.assume(z3.Implies(z3.And(p >= 0, p < m), z3.And(inr, at(*pi), rank(*pi) == p)), pats=[pi[0]], qvars=[p])
    js = [z3.Int("j!%d" % d) for d in range(nd)]
    jin = z3.And(*[z3.And(x >= 0, x < iraw(s)) for x, s in zip(js, mask.shape)])
    E.assume(z3.Implies(z3.And(jin, at(*js)),
                        z3.And(rank(*js) >= 0, rank(*js) < m, *[f(rank(*js)) == x for f, x in zip(posf, js)])),
             pats=[rank(*js)], qvars=js)
    # order
    if nd == 1:
        E.assume(z3.Implies(z3.And(p >= 0, p < q, q < m), posf[0](p) < posf[0](q)),
                 pats=[z3.MultiPattern(posf[0](p), posf[0](q))], qvars=[p, q])
        hintpat = None
    from .theory import mksum
    if nd == 1:
        tot = mksum(mask.shape[0], lambda k: ite(at(k), 1, 0))
        E.assume(m == raw(tot))
    rdecl = rank.decl.name()

    def pos(x):
        # pos(rank(i)) is i wherever i is selected; rank is only ever used under that condition
        if isinstance(x, z3.ExprRef) and z3.is_app(x) and x.num_args() and x.decl().name() == rdecl:
            return tuple(x.children()[-nd:])
        return tuple(f(x) for f in posf)
    E.ghost.setdefault("ranks", []).append((rank, nd, at, mask.shape, m, posf))
    E.assumed["boolean-mask selection"] = "row-major positions of the true elements"
    tab[key] = (m, pos, rank, body, mask)
    return m, pos, rank


def _same_cond(a, b):
    """the same condition by propositional and arithmetic reasoning alone"""
    if z3.is_quantifier(a) or z3.is_quantifier(b):
        return False
    s = z3.Solver()
    s.set("timeout", 200)
    s.add(a != b)
    return s.check() == z3.unsat


def _sel_tuple(idx, p):
    r = []
    for d in range(len(idx[0]) if idx else 0):
        v = idx[-1][d]
        for q in range(len(idx) - 2, -1, -1):
            v = z3.If(iraw(p) == q, iraw(idx[q][d]), iraw(v))
        r.append(v)
    return tuple(r)


def index_map(a, ks):
    """Advanced indexing -> (shape, vmap)."""
    # expand boolean arrays
    parts = []
    ax = 0
    for k in ks:
        if k is None:
            raise Unsupported("newaxis with index arrays")
        if is_boolarr(k):
            for d in range(k.ndim):
                e = i_eq(k.shape[d], a.shape[ax + d])
                if e is not True:
                    E.need("boolean index has the length of the array", e)
            m, pos, rank = compress(k)
            for d in range(k.ndim):
                parts.append((ax + d, Arr((m,), (lambda d: lambda p: mk(pos(p)[d]) if not isinstance(pos(p)[d], int) else pos(p)[d])(d), I8), True))
            ax += k.ndim
        elif isinstance(k, Arr):
            if k.dtype.kind not in "iu":
                if all(isinstance(s, int) and s == 0 for s in k.shape):
                    pass
                else:
                    raise IndexError("arrays used as indices must be of integer (or boolean) type")
            parts.append((ax, k.snapshot(), False))
            ax += 1
        elif isinstance(k, slice):
            parts.append((ax, norm_slice(k, a.shape[ax]), None))
            ax += 1
        else:
            parts.append((ax, norm_int(k, a.shape[ax]), "int"))
            ax += 1
    arrs = [p for p in parts if p[2] in (True, False)]
    bs = bshape([p[1].shape for p in arrs])
    advpos = [j for j, p in enumerate(parts) if p[2] is not None]
    contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
    shp = []
    slots = []     # (axis, start, step, outdim)
    first = None
    if not contiguous:
        shp += list(bs)
        first = 0
    for j, p in enumerate(parts):
        if p[2] is None:
            st, ln, step = p[1]
            slots.append((p[0], st, step, len(shp)))
            shp.append(ln)
        elif first is None:
            first = len(shp)
            shp += list(bs)
    nb = len(bs)
    # bounds
    for ax_, arr_, isb in arrs:
        if isb:
            continue
        n = a.shape[ax_]
        kk = [E_local_index(d, s) for d, s in enumerate(arr_.shape)]
        check_bounds(arr_, n)

    def vmap(*i):
        r = [None] * a.ndim
        b = i[first:first + nb]
        for ax_, v, kind in parts:
            if kind in (True, False):
                x = v.elem(*bidx(b, v.shape))
                x = unS(x)
                if kind is False and not isinstance(x, int):
                    if not getattr(v, "_nonneg", False):
                        x = z3.If(x < 0, x + iraw(a.shape[ax_]), x)
                elif kind is False and x < 0:
                    x = i_add(a.shape[ax_], x)
                r[ax_] = x
            elif kind == "int":
                r[ax_] = v
        for ax_, st, step, od in slots:
            r[ax_] = i_add(st, i_mul(step, i[od]))
        return tuple(r)
    return shp, vmap, parts, (first, nb, slots)


def E_local_index(d, s):
    return None


def check_bounds(arr, n):
    """index array elements lie in [-n, n); remember when they are known non-negative"""
    shp = arr.shape
    if all(isinstance(s, int) for s in shp) and prod(shp) <= 64:
        import itertools
        ok = True
        for i in itertools.product(*[range(s) for s in shp]):
            v = norm_int(arr.elem(*i), n)
            x = unS(arr.elem(*i))
            if isinstance(x, int):
                ok = ok and x >= 0
            else:
                ok = ok and E.valid(x >= 0, 500)
        arr._nonneg = ok
        return
    ks = [z3.Int(E.name("ix")) for _ in shp]
    rng = z3.And(*[z3.And(k >= 0, k < iraw(s)) for k, s in zip(ks, shp)])
    x = raw(arr.elem(*ks))
    if E.valid(z3.Implies(rng, x >= 0), 1500):
        arr._nonneg = True
        g = z3.Implies(rng, x < iraw(n))
    else:
        g = z3.Implies(rng, z3.And(x < iraw(n), x >= -iraw(n)))
    if not E.valid(g, 1500):
        E.prove("array index in bounds", g, kind="definedness")


def fancy_get(a, ks):
    shp, vmap, parts, _ = index_map(a, ks)
    me = a.snapshot()
    r = Arr(shp, lambda *i: me.elem(*vmap(*i)), a.dtype)
    r.src_map = vmap
    return r


def setitem(a, key, val):
    ks = expand_key(a, key)
    if not any(isinstance(k, Arr) for k in ks):
        v = basic_view(a, ks)
        assign_view(v, val)
        return
    # single boolean mask covering leading axes, or index arrays
    if len([k for k in ks if isinstance(k, Arr)]) == 1 and any(is_boolarr(k) for k in ks):
        j = [i for i, k in enumerate(ks) if is_boolarr(k)][0]
        mask = ks[j]
        if mask.ndim == a.ndim:
            for x, y in zip(mask.shape, a.shape):
                e = i_eq(x, y)
                if e is not True:
                    E.need("boolean index has the length of the array", e)
            mask = mask.snapshot()
            vv = val_arr(val)
            if vv.ndim == 0:
                x = vv.elem()
                a.update(lambda *i: (pyc(raw(mask.elem(*i))) if not isinstance(mask.elem(*i), bool) else mask.elem(*i),
                                     lambda: x))
                return
            m, pos, rank = compress(mask)
            if rank is None:
                raise Unsupported("masked assignment on constant mask")
            if vv.ndim == 1:
                if not (isinstance(vv.shape[0], int) and vv.shape[0] == 1):
                    e = i_eq(vv.shape[0], m)
                    if e is not True:
                        E.need("assigned values match the number of selected elements", e)
                one = isinstance(vv.shape[0], int) and vv.shape[0] == 1
                a.update(lambda *i: (raw(mask.elem(*i)), lambda: vv.elem(0 if one else rank(*[iraw(x) for x in i]))))
                return
        raise Unsupported("masked assignment")
    shp, vmap, parts, (first, nb, slots) = index_map(a, ks)
    scatter(a, shp, vmap, parts, first, nb, slots, val)


def scatter(a, shp, vmap, parts, first, nb, slots, val):
    """a[idx arrays] = val; the last write to a position wins."""
    if nb != 1:
        raise Unsupported("scatter with index arrays of rank %d" % nb)
    vv = val_arr(val)
    arrs = [(p[0], p[1]) for p in parts if p[2] in (True, False)]
    ints = [(p[0], p[1]) for p in parts if p[2] == "int"]
    m = shp[first]
    a_shape = a.shape
    sidx = {s[0]: (s[1], s[2], s[3]) for s in slots}
    full = all(isinstance(st, int) and st == 0 and step == 1 for (st, step, od) in sidx.values())
    if not full:
        raise Unsupported("scatter with partial slices")

    def ax_idx(ax, arr, p):
        x = unS(arr.elem(*bidx((p,), arr.shape)))
        if not isinstance(x, int) and not getattr(arr, "_nonneg", False) and not arr.__dict__.get("_isb"):
            x = z3.If(x < 0, x + iraw(a_shape[ax]), x)
        return x
    if isinstance(m, int) and m <= 64:
        for p in range(m):
            def f(*i, p=p):
                cs = [i_eq(i[ax], ax_idx(ax, arr, p)) for ax, arr in arrs] + [i_eq(i[ax], v) for ax, v in ints]
                oi = [0] * len(shp)
                oi[first] = p
                for ax, (st, step, od) in sidx.items():
                    oi[od] = i[ax]
                return c_and(*cs), lambda: vv.elem(*bidx(tuple(oi), vv.shape))
            a.update(f)
        return
    # symbolic number of writes: last writer function over the target indices
    axes = [ax for ax, _ in arrs]
    hit = E.fresh_fun("hit", ["Int"] * len(axes), "Bool")
    last = E.fresh_fun("last", ["Int"] * len(axes), "Int")
    p = z3.Int("p!")
    mt = iraw(m)
    ix = [iraw(ax_idx(ax, arr, p)) for ax, arr in arrs]
    trig = [t for t in ix if not z3.is_int_value(t)]
    E.assume(z3.Implies(z3.And(p >= 0, p < mt), z3.And(hit(*ix), last(*ix) >= p)), pats=None, qvars=[p])
    js = [z3.Int("j!%d" % d) for d in range(len(axes))]
    lx = [iraw(ax_idx(ax, arr, last(*js))) for ax, arr in arrs]
    E.assume(z3.Implies(hit(*js), z3.And(last(*js) >= 0, last(*js) < mt, *[x == j for x, j in zip(lx, js)])),
             pats=[hit(*js)], qvars=js)

    def f(*i):
        t = [iraw(i[ax]) for ax in axes]
        cs = [hit(*t)] + [i_eq(i[ax], v) for ax, v in ints]

        def th():
            oi = [0] * len(shp)
            oi[first] = last(*t)
            for ax, (st, step, od) in sidx.items():
                oi[od] = i[ax]
            return vv.elem(*bidx(tuple(oi), vv.shape))
        return c_and(*cs), th
    E.assumed["indexed assignment"] = "last write to a position wins"
    a.update(f)


def val_arr(val):
    v = coerce(val)
    if v is None:
        if val is None or isinstance(val, MaskedConst):
            raise Unsupported("assignment of %r" % (val,))
        v = asarray(val)
    return v.snapshot()


def assign_view(view, val):
    v = val_arr(val)
    # leading unit dims of v dropped
    while v.ndim > view.ndim and isinstance(v.shape[0], int) and v.shape[0] == 1:
        v = basic_view(v, [0] + [slice(None)] * (v.ndim - 1)).snapshot()
    if v.ndim > view.ndim:
        raise ValueError("could not broadcast input array")
    off = view.ndim - v.ndim
    for d, s in enumerate(v.shape):
        t = view.shape[off + d]
        if isinstance(s, int) and s == 1:
            continue
        e = pyc(i_eq(s, t))
        if e is True:
            continue
        if e is False:
            raise ValueError("could not broadcast input array")
        if not E.valid(e):
            E.need("assigned array has the shape of its target", e)
    view.update(lambda *i: (True, lambda: v.elem(*bidx(i, v.shape))))


# ------------------------------------------------------------------ reductions
def _axis_split(a, axis):
    if axis is None:
        return None
    return axis % a.ndim


def reduce_sum(a, axis=None):
    from .theory import mksum
    me = a.snapshot()
    if axis is None:
        def rec(d, idx):
            if d == me.ndim:
                v = me.elem(*idx)
                if isinstance(v, S) and z3.is_bool(v.t):
                    v = mk(num(v))
                return v if not isinstance(v, bool) else int(v)
            if d < me.ndim - 1 and not isinstance(me.shape[d], int):
                if not isinstance(me.shape[d + 1], int) or True:
                    if d + 1 <= me.ndim - 1:
                        raise Unsupported("sum over several symbolic axes")
            return mksum(me.shape[d], lambda k: rec(d + 1, idx + (k,)))
        syms = [s for s in me.shape if not isinstance(s, int)]
        if len(syms) > 1:
            raise Unsupported("sum over several symbolic axes")
        if len(syms) == 1 and me.ndim > 1:
            d0 = [d for d, s in enumerate(me.shape) if not isinstance(s, int)][0]
            import itertools

            def at(k):
                r = 0
                for o in itertools.product(*[range(s) if d != d0 else (None,) for d, s in enumerate(me.shape)]):
                    r = r + me.elem(*[k if d == d0 else x for d, x in enumerate(o)])
                return r
            return mksum(me.shape[d0], at)
        return rec(0, ())
    ax = axis % me.ndim
    shp = me.shape[:ax] + me.shape[ax + 1:]
    f = lambda *i: mksum(me.shape[ax], lambda k: _bnum(me.elem(*(i[:ax] + (k,) + i[ax:]))))
    if not shp:
        return f()
    return Arr(shp, f, I8 if me.dtype.kind in "biu" else me.dtype)


def _bnum(v):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, S) and z3.is_bool(v.t):
        return mk(num(v))
    return v


def reduce_mean(a, axis=None):
    if axis is None and a.ndim == 1 and not isinstance(a.shape[0], int) and E.valid(iraw(a.shape[0]) > 0):
        k = z3.Int("meank!")
        v = a.elem(k)
        from .theory import free_consts
        if is_num(v) and (not isinstance(v, S) or (v.nan is None and k.get_id() not in free_consts(v.t))):
            return mk(to_real(v)) if isinstance(v, S) else Fraction(v)       # the same value everywhere
    n = a.size if axis is None else a.shape[axis % a.ndim]
    s = reduce_sum(a, axis)
    n = mk(n) if isinstance(n, z3.ExprRef) else n
    return s / n if isinstance(s, Arr) else sdiv(s, n)


def reduce_minmax(a, axis, which):
    me = a.snapshot()
    if axis is not None and me.ndim > 1:
        ax = axis % me.ndim
        n = me.shape[ax]
        shp = me.shape[:ax] + me.shape[ax + 1:]
        if isinstance(n, int):
            def f(*i):
                v = me.elem(*(i[:ax] + (0,) + i[ax:]))
                for k in range(1, n):
                    w = me.elem(*(i[:ax] + (k,) + i[ax:]))
                    v = smin(v, w) if which == "min" else smax(v, w)
                return v
            return Arr(shp, f, me.dtype)
        if me.ndim == 2 and isinstance(me.shape[1 - ax], int) and me.shape[1 - ax] <= 8:
            return stack([scalar_arr(reduce_minmax(me[(slice(None), j) if ax == 0 else (j, slice(None))], None, which))
                          for j in range(me.shape[1 - ax])])
        raise Unsupported("%s over a symbolic axis" % which)
    n = prod(me.shape)
    if isinstance(n, int):
        if n == 0:
            raise ValueError("zero-size array to reduction operation %simum which has no identity" % which)
        import itertools
        v = None
        for i in itertools.product(*[range(s) for s in me.shape]):
            w = me.elem(*i)
            v = w if v is None else (smin(v, w) if which == "min" else smax(v, w))
        return v
    for s in me.shape:
        if not isinstance(s, int) and E.decide(iraw(s) <= 0):
            raise ValueError("zero-size array to reduction operation %simum which has no identity" % which)
    ks = [z3.Int("mmk!%d" % d) for d in range(me.ndim)]
    v = me.elem(*ks)
    if nan_of(v) is not False:
        raise Unsupported("min/max of possibly-NaN values")
    body = z3.simplify(num(v))
    key = (which,) + tuple(iraw(s).get_id() for s in me.shape) + (body.get_id(),)
    tab = E.ghost.setdefault("minmax", {})
    if key in tab:
        return mk(tab[key][0])
    m = E.fresh(which, body.sort())
    arg = [E.fresh("arg" + which) for _ in ks]
    at = lambda i: z3.substitute(body, *zip(ks, i))
    E.assume(z3.And(*[z3.And(x >= 0, x < iraw(s)) for x, s in zip(arg, me.shape)]))
    E.assume(m == at(arg))
    inr = z3.And(*[z3.And(x >= 0, x < iraw(s)) for x, s in zip(ks, me.shape)])
    E.assume(z3.Implies(inr, m <= body if which == "min" else m >= body), qvars=ks)
    E.assumed["min/max reduction"] = "bound attained by an element"
    tab[key] = (m, me, body)
    return mk(m)


def smin(a, b):
    return ite(raw(a <= b) if isinstance(a <= b, S) else (a <= b), a, b)


def smax(a, b):
    return ite(raw(a >= b) if isinstance(a >= b, S) else (a >= b), a, b)


def reduce_any(a, axis=None):
    me = a.snapshot()
    if axis is not None and me.ndim > 1:
        raise Unsupported("any over an axis")
    n = prod(me.shape)
    if isinstance(n, int) and n <= 64:
        import itertools
        r = False
        for i in itertools.product(*[range(s) for s in me.shape]):
            r = c_or(r, _tobool(me.elem(*i)))
        return mk(raw(r))
    ks = [z3.Int("anyk!%d" % d) for d in range(me.ndim)]
    body = raw(_tobool(me.elem(*ks)))
    b = E.fresh("any", "Bool")
    w = [E.fresh("anyw") for _ in ks]
    inr = lambda i: z3.And(*[z3.And(x >= 0, x < iraw(s)) for x, s in zip(i, me.shape)])
    E.assume(z3.Implies(b, z3.And(inr(w), z3.substitute(body, *zip(ks, w)))))
    E.assume(z3.Implies(z3.And(inr(ks), body), b), qvars=ks)
    return mk(b)


def _tobool(v):
    if isinstance(v, S):
        return v.t if z3.is_bool(v.t) else v.t != 0
    return bool(v)


def reduce_all(a, axis=None):
    r = reduce_any(ew(lambda v: mk(raw(c_not(_tobool(v)))), a, dt=B1), axis)
    return mk(raw(c_not(r)))


# ------------------------------------------------------------------ record arrays
class RecDT:
    """a dtype with named fields"""
    vc_rec = True

    def __init__(self, spec):
        self.fields_ = []
        for f in spec:
            f = list(f)
            if not isinstance(f[0], str):
                raise Unsupported("record field name")
            sub = () if len(f) < 3 else ((f[2],) if isinstance(f[2], int) else tuple(f[2]))
            self.fields_.append((f[0], todt(f[1]), sub))
        self.names = tuple(f[0] for f in self.fields_)

    def make(self, shape, zero=False):
        """unset contents (or zeros)"""
        cols = {}
        for nm, dt, sub in self.fields_:
            if zero:
                z = Fraction(0) if dt.kind == "f" else (False if dt.kind == "b" else 0)
                cols[nm] = Arr(tuple(shape) + sub, (lambda z: lambda *i: z)(z), dt)
                continue
            f = E.fresh_fun("empty_" + nm, ["Int"] * (len(shape) + len(sub)),
                            "Real" if dt.kind == "f" else ("Bool" if dt.kind == "b" else "Int"))
            cols[nm] = Arr(tuple(shape) + sub, (lambda f: lambda *i: mk(f(*i)))(f), dt)
        return RecArr(tuple(shape), cols, self)

    def from_rows(self, xs):
        n = len(xs) if isinstance(xs, list) else xs.n
        from .seq import _pick
        at = (lambda i: _pick(xs, i)) if isinstance(xs, list) else xs.at
        cols = {}
        for j, (nm, dt, sub) in enumerate(self.fields_):
            def f(i, *r, j=j, dt=dt, sub=sub):
                row = at(i)
                if len(row) != len(self.fields_):
                    raise ValueError("could not assign tuple of length %d to structure with %d fields."
                                     % (len(row), len(self.fields_)))
                v = row[j]
                if not sub:
                    return cast_scalar(v.item() if isinstance(v, Arr) else v, dt)
                a = asarray(v)
                if a.ndim != len(sub) or any(pyc(i_eq(p, q)) is not True for p, q in zip(a.shape, sub)):
                    raise Unsupported("record field of shape %s from %s" % (sub, a.shape))
                return cast_scalar(a.elem(*r), dt)
            cols[nm] = Arr((n,) + sub, f, dt)
            if not (isinstance(n, int) and n == 0):
                cols[nm].elem(z3.Int("recprobe!"), *[0] * len(sub))
        return RecArr((n,), cols, self)


class RecArr:
    def __init__(self, shape, cols, dtype):
        self.shape, self.cols, self.dtype = shape, cols, dtype

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise ValueError("no field of name %s" % k)
            return self.cols[k]
        cols = {nm: a[k] for nm, a in self.cols.items()}
        if is_num(k) and not isinstance(k, bool):
            raise Unsupported("one record of a record array")
        first = self.dtype.fields_[0]
        nd = cols[first[0]].ndim - len(first[2])
        return RecArr(cols[first[0]].shape[:nd], cols, self.dtype)

    def __setitem__(self, k, v):
        if not isinstance(k, str):
            raise Unsupported("assignment to records")
        self.cols[k][...] = v

    @property
    def size(self):
        r = prod(self.shape)
        return r if isinstance(r, int) else mk(r)

    ndim = property(lambda self: len(self.shape))

    def vc_len(self):
        return self.shape[0]

    def copy(self):
        return RecArr(self.shape, {k: a.copy() for k, a in self.cols.items()}, self.dtype)

    def subst(self, pairs):
        shp = tuple(s if isinstance(s, int) else subst(s, pairs) for s in self.shape)
        return RecArr(shp, {k: subst(a, pairs) for k, a in self.cols.items()}, self.dtype)
