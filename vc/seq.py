"""Sequences of symbolic length, loops over them, and the rewritten-source run time."""
import builtins
import copy
import itertools as _it
from fractions import Fraction
import z3
from . import core
from .core import (S, E, Unsupported, Infeasible, mk, raw, iraw, unS, is_num, ite, c_and, c_or, c_not, pyc,
                   i_eq, i_lt, i_le, i_add, i_sub, i_mul, subst, merge2, sdiv, strunc, zand, num, nan_of)


class Seq:
    """at(0..n-1); where guard is given only the elements with guard(i) are present."""
    oneshot = spent = False

    def __init__(self, n, at, guard=None):
        self.n = unS(n)
        self._at = at
        self.guard = guard
        self.memo = {}
        self.nested = None        # (outer Seq, outer index fn, inner index fn, flat fn)
        self.pair = None          # (outer index fn, inner index fn, flat fn) where elements come from a concatenation

    def at(self, i):
        i = unS(i)
        key = i if isinstance(i, int) else ("z", i.get_id())
        r = self.memo.get(key)
        if r is None:
            r = (self._at(i), i)
            self.memo[key] = r
        return r[0]

    def g(self, i):
        return True if self.guard is None else pyc(self.guard(i))

    def compact(self):
        if self.guard is None:
            return self
        if getattr(self, "_compact", None) is None:
            from .arr import Arr, B1, compress
            m, pos, rank = compress(Arr((self.n,), lambda i: mk(raw(self.g(i))), B1))
            s = Seq(m, lambda p: self.at(pos(p)[0]))
            s.filtered = (self, pos, rank)
            self._compact = s
        return self._compact

    def subst(self, pairs):
        n = self.n if isinstance(self.n, int) else subst(self.n, pairs)
        g = None if self.guard is None else (lambda i: _substc(self.guard(i), pairs))
        r = Seq(n, lambda i: subst(self.at(i), pairs), g)
        if hasattr(self, "group_of"):
            r.group_of = (self.group_of[0], subst(self.group_of[1], pairs))
        if self.pair is not None:
            r.pair = tuple(_subst_fun(f, m, pairs) for f, m in zip(self.pair, (1, 1, 2)))
        return r

    def merge_with(self, c, b):
        if isinstance(b, (list, tuple)) and not isinstance(b, TList):
            b = lift(b)
        if isinstance(b, TList):
            b = b.as_seq()
        a, b = self.compact(), b.compact()
        same = i_eq(a.n, b.n) is True or iraw(a.n).eq(iraw(b.n))
        n = a.n if same else z3.If(c, iraw(a.n), iraw(b.n))
        r = Seq(n, lambda i: merge2(c, a.at(i), b.at(i)))
        if same and a.pair is not None and b.pair is not None:
            x, y = z3.Int("pr!a"), z3.Int("pr!b")
            if all(f(*v).eq(h(*v)) for f, h, v in zip(a.pair, b.pair, ((x,), (x,), (x, y)))):
                r.pair = a.pair
        return r

    def to_arr(self):
        from .arr import asarray
        return asarray(self)

    def __iter__(self):
        s = self.compact()
        if isinstance(s.n, int):
            return iter([s.at(i) for i in range(s.n)])
        raise Unsupported("native iteration over a symbolic-length sequence")

    def __getitem__(self, i):
        s = self.compact()
        if isinstance(i, slice):
            from .arr import norm_slice
            st, ln, step = norm_slice(i, s.n)
            return Seq(ln, lambda p: s.at(i_add(st, i_mul(step, p))))
        from .arr import norm_int
        return s.at(norm_int(i, s.n, "sequence index"))

    def __bool__(self):
        return E.decide(iraw(self.compact().n) > 0)

    def __add__(self, o):
        return concat_seqs([self, o])

    def __radd__(self, o):
        return concat_seqs([o, self])

    def __contains__(self, x):
        return bool(seq_contains(self, x))

    def sort(self, **k):
        raise Unsupported("sort of a symbolic-length list")

    @property
    def size(self):
        return mk(iraw(self.compact().n))


def _subst_fun(f, m, pairs):
    ph = [z3.Int("ph!%d" % j) for j in range(m)]
    t = z3.substitute(f(*ph), *pairs)
    return lambda *a: z3.substitute(t, *zip(ph, a))


def _substc(c, pairs):
    c = pyc(c)
    return c if isinstance(c, bool) else z3.substitute(c, *pairs)


class SSet(Seq):
    """Set with a symbolic number of members: an enumeration without repeats, a membership predicate."""
    def __init__(self, src, enum=None, member=None, locate=None):
        if enum is None:
            from .arr import asarray
            u = getattr(src, "uniq_arr", None)
            if u is None:
                u = unique(asarray(src))
            enum = Seq(u.shape[0], lambda i: u.elem(i))
            if hasattr(u, "uniq"):
                m, uf, _, loc = u.uniq
                srt = uf(z3.IntVal(0)).sort()

                def key(x):
                    t = num(x)
                    return core.to_real(t) if t.sort() != srt and srt == z3.RealSort() else t
                member = lambda x: z3.And(loc(key(x)) >= 0, loc(key(x)) < m, uf(loc(key(x))) == key(x))
                locate = lambda x: loc(key(x))
        Seq.__init__(self, enum.n, enum.at, enum.guard)
        self.enum, self._member, self._locate = enum, member, locate
        if locate is not None:
            E.ghost.setdefault("sets", []).append(self)

    def member(self, x):
        """condition: x is in the set"""
        return self._member(x) if self._member else raw(seq_contains(self.enum, x))

    def locate(self, x):
        """position of a member in the enumeration"""
        if self._locate is None:
            raise Unsupported("position in a set")
        return self._locate(x)

    def _filter(self, keep):
        """keep(x): condition"""
        e = Seq(self.n, self.at, lambda i: raw(keep(self.at(i)))).compact()
        loc = None
        if self._locate and getattr(e, "filtered", (0, 0, None))[2] is not None:
            rank = e.filtered[2]
            loc = lambda x: rank(self._locate(x))
        return SSet(None, e, lambda x: z3.And(raw(self.member(x)), raw(keep(x))), loc)

    def intersection(self, *os):
        s = self
        for o in os:
            s = s._filter((lambda o: lambda x: raw(contains(o, x)))(o))
        return s

    def difference(self, *os):
        s = self
        for o in os:
            s = s._filter((lambda o: lambda x: raw(c_not(pyc(raw(contains(o, x))))))(o))
        return s

    def union(self, *os):
        return SSet(concat_seqs([self] + [lift(o) for o in os]))

    def _set(f):
        def g(self, o):
            if not isinstance(o, (SSet, builtins.set, frozenset)):
                return NotImplemented
            return f(self, o)
        return g

    def _rset(f):
        def g(self, o):
            if not isinstance(o, (builtins.set, frozenset)):
                return NotImplemented
            o = list(o)
            return b_set() if not o else f(SSet(Seq(len(o), lambda i: _pick(o, i))), self)
        return g
    __and__ = _set(lambda s, o: s.intersection(o))
    __sub__ = _set(lambda s, o: s.difference(o))
    __or__ = _set(lambda s, o: s.union(o))
    __rand__ = _set(lambda s, o: s.intersection(o))
    __ror__ = _set(lambda s, o: s.union(o))
    __rsub__ = _rset(lambda a, b: a.difference(b))
    __xor__ = lambda self, o: (self - o) | (o - self)

    def issubset(self, o):
        return b_len(self.difference(o)) == 0

    def add(self, x):
        raise Unsupported("set.add on a symbolic set")

    update = discard = remove = pop = add

    def __eq__(self, o):
        raise Unsupported("comparison of symbolic sets")

    __hash__ = None

    def copy(self):
        return self


class TList(list):
    """list that may hold one family of symbolic length"""
    def __init__(self, *a):
        super().__init__(*a)
        self.seq = None
        self.depth = len(E.frames)

    def symbolic(self):
        return self.seq is not None

    def as_seq(self):
        if self.seq is not None:
            return self.seq
        return lift(list(self))

    def items(self):
        return list(self)

    def _outer(self):
        """generic frame, deeper than this list's birth, that is being evaluated"""
        for fr in reversed(E.frames[self.depth:]):
            if fr.k is not None:
                return fr
        return None

    def append(self, x):
        fr = self._outer()
        if fr is not None:
            fr.effects.append((self, x))
            return
        if self.seq is not None:
            self.seq = concat_seqs([self.seq, [x]])
            return
        if isinstance(x, Family):
            if len(self):
                self.seq = concat_seqs([list(self), x.seq])
                self.clear_items()
            else:
                self.seq = x.seq
            return
        list.append(self, x)

    def clear_items(self):
        del self[:]

    def extend(self, xs):
        xs = lift(xs)
        if isinstance(xs, list):
            for x in xs:
                self.append(x)
            return
        self.append(Family(xs))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __bool__(self):
        if self.seq is not None:
            return bool(self.seq)
        return list.__len__(self) > 0

    def __iter__(self):
        if self.seq is not None:
            return iter(self.seq)
        return list.__iter__(self)

    def __getitem__(self, i):
        if self.seq is not None:
            return self.seq[i]
        if isinstance(i, S):
            return lift(list(self))[i] if False else Seq(len(self), lambda j: _pick(list(self), j))[i]
        r = list.__getitem__(self, i)
        return TList(r) if isinstance(i, slice) else r

    def __add__(self, o):
        if self.seq is not None or isinstance(o, Seq) or (isinstance(o, TList) and o.symbolic()):
            return concat_seqs([self, o])
        return TList(list(self) + list(o))

    def __contains__(self, x):
        return bool(contains(self, x))

    def subst(self, pairs):
        if self.seq is not None:
            return self.seq.subst(pairs)
        return TList([subst(x, pairs) for x in list.__iter__(self)])

    def merge_with(self, c, b):
        if self.seq is not None:
            return self.seq.merge_with(c, b)
        if isinstance(b, (list, tuple)) and not (isinstance(b, TList) and b.symbolic()) and len(b) == len(self):
            return TList([merge2(c, x, y) for x, y in zip(self, b)])
        return lift(list(self), force=True).merge_with(c, b)

    def copy(self):
        t = TList(list(self) if self.seq is None else [])
        t.seq = self.seq
        return t


def _pick(xs, j):
    if isinstance(j, int):
        return xs[j]
    v = xs[-1]
    for q in range(len(xs) - 2, -1, -1):
        v = merge2(j == q, xs[q], v)
    return v


class Family:
    """yielded/appended once in place of a symbolic number of items"""
    def __init__(self, seq):
        self.seq = seq

    def subst(self, pairs):
        return Family(self.seq.subst(pairs))

    def merge_with(self, c, b):
        if isinstance(b, Family):
            return Family(self.seq.merge_with(c, b.seq))
        raise Unsupported("merge of loop results")


def concat_seqs(parts):
    ps = []
    for p in parts:
        p = lift(p)
        if isinstance(p, list):
            p = Seq(len(p), (lambda p: lambda i: _pick(p, i))(p))
        ps.append(p.compact())
    ps = [p for p in ps if not (isinstance(p.n, int) and p.n == 0)]
    if not ps:
        return TList()
    offs = [0]
    for p in ps:
        offs.append(i_add(offs[-1], p.n))

    def at(i):
        v = ps[-1].at(i_sub(i, offs[-2]))
        for q in range(len(ps) - 2, -1, -1):
            c = pyc(i_lt(i, offs[q + 1]))
            if c is False:
                continue
            w = ps[q].at(i_sub(i, offs[q]))
            v = merge2(c, w, v) if c is not True else w
        return v
    return Seq(offs[-1], at)


def once(s):
    """a map, zip or generator object: it can be gone through once"""
    if isinstance(s, Seq):
        s = copy.copy(s)
        s.oneshot, s.spent = True, False
        return s
    return iter(s)


def lift(x, force=False):
    """any iterable -> Python list (concrete) or Seq"""
    from .arr import Arr
    if isinstance(x, Seq):
        if x.oneshot:
            if x.spent:
                raise Unsupported("an iterator is used a second time")
            x.spent = True
            r = copy.copy(x)
            r.oneshot = r.spent = False
            return r
        return x
    if isinstance(x, TList):
        return x.seq if x.seq is not None else list(x)
    if isinstance(x, Arr):
        n = x.shape[0]
        if isinstance(n, int):
            return [x[i] for i in range(n)]
        me = x.snapshot()
        if x.ndim == 1:
            return Seq(n, lambda i: me.elem(i))
        return Seq(n, lambda i: Arr(me.shape[1:], lambda *r: me.elem(i, *r), me.dtype))
    if hasattr(x, "to_seq"):
        return x.to_seq()
    if hasattr(x, "to_arr"):
        return lift(x.to_arr())
    if isinstance(x, (builtins.list, builtins.tuple)):
        if force:
            xs = list(x)
            return Seq(len(xs), lambda i: _pick(xs, i))
        return list(x)
    if isinstance(x, dict):
        return list(x)
    if hasattr(x, "__iter__"):
        return drain(x)
    raise TypeError("%r object is not iterable" % type(x).__name__)


def drain(it):
    items = list(iter(it))
    if any(isinstance(v, Family) for v in items):
        if len(items) == 1:
            return items[0].seq
        return concat_seqs([v.seq if isinstance(v, Family) else [v] for v in items])
    return items


# ------------------------------------------------------------------ flattening
def flatten(outer):
    """Seq of sequences -> one sequence, in order (itertools.chain.from_iterable)."""
    if isinstance(outer, list):
        return concat_or_list(outer)
    outer = outer
    n = iraw(outer.n)
    inner = {}

    def inn(o):
        key = o if isinstance(o, int) else o.get_id()
        if key not in inner:
            v = lift(outer.at(o))
            if isinstance(v, list):
                v = Seq(len(v), (lambda v: lambda i: _pick(v, i))(v))
            inner[key] = (v.compact(), o)
        return inner[key][0]
    ln = lambda o: iraw(inn(o).n)
    if E.singletons and _all_one(outer, inn):
        return Seq(outer.n, lambda x: inn(x if isinstance(x, int) else iraw(x)).at(0))
    o, i, p, q = z3.Int("fo!"), z3.Int("fi!"), z3.Int("fp!"), z3.Int("fq!")
    here = tuple(f.k.get_id() for f in E.frames if f.k is not None), [x for f in E.frames for x in f.pc]
    tl, tg = z3.simplify(ln(o)), z3.simplify(raw(outer.g(o)))
    for (gk, pc), kn, kl, kg, pr in E.ghost.get("pairings", []):
        # the same numbers of elements in the same parts: the same pairing
        if gk == here[0] and kn.eq(n) and kl.eq(tl) and kg.eq(tg) and len(pc) <= len(here[1]) and \
                all(a.eq(b) for a, b in zip(pc, here[1])):
            N, of, nf, fl = pr
            s = Seq(N, lambda x: inn(of(x)).at(nf(x)))
            s.nested, s.pair = (outer, of, nf, fl, inn), (of, nf, fl)
            E.ghost.setdefault("flats", []).append(s)
            return s
    N = E.fresh("flatN")
    of = E.fresh_fun("outer", ["Int"], "Int")
    nf = E.fresh_fun("inner", ["Int"], "Int")
    fl = E.fresh_fun("flat", ["Int", "Int"], "Int")
    g = lambda x: raw(outer.g(x))
    E.assume(N >= 0)
    valid = lambda x, y: z3.And(x >= 0, x < n, g(x), y >= 0, y < ln(x))
    E.assume(z3.Implies(z3.And(p >= 0, p < N),
                        z3.And(valid(of(p), nf(p)), fl(of(p), nf(p)) == p)), pats=[of(p)], qvars=[p])
    E.assume(z3.Implies(valid(o, i), z3.And(fl(o, i) >= 0, fl(o, i) < N, of(fl(o, i)) == o, nf(fl(o, i)) == i)),
             pats=[fl(o, i)], qvars=[o, i])
    E.assume(z3.Implies(z3.And(p >= 0, p < q, q < N),
                        z3.Or(of(p) < of(q), z3.And(of(p) == of(q), nf(p) < nf(q)))),
             pats=[z3.MultiPattern(of(p), of(q))], qvars=[p, q])
    E.ghost.setdefault("pairings", []).append((here, n, tl, tg, (N, of, nf, fl)))
    E.assumed["concatenation of sequences"] = "order-preserving pairing of (part, position)"
    s = Seq(N, lambda x: inn(of(x)).at(nf(x)))
    s.nested, s.pair = (outer, of, nf, fl, inn), (of, nf, fl)
    E.ghost.setdefault("flats", []).append(s)
    return s


def _all_one(outer, inn):
    """every part is there and has exactly one element (shown, not assumed)"""
    def one(k):
        v = inn(k)
        hints = []
        if hasattr(outer.at(k), "group_of"):
            g, x = outer.at(k).group_of
            hints = [g.pos(raw(x), 0), g.pos(raw(x), 1)]
        return E.valid(z3.And(raw(outer.g(k)), iraw(v.n) == 1), ms=600, hints=hints)
    _, res = E.local(one, outer.n)
    return bool(res) and all(x for _, x, _ in res)


def concat_or_list(xs):
    ys = [lift(x) for x in xs]
    if all(isinstance(y, list) for y in ys):
        return [v for y in ys for v in y]
    return concat_seqs(ys)


# ------------------------------------------------------------------ loops and comprehensions
def run_generic(seq, f):
    """f(element) for every element: k and the list of (cond, value, effects)."""
    def body(k):
        g = seq.g(k)
        if g is not True:
            if not E.decide(g):
                raise Infeasible()
        return f(seq.at(k))
    return E.local(body, seq.n)


def _merge_paths(seq, k, res):
    """one value per element (all paths produce one)"""
    if not res:
        raise Unsupported("no feasible path for a generic element")
    v = core.merge([(c, v) for c, v, _ in res])
    return lambda i: subst(v, [(k, iraw(i))])


def seq_map(f, seq):
    k, res = run_generic(seq, f)
    for _, _, eff in res:
        if eff:
            raise Unsupported("side effect in a mapped function")
    if not res:
        return TList()       # shown infeasible for every index: there is no element
    r = Seq(seq.n, _merge_paths(seq, k, res), seq.guard)
    r.pair = seq.pair
    return r


def _apply_effects(seq, k, res):
    lists = []
    for _, _, eff in res:
        for l, _v in eff:
            if not any(l is x for x in lists):
                lists.append(l)
    for l in lists:
        rows = []
        for c, _, eff in res:
            vs = [v for x, v in eff if x is l]
            rows.append((c, vs))
        l.append(Family(_rows_to_seq(seq, k, rows)))


def _rows_to_seq(seq, k, rows):
    mx = max(len(vs) for _, vs in rows)
    if mx > 1:
        if any(len(vs) != mx for _, vs in rows):
            raise Unsupported("varying number of items per iteration")
        if any(isinstance(v, Family) for _, vs in rows for v in vs):
            raise Unsupported("several loops per iteration")
        v = core.merge([(c, TList(vs)) for c, vs in rows])
        at = lambda i: subst(v, [(k, iraw(i))])
        return flatten(Seq(seq.n, at, seq.guard))
    have = [(c, vs[0]) for c, vs in rows if vs]
    if len(have) == len(rows):
        guard = seq.guard
    else:
        gk = z3.Or(*[c for c, _ in have]) if len(have) > 1 else have[0][0]
        base = seq.guard
        guard = lambda i: c_and(True if base is None else base(i), z3.substitute(gk, (k, iraw(i))))
    if any(isinstance(v, Family) for _, v in have):
        if not all(isinstance(v, Family) for _, v in have):
            raise Unsupported("mixed loop results")
        v = core.merge(have)
        return flatten(Seq(seq.n, lambda i: subst(v.seq, [(k, iraw(i))]), guard))
    v = core.merge(have)
    return Seq(seq.n, lambda i: subst(v, [(k, iraw(i))]), guard)


def rt_loop(it, body, carried=()):
    xs = lift_lazy(it)
    if not isinstance(xs, Seq):
        for x in xs:
            if isinstance(x, Family):
                _loop_sym(x.seq, body, carried)
            else:
                body(x)
        return
    _loop_sym(xs, body, carried)


def lift_lazy(it):
    """concrete iterables stay lazy"""
    from .arr import Arr
    if isinstance(it, (Seq, TList, Arr)) or hasattr(it, "to_arr") or hasattr(it, "to_seq"):
        return lift(it)
    return it


def _small(xs):
    s = xs
    return isinstance(s.n, int) and s.guard is None


def _loop_sym(xs, body, carried):
    if _small(xs):
        for i in range(xs.n):
            body(xs.at(i))
        return
    if carried:
        k, res = _carried(xs, body, carried)
    else:
        k, res = run_generic(xs, body)
    _apply_effects(xs, k, res)


def _carried(xs, body, carried):
    """A loop that reads variables before assigning them.  Accepted if what an iteration does is shown not to depend on
    what the iteration before left in them; they may still depend on the values from before the loop."""
    no = Unsupported("loop-carried state %s in a loop of symbolic length" % (carried,))
    if xs.guard is not None:
        raise no
    cells = dict(zip(body.__code__.co_freevars, body.__closure__ or ()))
    if not set(carried) <= set(cells):
        raise no

    def get(x):
        try:
            return cells[x].cell_contents
        except ValueError:
            raise no
    init = [get(x) for x in carried]

    def put(vals):
        for x, v in zip(carried, vals):
            cells[x].cell_contents = v

    def run(start):
        def f(x):
            put(start())
            body(x)
            return tuple(cells[c].cell_contents for c in carried)
        return run_generic(xs, f)
    k, res = run(lambda: init)
    if not res:
        return k, res
    try:
        left = core.merge([(c, v) for c, v, _ in res])
    except Unsupported:
        raise no
    k2, res2 = run(lambda: subst(left, [(k, E.frames[-1].k - 1)]))
    n = iraw(xs.n)
    for c1, v1, e1 in res:
        for c2, v2, e2 in res2:
            if len(e1) != len(e2):
                raise no
            under = [k2 >= 1, k2 < n, z3.substitute(raw(c1), (k, k2)), raw(c2)]
            for a, b in [(v1, v2)] + [(a[1], b[1]) for a, b in zip(e1, e2)]:
                if not same_value(subst(a, [(k, k2)]), b, under):
                    raise no
            if any(a[0] is not b[0] for a, b in zip(e1, e2)):
                raise no
    if E.decide(n <= 0):
        put(init)
    else:
        put(subst(left, [(k, n - 1)]))
    return k, res


def same_value(a, b, under):
    """certainly equal, given the conditions"""
    from .arr import Arr
    ok = lambda c: E.valid(z3.Implies(z3.And(*under), raw(c)), ms=3000)
    if a is b:
        return True
    if is_num(a) and is_num(b):
        if core.nan_of(a) is not False or core.nan_of(b) is not False:
            return False
        return ok(z3.BoolVal(a == b) if not isinstance(a == b, S) else a == b)
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and not isinstance(a, TList):
        return len(a) == len(b) and all(same_value(x, y, under) for x, y in zip(a, b))
    if isinstance(a, Arr) and isinstance(b, Arr):
        if a.ndim != b.ndim or not all(same_value(mk(iraw(x)), mk(iraw(y)), under) for x, y in zip(a.shape, b.shape)):
            return False
        ks = [z3.Int(E.name("sv")) for _ in a.shape]
        inr = [z3.And(x >= 0, x < iraw(s)) for x, s in zip(ks, a.shape)]
        return same_value(a.elem(*ks), b.elem(*ks), under + inr)
    if isinstance(a, Seq) and isinstance(b, Seq) and a.guard is None and b.guard is None:
        j = z3.Int(E.name("sv"))
        return same_value(mk(iraw(a.n)), mk(iraw(b.n)), under) and \
            same_value(a.at(j), b.at(j), under + [j >= 0, j < iraw(a.n)])
    return False


def rt_loopgen(it, body, carried=()):
    xs = lift_lazy(it)
    if not isinstance(xs, Seq):
        for x in xs:
            if isinstance(x, Family):
                yield from _loopgen_sym(x.seq, body, carried)
            else:
                yield from body(x)
        return
    yield from _loopgen_sym(xs, body, carried)


def _loopgen_sym(xs, body, carried):
    if _small(xs):
        for i in range(xs.n):
            yield from body(xs.at(i))
        return
    if carried:
        raise Unsupported("loop-carried state %s in a loop of symbolic length" % (carried,))
    k, res = run_generic(xs, lambda x: list(body(x)))
    _apply_effects(xs, k, res)
    rows = [(c, vs) for c, vs, _ in res]
    if not rows or max(len(vs) for _, vs in rows) == 0:
        return
    yield Family(_rows_to_seq(xs, k, rows))


def rt_iter_native(it):
    xs = lift_lazy(it)
    if isinstance(xs, Seq):
        if _small(xs):
            return [xs.at(i) for i in range(xs.n)]
        raise Unsupported("loop with break/return over a sequence of symbolic length")
    return xs


def rt_comp(kind, it, cond, elt, flat=False):
    xs = lift(it)
    if isinstance(xs, Seq) and _small(xs):
        xs = [xs.at(i) for i in range(xs.n)]
    if not isinstance(xs, Seq):
        out = [elt(x) for x in xs if cond is None or cond(x)]
        if flat:
            out = concat_or_list(out)
    else:
        src = xs
        if cond is not None:
            k, res = run_generic(xs, lambda x: mk(raw(_truth(cond(x)))))
            gk = core.merge([(c, v) for c, v, _ in res]) if res else False
            base = xs.guard
            src = Seq(xs.n, xs.at, lambda i: c_and(True if base is None else base(i),
                                                   subst(gk, [(k, iraw(i))])))
        out = seq_map(elt, src)
        if flat:
            out = flatten(out) if isinstance(out, Seq) else concat_or_list(out)
    if kind == "list":
        return TList(out) if isinstance(out, list) else out
    if kind == "gen":
        return iter(out) if isinstance(out, list) else once(out)
    if kind == "set":
        return b_set(out)
    if kind == "dict":
        return b_dict(out)


def _truth(v):
    if isinstance(v, S):
        return v.t if z3.is_bool(v.t) else v.t != 0
    if isinstance(v, (bool, int)):
        return bool(v)
    return bool(v)


def rt_destruct(x, pat):
    """flatten nested tuple x by the pattern (nested tuples of None)"""
    out = []

    def rec(v, p):
        if p is None:
            out.append(v)
            return
        vs = list(lift(v))
        if len(vs) != len(p):
            raise ValueError("unpack")
        for a, b in zip(vs, p):
            rec(a, b)
    rec(x, pat)
    return out


# ------------------------------------------------------------------ membership, unique
def contains(coll, x):
    """condition: x is an element of coll"""
    if isinstance(coll, SymDict):
        return coll.has(x)
    if isinstance(coll, SSet):
        return mk(raw(coll.member(x)))
    if isinstance(coll, (dict, builtins.set, frozenset)):
        coll = list(coll)
    c = lift(coll)
    if isinstance(c, list):
        r = False
        for y in c:
            e = (y == x)
            r = c_or(r, _truth(e))
        return mk(raw(r))
    return seq_contains(c, x)


def seq_contains(s, x):
    """fresh membership predicate per sequence (ground use)"""
    s = s.compact()
    if isinstance(s.n, int):
        r = False
        for i in range(s.n):
            r = c_or(r, _truth(s.at(i) == x))
        return mk(raw(r))
    k = z3.Int("memk!")
    t = raw(s.at(k))
    ts = z3.simplify(t)
    tab = E.ghost.setdefault("member", {})
    key = (iraw(s.n).get_id(), ts.get_id())
    if key not in tab:
        srt = t.sort()
        has = E.fresh_fun("has", [srt], "Bool")
        wit = E.fresh_fun("wit", [srt], "Int")
        v = z3.Const("v!m", srt)
        at = lambda i: z3.substitute(t, (k, i))
        E.assume(z3.Implies(has(v), z3.And(wit(v) >= 0, wit(v) < iraw(s.n), at(wit(v)) == v)),
                 pats=[has(v)], qvars=[v])
        E.assume(z3.Implies(z3.And(k >= 0, k < iraw(s.n)), has(t)), qvars=[k])
        tab[key] = (has, wit, s, t)
    has, wit, _, _ = tab[key]
    xt = raw(x)
    if xt.sort() != t.sort():
        xt, _ = core.unify(xt, t)
    return mk(has(xt))


def unique(a):
    """np.unique: strictly increasing sequence with the same members"""
    from .arr import Arr
    a = a.snapshot()
    if a.ndim != 1:
        a = a.flatten().snapshot()
    n = a.shape[0]
    if isinstance(n, int):
        if n == 0:
            return a
        vals = [a.elem(i) for i in range(n)]
        if all(isinstance(v, (int, Fraction, str)) for v in vals):
            u = sorted(set(vals))
            return Arr((len(u),), lambda i: _pick(u, i), a.dtype)
    k = z3.Int("uk!")
    t = z3.simplify(num(a.elem(k)))
    tab = E.ghost.setdefault("unique", {})
    key = (iraw(n).get_id(), t.get_id())
    if key in tab:
        return tab[key][0]
    m = E.fresh("nuniq")
    u = E.fresh_fun("uniq", ["Int"], t.sort())
    src = E.fresh_fun("usrc", ["Int"], "Int")
    loc = E.fresh_fun("uloc", [t.sort()], "Int")
    at = lambda i: z3.substitute(t, (k, i))
    p, q = z3.Ints("p! q!")
    nn = iraw(n)
    E.assume(z3.And(m >= 0, m <= nn))
    E.assume(z3.Implies(nn > 0, m > 0))
    E.assume(z3.Implies(z3.And(p >= 0, p < m), z3.And(src(p) >= 0, src(p) < nn, at(src(p)) == u(p), loc(u(p)) == p)),
             pats=[u(p)], qvars=[p])
    E.assume(z3.Implies(z3.And(k >= 0, k < nn), z3.And(loc(t) >= 0, loc(t) < m, u(loc(t)) == t)),
             pats=[t] if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED else None, qvars=[k])
    E.assume(z3.Implies(z3.And(p >= 0, p < q, q < m), u(p) < u(q)),
             pats=[z3.MultiPattern(u(p), u(q))], qvars=[p, q])
    E.assumed["numpy.unique"] = "strictly increasing sequence with the same members"
    r = Arr((m,), lambda i: mk(u(iraw(i))), a.dtype)
    r.uniq = (m, u, src, loc)
    tab[key] = (r, t)
    return r


class SymDict:
    """mapping with symbolic keys, e.g. pandas groups: key -> value"""
    def __init__(self, has, get, keys=None):
        self.has, self._get, self._keys = has, get, keys

    def __contains__(self, x):
        return bool(self.has(x))

    def __getitem__(self, x):
        if not bool(self.has(x)):
            raise KeyError(x)
        return self._get(x)

    def get(self, x, d=None):
        if bool(self.has(x)):
            return self._get(x)
        return d

    def keys(self):
        return self._keys()

    def to_seq(self):
        return lift(self._keys())


# ------------------------------------------------------------------ builtins
_real = {n: getattr(builtins, n) for n in dir(builtins)}


def b_len(x):
    from .arr import Arr
    if isinstance(x, Seq):
        if hasattr(x, "group_of"):
            x.group_of[0].count_fact(x.group_of[1])
        if x.oneshot:
            raise TypeError("object of type 'generator' has no len()")
        n = x.compact().n
        return mk(n) if not isinstance(n, int) else n
    if isinstance(x, TList) and x.seq is not None:
        return b_len(x.seq)
    if isinstance(x, Arr):
        if not x.shape:
            raise TypeError("len() of unsized object")
        n = x.shape[0]
        return mk(n) if not isinstance(n, int) else n
    if hasattr(x, "vc_len"):
        n = x.vc_len()
        return mk(n) if isinstance(n, z3.ExprRef) else n
    return len(x)


def b_int(x=0, *a):
    from .arr import Arr
    if hasattr(x, "to_int"):
        return x.to_int()
    if isinstance(x, Arr):
        x = x.item()
    if hasattr(x, "to_arr"):
        x = x.to_arr()
        if x.ndim:
            raise TypeError("only length-1 arrays can be converted")
        x = x.elem()
    if isinstance(x, S):
        if nan_of(x) is not False:
            E.need("int() of NaN does not happen", c_not(nan_of(x)))
        return strunc(mk(num(x)) if z3.is_bool(x.t) else mk(x.t))
    return int(x, *a)


b_int.__vc_type__ = int
from .arr import I8 as _I8, F8 as _F8, B1 as _B1, OBJ as _OBJ, STR as _STR
b_int.__vc_dt__ = _I8


def b_float(x=0):
    from .arr import Arr
    if hasattr(x, "to_float"):
        return x.to_float()
    if hasattr(x, "to_arr"):
        x = x.to_arr()
    if isinstance(x, Arr):
        x = x.item()
    if isinstance(x, S):
        return mk(core.to_real(x), x.nan)
    if isinstance(x, str):
        if x in ("nan", "inf", "-inf"):
            raise Unsupported("float(%r)" % x)
        return Fraction(x)
    return Fraction(x)


b_float.__vc_type__ = (float, Fraction)
b_float.__vc_dt__ = _F8


def b_bool(x=False):
    if isinstance(x, S):
        return mk(raw(_truth(x)))
    return bool(x)


b_bool.__vc_type__ = bool
b_bool.__vc_dt__ = _B1


def b_range(*a):
    a = [unS(x) if isinstance(x, S) else x for x in a]
    for x in a:
        if isinstance(x, Fraction):
            raise TypeError("'float' object cannot be interpreted as an integer")
    a = [x.item() if hasattr(x, "item") and not isinstance(x, int) and not isinstance(x, z3.ExprRef) else x for x in a]
    a = [unS(x) for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        st, sp, step = 0, a[0], 1
    elif len(a) == 2:
        st, sp, step = a[0], a[1], 1
    else:
        st, sp, step = a
    if step != 1:
        raise Unsupported("symbolic range with a step")
    n = i_sub(sp, st)
    if not E.valid(iraw(n) >= 0):
        n = z3.If(iraw(n) >= 0, iraw(n), 0)
    return Seq(n, lambda i: mk(i_add(st, i)) if not isinstance(i_add(st, i), int) else i_add(st, i))


def b_zip(*its, **kw):
    xs = [lift(i) for i in its]
    if not any(isinstance(x, Seq) for x in xs):
        return zip(*xs)
    xs = [(x.compact() if isinstance(x, Seq) else Seq(len(x), (lambda x: lambda i: _pick(x, i))(x))) for x in xs]
    n = xs[0].n
    for x in xs[1:]:
        e = pyc(i_eq(n, x.n))
        if e is True or (e is not False and E.valid(e)):
            if isinstance(x.n, int):
                n = x.n
            continue
        n = z3.If(iraw(n) <= iraw(x.n), iraw(n), iraw(x.n))
    if isinstance(n, int):
        return iter([tuple(x.at(i) for x in xs) for i in range(n)])
    return once(Seq(n, lambda i: tuple(x.at(i) for x in xs)))


def b_enumerate(it, start=0):
    xs = lift(it)
    if not isinstance(xs, Seq):
        return enumerate(xs, start)
    xs = xs.compact()
    return Seq(xs.n, lambda i: ((mk(i_add(i, start)) if not isinstance(i, int) else i + start), xs.at(i)))


def b_map(f, *its):
    if len(its) == 1:
        xs = lift(its[0])
        if isinstance(xs, Seq):
            return once(seq_map(f, xs))
        return iter([f(x) for x in xs])
    return b_map(lambda t: f(*t), b_zip(*its))


def b_filter(f, it):
    return rt_comp("gen", it, f, lambda x: x)


def b_list(it=()):
    xs = lift(it)
    if isinstance(xs, Seq):
        return xs.compact() if xs.guard is None else xs
    return TList(xs)


b_list.__vc_type__ = list


def b_tuple(it=()):
    xs = lift(it)
    return xs if isinstance(xs, Seq) else tuple(xs)


b_tuple.__vc_type__ = tuple


def b_set(it=()):
    xs = lift(it)
    if isinstance(xs, Seq):
        return SSet(xs)
    if any(isinstance(x, S) for x in xs):
        return SSet(Seq(len(xs), lambda i: _pick(xs, i)))
    return set(xs)


b_set.__vc_type__ = set


def b_dict(*a, **k):
    if a:
        x = a[0]
        if isinstance(x, (dict, SymDict)):
            return dict(x, **k)
        xs = lift(x)
        if isinstance(xs, Seq):
            raise Unsupported("dict of symbolic length")
        d = dict(xs)
        d.update(k)
        return d
    return dict(**k)


b_dict.__vc_type__ = dict


def b_sum(it, start=0):
    from .theory import mksum
    xs = lift(it)
    if isinstance(xs, Seq):
        v = mksum(xs.n, lambda k: ite(raw(xs.g(k)), xs.at(k), 0) if xs.guard is not None else xs.at(k))
        return v + start if not (isinstance(start, int) and start == 0) else v
    r = start
    for x in xs:
        r = r + x
    return r


def b_minmax(which):
    def f(*a, **k):
        from .arr import smin, smax, Arr, asarray, reduce_minmax
        if "key" in k:
            raise Unsupported("min/max with a key")
        xs = lift(a[0]) if len(a) == 1 else list(a)
        if isinstance(xs, Seq):
            from . import dtmod
            pr = xs.at(z3.Int("mmprobe!"))
            for cls, f, back in ((dtmod.Timestamp, "ns", dtmod.Timestamp), (dtmod.datetime, "us", dtmod.datetime._of)):
                if type(pr) is cls:
                    r = reduce_minmax(asarray(Seq(xs.n, lambda i: mk(iraw(getattr(xs.at(i), f))), xs.guard)), None, which)
                    return back(r if isinstance(r, int) else iraw(r))
            return reduce_minmax(asarray(xs), None, which)
        if not xs:
            if "default" in k:
                return k["default"]
            raise ValueError("%s() arg is an empty sequence" % which)
        if all(not isinstance(x, S) and not hasattr(x, "to_arr") and not getattr(x, "vc_scalar", 0) for x in xs):
            return _real[which](xs)
        v = xs[0]
        for x in xs[1:]:
            v = (smin if which == "min" else smax)(v, x)
        return v
    return f


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    from .arr import Arr
    for y in ts:
        y = getattr(y, "__vc_type__", y)
        for z in (y if isinstance(y, tuple) else (y,)):
            if isinstance(z, type) and isinstance(x, z):
                return True
            if isinstance(x, S):
                if z is int and z3.is_int(x.t) or z is bool and z3.is_bool(x.t) or z in (float, Fraction) and z3.is_real(x.t):
                    return True
            if z is list and isinstance(x, Seq):
                return True
    return False


def b_sorted(it, key=None, reverse=False):
    xs = lift(it)
    if isinstance(xs, SSet) and key is None and not reverse:
        return xs
    if isinstance(xs, Seq):
        raise Unsupported("sorted() of a symbolic-length sequence")
    if any(isinstance(x, S) for x in xs):
        raise Unsupported("sorted() of symbolic values")
    return TList(sorted(xs, key=key, reverse=reverse))


def b_any(it):
    from .arr import asarray, reduce_any
    xs = lift(it)
    if isinstance(xs, Seq):
        return reduce_any(asarray(xs))
    r = False
    for x in xs:
        r = c_or(r, _truth(x))
    return mk(raw(r))


def b_all(it):
    from .arr import asarray, reduce_all
    xs = lift(it)
    if isinstance(xs, Seq):
        return reduce_all(asarray(xs))
    r = True
    for x in xs:
        r = c_and(r, _truth(x))
    return mk(raw(r))


def b_round(x, nd=None):
    from .npmod import sround
    if is_num(x) and nd is None:
        return sround(x)
    if isinstance(x, (int, float, Fraction)):
        return round(x, nd)
    raise Unsupported("round")


def b_abs(x):
    return abs(x)


def b_reversed(x):
    xs = lift(x)
    if isinstance(xs, Seq):
        xs = xs.compact()
        return Seq(xs.n, lambda i: xs.at(i_sub(i_sub(xs.n, 1), i)))
    return reversed(xs)


def b_iter(x):
    xs = lift_lazy(x)
    return xs if isinstance(xs, Seq) else iter(xs)


_NONE = object()


def b_next(it, default=_NONE):
    if not isinstance(it, Seq):
        return next(it) if default is _NONE else next(it, default)
    if not it.oneshot:
        raise TypeError("'list' object is not an iterator")
    if it.guard is not None or it.spent:
        raise Unsupported("next() of a filtered iterator")
    if (it.n <= 0) if isinstance(it.n, int) else E.decide(iraw(it.n) <= 0):
        if default is _NONE:
            raise StopIteration
        return default
    v, f = it.at(0), it._at
    it.n, it._at, it.memo, it.nested, it.pair = unS(i_sub(it.n, 1)), (lambda i: f(unS(i_add(i, 1)))), {}, None, None
    return v


def tee(it, n=2):
    """iterators of their own over the same elements"""
    xs = lift(it)
    return tuple(once(xs if isinstance(xs, Seq) else list(xs)) for _ in range(n))


def b_print(*a, **k):
    return None


def b_str(x=""):
    if isinstance(x, S):
        return "<sym>"
    if hasattr(x, "vc_str"):
        return x
    return str(x)


b_str.__vc_type__ = str
b_str.__vc_dt__ = _STR


def rt_q(s):
    return Fraction(s)


def rt_flag(test, val, old):
    """x after  if test: x = val"""
    if isinstance(test, S) and z3.is_bool(test.t):
        try:
            o = old()
        except NameError:
            o = None
        if isinstance(o, bool) or (isinstance(o, S) and z3.is_bool(o.t)):
            return mk(z3.simplify(z3.If(test.t, z3.BoolVal(val), o.t if isinstance(o, S) else z3.BoolVal(o))))
    return val if test else old()


def rt_div(a, b):
    if isinstance(a, (bool, int, Fraction)) and isinstance(b, (bool, int, Fraction)):
        return Fraction(a) / Fraction(b)
    return a / b


def rt_pow(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction) and b.denominator == 1:
        return a ** int(b)
    if isinstance(a, (int, Fraction)) and isinstance(b, Fraction) and b == Fraction(1, 2):
        from .theory import fn1
        return fn1("sqrt", a)
    if isinstance(a, int) and isinstance(b, int) and b < 0:
        return Fraction(a) ** b
    return a ** b


def rt_in(x, coll):
    if isinstance(x, S):
        if isinstance(coll, (dict, builtins.set, frozenset, tuple, list, Seq, SymDict)) and not isinstance(coll, str):
            return bool(contains(coll, x))
    if isinstance(coll, SymDict) or isinstance(coll, Seq) or (isinstance(coll, TList) and coll.symbolic()):
        return bool(contains(coll, x))
    return x in coll


def rt_strmethod(obj, nm, *a, **k):
    from . import text
    return text.strmethod(obj, nm, *a, **k)


def rt_fstr(*parts):
    from . import text
    return text.fstr(*parts)


def rt_percent(s, a):
    from . import text
    return text.percent(s, a)


def rt_sub(x, i):
    if isinstance(i, S) and isinstance(x, dict):
        for k in x:
            e = (i == k)
            if e is not NotImplemented and bool(e):
                return x[k]
        raise KeyError(i)
    return x[i]


def rt_shape(v):
    """x.shape as the source sees it: lengths are numbers"""
    s = v.shape
    if type(s) is tuple:
        return tuple(mk(x) if isinstance(x, z3.ExprRef) else x for x in s)
    return s


def rt_list(x):
    return TList(x)


# itertools
class _Chain:
    def __call__(self, *its):
        return concat_or_list(list(its))

    @staticmethod
    def from_iterable(it):
        xs = lift(it)
        r = flatten(xs) if isinstance(xs, Seq) else concat_or_list(xs)
        return TList(r) if isinstance(r, list) else r


class ItertoolsModel:
    chain = _Chain()
    count = _it.count
    cycle = _it.cycle
    repeat = _it.repeat
    tee = staticmethod(tee)
    groupby = _it.groupby
    islice = _it.islice

    @staticmethod
    def product(*its, repeat=1):
        xs = [lift(i) for i in its] * repeat
        if not any(isinstance(x, Seq) for x in xs):
            return _it.product(*xs)
        raise Unsupported("product of symbolic sequences")


def model_builtins():
    b = dict(_real)
    b.update(len=b_len, int=b_int, float=b_float, bool=b_bool, range=b_range, zip=b_zip, enumerate=b_enumerate,
             map=b_map, filter=b_filter, list=b_list, tuple=b_tuple, set=b_set, dict=b_dict, sum=b_sum,
             min=b_minmax("min"), max=b_minmax("max"), isinstance=b_isinstance, sorted=b_sorted, any=b_any,
             all=b_all, round=b_round, abs=b_abs, reversed=b_reversed, iter=b_iter, next=b_next, print=b_print, str=b_str,
             __q__=rt_q, __shape__=rt_shape, __div__=rt_div, __pow__=rt_pow, __mklist__=rt_list, __comp__=rt_comp, __loop__=rt_loop,
             __loopgen__=rt_loopgen, __iternative__=rt_iter_native, __destruct__=rt_destruct,
             __in__=rt_in, __sub__=rt_sub, __flag__=rt_flag, __strmethod__=rt_strmethod, __fstr__=rt_fstr, __percent__=rt_percent)
    return b
