"""Aggregation over time: every frame in the one interval it starts in, intervals summed or minimised over their frames."""
from ..api import *
from .. import xrmod, theory, dtmod
from ..core import nan_of, num, ite
from fractions import Fraction

c = Contract("I03")
MOD = "glmtools.io.imagery"
SUMS = ["flash_extent_density", "flash_centroid_density", "total_energy", "group_extent_density", "group_centroid_density"]
MEANS = {"average_flash_area": "flash_extent_density", "average_group_area": "group_extent_density"}
MIN = ["minimum_flash_area"]
PROJ = ["goes_imager_projection", "nominal_satellite_subpoint_lat", "nominal_satellite_subpoint_lon"]
MINUTE = 60 * 10 ** 9
c.assume("any number of frames at any times, in any order, any grid; every value may be missing",
         "a whole positive number of minutes; a span given is a whole number of intervals and has a frame in it",
         "values over the reals; times are whole nanoseconds, the caller's whole microseconds",
         "groupby_bins, sum and min of xarray as modelled")


def dataset(leave_out=(), proj=()):
    n, ny, nx = length("frames", 1), length("ny"), length("nx")
    t = array("t", n, sort="Int", dt=arr.M8)
    cols = {v: array(v, n, ny, nx, nan=True) for v in SUMS + list(MEANS) + MIN if v not in leave_out}
    d = {v: (("time", "y", "x"), a) for v, a in cols.items()}
    for v in proj:
        cols[v] = array(v, n)
        d[v] = (("time",), cols[v])
    co = {"time": (("time",), t), "y": (("y",), array("ys", ny)), "x": (("x",), array("xs", nx))}
    return n, ny, nx, t, cols, xrmod.Dataset(d, coords=co, attrs={"title": "frames"})


def found(R, v):
    if v not in R.vars:
        raise Unsupported("no %s in the result" % v)
    w = R.vars[v]
    if "time_bins" not in w.dims:
        raise Unsupported("%s has no interval dimension" % v)
    return w


def cell(w, r, i, j):
    at = {"time_bins": r, "y": i, "x": j}
    if set(w.dims) - set(at):
        raise Unsupported("other dimensions")
    return w.arr.elem(*[at[d] for d in w.dims])


def unit(span, leave_out=(), proj=()):
    def f(env):
        n, ny, nx, t, cols, D = dataset(leave_out, proj)
        names = list(D.vars)
        m = integer("minutes", 1)
        dt = raw(m) * MINUTE
        T = lambda k: t.sym(k)
        if span:
            nb = length("intervals", 1)
            s = z3.Int("start")
            first = s * 1000
            k0 = z3.Int("k0")
            E.assume(z3.And(k0 >= 0, k0 < n, first <= T(k0), T(k0) < first + nb * dt))
            whole = raw(m) * nb
            E.assume(whole >= 1)
            se = (dtmod.datetime._of(s), dtmod.datetime._of(s + whole * 60 * 10 ** 6))
            helper(z3.ToReal(whole * 60 * 10 ** 6) / z3.ToReal(raw(m) * 60 * 10 ** 6) == z3.ToReal(nb), 4000)
            R = env.fn(MOD, "aggregate")(D, m, start_end=se)
        else:
            R = env.fn(MOD, "aggregate")(D, m)
        if not isinstance(R, xrmod.Dataset):
            raise Unsupported("another kind of result")
        tb = found(R, "time_bins")
        if tb.dims != ("time_bins",):
            raise Unsupported("intervals of another form")
        N = iraw(tb.arr.shape[0])
        iv = lambda r: tb.arr.elem(r)

        def edges(r):
            v = iv(r)
            if not isinstance(v, xrmod.Interval) or not isinstance(v.left, dtmod.Timestamp):
                raise Unsupported("intervals of another form")
            return iraw(v.left.ns), iraw(v.right.ns)
        r = idx("r", N)
        lo, hi = edges(r)
        lo0 = edges(z3.IntVal(0))[0]
        prove("intervals are closed where they open", iv(r).closed == "left")
        prove("intervals follow one another in steps of the length asked for", z3.And(lo == lo0 + r * dt, hi == lo + dt))
        kk = idx("kk", n)
        if span:
            prove("the first interval opens the span", lo0 == first)
            prove("as many intervals as the span has", N == nb)
        else:
            prove("no frame before the first interval", lo0 <= T(kk))
            q = z3.Int("q!")
            prove("the first interval opens within a microsecond of the first frame",
                  z3.Not(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), T(q) >= lo0 + 1000))))
            prove("no frame after the last interval", T(kk) < edges(N - 1)[1])
        i, j = idx("i", ny), idx("j", nx)
        inside = lambda k: z3.And(lo <= T(k), T(k) < hi)
        k = idx("k", n)
        for v in SUMS:
            if v in leave_out:
                continue
            a = cols[v].frozen
            got = cell(found(R, v), r, i, j)
            want = theory.mksum(n, lambda q: ite(z3.And(inside(iraw(q)), z3.Not(raw(nan_of(a.elem(q, i, j))))), mk(num(a.elem(q, i, j))), Fraction(0)))
            prove("%s is the sum over the frames of the interval" % v, z3.Implies(inside(k), z3.And(
                z3.Not(raw(nan_of(got))), num(got) == num(want))))
        for v, ct in MEANS.items():
            a, b = cols[v].frozen, cols[ct].frozen
            got, cnt = cell(found(R, v), r, i, j), cell(found(R, ct), r, i, j)

            def both(q):
                x, y = a.elem(q, i, j), b.elem(q, i, j)
                return ite(z3.And(inside(iraw(q)), z3.Not(raw(nan_of(x))), z3.Not(raw(nan_of(y)))), mk(num(x) * num(y)), Fraction(0))
            tot = theory.mksum(n, both)
            prove("%s is the summed area over the summed count" % v, z3.Implies(z3.And(inside(k), num(cnt) != 0), z3.And(
                z3.Not(raw(nan_of(got))), num(got) * num(cnt) == num(tot))))
        for v in MIN:
            a = cols[v].frozen
            got = cell(found(R, v), r, i, j)
            x = a.elem(k, i, j)
            prove("%s is at most each of the interval's" % v, z3.Implies(z3.And(inside(k), z3.Not(raw(nan_of(x)))), z3.And(
                z3.Not(raw(nan_of(got))), num(got) <= num(x))))
            q = z3.Int("q!")
            y = a.elem(q, i, j)
            prove("%s is one of the interval's" % v, z3.Implies(z3.Not(raw(nan_of(got))), z3.Not(z3.ForAll([q], z3.Implies(
                z3.And(q >= 0, q < n), z3.Not(z3.And(inside(q), z3.Not(raw(nan_of(y))), num(y) == num(got))))))))
        for v in proj:
            found(R, v)
        prove("the frames keep their variables", list(D.vars) == names)
        for v in cols:
            unchanged("the frames' " + v, cols[v])
        unchanged("the frames' times", t)
    return f


def one_each(env):
    """intervals of length d from t0: a time of the span lies in one and in no other (about the intervals, not the code)"""
    t0, t, d, n, a, b = z3.Ints("t0 t d n a b")
    E.assume(z3.And(d >= 1, n >= 1, t0 <= t, t < t0 + n * d))
    r = (t - t0) / d
    u = t - t0
    E.assume(z3.And(u == d * r + u % d, u % d >= 0, u % d < d))
    lemma("step", z3.Implies(r >= n, (r - n) * d >= 0))
    lemma("the interval exists", z3.And(r >= 0, r < n))
    prove("it holds the time", z3.And(t0 + r * d <= t, t < t0 + (r + 1) * d))
    E.assume(a + 1 <= b)
    lemma("products", (b - a - 1) * d >= 0)
    prove("two intervals have no time in common", z3.Not(z3.And(t0 + a * d <= t, t < t0 + (a + 1) * d, t0 + b * d <= t, t < t0 + (b + 1) * d)))


c.units += [Unit(MOD + ".aggregate", "every time is in one interval", one_each),
            Unit(MOD + ".aggregate", "a given span", unit(True)),
            Unit(MOD + ".aggregate", "the whole series", unit(False)),
            Unit(MOD + ".aggregate", "with the projection, some products missing",
                 unit(True, ("total_energy", "group_centroid_density"), PROJ))]
