"""Accumulators: every record at its own cell, nothing elsewhere; selection of the data set up for."""
from ..api import *

c = Contract("A02")
MOD = "glmtools.grid.accumulate"
SENDS = 3
c.assume("real arithmetic in place of IEEE single precision",
         "each of the first three batches is proved from arbitrary grid contents; later ones by the same step "
         "(the coroutine keeps nothing but its arguments between batches)",
         "a batch addresses each cell at most once, with indices inside the grid")


def batch(t, ny, nx, nonneg):
    m = length("m%d" % t)
    v = array("v%d" % t, m)
    xi, yi = array("xi%d" % t, m, sort="Int"), array("yi%d" % t, m, sort="Int")
    p, q = z3.Ints("bp! bq!")
    X, Y = xi.sym, yi.sym
    E.axioms.append(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < m), z3.And(X(p) >= 0, X(p) < nx)), patterns=[X(p)]))
    E.axioms.append(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < m), z3.And(Y(p) >= 0, Y(p) < ny)), patterns=[Y(p)]))
    E.axioms.append(z3.ForAll([p, q], z3.Implies(z3.And(p >= 0, p < q, q < m), z3.Or(X(p) != X(q), Y(p) != Y(q))),
                              patterns=[z3.MultiPattern(X(p), X(q))]))
    if nonneg:
        E.axioms.append(z3.ForAll([p], v.sym(p) >= 0, patterns=[v.sym(p)]))
    d = {"value": v, "other": array("other%d" % t, m), "mesh_xi": xi, "mesh_yi": yi}
    return m, d, v, xi, yi


def accumulate(fn, minimum):
    def f(env):
        ny, nx = length("ny"), length("nx")
        grid = array("start", ny, nx)
        if minimum:
            a, b = z3.Ints("ga! gb!")
            E.axioms.append(z3.ForAll([a, b], grid.sym(a, b) >= 0, patterns=[grid.sym(a, b)]))
        t = env.fn(MOD, fn)(grid, "value", "mesh_xi", "mesh_yi")
        y, x = idx("y", ny), idx("x", nx)
        prove("nothing is added before the first batch", eq(grid.elem(y, x), grid.frozen.elem(y, x)))
        for s in range(SENDS):
            m, d, v, xi, yi = batch(s, ny, nx, minimum)
            before = array("grid%d" % s, ny, nx)
            if minimum:
                a, b = z3.Ints("ga! gb!")
                E.axioms.append(z3.ForAll([a, b], before.sym(a, b) >= 0, patterns=[before.sym(a, b)]))
            grid[...] = before
            t.send(d)
            B = "batch %d: " % (s + 1)
            y, x, p = idx("y%d" % s, ny), idx("x%d" % s, nx), idx("p%d" % s, m)
            g0, g1 = before.frozen.elem(y, x), grid.elem(y, x)
            k = z3.Int("ak!")
            none = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z3.Or(xi.sym(k) != x, yi.sym(k) != y)),
                             patterns=[xi.sym(k)])
            want = g0 + v.elem(p) if not minimum else ite(raw(g0 == 0), v.elem(p), ite(raw(c_or(g0 < v.elem(p), v.elem(p) <= 0)), g0, v.elem(p)))
            hints = [xi.sym(p), yi.sym(p)] + [h[2](p) for h in E.ghost.get("compress", {}).values()]
            prove(B + "the addressed cell", z3.Implies(z3.And(xi.sym(p) == x, yi.sym(p) == y), raw(g1) == raw(want)),
                  hints=hints)
            prove(B + "other cells are unchanged", z3.Implies(none, raw(g1) == raw(g0)))
            for nm, arr_ in d.items():
                unchanged(B + "record column " + nm, arr_)
        t.close()
    return f


class Sink:
    def __init__(self):
        self.got = []

    def send(self, x):
        self.got.append(x)


def select(kw):
    def f(env):
        s = Sink()
        t = env.fn(MOD, "select_dataset")(s, **kw)
        prove("nothing is passed on before data arrive", s.got == [])
        for b in range(SENDS):
            n, m = length("nev%d" % b), length("nfl%d" % b)
            ev, fl = array("ev%d" % b, n), array("fl%d" % b, m)
            s.got = []
            t.send((ev, fl))
            pick, k = (ev, n) if kw.get("use_event_data", True) else (fl, m)
            if len(s.got) == 0:
                prove("batch %d: only empty data are held back" % (b + 1), k == 0)
            else:
                prove("batch %d: passed on once, as they came" % (b + 1), len(s.got) == 1 and s.got[0] is pick)
                prove("batch %d: empty data are held back" % (b + 1), k > 0)
        t.close()
    return f


c.units.append(Unit(MOD + ".accumulate_var_on_grid_direct_idx", "sum", accumulate("accumulate_var_on_grid_direct_idx", False)))
c.units.append(Unit(MOD + ".accumulate_minvar_on_grid_direct_idx", "minimum",
                    accumulate("accumulate_minvar_on_grid_direct_idx", True)))
for kw in ({}, {"use_event_data": True}, {"use_event_data": False}):
    c.units.append(Unit(MOD + ".select_dataset", "%s" % (kw or "default"), select(kw)))
