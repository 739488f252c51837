"""discretize_2d_location: equal ids exactly for equal cells."""
from ..api import *

c = Contract("L01")
MOD = "glmtools.io.glm"
c.assume("real arithmetic in place of IEEE double precision", "positions within the ranges given (edges included)",
         "the grid has fewer than 2**64 cells")


def cell(v, lo, s):
    return theory_floor((raw(v) - raw(lo)) / raw(s))


def theory_floor(t):
    return z3.ToInt(t)


def ids(env):
    f = env.fn(MOD, "discretize_2d_location")
    s = real("scale")
    xr, yr = (real("xlo"), real("xhi")), (real("ylo"), real("yhi"))
    E.assume(z3.And(raw(s) > 0, raw(xr[1]) >= raw(xr[0]), raw(yr[1]) >= raw(yr[0])))
    X, Y = [], []
    at, out = [], []
    mx, my = cell(xr[1], xr[0], s), cell(yr[1], yr[0], s)
    E.assume((mx + 1) * (my + 1) < 2 ** 64)
    for call in range(2):
        n = length("n%d" % call)
        x, y = array("x%d" % call, n), array("y%d" % call, n)
        for a, (lo, hi) in ((x, xr), (y, yr)):
            forall("in!", n, lambda k: z3.And(raw(a.elem(k)) >= raw(lo), raw(a.elem(k)) <= raw(hi)))
        r = A(f(x, y, s, xr, yr))
        prove("one id per position, call %d" % call, core.i_eq(r.shape[0], n))
        i = idx("i%d" % call, n)
        at.append((cell(x.elem(i), xr[0], s), cell(y.elem(i), yr[0], s)))
        out.append(raw(r.elem(i)))
        X.append(x)
        Y.append(y)
        unchanged("x", x)
        unchanged("y", y)
    same_cell = z3.And(at[0][0] == at[1][0], at[0][1] == at[1][1])
    for k in (0, 1):
        lemma("cell of position %d within the grid, x" % k, z3.And(at[k][0] >= 0, at[k][0] <= mx))
        lemma("cell of position %d within the grid, y" % k, z3.And(at[k][1] >= 0, at[k][1] <= my))
        helper(out[k] == at[k][0] + at[k][1] * (mx + 1)) or helper(out[k] == at[k][1] + at[k][0] * (my + 1))
        prove("id of position %d fits in 64 bits" % k, z3.And(out[k] >= 0, out[k] < 2 ** 64))
    prove("same cell, same id (between and within calls)", z3.Implies(same_cell, out[0] == out[1]))
    prove("same id, same cell (between and within calls)", z3.Implies(out[0] == out[1], same_cell))


c.units.append(Unit(MOD + ".discretize_2d_location", "any positions, ranges and scale", ids))
