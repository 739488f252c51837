"""check_parent_child reports exactly the childless parents and the orphans; opening a dataset closes the tree."""
from ..api import *
from .. import xrmod
from .T01 import MOD, IDS, PAR, GLM, table, trav
from .T03 import members

c = Contract("T04")


def nowhere(a, n, v):
    """no row of a holds v"""
    k = z3.Int("nw!")
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), a.sym(k) != v))


def reports(s, what, count, inside, ni, outside, no):
    """s is exactly the values of `inside` that `outside` does not hold, count its size"""
    s = seq.SSet(seq.lift(s)) if isinstance(s, (set, frozenset, list)) and len(s) else s
    if isinstance(s, (set, frozenset)):
        m, at = 0, None
    else:
        m, at = iraw(s.n), lambda i: raw(s.at(i))
    prove(what + ": the count is the number of reported ids", core.i_eq(count, m))
    if at:
        i, j = idx(E.name("ri"), m), idx(E.name("rj"), m)
        prove(what + ": a reported id is one of the level", z3.Not(nowhere(inside, ni, at(i))))
        prove(what + ": a reported id has no match", nowhere(outside, no, at(i)))
        prove(what + ": no id is reported twice", z3.Implies(i != j, at(i) != at(j)))
    row = idx(E.name("rw"), ni)
    v = inside.sym(row)
    k = z3.Int("rk!")
    absent = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), at(k) != v)) if at else z3.BoolVal(True)
    prove(what + ": every id without a match is reported", z3.Implies(nowhere(outside, no, v), z3.Not(absent)),
          hints=[s.locate(v)] if getattr(s, "_locate", None) else [])


def check(levels):
    def f(env):
        ds, n, ids, par = table(levels, distinct=False, extra=False)
        t = trav(env, ds, levels)
        es, ps = t.check_parent_child()
        prove("one report per parent level", set(es) == set(IDS[:levels - 1]) and set(ps) == set(PAR[:levels - 1]))
        for lv in range(levels - 1):
            _, ne, se = es[IDS[lv]]
            reports(se, "%s without children" % IDS[lv], ne, ids[lv], n[lv], par[lv + 1], n[lv + 1])
            _, np_, sp = ps[PAR[lv]]
            reports(sp, "%s without a parent" % PAR[lv], np_, par[lv + 1], n[lv + 1], ids[lv], n[lv])
        for a in ids + par[1:]:
            unchanged("ids", a)
    return f


for lv in (2, 3):
    c.units.append(Unit(MOD + ".OneToManyTraversal.check_parent_child", "%d levels" % lv, check(lv)))


def opened(env, some):
    IDS, PAR, _ = GLM
    ds, n, ids, par = table(3, names=GLM)
    E.assume(some(*n))
    before = {k: v.arr.snapshot() for k, v in ds.vars.items()}
    g = env.fn("glmtools.io.glm", "GLMDataset")(ds, calculate_parent_child=False, check_area_units=False,
                                                change_energy_units=False, fix_bad_DO07_times=False)
    r = g.dataset
    prove("all variables are kept", set(r.vars) == set(before))
    num, src = {}, {}
    for lv in range(3):
        a = A(r["row%d" % lv])
        num[lv] = iraw(a.shape[0])
        src[lv] = (lambda a: lambda i: raw(a.elem(i)))(a)
    for lv in range(3):
        L = IDS[lv][:-3] + ": "
        i = idx("kept%d" % lv, num[lv])
        o = src[lv](i)
        prove(L + "a kept row is a row of the file", z3.And(o >= 0, o < n[lv]))
        for nm in [IDS[lv], "val%d" % lv] + ([PAR[lv - 1]] if lv else []):
            prove(L + "%s has one value per kept row" % nm, core.i_eq(A(r[nm]).shape[0], num[lv]))
            prove(L + "%s of a kept row is kept" % nm, eq(A(r[nm]).elem(i), before[nm].elem(o)))
        j = idx("keptb%d" % lv, num[lv])
        prove(L + "no row is kept twice", z3.Implies(i != j, o != src[lv](j)))
        if lv:
            a, k = A(r[IDS[lv - 1]]), z3.Int("ea!")
            none = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < num[lv - 1]), raw(a.elem(k)) != par[lv].sym(o)))
            prove(L + "its parent exists", z3.Not(none), hints=members([i], [o], [par[lv].sym(o)]))
    a, b, k = A(r[IDS[0]]), A(r[PAR[0]]), z3.Int("eb!")
    i = idx("fl", num[0])
    prove("flash: none is without groups", z3.Not(z3.ForAll([k], z3.Implies(
        z3.And(k >= 0, k < num[1]), raw(b.elem(k)) != raw(a.elem(i))))), hints=members([i], [src[0](i)]))
    gr, ev, fl = idx("gr", n[1]), idx("ev", n[2]), idx("flx", n[0])
    has = par[1].sym(gr) == ids[0].sym(fl)

    def missing(lv, o):
        k = z3.Int("mi!")
        return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < num[lv]), src[lv](k) != o))
    prove("flash: every one that had groups is kept", z3.Implies(has, z3.Not(missing(0, fl))),
          hints=members([], [fl], [ids[0].sym(fl)]))
    fk, gk = idx("fk", num[0]), idx("gk", num[1])
    prove("group: all groups of a kept flash are kept",
          z3.Implies(par[1].sym(gr) == ids[0].sym(src[0](fk)), z3.Not(missing(1, gr))), hints=members([fk], [gr]))
    prove("event: all events of a kept group are kept",
          z3.Implies(par[2].sym(ev) == ids[1].sym(src[1](gk)), z3.Not(missing(2, ev))), hints=members([gk], [ev]))


for nm, some in [("flashes, groups and events", lambda f, g, e: z3.And(f > 0, g > 0, e > 0)),
                 ("no flashes", lambda f, g, e: f == 0), ("no groups", lambda f, g, e: z3.And(f > 0, g == 0)),
                 ("no events", lambda f, g, e: z3.And(f > 0, g > 0, e == 0))]:
    c.units.append(Unit("glmtools.io.glm.GLMDataset.__init__", "tree check and repair, " + nm,
                        (lambda some: lambda env: opened(env, some))(some)))
c.assume("ids of flashes, of groups and of events are distinct within their own level")
