"""count_children: one exact count per parent row, in row order."""
from ..api import *
from .. import xrmod
from ..theory import mksum

c = Contract("T01")
MOD = "glmtools.io.traversal"
IDS = ("storm_id", "cell_id", "trig_id", "spark_id")
PAR = ("cell_parent_storm_id", "trig_parent_cell_id", "spark_parent_trig_id")
DIMS = ("nst", "nce", "ntr", "nsp")


GLM = (("flash_id", "group_id", "event_id"), ("group_parent_flash_id", "event_parent_group_id"),
       ("number_of_flashes", "number_of_groups", "number_of_events"))


def table(levels, distinct=True, extra=True, names=(IDS, PAR, DIMS)):
    """a hierarchy with arbitrary numbers of rows, arbitrary ids and parent ids"""
    IDS, PAR, DIMS = names
    ds = xrmod.Dataset()
    n = [length("n%d" % i) for i in range(levels)]
    ids, par = [], [None]
    for i in range(levels):
        a = array(IDS[i], n[i], sort="Int")
        ids.append(a)
        ds[IDS[i]] = (DIMS[i], a)
        if distinct:
            f = a.sym
            p, q = z3.Ints("dp! dq!")
            E.axioms.append(z3.ForAll([p, q], z3.Implies(z3.And(p >= 0, p < q, q < n[i]), f(p) != f(q)),
                                      patterns=[z3.MultiPattern(f(p), f(q))]))
        if i:
            b = array(PAR[i - 1], n[i], sort="Int")
            par.append(b)
            ds[PAR[i - 1]] = (DIMS[i], b)
        if extra:
            ds["row%d" % i] = (DIMS[i], Arr((n[i],), lambda k: mk(k) if not isinstance(k, int) else k, I8))
            ds["val%d" % i] = (DIMS[i], array("val%d" % i, n[i]))
    ds = ds.set_coords(list(IDS[:levels]) + list(PAR[:levels - 1]))
    return ds, n, ids, par


def trav(env, ds, levels):
    return env.fn(MOD, "OneToManyTraversal")(ds, list(IDS[:levels]), list(PAR[:levels - 1]))


def counts(levels, top, bottom):
    def f(env):
        ds, n, ids, par = table(levels, distinct=False, extra=False)
        t = trav(env, ds, levels)
        r = t.count_children(*([IDS[top]] if bottom is None else [IDS[top], IDS[bottom]]))
        last = top + 1 if bottom is None else bottom
        prove("one array of counts per level", len(r) == last - top)
        for j, cnt in enumerate(r):
            lv = top + j
            same_array("counts of %s per %s row" % (IDS[lv + 1], IDS[lv]), cnt,
                       lambda i: mksum(n[lv + 1], lambda k: ite(par[lv + 1].elem(k) == ids[lv].elem(i), 1, 0)),
                       (n[lv],))
        for a in ids + par[1:]:
            unchanged("ids", a)
    return f


def add(levels, top, bottom):
    nm = "%d levels, %s to %s" % (levels, IDS[top], "child" if bottom is None else IDS[bottom])
    c.units.append(Unit(MOD + ".OneToManyTraversal.count_children", nm, counts(levels, top, bottom),
                        opts={"counts": True}))


for a in [(2, 0, None), (2, 0, 1), (3, 0, None), (3, 0, 1), (3, 0, 2), (3, 1, None), (3, 1, 2), (4, 0, 3), (4, 1, 3)]:
    add(*a)


@c.unit("count_children (consequences of exact counts)", "the counts over existing parents sum to the children that have one")
def totals(env):
    """Induction over parents and over children, for distinct parent ids."""
    idf, parf = z3.Function("id", I, I), z3.Function("par", I, I)
    n0 = z3.Int("n0")
    p, q, m, v = z3.Ints("p q m v")
    one = lambda b: z3.If(b, 1, 0)
    ex = z3.Function("ex", I, I, B)            # ex(q, v): some parent before q has id v
    F = z3.Function("F", I, I, I)              # sum over parents before q of [id == v]
    C = z3.Function("C", I, I, I)              # children before m that name parent p
    G = z3.Function("G", I, I, I)              # sum over parents before q of C(p, m)
    H = z3.Function("H", I, I)                 # children before m that name an existing parent
    rec = [z3.ForAll([v], z3.And(F(0, v) == 0, z3.Not(ex(0, v)))),
           z3.ForAll([q, v], z3.Implies(q >= 0, F(q + 1, v) == F(q, v) + one(idf(q) == v))),
           z3.ForAll([q, v], z3.Implies(q >= 0, ex(q + 1, v) == z3.Or(ex(q, v), idf(q) == v))),
           z3.ForAll([p], C(p, 0) == 0),
           z3.ForAll([p, m], z3.Implies(m >= 0, C(p, m + 1) == C(p, m) + one(parf(m) == idf(p)))),
           z3.ForAll([m], G(0, m) == 0),
           z3.ForAll([q, m], z3.Implies(q >= 0, G(q + 1, m) == G(q, m) + C(q, m))),
           H(0) == 0,
           z3.ForAll([m], z3.Implies(m >= 0, H(m + 1) == H(m) + one(ex(n0, parf(m)))))]
    E.axioms += rec
    E.assume(n0 >= 0)
    qq, mm, vv = z3.Ints("qq mm vv")
    E.assume(z3.And(qq >= 0, qq < n0, mm >= 0))
    # distinct ids: an id seen before q differs from id(q)
    dist = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n0), z3.Not(ex(q, idf(q)))))
    imp = z3.Implies
    prove("each id is counted once: base", F(0, vv) == one(ex(0, vv)))
    prove("each id is counted once: step", imp(z3.And(dist, F(qq, vv) == one(ex(qq, vv))),
                                               F(qq + 1, vv) == one(ex(qq + 1, vv))))
    prove("adding one child, over the parents: base", G(0, mm + 1) == G(0, mm) + F(0, parf(mm)))
    prove("adding one child, over the parents: step",
          imp(G(qq, mm + 1) == G(qq, mm) + F(qq, parf(mm)), G(qq + 1, mm + 1) == G(qq + 1, mm) + F(qq + 1, parf(mm))))
    prove("totals agree: no children, base", G(0, 0) == 0)
    prove("totals agree: no children, step", imp(G(qq, 0) == 0, G(qq + 1, 0) == 0))
    prove("totals agree: step over the children",
          imp(z3.And(G(n0, mm) == H(mm), F(n0, parf(mm)) == one(ex(n0, parf(mm))),
                     G(n0, mm + 1) == G(n0, mm) + F(n0, parf(mm))), G(n0, mm + 1) == H(mm + 1)))


c.assume("hierarchies of two, three and four levels (GLM has three); any number of rows, any ids")


def tree(env):
    from .T05 import counts
    counts(env)


c.units.append(Unit("glmtools.io.glm.GLMDataset.__init_parent_child_data", "counts and flash of each event", tree,
                    opts={"counts": True}))
