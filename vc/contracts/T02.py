"""replicate_parent_ids: the ancestor found by following the row's own parent links."""
from ..api import *
from .T01 import MOD, IDS, PAR, table, trav

c = Contract("T02")


def close(n, ids, par, lo, hi):
    """every row of the levels lo+1..hi names an existing row one level up"""
    for lv in range(lo + 1, hi + 1):
        w = z3.Function("up%d" % lv, I, I)
        k = z3.Int("ck!")
        p, a = par[lv].sym, ids[lv - 1].sym
        E.axioms.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n[lv]),
                                                  z3.And(w(k) >= 0, w(k) < n[lv - 1], a(w(k)) == p(k))),
                                  patterns=[p(k)]))


def up(levels, bottom, top, closed):
    """ids of level top for the rows of level bottom"""
    def f(env):
        ds, n, ids, par = table(levels, extra=False)
        if closed:
            close(n, ids, par, top, bottom)
        t = trav(env, ds, levels)
        r = A(t.replicate_parent_ids(IDS[top], PAR[bottom - 1]))
        prove("one entry per row of %s" % IDS[bottom], core.i_eq(r.shape[0], n[bottom]))
        i = idx("row", n[bottom])
        # rows on the way up: any chain of rows linked by parent ids
        v = par[bottom].elem(i)
        chain = [i >= 0]
        for lv in range(bottom - 1, top, -1):
            w = z3.Int("anc%d" % lv)
            # ... exists, or the call would have raised
            k = z3.Int("none!%d" % lv)
            a = ids[lv].sym
            no = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n[lv]), a(k) != raw(v)), patterns=[a(k)])
            prove("the link of each row to %s exists" % IDS[lv], z3.Implies(z3.And(*chain), z3.Not(no)))
            chain.append(z3.And(w >= 0, w < n[lv], raw(ids[lv].elem(w)) == raw(v)))
            v = par[lv].elem(w)
        prove("the id reached by following the row's own links", z3.Implies(z3.And(*chain), raw(eq(r.elem(i), v))))
        for x in ids + par[1:]:
            unchanged("ids", x)
    return f


for levels, bottom, top in [(2, 1, 0), (3, 2, 0), (3, 2, 1), (3, 1, 0), (4, 3, 0), (4, 2, 0)]:
    for closed in (True, False):
        c.units.append(Unit(MOD + ".OneToManyTraversal.replicate_parent_ids",
                            "%d levels, %s for each %s, %s" % (levels, IDS[top], IDS[bottom],
                                                               "every link exists: no error" if closed else
                                                               "links may be missing"),
                            up(levels, bottom, top, closed), raises=() if closed else (KeyError,)))

c.assume("entity ids are distinct within their level; hierarchies of two to four levels, any number of rows",
         "a missing link may raise KeyError; when it does not, the obligations hold all the same")


def tree(env):
    from .T05 import counts
    counts(env)


c.units.append(Unit("glmtools.io.glm.GLMDataset.__init_parent_child_data", "counts and flash of each event", tree,
                    opts={"counts": True}))
