"""reduce_to_entities: exactly the chosen rows, their descendants and their ancestors, each once, values kept."""
from ..api import *
from .T01 import MOD, IDS, PAR, DIMS, table, trav

c = Contract("T03")


def links(n, ids, par, levels, closed):
    """up(lv, o): the row of level lv-1 whose id row o of level lv names; has(lv, o): there is one"""
    up, has = [None], [None]
    for lv in range(1, levels):
        w, h = z3.Function("up%d" % lv, I, I), z3.Function("hasup%d" % lv, I, B)
        k, j = z3.Ints("ck! cj!")
        p, a = par[lv].sym, ids[lv - 1].sym
        E.axioms.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n[lv], h(k)),
                                                  z3.And(w(k) >= 0, w(k) < n[lv - 1], a(w(k)) == p(k))),
                                  patterns=[p(k)]))
        if closed:
            E.axioms.append(z3.ForAll([k], h(k), patterns=[h(k)]))
        else:
            E.axioms.append(z3.ForAll([k, j], z3.Implies(z3.And(z3.Not(h(k)), j >= 0, j < n[lv - 1]), a(j) != p(k)),
                                      patterns=[z3.MultiPattern(h(k), a(j))]))
        up.append(w)
        has.append(h)
    return up, has


def distinct(a, n):
    p, q = z3.Ints("dp! dq!")
    g = a.sym
    E.axioms.append(z3.ForAll([p, q], z3.Implies(z3.And(p >= 0, p < q, q < n), g(p) != g(q)),
                              patterns=[z3.MultiPattern(g(p), g(q))]))


def members(ks, rows, vals=()):
    """instances to try: where a row of a group sits in a concatenation of groups"""
    flats = [s.nested for s in E.ghost.get("flats", [])]
    ks = list(ks) + [m[1](v) for m in E.ghost.get("member", {}).values() for v in vals if m[3].sort() == v.sort()]
    ks += [s.locate(mk(v)) for s in E.ghost.get("sets", []) for v in vals]
    outs = list(ks) + [f[1](k) for f in flats for k in ks]
    ranks = [g[2](w) for g in E.ghost.get("groups", {}).values() for w in rows]
    return [f[3](o, i) for f in flats for o in outs for i in ranks] + ranks


def reduced(r, n, ids, par, up, has, levels, at, asked, m, before):
    """the postcondition of reduce_to_entities"""
    num, src = {}, {}
    for lv in range(levels):
        a = A(r["row%d" % lv])
        num[lv] = iraw(a.shape[0])
        src[lv] = (lambda a: lambda i: raw(a.elem(i)))(a)

    def missing(lv, o):
        """no kept row of level lv stems from row o"""
        k = z3.Int("nk!")
        return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < num[lv]), src[lv](k) != o))
    for lv in range(levels):
        L = "level %d: " % lv
        i = idx("kept%d" % lv, num[lv])
        o = src[lv](i)
        prove(L + "a kept row is a row of the input", z3.And(o >= 0, o < n[lv]))
        for nm in [IDS[lv], "val%d" % lv] + ([PAR[lv - 1]] if lv else []):
            b = A(r[nm])
            prove(L + "%s has one value per kept row" % nm, core.i_eq(b.shape[0], num[lv]))
            prove(L + "%s of a kept row is kept" % nm, eq(b.elem(i), before[nm].elem(o)))
        j = idx("keptb%d" % lv, num[lv])
        prove(L + "no row is kept twice", z3.Implies(i != j, o != src[lv](j)))
        row = idx("row%d!" % lv, n[lv])
        if lv == at:
            inask = lambda v: raw(seq.contains(asked, mk(v)))
            prove(L + "kept rows have chosen ids", inask(ids[lv].sym(o)))
            prove(L + "rows with chosen ids are kept", z3.Implies(inask(ids[lv].sym(row)), z3.Not(missing(lv, row))),
                  hints=members([], [row], [ids[lv].sym(row)]))
            p, q = idx("pa", m), idx("qa", m)
            prove(L + "kept rows are in the order the ids were asked for",
                  z3.Implies(z3.And(i < j, raw(asked.elem(p)) == ids[lv].sym(o),
                                    raw(asked.elem(q)) == ids[lv].sym(src[lv](j))), p < q))
        elif lv > at:
            w = up[lv](o)
            prove(L + "kept rows descend from a kept row", z3.And(has[lv](o), z3.Not(missing(lv - 1, w))),
                  hints=[par[lv].sym(o), has[lv](o)] + members([i], [w]))
            k = idx("above%d" % lv, num[lv - 1])
            prove(L + "rows that descend from a kept row are kept",
                  z3.Implies(par[lv].sym(row) == ids[lv - 1].sym(src[lv - 1](k)), z3.Not(missing(lv, row))),
                  hints=members([k], [row]))
        else:
            k = z3.Int("nb!")
            b, a = A(r[PAR[lv]]), A(r[IDS[lv]])
            none = z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < num[lv + 1]), raw(b.elem(k)) != raw(a.elem(i))))
            prove(L + "kept rows are parents of a kept row", z3.Not(none))
            k = idx("below%d" % lv, num[lv + 1])
            w = up[lv + 1](src[lv + 1](k))
            prove(L + "parents of kept rows are kept",
                  z3.Implies(has[lv + 1](src[lv + 1](k)), z3.Not(missing(lv, w))), hints=[par[lv + 1].sym(src[lv + 1](k))])
    return num, src


def reduce(levels, at, closed):
    def f(env):
        ds, n, ids, par = table(levels)
        up, has = links(n, ids, par, levels, closed)
        m = length("nasked")
        asked = array("asked", m, sort="Int")
        distinct(asked, m)
        if not closed:
            # chosen ids that exist
            w, k = z3.Function("where", I, I), z3.Int("wk!")
            E.axioms.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z3.And(
                w(k) >= 0, w(k) < n[at], ids[at].sym(w(k)) == asked.sym(k))), patterns=[asked.sym(k)]))
        t = trav(env, ds, levels)
        before = {k: v.arr.snapshot() for k, v in ds.vars.items()}
        held = dict(ds.vars)
        r = t.reduce_to_entities(IDS[at], asked)
        prove("all variables are kept", set(r.vars) == set(before))
        reduced(r, n, ids, par, up, has, levels, at, asked, m, before)
        prove("the input dataset holds the same variables", ds.vars == held, kind="frame")
        for nm, a in before.items():
            x = idx(E.name("fr"), a.shape[0])
            prove("input %s is left unchanged" % nm, eq(ds.vars[nm].arr.elem(x), a.elem(x)), kind="frame")
        unchanged("the list of chosen ids", asked)
    return f


for levels, at in [(2, 0), (2, 1), (3, 0), (3, 1), (3, 2)]:
    for closed in (True, False):
        c.units.append(Unit(MOD + ".OneToManyTraversal.reduce_to_entities",
                            "%d levels, chosen %s, %s" % (levels, IDS[at], "every link exists" if closed else
                                                          "links may be missing, chosen ids exist"),
                            reduce(levels, at, closed)))

c.assume("entity ids are distinct within their level, chosen ids are distinct; hierarchies of two and three levels, "
         "any number of rows", "ancestors and descendants more than one level away follow by applying the "
         "level-to-level obligations repeatedly")
