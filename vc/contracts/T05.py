"""subset_flashes asks for exactly the flashes that meet every requested criterion."""
from ..api import *
from .. import xrmod
from ..theory import mksum
from .T01 import GLM, table
from .T03 import links
from . import T03

c = Contract("T05")
MOD = "glmtools.io.glm"
FOV = Q("0.1349")


def glm(env, levels=3):
    ds, n, ids, par = table(3, names=GLM, extra=False)
    cols = {}
    for nm, lv, srt in [("flash_x", 0, "Real"), ("flash_y", 0, "Real"), ("flash_lon", 0, "Real"),
                        ("flash_lat", 0, "Real"), ("flash_child_event_count", 0, "Int"),
                        ("flash_child_group_count", 0, "Int"), ("event_x", 2, "Real"), ("event_y", 2, "Real"),
                        ("event_parent_flash_id", 2, "Int")]:
        a = array(nm, n[lv], sort=srt)
        cols[nm] = a
        ds[nm] = (GLM[2][lv], a)
    cls = env.fn(MOD, "GLMDataset")
    g = object.__new__(cls)
    g.entity_ids, g.parent_ids = list(GLM[0]), list(GLM[1])
    g.dataset = ds
    g.fl_dim, g.gr_dim, g.ev_dim = GLM[2]
    return g, n, ids, par, cols


def choose(name, mkv):
    return mkv() if E.decide(raw(boolean("with " + name))) else None


def subset(check, fix):
    def f(env):
        g, n, ids, par, cols = glm(env)
        asked = []
        result = object()

        def reduce_to_entities(name, which):
            asked.append((name, which))
            return result
        g.reduce_to_entities = reduce_to_entities
        pair = lambda nm: lambda: (real(nm + "0"), real(nm + "1"))
        rng = {}
        for nm in ("x", "y"):
            rng[nm] = pair(nm)() if fix[nm] else None
        for nm in ("lon", "lat"):
            rng[nm] = choose(nm, pair(nm))
        mins = {nm: choose(nm, lambda: integer("min_" + nm)) for nm in ("events", "groups")}
        kw = {nm + "_range": v for nm, v in rng.items() if v is not None}
        kw.update({"min_" + nm: v for nm, v in mins.items() if v is not None})
        if check is not True:
            kw["check_event_xy"] = False
        r = g.subset_flashes(**kw)
        if len(asked) != 1 or r is not result:
            raise Unsupported("the result does not come from one call of reduce_to_entities")
        prove("flashes are selected by flash id", asked[0][0] == "flash_id")
        got = seq.lift(asked[0][1])
        if isinstance(got, list):
            got = seq.Seq(len(got), lambda i: got[i])
        got = got.compact()
        m = iraw(got.n)
        at = lambda i: raw(got.at(i))
        C = {k: a.sym for k, a in cols.items()}

        def meets(w):
            t = []
            for nm in rng:
                if rng[nm] is not None:
                    v = C["flash_" + nm](w)
                    t += [v > raw(rng[nm][0]), v < raw(rng[nm][1])]
            for nm in mins:
                if mins[nm] is not None:
                    t.append(C["flash_child_%s_count" % nm[:-1]](w) >= raw(mins[nm]))
            return z3.And(*t) if t else z3.BoolVal(True)

        def inside(e):
            t = []
            for nm in ("x", "y"):
                v = C["event_" + nm](e)
                t += [v > z3.Q(-1349, 10000), v < z3.Q(1349, 10000)]
                if rng[nm] is not None:
                    t += [v > raw(rng[nm][0]), v < raw(rng[nm][1])]
            return z3.And(*t)
        k, w, e = idx("k", m), z3.Int("w!"), z3.Int("e!")
        prove("selected: the flash exists and meets every flash criterion", z3.Not(z3.ForAll([w], z3.Implies(
            z3.And(w >= 0, w < n[0], meets(w)), ids[0].sym(w) != at(k)))))
        if check:
            prove("selected: it has an event strictly inside", z3.Not(z3.ForAll([e], z3.Implies(
                z3.And(e >= 0, e < n[2], inside(e)), C["event_parent_flash_id"](e) != at(k)))))
        j = idx("j", m)
        prove("selected: none twice", z3.Implies(k != j, at(k) != at(j)))
        fl, ev = idx("fl", n[0]), idx("ev", n[2])
        v = ids[0].sym(fl)
        want = meets(fl)
        if check:
            want = z3.And(want, inside(ev), C["event_parent_flash_id"](ev) == v)
        q = z3.Int("q!")
        hints = [C["event_parent_flash_id"](ev)]
        for t in E.ghost.get("compress", {}).values():
            hints += [t[2](fl), t[2](ev)]
        for s in E.ghost.get("sets", []):
            hints.append(s.locate(mk(v)))
        prove("every flash that meets them is selected", z3.Implies(want, z3.Not(z3.ForAll([q], z3.Implies(
            z3.And(q >= 0, q < m), at(q) != v)))), hints=hints)
        for a in ids + par[1:] + list(cols.values()):
            unchanged("dataset", a)
    return f


for check in (True, False):
    for x in (True, False):
        for y in (True, False):
            c.units.append(Unit(MOD + ".GLMDataset.subset_flashes", "%s%s%s" % (
                "event check on" if check else "event check off", ", x bounds" if x else "", ", y bounds" if y else ""),
                subset(check, dict(x=x, y=y)), opts={"budget_s": 300}))


def counts(env):
    """the count columns subset_flashes reads"""
    ds, n, ids, par = table(3, names=GLM, extra=False)
    up, _ = links(n, ids, par, 3, True)
    cls = env.fn(MOD, "GLMDataset")
    g = object.__new__(cls)
    g._filename = "file"
    g.fl_dim, g.gr_dim, g.ev_dim = GLM[2]
    env.fn("glmtools.io.traversal", "OneToManyTraversal").__init__(g, ds, list(GLM[0]), list(GLM[1]))
    E.assume(z3.And(n[0] > 0, n[1] > 0, n[2] > 0))
    g._GLMDataset__init_parent_child_data()
    d = g.dataset
    same_array("event_parent_flash_id", d["event_parent_flash_id"],
               lambda e: mk(par[1].sym(up[2](iraw(e)))), (n[2],))
    same_array("flash_child_group_count", d["flash_child_group_count"],
               lambda i: mksum(n[1], lambda k: ite(par[1].elem(k) == ids[0].elem(i), 1, 0)), (n[0],))
    same_array("group_child_event_count", d["group_child_event_count"],
               lambda i: mksum(n[2], lambda k: ite(par[2].elem(k) == ids[1].elem(i), 1, 0)), (n[1],))
    for gr in E.ghost.get("groupers", []):
        gr.count_at(ids[0].elem(idx("fl", n[0])))
    same_array("flash_child_event_count", d["flash_child_event_count"],
               lambda i: mksum(n[2], lambda k: ite(mk(par[1].sym(up[2](iraw(k)))) == ids[0].elem(i), 1, 0)), (n[0],), ["fl"])


c.units.append(Unit(MOD + ".GLMDataset.__init_parent_child_data", "counts and flash of each event", counts,
                    opts={"counts": True}))
c.units.append(Unit("glmtools.io.traversal.OneToManyTraversal.reduce_to_entities",
                    "complete with all groups and events (3 levels, chosen storm_id)", T03.reduce(3, 0, True)))
c.assume("reduce_to_entities by its own contract at the call in subset_flashes (that contract is discharged in T03 and "
         "for three levels here too)", "ids distinct within their level; stored coordinates are numbers, not NaN")
