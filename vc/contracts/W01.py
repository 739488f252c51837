"""Replication: every piece carries its parent's values, weighted as asked, and the parent data stay as they are."""
from ..api import *
from .. import xrmod
from . import T01

c = Contract("W01")
NEW = "glmtools.io.mimic_lma.replicate_and_weight_split_child_dataset_new"
OLD = "glmtools.grid.split_events.replicate_and_weight_split_child_dataset"
AREA, MESH = "split_%s_area_fraction", "split_%s_mesh_area_fraction"
BYAREA = ("lutevent_energy",)
BYMESH = ("lutevent_count", "lutevent_flash_count", "lutevent_group_count", "lutevent_total_flash_area",
          "lutevent_total_group_area")
PLAIN = ("lutevent_id", "lutevent_time_offset", "lutevent_min_flash_area")


def pieces(lev, n, ids):
    """m pieces in any order, each naming one of the n parents, with arbitrary shares"""
    m = length("pieces")
    dim = "number_of_split_%s_children" % lev
    par = array("pieceparent", m, sort="Int")
    w, k = z3.Function("where", I, I), z3.Int("wk!")
    E.axioms.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < m), z3.And(
        w(k) >= 0, w(k) < n, ids.sym(w(k)) == par.sym(k))), patterns=[par.sym(k)]))
    cols = {"split_%s_parent_%s_id" % (lev, lev): par, AREA % lev: array("share", m), MESH % lev: array("cellshare", m),
            "split_%s_mesh_x_idx" % lev: array("xidx", m, sort="Int"), "split_%s_mesh_y_idx" % lev: array("yidx", m, sort="Int")}
    return m, dim, w, cols, xrmod.Dataset({k: ((dim,), v) for k, v in cols.items()})


def distinct(ids, n):
    p, q, f = z3.Int("dp!"), z3.Int("dq!"), ids.sym
    E.axioms.append(z3.ForAll([p, q], z3.Implies(z3.And(p >= 0, p < q, q < n), f(p) != f(q)),
                              patterns=[z3.MultiPattern(f(p), f(q))]))


def carried(r, m, dim, w, cols, before, names, weights):
    """the postcondition"""
    for nm in names:
        v = r.vars.get("split_" + nm)
        prove("split_%s is there" % nm, v is not None)
        if v is None:
            continue
        prove("split_%s lies along the pieces" % nm, tuple(v.dims) == (dim,))
        src = before[nm]
        wt = cols[weights[nm]] if nm in weights else None
        same_array("split_%s is the parent's value%s" % (nm, "" if wt is None else " times " + weights[nm]), v.arr,
                   lambda i: src.elem(w(i)) if wt is None else src.elem(w(i)) * wt.frozen.elem(i), (m,))
    for nm, a in cols.items():
        prove("column %s is still there" % nm, nm in r.vars)
        if nm in r.vars:
            same_array("column %s is kept" % nm, r.vars[nm].arr, lambda i: a.frozen.elem(i), (m,))


def preaggregated(how):
    def f(env):
        n = length("parents")
        ids = array("lutevent_id", n, sort="Int")
        distinct(ids, n)
        d = ("lutevent_id",)
        ds = xrmod.Dataset({nm: (d, array(nm, n, sort="Int" if nm == "lutevent_time_offset" else "Real"))
                            for nm in BYAREA + BYMESH + PLAIN + ("lutevent_x",) if nm != "lutevent_id"},
                           coords={"lutevent_id": (d, ids)})
        before = {k: v.arr.snapshot() for k, v in ds.vars.items()}
        held = {k: v.arr for k, v in ds.vars.items()}
        m, dim, w, cols, sp = pieces("event", n, ids)
        fn = env.fn(*NEW.rsplit(".", 1))
        if how == "defaults":
            names = PLAIN + BYAREA + BYMESH
            weights = dict([(k, AREA % "event") for k in BYAREA] + [(k, MESH % "event") for k in BYMESH])
            r = fn(ds, sp)
        else:
            names = ["lutevent_min_flash_area", "lutevent_energy", "lutevent_x"]
            weights = {"lutevent_energy": MESH % "event", "lutevent_min_flash_area": AREA % "event",
                       "lutevent_flash_count": AREA % "event"}
            r = fn(ds, sp, names=list(names), weights=dict(weights))
        carried(r, m, dim, w, cols, before, names, weights)
        frame(ds, held, before)
    return f


def frame(ds, held, before):
    prove("the parent data hold the same variables", set(ds.vars) == set(held), kind="frame")
    for nm, a in before.items():
        if nm in ds.vars:
            same_array("parent %s is left unchanged" % nm, ds.vars[nm].arr, lambda *i: a.elem(*i), a.shape)


for how in ("defaults", "explicit names and weights"):
    c.units.append(Unit(NEW, how, preaggregated(how)))

LEVELS = {"flash": (["flash_time_offset_of_first_event", "flash_area", "flash_energy"], ["flash_energy", "flash_area"]),
          "group": (["group_time_offset", "group_area", "group_energy"], ["group_energy", "group_area"]),
          "event": (["event_energy", "event_time_offset", "event_parent_flash_id", "event_parent_group_id"], ["event_energy"])}


def by_entity(at):
    lev = ("flash", "group", "event")[at]

    def f(env):
        ds, n, ids, par = T01.table(3, extra=False, names=T01.GLM)
        names, wt = LEVELS[lev]
        for nm in names:
            if nm not in ds.vars:
                ds[nm] = (T01.GLM[2][at], array(nm, n[at]))
        glm = env.fn(T01.MOD, "OneToManyTraversal")(ds, list(T01.GLM[0]), list(T01.GLM[1]))
        before = {k: v.arr.snapshot() for k, v in ds.vars.items()}
        held = {k: v.arr for k, v in ds.vars.items()}
        m, dim, w, cols, sp = pieces(lev, n[at], ids[at])
        fn = env.fn(*OLD.rsplit(".", 1))
        weights = {k: AREA % lev for k in wt}
        if lev == "event":
            r = fn(glm, sp)
        else:
            r = fn(glm, sp, parent_id=lev + "_id", split_child_parent_id="split_%s_parent_%s_id" % (lev, lev),
                   names=list(names), weights=dict(weights))
        carried(r, m, dim, w, cols, before, names, weights)
        frame(ds, held, before)
    return f


for at in (2, 1, 0):
    c.units.append(Unit(OLD, "pieces of " + ("flashes", "groups", "events")[at], by_entity(at), opts={"singletons": True, "feas_ms": 100}))


@c.unit("replicated energies (consequence of the values carried)", "energies of the pieces of a parent sum to the parent's energy")
def conserved(env):
    """Induction over the pieces."""
    par, w, carried_ = z3.Function("par", I, I), z3.Function("w", I, R), z3.Function("carried", I, R)
    P, W = z3.Function("P", I, R), z3.Function("W", I, R)
    v, e, m = z3.Int("v"), z3.Real("e"), z3.Int("m")
    k = z3.Int("k!")
    E.axioms += [P(0) == 0, W(0) == 0,
                 z3.ForAll([k], z3.Implies(k >= 0, P(k + 1) == P(k) + z3.If(par(k) == v, carried_(k), 0))),
                 z3.ForAll([k], z3.Implies(k >= 0, W(k + 1) == W(k) + z3.If(par(k) == v, w(k), 0))),
                 # the postcondition above, for the parent with id v and energy e
                 z3.ForAll([k], z3.Implies(z3.And(k >= 0, par(k) == v), carried_(k) == e * w(k)))]
    E.assume(m >= 0)
    prove("base", P(0) == e * W(0))
    prove("step", z3.Implies(P(m) == e * W(m), P(m + 1) == e * W(m + 1)))
    prove("shares that sum to one", z3.Implies(z3.And(P(m) == e * W(m), W(m) == 1), P(m) == e))


c.assume("parent ids are distinct and every piece names a parent that exists; any number of parents and pieces, in any "
         "order, a parent named any number of times", "products of values and weights are over the reals (float rounding "
         "of the product is not modelled)", "for pieces of events, groups and flashes: a three-level hierarchy, the "
         "dataset object being the OneToManyTraversal that GLMDataset extends")
