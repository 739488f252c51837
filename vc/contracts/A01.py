"""Merging of split pieces: one record per mesh cell that has pieces, holding their sums, minima and means."""
from ..api import *
from .. import xrmod, theory, lemmas
from ..dtmod import datetime

c = Contract("A01")
MOD = "glmtools.io.mimic_lma"
FN = "_fake_lma_events_from_split_glm_lutevents"
DIM = "number_of_split_event_children"
SUMS = {"power": "split_lutevent_energy", "mesh_frac": "split_event_mesh_area_fraction", "lutevent_count": "split_lutevent_count",
        "lutevent_group_count": "split_lutevent_group_count", "lutevent_flash_count": "split_lutevent_flash_count",
        "lutevent_total_flash_area": "split_lutevent_total_flash_area", "lutevent_total_group_area": "split_lutevent_total_group_area"}
MEANS = {"x": "split_event_x", "y": "split_event_y"}
PX, PY = "split_event_mesh_x_idx", "split_event_mesh_y_idx"
c.assume("mesh indices are not negative and coverage fractions not negative (what splitting delivers); values are not NaN",
         "sums, means and times over the reals and whole nanoseconds; the columns for ids and mesh indices are shown to hold four-byte unsigned ids and indices below 2**31",
         "any number of pieces in any order, any number per cell, any mesh size")


def pieces(n):
    cols = {k: array(k, n) for k in list(SUMS.values()) + list(MEANS.values()) + ["split_lutevent_min_flash_area"]}
    for k in (PX, PY, "split_event_parent_event_id"):
        cols[k] = array(k, n, sort="Int")
    cols["split_lutevent_time_offset"] = array("piece_time", n, sort="Int", dt=arr.M8)
    q = z3.Int("pq!")
    for k in (PX, PY, "split_event_mesh_area_fraction"):
        f = cols[k].sym
        E.axioms.append(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), f(q) >= 0), patterns=[f(q)]))
    return cols, xrmod.Dataset({k: ((DIM,), v) for k, v in cols.items()})


def stepping_stones(n, X, Y):
    """rows of one group lie in one cell and conversely; for every grouping the code made"""
    for P in E.ghost.get("partitions", {}).values():
        tops = [raw(t[0]) for t in E.ghost.get("minmax", {}).values() if z3.is_int(t[0])]

        def one(r, k):
            s = P.src(r)
            for u, v in ((X, Y), (Y, X)):
                for t in tops:
                    for a in (v(k) - v(s) - 1, v(s) - v(k) - 1):
                        helper(z3.Implies(z3.And(a >= 0, t + 1 >= 0), a * (t + 1) >= 0), 1000)
            return z3.And(z3.Implies(P.loc(k) == r, z3.And(X(k) == X(s), Y(k) == Y(s))))
        r, k = idx(E.name("gr"), P.m), idx(E.name("gk"), n)
        g = one(r, k)
        if E.valid(g, 8000):
            a, b = z3.Ints("ga! gb!")
            E.axioms.append(z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < P.m, b >= 0, b < n), z3.And(
                z3.Implies(P.loc(b) == a, z3.And(X(b) == X(P.src(a)), Y(b) == Y(P.src(a)))))),
                patterns=[z3.MultiPattern(P.src(a), P.loc(b))]))
        everywhere((P.m, n), lambda r, k: z3.Implies(z3.And(X(k) == X(P.src(r)), Y(k) == Y(P.src(r))), P.loc(k) == r),
                   lambda r, k: [z3.MultiPattern(P.src(r), P.loc(k)), z3.MultiPattern(P.src(r), X(k))])


def some(name, n, f, cands):
    """some 0 <= k < n has f(k)"""
    for k in cands:
        if E.valid(z3.And(k >= 0, k < iraw(n), f(k))):
            prove(name, z3.And(k >= 0, k < iraw(n), f(k)))
            return
    q = z3.Int("some!")
    prove(name, z3.Not(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < iraw(n)), z3.Not(f(q))))))


def records(rec, n, cols, base):
    R = rec.shape[0]
    for nm in ("mesh_xi", "mesh_yi", "flash_id"):
        holds(nm, rec[nm], 0, 2 ** 31)
    X, Y = cols[PX].sym, cols[PY].sym
    xi, yi = (lambda r: raw(rec["mesh_xi"].elem(r))), (lambda r: raw(rec["mesh_yi"].elem(r)))
    if isinstance(R, int) and R == 0:
        prove("no records only if there are no pieces", n == 0)
        return
    stepping_stones(n, X, Y)
    parts = list(E.ghost.get("partitions", {}).values())
    r, r2, p = idx("rec", R), idx("rec2", R), idx("piece", n)
    here = lambda k: z3.And(X(k) == xi(r), Y(k) == yi(r))
    lead = [P.src(r) for P in parts]
    some("a record's cell has pieces", n, here, lead)
    some("every cell with pieces has a record", R, lambda q: z3.And(xi(q) == X(p), yi(q) == Y(p)), [P.loc(p) for P in parts])
    prove("records lie in different cells", z3.Implies(r != r2, z3.Or(xi(r) != xi(r2), yi(r) != yi(r2))),
          hints=[P.src(r2) for P in parts] + lead)
    for P in parts:
        helper(z3.And(xi(r) == X(P.src(r)), yi(r) == Y(P.src(r))))

    def total(col):
        return theory.mksum(n, lambda k: ite(here(k), col(k), Q(0)))
    for nm, src in SUMS.items():
        prove("%s is the sum of %s over the pieces of the cell" % (nm, src),
              eq(rec[nm].elem(r), total(lambda k: cols[src].frozen.elem(k))), hints=lead)
    cnt = theory.mksum(n, lambda k: ite(here(k), 1, 0))
    for nm, src in MEANS.items():
        prove("%s is the mean of %s over the pieces of the cell" % (nm, src),
              eq(rec[nm].elem(r), core.sdiv(total(lambda k: cols[src].frozen.elem(k)), cnt)), hints=lead)
    args = [g[1](r) for P in parts for g in P.red.values()]
    b = raw(base) * 1000
    for nm, src, conv in (("lutevent_min_flash_area", "split_lutevent_min_flash_area", lambda v: v),
                          ("time", "split_lutevent_time_offset", lambda v: z3.ToReal(v - b) / 10 ** 9)):
        f = lambda k: conv(cols[src].sym(k))
        v = raw(rec[nm].elem(r))
        prove("%s is not above that of any piece of the cell" % nm, z3.Implies(here(p), v <= f(p)), hints=lead + [P.loc(p) for P in parts])
        some("%s is that of a piece of the cell" % nm, n, lambda k: z3.And(here(k), v == f(k)), args)
    some("flash_id is the parent of a piece of the cell", n,
         lambda k: z3.And(here(k), raw(rec["flash_id"].elem(r)) == cols["split_event_parent_event_id"].sym(k)), args + lead)


@c.unit(MOD + "." + FN, "any pieces")
def merge(env):
    n = length("pieces")
    cols, ds = pieces(n)
    base = z3.Int("base_us")
    rec = env.fn(MOD, FN)(ds, datetime._of(base))
    records(rec, n, cols, base)


FLASH = {"area": "flash_area", "total_energy": "flash_energy", "ctr_x": "flash_x", "ctr_y": "flash_y", "flash_id": "flash_id"}
GROUP = {"area": "group_area", "total_energy": "group_energy", "ctr_x": "group_x", "ctr_y": "group_y", "flash_id": "group_id"}


def id_column(nm, n):
    """ids as the files hold them: four-byte unsigned"""
    a = array(nm, n, sort="Int", dt=arr.todt("u4"))
    k = z3.Int("ik!")
    E.axioms.append(z3.ForAll([k], z3.And(a.sym(k) >= 0, a.sym(k) < 2 ** 32), patterns=[a.sym(k)]))
    return a


def parents():
    """a dataset of flashes, groups and events; times are instants"""
    nf, ng, ne = length("flashes"), length("groups"), length("events")
    v = {}
    for lev, n in (("flash", nf), ("group", ng)):
        for nm in ("area", "energy", "x", "y"):
            v["%s_%s" % (lev, nm)] = (("number_of_%ss" % lev if lev == "group" else "number_of_flashes",), array("%s_%s" % (lev, nm), n))
    fd, gd, ed = ("number_of_flashes",), ("number_of_groups",), ("number_of_events",)
    for nm, d, n in (("flash_id", fd, nf), ("group_id", gd, ng), ("event_id", ed, ne)):
        v[nm] = (d, id_column(nm, n))
    for nm, d, n in (("flash_time_offset_of_first_event", fd, nf), ("flash_time_offset_of_last_event", fd, nf),
                     ("group_time_offset", gd, ng)):
        v[nm] = (d, array(nm, n, sort="Int", dt=arr.M8))
    v["number_of_events"] = (ed, array("number_of_events", ne, sort="Int"))
    return nf, ng, xrmod.Dataset(v)


def entity_rows(what, rec, n, ds, cols, t0, t1, base):
    """one row per entity, in order, with its own values and times in seconds from the base date"""
    for nm, src in cols.items():
        a = ds.vars[src].arr.frozen
        same_array("%s: %s is its own %s" % (what, nm, src), rec[nm], lambda i: a.elem(i), (n,))
        if nm == "flash_id":
            holds("%s: %s" % (what, nm), rec[nm], 0, 2 ** 32)
    a, b = ds.vars[t0].arr.frozen, ds.vars[t1].arr.frozen
    us = raw(base) * 1000
    same_array(what + ": start is in seconds from the base date", rec["start"],
               lambda i: mk(z3.ToReal(raw(a.elem(i)) - us) / 10 ** 9), (n,))
    same_array(what + ": duration is last less first time in seconds", rec["duration"],
               lambda i: mk(z3.ToReal(raw(b.elem(i)) - raw(a.elem(i))) / 10 ** 9), (n,))


def same_records(what, a, b):
    prove(what + ": same columns", set(a.dtype.names) == set(b.dtype.names))
    for nm in b.dtype.names:
        if nm in a.dtype.names:
            same_array("%s: column %s" % (what, nm), a[nm], lambda *i: b[nm].elem(*i), b[nm].shape)


@c.unit(MOD + ".mimic_lma_dataset_lut", "the three streams")
def streams(env):
    n = length("pieces")
    cols, ds = pieces(n)
    nf, ng, D = parents()
    base = z3.Int("base_us")
    one = env.fn(MOD, FN)(ds.copy(deep=True), datetime._of(base))
    r = env.fn(MOD, "mimic_lma_dataset_lut")(D, datetime._of(base), split_events=ds)
    prove("streams", set(r) == {"flash", "group", "event"})
    for k in ("flash", "group", "event"):
        same_records("children of the %s stream are the merged pieces" % k, r[k][0], one)
    for k, m, cs, t0, t1 in (("flash", nf, FLASH, "flash_time_offset_of_first_event", "flash_time_offset_of_last_event"),
                             ("group", ng, GROUP, "group_time_offset", "group_time_offset")):
        p = r[k][1]
        prove("%s stream: one parent per %s" % (k, k), core.i_eq(p.shape[0], m))
        if E.valid(m <= 0):
            continue
        entity_rows("parents of the %s stream" % k, p, m, D, cs, t0, t1, base)


@c.unit("merged records (consequence of one record per cell)", "totals over records equal totals over pieces")
def totals(env):
    lemmas.totals()
