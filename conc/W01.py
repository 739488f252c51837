import numpy as np
from harness import case, get, ensure, same, close, Fail
import glmfile as g

ENERGY = ["lutevent_energy"]
BYCELL = ["lutevent_count", "lutevent_flash_count", "lutevent_group_count", "lutevent_total_flash_area", "lutevent_total_group_area"]
PLAIN = ["lutevent_id", "lutevent_time_offset", "lutevent_min_flash_area"]


def split_rows(rng, ids, dim, pre, par):
    import xarray as xr
    who = []
    for i in ids:
        who += [i] * int(rng.randint(0, 5))
    who = np.array(who, dtype="u8")
    if rng.rand() < .5:
        who = who[rng.permutation(len(who))]
    n = len(who)
    area, mesh = rng.uniform(.01, 1, n), rng.uniform(.01, 1, n)
    if rng.rand() < .5:                     # shares that sum to one per parent
        for i in set(who.tolist()):
            area[who == i] /= area[who == i].sum()
    return xr.Dataset({par: ((dim,), who), pre + "area_fraction": ((dim,), area), pre + "mesh_area_fraction": ((dim,), mesh),
                       pre + "mesh_x_idx": ((dim,), rng.randint(0, 50, n)), pre + "mesh_y_idx": ((dim,), rng.randint(0, 50, n))}), who, area, mesh


def parents(rng, n=None):
    import xarray as xr
    n = int(rng.randint(1, 9)) if n is None else n
    ids = (rng.randint(0, 10 ** 6) + 7 * rng.permutation(max(n, 200))[:n] + rng.randint(0, 7)).astype("u8")
    d = ("lutevent_id",)
    ds = xr.Dataset({"lutevent_energy": (d, rng.rand(n).astype("f4")), "lutevent_time_offset": (d, np.datetime64("2019-07-01", "ns") + rng.randint(0, 10 ** 12, n).astype("m8[ns]")),
                     "lutevent_count": (d, rng.randint(1, 90, n).astype("f4")), "lutevent_flash_count": (d, rng.randint(1, 50, n).astype("f4")),
                     "lutevent_group_count": (d, rng.randint(1, 70, n).astype("f4")), "lutevent_total_flash_area": (d, rng.rand(n) * 1e4),
                     "lutevent_total_group_area": (d, rng.rand(n) * 1e4), "lutevent_min_flash_area": (d, rng.rand(n) * 1e3),
                     "lutevent_x": (d, rng.rand(n))}, coords={"lutevent_id": (d, ids)})
    return ds, ids


@case(n=80, thorough=800)
def preaggregated(rng, n=None):
    f = get("glmtools.io.mimic_lma", "replicate_and_weight_split_child_dataset_new")
    P, ids = parents(rng, n)
    keep = P.copy(deep=True)
    S, who, area, mesh = split_rows(rng, ids.tolist(), "number_of_split_event_children", "split_event_", "split_event_parent_event_id")
    S0 = S.copy(deep=True)
    R = f(P, S)
    pos = {i: k for k, i in enumerate(ids.tolist())}
    at = np.array([pos[w] for w in who.tolist()], dtype=int)
    for k in ENERGY + BYCELL + PLAIN:
        v = np.asarray(keep[k].data)[at]
        w = area if k in ENERGY else mesh if k in BYCELL else None
        ensure("split_" + k in R.variables, "split_%s is missing", k)
        got = R["split_" + k]
        ensure(got.dims == ("number_of_split_event_children",), "dimension of split_%s: %s", k, got.dims)
        if w is None:
            same(got.data, v, "split_" + k)
        else:
            close(got.data, v.astype("f8") * w, "split_" + k, 1e-6)
    for k in S0.variables:
        same(R[k].data, S0[k].data, "column %s must be kept" % k)
    ensure(P.identical(keep), "parent data altered")
    for i in set(who.tolist()):
        m = who == i
        if abs(area[m].sum() - 1) < 1e-12:
            close(R["split_lutevent_energy"].data[m].sum(), float(keep["lutevent_energy"].data[pos[i]]), "energy of the pieces of %d" % i, 1e-6)


@case(n=2, thorough=4)
def large(rng):
    """thousands of pieces"""
    preaggregated(rng, 1500)


@case(n=25, thorough=250)
def explicit_weights(rng):
    f = get("glmtools.io.mimic_lma", "replicate_and_weight_split_child_dataset_new")
    P, ids = parents(rng)
    S, who, area, mesh = split_rows(rng, ids.tolist(), "number_of_split_event_children", "split_event_", "split_event_parent_event_id")
    if rng.rand() < .4:                            # a weight is a number like any other
        area, mesh = area * 3., mesh * 2.5
        S["split_event_area_fraction"] = S["split_event_area_fraction"] * 3.
        S["split_event_mesh_area_fraction"] = S["split_event_mesh_area_fraction"] * 2.5
    names = ["lutevent_energy", "lutevent_count", "lutevent_min_flash_area"]
    w = {k: v for k, v in zip(names, ["split_event_area_fraction", "split_event_mesh_area_fraction", "split_event_area_fraction"]) if rng.rand() < .5}
    R = f(P, S, names=names, weights=w)
    at = np.array([ids.tolist().index(x) for x in who.tolist()], dtype=int)
    for k in names:
        x = {None: 1.0, "split_event_area_fraction": area, "split_event_mesh_area_fraction": mesh}[w.get(k)]
        close(R["split_" + k].data, P[k].data[at].astype("f8") * x, "split_" + k, 1e-6)
    ensure("split_lutevent_flash_count" not in R.variables, "a variable that was not named was replicated")


@case(n=15, thorough=120)
def by_entity(rng):
    """event, group and flash pieces take their values from the dataset of the file"""
    f = get("glmtools.grid.split_events", "replicate_and_weight_split_child_dataset")
    D = get("glmtools.io.glm", "GLMDataset")
    with g.scratch() as td:
        t = g.make_tree(rng)
        path = td + "/OR_GLM.nc"
        g.write(path, rng, t)
        glm = D(path)
        ds = glm.dataset
        levels = [("event", ["event_energy", "event_time_offset", "event_parent_flash_id", "event_parent_group_id"], ["event_energy"]),
                  ("group", ["group_time_offset", "group_area", "group_energy"], ["group_energy", "group_area"]),
                  ("flash", ["flash_time_offset_of_first_event", "flash_time_offset_of_last_event", "flash_area", "flash_energy"], ["flash_energy", "flash_area"])]
        for lev, names, wt in levels:
            ids = ds[lev + "_id"].data
            if not len(ids):
                continue
            before = {k: ds[k].data.copy() for k in names}
            some = ids[rng.permutation(len(ids))][:6]
            par = "split_%s_parent_%s_id" % (lev, lev)
            S, who, area, mesh = split_rows(rng, [int(i) for i in some], "number_of_split_%s_children" % lev, "split_%s_" % lev, par)
            if not len(who):
                continue
            R = f(glm, S) if lev == "event" else f(glm, S, parent_id=lev + "_id", split_child_parent_id=par, names=names,
                                                   weights={k: "split_%s_area_fraction" % lev for k in wt})
            at = np.array([ids.tolist().index(x) for x in who.tolist()], dtype=int)
            for k in names:
                v = before[k][at]
                if k in wt:
                    close(R["split_" + k].data, v.astype("f8") * area, "split_" + k, 1e-6)
                else:
                    same(R["split_" + k].data, v, "split_" + k)
                same(ds[k].data, before[k], "parent data %s altered" % k)
