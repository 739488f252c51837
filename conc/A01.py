import numpy as np
from datetime import datetime
from harness import case, get, ensure, same, close, Fail

SUMS = {"power": "split_lutevent_energy", "mesh_frac": "split_event_mesh_area_fraction", "lutevent_count": "split_lutevent_count",
        "lutevent_group_count": "split_lutevent_group_count", "lutevent_flash_count": "split_lutevent_flash_count",
        "lutevent_total_flash_area": "split_lutevent_total_flash_area", "lutevent_total_group_area": "split_lutevent_total_group_area"}


def pieces(rng, n=None):
    import xarray as xr
    n = int(rng.randint(1, 40)) if n is None else n
    d = ("number_of_split_event_children",)
    m = rng.randint(4)
    hx, hy = [(3, 3), (2, 12), (400, 300), (70000, 66000)][m]
    v = {"split_event_mesh_x_idx": rng.randint(0, hx, n), "split_event_mesh_y_idx": rng.randint(0, hy, n),
         "split_event_x": rng.uniform(-.1, .1, n), "split_event_y": rng.uniform(-.1, .1, n),
         "split_event_parent_event_id": rng.randint(0, 2 ** 30, n).astype("u8"),
         "split_lutevent_time_offset": np.datetime64("2019-07-01T00:00:00", "ns") + rng.randint(0, 2 * 10 ** 13, n).astype("m8[ns]"),
         "split_lutevent_min_flash_area": rng.uniform(50, 5000, n)}
    for k in SUMS.values():
        v[k] = rng.uniform(0, 5, n)
    return xr.Dataset({k: (d, a) for k, a in v.items()}), v


def merged(rng, n=None):
    f = get("glmtools.io.mimic_lma", "_fake_lma_events_from_split_glm_lutevents")
    ds, v = pieces(rng, n)
    v = {k: np.array(a) for k, a in v.items()}
    base = datetime(2019, 7, 1, int(rng.randint(0, 2)))
    return f(ds, base), v, base


@case(n=80, thorough=1000)
def one_record_per_cell(rng, n=None):
    ev, v, base = merged(rng, n)
    want = {}
    for k in range(len(v["split_event_x"])):
        want.setdefault((int(v["split_event_mesh_x_idx"][k]), int(v["split_event_mesh_y_idx"][k])), []).append(k)
    got = {}
    for r in ev:
        ij = (int(r["mesh_xi"]), int(r["mesh_yi"]))
        ensure(ij not in got, "two records for cell %s", ij)
        ensure(ij in want, "a record for cell %s, which has no pieces", ij)
        got[ij] = r
    ensure(set(got) == set(want), "no record for cells %s", sorted(set(want) - set(got))[:3])
    for ij, ks in want.items():
        r = got[ij]
        for c, s in SUMS.items():
            close(r[c], v[s][ks].sum(), "%s of cell %s" % (c, ij), 1e-5, 1e-6)
        close(r["x"], v["split_event_x"][ks].mean(), "x of cell %s" % (ij,), 1e-4, 1e-6)
        close(r["y"], v["split_event_y"][ks].mean(), "y of cell %s" % (ij,), 1e-4, 1e-6)
        close(r["lutevent_min_flash_area"], v["split_lutevent_min_flash_area"][ks].min(), "minimum flash area of cell %s" % (ij,), 1e-6)
        t = v["split_lutevent_time_offset"][ks].min()
        close(r["time"], (t - np.datetime64(base)) / np.timedelta64(1, "s"), "earliest time of cell %s" % (ij,), 1e-12, 1e-6)
        ensure(int(r["flash_id"]) in [int(x) for x in v["split_event_parent_event_id"][ks]], "id of cell %s is none of its pieces' parents", ij)


@case(n=2, thorough=4)
def large(rng):
    """thousands of pieces"""
    one_record_per_cell(rng, 4000)


@case(n=40, thorough=300)
def totals(rng):
    ev, v, base = merged(rng)
    for c, s in SUMS.items():
        close(ev[c].astype("f8").sum(), v[s].sum(), "total " + c, 1e-5)


@case(n=2, thorough=5)
def no_pieces(rng):
    ev, v, base = merged(rng, 0)
    ensure(len(ev) == 0, "%d records from no pieces", len(ev))


@case(n=30, thorough=200)
def all_three_levels(rng):
    """the records of the cells are what all three streams get"""
    f = get("glmtools.io.mimic_lma", "mimic_lma_dataset_lut")
    import xarray as xr
    ds, v = pieces(rng)
    nf, ng = int(rng.randint(1, 5)), int(rng.randint(1, 9))
    base = datetime(2019, 7, 1)
    t = lambda n: np.datetime64("2019-07-01", "ns") + rng.randint(0, 10 ** 12, n).astype("m8[ns]")
    fl = {"flash_id": rng.permutation(100)[:nf], "flash_area": rng.rand(nf) * 1e4, "flash_energy": rng.rand(nf), "flash_x": rng.rand(nf), "flash_y": rng.rand(nf),
          "flash_time_offset_of_first_event": t(nf), "flash_time_offset_of_last_event": t(nf)}
    gr = {"group_id": rng.permutation(100)[:ng] + int(rng.choice([0, 2 ** 31 - 50, 2 ** 32 - 100])), "group_area": rng.rand(ng) * 1e4, "group_energy": rng.rand(ng), "group_x": rng.rand(ng), "group_y": rng.rand(ng),
          "group_time_offset": t(ng)}
    D = xr.Dataset(dict([(k, (("number_of_flashes",), a)) for k, a in fl.items()] + [(k, (("number_of_groups",), a)) for k, a in gr.items()] +
                        [("event_id", (("number_of_events",), np.arange(5)))]))
    r = f(D, base, split_events=ds)
    ensure(set(r) == {"flash", "group", "event"}, "streams %s", sorted(r))
    one = r["event"][0]
    same(r["flash"][0], one, "children of the flash stream")
    same(r["group"][0], one, "children of the group stream")
    ensure(len(one) == len(set(zip(v["split_event_mesh_x_idx"].tolist(), v["split_event_mesh_y_idx"].tolist()))), "one record per cell")
    sec = lambda a: (a - np.datetime64(base)) / np.timedelta64(1, "s")
    for p, src, i in ((r["flash"][1], fl, "flash"), (r["group"][1], gr, "group")):
        same(p["flash_id"].astype("i8"), src[i + "_id"], i + " id")
        for c, s in (("area", "area"), ("total_energy", "energy"), ("ctr_x", "x"), ("ctr_y", "y")):
            close(p[c], src[i + "_" + s], "%s %s" % (i, c), 1e-6)
        t0 = src.get("flash_time_offset_of_first_event" if i == "flash" else "group_time_offset")
        t1 = src.get("flash_time_offset_of_last_event" if i == "flash" else "group_time_offset")
        close(p["start"], sec(t0), i + " start", 1e-12, 1e-9)
        close(p["duration"], sec(t1) - sec(t0), i + " duration", 1e-6, 1e-6)
