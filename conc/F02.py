import os
import numpy as np
from harness import case, get, ensure, same, Fail
import glmfile as g

F = ("flash_id", "flash_time_offset_of_first_event", "flash_time_offset_of_last_event", "flash_lat", "flash_lon", "flash_energy", "flash_area", "flash_child_group_count")
G = ("group_id", "group_time_offset", "group_lat", "group_lon", "group_energy", "group_area", "group_parent_flash_id", "group_child_event_count")
E = ("event_id", "event_time_offset", "x_pixel", "y_pixel", "event_lat", "event_lon", "event_energy", "event_parent_group_id")


def listing(rng, path, n=None):
    fl, gr, ev = [], [], []
    t = lambda: float("%.3f" % (543398228 + rng.uniform(0, 1e5)))
    deg = lambda: float("%.3f" % rng.uniform(-180, 180))
    en = lambda: float("%.3e" % 10 ** rng.uniform(-15, -12))
    ar = lambda: float("%.1f" % rng.uniform(60, 9000))
    nid = [int(rng.randint(0, 50)), int(rng.randint(0, 50)), int(rng.randint(0, 50))]
    step = int(rng.randint(1, 4))

    def new(k):
        nid[k] += int(rng.randint(1, step + 1))
        return nid[k]
    out = ["Some header line\n", "\n"] if rng.rand() < .5 else []
    for _ in range(n or int(rng.randint(1, 6))):
        f = (new(0), t(), t(), deg(), deg(), en(), ar(), int(rng.randint(1, 99)))
        fl.append(f)
        out.append("D Flash #%d Start Time:%.3f End Time:%.3f Centroid Lat:%.3f Centroid Lon:%.3f Energy:%.3e Footprint:%.1f Child_Count:%d\n" % f)
        for _ in range(int(rng.randint(1, 5))):
            gt = t()
            r = (new(1), gt, deg(), deg(), en(), ar(), f[0], int(rng.randint(1, 99)))
            gr.append(r)
            out.append("\tD Group #%d Child #%d Start Time:%.3f End Time:%.3f Centroid Lat:%.3f Centroid Lon:%.3f Energy:%.3e Footprint:%.1f Parent_ID:%d Child_Count:%d\n"
                       % (r[0], rng.randint(0, 20), r[1], r[1] + .1, r[2], r[3], r[4], r[5], r[6], r[7]))
            for _ in range(int(rng.randint(1, 5))):
                e = (new(2), t(), int(rng.randint(0, 1372)), int(rng.randint(0, 1300)), deg(), deg(), en(), r[0])
                ev.append(e)
                out.append("\t\tEvent #%d Child #%d Time:%.3f X_Pixel:%d Y_Pixel:%d Lat:%.3f Lon:%.3f Energy:%.3e Parent_ID:%d\n"
                           % (e[0], rng.randint(0, 20), e[1], e[2], e[3], e[4], e[5], e[6], e[7]))
        if rng.rand() < .2:
            out.append("\n")
    with open(path, "w") as fo:
        fo.writelines(out)
    return fl, gr, ev


@case(n=40, thorough=300)
def tables(rng, n=None):
    parse = get("glmtools.io.convert_lcfa", "parse_LCFA_ASCII")
    with g.scratch() as d:
        p = os.path.join(d, "a.txt")
        want = listing(rng, p, n)
        got = parse(p)
        ensure(len(got) == 3, "three tables expected")
        for tab, cols, rows in zip(got, (F, G, E), want):
            ensure(len(tab) == len(rows), "%d rows for %d records", len(tab), len(rows))
            ensure(set(tab.columns) == set(cols), "columns %s", list(tab.columns))
            for k, c in enumerate(cols):
                same(tab[c].values, np.array([r[k] for r in rows]), c)


@case(n=1, thorough=3)
def large(rng):
    """thousands of lines"""
    tables(rng, 1100)


@case(n=30, thorough=200)
def merged(rng):
    parse = get("glmtools.io.convert_lcfa", "parse_LCFA_ASCII")
    merge = get("glmtools.io.convert_lcfa", "merge_dataframes_to_xarray")
    with g.scratch() as d:
        p = os.path.join(d, "a.txt")
        want = listing(rng, p)
        ds = merge(*parse(p))
        dims = ("number_of_flashes", "number_of_groups", "number_of_events")
        for cols, rows, dim in zip((F, G, E), want, dims):
            for k, c in enumerate(cols):
                ensure(ds[c].dims == (dim,), "%s is on %s", c, ds[c].dims)
                same(ds[c].values, np.array([r[k] for r in rows]), c)
        need = {"event_id", "event_time_offset", "event_lat", "event_lon", "event_parent_group_id", "group_id", "group_time_offset", "group_lat", "group_lon",
                "group_parent_flash_id", "flash_id", "flash_time_offset_of_first_event", "flash_time_offset_of_last_event", "flash_lat", "flash_lon"}
        ensure(need <= set(ds.coords), "not coordinates: %s", sorted(need - set(ds.coords)))
        ensure(not (set(ds.data_vars) & need) and {"flash_energy", "group_area", "event_energy", "x_pixel"} <= set(ds.data_vars), "data variables %s", list(ds.data_vars))


@case(n=6, thorough=30)
def file_written(rng):
    import xarray as xr
    main = get("glmtools.io.convert_lcfa", "main")
    with g.scratch() as d:
        p, o = os.path.join(d, "a.txt"), os.path.join(d, "o.nc")
        want = listing(rng, p)
        main(p, o)
        ds = xr.open_dataset(o)
        for cols, rows in zip((F, G, E), want):
            for k, c in enumerate(cols):
                if "time" not in c:
                    same(ds[c].values, np.array([r[k] for r in rows]), c)
        ds.close()
