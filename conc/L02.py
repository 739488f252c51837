import os
import numpy as np
from harness import case, get, ensure, same, close, Fail
import glmfile as g


@case(n=30, thorough=200)
def table(rng, **size):
    GLM = get("glmtools.io.glm", "GLMDataset")
    lut = get("glmtools.io.glm", "get_lutevents")
    t = g.make_tree(rng, **size)
    nev = len(t.event_id)
    npix = int(rng.randint(1, max(2, nev)))
    px, py = rng.randint(15000, 50000, npix), rng.randint(15000, 50000, npix)
    k = rng.randint(0, npix, nev)
    jit = rng.randint(-3, 4, nev) if rng.rand() < .5 else 0
    with g.scratch() as d:
        p = os.path.join(d, "f.nc")
        few = {}
        if rng.rand() < .4:                        # areas and energies that repeat
            few = dict(group_area=rng.randint(0, 4, len(t.group_id)) * 900, flash_area=rng.randint(0, 4, len(t.flash_id)) * 1000,
                       event_energy=rng.randint(1, 4, nev))
        g.write(p, rng, t, xy=(px[k] + jit, py[k]), **few)
        ds = GLM(p, ellipse_rev=int(rng.randint(2)))
        D = ds.dataset
        kw = {}
        if rng.rand() < .3:
            kw["scale_factor"] = float(rng.choice([14e-6, 56e-6, 28e-5]))
        if rng.rand() < .3:
            kw["x_range"], kw["y_range"] = (-0.2, 0.25), (-0.3, 0.21)
        s, xr, yr = kw.get("scale_factor", 28e-6), kw.get("x_range", (-.31, .31)), kw.get("y_range", (-.31, .31))
        fr = {v: np.array(D[v].data) for v in D.variables}
        r = lut(D, **kw)
        ensure(set(D.variables) == set(fr) and all(np.array_equal(D[v].data, fr[v]) or np.array_equal(D[v].data, fr[v], equal_nan=True) for v in fr if fr[v].dtype.kind != "O"),
               "the input dataset was altered")
        ex, ey = D.event_x.data, D.event_y.data
        cell = list(zip(np.floor((ex - xr[0]) / s).astype(int).tolist(), np.floor((ey - yr[0]) / s).astype(int).tolist()))
        cells = {}
        for i, c in enumerate(cell):
            cells.setdefault(c, []).append(i)
        n = r.sizes["lutevent_id"]
        ensure(n == len(cells), "%d records for %d location cells", n, len(cells))
        lid = r.event_parent_lutevent_id.data
        rec = {int(v): j for j, v in enumerate(r.lutevent_id.data)}
        ensure(len(rec) == n, "record ids repeat")
        e2f = dict(zip(t.group_id.tolist(), t.group_parent_flash_id.tolist()))
        ef = np.array([e2f[x] for x in t.event_parent_group_id.tolist()])
        fa = dict(zip(D.flash_id.data.tolist(), D.flash_area.data.tolist()))
        ga = dict(zip(D.group_id.data.tolist(), D.group_area.data.tolist()))
        for c, rows in cells.items():
            v = {int(lid[i]) for i in rows}
            ensure(len(v) == 1, "events of one cell have different ids")
            j = rec[v.pop()]
            fl, gr = set(ef[rows].tolist()), set(t.event_parent_group_id[rows].tolist())
            get1 = lambda nm: float(r["lutevent_" + nm].data[j])
            ensure(get1("count") == len(rows), "event count %s, expected %d", get1("count"), len(rows))
            ensure(get1("flash_count") == len(fl), "flash count %s, expected %d", get1("flash_count"), len(fl))
            ensure(get1("group_count") == len(gr), "group count %s, expected %d", get1("group_count"), len(gr))
            close(get1("energy"), D.event_energy.data[rows].astype("f8").sum(), "energy", 1e-6)
            close(get1("x"), ex[rows].astype("f8").mean(), "x", 1e-9, 1e-12)
            close(get1("y"), ey[rows].astype("f8").mean(), "y", 1e-9, 1e-12)
            close(get1("total_flash_area"), sum(fa[f] for f in fl), "total flash area", 1e-6)
            close(get1("total_group_area"), sum(ga[f] for f in gr), "total group area", 1e-6)
            close(get1("min_flash_area"), min(fa[f] for f in fl), "smallest flash area", 1e-6)
            ensure(r.lutevent_time_offset.data[j] == D.product_time.data, "time of the record")
        close(float(r.lutevent_count.sum()), nev, "total event count", 1e-9)
        close(float(r.lutevent_energy.sum()), float(D.event_energy.data.astype("f8").sum()), "total energy", 1e-6)
        D.close()


@case(n=2, thorough=4)
def large(rng):
    """thousands of events"""
    table(rng, nfl=1100, ngr=2300, nev=3500)
