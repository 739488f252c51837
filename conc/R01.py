import numpy as np
from datetime import datetime
from harness import case, get, ensure, same, close, Fail, Skip
import glmfile as g


def ranges(rng, D):
    kw = {}
    if rng.rand() < .35:
        kw["lon_range"] = tuple(np.sort(-75 + rng.uniform(-60, 60, 2)))
    if rng.rand() < .35:
        kw["lat_range"] = tuple(np.sort(rng.uniform(-60, 60, 2)))
    if rng.rand() < .3:
        kw["min_groups"] = int(rng.randint(0, 4))
    if rng.rand() < .3:
        kw["min_events"] = int(rng.randint(0, 6))
    return kw


def wanted(D, kw):
    fid = D.flash_id.data
    gp, ep = D.group_parent_flash_id.data, D.event_parent_group_id.data
    g2f = dict(zip(D.group_id.data.tolist(), gp.tolist()))
    ef = np.array([g2f[x] for x in ep.tolist()], dtype="i8")
    ok = np.ones(len(fid), bool)
    for key, nm in (("lon_range", "flash_lon"), ("lat_range", "flash_lat")):
        if key in kw:
            v = D[nm].data
            ok &= (v > kw[key][0]) & (v < kw[key][1])
    if "min_groups" in kw:
        ok &= np.array([(gp == f).sum() >= kw["min_groups"] for f in fid], dtype=bool)
    if "min_events" in kw:
        ok &= np.array([(ef == f).sum() >= kw["min_events"] for f in fid], dtype=bool)
    keep = set(fid[ok].tolist())
    fi = np.flatnonzero(ok)
    gi = np.flatnonzero([x in keep for x in gp.tolist()])
    ei = np.flatnonzero([x in keep for x in ef.tolist()])
    return fi, gi, ei, ef


def tree(rng, **size):
    return g.make_tree(rng, **(size or dict(nfl=int(rng.randint(1, 9)))))


def put(p, rng, **size):
    t = tree(rng, **size)
    n = len(t.event_id)
    g.write(p, rng, t, xy=(rng.randint(20000, 46000, n), rng.randint(20000, 46000, n)))


SAID = ["flash_id", "lat", "lon", "time", "power"]         # the columns set without splitting


def match(rec, ids, what):
    """row of each id in rec; every id exactly once"""
    got = rec["flash_id"].astype("i8").tolist()
    ensure(sorted(got) == sorted(int(i) for i in ids), "%s: delivered ids %s, expected %s", what, sorted(got)[:99],
           sorted(int(i) for i in ids)[:99])
    pos = {v: k for k, v in enumerate(got)}
    return [pos[int(i)] for i in ids]


def rows_for(D, lev, idx, base):
    sec = lambda n: (D[n].data[idx] - np.datetime64(base)) / np.timedelta64(1, "s")
    if lev == "flash":
        t0, t1 = sec("flash_time_offset_of_first_event"), sec("flash_time_offset_of_last_event")
    else:
        t0 = t1 = sec(lev + "_time_offset")
    return t0, t1


@case(n=25, thorough=250)
def records(rng, chunks=(1, 2, 3, 5, 20000), **size):
    f = get("glmtools.io.mimic_lma", "read_flashes")
    G = get("glmtools.io.glm", "GLMDataset")
    with g.scratch() as td:
        p = td + "/a.nc"
        put(p, rng, **size)
        glm = G(p)
        D = glm.dataset.copy(deep=True)
        base = datetime(2018, 7, int(rng.randint(1, 3)))
        for _ in range(3):
            kw = ranges(rng, D) if not size else {}
            chunk = int(rng.choice(chunks))
            res = f(glm, None, base_date=base, clip_events=False, chunk_size=chunk, **kw)
            fi, gi, ei, ef = wanted(D, kw)
            what = "chunk_size=%d %s" % (chunk, kw)
            if not len(fi):
                for r in res:
                    ensure(len(r["flash"][1]) == 0, "%s: nothing selected but flashes delivered", what)
                continue
            n = len(ei)
            for lev, idx, par in (("flash", fi, ef), ("group", gi, D.event_parent_group_id.data), ("event", ei, D.event_id.data)):
                ch, pa = np.concatenate([r[lev][0] for r in res]), np.concatenate([r[lev][1] for r in res])
                at = match(pa, D[lev + "_id"].data[idx], "%s, %s" % (what, lev))
                pa = pa[at]
                if lev != "event":
                    close(pa["area"], D[lev + "_area"].data[idx], lev + " area", 1e-6)
                for c, s in (("total_energy", "energy"), ("ctr_lon", "lon"), ("ctr_lat", "lat"), ("init_lon", "lon"), ("init_lat", "lat")):
                    close(pa[c], D[lev + "_" + s].data[idx], "%s %s" % (lev, c), 1e-6)
                t0, t1 = rows_for(D, lev, idx, base)
                close(pa["start"], t0, lev + " start", 1e-12, 1e-6)
                close(pa["duration"], t1 - t0, lev + " duration", 1e-5, 1e-5)
                # the children are the events, each once, labelled with their parent at this level
                ensure(len(ch) == n, "%s, %s: %d children for %d events", what, lev, len(ch), n)
                key = lambda i, lon, lat, t, e: (int(i), float(np.float32(lon)), float(np.float32(lat)), round(float(t), 6), float(np.float32(e)))
                sec = (D.event_time_offset.data - np.datetime64(base)) / np.timedelta64(1, "s")
                want = sorted(key(par[k], D.event_lon.data[k], D.event_lat.data[k], sec[k], D.event_energy.data[k]) for k in ei)
                got = sorted(key(r["flash_id"], r["lon"], r["lat"], r["time"], r["power"]) for r in ch)
                for a, b in zip(got, want):
                    ensure(a == b, "%s, %s: child (id, lon, lat, time, energy) is %s, expected %s", what, lev, a, b)


@case(n=1, thorough=3)
def large(rng):
    """thousands of rows"""
    records(rng, chunks=(100, 333, 600, 2000), nfl=1100, ngr=2300, nev=3500)


class Sink:
    def __init__(self):
        self.got = []

    def send(self, x):
        self.got.append(x)


@case(n=12, thorough=100)
def targets(rng):
    """with targets each stream gets its own level, the same as without"""
    f = get("glmtools.io.mimic_lma", "read_flashes")
    G = get("glmtools.io.glm", "GLMDataset")
    with g.scratch() as td:
        p = td + "/a.nc"
        put(p, rng)
        glm = G(p)
        base = datetime(2018, 7, 2)
        kw = ranges(rng, glm.dataset)
        chunk = int(rng.choice([1, 2, 3, 20000]))
        res = f(glm, None, base_date=base, clip_events=False, chunk_size=chunk, **kw)
        t = {k: Sink() for k in ("flash", "group", "event")}
        f(glm, t, base_date=base, clip_events=False, chunk_size=chunk, **kw)
        res = [r for r in res if len(r["flash"][0])]
        for k in t:
            ensure(len(t[k].got) == len(res), "%s stream got %d of %d chunks", k, len(t[k].got), len(res))
            for a, b in zip(t[k].got, res):
                for nm in SAID:
                    same(a[0][nm], b[k][0][nm], "%s children sent: %s" % (k, nm))
                for nm in b[k][1].dtype.names:
                    same(a[1][nm], b[k][1][nm], "%s parents sent: %s" % (k, nm))


@case(n=12, thorough=100)
def collection(rng):
    C = get("glmtools.io.mimic_lma", "GLMncCollection")
    T = get("glmtools.io.mimic_lma", "TimeSeriesGLMFlashSubset")
    G = get("glmtools.io.glm", "GLMDataset")
    with g.scratch() as td:
        p = td + "/a.nc"
        put(p, rng)
        D = G(p).dataset
        base = datetime(2018, 7, int(rng.randint(1, 3)))
        kw = ranges(rng, D)
        k2 = dict((k, v) for k, v in kw.items() if k in ("lat_range", "lon_range", "min_groups"))
        k2["min_points"] = kw.get("min_events")
        c = C([p], base_date=base, **k2)
        ensure(len(c.times) == 1, "one file has %d times", len(c.times))
        ensure(np.datetime64(c.times[0]) == D.product_time.data.astype("M8[s]"), "time of the file is %s", c.times[0])
        ev, fl = c.data_for_time(c.times[0])
        fi, gi, ei, ef = wanted(D, kw)
        ensure(len(ev) == len(ei), "%d events of %d", len(ev), len(ei))
        at = match(fl, D.flash_id.data[fi], "collection")
        sec = (D.event_time_offset.data - np.datetime64(base)) / np.timedelta64(1, "s")
        key = lambda i, lon, lat, t, e: (int(i), float(np.float32(lon)), float(np.float32(lat)), round(float(t), 6), float(np.float32(e)))
        want = sorted(key(ef[k], D.event_lon.data[k], D.event_lat.data[k], sec[k], D.event_energy.data[k]) for k in ei)
        got = sorted(key(r["flash_id"], r["lon"], r["lat"], r["time"], r["power"]) for r in ev)
        for a, b in zip(got, want):
            ensure(a == b, "collection: event (flash, lon, lat, time, energy) is %s, expected %s", a, b)
        t0, t1 = rows_for(D, "flash", fi, base)
        close(fl["start"][at], t0, "start from base date", 1e-12, 1e-6)
        ts = T([p], datetime(2018, 7, 2, 4), datetime(2018, 7, 2, 5), 60, base_date=base, min_events=kw.get("min_events"), min_groups=kw.get("min_groups"),
               lon_range=kw.get("lon_range"), lat_range=kw.get("lat_range"))
        ev2, fl2 = ts.lma.data_for_time(ts.lma.times[0])
        match(fl2, D.flash_id.data[fi], "time series")
        close(np.sort(fl2["start"]), np.sort(t0), "time series start from its base date", 1e-12, 1e-6)
        ensure(len(ev2) == len(ei), "time series: %d events of %d", len(ev2), len(ei))


@case(n=14, thorough=80)
def clipped(rng):
    """footprints sliced by a mesh: every cell gets its share of every event, whatever the chunk size"""
    import pickle
    f = get("glmtools.io.mimic_lma", "read_flashes")
    G = get("glmtools.io.glm", "GLMDataset")
    lut = get("glmtools.io.glm", "get_lutevents")
    M = get("glmtools.grid.clipping", "QuadMeshSubset")
    with g.scratch() as td:
        p, tab = td + "/a.nc", td + "/corners.pickle"
        t = tree(rng)
        n = len(t.event_id)
        o = rng.randint(22000, 40000, 2)
        few = rng.randint(0, 200, (max(1, n // 2), 2)) + o            # some events share a location
        at = few[rng.randint(len(few), size=n)]
        g.write(p, rng, t, xy=(at[:, 0], at[:, 1]))
        glm = G(p)
        D = glm.dataset.copy(deep=True)
        x, y = D.event_x.data, D.event_y.data
        h = float(rng.choice([rng.uniform(40, 200), rng.uniform(300, 1200)]))    # some footprints span many cells
        hx, hy = h * 1e-6, h * float(rng.uniform(.5, 2)) * 1e-6
        pad = 1.2 * max(hx, hy)
        nx, ny = int(rng.randint(3, 24)), int(rng.randint(3, 24))
        ex = np.linspace(x.min() - pad, x.max() + pad, nx + 1)
        ey = np.linspace(y.min() - pad, y.max() + pad, ny + 1)
        X, Y = np.meshgrid(ex, ey, indexing="ij")
        mesh = M(X, Y, n_neighbors=int(rng.choice([1, 4, 20])), regular=True)
        tx, ty = np.meshgrid(np.linspace(-4e5, 4e5, 5), np.linspace(-4e5, 4e5, 4))
        C = np.empty(tx.shape + (4, 2))
        for k, (a, b) in enumerate([(-1, 1), (-1, -1), (1, -1), (1, 1)]):
            C[..., k, 0], C[..., k, 1] = a * hx * 1e6, b * hy * 1e6
        with open(tab, "wb") as fo:
            pickle.dump((tx, ty, C), fo)
        base = datetime(2018, 7, int(rng.randint(1, 3)))
        kw = dict((k, v) for k, v in ranges(rng, D).items() if k in ("min_groups", "min_events"))
        chunk = int(rng.choice([1, 2, 20000, 20000]))
        fi, gi, ei, ef = wanted(D, kw)
        if not len(ei):
            raise Skip
        res = f(glm, None, base_date=base, clip_events=mesh, fixed_grid=True, nadir_lon=-75.0, chunk_size=chunk, corner_pickle=tab, **kw)
        what = "chunk_size=%d %s" % (chunk, kw)
        ch = np.concatenate([r["event"][0] for r in res])
        close(ch["power"].astype("f8").sum(), D.event_energy.data[ei].astype("f8").sum(), what + ": energy of all records", 1e-4)
        for lev, idx in (("flash", fi), ("group", gi)):
            pa = np.concatenate([r[lev][1] for r in res])
            row = match(pa, D[lev + "_id"].data[idx], "%s, %s parents" % (what, lev))
            for c, s in (("total_energy", "energy"), ("area", "area"), ("ctr_x", "x"), ("ctr_y", "y")):
                close(pa[c][row], D[lev + "_" + s].data[idx], "%s %s" % (lev, c), 1e-5, 1e-9)
        to = {k: Sink() for k in ("flash", "group", "event")}
        f(glm, to, base_date=base, clip_events=mesh, fixed_grid=True, nadir_lon=-75.0, chunk_size=chunk, corner_pickle=tab, **kw)
        held = [r for r in res if len(r["flash"][0])]
        for k in to:
            ensure(len(to[k].got) == len(held), "%s: %s stream got %d of %d chunks", what, k, len(to[k].got), len(held))
            for a, b in zip(to[k].got, held):
                for j in (0, 1):
                    for nm in b[k][j].dtype.names:
                        if nm not in ("n_points", "ctr_z"):
                            same(a[j][nm], b[k][j][nm], "%s: %s %s sent: %s" % (what, k, ("children", "parents")[j], nm))
        if len(res) > 1:
            return
        L = lut(glm.get_flashes(D.flash_id.data[fi]))
        # overlap of each footprint with each column and row of cells
        lx, ly = L.lutevent_x.data.astype("f8"), L.lutevent_y.data.astype("f8")
        over = lambda e, c, w: np.clip(np.minimum(e[None, 1:], c[:, None] + w) - np.maximum(e[None, :-1], c[:, None] - w), 0, None)
        ov = over(ex, lx, hx)[:, :, None] * over(ey, ly, hy)[:, None, :]
        cell = (ex[1] - ex[0]) * (ey[1] - ey[0])
        share, cov = ov / (4 * hx * hy), ov / cell
        got = {(int(r["mesh_xi"]), int(r["mesh_yi"])): r for r in ch}
        ensure(len(got) == len(ch), "%s: two records for one cell", what)
        val = lambda nm: getattr(L, nm).data.astype("f8")
        for i in range(nx):
            for j in range(ny):
                r = got.get((i, j))
                for c, w, nm in (("power", share, "lutevent_energy"), ("lutevent_count", cov, "lutevent_count"), ("lutevent_flash_count", cov, "lutevent_flash_count"),
                                 ("lutevent_group_count", cov, "lutevent_group_count"), ("lutevent_total_flash_area", cov, "lutevent_total_flash_area"),
                                 ("lutevent_total_group_area", cov, "lutevent_total_group_area")):
                    want = float((w[:, i, j] * val(nm)).sum())
                    close(0.0 if r is None else float(r[c]), want, "%s: %s of cell %s" % (what, c, (i, j)), 1e-3, 1e-3 * val(nm).max())
