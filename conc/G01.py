import numpy as np
from harness import case, get, ensure, same, close, Fail, Skip
import pipe
import glmfile as gf


def records(rng, g, t):
    """events of one batch, at most one per cell, at time t"""
    nx, ny = len(g.xedge) - 1, len(g.yedge) - 1
    n = int(rng.randint(0, min(12, nx * ny) + 1))
    c = rng.choice(nx * ny, n, replace=False)
    e = np.zeros(n, dtype=pipe.EV)
    e["mesh_xi"], e["mesh_yi"] = c % ny, c // ny            # first mesh index is the row (y), second the column (x)
    e["time"] = t
    for k in ("power", "lutevent_count", "lutevent_flash_count", "lutevent_group_count", "lutevent_total_flash_area", "lutevent_total_group_area",
              "lutevent_min_flash_area", "mesh_frac"):
        e[k] = rng.uniform(.1, 9, n)
    e["flash_id"] = np.arange(n)
    return e


def parents(rng, g, t):
    n = int(rng.randint(0, 9))
    f = np.zeros(n, dtype=pipe.FL)
    cx, cy = (g.xedge[1:] + g.xedge[:-1]) / 2, (g.yedge[1:] + g.yedge[:-1]) / 2
    f["ctr_x"], f["ctr_y"] = rng.choice(cx, n), rng.choice(cy, n)
    f["start"] = t
    f["area"], f["total_energy"] = rng.uniform(1, 99, n), rng.uniform(1, 99, n)
    f["flash_id"] = np.arange(n)
    return f


@case(n=60, thorough=600)
def wiring(rng):
    g = pipe.gridder(rng)
    G = pipe.grids(g)
    ensure(len(g.field_names) == len(g.outgrids) == len(g.field_descriptions) == len(g.field_units) == len(g.outformats),
           "%d names, %d grids, %d descriptions, %d units", len(g.field_names), len(g.outgrids), len(g.field_descriptions), len(g.field_units))
    ensure(sorted(g.field_names) == sorted(pipe.NAMES), "names %s", list(g.field_names))
    nx, ny, nt = len(g.xedge) - 1, len(g.yedge) - 1, len(g.t_edges_seconds) - 1
    W = {k: np.zeros((nx, ny, nt)) for k in pipe.NAMES}
    for _ in range(int(rng.randint(1, 5))):
        k = int(rng.randint(-1, nt + 1))
        te = g.t_edges_seconds
        t = te[0] - 5. if k < 0 else te[-1] + 5. if k >= nt else (te[k] if rng.rand() < .4 else .5 * (te[k] + te[k + 1]))
        ev, fl, gr = records(rng, g, t), parents(rng, g, t), parents(rng, g, t)
        g.framer["flash"].send((ev, fl))
        g.framer["group"].send((ev, gr))
        g.framer["event"].send((ev, ev))
        if not 0 <= k < nt:
            continue
        for r in ev:
            x, y = r["mesh_yi"], r["mesh_xi"]
            W["flash_extent_density"][x, y, k] += r["lutevent_flash_count"]
            W["group_extent_density"][x, y, k] += r["lutevent_group_count"]
            W["average_flash_area"][x, y, k] += r["lutevent_total_flash_area"]
            W["average_group_area"][x, y, k] += r["lutevent_total_group_area"]
            W["total_energy"][x, y, k] += r["power"]
            m = W["minimum_flash_area"][x, y, k]
            W["minimum_flash_area"][x, y, k] = r["lutevent_min_flash_area"] if m == 0 else min(m, r["lutevent_min_flash_area"])
        for src, nm in ((fl, "flash_centroid_density"), (gr, "group_centroid_density")):
            for r in src:
                W[nm][int(np.argmin(abs((g.xedge[1:] + g.xedge[:-1]) / 2 - r["ctr_x"]))), int(np.argmin(abs((g.yedge[1:] + g.yedge[:-1]) / 2 - r["ctr_y"]))), k] += 1
    for nm in pipe.NAMES:
        close(G[nm], W[nm], "accumulated grid of " + nm, 1e-5, 1e-5)
    # which grids are divided by which before writing
    d = {g.field_names[a]: g.field_names[b] for a, b in g.divide_grids.items()}
    ensure(d == {"average_flash_area": "flash_extent_density", "average_group_area": "group_extent_density"}, "averages are divided as %s", d)


DESCR = {"flash_extent_density": ["flash", "extent"], "flash_centroid_density": ["flash", "centroid"], "average_flash_area": ["average", "flash", "area"],
         "total_energy": ["total", "energy"], "group_extent_density": ["group", "extent"], "group_centroid_density": ["group", "centroid"],
         "average_group_area": ["average", "group", "area"], "minimum_flash_area": ["minimum", "flash", "area"]}
UNIT = {"average_flash_area": "km^2 per flash", "average_group_area": "km^2 per group", "minimum_flash_area": "km^2", "total_energy": "nJ"}


@case(n=6, thorough=20)
def labels(rng):
    for lut in (True, False):
        g = pipe.gridder(rng, lut)
        n = len(g.outgrids)
        ensure(len(set(map(id, g.outgrids))) == n, "one grid is used for two products")
        ensure(n <= len(g.field_names) and len(g.field_names) == len(g.field_descriptions) == len(g.field_units), "lists of different lengths")
        for nm, de, un, gr in zip(g.field_names, g.field_descriptions, g.field_units, g.outgrids):
            ensure(nm in DESCR, "unknown product %s", nm)
            ensure(all(w in de.lower() for w in DESCR[nm]), "product %s is described as %r", nm, de)
            ensure(un == UNIT[nm] if nm in UNIT else un.startswith("Count per"), "unit of %s is %r", nm, un)
            ensure(gr.shape == (len(g.xedge) - 1, len(g.yedge) - 1, len(g.t_edges_seconds) - 1), "shape of %s: %s", nm, gr.shape)


def near(rng, n, half=250):
    return 32768 + rng.randint(-half, half, n), 32768 + rng.randint(-half, half, n)


@case(n=12, thorough=80)
def from_files(rng):
    """files to images: every product against sums worked out from the file"""
    import xarray as xr
    import datetime as dtm
    f = get("glmtools.grid.make_grids", "grid_GLM_flashes")
    G = get("glmtools.io.glm", "GLMDataset")
    Q = get("glmtools.io.ccd", "quads_from_corner_lookup")
    L = get("glmtools.io.ccd", "load_pixel_corner_lookup")
    import glmtools.io.mimic_lma as mm
    import os
    import geom
    pick = os.path.join(os.path.dirname(mm.__file__), "G16_corner_lut_fixedgrid.pickle")
    step = float(rng.choice([28e-6, 56e-6, 112e-6]))
    with gf.scratch() as td:
        t = gf.make_tree(rng, nfl=int(rng.randint(1, 5)))
        nev, ngr, nfl = len(t.event_id), len(t.group_id), len(t.flash_id)
        if nev == 0:
            raise Skip()
        p = td + "/a.nc"
        gf.write(p, rng, t, xy=near(rng, nev), flash_lat=rng.uniform(-.5, .5, nfl), flash_lon=-75 + rng.uniform(-.5, .5, nfl),
                 group_lat=rng.uniform(-.5, .5, ngr), group_lon=-75 + rng.uniform(-.5, .5, ngr))
        half = 0.0028
        n = int(round(2 * half / step))
        start = dtm.datetime(2018, 7, 2, 4, 33)
        f([p], start, start + dtm.timedelta(0, 60), base_date=start, do_3d=False, dx=step, dy=step, frame_interval=60., x_bnd=(-half, -half + n * step),
          y_bnd=(-half, -half + n * step), ctr_lat=0.0, ctr_lon=-75.0, proj_name="geos", proj_datum="", proj_ellipse="", pixel_coords=None,
          min_points_per_flash=0, min_groups_per_flash=0, clip_events=True, fixed_grid=True, nadir_lon=-75.0, corner_pickle=None, ellipse_rev=1,
          outpath=td + "/out/{start_time:%H%M%S}.nc", output_writer=None, output_kwargs={"scale_and_offset": False}, output_filename_prefix="GLM", subdivide=1)
        got = xr.open_dataset(td + "/out/" + os.listdir(td + "/out")[0], mask_and_scale=False).load()
        got.close()
        ensure(got["flash_extent_density"].shape == (n, n), "image shape %s for %d cells", got["flash_extent_density"].shape, n)
        D = G(p, ellipse_rev=1).dataset
        xl, yl, cl = L(pick)
        ex, ey = D.event_x.data, D.event_y.data
        g2f = dict(zip(D.group_id.data.tolist(), D.group_parent_flash_id.data.tolist()))
        ega = dict(zip(D.group_id.data.tolist(), D.group_area.data.tolist()))
        efa = dict(zip(D.flash_id.data.tolist(), D.flash_area.data.tolist()))
        eg = D.event_parent_group_id.data.tolist()
        ed = -half + step * np.arange(n + 1)
        # energy is conserved when all footprints lie inside the grid
        tot = float(D.event_energy.data.astype("f8").sum())
        sm = float(got["total_energy"].data.astype("f8").sum())
        ensure(abs(sm - tot) <= 2e-4 * tot, "total energy on the grid %r, in the file %r (cell size %g)", sm, tot, step)
        # groups of events seen at one place count once per flash / group
        polys = Q(xl * 1e-6, yl * 1e-6, cl * 1e-6, ex, ey)
        place = {}
        for k in range(nev):
            place.setdefault((round(float(ex[k]) / 28e-6, 3), round(float(ey[k]) / 28e-6, 3)), []).append(k)
        fed = ged = tfa = tga = 0.0
        for ks in place.values():
            fl, gr = set(g2f[eg[k]] for k in ks), set(eg[k] for k in ks)
            a = geom.area(polys[ks[0]]) / step ** 2
            fed, ged = fed + a * len(fl), ged + a * len(gr)
            tfa, tga = tfa + a * sum(efa[i] for i in fl), tga + a * sum(ega[i] for i in gr)
        F, A = got["flash_extent_density"].data.astype("f8"), got["average_flash_area"].data.astype("f8")
        H, B = got["group_extent_density"].data.astype("f8"), got["average_group_area"].data.astype("f8")
        loose = len(place) < nev            # events closer than a location cell were merged
        tol = 1e-3
        if not loose:
            close(F.sum(), fed, "summed flash extent density", tol)
            close(H.sum(), ged, "summed group extent density", tol)
            close((F * A).sum(), tfa, "summed flash area", tol)
            close((H * B).sum(), tga, "summed group area", tol)
        ensure(got["flash_centroid_density"].data.sum() == nfl, "%s flash centroids for %d flashes", got["flash_centroid_density"].data.sum(), nfl)
        ensure(got["group_centroid_density"].data.sum() == ngr, "%s group centroids for %d groups", got["group_centroid_density"].data.sum(), ngr)
        M = got["minimum_flash_area"].data
        ensure(((M > 0) == (F > 0)).all(), "minimum area and extent density have lightning at different cells")
        fa = D.flash_area.data.astype("f8")
        ensure(M.max() <= fa.max() * 1.0001 and M[M > 0].min() >= fa.min() * .9999, "minimum area %s outside the flash areas", (M[M > 0].min(), M.max()))
        # row and column of one isolated event's energy
        yy, xx = got.y.data, got.x.data
        cx = float((got["total_energy"].data.sum(axis=0) * (.5 * (ed[1:] + ed[:-1]))).sum() / sm)
        cy = float((got["total_energy"].data.sum(axis=1) * (.5 * (ed[1:] + ed[:-1]))[::-1]).sum() / sm)
        en = D.event_energy.data.astype("f8")
        ctr = polys.mean(axis=1)
        close(cx, (en * ctr[:, 0]).sum() / tot, "mean x of the energy", 0, step)
        close(cy, (en * ctr[:, 1]).sum() / tot, "mean y of the energy", 0, step)
