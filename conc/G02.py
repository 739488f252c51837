import os
import copy
import numpy as np
import datetime as dtm
from harness import case, get, ensure, same, close, Fail, Skip
import glmfile as gf


def whole(v, what, eps=1e-6):
    k = round(v)
    ensure(abs(v - k) < eps and k >= 0, "%s spans %r cells", what, v)
    return int(k)


@case(n=200, thorough=2000)
def bounds(rng):
    f = get("glmtools.grid.make_grids", "subdivide_bnd")
    s = int(rng.randint(1, 9))
    n = int(rng.randint(s, 60 * s + 1)) if rng.rand() < .5 else s * int(rng.randint(1, 4))
    d = float(rng.choice([.1, .3, .5, 28e-6, 56e-6, 112e-6, 1 / 3., float(rng.uniform(.01, 3))]))
    lo = float(rng.choice([0.0, -.151872, float(rng.uniform(-9, 9)) * d]))
    bnd = (lo, lo + n * d) if rng.rand() < .5 else (round(lo, 9), round(round(lo, 9) + n * d, 9))
    e = np.asarray(f(bnd, d, s=s), dtype="f8") if rng.rand() < .9 or s != 8 else np.asarray(f(bnd, d), dtype="f8")
    ensure(e.shape == (s + 1,), "%d tiles have %s edges", s, e.shape)
    ensure(e[0] == bnd[0] and e[-1] == bnd[1], "tiles cover %s of %s", (e[0], e[-1]), bnd)
    k = [whole((e[i + 1] - e[i]) / d, "tile %d of %d" % (i, s)) for i in range(s)]
    ensure(sum(k) == n, "tiles hold %d of %d cells", sum(k), n)
    ensure(min(k) >= 1, "a tile is empty: %s cells of %d in %d tiles", k, n, s)


def setup(rng):
    dx, dy = [float(v) for v in rng.choice([28e-6, 56e-6, 112e-6, 300e-6], 2)]
    s = int(rng.randint(1, 5))
    nx, ny = int(rng.randint(s, 30)), int(rng.randint(s, 30))
    x0, y0 = float(rng.uniform(-.1, .1)), float(rng.uniform(-.1, .1))
    kw = dict(dx=dx, dy=dy, x_bnd=(x0, x0 + nx * dx), y_bnd=(y0, y0 + ny * dy), frame_interval=60.)
    pk = dict(nadir_lon=-75.0, min_points_per_flash=2, lon_bnd=(1, 2))
    ok = dict(output_filename_prefix="GLM", output_writer=None, outpath="x", output_kwargs={"scale_and_offset": bool(rng.randint(2))})
    return s, nx, ny, kw, pk, ok


@case(n=80, thorough=600)
def tiles(rng):
    f = get("glmtools.grid.make_grids", "subdivided_fixed_grid")
    s, nx, ny, kw, pk, ok = setup(rng)
    k0, p0, o0 = copy.deepcopy(kw), copy.deepcopy(pk), copy.deepcopy(ok)
    a = {}
    if rng.rand() < .5:
        a = dict(x_pad=float(rng.uniform(0, 12)) * kw["dx"], y_pad=float(rng.uniform(0, 12)) * kw["dy"])
    T = list(f(kw, pk, ok, s=s, **a))
    ensure(len(T) == s * s and sorted(t[0] for t in T) == [(i, j) for i in range(s) for j in range(s)], "tiles %s", [t[0] for t in T])
    ensure(kw == k0 and pk == p0 and {k: ok[k] for k in o0} == o0 and set(ok) == set(o0), "the caller's options were altered")
    pads = set()
    cover = np.zeros((nx, ny), int)
    for (i, j), k, p, o, pad in T:
        nxp, nyp, xp, yp = pad
        pads.add((nxp, nyp))
        ensure(nxp == int(nxp) and nyp == int(nyp) and nxp >= 0 and nyp >= 0, "padding %s", pad)
        close(xp, nxp * kw["dx"], "x padding", 1e-12)
        close(yp, nyp * kw["dy"], "y padding", 1e-12)
        for ax in ("x_bnd", "y_bnd"):
            same(np.asarray(k[ax]), np.asarray(p[ax]), "tile and selection bounds")
        sl = o["preprocess_out"].get_pad_slices()
        out = []
        for ax, d, lo, sli, npad in (("x_bnd", kw["dx"], kw["x_bnd"][0], sl[0], nxp), ("y_bnd", kw["dy"], kw["y_bnd"][0], sl[1], nyp)):
            w = whole((k[ax][1] - k[ax][0]) / d, "padded tile", 1e-4)
            first = int(round((k[ax][0] - lo) / d))
            ensure(abs((k[ax][0] - lo) / d - first) < 1e-4, "tile does not start on a cell edge")
            r = range(w)[sli]
            ensure(len(r) == w - 2 * npad, "trimming %s leaves %d of %d cells, padding %d a side", sli, len(r), w, npad)
            out.append([first + q for q in r])
        for x in out[0]:
            for y in out[1]:
                ensure(0 <= x < nx and 0 <= y < ny, "tile %s writes cell %s outside the grid", (i, j), (x, y))
                cover[x, y] += 1
        ensure(p["lon_bnd"] is None and p["lat_bnd"] is None, "selection by longitude for a fixed grid tile")
        for q in ("nadir_lon", "min_points_per_flash"):
            ensure(p[q] == pk[q], "option %s of tile", q)
        ensure(k["dx"] == kw["dx"] and k["dy"] == kw["dy"] and k["frame_interval"] == 60., "grid options of tile")
        ensure(o["outpath"] == "x" and dict(o["output_kwargs"], pad=None) == dict(ok["output_kwargs"], pad=None), "output options of tile %s", (i, j))
    ensure((cover == 1).all(), "cells written %s times", sorted(set(cover.ravel().tolist())))
    ensure(len(pads) == 1, "tiles are padded differently: %s", pads)
    names = [t[3]["output_filename_prefix"] for t in T]
    ensure(len(set(names)) == s * s and all(n.startswith("GLM") for n in names), "tile names %s", names)


@case(n=60, thorough=400)
def trimming(rng):
    P = get("glmtools.grid.make_grids", "GridOutputPreprocess")
    nxp, nyp = int(rng.randint(0, 4)), int(rng.randint(0, 4))
    got = []
    p = P(pads=(nxp, nyp, nxp * .1, nyp * .1), writer=lambda *a, **k: got.append((a, k)))
    nx, ny = 2 * nxp + int(rng.randint(1, 6)), 2 * nyp + int(rng.randint(1, 6))
    sent = []
    for _ in range(int(rng.randint(0, 4))):
        args = ["file%d" % len(sent), 1, 2, rng.rand(nx), rng.rand(ny), 5, 6, 7, 8, rng.rand(nx, ny), 10, 11]
        sent.append(args)
        p.capture_write_call(*args, extra=len(sent))
    ensure(got == [], "written before write_all")
    names = p.write_all()
    ensure(list(names) == [a[0] for a in sent], "files %s", names)
    ensure(len(got) == len(sent), "%d of %d grids written", len(got), len(sent))
    for (a, k), s in zip(got, sent):
        ensure(len(a) == len(s) and k == {"extra": int(a[0][4:]) + 1}, "arguments of the writer")
        for q in range(len(s)):
            if q == 3:
                same(a[q], s[q][nxp:nx - nxp], "x coordinate")
            elif q == 4:
                same(a[q], s[q][nyp:ny - nyp], "y coordinate")
            elif q == 9:
                same(a[q], s[q][nxp:nx - nxp, nyp:ny - nyp], "grid")
            else:
                ensure(a[q] == s[q], "argument %d", q)


@case(n=3, thorough=20)
def every_tile_honours_options(rng):
    """files to tiled images, put together again, against the untiled image"""
    import xarray as xr
    f = get("glmtools.grid.make_grids", "grid_GLM_flashes")
    with gf.scratch() as td:
        t = gf.make_tree(rng, nfl=3)
        nev, ngr, nfl = len(t.event_id), len(t.group_id), len(t.flash_id)
        if nev == 0:
            raise Skip()
        p = td + "/a.nc"
        gf.write(p, rng, t, xy=(32768 + rng.randint(-200, 200, nev), 32768 + rng.randint(-200, 200, nev)), flash_lat=rng.uniform(-.3, .3, nfl),
                 flash_lon=-75 + rng.uniform(-.3, .3, nfl), group_lat=rng.uniform(-.3, .3, ngr), group_lon=-75 + rng.uniform(-.3, .3, ngr))
        step, m = 112e-6, 24
        half = step * m / 2
        start = dtm.datetime(2018, 7, 2, 4, 33)
        pack = bool(rng.randint(2))
        opts = {"scale_and_offset": pack}

        def run(sub, out):
            f([p], start, start + dtm.timedelta(0, 60), base_date=start, dx=step, dy=step, frame_interval=60., x_bnd=(-half, half), y_bnd=(-half, half),
              ctr_lat=0.0, ctr_lon=-75.0, proj_name="geos", proj_datum="", proj_ellipse="", pixel_coords=None, clip_events=True, fixed_grid=True,
              nadir_lon=-75.0, corner_pickle=None, ellipse_rev=1, outpath=out, output_writer=None, output_kwargs=opts,
              output_filename_prefix="GLM", subdivide=sub)
            ensure(opts == {"scale_and_offset": pack}, "the caller's output options became %s", opts)
        M = get("glmtools.grid.make_grids", "subdivided_fixed_grid")
        import glmtools.grid.make_grids as mg
        keep = mg.proc_each_grid
        seen = []

        def each(sg, **k):           # give every tile its own directory
            sg[3]["outpath"] = td + "/t%d-%d/{start_time:%%H%%M%%S}.nc" % sg[0]
            seen.append(sg[0])
            return keep(sg, **k)
        run(1, td + "/one/{start_time:%H%M%S}.nc")
        s = int(rng.choice([2, 3]))
        mg.proc_each_grid = each
        try:
            run(s, "unused")
        finally:
            mg.proc_each_grid = keep

        def load(d):
            n = os.listdir(d)
            ensure(len(n) == 1, "images in tile: %s", n)
            with xr.open_dataset(d + "/" + n[0], mask_and_scale=False) as q:
                return q.load()
        one = load(td + "/one")
        for nm in ("flash_extent_density", "total_energy", "average_flash_area", "minimum_flash_area", "group_extent_density", "flash_centroid_density"):
            rows = []
            for j in range(s)[::-1]:
                row = []
                for i in range(s):
                    q = load(td + "/t%d-%d" % (i, j))[nm]
                    ensure((q.dtype.kind in "iu") == pack, "tile (%d, %d): %s written as %s with scale_and_offset=%s", i, j, nm, q.dtype, pack)
                    row.append(q.data)
                rows.append(np.concatenate(row, axis=1))
            whole_ = np.concatenate(rows, axis=0)
            w = one[nm].data
            ensure(whole_.shape == w.shape == (m, m), "%s: tiles put together %s, image %s", nm, whole_.shape, w.shape)
            if pack:
                ensure(np.abs(whole_.astype("i8") - w.astype("i8")).max() <= 1, "%s: tiles differ from the image", nm)
            else:
                close(whole_, w, "%s: tiles against image" % nm, 1e-4, 1e-7)


@case(n=40, thorough=200)
def selection(rng):
    """what the gridder asks the reader for"""
    import pipe
    get("glmtools.grid.make_grids", "read_flashes")
    import glmtools.grid.make_grids as mg
    g = pipe.gridder(rng)
    full = dict(lon_bnd=(-80., -70.), lat_bnd=(1., 2.), x_bnd=(-.1, .1), y_bnd=(-.05, .02), min_points_per_flash=int(rng.randint(1, 9)),
                min_groups_per_flash=int(rng.randint(10, 20)), clip_events=object(), fixed_grid=True, nadir_lon=-75.)
    kw = {k: v for k, v in full.items() if rng.rand() < .6}
    glm, calls, keep = object(), [], mg.read_flashes

    def record(a, b, **k):
        calls.append((a, b, k))
    mg.read_flashes = record
    try:
        g.process_flashes(glm, **kw)
    finally:
        mg.read_flashes = keep
    if len(calls) != 1:
        raise Skip()
    a, b, k = calls[0]
    ensure(a is glm and b is g.framer and k.get("base_date") == g.t_ref, "read from %r into %r since %r", a, b, k.get("base_date"))
    for q, r in (("lon_bnd", "lon_range"), ("lat_bnd", "lat_range"), ("x_bnd", "x_range"), ("y_bnd", "y_range"),
                 ("min_points_per_flash", "min_events"), ("min_groups_per_flash", "min_groups"), ("nadir_lon", "nadir_lon")):
        ensure(k.get(r) == kw.get(q), "%s=%r was asked for, %s=%r is read", q, kw.get(q), r, k.get(r))
    if "clip_events" in kw:
        ensure(k.get("clip_events") is kw["clip_events"], "clipping to another mesh")
