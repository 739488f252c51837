import os
import numpy as np
import datetime as dtm
from harness import case, get, ensure, same, close, Fail, Skip, AnchorMissing
import pipe
import glmfile as gf

AVG = {"average_flash_area": "flash_extent_density", "average_group_area": "group_extent_density"}


def fill(rng, g):
    for nm, a in pipe.grids(g).items():
        v = rng.uniform(1, 60, a.shape) if rng.rand() < .6 else rng.uniform(.05, 3, a.shape)
        if nm == "total_energy":
            v = rng.uniform(1e-5, 5e-2, a.shape)
        a[...] = np.where(rng.rand(*a.shape) < .35, 0, v)
    for nm, count in AVG.items():                  # averages up to the largest that can be stored
        a, c = pipe.grids(g)[nm], pipe.grids(g)[count]
        v = np.where(c == 0, 1, c) * rng.uniform(.01, .999 * 65535 * (10. if nm == "average_flash_area" else 1.), a.shape)
        a[...] = np.where(rng.rand(*a.shape) < .35, 0, v)


def expect(g):
    G = {k: np.array(v, dtype="f8") for k, v in pipe.grids(g).items()}
    for a, c in AVG.items():
        ok = (G[a] != 0) & (G[c] != 0)
        G[a] = np.where(ok, G[a] / np.where(ok, G[c], 1), 0)
    return G


def look(g, files, W, xs, ys, packed, tmpl=None):
    import xarray as xr
    te = g.t_edges_seconds
    nt = len(te) - 1
    ensure(len(files) == nt and len(set(files)) == nt, "%d files for %d frames", len(set(files)), nt)
    xc = (.5 * (g.xedge[1:] + g.xedge[:-1]))[xs]
    yc = (.5 * (g.yedge[1:] + g.yedge[:-1]))[ys]
    got = []
    for k, fn in enumerate(files):
        t0, t1 = g.t_ref + dtm.timedelta(0, te[k]), g.t_ref + dtm.timedelta(0, te[k + 1])
        if tmpl:
            ensure(os.path.basename(fn) == tmpl.format(start_time=t0, end_time=t1), "frame %d from %s was written to %s", k, t0, fn)
        with xr.open_dataset(fn) as q:
            d = q.load()
        a = d.attrs
        ensure(a["time_coverage_start"].rstrip("Z") == t0.isoformat() and a["time_coverage_end"].rstrip("Z") == t1.isoformat(),
               "frame %d is %s to %s but says %s to %s", k, t0, t1, a["time_coverage_start"], a["time_coverage_end"])
        ensure(t0.strftime("s%Y%j%H%M%S") in a["dataset_name"] and t1.strftime("e%Y%j%H%M%S") in a["dataset_name"], "data set name %s for %s", a["dataset_name"], t0)
        ensure(a["platform_ID"] == "G16" and a["orbital_slot"] == "GOES-East", "platform")
        close(d.x.data, xc, "x coordinates (west to east)", 0, 2e-8)
        close(d.y.data, yc[::-1], "y coordinates (north to south)", 0, 2e-8)
        close(float(d.goes_imager_projection.attrs["longitude_of_projection_origin"]), g.geoProj.lon0, "longitude of the projection", 1e-9)
        close(float(d.nominal_satellite_subpoint_lon), g.geoProj.lon0, "longitude below the satellite", 1e-6)
        S = get("glmtools.io.imagery", "glm_scaling")
        for nm, de, un in zip(g.field_names, g.field_descriptions, g.field_units):
            ensure(nm in d, "%s is not in the file", nm)
            v = d[nm]
            ensure(v.dims == ("y", "x"), "dimensions of %s: %s", nm, v.dims)
            ensure(v.attrs["long_name"] == de and v.attrs["units"] == un, "labels of %s: %s", nm, v.attrs)
            want = W[nm][xs, ys, k]
            img = np.nan_to_num(v.data.astype("f8"))
            ensure(img.shape == (len(yc), len(xc)), "shape of %s: %s", nm, img.shape)
            img = img[::-1, :].T                          # back to x, y increasing
            tol = .51 * S[nm]["scale_factor"] if packed and nm in S else 0.0
            if packed:
                want = np.where((want > 0) & (want < 2 * tol), np.maximum(want, tol / .51), want)
            close(img, want, "%s of frame %d" % (nm, k), 2e-6, tol * 1.001)
        got.append(d)
    try:
        tell = get("glmtools.io.imagery", "gen_file_times")
    except AnchorMissing:
        return got
    for attr, late in (({}, 0), ({"time_attr": "time_coverage_end"}, 1)):
        ts = list(tell(files, **attr))
        ensure(len(ts) == nt and all(ts[k] == g.t_ref + dtm.timedelta(0, te[k + late]) for k in range(nt)), "times of the files: %s", ts)
    return got


def slices(rng, g):
    nx, ny = len(g.xedge) - 1, len(g.yedge) - 1
    if rng.rand() < .4:
        return None
    a, b = int(rng.randint(0, (nx + 1) // 2)), int(rng.randint(0, (ny + 1) // 2))
    a, b = min(a, (nx - 2) // 2), min(b, (ny - 2) // 2)
    return (slice(a, -a) if a else slice(None), slice(b, -b) if b else slice(None))


@case(n=25, thorough=250)
def images(rng):
    f = get("glmtools.io.imagery", "write_goes_imagery")
    g = pipe.gridder(rng, nx=int(rng.randint(2, 9)), ny=int(rng.randint(2, 9)))
    fill(rng, g)
    keep = [a.copy() for a in g.outgrids]
    W = expect(g)
    pad = slices(rng, g)
    xs, ys = pad or (slice(None), slice(None))
    packed = bool(rng.randint(2))
    with gf.scratch() as td:
        tm = "{start_time:%Y%m%d%H%M%S}-{end_time:%H%M%S}.nc"
        runs = []
        for k in range(2):
            files = f(g, outpath=td + "/a%d/b/" % k + tm, pad=pad, scale_and_offset=packed)
            for a, b in zip(g.outgrids, keep):
                same(a, b, "the accumulated grids must not change")
            runs.append(look(g, files, W, xs, ys, packed, tm))
        for a, b in zip(*runs):
            for nm in g.field_names:
                ensure(np.array_equal(a[nm].data, b[nm].data, equal_nan=True), "writing again gave another image of %s", nm)


@case(n=8, thorough=60)
def through_write_grids(rng):
    """the gridder's own writer, options passed on, options not altered"""
    g = pipe.gridder(rng)
    fill(rng, g)
    W = expect(g)
    pad = slices(rng, g)
    xs, ys = pad or (slice(None), slice(None))
    packed = bool(rng.randint(2))
    opts = {"scale_and_offset": packed}
    if pad:
        opts["pad"] = pad
    keep = dict(opts)
    with gf.scratch() as td:
        tm = "{start_time:%Y%m%d%H%M%S}.nc"
        for k in range(2):
            files = g.write_grids(outpath=td + "/%d/" % k + tm, output_kwargs=opts)
            ensure(opts == keep, "the caller's options became %s", opts)
            look(g, files, W, xs, ys, packed, tm)


@case(n=4, thorough=20)
def in_current_directory(rng):
    f = get("glmtools.io.imagery", "write_goes_imagery")
    g = pipe.gridder(rng)
    fill(rng, g)
    W = expect(g)
    with gf.scratch() as td:
        here = os.getcwd()
        os.chdir(td)
        try:
            files = f(g, outpath="{start_time:%H%M%S}.nc") if rng.rand() < .5 else f(g)
            look(g, files, W, slice(None), slice(None), True)
        finally:
            os.chdir(here)


@case(n=40, thorough=200)
def pairs(rng):
    f = get("glmtools.io.imagery", "pairwise")
    a = list(range(int(rng.randint(0, 7))))
    ensure(list(f(a)) == list(zip(a[:-1], a[1:])), "pairs of %s: %s", a, list(f(a)))


@case(n=40, thorough=200)
def scene(rng):
    """the scene named after the span it covers"""
    f = get("glmtools.io.imagery", "infer_scene_from_dataset")
    import lmatools.grid.fixed as fx
    step = float(rng.choice([28e-6, 56e-6, 112e-6, 280e-6]))
    which = str(rng.choice(["FULL", "CONUS", "MESO1", "OTHER", "WEST"]))
    D = {"FULL": fx.goesr_full, "CONUS": fx.goesr_conus, "MESO1": fx.goesr_meso}
    w, h = (D[which]["spanEW"], D[which]["spanNS"]) if which in D else (rng.uniform(.05, .1), rng.uniform(.05, .1))
    if which == "WEST":                              # the wider domain of GOES-West
        which, w, h = "CONUS", .172732, .086
    x, y = np.linspace(-w / 2, w / 2, int(w / step) + 1), np.linspace(h / 2, -h / 2, int(h / step) + 1)
    s, r = f(x, y)
    ensure(s == which, "a grid spanning %g by %g is called %s, not %s", w, h, s, which)
    km = {28e-6: "1km", 56e-6: "2km", 112e-6: "4km", 280e-6: "10km"}[step]
    ensure(r == km + " at nadir", "spacing %g is called %s", step, r)
