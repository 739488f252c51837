import numpy as np
from harness import case, get, ensure, same, close, Fail, Skip
import glmfile as gf


def scaling(rng):
    S = get("glmtools.io.imagery", "glm_scaling")
    nm = str(rng.choice(sorted(S)))
    return nm, S[nm]


def values(rng, sf):
    top = 65535 * sf
    sh = (int(rng.randint(1, 7)), int(rng.randint(1, 7)))
    m = rng.rand(*sh)
    v = np.where(m < .25, 0.0, np.where(m < .45, sf * rng.uniform(1e-4, 1, sh), np.where(m < .7, sf * rng.uniform(1, 50, sh),
                 np.where(m < .9, rng.uniform(0, top, sh), sf * rng.randint(0, 65536, sh)))))
    return v.astype(rng.choice(["f4", "f8"]))


@case(n=60, thorough=500)
def round_trip(rng):
    """through a file and back with the standard decoder and by hand"""
    import xarray as xr
    import netCDF4
    f = get("glmtools.io.imagery", "glm_image_to_var")
    nm, kw = scaling(rng)
    sf = kw["scale_factor"]
    data = values(rng, sf)
    lay = rng.randint(3)
    src = data if lay == 0 else np.flipud(data.T.copy().T) if lay == 1 else np.asfortranarray(data)
    keep = src.copy()
    d = f(src, nm, "long name", "unit", ("y", "x"), **kw)
    same(src, keep, "the input array must not change")
    big = keep.astype("f8") > sf
    same(np.asarray(d.data)[big], keep[big], "values larger than a step")
    zero = keep == 0
    same(np.asarray(d.data)[zero], keep[zero], "zeros")
    with gf.scratch() as td:
        p = td + "/a.nc"
        d.to_dataset().to_netcdf(p)
        with netCDF4.Dataset(p) as nc:
            v = nc[nm]
            v.set_auto_maskandscale(False)
            code = np.asarray(v[:]).astype("i8") % 65536
            ensure(abs(float(v.scale_factor) - sf) <= 1e-12 * sf and float(getattr(v, "add_offset", 0.0)) == 0.0 and v.dtype.itemsize == 2, "stored packing of %s", nm)
        with xr.open_dataset(p) as q:
            back = q[nm].load().data
    want = keep.astype("f8")
    for i in np.ndindex(want.shape):
        w, c, b = want[i], int(code[i]), float(back[i])
        if w == 0:
            ensure(c == 0 and (np.isnan(b) or b == 0), "%s: zero was stored as %d", nm, c)
            continue
        if w > 65535 * sf:
            continue
        ensure(c != 0, "%s: %r (step %g) was stored as empty", nm, w, sf)
        e = max(w, sf)
        ensure(abs(c * sf - e) <= sf * (.5 + 1e-3), "%s: %r was stored as %d steps of %g", nm, w, c, sf)
        ensure(not np.isnan(b) and abs(b - e) <= sf * (.5 + 2e-2) + 1e-6 * e, "%s: %r decodes to %r (step %g)", nm, w, b, sf)


@case(n=30, thorough=200)
def unpacked(rng):
    f = get("glmtools.io.imagery", "glm_image_to_var")
    data = values(rng, 1.0)
    keep = data.copy()
    d = f(data, "name", "long name", "unit", ("y", "x"))
    same(data, keep, "the input array must not change")
    same(np.asarray(d.data), keep, "without packing the values are kept")
    ensure(d.name == "name" and d.dims == ("y", "x") and d.attrs["units"] == "unit" and d.attrs["long_name"] == "long name" and d.attrs["standard_name"] == "name", "labels %s", d.attrs)


@case(n=20, thorough=200)
def offset(rng):
    """a packing with an offset: positive values keep away from the fill code"""
    f = get("glmtools.io.imagery", "glm_image_to_var")
    sf, off = float(rng.uniform(.1, 3)), float(rng.uniform(0, 2))
    data = values(rng, sf)
    keep = data.copy()
    d = np.asarray(f(data, "n", "l", "u", ("y", "x"), scale_factor=sf, add_offset=off, dtype="uint16").data, dtype="f8")
    same(data, keep, "the input array must not change")
    pos = keep > 0
    ensure((d[pos] >= (sf + off) * (1 - 1e-6)).all(), "a positive value would be stored below one step")
    big = keep > (sf + off) * (1 + 1e-6)
    same(d[big], keep[big].astype("f8"), "values above one step")
    same(d[keep == 0], keep[keep == 0].astype("f8"), "zeros")
