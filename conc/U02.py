import os
import numpy as np
import xarray as xr
from harness import case, get, ensure, close, Fail
import glmfile as g


@case(n=12, thorough=200)
def fix_unsigned_all_codes(rng):
    """all 65536 codes of one scale and offset, after an automatic signed decoding"""
    f = get("glmtools.io.glm", "fix_unsigned")
    m = rng.randint(5)
    sc, off = [(0.00203128, -66.56), (1.52597e-15, 2.8515e-16), (0.15163901, 63.095734), (float(10.0 ** rng.uniform(-15, 3)), float(rng.uniform(-200, 200))),
               (float(rng.uniform(.001, 2)), float(rng.uniform(-1, 1)))][m]
    if m == 3:
        off = off * sc
    stored = np.arange(-32768, 32768).astype("i2")
    dec = stored.astype("f8") * sc + off
    da = xr.DataArray(dec, dims=["n"])
    da.encoding = {"dtype": np.dtype("int16"), "scale_factor": sc, "add_offset": off}
    before = dec.copy()
    got = np.asarray(f(da))
    want = (stored.astype("i8") % 65536) * sc + off
    bad = np.abs(got - want) > 1e-6 * sc + 1e-12 * np.abs(want)
    if bad.any():
        i = int(np.flatnonzero(bad)[0])
        raise Fail("code %d decodes to %r, expected %r (scale %r offset %r); %d of 65536 codes wrong" % (stored[i], got[i], want[i], sc, off, bad.sum()))
    ensure(np.array_equal(da.data, before), "input altered")


@case(n=2, thorough=2)
def locations_after_decoding(rng):
    f = get("glmtools.io.glm", "fix_event_locations")
    stored = np.arange(-32768, 32768).astype("i2")
    sc = 0.00203128
    lat = xr.DataArray(stored * sc - 66.56, dims=["n"])
    k = rng.permutation(65536)
    lon = xr.DataArray(stored[k] * sc - 156.06, dims=["n"])
    a, b = f(lat, lon, is_xarray=True)
    u = stored.astype("i8") % 65536
    for nm, got, want in (("latitude", a, u * sc - 66.56), ("longitude", b, u[k] * sc - 156.06)):
        bad = np.abs(np.asarray(got) - want) > 1e-6 * sc + 1e-12 * np.abs(want)
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            raise Fail("%s of code %d is %r, expected %r; %d of 65536 codes wrong" % (nm, (stored if nm == "latitude" else stored[k])[i], got[i], want[i], bad.sum()))


@case(n=2, thorough=2)
def locations_raw(rng):
    import netCDF4
    f = get("glmtools.io.glm", "fix_event_locations")
    stored = np.arange(-32768, 32768).astype("i2")
    k = rng.permutation(65536)
    sc = 0.00203128
    with g.scratch() as d:
        nc = netCDF4.Dataset(os.path.join(d, "a.nc"), "w")
        nc.createDimension("n", 65536)
        for nm, v, off in (("lat", stored, -66.56), ("lon", stored[k], -156.06)):
            x = nc.createVariable(nm, "i2", ("n",))
            x.set_auto_maskandscale(False)
            x.scale_factor, x.add_offset = sc, off
            x[:] = v
        nc.close()
        nc = netCDF4.Dataset(os.path.join(d, "a.nc"))
        a, b = f(nc["lat"], nc["lon"])
        u = stored.astype("i8") % 65536
        close(np.asarray(a), u * sc - 66.56, "raw latitude", 1e-12, 1e-9)
        close(np.asarray(b), u[k] * sc - 156.06, "raw longitude", 1e-12, 1e-9)
        nc.close()


@case(n=20, thorough=100)
def small_and_shapes(rng):
    """short arrays, single values and two-byte integers of either byte order"""
    f = get("glmtools.io.glm", "fix_unsigned")
    n = int(rng.randint(1, 6))
    stored = rng.randint(-32768, 32768, n).astype(rng.choice([">i2", "<i2"]))
    sc, off = float(rng.uniform(1e-3, 2)), float(rng.uniform(-5, 5))
    da = xr.DataArray(stored.astype("f8") * sc + off, dims=["n"])
    da.encoding = {"dtype": stored.dtype, "scale_factor": sc, "add_offset": off}
    close(np.asarray(f(da)), (stored.astype("i8") % 65536) * sc + off, "decoded", 1e-9, 1e-9)
