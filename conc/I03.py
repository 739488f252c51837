import numpy as np
import datetime as dtm
from harness import case, get, ensure, same, close, Fail, Skip

SUM = ["flash_extent_density", "flash_centroid_density", "total_energy", "group_extent_density", "group_centroid_density"]


def frames(rng, n=None):
    import xarray as xr
    n = n or int(rng.randint(1, 13))
    t0 = np.datetime64("2018-07-02T04:%02d:%02d" % (rng.randint(60), rng.choice([0, 0, 17])), "ns")
    k = np.arange(n) if rng.rand() < .6 else np.sort(rng.choice(2 * n + 3, n, replace=False))
    if rng.rand() < .2:
        k = k[rng.permutation(n)]
    t = t0 + (k - k.min()).astype("m8[m]")
    sh = (n, int(rng.randint(1, 4)), int(rng.randint(1, 5)))
    none = rng.rand(*sh) < .4
    d = {}
    for v in SUM + ["average_flash_area", "average_group_area", "minimum_flash_area"]:
        a = rng.uniform(.5, 60, sh)
        a[none] = np.nan
        d[v] = (("time", "y", "x"), a)
    D = xr.Dataset(d, coords={"time": ("time", t), "y": ("y", np.arange(sh[1]) * 1.0), "x": ("x", np.arange(sh[2]) * 1.0)})
    return D, t, none


def look(R, D, t, none, start, minutes, nb):
    dt = np.timedelta64(minutes, "m")
    left = []
    iv = list(R.time_bins.values)
    for v in iv:
        L, Rr = np.datetime64(v.left), np.datetime64(v.right)
        ensure(Rr - L == dt, "interval %s does not span %d minutes", v, minutes)
        k = (L - start) / dt
        ensure(k == int(k) and 0 <= k < nb, "interval %s is not one of the %d asked for from %s", v, nb, start)
        left.append(L)
    ensure(len(set(left)) == len(left), "interval twice")
    A = {v: np.asarray(D[v].data) for v in D.data_vars}
    dims = ("time_bins", "y", "x")
    R = R.transpose("time_bins", ...)
    seen = np.zeros(len(t), int)
    for b in range(nb):
        L = start + b * dt
        m = (t >= L) & (t < L + dt)
        if not m.any():
            if L in left:
                for v in SUM:
                    x = R[v].data[left.index(L)]
                    ensure(np.all(np.isnan(x) | (x == 0)), "interval %s has no frames but %s is %s", L, v, x.ravel()[0])
            continue
        ensure(L in left, "no interval starting %s although frames %s start in it", L, t[m])
        i = left.index(L)
        for v in SUM:
            close(np.nan_to_num(R[v].transpose("time_bins", "y", "x").data[i]), np.nansum(A[v][m], axis=0), "%s of the interval at %s" % (v, L), 1e-9)
        for av, ct in (("average_flash_area", "flash_extent_density"), ("average_group_area", "group_extent_density")):
            tot, c = np.nansum(A[av][m] * A[ct][m], axis=0), np.nansum(A[ct][m], axis=0)
            want = np.where(c > 0, tot / np.where(c > 0, c, 1), 0)
            close(np.nan_to_num(R[av].transpose("time_bins", "y", "x").data[i]), want, "%s of the interval at %s" % (av, L), 1e-9)
        mn = np.where(none[m], np.inf, A["minimum_flash_area"][m]).min(axis=0)
        got = R["minimum_flash_area"].transpose("time_bins", "y", "x").data[i]
        close(np.nan_to_num(got), np.where(np.isinf(mn), 0, mn), "minimum_flash_area of the interval at %s" % L, 1e-9)


@case(n=25, thorough=250)
def whole_series(rng, n=None, m=None):
    f = get("glmtools.io.imagery", "aggregate")
    D, t, none = frames(rng, n)
    keep = D.copy(deep=True)
    m = m or int(rng.choice([1, 2, 3, 5]))
    R = f(D, m)
    nb = int((t.max() - t.min()) / np.timedelta64(m, "m")) + 1
    look(R, keep, t, none, t.min(), m, nb)
    ensure(D.identical(keep), "the input was altered")


@case(n=2, thorough=10)
def long_series(rng):
    """more than a day of frames"""
    whole_series(rng, int(rng.randint(60, 130)), int(rng.choice([1, 7, 45])))
    whole_series(rng, 1500, int(rng.choice([60, 144, 1440])))


@case(n=25, thorough=250)
def given_span(rng):
    f = get("glmtools.io.imagery", "aggregate")
    D, t, none = frames(rng)
    m, nb = int(rng.choice([1, 2, 3, 5])), int(rng.randint(1, 6))
    s = t[rng.randint(len(t))] - np.timedelta64(int(rng.randint(0, 4)), "m")
    s = s.astype("M8[s]").astype(object)
    e = s + dtm.timedelta(0, 60 * m * nb)
    hit = (t >= np.datetime64(s)) & (t < np.datetime64(e))
    if not hit.any():
        raise Skip()
    look(f(D, m, start_end=(s, e)), D, t, none, np.datetime64(s, "ns"), m, nb)


@case(n=10, thorough=60)
def with_projection(rng):
    """the variables that describe the projection come along"""
    import xarray as xr
    f = get("glmtools.io.imagery", "aggregate")
    D, t, none = frames(rng)
    n = len(t)
    D["goes_imager_projection"] = ("time", np.full(n, -2147483647))
    D["goes_imager_projection"].attrs["longitude_of_projection_origin"] = -75.0
    D["nominal_satellite_subpoint_lon"] = ("time", np.full(n, -75.0))
    R = f(D, 2)
    ensure("goes_imager_projection" in R and "nominal_satellite_subpoint_lon" in R, "projection variables lost")
    v = np.asarray(R["nominal_satellite_subpoint_lon"].data)
    ensure(np.all((v == -75.0) | np.isnan(v)), "subpoint longitude %s", v)
    look(R, D, t, none, t.min(), 2, int((t.max() - t.min()) / np.timedelta64(2, "m")) + 1)


@case(n=6, thorough=40)
def series(rng):
    """files as frames, listed in any order: each frame starts when its own file says"""
    import xarray as xr
    import glmfile as gf
    f = get("glmtools.io.imagery", "open_glm_time_series")
    n = int(rng.randint(1, 6))
    t = dtm.datetime(2018, 7, 2, 4) + np.array([dtm.timedelta(0, 60 * int(k)) for k in rng.permutation(40)[:n]])
    v = rng.rand(n, 2, 3)

    def joined(names, concat_dim=None, **kw):      # stands in for open_mfdataset, which needs a package that is not installed
        one = []
        for p in names:
            with xr.open_dataset(p) as d:
                one.append(d.load())
        return xr.concat(one, dim=concat_dim, combine_attrs="override")
    with gf.scratch() as td:
        names = ["%s/%d.nc" % (td, k) for k in range(n)]
        for k, p in enumerate(names):
            xr.Dataset({"flash_extent_density": (("y", "x"), v[k])}, coords={"y": [0., 1.], "x": [0., 1., 2.]},
                       attrs={"time_coverage_start": t[k].isoformat() + "Z", "time_coverage_end": (t[k] + dtm.timedelta(0, 60)).isoformat() + "Z"}).to_netcdf(p)
        old = xr.open_mfdataset
        xr.open_mfdataset = joined
        try:
            R = f(names)
        except Exception as e:
            if "dask" in str(e) or "chunk" in str(e):
                raise Skip()
            raise
        finally:
            xr.open_mfdataset = old
        got = {np.datetime64(a, "s"): b for a, b in zip(R.time.data, R.flash_extent_density.transpose("time", "y", "x").data)}
    ensure(len(R.time) == n and sorted(got) == sorted(np.datetime64(a, "s") for a in t), "frames at %s", sorted(got))
    for k in range(n):
        close(got[np.datetime64(t[k], "s")], v[k], "frame of the file starting %s" % t[k], 1e-12)
    ensure(np.datetime64(R.attrs["time_coverage_start"].rstrip("Z")) == np.datetime64(min(t)), "start of the series %s", R.attrs["time_coverage_start"])
    ensure(np.datetime64(R.attrs["time_coverage_end"].rstrip("Z")) == np.datetime64(max(t) + dtm.timedelta(0, 60)), "end of the series %s", R.attrs["time_coverage_end"])
