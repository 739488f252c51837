import numpy as np
from harness import case, get, ensure, close, same, Fail

RADII = {0: (6.394140e6, 6.362755e6), 1: (6.378137e6 + 14.0e3, 6.362755e6)}


def oracle(lon, lat, sat, rev, re=6.378137e6, rp=6.35675231414e6, h=35.786023e6):
    """line of sight from the satellite, by plain vector geometry"""
    a, b = RADII[rev]
    lam = np.radians(lon - sat)
    phi = np.radians(lat)
    # geocentric latitude on the reference ellipsoid
    th = np.arctan2(rp * rp * np.sin(phi), re * re * np.cos(phi))
    # point of the lightning ellipsoid in that geocentric direction
    u = np.array([np.cos(th) * np.cos(lam), np.cos(th) * np.sin(lam), np.sin(th)])
    r = 1 / np.sqrt((np.cos(th) / a) ** 2 + (np.sin(th) / b) ** 2)
    p = r * u
    los = p - np.array([[h + re], [0.0], [0.0]]) * np.ones((1, len(lam)))
    n = np.linalg.norm(los, axis=0)
    return np.arcsin(los[1] / n), np.arctan2(los[2], -los[0])


def positions(rng, sat):
    n = rng.randint(1, 40)
    lat = rng.uniform(-80, 80, n)
    d = rng.uniform(-85, 85, n)
    k = rng.randint(0, 3)
    if k == 0:
        d = rng.uniform(-180, 180, n)
    if rng.rand() < .3:
        lat[0] = 0.0
        d[-1] = 0.0
    return sat + d, lat


@case(n=40, thorough=400)
def navigation(rng):
    f = get("glmtools.io.lightning_ellipse", "ltg_ellps_lon_lat_to_fixed_grid")
    sat = float(rng.choice([-75.0, -75.2, -137.0, -89.5, 0.0, 140.7, rng.uniform(-180, 180)]))
    rev = int(rng.randint(2))
    lon, lat = positions(rng, sat)
    wrap = rng.choice([0, 0, 360, -360], len(lon))
    lon = lon + wrap
    l0, a0 = lon.copy(), lat.copy()
    x, y = f(lon, lat, sat, rev)
    ex, ey = oracle(lon, lat, sat, rev)
    close(x, ex, "x angle", atol=1e-10, rtol=1e-8)
    close(y, ey, "y angle", atol=1e-10, rtol=1e-8)
    same(lon, l0, "input lon altered")
    same(lat, a0, "input lat altered")


@case(n=10, thorough=60)
def turns(rng):
    f = get("glmtools.io.lightning_ellipse", "ltg_ellps_lon_lat_to_fixed_grid")
    sat = float(rng.uniform(-180, 180))
    rev = int(rng.randint(2))
    lon, lat = positions(rng, sat)
    x, y = f(lon.copy(), lat.copy(), sat, rev)
    for k in (360.0, -360.0):
        x2, y2 = f(lon + k, lat.copy(), sat, rev)
        close(x2, x, "a whole turn of longitude changes x", atol=1e-10)
        close(y2, y, "a whole turn of longitude changes y", atol=1e-10)
    s = float(rng.uniform(-60, 60))
    x2, y2 = f(lon + s, lat.copy(), sat + s, rev)
    close(x2, x, "depends on more than the longitude difference (x)", atol=1e-10)
    close(y2, y, "depends on more than the longitude difference (y)", atol=1e-10)


@case(n=6, thorough=30)
def other_ellipsoid_and_height(rng):
    """explicitly passed reference ellipsoid and satellite height are honoured"""
    f = get("glmtools.io.lightning_ellipse", "ltg_ellps_lon_lat_to_fixed_grid")
    re, rp, h = 6.378137e6 * rng.uniform(.99, 1.01), 6.35675e6 * rng.uniform(.98, 1.0), 35.7e6 * rng.uniform(.95, 1.05)
    sat = float(rng.uniform(-180, 180))
    lon, lat = positions(rng, sat)
    x, y = f(lon, lat, sat, 1, re_grs80=re, rp_grs80=rp, sat_grs80_height=h)
    ex, ey = oracle(lon, lat, sat, 1, re, rp, h)
    close(x, ex, "x angle", atol=1e-10, rtol=1e-8)
    close(y, ey, "y angle", atol=1e-10, rtol=1e-8)
    # scalars
    x, y = f(float(lon[0]), float(lat[0]), sat, 0)
    ex, ey = oracle(lon[:1], lat[:1], sat, 0)
    close(np.ravel(x), ex, "x of a scalar position", atol=1e-10, rtol=1e-8)


@case(n=6, thorough=30)
def dataset_positions(rng):
    """an opened file carries the angles of its flashes, groups and events"""
    import os
    import glmfile as g
    GLM = get("glmtools.io.glm", "GLMDataset")
    t = g.make_tree(rng)
    rev = int(rng.randint(2))
    fov = float(rng.choice([-75.0, -137.0]))
    with g.scratch() as d:
        p = os.path.join(d, "f.nc")
        g.write(p, rng, t, lon0=fov, lon_fov=fov)
        ds = GLM(p, ellipse_rev=rev)
        D = ds.dataset
        for e in ("flash", "group", "event"):
            ex, ey = oracle(D[e + "_lon"].data.astype("f8"), D[e + "_lat"].data.astype("f8"), fov, rev)
            close(D[e + "_x"].data, ex, e + "_x", atol=2e-7)
            close(D[e + "_y"].data, ey, e + "_y", atol=2e-7)
        D.close()
