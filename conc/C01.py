import os
import numpy as np
from harness import case, get, ensure, same, close, Fail
import glmfile as g


def table(rng, affine):
    n, m = int(rng.randint(3, 9)), int(rng.randint(3, 9))
    dx, dy = rng.uniform(.5, 3, 2)
    X, Y = np.meshgrid(np.arange(m) * dx + rng.uniform(-20, 5), np.arange(n) * dy + rng.uniform(-20, 5))
    if rng.rand() < .5:
        X, Y = X.T.copy(), Y.T.copy()
    if affine:
        co = rng.uniform(-1, 1, (4, 2, 3)) * [.3, .02, .02]
        C = co[..., 0] + co[..., 1] * X[:, :, None, None] + co[..., 2] * Y[:, :, None, None]
        return X, Y, C, co
    return X, Y, rng.uniform(-1, 1, X.shape + (4, 2)), None


@case(n=40, thorough=400)
def interpolated_offsets(rng):
    """offsets that vary linearly over the table are met exactly anywhere inside it"""
    f = get("glmtools.io.ccd", "quads_from_corner_lookup")
    X, Y, C, co = table(rng, True)
    nadir = float(rng.choice([0.0, -75.2, -137.0, .01]))
    infl = float(rng.choice([1.0, 1.02, 2.0, .5]))
    P = int(rng.randint(1, 12)) if rng.rand() < .9 else 1500
    px = rng.uniform(X.min() + 1e-3, X.max() - 1e-3, P)
    py = rng.uniform(Y.min() + 1e-3, Y.max() - 1e-3, P)
    kw = {} if infl == 1.0 and rng.rand() < .5 else dict(inflate=infl)
    cp = (X.copy(), Y.copy(), C.copy())
    q = f(X, Y, C, px + nadir, py, nadir_lon=nadir, **kw)
    ensure(np.array_equal(X, cp[0]) and np.array_equal(Y, cp[1]) and np.array_equal(C, cp[2]), "table altered")
    off = co[None, :, :, 0] + co[None, :, :, 1] * px[:, None, None] + co[None, :, :, 2] * py[:, None, None]
    want = np.stack([px + nadir, py], axis=1)[:, None, :] + infl * off
    ensure(q.shape == want.shape, "shape %s", q.shape)
    close(q, want, "corners", 1e-9, 1e-7)


@case(n=40, thorough=400)
def at_table_points(rng):
    """an event at a tabulated position uses that position's offsets; outside the table the nearest entry's"""
    f = get("glmtools.io.ccd", "quads_from_corner_lookup")
    X, Y, C, _ = table(rng, False)
    nadir = float(rng.choice([0.0, -75.0, -137.0]))
    infl = float(rng.choice([1.0, 1.1]))
    xs, ys, rows = [], [], []
    fx, fy, fc = X.ravel(), Y.ravel(), C.reshape(-1, 4, 2)
    for _ in range(int(rng.randint(1, 8))):
        if rng.rand() < .5:
            k = int(rng.randint(fx.size))
            # interior nodes only: rounding decides which side of the border an outer node falls on (either way its own entry)
            xs.append(fx[k] + nadir)
            ys.append(fy[k])
            rows.append(k)
        else:
            x = rng.uniform(X.min() - 8, X.max() + 8)
            y = rng.uniform(Y.min() - 8, Y.max() + 8)
            if X.min() - .2 < x < X.max() + .2 and Y.min() - .2 < y < Y.max() + .2:
                x = X.max() + rng.uniform(.3, 5)
            d = (fx - x) ** 2 + (fy - y) ** 2
            o = np.sort(d)
            if o[1] - o[0] < 1e-6:
                continue
            xs.append(x + nadir)
            ys.append(y)
            rows.append(int(np.argmin(d)))
    if not xs:
        return
    xs, ys = np.array(xs), np.array(ys)
    q = f(X, Y, C, xs, ys, nadir_lon=nadir, inflate=infl)
    want = np.stack([xs, ys], axis=1)[:, None, :] + infl * fc[rows]
    close(q, want, "corners", 1e-9, 1e-6)


@case(n=30, thorough=200)
def pixel_lookup(rng):
    f = get("glmtools.io.ccd", "create_pixel_lookup")
    n, m = int(rng.randint(1, 9)), int(rng.randint(1, 9))
    lon, lat = np.meshgrid(np.arange(m) * 1.0, np.arange(n) * 1.3)
    lon = lon + rng.uniform(-.3, .3, lon.shape) - 80
    lat = lat + rng.uniform(-.3, .3, lon.shape)
    bad = None
    a, b = lon, lat
    if rng.rand() < .5:
        m1, m2 = rng.rand(n, m) < .2, rng.rand(n, m) < .2
        bad = m1 | m2
        if bad.all():
            m1[0, 0] = m2[0, 0] = bad[0, 0] = False
        a, b = np.ma.masked_array(lon, m1), np.ma.masked_array(lat, m2)
    tree, I, J = f(a, b)
    nq = 12
    q = np.column_stack([rng.uniform(-82, -80 + m + 2, nq), rng.uniform(-2, n * 1.3 + 2, nq)])
    d, k = tree.query(q)
    ii, jj = I[k].ravel(), J[k].ravel()
    ensure(len(I) == (lon.size if bad is None else int((~bad).sum())), "%d pixels in the lookup", len(I))
    for t in range(nq):
        i, j = int(ii[t]), int(jj[t])
        ensure(0 <= i < n and 0 <= j < m, "index (%d, %d) outside the %d by %d grid", i, j, n, m)
        ensure(bad is None or not bad[i, j], "a missing pixel was returned")
        dd = (lon - q[t, 0]) ** 2 + (lat - q[t, 1]) ** 2
        if bad is not None:
            dd = np.where(bad, np.inf, dd)
        ensure(dd[i, j] <= dd.min() + 1e-9, "pixel (%d, %d) is not the nearest to %s", i, j, q[t])


@case(n=6, thorough=30)
def corner_reader(rng):
    """offsets of each named corner go to its own place in the table"""
    from scipy.io import savemat
    f = get("glmtools.io.ccd", "read_official_corner_lut")
    n, m = int(rng.randint(2, 6)), int(rng.randint(2, 6))
    names = ["nw", "sw", "se", "ne"]
    d = {"lat_grid": rng.uniform(-50, 50, (n, m)), "lon_grid": rng.uniform(-50, 50, (n, m))}
    for c in names:
        d[c + "lon"], d[c + "lat"] = rng.uniform(-1, 1, (n, m)), rng.uniform(-1, 1, (n, m))
    with g.scratch() as w:
        p = os.path.join(w, "a.mat")
        savemat(p, d)
        lon, lat, C = f(p)
        same(lon, d["lon_grid"], "lon grid")
        same(lat, d["lat_grid"], "lat grid")
        for k, c in enumerate(names):
            same(C[:, :, k, 0], d[c + "lon"], c + " lon")
            same(C[:, :, k, 1], d[c + "lat"], c + " lat")


@case(n=4, thorough=20)
def saved_table_reads_back(rng):
    sv, ld = get("glmtools.io.ccd", "save_pixel_corner_lookup"), get("glmtools.io.ccd", "load_pixel_corner_lookup")
    X, Y, C, _ = table(rng, False)
    with g.scratch() as w:
        p = os.path.join(w, "a.pickle")
        sv(X, Y, C, filename=p)
        a, b, c = ld(p)
        same(a, X, "lon")
        same(b, Y, "lat")
        same(c, C, "corners")
