import numpy as np
from harness import case, get, ensure, same, Fail


def settings(rng):
    m = rng.randint(4)
    if m == 0:
        return 28e-6, (-0.31, 0.31), (-0.31, 0.31)
    if m == 1:
        a, b = rng.uniform(-1, 0, 2)
        return float(rng.uniform(1e-4, .2)), (float(a), float(a + rng.uniform(.3, 3))), (float(b), float(b + rng.uniform(.3, 3)))
    if m == 2:
        s = 2.0 ** -int(rng.randint(1, 8))          # exact arithmetic: edges fall on cell borders
        n, k = int(rng.randint(1, 40)), int(rng.randint(1, 40))
        return s, (-s * n, s * n), (0.0, s * k)
    return .125, (-1.0, 1.0), (-4.0, 4.0)


def positions(rng, s, xr, yr, n):
    x = rng.uniform(xr[0], xr[1], n)
    y = rng.uniform(yr[0], yr[1], n)
    # cell corners, range ends and neighbours
    k = rng.rand(n)
    x[k < .15] = xr[1]
    x[(k >= .15) & (k < .3)] = xr[0]
    k = rng.rand(n)
    y[k < .15] = yr[1]
    y[(k >= .15) & (k < .3)] = yr[0]
    j = rng.rand(n) < .3
    x[j] = np.clip(xr[0] + s * np.floor((x[j] - xr[0]) / s), xr[0], xr[1])
    j = rng.rand(n) < .3
    y[j] = np.clip(yr[0] + s * np.floor((y[j] - yr[0]) / s), yr[0], yr[1])
    m = n // 3
    x[:m] = np.clip(x[m:2 * m] + rng.uniform(-1.2, 1.2, m) * s, xr[0], xr[1])
    y[:m] = np.clip(y[m:2 * m] + rng.uniform(-1.2, 1.2, m) * s, yr[0], yr[1])
    return x, y


@case(n=60, thorough=600)
def injective(rng):
    f = get("glmtools.io.glm", "discretize_2d_location")
    s, xr, yr = settings(rng)
    x, y = positions(rng, s, xr, yr, 150)
    x0, y0 = x.copy(), y.copy()
    got = np.asarray(f(x, y, s, xr, yr))
    ensure(np.array_equal(x, x0) and np.array_equal(y, y0), "positions altered")
    ensure(got.shape == x.shape, "shape %s for %s positions", got.shape, x.shape)
    cx, cy = np.floor((x - xr[0]) / s).astype(int), np.floor((y - yr[0]) / s).astype(int)
    cells = {}
    ids = {}
    for i in range(len(x)):
        c, v = (cx[i], cy[i]), int(got[i])
        if cells.setdefault(c, v) != v:
            raise Fail("one cell, two ids: (%r, %r) settings %r" % (x[i], y[i], (s, xr, yr)))
        if ids.setdefault(v, (c, i))[0] != c:
            j = ids[v][1]
            raise Fail("two cells share an id: (%r, %r) and (%r, %r) with settings %r" % (x[i], y[i], x[j], y[j], (s, xr, yr)))
    # separate calls agree
    k = rng.permutation(len(x))[:20]
    same(np.asarray(f(x[k], y[k], s, xr, yr)), got[k], "ids in a separate call")
    for j in k[:4]:
        ensure(int(np.asarray(f(x[j:j + 1], y[j:j + 1], s, xr, yr))[0]) == int(got[j]), "id of a single position differs")


@case(n=4, thorough=30)
def exhaustive_small(rng):
    """every cell of a small grid, edges included"""
    f = get("glmtools.io.glm", "discretize_2d_location")
    s = .25
    nx, ny = int(rng.randint(1, 30)), int(rng.randint(1, 30))
    X, Y = np.meshgrid(np.arange(nx + 1) * s, np.arange(ny + 1) * s)
    got = np.asarray(f(X.ravel() - 1.0, Y.ravel() + 2.0, s, (-1.0, -1.0 + nx * s), (2.0, 2.0 + ny * s)))
    ensure(len(set(got.tolist())) == got.size, "%d ids for %d cells of a %d by %d grid", len(set(got.tolist())), got.size, nx, ny)
