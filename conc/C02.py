import numpy as np
from harness import case, get, ensure, same, close, Fail, Skip
import geom


def boxes(rng, X, Y):
    x0, x1, y0, y1 = X.min(), X.max(), Y.min(), Y.max()
    w, h = x1 - x0, y1 - y0
    m = rng.randint(6)
    if m == 0:
        a = np.sort(rng.uniform(x0, x1, 2))
        b = np.sort(rng.uniform(y0, y1, 2))
    elif m == 1:                                   # reaching past the mesh
        a = np.sort([rng.uniform(x0 - w, x1 + w), rng.uniform(x0, x1)])
        b = np.sort([rng.uniform(y0 - h, y1 + h), rng.uniform(y0, y1)])
    elif m == 2:                                   # small box
        c = rng.uniform(x0, x1), rng.uniform(y0, y1)
        a = np.array([c[0], c[0] + 1e-3 * w])
        b = np.array([c[1], c[1] + 1e-3 * h])
    elif m == 3:                                   # on edges exactly
        a = np.sort(rng.choice(X.ravel(), 2))
        b = np.sort(rng.choice(Y.ravel(), 2))
    elif m == 4:                                   # around everything
        a = np.array([x0 - rng.uniform(0, 2), x1 + rng.uniform(0, 2)])
        b = np.array([y0 - rng.uniform(0, 2), y1 + rng.uniform(0, 2)])
    else:                                          # beside the mesh
        s = rng.uniform(.01, 5)
        a = np.array([x1 + s, x1 + s + 1.0]) if rng.rand() < .5 else np.array([x0 - s - 1.0, x0 - s])
        b = np.sort(rng.uniform(y0, y1, 2))
    return (float(a[0]), float(a[1]), float(b[0]), float(b[1]))


def look(mesh, X, Y, quads, xi, yi):
    quads, xi, yi = np.asarray(quads), np.asarray(xi), np.asarray(yi)
    n = xi.size
    ensure(quads.shape == (n, 4, 2) and xi.shape == (n,) and yi.shape == (n,), "shapes %s %s %s", quads.shape, xi.shape, yi.shape)
    got = set()
    for k in range(n):
        i, j = int(xi[k]), int(yi[k])
        ensure(0 <= i < X.shape[0] - 1 and 0 <= j < X.shape[1] - 1, "cell (%d, %d) is not in the mesh", i, j)
        ensure((i, j) not in got, "cell (%d, %d) returned twice", i, j)
        got.add((i, j))
        ensure(np.array_equal(quads[k], np.array(geom.cellpoly(X, Y, i, j))), "polygon of cell (%d, %d)", i, j)
    return got


def placed(rng):
    """a regular mesh; sometimes far from the origin, or with steps as small as those of the fixed grid"""
    X, Y = geom.mesh(rng, True, big=True)
    m = rng.randint(6)
    if m == 0:
        return X + float(rng.choice([-1, 1])) * 1e4, Y + float(rng.choice([-1, 1])) * 1e4
    if m == 1:
        return X * 56e-6 + .1, Y * 56e-6 - .1
    return X, Y


@case(n=200, thorough=2500)
def regular(rng):
    M = get("glmtools.grid.clipping", "QuadMeshSubset")
    X, Y = placed(rng)
    mesh = M(X, Y, regular=True)
    for _ in range(4):
        b = boxes(rng, X, Y)
        got = look(mesh, X, Y, *mesh.quads_in_bbox(b))
        for i in range(X.shape[0] - 1):
            for j in range(X.shape[1] - 1):
                p = np.array(geom.cellpoly(X, Y, i, j))
                if p[:, 0].min() < b[1] and p[:, 0].max() > b[0] and p[:, 1].min() < b[3] and p[:, 1].max() > b[2]:
                    ensure((i, j) in got, "cell (%d, %d) at %s overlaps box %s but was not returned", i, j, p.tolist(), b)


@case(n=80, thorough=800)
def padded(rng):
    """the search for a regular mesh, with any padding"""
    M = get("glmtools.grid.clipping", "QuadMeshSubset")
    X, Y = placed(rng)
    mesh = M(X, Y, regular=True)
    if not hasattr(mesh, "quads_in_bbox_fast"):
        raise Skip()
    for pad in (0, 1, 2):
        b = boxes(rng, X, Y)
        xi, yi = mesh.quads_in_bbox_fast(b, pad=pad)
        got = look(mesh, X, Y, mesh.quads[xi, yi], xi, yi)
        for i in range(X.shape[0] - 1):
            for j in range(X.shape[1] - 1):
                p = np.array(geom.cellpoly(X, Y, i, j))
                if p[:, 0].min() < b[1] and p[:, 0].max() > b[0] and p[:, 1].min() < b[3] and p[:, 1].max() > b[2]:
                    ensure((i, j) in got, "cell (%d, %d) at %s overlaps box %s but was not returned with padding %d", i, j, p.tolist(), b, pad)


@case(n=60, thorough=600)
def skewed(rng):
    M = get("glmtools.grid.clipping", "QuadMeshSubset")
    X, Y = geom.mesh(rng, False)
    mesh = M(X, Y, n_neighbors=4)
    for _ in range(4):
        b = boxes(rng, X, Y)
        got = look(mesh, X, Y, *mesh.quads_in_bbox(b))
        box = [(b[0], b[2]), (b[1], b[2]), (b[1], b[3]), (b[0], b[3])]
        for i in range(X.shape[0] - 1):
            for j in range(X.shape[1] - 1):
                p = np.array(geom.cellpoly(X, Y, i, j))
                corner = ((p[:, 0] >= b[0]) & (p[:, 0] <= b[1]) & (p[:, 1] >= b[2]) & (p[:, 1] <= b[3])).any()
                if corner or geom.overlap(p.tolist(), box) > 1e-9:
                    ensure((i, j) in got, "cell (%d, %d) overlaps box %s but was not returned", i, j, b)


@case(n=40, thorough=300)
def polygons_and_areas(rng):
    M = get("glmtools.grid.clipping", "QuadMeshSubset")
    f = get("glmtools.grid.clipping", "polys_from_quadmesh")
    reg = rng.rand() < .5
    X, Y = geom.mesh(rng, reg)
    q = f(X, Y)
    m = M(X, Y, regular=reg, n_neighbors=1)
    ensure(m.quad_areas.shape == (X.shape[0] - 1, X.shape[1] - 1), "areas have shape %s", m.quad_areas.shape)
    for i in range(X.shape[0] - 1):
        for j in range(X.shape[1] - 1):
            p = np.array(geom.cellpoly(X, Y, i, j))
            same(q[i, j], p, "corners of cell (%d, %d)" % (i, j))
            close(m.quad_areas[i, j], geom.area(p), "area of cell (%d, %d)" % (i, j), 1e-9, 1e-10)


@case(n=60, thorough=400)
def nearest(rng):
    M = get("glmtools.grid.clipping", "QuadMeshSubset")
    X, Y = geom.mesh(rng, False)
    nc = (X.shape[0] - 1) * (X.shape[1] - 1)
    k = int(rng.randint(1, (nc if rng.rand() < .3 else min(nc, 6)) + 1))
    mesh = M(X, Y, n_neighbors=k)
    p = rng.uniform(X.min(), X.max()), rng.uniform(Y.min(), Y.max())
    got = look(mesh, X, Y, *mesh.quads_nearest(p))
    ensure(len(got) == k, "%d cells for %d neighbours", len(got), k)
    d = {}
    for i in range(X.shape[0] - 1):
        for j in range(X.shape[1] - 1):
            c = np.mean(geom.cellpoly(X, Y, i, j), axis=0)
            d[(i, j)] = np.hypot(c[0] - p[0], c[1] - p[1])
    worst = max(d[c] for c in got)
    for c in d:
        ensure(c in got or d[c] >= worst - 1e-9, "cell %s is nearer than a returned one", c)


@case(n=30, thorough=200)
def nearest_regular(rng):
    """a point inside a cell of a regular mesh returns at least that cell"""
    M = get("glmtools.grid.clipping", "QuadMeshSubset")
    X, Y = geom.mesh(rng, True)
    mesh = M(X, Y, regular=True)
    i, j = int(rng.randint(X.shape[0] - 1)), int(rng.randint(X.shape[1] - 1))
    c = np.mean(geom.cellpoly(X, Y, i, j), axis=0)
    got = look(mesh, X, Y, *mesh.quads_nearest(c))
    ensure((i, j) in got, "cell (%d, %d) not returned for its own centre", i, j)


@case(n=30, thorough=300)
def poly_areas(rng):
    f = get("glmtools.grid.clipping", "poly_area")
    v = get("glmtools.grid.clipping", "vectorized_poly_area")
    n, k = int(rng.randint(3, 9)), int(rng.randint(1, 6))
    P = [geom.convex(rng, rng.uniform(-5, 5), rng.uniform(-5, 5), rng.uniform(.1, 3), n) for _ in range(k)]
    for p in P:
        close(abs(f(p[:, 0], p[:, 1])), geom.area(p), "area", 1e-9, 1e-9)
    A = np.array(P)
    close(np.abs(v(A[:, :, 0], A[:, :, 1])), [geom.area(p) for p in P], "areas", 1e-9, 1e-9)
