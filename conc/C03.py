import numpy as np
from harness import case, get, ensure, same, close, Fail
import geom

PREC = 4e-9          # the clipping library works on a grid of 2**-31


def polys_for(rng, X, Y, n=None):
    x0, x1, y0, y1 = X.min(), X.max(), Y.min(), Y.max()
    out = []
    for _ in range(int(rng.randint(0, 5)) if n is None else n):
        r = float(rng.choice([.05, .4, 1.5, 4.0]))
        out.append(geom.convex(rng, rng.uniform(x0, x1), rng.uniform(y0, y1), r))
    if rng.rand() < .3:                      # exactly a cell, exactly a block of cells
        i, j = rng.randint(X.shape[0] - 1), rng.randint(X.shape[1] - 1)
        out.append(np.array(geom.cellpoly(X, Y, i, j)))
    if rng.rand() < .3:
        a, b = rng.uniform(x0, x1), rng.uniform(y0, y1)
        c, d = rng.uniform(.2, 3), rng.uniform(.2, 3)
        out.append(np.array([(a, b), (a + c, b), (a + c, b + .3 * d), (a + .3 * c, b + .3 * d), (a + .3 * c, b + d), (a, b + d)]))   # L shape
    return out


def look(slicer, X, Y, polys, res, considered):
    pieces, areas = res
    pieces = list(pieces)
    ensure(len(pieces) == len(polys) and len(areas) == len(polys), "%d polygons gave %d lists and %d areas", len(polys), len(pieces), len(areas))
    for k, (p, entry, a) in enumerate(zip(polys, pieces, areas)):
        own = geom.area(p)
        close(a, own, "area of polygon %d" % k, 1e-9)
        sub, frac, (xi, yi) = entry
        n = len(sub)
        ensure(len(frac) == n and len(xi) == n and len(yi) == n, "polygon %d: %d pieces, %d fractions, %d and %d indices", k, n, len(frac), len(xi), len(yi))
        cells = considered(p)
        tot = {}
        for q in range(n):
            ij = (int(xi[q]), int(yi[q]))
            ensure(ij in cells, "polygon %d has a piece in cell %s that was not asked for", k, ij)
            s = np.asarray(sub[q], dtype="f8")
            ensure(s.ndim == 2 and s.shape[1] == 2 and len(s) >= 3, "piece shape %s", s.shape)
            per = np.abs(np.diff(np.vstack([s, s[:1]]), axis=0)).sum()
            close(frac[q] * own, geom.area(s), "fraction of piece %d of polygon %d" % (q, k), 1e-7, 1e-12 * (1 + np.abs(s).max() ** 2))
            c = np.array(geom.cellpoly(X, Y, *ij))
            inside = geom.overlap(s, c)
            ensure(geom.area(s) - inside <= PREC * (per + 1), "piece %d of polygon %d is not inside its own cell %s", q, k, ij)
            tot[ij] = tot.get(ij, 0.0) + float(frac[q])
        tol = PREC * (np.abs(np.diff(np.vstack([p, p[:1]]), axis=0)).sum() + 4)
        for ij in cells:
            ov = geom.overlap(p, geom.cellpoly(X, Y, *ij))
            ensure(abs(tot.get(ij, 0.0) * own - ov) <= tol + 1e-9 * own,
                   "polygon %d, cell %s: pieces hold area %r, the intersection is %r", k, ij, tot.get(ij, 0.0) * own, ov)
        if n:
            qf = np.asarray(slicer.quad_frac_from_poly_frac_area(frac, a, xi, yi), dtype="f8")
            for q in range(n):
                ca = geom.area(geom.cellpoly(X, Y, int(xi[q]), int(yi[q])))
                close(qf[q], frac[q] * own / ca, "fraction of mesh cell covered", 1e-8)


def setup(rng, regular):
    M = get("glmtools.grid.clipping", "QuadMeshSubset")
    S = get("glmtools.grid.clipping", "QuadMeshPolySlicer")
    X, Y = geom.mesh(rng, regular)
    nn = int(rng.randint(1, (X.shape[0] - 1) * (X.shape[1] - 1) + 1))
    mesh = M(X, Y, regular=True) if regular else M(X, Y, n_neighbors=nn)
    return X, Y, mesh, S(mesh)


def by_own_box(X, Y):
    def f(p):
        return set((i, j) for i in range(X.shape[0] - 1) for j in range(X.shape[1] - 1))
    return f


def frame(polys, before):
    for a, b in zip(polys, before):
        same(a, b, "input polygons must not change")


@case(n=60, thorough=800)
def own_box_regular(rng, n=None):
    X, Y, mesh, s = setup(rng, True)
    polys = polys_for(rng, X, Y, n)
    keep = [p.copy() for p in polys]
    look(s, X, Y, polys, s.slice(polys, bbox=True), by_own_box(X, Y))
    frame(polys, keep)


@case(n=2, thorough=6)
def many(rng):
    own_box_regular(rng, 130)


@case(n=40, thorough=500)
def own_box_skewed(rng):
    X, Y, mesh, s = setup(rng, False)
    polys = polys_for(rng, X, Y)
    look(s, X, Y, polys, s.slice(polys, bbox=True), by_own_box(X, Y))


def cells(t):
    return set(zip([int(v) for v in np.ravel(t[1])], [int(v) for v in np.ravel(t[2])]))


def comb(rng, X, Y):
    """a comb whose teeth cross rows of cells: cells meet it in more than one piece"""
    i, j = rng.randint(X.shape[0] - 1), rng.randint(X.shape[1] - 1)
    c = np.array(geom.cellpoly(X, Y, i, j))
    x0, y0 = c.min(axis=0)
    w, h = (c.max(axis=0) - c.min(axis=0)) * rng.uniform(.7, 2.5, 2)
    teeth = int(rng.randint(2, 5))
    at = np.linspace(x0 - .1 * w, x0 + 1.1 * w, 2 * teeth)
    lo, mid, hi = y0 - rng.uniform(.05, .3) * h, y0 + rng.uniform(-.04, .04) * h, y0 + rng.uniform(.5, 1.2) * h
    up = []
    for k in range(teeth):
        up += [(at[2 * k], hi), (at[2 * k + 1], hi)]
        if k < teeth - 1:
            up += [(at[2 * k + 1], mid), (at[2 * k + 2], mid)]
    p = np.array([(at[-1], lo), (at[0], lo)] + up)
    return p[:, ::-1].copy() if rng.rand() < .3 else p


@case(n=60, thorough=600)
def teeth(rng):
    X, Y, mesh, s = setup(rng, rng.rand() < .6)
    polys = [comb(rng, X, Y) for _ in range(int(rng.randint(1, 4)))]
    keep = [p.copy() for p in polys]
    if rng.rand() < .7:
        look(s, X, Y, polys, s.slice(polys, bbox=True), by_own_box(X, Y))
    else:
        look(s, X, Y, polys, s.slice(polys), lambda p: cells(mesh.quads_nearest(np.asarray(p).mean(axis=0))))
    frame(polys, keep)


@case(n=40, thorough=500)
def neighbours(rng):
    X, Y, mesh, s = setup(rng, rng.rand() < .5)
    polys = polys_for(rng, X, Y)
    look(s, X, Y, polys, s.slice(polys), lambda p: cells(mesh.quads_nearest(np.asarray(p).mean(axis=0))))


@case(n=40, thorough=500)
def given_box(rng):
    X, Y, mesh, s = setup(rng, rng.rand() < .5)
    polys = polys_for(rng, X, Y)
    a, b = np.sort(rng.uniform(X.min() - 1, X.max() + 1, 2)), np.sort(rng.uniform(Y.min() - 1, Y.max() + 1, 2))
    box = (a[0], a[1], b[0], b[1])
    look(s, X, Y, polys, s.slice(polys, bbox=box), lambda p: cells(mesh.quads_in_bbox(box)))


@case(n=40, thorough=400)
def conserves(rng):
    """a footprint inside the mesh: fractions sum to one"""
    X, Y, mesh, s = setup(rng, True)
    n = int(rng.randint(1, 40))
    cx, cy = rng.uniform(X.min() + .1, X.max() - .1, n), rng.uniform(Y.min() + .1, Y.max() - .1, n)
    polys = [geom.convex(rng, a, b, .1) for a, b in zip(cx, cy)]
    if rng.rand() < .5:
        q = np.array([[(-.1, -.1), (.1, -.1), (.1, .1), (-.1, .1)]] * n)
        polys = q + np.array([cx, cy]).T[:, None, :]
    pieces, areas = s.slice(polys, bbox=True)
    for (sub, frac, idx), a, p in zip(pieces, areas, polys):
        close(np.sum(frac), 1.0, "fractions of a footprint inside the mesh", atol=PREC * 10 / a)
