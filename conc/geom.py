"""Independent planar geometry: convex clipping by half planes, areas, mesh generators."""
import numpy as np


def area(p):
    p = np.asarray(p, dtype="f8")
    p = p - p[0] if len(p) else p
    x, y = p[:, 0], p[:, 1]
    s = 0.0
    for i in range(len(p)):
        j = (i + 1) % len(p)
        s += x[i] * y[j] - x[j] * y[i]
    return abs(s) / 2


def clip(subject, window):
    """part of subject inside the convex window (list of points)"""
    w = [tuple(map(float, q)) for q in window]
    s2 = 0.0
    for i in range(len(w)):
        j = (i + 1) % len(w)
        s2 += w[i][0] * w[j][1] - w[j][0] * w[i][1]
    if s2 < 0:
        w = w[::-1]
    out = [tuple(map(float, q)) for q in subject]
    for i in range(len(w)):
        a, b = w[i], w[(i + 1) % len(w)]
        side = lambda p: (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])
        inp, out = out, []
        for k in range(len(inp)):
            p, q = inp[k], inp[(k + 1) % len(inp)]
            sp, sq = side(p), side(q)
            if sp >= 0:
                out.append(p)
            if (sp > 0 and sq < 0) or (sp < 0 and sq > 0):
                t = sp / (sp - sq)
                out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
        if not out:
            return []
    return out


def overlap(subject, window):
    if area(window) <= 0:                          # a point or a line has no sides to clip by
        return 0.0
    c = clip(subject, window)
    return area(c) if len(c) >= 3 else 0.0


def convex(rng, cx, cy, r, n=None):
    n = n or int(rng.randint(3, 8))
    a = np.sort(rng.uniform(0, 2 * np.pi, n))
    while np.max(np.diff(np.concatenate([a, [a[0] + 2 * np.pi]]))) > 2.9 or np.min(np.diff(np.concatenate([a, [a[0] + 2 * np.pi]]))) < .15:
        a = np.sort(rng.uniform(0, 2 * np.pi, n))
    p = np.column_stack([cx + r * np.cos(a), cy + r * np.sin(a)])
    return p if rng.rand() < .5 else p[::-1].copy()


def mesh(rng, regular=True, big=False):
    """2-D edge arrays and the cell polygon of each index pair"""
    hi = 12 if big else 8
    nx, ny = int(rng.randint(2, hi)), int(rng.randint(2, hi))
    if rng.rand() < .5:
        xe, ye = np.cumsum(rng.uniform(.2, 2, nx + 1)), np.cumsum(rng.uniform(.2, 2, ny + 1))
    else:
        xe, ye = np.arange(nx + 1) * float(rng.uniform(.3, 2)), np.arange(ny + 1) * float(rng.uniform(.3, 2))
    xe, ye = xe - rng.uniform(0, 6), ye - rng.uniform(0, 6)
    m = rng.randint(4) if regular else 4
    if m == 3:
        ye = ye[::-1].copy()
    if m == 2:
        xe = xe[::-1].copy()
    if m == 1:
        X, Y = np.meshgrid(xe, ye, indexing="ij")
    else:
        X, Y = np.meshgrid(xe, ye)
    if not regular:
        sh = rng.uniform(-.3, .3)
        X, Y = X + sh * Y, Y + rng.uniform(-.2, .2) * X
        if rng.rand() < .3:
            X, Y = X.T.copy(), Y.T.copy()
    return X, Y


def cellpoly(X, Y, i, j):
    return [(X[i, j], Y[i, j]), (X[i, j + 1], Y[i, j + 1]), (X[i + 1, j + 1], Y[i + 1, j + 1]), (X[i + 1, j], Y[i + 1, j])]
