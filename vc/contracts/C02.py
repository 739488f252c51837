"""Mesh cells: polygons and areas, and every cell that overlaps a box is found, once, with its own polygon."""
from ..api import *

c = Contract("C02")
MOD = "glmtools.grid.clipping"
DELTA = Q(1, 10**7)
c.assume("real arithmetic in place of IEEE double precision",
         "edges of a regular mesh are strictly monotone with steps above 1e-7 (the code tells the constant direction by np.allclose)",
         "meshes have at least one cell along each dimension; box limits are ordered",
         "mesh cells of a mesh that is not regular are found through their extent: every point of a polygon lies between its "
         "corners' smallest and largest coordinates")
RING = ((0, 0), (0, 1), (1, 1), (1, 0))


def skewed(name="M"):
    """any mesh: edge coordinates are arbitrary"""
    m, n = length("rows", 2), length("cols", 2)
    return m, n, array("xe", m, n), array("ye", m, n)


def monotone(name, n, up):
    a = array(name, n)
    p, q = z3.Ints("mp! mq!")
    f = a.sym
    d = raw(mk(z3.RealVal(str(DELTA))))
    gap = (f(q) - f(p)) if up else (f(p) - f(q))
    E.axioms.append(z3.ForAll([p, q], z3.Implies(z3.And(p >= 0, p < q, q < n), gap > d), patterns=[z3.MultiPattern(f(p), f(q))]))
    return a


def build(env, X, Y, **kw):
    mod = env.mod(MOD)
    mod.create_pixel_lookup = lambda *a, **k: (None, None, None)
    return env.fn(MOD, "QuadMeshSubset")(X, Y, **kw)


def corner(X, Y, i, j):
    return lambda k, d: (X, Y)[d].elem(i + RING[k][0] if RING[k][0] else i, j + RING[k][1] if RING[k][1] else j)


def ring(name, q, at, lead):
    for k in range(4):
        for d in range(2):
            prove("%s: corner %d, %s" % (name, k, "xy"[d]), eq(q.elem(*lead, k, d), at(k, d)))


def shoelace(at):
    a = 0
    for k in range(4):
        a = a + at(k, 0) * at((k + 1) % 4, 1) - at((k + 1) % 4, 0) * at(k, 1)
    return a / 2


@c.unit(MOD + ".polys_from_quadmesh", "corners of every cell in ring order")
def polys(env):
    m, n, X, Y = skewed()
    q = A(env.fn(MOD, "polys_from_quadmesh")(X, Y))
    if q.ndim != 4:
        raise Unsupported("polygons of another rank")
    for d, s in enumerate((m - 1, n - 1, 4, 2)):
        prove("length of axis %d" % d, core.i_eq(q.shape[d], unS(mk(s)) if not isinstance(s, int) else s))
    i, j = idx("i", m - 1), idx("j", n - 1)
    ring("polygon", q, corner(X, Y, i, j), (i, j))
    unchanged("x edges", X)
    unchanged("y edges", Y)


for nv in (3, 4, 5, 8):
    def area1(env, nv=nv):
        x, y = array("x", nv), array("y", nv)
        a = env.fn(MOD, "poly_area")(x, y)
        s = 0
        for k in range(nv):
            s = s + x.elem(k) * y.elem((k + 1) % nv) - x.elem((k + 1) % nv) * y.elem(k)
        prove("half the sum over edges of the cross products", eq(a * 2, s))
        unchanged("x", x)
        unchanged("y", y)

    def area2(env, nv=nv):
        N = length("N")
        x, y = array("x", N, nv), array("y", N, nv)
        a = A(env.fn(MOD, "vectorized_poly_area")(x, y))

        def spec(p):
            s = 0
            for k in range(nv):
                s = s + x.elem(p, k) * y.elem(p, (k + 1) % nv) - x.elem(p, (k + 1) % nv) * y.elem(p, k)
            return s / 2
        same_array("area of every polygon", a, spec, (N,))
        unchanged("x", x)
        unchanged("y", y)
    c.units.append(Unit(MOD + ".poly_area", "%d vertices" % nv, area1))
    c.units.append(Unit(MOD + ".vectorized_poly_area", "%d vertices" % nv, area2))


def cells(centres):
    def f(env):
        m, n, X, Y = skewed()
        kw = {}
        if centres:
            kw = dict(X_ctr=array("xc", m - 1, n - 1), Y_ctr=array("yc", m - 1, n - 1))
        mesh = build(env, X, Y, **kw)
        i, j = idx("i", m - 1), idx("j", n - 1)
        at = corner(X, Y, i, j)
        ring("polygon", A(mesh.quads), at, (i, j))
        a = A(mesh.quad_areas)
        if a.ndim != 2:
            raise Unsupported("areas of another rank")
        prove("rows of areas", core.i_eq(a.shape[0], m - 1))
        prove("columns of areas", core.i_eq(a.shape[1], n - 1))
        prove("area of every cell, positive whichever way round the mesh runs", eq(a.elem(i, j), abs(shoelace(at))))
        unchanged("x edges", X)
        unchanged("y edges", Y)
    return f


for centres in (False, True):
    c.units.append(Unit(MOD + ".QuadMeshSubset.__init__", "polygons and areas%s" % (", centres given" if centres else ""),
                        cells(centres)))


def box(pre=""):
    b = [real(pre + s) for s in ("xmin", "xmax", "ymin", "ymax")]
    E.assume(raw(b[0]) <= raw(b[1]))
    E.assume(raw(b[2]) <= raw(b[3]))
    return b


def result(r, X, Y, m, n):
    """shapes, index ranges, own polygons, each cell once"""
    if not isinstance(r, (tuple, list)) or len(r) != 3:
        raise Unsupported("result of another form")
    q, xi, yi = [A(v) for v in r]
    if q.ndim != 3 or xi.ndim != 1 or yi.ndim != 1:
        raise Unsupported("result of another rank")
    k = xi.shape[0]
    prove("as many second indices as first", core.i_eq(yi.shape[0], k))
    prove("as many polygons as indices", core.i_eq(q.shape[0], k))
    if isinstance(k, int) and k == 0:
        return xi, yi, k
    p = idx("p", k)
    a, b = raw(xi.elem(p)), raw(yi.elem(p))
    prove("first index is in the mesh", z3.And(a >= 0, a < m - 1))
    prove("second index is in the mesh", z3.And(b >= 0, b < n - 1))
    ring("the polygon of that cell", q, corner(X, Y, a, b), (p,))
    o = idx("o", k)
    hints = []
    for (q_, r_, fl, s) in E.ghost.get("divmod", {}).values():
        hints += [q_(p), r_(p), q_(o), r_(o)]
    prove("each cell once", z3.Implies(p != o, z3.Or(a != raw(xi.elem(o)), b != raw(yi.elem(o)))), hints=hints)
    return xi, yi, k


def found(name, cond, i, j, xi, yi, k):
    """some position of the result holds cell (i, j)"""
    if isinstance(k, int) and k == 0:
        prove(name, z3.Not(cond))
        return
    t = z3.Int("w!")
    hints = []
    a0, b0 = raw(xi.elem(0)), raw(yi.elem(0))
    cand = []
    for (q_, r_, fl, s) in E.ghost.get("divmod", {}).values():
        cand.append(fl(i - a0, j - b0))
        hints += [q_(z3.IntVal(0)), r_(z3.IntVal(0))]
    for rank, nd, at, shp, mm, posf in E.ghost.get("ranks", []):
        if nd == 2:
            cand.append(rank(i, j))
    at = lambda w: z3.And(w >= 0, w < iraw(k), raw(xi.elem(w)) == i, raw(yi.elem(w)) == j)
    for w in cand:
        if E.valid(z3.Implies(z3.And(*E.ranges(cond), cond), at(w)), 8000, hints):
            prove(name, z3.Implies(cond, at(w)), hints=hints)
            return
    prove(name, z3.Implies(cond, z3.Not(z3.ForAll([t], z3.Not(at(t))))), hints=hints + cand)


def regular(xup, yup, indexing, how):
    def f(env):
        nx, ny = length("nx", 2), length("ny", 2)
        xe, ye = monotone("x", nx, xup), monotone("y", ny, yup)
        mg = env.mod(MOD).np.meshgrid
        X, Y = mg(xe, ye, indexing=indexing)
        X.frozen, Y.frozen = X.snapshot(), Y.snapshot()
        m, n = (ny, nx) if indexing == "xy" else (nx, ny)
        mesh = build(env, X, Y, regular=True)
        if how == "box":
            b = box()
            arg = tuple(b)
            r = mesh.quads_in_bbox(arg)
        elif how == "padded":
            b = box()
            if not hasattr(mesh, "quads_in_bbox_fast"):
                raise Unsupported("no quads_in_bbox_fast")
            v = mesh.quads_in_bbox_fast(tuple(b), pad=integer("pad", 0))
            if not isinstance(v, (tuple, list)) or len(v) != 2:
                raise Unsupported("result of another form")
            r = (mesh.quads[v[0], v[1], :, :], v[0], v[1])
        else:
            px, py = real("px"), real("py")
            b = [px, px, py, py]
            r = mesh.quads_nearest((px, py))
        xi, yi, k = result(r, X, Y, m, n)
        i, j = idx("i", m - 1), idx("j", n - 1)
        ix, iy = (j, i) if indexing == "xy" else (i, j)
        lo = lambda e, q, up: raw(e.elem(q if up else q + 1))
        hi = lambda e, q, up: raw(e.elem(q + 1 if up else q))
        cond = z3.And(lo(xe, ix, xup) < raw(b[1]), hi(xe, ix, xup) > raw(b[0]),
                      lo(ye, iy, yup) < raw(b[3]), hi(ye, iy, yup) > raw(b[2]))
        found("every cell that overlaps the box is found" if how != "point" else "the cell around the point is found",
              cond, i, j, xi, yi, k)
        unchanged("x edges", X)
        unchanged("y edges", Y)
    return f


for how, fn in (("box", "quads_in_bbox"), ("padded", "quads_in_bbox_fast"), ("point", "quads_nearest")):
    for indexing in ("xy", "ij"):
        for xup in (True, False):
            for yup in (True, False):
                c.units.append(Unit(MOD + ".QuadMeshSubset." + fn, "regular mesh, x along dimension %d, x %s, y %s%s" % (
                    1 if indexing == "xy" else 0, "up" if xup else "down", "up" if yup else "down", ", any padding" if how == "padded" else ""),
                    regular(xup, yup, indexing, how)))


@c.unit(MOD + ".QuadMeshSubset.quads_in_bbox", "any mesh")
def any_mesh(env):
    m, n, X, Y = skewed()
    mesh = build(env, X, Y)
    b = box()
    xi, yi, k = result(mesh.quads_in_bbox(tuple(b)), X, Y, m, n)
    i, j = idx("i", m - 1), idx("j", n - 1)
    at = corner(X, Y, i, j)
    pt = [real("px"), real("py")]
    cond = []
    for d in range(2):
        v, cs = raw(pt[d]), [raw(at(q, d)) for q in range(4)]
        cond += [v >= raw(b[2 * d]), v <= raw(b[2 * d + 1]), z3.Or(*[x <= v for x in cs]), z3.Or(*[x >= v for x in cs])]
    found("every cell whose extent holds a point of the box is found", z3.And(*cond), i, j, xi, yi, k)
    unchanged("x edges", X)
    unchanged("y edges", Y)
