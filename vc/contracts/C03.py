"""Slicing: each piece with its own cell's label and its share of the polygon's area, polygons in order, areas reported."""
from ..api import *
from ..theory import mksum

c = Contract("C03")
MOD = "glmtools.grid.clipping"
SCALE = 2**31
c.assume("real arithmetic in place of IEEE double precision",
         "the clipping library (pyclipper) intersects one cell with one polygon as its manual says: the answer is a list of "
         "polygons of three or more vertices that depends on the two paths only; its rounding to 2**-31 is not modelled, and "
         "that the pieces over cells covering a polygon have its area in total rests on it (decided by the bounded part)",
         "polygons have at least one vertex and a nonzero area; mesh cells have a positive area")

# the intersection of a cell, given by its corner coordinates, with polygon number i
CO = [R] * 8
COUNT = z3.Function("pieces", *([I] + CO + [I]))
NV = z3.Function("piece.nverts", *([I] + CO + [I, I]))
VX = z3.Function("piece.vertex", *([I] + CO + [I, I, I, R]))


def axioms():
    i, q = z3.Ints("ci! cq!")
    cs = [z3.Real("cc!%d" % k) for k in range(8)]
    E.axioms += [z3.ForAll([i] + cs, COUNT(i, *cs) >= 0, patterns=[COUNT(i, *cs)]),
                 z3.ForAll([i] + cs + [q], NV(i, *cs, q) >= 3, patterns=[NV(i, *cs, q)])]


class Clipper:
    """Stand-in for pyclipper: scaling by 2**31, and an unspecified intersection that depends on the two paths only."""
    PT_SUBJECT, PT_CLIP, CT_INTERSECTION, PFT_EVENODD, PFT_NONZERO = 0, 1, "intersection", 0, 1

    def __init__(self, polygon):
        self.polygon = polygon            # how to tell which polygon a path is
        outer = self

        class Pyclipper:
            def __init__(self):
                self.Clear()

            def Clear(self):
                self.paths = []
                self.where = [f.k for f in E.frames]

            def here(self):
                now = [f.k for f in E.frames]
                if len(now) != len(self.where) or any(a is not b for a, b in zip(now, self.where)):
                    raise Unsupported("the clipper holds paths of an earlier element")

            def AddPath(self, path, kind, closed=True):
                self.here()
                if closed is not True:
                    raise Unsupported("open path")
                self.paths.append((kind, path))
                return True

            def Execute(self, clip_type=None, *a, **k):
                self.here()
                if clip_type != Clipper.CT_INTERSECTION or a or sorted(x[0] for x in self.paths) != [0, 1]:
                    raise Unsupported("clipping operation")
                return outer.intersect(*[outer.real(p) for _, p in self.paths])
        self.Pyclipper = Pyclipper

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return lambda *x, **k: (_ for _ in ()).throw(Unsupported("pyclipper.%s" % a))

    def scale_to_clipper(self, x, scale=SCALE):
        return self.map(x, lambda v: v * scale)

    def scale_from_clipper(self, x, scale=SCALE):
        return self.map(x, lambda v: v / mk(z3.RealVal(scale)) if isinstance(v, S) else v / Q(scale))

    def map(self, x, f):
        if isinstance(x, Arr):
            return arr.ew(f, x)
        if isinstance(x, (Seq, TList)):
            x = seq.lift(x)
            if isinstance(x, list):
                return TList([self.map(v, f) for v in x])
            return Seq(x.n, lambda i: self.map(x.at(i), f), x.guard)
        if isinstance(x, (list, tuple)):
            return TList([self.map(v, f) for v in x])
        if core.is_num(x):
            return f(x)
        raise Unsupported("path of type %s" % type(x).__name__)

    def real(self, p):
        a = A(p)
        if a.ndim != 2 or core.pyc(core.i_eq(a.shape[1], 2)) is not True:
            raise Unsupported("path that is not a list of points")
        return self.map(a, lambda v: v / Q(SCALE))

    def intersect(self, a, b):
        """one path is a cell (four points), the other the polygon"""
        for cell, poly in ((a, b), (b, a)):
            if not isinstance(cell.shape[0], int) or cell.shape[0] != 4:
                continue
            i = self.polygon(poly)
            if i is None:
                continue
            cs = [z3.simplify(core.to_real(cell.elem(k, d))) for k in range(4) for d in range(2)]
            return pieces(i, cs, SCALE)
        raise Unsupported("clipping of paths that are not a mesh cell and the polygon")


def pieces(i, cs, scale=1):
    return Seq(COUNT(i, *cs), lambda q: Arr((NV(i, *cs, iraw(q)), 2),
                                            lambda k, d: mk(VX(i, *cs, iraw(q), iraw(k), iraw(d)) * scale), F8))


def clipper(env, polygon):
    axioms()
    cl = Clipper(polygon)
    env.override(pyclipper=cl)
    env.mod(MOD).create_pixel_lookup = lambda *a, **k: (None, None, None)
    return cl


def shoelace(n, x, y):
    s = mksum(n - 1, lambda k: x(k) * y(core.i_add(k, 1)) - x(core.i_add(k, 1)) * y(k))
    return (s + x(n - 1) * y(0) - x(0) * y(n - 1)) / 2


def spec_area(a):
    n = a.shape[0]
    v = shoelace(iraw(n), lambda k: a.elem(k, 0), lambda k: a.elem(k, 1))
    return abs(v)


@c.unit(MOD + ".poly_area", "the shoelace formula")
def area(env):
    clipper(env, lambda p: None)
    n = length("nv", 1)
    x, y = array("x", n), array("y", n)
    r = env.fn(MOD, "poly_area")(x, y)
    prove("half the sum of the cross products of consecutive vertices, the last with the first",
          eq(r, shoelace(n, lambda k: x.frozen.elem(k), lambda k: y.frozen.elem(k))))
    unchanged("x", x)
    unchanged("y", y)


def one_poly():
    nv, m = length("nv", 1), length("cells")
    poly, quads = array("poly", nv, 2), array("quads", m, 4, 2)

    def which(p):
        """0 if the path is the polygon, point for point"""
        k = z3.Int(E.name("pv"))
        same = z3.And(core.i_eq(p.shape[0], nv) if not isinstance(p.shape[0], int) else iraw(p.shape[0]) == nv,
                      z3.Implies(z3.And(k >= 0, k < nv), z3.And(*[eq(p.elem(k, d), poly.frozen.elem(k, d)) for d in (0, 1)])))
        return z3.IntVal(0) if E.valid(same) else None
    return nv, m, poly, quads, which


def corners(quads, j):
    return [raw(quads.frozen.elem(j, k, d)) for k in range(4) for d in range(2)]


def pairing(name, of_, total, m, count):
    """piece p of the answer is piece `nf(p)` of cell `of(p)`: the pairing the run produced, checked to be the in-order one"""
    if of_ is None:
        raise Unsupported("pieces do not come from one concatenation")
    of, nf, fl = of_
    p, q = idx(name + "p", total), idx(name + "q", total)
    prove(name + "each piece belongs to a cell", z3.And(of(p) >= 0, of(p) < iraw(m), nf(p) >= 0, nf(p) < count(of(p))))
    prove(name + "no piece appears twice", z3.Implies(p != q, z3.Or(of(p) != of(q), nf(p) != nf(q))))
    o, i = idx(name + "o", m), z3.Int(name + "i")
    E.kept.append(i)
    prove(name + "every piece of every cell appears", z3.Implies(z3.And(i >= 0, i < count(o)), z3.And(
        fl(o, i) >= 0, fl(o, i) < iraw(total), of(fl(o, i)) == o, nf(fl(o, i)) == i)))
    return p, of(p), nf(p)


def vertices(name, got, want):
    got = A(got)
    if got.ndim != 2:
        raise Unsupported("piece of another rank")
    prove(name + ": number of vertices", core.i_eq(got.shape[0], want.shape[0]))
    k = z3.Int("vx")
    E.kept.append(k)
    for d in range(2):
        prove(name + ": %s of its vertices" % "xy"[d], z3.Implies(z3.And(k >= 0, k < iraw(want.shape[0])),
                                                                  eq(got.elem(k, d), want.elem(k, d))))


@c.unit(MOD + ".clip_polys_by_one_poly", "all pieces of all cells, and how many each cell has")
def clip(env):
    nv, m, poly, quads, which = one_poly()
    clipper(env, which)
    res, cnt = env.fn(MOD, "clip_polys_by_one_poly")(quads, poly)
    n, k = seq.b_len(cnt), idx("cell", m)
    prove("one number per cell", eq(n, mk(m)))
    prove("how many pieces a cell has", eq(cnt[mk(k)], mk(COUNT(0, *corners(quads, k)))))
    total = seq.b_len(res)
    if not isinstance(total, S):
        raise Unsupported("fixed number of pieces")
    p, o, i = pairing("", res.pair, total, m, lambda o: COUNT(0, *corners(quads, o)))
    vertices("piece", res[mk(p)], pieces(z3.IntVal(0), corners(quads, o)).at(i))
    unchanged("the polygon", poly)
    unchanged("the cells", quads)


def entry(name, e, m, quads, xi, yi, area, pid):
    """the postcondition for one polygon: quads(o, k, d), labels xi(o), yi(o), its area"""
    sub, frac, lab = e
    if len(lab) != 2:
        raise Unsupported("labels of another form")
    lx, ly = A(lab[0]), A(lab[1])
    co = lambda o: [z3.simplify(raw(quads(o, k, d))) for k in range(4) for d in range(2)]
    total = seq.b_len(sub)
    for what, x in (("share", seq.b_len(frac)), ("first index", seq.b_len(lx)), ("second index", seq.b_len(ly))):
        prove(name + "one %s per piece" % what, eq(x, total))
    if not isinstance(total, S):
        raise Unsupported("fixed number of pieces")
    p, o, i = pairing(name, sub.pair, total, m, lambda o: COUNT(pid, *co(o)))
    want = pieces(pid, co(o)).at(i)
    vertices(name + "piece", sub[mk(p)], want)
    fr = frac.elem(p) if isinstance(frac, Arr) else frac[mk(p)]
    prove(name + "share: the piece's area over the polygon's", eq(fr, spec_area(want) / area))
    prove(name + "label of the piece is its cell's, first", eq(lx.elem(p), xi(o)))
    prove(name + "label of the piece is its cell's, second", eq(ly.elem(p), yi(o)))


@c.unit(MOD + ".make_sub_polys", "pieces of one polygon with their shares and labels")
def one(env):
    nv, m, poly, quads, which = one_poly()
    clipper(env, which)
    area = real("area")
    E.assume(raw(area) > 0)
    xi, yi = array("xi", m, sort="Int"), array("yi", m, sort="Int")
    r = env.fn(MOD, "make_sub_polys")((poly, area, (quads, xi, yi)))
    entry("", r, m, lambda o, k, d: quads.frozen.elem(o, k, d), lambda o: xi.frozen.elem(o), lambda o: yi.frozen.elem(o), area, z3.IntVal(0))
    for a in (poly, quads, xi, yi):
        unchanged("argument", a)


# cells of the mesh that a query returns, as functions of the query
QN, QX, QY = [z3.Function("cells." + k, *([R] * 4 + ([] if k == "count" else [I]) + [I])) for k in ("count", "x", "y")]
NN, NX, NY = [z3.Function("near." + k, *([R] * 2 + ([] if k == "count" else [I]) + [I])) for k in ("count", "x", "y")]


class Mesh:
    """The mesh under its own contract (C02): a query gives cells with their polygons; nothing is said here of which cells."""
    def __init__(self, nx, ny):
        self.quads = array("mesh", nx, ny, 4, 2)
        self.quad_areas = array("cellarea", nx, ny)

    def answer(self, n, x, y):
        n = z3.simplify(n)
        q = Arr((n, 4, 2), lambda j, k, d: mk(self.quads.sym(x(iraw(j)), y(iraw(j)), iraw(k), iraw(d))), F8)
        return q, Arr((n,), lambda j: mk(x(iraw(j))), I8), Arr((n,), lambda j: mk(y(iraw(j))), I8)

    def quads_in_bbox(self, bbox):
        b = [core.to_real(v.item() if isinstance(v, Arr) else v) for v in list(seq.lift(bbox))]
        if len(b) != 4:
            raise Unsupported("box of another form")
        return self.answer(QN(*b), lambda j: QX(*b, j), lambda j: QY(*b, j))

    def quads_nearest(self, ctr):
        a = A(ctr)
        b = [core.to_real(a.elem(0)), core.to_real(a.elem(1))]
        return self.answer(NN(*b), lambda j: NX(*b, j), lambda j: NY(*b, j))


def sliced(how):
    def f(env):
        n = length("polygons")
        nv, vert = z3.Function("nverts", I, I), z3.Function("vert", I, I, I, R)
        i, k = z3.Ints("i! k!")
        b4 = [z3.Real("b!%d" % j) for j in range(4)]
        E.axioms += [z3.ForAll([i], nv(i) >= 1, patterns=[nv(i)]), z3.ForAll(b4, QN(*b4) >= 0, patterns=[QN(*b4)]),
                     z3.ForAll(b4[:2], NN(*b4[:2]) >= 0, patterns=[NN(*b4[:2])])]
        poly = lambda i: Arr((nv(i), 2), lambda k, d: mk(vert(i, iraw(k), iraw(d))), F8)
        polys = Seq(n, lambda i: poly(iraw(i)))

        def which(p):
            """the number of the polygon a path is"""
            t = z3.simplify(raw(p.elem(z3.Int("wv!"), 0)))
            if not (z3.is_app(t) and t.decl().eq(vert)):
                return None
            i, k = t.arg(0), z3.Int(E.name("pv"))
            same = z3.And(iraw(p.shape[0]) == nv(i), z3.Implies(z3.And(k >= 0, k < nv(i)), z3.And(*[
                eq(p.elem(k, d), mk(vert(i, k, d))) for d in (0, 1)])))
            return i if E.valid(same) else None
        clipper(env, which)
        mesh = Mesh(length("meshrows", 1), length("meshcols", 1))
        s = env.fn(MOD, "QuadMeshPolySlicer")(mesh)
        p = idx("poly", n)
        me = poly(p)
        area = spec_area(me)
        j = z3.Int("j!")
        E.axioms.append(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), raw(spec_area(poly(j))) > 0)))
        box = [real("box%d" % j) for j in range(4)]
        r, areas = s.slice(polys, **{"own box": {"bbox": True}, "given box": {"bbox": tuple(box)}, "nearest cells": {}}[how])
        prove("one entry per polygon", eq(seq.b_len(r), mk(n)))
        prove("one area per polygon", eq(seq.b_len(areas), mk(n)))
        if E.valid(n <= 0):
            return
        prove("area reported for a polygon", eq(areas.elem(p) if isinstance(areas, Arr) else areas[mk(p)], area))
        if how == "own box":
            lim = [raw(arr.reduce_minmax(me[:, d], None, w)) for d in (0, 1) for w in ("min", "max")]
            N, X, Y = QN(*lim), lambda o: QX(*lim, o), lambda o: QY(*lim, o)
        elif how == "given box":
            lim = [raw(b) for b in box]
            N, X, Y = QN(*lim), lambda o: QX(*lim, o), lambda o: QY(*lim, o)
        else:
            ctr = [raw(mksum(nv(p), lambda k: mk(vert(p, iraw(k), d))) / mk(nv(p))) for d in (0, 1)]
            N, X, Y = NN(*ctr), lambda o: NX(*ctr, o), lambda o: NY(*ctr, o)
        entry("", r[mk(p)], N, lambda o, k, d: mk(mesh.quads.sym(X(o), Y(o), k, d)), lambda o: mk(X(o)), lambda o: mk(Y(o)), area, p)
    return f


for how in ("own box", "given box", "nearest cells"):
    c.units.append(Unit(MOD + ".QuadMeshPolySlicer.slice", how, sliced(how)))


@c.unit(MOD + ".QuadMeshPolySlicer.quad_frac_from_poly_frac_area", "the piece's area over its cell's area")
def cover(env):
    clipper(env, lambda p: None)
    mesh = Mesh(length("meshrows", 1), length("meshcols", 1))
    s = env.fn(MOD, "QuadMeshPolySlicer")(mesh)
    m = length("pieces")
    xi, yi, fr = array("xi", m, sort="Int"), array("yi", m, sort="Int"), array("frac", m)
    o, p = z3.Ints("o! p!")
    nx, ny = mesh.quad_areas.shape
    E.axioms += [z3.ForAll([o], z3.And(xi.sym(o) >= 0, xi.sym(o) < nx, yi.sym(o) >= 0, yi.sym(o) < ny), patterns=[xi.sym(o)]),
                 z3.ForAll([o, p], mesh.quad_areas.sym(o, p) > 0, patterns=[mesh.quad_areas.sym(o, p)])]
    t = real("area")
    r = s.quad_frac_from_poly_frac_area(fr, t, xi, yi)
    same_array("fraction of the cell", r, lambda k: fr.frozen.elem(k) * t / mesh.quad_areas.frozen.elem(xi.sym(iraw(k)), yi.sym(iraw(k))), (m,))
    for a in (fr, xi, yi, mesh.quad_areas):
        unchanged("argument", a)
