"""Event footprints from the corner table; pixel lookup indices."""
from ..api import *
from .. import theory, lemmas
from ..core import nan_of, num
from ..npmod import MaskedArray

c = Contract("C01")
MOD = "glmtools.io.ccd"
c.assume("a table of any size without missing values, any number of positions, any satellite longitude and inflation",
         "scipy's interpolators by contract: the value at a position depends on the nodes, the node values and the position relative "
         "to the nodes only, column by column; missing outside the hull of the nodes whatever the values (linear), never missing (nearest)",
         "sklearn's tree finds rows of the array it was given; loadmat returns the named arrays")

LIN, NEAR = z3.Function("linear", I, I, R, R, R), z3.Function("nearest", I, I, R, R, R)
OUT = z3.Function("outside", R, R, B)


class Interpolators:
    """what scipy.interpolate offers, by contract; node values are recognised as columns of the corner table"""
    def __init__(self, lon, lat, corner, nadir):
        self.nodes = (lon.frozen.flatten(), lat.frozen.flatten())
        self.n = self.nodes[0].shape[0]
        self.cols = {(ci, d): corner.frozen[:, :, ci, d].flatten() for ci in range(4) for d in range(2)}
        self.nadir = nadir

        class Base:
            def __init__(s, points, values, *a, **k):
                if a or k:
                    raise Unsupported("interpolator options")
                if isinstance(points, (tuple, list, TList)):
                    points = list(points)
                    px, py = [A(p) for p in points]
                else:
                    p = A(points)
                    px, py = p[:, 0], p[:, 1]
                s.shift = self.which_shift(px, py)
                v = A(values)
                s.nd = v.ndim
                s.col = [self.which(v)] if v.ndim == 1 else [self.which(v[:, j]) for j in range(v.shape[1])]

            def __call__(s, *xi):
                if len(xi) == 2:
                    x, y = A(xi[0]).snapshot(), A(xi[1]).snapshot()
                else:
                    q = A(xi[0])
                    if q.ndim != 2:
                        raise Unsupported("positions of rank %d" % q.ndim)
                    x, y = q[:, 0].snapshot(), q[:, 1].snapshot()
                if x.ndim != 1:
                    raise Unsupported("positions of rank %d" % x.ndim)
                sh = s.shift

                def at(p, j=0):
                    a, b = z3.simplify(core.to_real(num(x.elem(p))) - raw(sh)), z3.simplify(core.to_real(num(y.elem(p))))
                    ci, d = s.col[j] if isinstance(j, int) else (None, None)
                    return s.value(ci, d, a, b)

                def at2(p, j):
                    if isinstance(j, int):
                        return at(p, j)
                    r = at(p, len(s.col) - 1)
                    for q in range(len(s.col) - 2, -1, -1):
                        r = ite(iraw(j) == q, at(p, q), r)
                    return r
                return Arr((x.shape[0],), at, F8) if s.nd == 1 else Arr((x.shape[0], len(s.col)), at2, F8)

        class Linear(Base):
            value = staticmethod(lambda ci, d, a, b: mk(LIN(ci, d, a, b), OUT(a, b)))

        class Nearest(Base):
            value = staticmethod(lambda ci, d, a, b: mk(NEAR(ci, d, a, b)))
        self.LinearNDInterpolator, self.NearestNDInterpolator = Linear, Nearest

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("scipy.interpolate.%s has no model" % a)

    def which_shift(self, px, py):
        k = idx(E.name("node"), self.n)
        if not E.valid(z3.And(iraw(px.shape[0]) == iraw(self.n), iraw(py.shape[0]) == iraw(self.n))):
            raise Unsupported("other nodes than the table's")
        a, b = px.elem(k), py.elem(k)
        x, y = self.nodes[0].elem(k), self.nodes[1].elem(k)
        for sh in (mk(raw(self.nadir)), mk(z3.RealVal(0))):
            if E.valid(z3.And(raw(eq(a, x + sh)), raw(eq(b, y)))):
                return sh
        raise Unsupported("other nodes than the table's")

    def which(self, v):
        k = idx(E.name("node"), self.n)
        t = z3.simplify(num(v.elem(k)))
        # those that look the same first
        for key, w in sorted(self.cols.items(), key=lambda kw: not z3.simplify(num(kw[1].elem(k))).eq(t)):
            if E.valid(z3.And(iraw(v.shape[0]) == iraw(self.n), raw(eq(v.elem(k), w.elem(k))))):
                return key
        raise Unsupported("node values are not a column of the table")


def quads(default, extra):
    def f(env):
        N, M, P = length("rows", 1), length("columns", 1), length("positions")
        lon, lat, cp = array("lon", N, M), array("lat", N, M), array("corner", N, M, 4, 2)
        plon, plat = array("pixel_lon", P), array("pixel_lat", P)
        nadir, infl = (Q(0), Q(1)) if default else (real("nadir"), real("inflate"))
        kw = {} if default else {"nadir_lon": nadir, "inflate": infl}
        kw.update(extra)
        env.override(scipy__interpolate=Interpolators(lon, lat, cp, nadir))
        q = A(env.fn(MOD, "quads_from_corner_lookup")(lon, lat, cp, plon, plat, **kw))
        prove("rank of the result", q.ndim == 3)
        for d, s in enumerate((P, 4, 2)):
            prove("length of axis %d" % d, core.i_eq(q.shape[d], s))
        p = idx("p", P)
        rel = lambda k: z3.simplify(plon.sym(k) - core.to_real(nadir if isinstance(nadir, Q) else raw(nadir)))
        # the lemma `member` for the number of positions outside the table
        flag = lambda k: z3.If(OUT(rel(k), plat.sym(k)), z3.IntVal(1), z3.IntVal(0))
        E.assume(z3.Implies(z3.And(p >= 0, p < P), raw(theory.mksum(P, lambda k: mk(flag(iraw(k))))) >= flag(p)))
        for ci in range(4):
            for d in range(2):
                x, y = plon.sym(p), plat.sym(p)
                a = rel(p)
                off = z3.If(OUT(a, y), NEAR(ci, d, a, y), LIN(ci, d, a, y))
                fac = core.to_real(infl if isinstance(infl, Q) else raw(infl))
                prove("corner %d, coordinate %d is the position plus its own offset, tabulated or nearest" % (ci, d),
                      eq(q.elem(p, ci, d), mk((x, y)[d] + off * fac)))
        for nm, a in (("lon", lon), ("lat", lat), ("the corner table", cp), ("longitudes", plon), ("latitudes", plat)):
            unchanged(nm, a)
    return f


c.unit(MOD + ".quads_from_corner_lookup", "any shift and inflation", budget_s=200)(quads(False, {}))
c.unit(MOD + ".quads_from_corner_lookup", "defaults", budget_s=200)(quads(True, {}))
c.unit(MOD + ".quads_from_corner_lookup", "extrapolation asked for", budget_s=200)(quads(False, {"extrapolate": True}))


@c.unit("finite sums", "every value is within the sum")
def member(env):
    lemmas.member()


@c.unit(MOD + ".read_official_corner_lut", "corners in order")
def reader(env):
    N, M = length("rows"), length("columns")
    names = ["lat_grid", "lon_grid"] + [k + x for k in ("nw", "sw", "se", "ne") for x in ("lon", "lat")]
    tab = {k: array(k, N, M) for k in names}
    seen = []

    class Io:
        @staticmethod
        def loadmat(fn, *a, **k):
            if k or a:
                raise Unsupported("loadmat options")
            seen.append(fn)
            return dict(tab)
    env.override(scipy__io=Io)
    lon, lat, C = env.fn(MOD, "read_official_corner_lut")("some.mat")
    prove("reads the file asked for", seen == ["some.mat"])
    same_array("longitudes", lon, lambda i, j: tab["lon_grid"].frozen.elem(i, j), (N, M))
    same_array("latitudes", lat, lambda i, j: tab["lat_grid"].frozen.elem(i, j), (N, M))
    C = A(C)
    prove("rank of the table", C.ndim == 4)
    for d, s in enumerate((N, M, 4, 2)):
        prove("table: length of axis %d" % d, core.i_eq(C.shape[d], s))
    i, j = idx("i", N), idx("j", M)
    for q, k in enumerate(("nw", "sw", "se", "ne")):
        for d, x in enumerate(("lon", "lat")):
            prove("corner %d, coordinate %d is %s" % (q, d, k + x), eq(C.elem(i, j, q, d), tab[k + x].frozen.elem(i, j)))


def lookup(masked):
    def f(env):
        N, M = length("rows"), length("columns")
        lon, lat = array("lon", N, M), array("lat", N, M)
        good = lambda i, j: z3.BoolVal(True)
        a, b = lon, lat
        if masked:
            ml, mt = array("lon_mask", N, M, sort="Bool"), array("lat_mask", N, M, sort="Bool")
            good = lambda i, j: z3.Not(z3.Or(ml.sym(i, j), mt.sym(i, j)))
            a, b = MaskedArray(lon, ml), MaskedArray(lat, mt)
        seen = []

        class Neighbors:
            class KDTree:
                def __init__(s, X, leaf_size=40, **k):
                    if k:
                        raise Unsupported("tree options")
                    seen.append((A(X).snapshot(), leaf_size))
        leaf = integer("leaf_size", 1)
        env.override(sklearn__neighbors=Neighbors)
        t, X, Y = env.fn(MOD, "create_pixel_lookup")(a, b, leaf_size=leaf)
        if len(seen) != 1 or not isinstance(t, Neighbors.KDTree):
            raise Unsupported("another kind of lookup")
        rows, X, Y = seen[0][0], A(X), A(Y)
        if rows.ndim != 2 or X.ndim != 1 or Y.ndim != 1:
            raise Unsupported("lookup of another form")
        m = rows.shape[0]
        prove("two coordinates per row", core.i_eq(rows.shape[1], 2))
        prove("one x index per row", core.i_eq(X.shape[0], m))
        prove("one y index per row", core.i_eq(Y.shape[0], m))
        k, k2, i, j = idx("row", m), idx("row2", m), idx("i", N), idx("j", M)
        xi, yi = raw(X.elem(k)), raw(Y.elem(k))
        prove("indices address the grid", z3.And(xi >= 0, xi < N, yi >= 0, yi < M))
        prove("the row holds the longitude of the pixel addressed", eq(rows.elem(k, 0), mk(lon.sym(xi, yi))))
        prove("the row holds the latitude of the pixel addressed", eq(rows.elem(k, 1), mk(lat.sym(xi, yi))))
        prove("the pixel addressed is not missing", good(xi, yi))
        at = lambda q: z3.And(raw(X.elem(q)) == i, raw(Y.elem(q)) == j)
        cands = [rank(i, j) for rank, nd, _, _, _, _ in E.ghost.get("ranks", []) if nd == 2]
        for q in cands:
            g = z3.Implies(good(i, j), z3.And(q >= 0, q < iraw(m), at(q)))
            if E.valid(g):
                prove("every pixel that is not missing has a row", g)
                break
        else:
            q = z3.Int("some!")
            prove("every pixel that is not missing has a row",
                  z3.Implies(good(i, j), z3.Not(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < iraw(m)), z3.Not(at(q)))))))
        unchanged("lon", lon)
        unchanged("lat", lat)
    return f


c.unit(MOD + ".create_pixel_lookup", "nothing missing")(lookup(False))
c.unit(MOD + ".create_pixel_lookup", "with missing pixels")(lookup(True))
