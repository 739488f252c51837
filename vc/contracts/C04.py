"""Split records: one per piece, in order, each field from its own piece; tables put each field in its own column."""
from ..api import *
from ..theory import mksum

c = Contract("C04")
MOD = "glmtools.grid.split_events"
c.assume("real arithmetic in place of IEEE double precision",
         "every piece has at least one vertex, mesh cells have a positive area and the labels of the pieces are cells of the mesh",
         "ids are unsigned 64-bit integers")


class Mesh:
    """what the slicer reads of its mesh"""


def sliced(env):
    """any number of footprints, each with any number of pieces of any number of vertices"""
    n = length("parents")
    cnt, nv = z3.Function("count", I, I), z3.Function("nverts", I, I, I)
    vert = z3.Function("vertex", I, I, I, I, R)
    frac = z3.Function("share", I, I, R)
    xi, yi = z3.Function("xi", I, I, I), z3.Function("yi", I, I, I)
    nx, ny = length("meshrows", 1), length("meshcols", 1)
    quad = array("cellarea", nx, ny)
    o, p = z3.Ints("o! p!")
    E.axioms += [z3.ForAll([o], cnt(o) >= 0, patterns=[cnt(o)]),
                 z3.ForAll([o, p], nv(o, p) >= 1, patterns=[nv(o, p)]),
                 z3.ForAll([o, p], z3.And(xi(o, p) >= 0, xi(o, p) < nx), patterns=[xi(o, p)]),
                 z3.ForAll([o, p], z3.And(yi(o, p) >= 0, yi(o, p) < ny), patterns=[yi(o, p)]),
                 z3.ForAll([o, p], quad.sym(o, p) > 0, patterns=[quad.sym(o, p)])]

    def piece(i, q):
        return Arr((nv(i, q), 2), lambda k, d: mk(vert(i, q, iraw(k), iraw(d))), F8)

    def parent(i):
        i = iraw(i)
        col = lambda f: Arr((cnt(i),), lambda q: mk(f(i, iraw(q))), F8 if f is frac else I8)
        return (Seq(cnt(i), lambda q: piece(i, iraw(q))), Seq(cnt(i), lambda q: mk(frac(i, iraw(q)))), (col(xi), col(yi)))
    polys = Seq(n, parent)
    areas = array("area", n)
    mesh = Mesh()
    mesh.quad_areas = quad
    slicer = env.fn("glmtools.grid.clipping", "QuadMeshPolySlicer")(mesh)
    spec = dict(n=n, cnt=cnt, nv=nv, vert=vert, frac=frac, xi=xi, yi=yi, quad=quad, areas=areas)
    return polys, areas, slicer, spec


def centre(s, o, q, d):
    return mksum(s["nv"](o, q), lambda k: mk(s["vert"](o, q, iraw(k), d))) / mk(s["nv"](o, q))


def pairing(s, of_, total):
    """which piece of which parent record p is: the pairing the run itself produced, checked to be the in-order one"""
    if of_ is None:
        raise Unsupported("records do not come from one concatenation")
    of, nf, fl = of_
    p, q = idx("rec", total), idx("recb", total)
    prove("each record belongs to a piece of a parent",
          z3.And(of(p) >= 0, of(p) < s["n"], nf(p) >= 0, nf(p) < s["cnt"](of(p))))
    prove("parents in order, pieces in order within each",
          z3.Implies(p < q, z3.Or(of(p) < of(q), z3.And(of(p) == of(q), nf(p) < nf(q)))))
    o, i = idx("par", s["n"]), z3.Int("pc")
    E.kept.append(i)
    some = fl(o, i)
    prove("every piece has a record", z3.Implies(z3.And(i >= 0, i < s["cnt"](o)), z3.And(
        some >= 0, some < iraw(total), of(some) == o, nf(some) == i)))
    return p, of(p), nf(p)


def vertices(name, got, s, o, i):
    got = A(got)
    if got.ndim != 2:
        raise Unsupported("polygon of another rank")
    prove(name + ": number of vertices", core.i_eq(got.shape[0], s["nv"](o, i)))
    k = z3.Int("vx")
    E.kept.append(k)
    for d in range(2):
        prove(name + ": vertices, %s" % "xy"[d], z3.Implies(z3.And(k >= 0, k < s["nv"](o, i)),
                                                            eq(got.elem(k, d), mk(s["vert"](o, i, k, d)))))


def fields(s, o, i, ctr, share, cell, x, y, ident, wanted):
    for d in range(2):
        prove("centre %s is the mean of the piece's vertices" % "xy"[d], eq(ctr[d], centre(s, o, i, d)))
    prove("share of the parent's area", eq(share, mk(s["frac"](o, i))))
    prove("share of the mesh cell", eq(cell, mk(s["frac"](o, i)) * s["areas"].frozen.elem(o) /
                                       s["quad"].frozen.elem(s["xi"](o, i), s["yi"](o, i))))
    prove("mesh index, first", eq(x, mk(s["xi"](o, i))))
    prove("mesh index, second", eq(y, mk(s["yi"](o, i))))
    prove("id of the parent", eq(ident, wanted))


@c.unit(MOD + ".split_event_data", "one record per piece, with the piece's own fields")
def records(env):
    polys, areas, slicer, s = sliced(env)
    ids = array("id", s["n"], sort="Int", dt=arr.todt("u8"))
    k = z3.Int("ik!")
    E.axioms.append(z3.ForAll([k], z3.And(ids.sym(k) >= 0, ids.sym(k) < 2**64), patterns=[ids.sym(k)]))
    subs, d = env.fn(MOD, "split_event_data")(polys, areas, slicer, ids)
    total = seq.b_len(d["event_id"])
    holds("id of the parent", d["event_id"], 0, 2 ** 64)
    holds("mesh index", d["mesh_idx"], 0, 2 ** 31)
    prove("as many polygons as records", eq(seq.b_len(subs), total))
    if not isinstance(total, S):
        if total != 0:
            raise Unsupported("fixed number of records")
        o = idx("par", s["n"])
        prove("no record only if no footprint has a piece", s["cnt"](o) == 0)
        return
    p, o, i = pairing(s, subs.pair, total)
    vertices("polygon", subs[mk(p)], s, o, i)
    fields(s, o, i, [d["poly_ctr"].elem(p, 0), d["poly_ctr"].elem(p, 1)], d["event_frac_area"].elem(p), d["mesh_frac_area"].elem(p),
           d["mesh_idx"].elem(p, 0), d["mesh_idx"].elem(p, 1), d["event_id"].elem(p), ids.frozen.elem(o))
    unchanged("footprint areas", areas)
    unchanged("cell areas", s["quad"])
    unchanged("ids", ids)


def generated(named):
    def f(env):
        polys, areas, slicer, s = sliced(env)
        ids = array("id", s["n"], sort="Int")
        fn = env.fn(MOD, "gen_split_events")
        r = seq.b_list(fn(polys, areas, slicer, **({"event_ids": ids} if named else {})))
        total = seq.b_len(r)
        if not isinstance(total, S):
            raise Unsupported("fixed number of records")
        p, o, i = pairing(s, r.pair, total)
        row = r[mk(p)]
        if len(row) != 6 or len(row[4]) != 2:
            raise Unsupported("records of another form")
        vertices("polygon", row[0], s, o, i)
        ctr = A(row[1])
        fields(s, o, i, [ctr.elem(0), ctr.elem(1)], row[2], row[3], row[4][0], row[4][1], row[5],
               ids.frozen.elem(o) if named else mk(o))
    return f


c.units.append(Unit(MOD + ".gen_split_events", "records with the given ids", generated(True)))
c.units.append(Unit(MOD + ".gen_split_events", "records numbered by parent when no ids are given", generated(False)))


def tables(kind, names):
    def f(env):
        n = length("records")
        spec = [("poly_ctr", "f8", (2,)), ("event_frac_area", "f8"), ("mesh_frac_area", "f8"), ("mesh_idx", "i8", (2,)), ("event_id", "u8")]
        cols = {}
        for t in spec:
            shp = (n,) + (t[2] if len(t) > 2 else ())
            cols[t[0]] = array("in_" + t[0], *shp, sort="Real" if t[1] == "f8" else "Int", dt=arr.todt(t[1]))
        d = arr.RecArr((n,), cols, arr.RecDT(spec))
        fn = env.fn(MOD, "split_%s_dataset_from_props" % kind)
        t = fn(d, **({"centroid_names": names} if names else {}))
        a, b = names or ("split_%s_lon" % kind, "split_%s_lat" % kind)
        pre = "split_%s_" % kind
        g = {k: v.frozen for k, v in cols.items()}
        want = {a: lambda i: g["poly_ctr"].elem(i, 0), b: lambda i: g["poly_ctr"].elem(i, 1),
                pre + "mesh_area_fraction": lambda i: g["mesh_frac_area"].elem(i), pre + "area_fraction": lambda i: g["event_frac_area"].elem(i),
                pre + "mesh_x_idx": lambda i: g["mesh_idx"].elem(i, 0), pre + "mesh_y_idx": lambda i: g["mesh_idx"].elem(i, 1),
                pre + "parent_%s_id" % kind: lambda i: g["event_id"].elem(i)}
        for nm, w in want.items():
            prove("column %s is there" % nm, nm in t.vars)
            if nm in t.vars:
                prove("%s lies along the pieces" % nm, tuple(t.vars[nm].dims) == ("number_of_split_%s_children" % kind,))
                same_array("column %s" % nm, t.vars[nm].arr, w, (n,))
        for v in cols.values():
            unchanged("records", v)
    return f


for kind in ("event", "group", "flash"):
    for names in (None, ("first_name", "second_name")):
        c.units.append(Unit(MOD + ".split_%s_dataset_from_props" % kind, "columns, %s centroid names" % ("given" if names else "default"),
                            tables(kind, names)))
