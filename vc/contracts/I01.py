"""Writing of images: one file per frame, each grid at its place, the grids left alone."""
from ..api import *
from ..core import nan_of, num, ite
from .. import xrmod, dtmod, seq

c = Contract("I01")
MOD = "glmtools.io.imagery"
c.assume("any grid size, padding and number of frames; products in any order, some of them averages",
         "real arithmetic; frame edges in seconds, rounded to the microsecond as timedelta does",
         "file names and metadata by F01, packing by I02: get_glm_global_attrs and glm_image_to_var are replaced by what they were "
         "given, infer_scene_from_dataset by any answer",
         "to_netcdf writes what the dataset holds at that moment")


class Name:
    """an output path: the template filled in"""
    def __init__(self, kw):
        self.kw = kw

    def subst(self, pairs):
        return Name({k: core.subst(v, pairs) for k, v in self.kw.items()})

    def merge_with(self, c, o):
        if not isinstance(o, Name) or set(o.kw) != set(self.kw):
            raise Unsupported("paths of different forms")
        return Name({k: v.merge_with(c, o.kw[k]) for k, v in self.kw.items()})


class Template:
    def format(self, *a, **kw):
        if a:
            raise Unsupported("another template")
        return Name(kw)


class Folder:
    def __bool__(self):
        return bool(boolean("in_a_folder"))


class Path:
    @staticmethod
    def dirname(p):
        if not isinstance(p, Name):
            raise Unsupported("folder of something else")
        return Folder()

    @staticmethod
    def exists(p):
        return boolean("folder_exists")
    isdir = exists

    def __getattr__(self, a):
        raise Unsupported("os.path." + a)


class Os:
    path = Path()

    @staticmethod
    def makedirs(p, **k):
        if not isinstance(p, Folder):
            raise Unsupported("makedirs of something else")

    def __getattr__(self, a):
        raise Unsupported("os." + a)


class Proj:
    """coordinate systems: some functions of the position; the middle of the fixed grid lies at the satellite's longitude"""
    def __init__(self, name):
        self.f = [z3.Function("%s %s" % (name, q), *[z3.RealSort()] * 4) for q in "123"]

    def toECEF(self, *a):
        if len(a) != 3:
            raise Unsupported("position of another form")
        a = [core.to_real(num(v)) for v in a]
        return tuple(mk(f(*a)) for f in self.f)

    fromECEF = toECEF


class Label:
    """text that is only handed on"""
    def __init__(self, what):
        self.what = what

    def subst(self, pairs):
        return self


def same_text(a, b):
    if not isinstance(a, Label):
        raise Unsupported("another text")
    return a.what == b.what


class Gridder:
    pass


PRODUCTS = ["flash_extent_density", "flash_centroid_density", "average_flash_area", "group_extent_density",
            "group_centroid_density", "average_group_area", "total_energy", "minimum_flash_area", "something_else"]


def setup(names, divide, padded):
    nx, ny, nt = length("nx", 2), length("ny", 2), length("nt", 1)
    g = Gridder()
    g.grids = [array("grid%d" % p, nx, ny, nt) for p in range(len(names))]
    g.outgrids = list(g.grids)
    g.field_names = list(names)
    g.field_descriptions = [Label("description %d" % p) for p in range(len(names))]
    g.field_units = [Label("units %d" % p) for p in range(len(names))]
    g.outformats = ["f"] * len(names)
    g.divide_grids = dict(divide)
    g.xedge, g.yedge = array("xedge", nx + 1), array("yedge", ny + 1)
    g.t_edges_seconds = array("edge", nt + 1)
    g.t_ref = dtmod.datetime._of(z3.Int("tref"))
    g.spatial_scale_factor = real("ssf")
    g.nadir = real("nadir")
    g.mapProj, g.geoProj = Proj("fixed grid to ECEF"), Proj("ECEF to geographic")
    E.assume(raw(g.geoProj.fromECEF(*g.mapProj.toECEF(0.0, 0.0, 0.0))[0]) == raw(g.nadir))
    g.first_file_attrs = {k: Label(k) for k in ("platform_ID", "orbital_slot", "instrument_ID")}
    pad, a, b, tx, ty = None, 0, 0, nx, ny
    if padded == "numbers":
        a, b = integer("a", 0), integer("b", 0)
        E.assume(z3.And(2 * raw(a) + 2 <= nx, 2 * raw(b) + 2 <= ny))
        tx, ty = nx - 2 * raw(a), ny - 2 * raw(b)
        pad = (slice(a, mk(nx - raw(a))), slice(b, mk(ny - raw(b))))
        a, b = raw(a), raw(b)
    elif padded == "negative":
        a, b = 3, 2
        E.assume(z3.And(nx >= 8, ny >= 6))
        tx, ty = nx - 6, ny - 4
        pad = (slice(3, -3), slice(2, -2))
    return g, nx, ny, nt, pad, a, b, tx, ty


def near(us, ref, secs):
    """us microseconds since 1970 are ref + secs, to the nearest microsecond"""
    d = z3.ToReal(iraw(us) - ref) - 10 ** 6 * secs
    return z3.And(2 * d <= 1, 2 * d >= -1)


def frame(g, k):
    return (g.t_ref.us, g.t_edges_seconds.sym(k)), (g.t_ref.us, g.t_edges_seconds.sym(k + 1))


def checked(g, k, ds, name, names, divide, dims, packed, scal, nxy):
    a, b, tx, ty = nxy
    (r0, s0), (r1, s1) = frame(g, k)
    at = ds.attrs
    st, en = at.get("start"), at.get("end")
    if not isinstance(st, dtmod.datetime) or not isinstance(en, dtmod.datetime):
        raise Unsupported("metadata not from get_glm_global_attrs")
    prove("metadata: the frame's own start", near(st.us, r0, s0))
    prove("metadata: the frame's own end", near(en.us, r1, s1))
    for q in ("platform_ID", "orbital_slot", "instrument_ID"):
        prove("metadata: %s of the first file" % q, same_text(at[q], g.first_file_attrs[q]))
    named(g, k, name)
    if "x" not in ds.vars or "y" not in ds.vars:
        raise Unsupported("no coordinates")
    X, Y = A(ds.vars["x"].arr), A(ds.vars["y"].arr)
    prove("number of columns", iraw(X.shape[0]) == tx)
    prove("number of rows", iraw(Y.shape[0]) == ty)
    i, j = idx(E.name("col"), tx), idx(E.name("row"), ty)
    xi, yj = a + i, b + (ty - 1 - j)
    ex, ey = g.xedge.sym, g.yedge.sym
    prove("columns run west to east at cell centres", num(X.elem(i)) == (ex(xi) + ex(xi + 1)) / 2)
    prove("rows run north to south at cell centres", num(Y.elem(j)) == (ey(yj) + ey(yj + 1)) / 2)
    for q in "xy":
        stored(q, ds.vars[q].encoding)
    for q in ("goes_imager_projection", "nominal_satellite_subpoint_lon"):
        if q not in ds.vars:
            raise Unsupported("no variable " + q)
    prove("projection of the satellite's own longitude",
          num(ds.vars["goes_imager_projection"].attrs["longitude_of_projection_origin"]) == raw(g.nadir))
    prove("the satellite's own longitude below it", num(ds.vars["nominal_satellite_subpoint_lon"].arr.elem()) == raw(g.nadir))
    for p, nm in enumerate(names):
        if nm not in ds.vars:
            raise Unsupported("no variable %s" % nm)
        v = ds.vars[nm]
        if set(v.dims) != {"x", "y"}:
            raise Unsupported("dimensions of " + nm)
        prove("%s: rows then columns" % nm, v.dims == ("y", "x"))
        prove("%s: shape" % nm, z3.And(iraw(v.arr.shape[0]) == ty, iraw(v.arr.shape[1]) == tx))
        got = v.arr.elem(j, i)
        val = g.grids[p].sym(xi, yj, k)
        if p in divide:
            den = g.grids[divide[p]].sym(xi, yj, k)
            both = z3.And(val != 0, den != 0)
            prove("%s: total over count where both are nonzero" % nm, z3.Implies(both, num(got) * den == val))
            prove("%s: zero elsewhere" % nm, z3.Implies(z3.Not(both), num(got) == 0))
        else:
            prove("%s: the accumulated value of that cell" % nm, num(got) == val)
        prove("%s: never missing" % nm, z3.Not(raw(nan_of(got))))
        prove("%s: its own description and units" % nm, same_text(v.attrs["long_name"], g.field_descriptions[p]) and
              same_text(v.attrs["units"], g.field_units[p]))
        kw = v.attrs["kw"]
        want = dict(scal[nm]) if packed and nm in scal else {}
        prove("%s: packing" % nm, {q: x for q, x in kw.items() if x is not None} == want)


DISC = z3.Q(151872, 10 ** 6)      # half the full disc, rad


def stored(q, enc):
    """a coordinate on the full disc is read back as the nearest of the fixed grid's 56 microradian steps"""
    if set(enc) - {"dtype", "scale_factor", "add_offset", "_FillValue"}:
        raise Unsupported("coordinates stored otherwise")
    if "scale_factor" not in enc and "dtype" not in enc:
        return
    if arr.todt(enc.get("dtype", "f8")).kind == "f":
        return
    dt = arr.todt(enc["dtype"])
    lo, hi = (0, 2 ** (8 * dt.itemsize) - 1) if dt.kind == "u" else (-2 ** (8 * dt.itemsize - 1), 2 ** (8 * dt.itemsize - 1) - 1)
    s, o = num(enc.get("scale_factor", 1)), num(enc.get("add_offset", 0))
    s, o = core.to_real(s), core.to_real(o)
    v, code = z3.Real(E.name("coordinate")), z3.Int(E.name("code"))
    r = (v - o) / s
    on = z3.And(s != 0, v <= DISC, v >= -DISC, 2 * (z3.ToReal(code) - r) <= 1, 2 * (z3.ToReal(code) - r) >= -1)
    prove("stored %s: within the range of the codes" % q, z3.Implies(on, z3.And(code >= lo, code <= hi)))
    prove("stored %s: to half a step of 56 microradian" % q, z3.And(s <= z3.Q(56, 10 ** 6), s >= -z3.Q(56, 10 ** 6), s != 0))
    m = z3.Int(E.name("m"))
    prove("stored %s: cell centres of the 2 km fixed grid exactly" % q, z3.Implies(s != 0, z3.IsInt(((m + z3.Q(1, 2)) * z3.Q(56, 10 ** 6) - o) / s)))
    if "_FillValue" in enc:
        prove("stored %s: never as missing" % q, z3.Implies(on, z3.ToReal(code) != core.to_real(num(enc["_FillValue"]))))


def named(g, k, name):
    if not isinstance(name, Name):
        raise Unsupported("written to another path")
    (r0, s0), (r1, s1) = frame(g, k)
    st, en = name.kw.get("start_time"), name.kw.get("end_time")
    if isinstance(st, dtmod.datetime) and isinstance(en, dtmod.datetime):
        prove("path: the frame's own start", near(st.us, r0, s0))
        prove("path: the frame's own end", near(en.us, r1, s1))
    else:
        raise Unsupported("path made otherwise")
    dn = name.kw.get("dataset_name")
    if not isinstance(dn, Name):
        raise Unsupported("path made otherwise")
    prove("path: the name of this frame's data set", z3.And(near(dn.kw["start"].us, r0, s0), near(dn.kw["end"].us, r1, s1)))


def unit(names, divide, padded, packed):
    def f(env):
        env.override(os=Os())
        m = env.mod(MOD)
        env.fn(MOD, "write_goes_imagery")
        g, nx, ny, nt, pad, a, b, tx, ty = setup(names, divide, padded)
        scal = env.fn(MOD, "glm_scaling")
        calls = [0]

        def attrs(start, end, platform, slot, instrument, scene_id, resolution, timeline, env_, src, site):
            return {"dataset_name": Name({"start": start, "end": end}), "start": start, "end": end, "platform_ID": platform,
                    "orbital_slot": slot, "instrument_ID": instrument}

        def image(data, name, long_name, units, dims, fill=0.0, scale_factor=None, add_offset=None, dtype=None):
            return xrmod.DataArray(A(data).copy(), name=name, dims=dims, attrs={
                "long_name": long_name, "units": units, "kw": {"scale_factor": scale_factor, "add_offset": add_offset, "dtype": dtype}})

        def write(ds, path, **kw):
            gs = E.gens()
            if len(gs) != 1:
                raise Unsupported("images not written frame by frame")
            calls[0] += 1
            checked(g, gs[0].k, ds, path, names, divide, None, packed, scal, (a, b, tx, ty))
        m.get_glm_global_attrs, m.glm_image_to_var = attrs, image
        m.infer_scene_from_dataset = lambda x, y: (Label("scene"), Label("resolution"))
        xrmod.Dataset.to_netcdf = write
        try:
            out = env.fn(MOD, "write_goes_imagery")(g, outpath=Template(), pad=pad, scale_and_offset=packed)
        finally:
            del xrmod.Dataset.to_netcdf
        if not calls[0]:
            raise Unsupported("nothing written")
        out = seq.lift(out)
        if not isinstance(out, seq.Seq) or out.guard is not None:
            raise Unsupported("files listed otherwise")
        prove("one file per frame is listed", iraw(out.n) == nt)
        k = idx("kf", nt)
        named(g, k, out.at(k))
        prove("the gridder keeps its grids", len(g.outgrids) == len(g.grids) and all(x is y for x, y in zip(g.outgrids, g.grids)))
        for p, nm in enumerate(names):
            unchanged("the accumulated " + nm, g.grids[p])
    return f


DIV = {2: 0, 5: 3}
for padded in (None, "numbers", "negative"):
    for packed in (True, False):
        c.units.append(Unit(MOD + ".write_goes_imagery", "%s, %s" % ("padding " + padded if padded else "no padding",
                            "packed" if packed else "not packed"), unit(PRODUCTS, DIV, padded, packed)))
c.units.append(Unit(MOD + ".write_goes_imagery", "another order", unit(
    ["average_group_area", "minimum_flash_area", "group_extent_density"], {0: 2}, None, False)))


def pairs(env):
    n = length("n", 0)
    a = array("s", n)
    r = seq.lift(env.fn(MOD, "pairwise")(a))
    if not isinstance(r, seq.Seq) or r.guard is not None:
        if isinstance(r, list):
            prove("no pairs of fewer than two", z3.Implies(z3.BoolVal(len(r) == 0), n <= 1))
            return
        raise Unsupported("pairs of another form")
    prove("as many pairs as steps", iraw(r.n) == z3.If(n > 0, n - 1, 0))
    k = idx("k", r.n)
    v = r.at(k)
    if not isinstance(v, tuple) or len(v) != 2:
        raise Unsupported("pairs of another form")
    prove("each element with the next", z3.And(raw(v[0]) == a.sym(k), raw(v[1]) == a.sym(k + 1)))


c.units.append(Unit(MOD + ".pairwise", "any sequence", pairs))
