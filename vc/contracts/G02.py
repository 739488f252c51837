"""Tiling: tiles abut, cover, span whole cells; padding and trimming agree; every tile gets the options asked for."""
from ..api import *

c = Contract("G02")
MOD = "glmtools.grid.make_grids"
c.assume("real arithmetic in place of IEEE double precision", "the grid spans a whole number of cells, at least one per tile")


def cells(name, lo=1):
    n = z3.Int(name)
    E.assume(n >= lo)
    return mk(n)


def axis(t, s):
    d, lo = real("d" + t), real("lo" + t)
    E.assume(raw(d) > 0)
    n = cells("n" + t)
    E.assume(raw(n) >= iraw(unS(s)))
    return d, lo, n, (lo, lo + n * d)


def whole(name, width, d, cand, least=1):
    """width is a whole number of steps d, at least `least`; cand are counts that may be the ones"""
    g = z3.Or(*[z3.And(raw(width) == z3.ToReal(raw(k)) * raw(d), raw(k) >= least) for k in cand])
    if not E.valid(g, 8000):
        m = z3.Int(E.name("m"))
        g = z3.Not(z3.ForAll([m], z3.Implies(m >= least, raw(width) != z3.ToReal(m) * raw(d))))
    prove(name, g)


@c.unit(MOD + ".subdivide_bnd", "tiles")
def subdivide(env):
    s = cells("s")
    d, lo, n, bnd = axis("", s)
    e = A(env.fn(MOD, "subdivide_bnd")(bnd, d, s=s))
    check_edges(e, d, lo, n, s)


def check_edges(e, d, lo, n, s):
    prove("one more edge than tiles", core.i_eq(e.shape[0], raw(s) + 1))
    prove("the first edge is the lower bound", eq(e.elem(0), lo))
    prove("the last edge is the upper bound", eq(e.elem(raw(s)), lo + n * d))
    k = idx("k", raw(s))
    dn = raw(n) / raw(s)
    helper(dn * raw(s) <= raw(n))
    helper(dn >= 1)
    w = e.elem(k + 1) - e.elem(k)
    helper(z3.Implies(k < raw(s) - 1, raw(w) == z3.ToReal(dn) * raw(d)))
    last = raw(n) - (raw(s) - 1) * dn
    helper(z3.Implies(k == raw(s) - 1, raw(w) == z3.ToReal(last) * raw(d)))
    helper(last >= dn)
    whole("tile k spans a whole number of cells, at least one", w, d, [mk(dn), mk(last)])


# ---- the tiles
class TwoTiles(seq.ItertoolsModel):
    """the product of the tile numbers, represented by two arbitrary pairs in a row"""
    @staticmethod
    def product(*its, repeat=1):
        xs = [seq.lift(i) for i in its] * repeat
        if len(xs) != 2 or not all(isinstance(x, Seq) for x in xs):
            return seq.ItertoolsModel.product(*its, repeat=repeat)
        out = []
        for t in "ab":
            i, j = z3.Int("i" + t), z3.Int("j" + t)
            E.assume(z3.And(i >= 0, i < iraw(xs[0].n), j >= 0, j < iraw(xs[1].n)))
            out.append((xs[0].at(i), xs[1].at(j)))
        return out


class Coordsys:
    @staticmethod
    def get_GOESR_coordsys(**k):
        return object(), object()


def prepared(env):
    env.override(lmatools__grid__fixed=Coordsys, itertools=TwoTiles())


def options(s, deep=False):
    X, Y = axis("x", s), axis("y", s)
    opts = {"scale_and_offset": boolean("scale_and_offset")}
    kw = {"dx": X[0], "dy": Y[0], "x_bnd": X[3], "y_bnd": Y[3], "frame_interval": real("frame_interval"), "do_3d": False}
    pk = {"nadir_lon": real("nadir_lon"), "min_points_per_flash": integer("mpf"), "lon_bnd": (real("l0"), real("l1")),
          "clip_events": True, "fixed_grid": True}
    ok = {"output_filename_prefix": "GLM", "output_writer": object(), "outpath": "out/{start_time:%H}", "output_kwargs": opts}
    return X, Y, kw, pk, ok


def keep(d):
    return {k: (dict(v) if isinstance(v, dict) else v) for k, v in d.items()}


def same_dict(name, d, e, but=()):
    prove(name + ": names", set(d) == set(e))
    for k in e:
        if k in but or k not in d:
            continue
        if isinstance(e[k], dict):
            same_dict(name + "." + k, d[k], e[k])
        elif isinstance(e[k], tuple):
            prove(name + "." + k, all(x is y for x, y in zip(d[k], e[k])) if isinstance(d[k], tuple) else False)
        else:
            prove(name + "." + k, True if d[k] is e[k] else eq(d[k], e[k]))


def same_bounds(name, a, b):
    a, b = A(a), A(b)
    prove(name + ": two bounds", core.i_eq(a.shape[0], 2))
    for q in range(2):
        prove(name + ": bound %d" % q, eq(a.elem(q), b.elem(q)))


def tiles(s0):
    def f(env):
        prepared(env)
        s = cells("s") if s0 is None else s0
        X, Y, kw, pk, ok = options(s)
        k0, p0, o0 = keep(kw), keep(pk), keep(ok)
        xp, yp = real("x_pad"), real("y_pad")
        E.assume(z3.And(raw(xp) >= 0, raw(yp) >= 0))
        sub = env.fn(MOD, "subdivide_bnd")
        ex, ey = A(sub(X[3], X[0], s=s)), A(sub(Y[3], Y[0], s=s))
        got = []
        for t in env.fn(MOD, "subdivided_fixed_grid")(kw, pk, ok, s=s, x_pad=xp, y_pad=yp):
            got.append(t)
        if s0 is not None:
            prove("the tiles", [t[0] for t in got] == [(i, j) for i in range(s) for j in range(s)])
            names = [t[3]["output_filename_prefix"] for t in got]
            prove("tile names differ", len(set(names)) == len(names) and all(n.startswith("GLM") for n in names))
        for (i, j), k, p, o, pads in got:
            nx, ny, xw, yw = pads
            T = "tile %s " % ("" if s0 is None else (i, j),)
            for ax, cnt, w, st, req, e, q in (("x", nx, xw, X[0], xp, ex, i), ("y", ny, yw, Y[0], yp, ey, j)):
                prove(T + ax + " padding is not negative", raw(cnt) >= 0)
                prove(T + ax + " padding is a whole number of cells", eq(w, cnt * st))
                for nm, d in (("grid", k), ("selection", p)):
                    b = A(d[ax + "_bnd"])
                    prove(T + ax + " bounds of the " + nm + ": two of them", core.i_eq(b.shape[0], 2))
                    prove(T + ax + " lower bound of the " + nm, eq(b.elem(0), e.elem(unS(q)) - w))
                    prove(T + ax + " upper bound of the " + nm, eq(b.elem(1), e.elem(unS(q) + 1) + w))
                prove(T + ax + " padding is the same for every tile", eq(cnt, got[0][4][0 if ax == "x" else 1]))
            same_dict(T + "grid options", k, k0, ("x_bnd", "y_bnd"))
            same_dict(T + "selection options", p, dict(p0, x_bnd=0, y_bnd=0, lon_bnd=0, lat_bnd=0),
                      ("x_bnd", "y_bnd", "lon_bnd", "lat_bnd"))
            prove(T + "is not selected by longitude and latitude", p["lon_bnd"] is None and p["lat_bnd"] is None)
            same_dict(T + "output options", {a: v for a, v in o.items() if a != "preprocess_out"}, o0,
                      ("output_filename_prefix", "output_writer"))
            pre = o["preprocess_out"]
            prove(T + "writes through its own trimming", o["output_writer"].__self__ is pre and pre.writer is o0["output_writer"])
            prove(T + "trims its own padding", all(a is b for a, b in zip(pre.pads, pads)))
        prove("every tile has its own options and trimming",
              len({id(t[3]) for t in got}) == len(got) == len({id(t[3]["preprocess_out"]) for t in got}))
        same_dict("the caller's grid options", kw, k0)
        same_dict("the caller's selection options", pk, p0)
        same_dict("the caller's output options", ok, o0)
    return f


for s0 in (None, 1, 2, 3):
    c.units.append(Unit(MOD + ".subdivided_fixed_grid", "any number of tiles" if s0 is None else "%d x %d tiles" % (s0, s0), tiles(s0)))


# ---- trimming
def trimming(env):
    P = env.fn(MOD, "GridOutputPreprocess")
    px, py = cells("px", 0), cells("py", 0)
    nx, ny = length("nx", 1), length("ny", 1)
    got = []
    p = P(pads=(px, py, real("wx"), real("wy")), writer=lambda *a, **k: got.append((a, k)))
    W, H = 2 * raw(px) + nx, 2 * raw(py) + ny
    sent = []
    for q in range(2):
        a = ["file%d" % q, object(), object(), array("x%d" % q, W), array("y%d" % q, H), object(), object(), object(), object(),
             array("g%d" % q, W, H), object(), object()]
        sent.append(a)
        p.capture_write_call(*a, extra=q)
    prove("nothing is written yet", got == [])
    files = p.write_all()
    prove("the files", list(files) == ["file0", "file1"])
    prove("every grid is written once, in order", [g[0][0] for g in got] == ["file0", "file1"])
    for q, ((a, k), s) in enumerate(zip(got, sent)):
        B = "grid %d: " % q
        prove(B + "number of arguments", len(a) == len(s) and k == {"extra": q})
        for r in range(len(s)):
            if r == 3:
                same_array(B + "x coordinate", a[r], lambda i, s=s: s[3].frozen.elem(i + raw(px)), (nx,))
            elif r == 4:
                same_array(B + "y coordinate", a[r], lambda i, s=s: s[4].frozen.elem(i + raw(py)), (ny,))
            elif r == 9:
                same_array(B + "values", a[r], lambda i, j, s=s: s[9].frozen.elem(i + raw(px), j + raw(py)), (nx, ny))
            else:
                prove(B + "argument %d" % r, a[r] is s[r])


c.units.append(Unit(MOD + ".GridOutputPreprocess", "trims exactly the padding", trimming))


# ---- options reach the writer
class Recorder:
    """a gridder that records how it is made and used"""
    log = []

    def __init__(self, start, end, **kw):
        self.made = (start, end, kw)
        self.xedge, self.yedge = array("xedge", length("ex", 2)), array("yedge", length("ey", 2))
        self.flashes, self.written = [], []
        Recorder.log.append(self)

    def process_flashes(self, glm, **k):
        self.flashes.append((glm, k))

    def write_grids(self, **k):
        self.written.append(k)
        return ["out"]


class File:
    def __init__(self, nm, **k):
        self.nm, self.k = nm, k
        self.closed = self.loaded = False
        self.attrs = {"from": nm}
        self.dataset = self
        self.n = length("events in " + nm)
        self.number_of_events = array("number_of_events of " + nm, self.n, sort="Int")

    def load(self):
        self.loaded = True

    def close(self):
        self.closed = True


def proc(clip, rev):
    def f(env):
        prepared(env)
        m = env.mod(MOD)
        Recorder.log = []
        for nm in ("GLMlutGridder", "GLMGridder", "GLMDataset", "QuadMeshSubset"):
            env.fn(MOD, nm)
        kinds = {}
        for nm in ("GLMlutGridder", "GLMGridder"):
            kinds[nm] = type(nm, (Recorder,), {})
            setattr(m, nm, kinds[nm])
        meshes = []

        class Mesh:
            def __init__(self, *a, **k):
                meshes.append(self)
        m.QuadMeshSubset = Mesh
        opened = []

        def ds(nm, **k):
            opened.append(File(nm, **k))
            return opened[-1]
        m.GLMDataset = ds
        X, Y, kw, pk, ok = options(1)
        if rev:
            pk["ellipse_rev"] = integer("rev")
        if not clip:
            del pk["clip_events"]
        k0, p0, o0 = keep(kw), keep(pk), keep(ok)
        xp, yp = real("x_pad"), real("y_pad")
        E.assume(z3.And(raw(xp) >= 0, raw(yp) >= 0))
        T = list(env.fn(MOD, "subdivided_fixed_grid")(kw, pk, ok, s=2, x_pad=xp, y_pad=yp))
        start, end = object(), object()
        for n, t in enumerate(T[:2]):
            (i, j), k, p, o, pads = t
            k1, p1, o1 = keep(k), keep(p), keep(o)
            sl = o["preprocess_out"].get_pad_slices()
            opened.clear()
            r = env.fn(MOD, "proc_each_grid")(t, start_time=start, end_time=end, GLM_filenames=["a.nc", "b.nc"])
            B = "tile %s: " % ((i, j),)
            prove(B + "is named in the result", r[0] == (i, j))
            g = Recorder.log[-1]
            prove(B + "has a gridder of its own", len(Recorder.log) == n + 1)
            prove(B + "the kind of gridder", type(g) is kinds["GLMlutGridder" if clip else "GLMGridder"])
            prove(B + "start and end", g.made[0] is start and g.made[1] is end)
            same_dict(B + "grid options", g.made[2], k1, ("x_bnd", "y_bnd"))
            for ax in ("x_bnd", "y_bnd"):
                same_bounds(B + ax, g.made[2][ax], k1[ax])
            prove(B + "every file is opened once", [q.nm for q in opened] == ["a.nc", "b.nc"])
            for q in opened:
                if rev:
                    prove(B + "ellipsoid revision asked for, " + q.nm, eq(q.k["ellipse_rev"], p0["ellipse_rev"]))
                else:
                    prove(B + "ellipsoid revision from the date, " + q.nm, q.k.get("ellipse_rev", -1) == -1)
                used = [u for u in g.flashes if u[0] is q]
                if len(used) > 1:
                    prove(B + "used once", False)
                if used:
                    want = {a: b for a, b in p1.items() if a != "ellipse_rev"}
                    same_dict(B + "selection options", used[0][1], want, ("clip_events", "x_bnd", "y_bnd"))
                    for ax in ("x_bnd", "y_bnd"):
                        same_bounds(B + "selection " + ax, used[0][1][ax], p1[ax])
                    if clip:
                        prove(B + "clips to the mesh of its own grid", len(meshes) == n + 1 and used[0][1]["clip_events"] is meshes[-1])
                else:
                    prove(B + "only files without events are skipped", q.n == 0)
            prove(B + "is written once", len(g.written) == 1)
            w = g.written[0]
            prove(B + "output path", w["outpath"] == o0["outpath"])
            wk = w["output_kwargs"]
            same_dict(B + "output options", {a: b for a, b in wk.items() if a != "pad"}, o0["output_kwargs"])
            for d in range(2):
                for a in ("start", "stop", "step"):
                    u, v = getattr(wk["pad"][d], a), getattr(sl[d], a)
                    prove(B + "padding trimmed, axis %d %s" % (d, a), u is None and v is None if u is None or v is None else eq(u, v))
        same_dict("the caller's output options", ok, o0)
        same_dict("the caller's grid options", kw, k0)
    return f


for clip in (True, False):
    for rev in (True, False):
        c.units.append(Unit(MOD + ".proc_each_grid", "%s, ellipsoid %s" % ("clipping" if clip else "no clipping", "named" if rev else "by date"),
                            proc(clip, rev)))


def written(given):
    def f(env):
        calls = []

        def record(gridder, **k):
            calls.append((gridder, k))
            return ["file"]
        env.override()
        env.fn("glmtools.io.imagery", "write_goes_imagery")
        env.mod("glmtools.io.imagery").write_goes_imagery = record
        cls = env.fn(MOD, "GLMlutGridder")
        g = object.__new__(cls)
        opts = {}
        if "scale" in given:
            opts["scale_and_offset"] = boolean("scale_and_offset")
        if "pad" in given:
            opts["pad"] = (slice(None), slice(None))
        o0 = dict(opts)
        kw = {"outpath": "somewhere"} if "path" in given else {}
        if opts or "empty" in given:
            kw["output_kwargs"] = opts
        r = g.write_grids(output_writer=object(), output_filename_prefix="GLM", **kw)
        if len(calls) != 1:
            raise Unsupported("images are not written by one call of write_goes_imagery")
        w, k = calls[0]
        prove("the gridder itself is written", w is g)
        prove("the files written are returned", list(r) == ["file"])
        if "path" in given:
            prove("output path", k["outpath"] == "somewhere")
        prove("padding", k.get("pad") is opts.get("pad"))
        if "scale" in given:
            prove("packing as asked for", eq(k["scale_and_offset"], o0["scale_and_offset"]))
        else:
            prove("packing unless refused", k.get("scale_and_offset", True) is True)
        same_dict("the caller's options", opts, o0, ("pad",))
    return f


for given in (("path", "scale", "pad"), ("scale",), ("pad",), ("path", "empty"), ()):
    c.units.append(Unit(MOD + ".GLMlutGridder.write_grids", "given %s" % (", ".join(given) or "nothing"), written(given)))


def entry(kind, sub):
    """grid_GLM_flashes hands each tile its options; proc_each_grid by its contract above"""
    def f(env):
        prepared(env)
        m = env.mod(MOD)
        env.fn(MOD, "proc_each_grid")
        done = []

        def each(subgrid, start_time=None, end_time=None, GLM_filenames=None):
            done.append((subgrid, start_time, end_time, GLM_filenames))
            return subgrid[0], []
        m.proc_each_grid = each
        n = sub or 1
        X, Y, kw, pk, ok = options(n)
        for k in ("lon_bnd",):
            pk.pop(k)
        if kind != "fixed":
            pk.pop("fixed_grid")
        pk["min_groups_per_flash"], pk["corner_pickle"], pk["ellipse_rev"] = integer("mgf"), object(), integer("rev")
        opts = ok["output_kwargs"]
        o0 = dict(opts)
        kw.pop("do_3d")
        kw["proj_name"] = {"fixed": "geos", "latlong": "latlong", "other": "aeqd"}[kind]
        a = dict(kw, **pk)
        a.update(ok)
        if sub:
            a["subdivide"] = sub
        start, end, files = object(), object(), ["a.nc"]
        env.fn(MOD, "grid_GLM_flashes")(files, start, end, **a)
        want = [(i, j) for i in range(n) for j in range(n)] if kind == "fixed" else [(0, 0)]
        prove("every tile is processed once", sorted(d[0][0] for d in done) == want)
        for d in done:
            (ij, k, p, o, pads), s_, e_, f_ = d
            B = "tile %s: " % (ij,)
            prove(B + "start, end and files", s_ is start and e_ is end and f_ is files)
            for q in pk:
                prove(B + "selection option " + q, p.get(q) is pk[q])
            prove(B + "no other selection options", set(p) - set(pk) <= {"lon_bnd", "lat_bnd", "x_bnd", "y_bnd"})
            for q in kw:
                if q not in ("x_bnd", "y_bnd"):
                    prove(B + "grid option " + q, k.get(q) is kw[q])
            prove(B + "pieces are weighted by their share of the cell", k.get("event_grid_area_fraction_key") == "mesh_frac")
            prove(B + "no three-dimensional grids", k.get("do_3d") is False)
            prove(B + "grid options are not mixed with others", not (set(k) & (set(pk) | set(ok))))
            prove(B + "output path", o.get("outpath") == ok["outpath"])
            same_dict(B + "output options", o["output_kwargs"], o0)
            if kind != "fixed":
                prove(B + "is not padded", pads[0] == 0 and pads[1] == 0)
                for ax, b in (("x_bnd", X[3]), ("y_bnd", Y[3])):
                    same_bounds(B + ax, k[ax], b)
                if kind == "latlong":
                    limits = p.get("lon_bnd"), p.get("lat_bnd")
                    prove(B + "longitude and latitude limits", None not in limits)
                    if None not in limits:
                        same_bounds(B + "longitudes", limits[0], X[3])
                        same_bounds(B + "latitudes", limits[1], Y[3])
                else:
                    prove(B + "no longitude or latitude limits", p.get("lon_bnd") is None and p.get("lat_bnd") is None)
        same_dict("the caller's output options", opts, o0)
    return f


for kind, sub in (("fixed", None), ("fixed", 1), ("fixed", 2), ("fixed", 3), ("latlong", None), ("other", None)):
    c.units.append(Unit(MOD + ".grid_GLM_flashes", "%s, %s" % (kind, "subdivided %d" % sub if sub else "not subdivided"), entry(kind, sub)))


def reading(given):
    """the selection asked for is what is read; read_flashes by R01's contract"""
    def f(env):
        prepared(env)
        m = env.mod(MOD)
        env.fn(MOD, "read_flashes")
        calls = []
        m.read_flashes = lambda glm, target, **k: calls.append((glm, target, k))
        cls = env.fn(MOD, "GLMGridder")
        g = object.__new__(cls)
        g.framer, g.t_ref = {"flash": object(), "group": object(), "event": object()}, object()
        glm = object()
        pairs = [(real(q + "0"), real(q + "1")) for q in ("lon", "lat", "x", "y")]
        full = dict(zip(("lon_bnd", "lat_bnd", "x_bnd", "y_bnd"), pairs), min_points_per_flash=integer("mpf"),
                    min_groups_per_flash=integer("mgf"), clip_events=object(), fixed_grid=True, nadir_lon=real("nadir"))
        kw = {q: v for q, v in full.items() if q in given}
        g.process_flashes(glm, **kw)
        if len(calls) != 1:
            raise Unsupported("flashes are not read by one call of read_flashes")
        a, b, k = calls[0]
        prove("the data set asked for", a is glm)
        prove("records go to the gridder's own frames", b is g.framer)
        prove("times from the gridder's own reference", k.get("base_date") is g.t_ref)
        names = {"lon_bnd": "lon_range", "lat_bnd": "lat_range", "x_bnd": "x_range", "y_bnd": "y_range",
                 "min_points_per_flash": "min_events", "min_groups_per_flash": "min_groups", "nadir_lon": "nadir_lon"}
        for q, r in names.items():
            prove("%s as asked for" % q, k.get(r) is kw.get(q))
        if k.get("clip_events", True) is True:
            raise Unsupported("clipping left to the reader's default")
        prove("clipping as asked for", k["clip_events"] is kw["clip_events"] if "clip_events" in kw else not k["clip_events"])
        prove("fixed grid as asked for", k.get("fixed_grid", False) is kw.get("fixed_grid", False))
    return f


ALL = ("lon_bnd", "lat_bnd", "x_bnd", "y_bnd", "min_points_per_flash", "min_groups_per_flash", "clip_events", "fixed_grid", "nadir_lon")
for what, given in (("all options", ALL), ("no options", ()), ("limits only", ALL[:4]), ("clipping only", ALL[6:])):
    c.units.append(Unit(MOD + ".GLMGridder.process_flashes", what, reading(given)))
