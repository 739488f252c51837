"""Product wiring: each named grid changes by its own quantity in the frame addressed, and no other grid does."""
from ..api import *

c = Contract("G01")
MOD = "glmtools.grid.make_grids"
c.assume("real arithmetic in place of IEEE single precision",
         "lmatools (not installed here) by contract: a framer gives target k the records whose time column lies in "
         "frame k; the point counter adds the number of points in each cell to the grid it was given",
         "the frames are represented by two arbitrary different ones, in the order of the loop over frames; one batch "
         "from arbitrary grid contents (the stages keep nothing between batches: A02)",
         "a batch addresses each cell at most once, with indices inside the grid (A01); areas are not negative")

NAMES = ("flash_extent_density", "flash_centroid_density", "average_flash_area", "total_energy", "group_extent_density",
         "group_centroid_density", "average_group_area", "minimum_flash_area")
DESCR = {"flash_extent_density": ["flash", "extent"], "flash_centroid_density": ["flash", "centroid"],
         "average_flash_area": ["average", "flash", "area"], "total_energy": ["total", "energy"],
         "group_extent_density": ["group", "extent"], "group_centroid_density": ["group", "centroid"],
         "average_group_area": ["average", "group", "area"], "minimum_flash_area": ["minimum", "flash", "area"]}
UNIT = {"average_flash_area": "km^2 per flash", "average_group_area": "km^2 per group", "minimum_flash_area": "km^2",
        "total_energy": "nJ"}
EVCOLS = ("power", "mesh_frac", "lutevent_count", "lutevent_flash_count", "lutevent_group_count",
          "lutevent_total_flash_area", "lutevent_total_group_area", "lutevent_min_flash_area")
FLCOLS = ("area", "total_energy", "ctr_x", "ctr_y", "ctr_z", "duration", "init_lon", "init_lat", "init_alt", "ctr_lon",
          "ctr_lat", "ctr_alt")
FILLS = {"flash": {"flash_extent_density": "lutevent_flash_count", "average_flash_area": "lutevent_total_flash_area",
                   "minimum_flash_area": "lutevent_min_flash_area", "flash_centroid_density": "points"},
         "group": {"group_extent_density": "lutevent_group_count", "average_group_area": "lutevent_total_group_area",
                   "group_centroid_density": "points"},
         "event": {"total_energy": "power"}}


def alike(name, a, b):
    a, b = A(a), A(b)
    same_array(name, a, b.elem, b.shape)


class World:
    pass


class Frames:
    """lmatools flashes_to_frames"""
    def __init__(self, time_edges, targets, time_key="start", do_events=False, time_edges_datetime=None, flash_counter=None):
        self.time_edges, self.targets, self.time_key, self.do_events = time_edges, targets, time_key, do_events


class NoProjection:
    def __init__(self, x_coord, y_coord, z_coord, target, use_flashes=False):
        self.k, self.target, self.fl = (x_coord, y_coord, z_coord), target, use_flashes

    def send(self, stuff):
        ev, fl = stuff
        p = fl if self.fl else ev
        self.target.send((ev, fl) + tuple(p[k] for k in self.k))


class PointDensity:
    def __init__(self, target, weight_key=None, weight_flashes=True):
        self.target, self.key, self.fl = target, weight_key, weight_flashes

    def send(self, stuff):
        ev, fl, x, y, z = stuff
        self.target.send((x, y, None if self.key is None else (fl if self.fl else ev)[self.key]))


def counter(W):
    class Count:
        def __init__(self, grid, xedge, yedge, out=None, label="", grid_frac_weights=False):
            self.grid, self.xe, self.ye = grid, xedge, yedge

        def send(self, stuff):
            x, y, w = stuff
            alike("cells counted in have the grid's x edges", self.xe, W.xedge)
            alike("cells counted in have the grid's y edges", self.ye, W.yedge)
            alike("x of the points counted is that of the centroids", x, W.fl["ctr_x"])
            alike("y of the points counted is that of the centroids", y, W.fl["ctr_y"])
            if w is not None:
                p = idx("wp", W.m)
                prove("each centroid counts once", eq(A(w).elem(p), 1))
            self.grid[...] = A(self.grid).copy() + W.points
    return Count


class Density:
    def __init__(self, W):
        self.W = W
        self.flashes_to_frames, self.no_projection, self.point_density = Frames, NoProjection, PointDensity
        self.accumulate_points_on_grid = counter(W)
        self.flash_count_log = lambda *a, **k: None

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return loader.Stub("lmatools.grid.density_to_files." + a)


def gridder(env, cls, proj="geos"):
    W = World()
    W.nx, W.ny, W.nt = length("nx"), length("ny"), length("nt")
    E.assume(z3.And(raw(W.nx) >= 1, raw(W.ny) >= 1, raw(W.nt) >= 1))
    W.xedge, W.yedge, W.zedge = array("xedge", W.nx + 1), array("yedge", W.ny + 1), array("zedge", 2)
    W.fi, W.fj = idx("fi", W.nt), idx("fj", W.nt)
    E.assume(raw(W.fi) != raw(W.fj))
    W.t_edges = array("t_edges", W.nt + 1)
    d = z3.Function("points", z3.IntSort(), z3.IntSort(), z3.RealSort())
    W.points = arr.Arr((W.nx, W.ny), lambda a, b: mk(d(iraw(a), iraw(b))), arr.F8)
    env.override(lmatools__grid__density_to_files=Density(W))
    W.loops = 0

    def frames(*a):
        if len(a) == 1 and not isinstance(unS(a[0]), int) and E.valid(iraw(unS(a[0])) == iraw(W.nt)):
            return [mk(iraw(W.fi)), mk(iraw(W.fj))]
        return seq.b_range(*a)
    env.mod(MOD).range = frames
    g = object.__new__(env.fn(MOD, cls))
    g.event_grid_area_fraction_key, g.energy_grids = "mesh_frac", ("total_energy",)
    g.n_frames, g.t_edges_seconds, g.t_edges = W.nt, W.t_edges, W.t_edges
    g.xedge, g.yedge, g.zedge = W.xedge, W.yedge, W.zedge
    g.dx, g.dy, g.dz, g.frame_interval = 56e-6, 56e-6, 1.0, 60.0
    g.spatial_scale_factor, g.proj_name, g.flash_count_logfile = 1e-3, proj, None
    g.mapProj, g.geoProj = loader.Stub("map projection"), loader.Stub("geographic coordinates")
    return W, g


def records(W):
    """one batch of events and of their parents"""
    n, m = length("nev"), length("nfl")
    W.n, W.m = n, m
    ev = {k: array("ev_" + k, n) for k in EVCOLS}
    ev["time"] = array("ev_time", n)
    xi, yi = ev["mesh_xi"], ev["mesh_yi"] = array("xi", n, sort="Int"), array("yi", n, sort="Int")
    p, q = z3.Ints("bp! bq!")
    X, Y, N = xi.sym, yi.sym, iraw(n)
    E.axioms.append(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < N), z3.And(X(p) >= 0, X(p) < iraw(W.ny))), patterns=[X(p)]))
    E.axioms.append(z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < N), z3.And(Y(p) >= 0, Y(p) < iraw(W.nx))), patterns=[Y(p)]))
    E.axioms.append(z3.ForAll([p, q], z3.Implies(z3.And(p >= 0, p < q, q < N), z3.Or(X(p) != X(q), Y(p) != Y(q))),
                              patterns=[z3.MultiPattern(X(p), X(q))]))
    v = ev["lutevent_min_flash_area"].sym
    E.axioms.append(z3.ForAll([p], v(p) >= 0, patterns=[v(p)]))
    W.ev = arr.RecArr((n,), ev, arr.RecDT([(k, "<i8" if k.startswith("mesh_") and k != "mesh_frac" else "<f8") for k in ev]))
    fl = {k: array("fl_" + k, m) for k in FLCOLS}
    fl["start"] = array("fl_start", m)
    W.fl = arr.RecArr((m,), fl, arr.RecDT([(k, "<f8") for k in fl]))


def products(g):
    for nm in ("field_names", "outgrids"):
        if not isinstance(getattr(g, nm), (tuple, list)):
            raise Unsupported("%s is not a list" % nm)
    prove("every grid has a name of its own", len(g.outgrids) == len(g.field_names) == len(set(g.field_names)))
    prove("the products are those promised", sorted(g.field_names) == sorted(NAMES))
    return dict(zip(g.field_names, g.outgrids))


def stream(level, pos):
    def f(env):
        W, g = gridder(env, "GLMlutGridder")
        g.pipeline_setup()
        g.output_setup()
        P = products(g)
        records(W)
        parents = W.ev if level == "event" else W.fl
        fr = g.framer[level]
        if not isinstance(fr, Frames) or len(fr.targets) != 2:
            raise Unsupported("frames not represented by the loop over them")
        alike("frames are bounded by the gridder's time edges", fr.time_edges, W.t_edges)
        alike("%s records are put in frames by their time" % level, parents[fr.time_key],
                   parents["time" if level == "event" else "start"])
        prove("event records are put in frames", bool(fr.do_events))
        if fr.do_events:
            alike("event records are put in frames by their time", W.ev[fr.do_events], W.ev["time"])
        x, y, t = idx("x", W.nx), idx("y", W.ny), idx("t", W.nt)
        before = {}
        for nm in NAMES:
            prove("%s starts at zero" % nm, eq(A(P[nm]).elem(x, y, t), 0))
        for nm in NAMES:
            b = before[nm] = array("before_" + nm, W.nx, W.ny, W.nt)
            if nm == "minimum_flash_area":
                u = z3.Ints("gu! gv! gw!")
                E.axioms.append(z3.ForAll(u, b.sym(*u) >= 0, patterns=[b.sym(*u)]))
            P[nm][...] = b
        fr.targets[pos].send((W.ev, parents))
        k = (W.fi, W.fj)[pos]
        p = idx("p", W.n)
        X, Y = W.ev["mesh_xi"].sym, W.ev["mesh_yi"].sym
        j = z3.Int("aj!")
        none = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < iraw(W.n)), z3.Or(X(j) != raw(y), Y(j) != raw(x))), patterns=[X(j)])
        here = z3.And(X(raw(p)) == raw(y), Y(raw(p)) == raw(x))
        hints = [X(raw(p)), Y(raw(p))]
        for nm in NAMES:
            g0, g1 = before[nm].frozen.elem(x, y, t), A(P[nm]).elem(x, y, t)
            col = FILLS[level].get(nm)
            if col is None:
                prove("%s is left alone by the %s stream" % (nm, level), eq(g1, g0))
                continue
            prove("%s: other frames are unchanged" % nm, z3.Implies(raw(t) != raw(k), raw(g1) == raw(g0)))
            if col == "points":
                add = W.points.elem(x, y)
                empty = iraw(W.m) == 0
                prove("%s counts the centroids in its own frame" % nm,
                      z3.Implies(z3.And(raw(t) == raw(k), z3.Not(empty)), raw(g1) == raw(g0 + add)))
                continue
            v = W.ev[col].elem(p)
            want = g0 + v
            if nm == "minimum_flash_area":
                want = ite(raw(g0 == 0), v, ite(raw(c_or(g0 < v, v <= 0)), g0, v))
            h = hints + [x_[2](raw(p)) for x_ in E.ghost.get("compress", {}).values()]
            prove("%s takes in %s at the addressed cell" % (nm, col),
                  z3.Implies(z3.And(here, raw(t) == raw(k)), raw(g1) == raw(want)), hints=h)
            prove("%s: cells not addressed are unchanged" % nm, z3.Implies(none, raw(g1) == raw(g0)))
    return f


for level in ("flash", "group", "event"):
    for pos in (0, 1):
        c.units.append(Unit(MOD + ".GLMlutGridder.%s_pipeline_setup" % level, "%s records in one of two frames (%d)" % (level, pos + 1),
                            stream(level, pos)))


def labels(cls, proj):
    def f(env):
        W, g = gridder(env, cls, proj)
        g.output_setup()
        L = [g.field_names, g.field_descriptions, g.field_units, g.outformats, g.outfile_postfixes]
        prove("names, descriptions, units, types and file names go together", len(set(map(len, L))) == 1)
        prove("the products are those promised", sorted(g.field_names) == sorted(NAMES))
        for nm, de, un in zip(g.field_names, g.field_descriptions, g.field_units):
            prove("%s is described as such" % nm, all(w in de.lower() for w in DESCR[nm]))
            prove("unit of %s" % nm, un == UNIT[nm] if nm in UNIT else un.startswith("Count per"))
        if cls == "GLMlutGridder":
            d = {g.field_names[a]: g.field_names[b] for a, b in g.divide_grids.items()}
            prove("summed areas are divided by the matching extent density", d == {
                "average_flash_area": "flash_extent_density", "average_group_area": "group_extent_density"})
    return f


for cls in ("GLMGridder", "GLMlutGridder"):
    for proj in ("latlong", "geos", "other"):
        c.units.append(Unit(MOD + "." + cls + ".output_setup", "labels, %s" % proj, labels(cls, proj)))
