"""Reading in chunks: every selected flash in one chunk, and records that carry each entity's own values row for row."""
from ..api import *
from .. import xrmod
from ..dtmod import datetime
from . import A01

c = Contract("R01")
MOD = "glmtools.io.mimic_lma"
US = lambda base: raw(base) * 1000
LEV = ("flash", "group", "event")
DIMS = {"flash": "number_of_flashes", "group": "number_of_groups", "event": "number_of_events"}
OWN = {"total_energy": "energy", "ctr_lon": "lon", "ctr_lat": "lat", "init_lon": "lon", "init_lat": "lat", "flash_id": "id"}
TIMES = {"flash": ("flash_time_offset_of_first_event", "flash_time_offset_of_last_event"),
         "group": ("group_time_offset", "group_time_offset"), "event": ("event_time_offset", "event_time_offset")}
PARENT = {"flash": "event_parent_flash_id", "group": "event_parent_group_id", "event": "event_id"}
c.assume("values over the reals, times in whole nanoseconds; the columns for ids and mesh indices are shown to hold four-byte unsigned ids and indices below 2**31",
         "any number of flashes, groups, events and pieces, in any order")


def dataset():
    n = {lev: length(lev + "s") for lev in LEV}
    v = {}
    for lev in LEV:
        d = (DIMS[lev],)
        for nm in ("energy", "lon", "lat", "x", "y") + (("area",) if lev != "event" else ()):
            v["%s_%s" % (lev, nm)] = (d, array("%s_%s" % (lev, nm), n[lev]))
        for nm in {lev + "_id", "number_of_%ss" % lev if lev != "flash" else "number_of_flashes"} | (
                {"event_parent_flash_id", "event_parent_group_id"} if lev == "event" else
                {"group_parent_flash_id"} if lev == "group" else set()):
            v[nm] = (d, A01.id_column(nm, n[lev]))
        for nm in set(TIMES[lev]):
            v[nm] = (d, array(nm, n[lev], sort="Int", dt=arr.M8))
    return n, xrmod.Dataset(v, attrs={"dataset_name": "a.nc"})


def split(lev):
    """pieces of entities of one level"""
    m = length("pieces_of_" + lev)
    p = "split_%s_" % lev
    v = {p + nm: array(p + nm, m) for nm in ("lon", "lat", "energy", "mesh_area_fraction")}
    for nm in ("mesh_x_idx", "mesh_y_idx", "parent_%s_id" % lev):
        v[p + nm] = A01.id_column(p + nm, m) if nm.endswith("_id") else array(p + nm, m, sort="Int")
    t = p + ("time_offset_of_first_event" if lev == "flash" else "time_offset")
    v[t] = array(t, m, sort="Int", dt=arr.M8)
    if lev == "flash":
        v[p + "time_offset_of_last_event"] = array(p + "time_offset_of_last_event", m, sort="Int", dt=arr.M8)
    return m, t, xrmod.Dataset({k: (("number_of_split_%s_children" % lev,), a) for k, a in v.items()})


def column(what, rec, nm, src, n, f=lambda v: v):
    a = src.frozen
    same_array("%s: %s" % (what, nm), rec[nm], lambda i: f(a.elem(i)), (n,))
    if nm == "flash_id" or nm.startswith("mesh_") and nm.endswith("i"):
        holds("%s: %s" % (what, nm), rec[nm], 0, 2 ** 32 if nm == "flash_id" else 2 ** 31)


def seconds(base):
    return lambda v: mk(z3.ToReal(raw(v) - US(base)) / 10 ** 9)


def parents_of(lev, rec, n, ds, base):
    prove("one parent record per " + lev, core.i_eq(rec.shape[0], n[lev]))
    cols = {k: "%s_%s" % (lev, v) for k, v in OWN.items()}
    if lev != "event":
        cols["area"] = lev + "_area"
    A01.entity_rows("parents of the %s stream" % lev, rec, n[lev], ds, cols, TIMES[lev][0], TIMES[lev][1], base)


def children_of(lev, rec, n, ds, base, pieces=None):
    what = "children of the %s stream" % lev
    if pieces is None:
        m, src = n["event"], {"flash_id": PARENT[lev], "lat": "event_lat", "lon": "event_lon", "power": "event_energy",
                              "time": "event_time_offset"}
        t = "event_time_offset"
    else:
        m, t, ds = pieces
        p = "split_%s_" % lev
        src = {"flash_id": p + "parent_%s_id" % lev, "lat": p + "lat", "lon": p + "lon", "power": p + "energy", "time": t,
               "mesh_frac": p + "mesh_area_fraction", "mesh_xi": p + "mesh_x_idx", "mesh_yi": p + "mesh_y_idx"}
    prove(what + ": one per " + ("event" if pieces is None else "piece"), core.i_eq(rec.shape[0], m))
    for nm, s in src.items():
        column(what, rec, nm, ds.vars[s].arr, m, seconds(base) if nm == "time" else
               (lambda v: abs(v)) if nm == "mesh_frac" else lambda v: v)


def one_level(lev, clipped):
    def f(env):
        n, ds = dataset()
        base = z3.Int("base_us")
        fn = env.fn(MOD, "_fake_lma_from_glm_" + {"flash": "flashes", "group": "groups", "event": "events"}[lev])
        sp = {k: split(k) for k in LEV} if clipped else {}
        kw = {"split_" + {"flash": "flashes", "group": "groups", "event": "events"}[k]: v[2] for k, v in sp.items()}
        ch, pa = fn(ds, datetime._of(base), **kw)
        if E.valid(iraw(n[lev]) <= 0):
            prove("nothing to deliver: no parent records", core.i_eq(pa.shape[0], 0))
            return
        parents_of(lev, pa, n, ds, base)
        children_of(lev, ch, n, ds, base, sp.get(lev))
    return f


for lev, nm in (("flash", "flashes"), ("group", "groups"), ("event", "events")):
    for cl in (False, True):
        c.units.append(Unit("%s._fake_lma_from_glm_%s" % (MOD, nm), "split" if cl else "not split", one_level(lev, cl)))


@c.unit(MOD + ".sec_since_basedate")
def since(env):
    n, base = length("n"), z3.Int("base_us")
    t = array("t", n, sort="Int", dt=arr.M8)
    same_array("seconds from the base date", env.fn(MOD, "sec_since_basedate")(t, datetime._of(base)),
               lambda i: seconds(base)(t.frozen.elem(i)), (n,))
    unchanged("the times", t)


def lut_parents(lev):
    def f(env):
        n, ds = dataset()
        base = z3.Int("base_us")
        rec = env.fn(MOD, "_fake_lma_from_glm_lut" + {"flash": "flashes", "group": "groups"}[lev])(ds, datetime._of(base))
        prove("one parent record per " + lev, core.i_eq(rec.shape[0], n[lev]))
        if E.valid(iraw(n[lev]) <= 0):
            return
        A01.entity_rows("parents of the %s stream" % lev, rec, n[lev], ds, A01.FLASH if lev == "flash" else A01.GROUP,
                        TIMES[lev][0], TIMES[lev][1], base)
    return f


for lev in ("flash", "group"):
    c.units.append(Unit("%s._fake_lma_from_glm_lut%s" % (MOD, {"flash": "flashes", "group": "groups"}[lev]), "rows", lut_parents(lev)))


def streams(r, n, ds, base, sp):
    prove("streams", set(r) == set(LEV))
    for lev in LEV:
        if E.valid(iraw(n[lev]) <= 0):
            prove("no parent records for the %s stream" % lev, core.i_eq(r[lev][1].shape[0], 0))
            continue
        parents_of(lev, r[lev][1], n, ds, base)
        children_of(lev, r[lev][0], n, ds, base, sp.get(lev))


def whole(clipped):
    def f(env):
        n, ds = dataset()
        base = z3.Int("base_us")
        sp = {k: split(k) for k in LEV} if clipped else {}
        kw = {"split_" + {"flash": "flashes", "group": "groups", "event": "events"}[k]: v[2] for k, v in sp.items()}
        streams(env.fn(MOD, "mimic_lma_dataset")(ds, datetime._of(base), **kw), n, ds, base, sp)
    return f


for cl in (False, True):
    c.units.append(Unit(MOD + ".mimic_lma_dataset", "split" if cl else "not split", whole(cl)))


class Sink:
    def __init__(self):
        self.got = []

    def send(self, x):
        self.got.append(x)


def chunk(sent):
    def f(env):
        n, ds = dataset()
        base = z3.Int("base_us")
        t = {lev: Sink() for lev in LEV}
        glm = Reader(ds, None)
        r = env.fn(MOD, "read_flash_chunk")(ds, glm=glm, target=t if sent else None, base_date=datetime._of(base),
                                            nadir_lon=Q(-75), fixed_grid=False, clip_events=False)
        if not sent:
            streams(r, n, ds, base, {})
            return
        if all(len(s.got) == 0 for s in t.values()):
            prove("only a chunk without events is held back", n["event"] == 0)
            return
        prove("every stream is sent the chunk once", all(len(s.got) == 1 for s in t.values()))
        streams({lev: s.got[0] for lev, s in t.items()}, n, ds, base, {})
    return f


class Token:
    """what a callee returned"""
    vc_scalar = True

    def __init__(self, what, **parts):
        self.what, self.parts = what, parts

    def subst(self, pairs):
        return Token(self.what, **{k: core.subst(v, pairs) if isinstance(v, (Token, Arr, S)) else v for k, v in self.parts.items()})


class Reader:
    """stands for GLMDataset: subset_flashes and get_flashes by their contracts (T05, T03)"""
    _filename = "a.nc"

    def __init__(self, ds, chosen):
        self.dataset, self.chosen, self.asked = ds, chosen, []

    def subset_flashes(self, **kw):
        self.asked.append(kw)
        return self.chosen

    def get_flashes(self, ids):
        return Token("flashes", ids=A(ids))


for sent in (False, True):
    c.units.append(Unit(MOD + ".read_flash_chunk", "sent" if sent else "returned", chunk(sent)))

NONE = {"lon_range": None, "lat_range": None, "x_range": None, "y_range": None, "min_events": None, "min_groups": None}


def reading(kw, clipped):
    def f(env):
        n, ds = dataset()
        m = length("selected")
        ids = array("selected_id", m, sort="Int")
        chosen = xrmod.Dataset({"flash_id": (("number_of_flashes",), ids),
                                "number_of_flashes": (("number_of_flashes",), array("selected_n", m, sort="Int"))})
        glm = Reader(ds, chosen)
        size = integer("chunk_size", 1)
        base = datetime._of(z3.Int("base_us"))
        mod = env.mod(MOD)
        name = "fast_fixed_grid_read_chunk" if clipped else "read_flash_chunk"
        if not callable(getattr(mod, name, None)):
            raise Unsupported("%s not found" % name)
        real_fn, given = getattr(mod, name), Token("target")
        mesh = Token("mesh") if clipped else False
        setattr(mod, name, lambda *a, **k: Token("records", args=a, data=a[0] if a else k.get("flash_data"), **k))
        try:
            r = mod.read_flashes(glm, given, base_date=base, chunk_size=size, clip_events=mesh, nadir_lon=Q(-75),
                                 corner_pickle="table", **kw)
        finally:
            setattr(mod, name, real_fn)
        use, k = (ids, m) if kw else (ds.vars["flash_id"].arr, n["flash"])
        if kw:
            prove("the bounds are passed on as given", len(glm.asked) >= 1 and all(
                {**NONE, **a} == {**NONE, **kw} for a in glm.asked))
        else:
            prove("without bounds nothing is left out", all({**NONE, **a} == NONE for a in glm.asked))
        if isinstance(r, list) and not (hasattr(r, "symbolic") and r.symbolic()):
            if len(r) == 0:
                prove("no chunk only if no flash is selected", k == 0)
                return
            raise Unsupported("a fixed number of chunks")
        s = r if isinstance(r, Seq) else r.as_seq()
        at = idx("chunk", s.n)
        one = s.at(at)
        if not isinstance(one, Token) or one.what != "records" or getattr(one.parts["data"], "what", "") != "flashes" or not E.ghost.get("splits"):
            raise Unsupported("chunks of another form")
        part = one.parts["data"].parts["ids"]
        off, cnt, tot = E.ghost["splits"][-1]
        z = lambda i: z3.simplify(i)
        if not E.valid(z3.And(iraw(cnt) == iraw(s.n), off(z3.IntVal(0)) == 0, off(iraw(s.n)) == k)):
            raise Unsupported("chunks of another form")
        # consecutive intervals from the first to the last flash: every position lies in exactly one
        prove("chunks follow one another", z3.And(off(at) >= 0, off(z(at + 1)) == off(at) + iraw(part.shape[0]), off(at) <= off(z(at + 1))))
        prove("the first chunk starts at the first flash and the last ends at the last", z3.And(off(z3.IntVal(0)) == 0, off(iraw(s.n)) == k))
        j = idx("in_chunk", part.shape[0])
        prove("a chunk holds the flashes of its interval", eq(part.elem(j), use.frozen.elem(z(off(at) + j))))
        if s.guard is not None:
            prove("a chunk that holds flashes is delivered", z3.Implies(iraw(part.shape[0]) > 0, raw(s.guard(at))))
        named = lambda v: v.what if isinstance(v, Token) else v
        for nm, v in [("target", given), ("base_date", base)] + ([("clip_events", mesh)] if clipped else []):
            if nm not in one.parts:
                raise Unsupported("%s handed on in another way" % nm)
            prove("chunk records are made with the given " + nm, eq(named(one.parts[nm]), named(v)))
        unchanged("flash ids", use)
    return f


BOUNDS = {"lon_range": (Q(-90), Q(-80)), "lat_range": (Q(1), Q(2)), "x_range": (Q(0), Q(1)), "y_range": (Q(3), Q(4)),
          "min_events": 2, "min_groups": 3}
for nm, kw in [("all flashes", {}), ("all bounds", BOUNDS)] + [("only " + k, {k: v}) for k, v in BOUNDS.items()]:
    for cl in (False, True):
        c.units.append(Unit(MOD + ".read_flashes", "%s, %s" % (nm, "split" if cl else "not split"), reading(kw, cl)))

STEPS = ("get_lutevents", "load_pixel_corner_lookup", "quads_from_corner_lookup", "QuadMeshPolySlicer", "split_event_data",
         "split_event_dataset_from_props", "replicate_and_weight_split_child_dataset_new", "mimic_lma_dataset_lut")


class Step:
    """a callee replaced by its contract: remembers what it was given, by parameter name"""
    def __init__(self, real_fn, give):
        import inspect
        self.sig = inspect.signature(real_fn if inspect.isfunction(real_fn) else real_fn.__init__)
        self.meth, self.give, self.calls = not inspect.isfunction(real_fn), give, []

    def __call__(self, *a, **k):
        b = self.sig.bind(*(((None,) if self.meth else ()) + a), **k)
        b.apply_defaults()
        self.calls.append(dict(b.arguments))
        return self.give(dict(b.arguments))

    def only(self):
        if len(self.calls) != 1:
            raise Unsupported("another composition of the steps")
        return self.calls[0]


def composed(sent):
    def f(env):
        mod = env.mod(MOD)
        if not all(callable(getattr(mod, s, None)) for s in STEPS):
            raise Unsupported("another composition of the steps")
        n, m = length("lutevents", 1), length("pieces")
        a, b = length("tablerows", 1), length("tablecols", 1)
        ids, x, y = array("lutevent_id", n, sort="Int"), array("lutevent_x", n), array("lutevent_y", n)
        D = xrmod.Dataset({"lutevent_x": (("lutevent_id",), x), "lutevent_y": (("lutevent_id",), y)},
                          coords={"lutevent_id": (("lutevent_id",), ids)}, attrs={"dataset_name": "a.nc"})
        tab = array("table_x", a, b), array("table_y", a, b), array("table_corners", a, b, 4, 2)
        quads = array("quads", n, 4, 2)
        chopped, areas, polys, props = (Token(k) for k in ("chopped", "areas", "polys", "props"))
        sp = xrmod.Dataset({k: (("number_of_split_event_children",), array(k, m)) for k in ("split_event_x", "split_event_y")})
        sp2 = xrmod.Dataset({"split_event_x": (("number_of_split_event_children",), array("x2", m))})
        chunk_, mesh, base = Token("chunk"), Token("mesh"), datetime._of(z3.Int("base_us"))
        slices = []

        class Slicer:
            def __init__(self, mesh):
                self.mesh = mesh

            def slice(self, p, bbox=False):
                slices.append((p, bbox))
                return chopped, areas
        k_ = length("records")
        rec = {lev: ({"r": 1} and arr.RecDT([("power", "<f4")]).make((k_,)), Token(lev + " parents")) for lev in LEV}
        st = {}
        give = {"get_lutevents": lambda p: D, "load_pixel_corner_lookup": lambda p: tab, "quads_from_corner_lookup": lambda p: quads,
                "QuadMeshPolySlicer": lambda p: Slicer(list(p.values())[1]), "split_event_data": lambda p: (polys, props),
                "split_event_dataset_from_props": lambda p: sp, "replicate_and_weight_split_child_dataset_new": lambda p: sp2,
                "mimic_lma_dataset_lut": lambda p: dict(rec)}
        old = {s: getattr(mod, s) for s in STEPS}
        t = {lev: Sink() for lev in LEV}
        try:
            for s in STEPS:
                st[s] = Step(old[s], give[s])
                setattr(mod, s, st[s])
            r = mod.fast_fixed_grid_read_chunk(chunk_, target=t if sent else None, base_date=base, nadir_lon=Q(-75),
                                               clip_events=mesh, corner_pickle="table")
        finally:
            for s in STEPS:
                setattr(mod, s, old[s])
        known = [chunk_, D, mesh, quads, chopped, areas, polys, props, sp, sp2, base] + [v for lev in LEV for v in rec[lev]]

        def handed(name, *pairs):
            """each value is the one wanted; something of another make is outside this contract"""
            for v, want in pairs:
                if not any(v is k for k in known):
                    raise Unsupported("%s: a value of another make" % name)
            prove(name, all(v is want for v, want in pairs))
        got = lambda s: list(st[s].only().values())
        handed("events are collapsed from the chunk", (got("get_lutevents")[0], chunk_))
        prove("the given corner table is used", got("load_pixel_corner_lookup")[0] == "table")
        q = st["quads_from_corner_lookup"].only()
        qv = list(q.values())
        for nm, v, src in (("x", qv[0], tab[0]), ("y", qv[1], tab[1]), ("corner", qv[2], tab[2])):
            same_array("corner table %s, microradians to radians" % nm, v, lambda *i: src.frozen.elem(*i) * Q(1, 10 ** 6), src.shape)
        same_array("quads are made at the events' x", qv[3], lambda i: x.frozen.elem(i), (n,))
        same_array("quads are made at the events' y", qv[4], lambda i: y.frozen.elem(i), (n,))
        for nm, v in q.items():
            if nm in ("nadir_lon", "inflate"):
                prove("quads are neither moved nor inflated (%s)" % nm, eq(v, 0 if nm == "nadir_lon" else 1))
        if len(slices) != 1:
            raise Unsupported("another composition of the steps")
        if slices[0][1] not in (True, False, None):
            raise Unsupported("slicing by a given box")
        prove("every cell a quad can meet is considered", bool(slices[0][1]))
        handed("the given mesh slices the quads", (slices[0][0], quads), (got("QuadMeshPolySlicer")[1], mesh))
        e = st["split_event_data"].only()
        ev = list(e.values())
        handed("pieces are made from the sliced quads", (ev[0], chopped), (ev[1], areas), (getattr(ev[2], "mesh", None), mesh))
        same_array("pieces are labelled with the events' ids", e.get("event_ids", ev[-1]), lambda i: ids.frozen.elem(i), (n,))
        w = got("split_event_dataset_from_props")
        handed("the pieces' table is made of them", (w[0], props))
        prove("centroids are named x and y", ("split_event_x", "split_event_y") in [tuple(v) for v in w[1:] if isinstance(v, (tuple, list))])
        w = got("replicate_and_weight_split_child_dataset_new")
        handed("the collapsed events are replicated onto the pieces", (w[0], D), (w[1], sp))
        w = st["mimic_lma_dataset_lut"].only()
        handed("records are made of the replicated pieces, in seconds from the base date",
               (w.get("split_events"), sp2), (list(w.values())[0], D), (list(w.values())[1], base))
        if not sent:
            for lev in LEV:
                handed("%s records are returned" % lev, (r[lev][0], rec[lev][0]), (r[lev][1], rec[lev][1]))
            return
        if all(len(s.got) == 0 for s in t.values()):
            prove("only a chunk without records is held back", k_ == 0)
            return
        for lev, s in t.items():
            prove("the %s stream is sent records once" % lev, len(s.got) == 1)
            if s.got:
                handed("the %s stream is sent its own records" % lev, (s.got[0][0], rec[lev][0]), (s.got[0][1], rec[lev][1]))
    return f


for sent in (False, True):
    c.units.append(Unit(MOD + ".fast_fixed_grid_read_chunk", "composition, " + ("sent" if sent else "returned"), composed(sent)))
