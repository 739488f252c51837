"""File names: the fields a name encodes, and the name made from them."""
from ..api import *
from .. import text as tx

c = Contract("F01")
GLM, IMG = "glmtools.io.glm", "glmtools.io.imagery"
c.assume("the year is written with four digits (1000 to 9999); image times are whole seconds, as the name carries no fraction of them",
         "environment, product and platform are any words of letters, digits and hyphens (no dot or underscore)",
         "strptime, strftime and isoformat as documented, on text of the stated layout")
TIMELINE = "ABI Mode 3"
SCENE = {"FULL": ("F", "Full Disk"), "CONUS": ("C", "CONUS"), "MESO1": ("M1", "Mesoscale"), "MESO2": ("M2", "Mesoscale"),
         "OTHER": ("M1", "Custom")}


def written(nm):
    """the digits of any valid time, and the instant they encode"""
    ds = {k: tx.digits(nm + k, w) for k, w in (("Y", 4), ("j", 3), ("H", 2), ("M", 2), ("S", 2), ("t", 1))}
    v = {k: tx.value(q) for k, q in ds.items()}
    E.assume(z3.And(v["Y"] >= 1000, v["j"] >= 1, v["j"] <= tx.year_length(v["Y"]), v["H"] < 24, v["M"] < 60, v["S"] < 60))
    us = tx.instant(v["Y"], v["j"], v["H"], v["M"], v["S"], 100000 * v["t"])
    return [q for k in "YjHMSt" for q in ds[k]], us


def word(x):
    return tx.Text([x])


def when(name, d, us):
    if not isinstance(d, dtmod.datetime):
        raise Unsupported("%s is not a datetime" % name)
    prove(name, iraw(d.us) == us)


for letter in "sec":
    def f(env, letter=letter):
        ds, us = written("t")
        when("the time the digits encode, to a tenth of a second", env.fn(GLM, "parse_glm_filename_time")(tx.text(letter, *ds)), us)
    c.units.append(Unit(GLM + ".parse_glm_filename_time", "time marked %s" % letter, f, opts={"soft": True}))


def same_text(name, got, want):
    if not isinstance(got, (str, tx.Text)):
        raise Unsupported("%s is not text" % name)
    g, w = tx.pieces(got), tx.pieces(want)
    if tx.Text(g).same(want):
        prove(name, True)
    elif all(isinstance(x, (str, tx.Word)) for x in g + w):
        prove(name, False)
    elif len(g) == len(w) and all(type(x) is type(y) and isinstance(x, (str, tx.Word, tx.Stamp)) for x, y in zip(g, w)):
        prove(name, z3.And(*[x.t.us == y.t.us if isinstance(x, tx.Stamp) else z3.BoolVal(x is y or x == y) for x, y in zip(g, w)]))
    else:
        raise Unsupported("%s: text of another layout" % name)


def fields(env, name, want):
    got = env.fn(GLM, "parse_glm_filename")(name)
    if not isinstance(got, (tuple, list)):
        raise Unsupported("result of parse_glm_filename")
    prove("six fields", len(got) == 6)
    for nm, g, w in zip(("environment", "product", "platform"), got, want):
        same_text(nm, g, w)
    for nm, g, w in zip(("start", "end", "creation"), got[3:], want[3:]):
        when(nm + " time", g, w)


@c.unit(GLM + ".parse_glm_filename", "any name", soft=True)
def parse(env):
    e, a, p = (word(tx.Word(x)) for x in ("environment", "product", "platform"))
    (s, su), (t, tu), (k, ku) = (written(x) for x in "sec")
    fields(env, tx.text(e, "_", a, "_", p, "_s", *s, "_e", *t, "_c", *k, ".nc"), (e, a, p, su, tu, ku))


class Now:
    def __init__(self, t):
        self.t, self.old = t, dtmod.datetime.__dict__["now"]

    def __enter__(self):
        dtmod.datetime.now = staticmethod(lambda *a: self.t)

    def __exit__(self, *a):
        dtmod.datetime.now = self.old


def image_time(nm):
    t = z3.Int(nm)
    E.assume(z3.And(t >= tx.instant(z3.IntVal(1000), 1, 0, 0, 0), t < tx.instant(z3.IntVal(10000), 1, 0, 0, 0)))
    return t


def made(scene):
    def f(env):
        a, b, n = (image_time(x) for x in ("start", "end", "now"))
        E.assume(z3.And(a % 10 ** 6 == 0, b % 10 ** 6 == 0))
        A_, B_, N_ = (dtmod.datetime._of(x) for x in (a, b, n))
        p, slot, ins, res, penv, src, site = (word(tx.Word(x)) for x in ("platform", "slot", "instrument", "resolution", "env", "source", "site"))
        with Now(N_):
            m = env.fn(IMG, "get_glm_global_attrs")(A_, B_, p, slot, ins, scene, res, TIMELINE, penv, src, site)
        name = m["dataset_name"]
        fields(env, name, ("OR", "GLM-L2-GLM%s-M3" % SCENE[scene][0], p, a, b, n - n % 10 ** 6))
        for k, t in (("time_coverage_start", A_), ("time_coverage_end", B_), ("date_created", N_)):
            same_text(k, m[k], tx.isoformat(t) + "Z")
        for k, v in (("platform_ID", p), ("orbital_slot", slot), ("instrument_ID", ins), ("spatial_resolution", res), ("timeline_id", TIMELINE),
                     ("production_environment", penv), ("production_data_source", src), ("production_site", site), ("scene_id", SCENE[scene][1])):
            same_text(k, m[k], v)
    return f


for sc in SCENE:
    c.units.append(Unit(IMG + ".get_glm_global_attrs", "name and metadata, scene %s" % sc, made(sc), opts={"soft": True}))
