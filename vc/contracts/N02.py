"""Which lightning ellipsoid a date uses."""
import datetime as real_dt
from ..api import *
from .. import xrmod, dtmod
from .T01 import GLM

c = Contract("N02")
MOD = "glmtools.io.lightning_ellipse"
RADII = {0: (Q("6.394140e6"), Q("6.362755e6")), 1: (Q("6.378137e6") + 14000, Q("6.362755e6"))}
CHANGE = (real_dt.datetime(2018, 10, 15) - dtmod.EPOCH) // real_dt.timedelta(microseconds=1)
c.assume("dates are naive datetimes (microsecond resolution); revisions start at: 0 launch, 1 2018-10-15")


def date():
    us = z3.Int("date_us")
    return us, dtmod.datetime._of(us)


def rev(env):
    us, d = date()
    r = env.fn(MOD, "ltg_ellpse_rev")(d)
    prove("the last revision whose start is not after the date", eq(r, ite(us < CHANGE, 0, 1)))


def radii(env):
    us, d = date()
    r = env.fn(MOD, "ltg_ellps_radii")(d)
    prove("two radii", len(r) == 2)
    for k, nm in enumerate(("equatorial", "polar")):
        prove("%s radius of the revision in force" % nm, eq(r[k], ite(us < CHANGE, RADII[0][k], RADII[1][k])))


def opened(given):
    def f(env):
        cls = env.fn("glmtools.io.glm", "GLMDataset")
        grid = env.fn(MOD, "ltg_ellps_lon_lat_to_fixed_grid")
        g = object.__new__(cls)
        g.fl_dim, g.gr_dim, g.ev_dim = GLM[2]
        ds = xrmod.Dataset()
        ns = z3.Int("product_ns")
        pos = {}
        for lv, nm in enumerate(("flash", "group", "event")):
            n = length("n_" + nm)
            for a in ("lon", "lat"):
                pos[nm, a] = array("%s_%s" % (nm, a), n)
                ds["%s_%s" % (nm, a)] = (GLM[2][lv], pos[nm, a])
        nadir = real("nadir")
        ds["lon_field_of_view"] = ((), Arr((), lambda: nadir, F8))
        ds["product_time"] = ((), Arr((), lambda: mk(ns), arr.M8))
        g.dataset, g.ellipse_rev = ds, given
        g._GLMDataset__init_fixed_grid_data()
        # dates are compared after dropping the fraction of a second, which no start date has
        want = given if given >= 0 else (0 if E.decide(ns < CHANGE * 1000) else 1)
        for nm in ("flash", "group", "event"):
            x, y = grid(pos[nm, "lon"].frozen.copy(), pos[nm, "lat"].frozen.copy(), nadir, want)
            n = pos[nm, "lon"].shape[0]
            same_array("%s_x" % nm, g.dataset[nm + "_x"], lambda k: A(x).elem(k), (n,))
            same_array("%s_y" % nm, g.dataset[nm + "_y"], lambda k: A(y).elem(k), (n,))
            for a in ("lon", "lat"):
                unchanged(nm + "_" + a, pos[nm, a])
    return f


c.units.append(Unit(MOD + ".ltg_ellpse_rev", "any date", rev))
c.units.append(Unit(MOD + ".ltg_ellps_radii", "any date", radii))
for given in (-1, 0, 1):
    c.units.append(Unit("glmtools.io.glm.GLMDataset.__init_fixed_grid_data",
                        "revision %s" % ("from the product time" if given < 0 else "%d given" % given), opened(given)))
