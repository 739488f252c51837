"""Unsigned decoding of signed two-byte codes."""
from ..api import *
from .. import xrmod

c = Contract("U02")
MOD = "glmtools.io.glm"
c.assume("real arithmetic in place of IEEE double precision, but the automatic decoding may be off by up to half a step",
         "scale is not zero")


def coded(name, n):
    """any signed two-byte codes, and their unsigned reading"""
    a = array(name, n, sort="Int")
    forall("cd!" + name, n, lambda k: z3.And(raw(a.elem(k)) >= -32768, raw(a.elem(k)) <= 32767))
    return a, lambda k: raw(a.frozen.elem(k)) % 65536


def decoded(name, a, n, sc, off):
    """scale times the signed code plus offset, with any rounding error below half a step"""
    e = array(name + ".err", n)
    forall("er!" + name, n, lambda k: z3.And(raw(e.elem(k)) > z3.Q(-1, 2), raw(e.elem(k)) < z3.Q(1, 2)))
    return Arr((n,), lambda k: (mk(z3.ToReal(raw(a.elem(k)))) + e.elem(k)) * sc + off, F8).copy()


def unsigned(order):
    def f(env):
        fn = env.fn(MOD, "fix_unsigned")
        n = length("n")
        a, u = coded("code", n)
        sc, off = real("scale"), real("offset")
        E.assume(raw(sc) != 0)
        da = xrmod.DataArray(xrmod.Var(decoded("v", a, n, sc, off), ("n",), {},
                                       {"dtype": arr.todt(order + "i2"), "scale_factor": sc, "add_offset": off}), "v")
        before = da.to_arr().snapshot()
        r = fn(da)
        i = idx("i", n)
        helper(raw((before.elem(i) - off) / sc) == z3.ToReal(raw(a.elem(i))) + z3.Function("v.err", I, R)(i))
        same_array("scale times the unsigned code plus offset", r,
                   lambda k: mk(z3.ToReal(u(k)) * raw(sc) + raw(off)), (n,), ["i"])
        prove("input is left unchanged", eq(da.to_arr().elem(i), before.elem(i)), kind="frame")
    return f


LON0, LAT0, SC = Q("-156.06"), Q("-66.56"), Q("0.00203128")


class NcVar:
    """a netCDF4 Variable: raw codes when automatic scaling is off, decoded values otherwise"""
    def __init__(self, codes, n, off):
        self.codes, self.n, self.off, self.auto = codes, n, off, True

    def set_auto_maskandscale(self, on):
        self.auto = bool(on)

    def __getitem__(self, k):
        v = decoded("auto", self.codes, self.n, SC, self.off) if self.auto else self.codes.copy()
        return v[k]


def locations(raw_):
    def f(env):
        fn = env.fn(MOD, "fix_event_locations")
        n = length("n")
        lat, ulat = coded("latcode", n)
        lon, ulon = coded("loncode", n)
        if raw_:
            r = fn(NcVar(lat, n, LAT0), NcVar(lon, n, LON0))
        else:
            r = fn(xrmod.DataArray(xrmod.Var(decoded("lat", lat, n, SC, LAT0), ("n",)), "lat"),
                   xrmod.DataArray(xrmod.Var(decoded("lon", lon, n, SC, LON0), ("n",)), "lon"), is_xarray=True)
        prove("two results", len(r) == 2)
        same_array("latitude", r[0], lambda k: mk(z3.ToReal(ulat(k))) * SC + LAT0, (n,))
        same_array("longitude", r[1], lambda k: mk(z3.ToReal(ulon(k))) * SC + LON0, (n,))
        unchanged("latitude codes", lat)
        unchanged("longitude codes", lon)
    return f


for o in "<>":
    c.units.append(Unit(MOD + ".fix_unsigned", "codes stored %si2" % o, unsigned(o)))
c.units.append(Unit(MOD + ".fix_event_locations", "raw codes", locations(True)))
c.units.append(Unit(MOD + ".fix_event_locations", "after automatic decoding", locations(False)))
