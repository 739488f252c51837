"""Packing of images: lightning never becomes no lightning."""
from ..api import *
from .. import xrmod

c = Contract("I02")
MOD = "glmtools.io.imagery"
NAMES = ("flash_extent_density", "flash_centroid_density", "average_flash_area", "minimum_flash_area", "event_density",
         "group_extent_density", "group_centroid_density", "average_group_area", "total_energy")
c.assume("real arithmetic in place of IEEE double precision", "image values are not negative and not missing",
         "xarray/netCDF4 write round((value - add_offset) / scale_factor), ties to even, as the two-byte integer with "
         "those bits, and read scale_factor * unsigned code + add_offset, the fill code as missing")


def packed(name):
    def f(env):
        fn, table = env.fn(MOD, "glm_image_to_var"), env.fn(MOD, "glm_scaling")
        if name not in table:
            raise Unsupported("no packing for " + name)
        kw = dict(table[name])
        ny, nx = length("ny"), length("nx")
        a = array("image", ny, nx)
        k1, k2 = z3.Ints("a! b!")
        E.axioms.append(z3.ForAll([k1, k2], a.sym(k1, k2) >= 0, patterns=[a.sym(k1, k2)]))
        d = fn(a, name, "long name", "unit", ("y", "x"), **kw)
        labels(d, name)
        enc = d.encoding
        sc, off = enc.get("scale_factor", 1), enc.get("add_offset", 0)
        prove("step of the packing", eq(sc, kw["scale_factor"]))
        prove("offset of the packing", eq(off, 0))
        prove("two-byte unsigned packing", (arr.todt(enc["dtype"]).kind, arr.todt(enc["dtype"]).itemsize) == ("u", 2)
              or ((arr.todt(enc["dtype"]).kind, arr.todt(enc["dtype"]).itemsize) == ("i", 2)
                  and enc.get("_Unsigned") == "true"))
        prove("empty is the fill code", eq(enc["_FillValue"], 0))
        i, j = same_shape(d, ny, nx)
        v, w = a.frozen.elem(i, j), A(d).elem(i, j)
        s = Q(sc)
        code = theory_round((w - off) / sc)
        dec = mk(z3.ToReal(code)) * sc + off
        v_, s_ = raw(v), z3.Q(s.numerator, s.denominator)
        prove("zero stays zero", z3.Implies(v_ == 0, z3.And(raw(w) == 0, code == 0)))
        up = z3.And(v_ > 0, v_ <= 65535 * s_)
        prove("a positive value keeps away from the fill code and fits", z3.Implies(up, z3.And(code >= 1, code <= 65535)))
        prove("a value of at least a step decodes to within half a step", z3.Implies(
            z3.And(up, v_ >= s_), z3.And(raw(dec) - v_ <= s_ / 2, v_ - raw(dec) <= s_ / 2)))
        prove("a smaller value decodes to within half a step or to one step", z3.Implies(
            z3.And(up, v_ < s_), z3.Or(raw(dec) == s_, z3.And(raw(dec) - v_ <= s_ / 2, v_ - raw(dec) <= s_ / 2))))
        prove("a value above a step is not changed", z3.Implies(v_ > s_, raw(w) == v_))
        unchanged("the image", a)
    return f


def theory_round(x):
    """nearest integer, ties to even"""
    t = raw(x)
    f = z3.ToInt(t)
    d = t - z3.ToReal(f)
    return z3.If(d < z3.Q(1, 2), f, z3.If(d > z3.Q(1, 2), f + 1, z3.If(f % 2 == 0, f, f + 1)))


def labels(d, name):
    prove("name and labels", d.name == name and tuple(d.dims) == ("y", "x") and d.attrs["units"] == "unit"
          and d.attrs["long_name"] == "long name" and d.attrs["standard_name"] == name)


def same_shape(d, ny, nx):
    a = A(d)
    prove("same shape", z3.And(raw(core.i_eq(a.shape[0], ny)), raw(core.i_eq(a.shape[1], nx))))
    return idx("i", ny), idx("j", nx)


def unpacked(env):
    ny, nx = length("ny"), length("nx")
    a = array("image", ny, nx, nan=True)
    d = env.fn(MOD, "glm_image_to_var")(a, "n", "long name", "unit", ("y", "x"))
    labels(d, "n")
    i, j = same_shape(d, ny, nx)
    prove("values are kept", eq(A(d).elem(i, j), a.frozen.elem(i, j)))
    prove("no packing", not {"scale_factor", "add_offset", "dtype"} & set(d.encoding))
    unchanged("the image", a)


for nm in NAMES:
    c.units.append(Unit(MOD + ".glm_image_to_var", "packing of " + nm, packed(nm)))
c.units.append(Unit(MOD + ".glm_image_to_var", "no packing", unpacked))
