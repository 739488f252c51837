"""Units after opening: converted exactly once, only unusable values replaced."""
from ..api import *
from .. import xrmod
from .T01 import GLM, table

c = Contract("U01")
MOD = "glmtools.io.glm"
c.assume("real arithmetic in place of IEEE single precision", "energies are declared in joules (anything else is refused)",
         "energies are not missing; areas may be", "packing of each variable as recorded in its encoding")
LEVEL = {"flash": 0, "group": 1, "event": 2}


def opened(funits, gunits, energy, areas):
    def f(env):
        ds, n, ids, par = table(3, names=GLM)
        if (funits, gunits) != ("m2", "m2"):
            E.assume(z3.And(*[x > 0 for x in n]))
        val, enc = {}, {}
        for nm in ("flash_energy", "group_energy", "event_energy", "flash_area", "group_area"):
            lv = LEVEL[nm[:5]]
            a = array(nm, n[lv], nan=nm.endswith("area"))
            val[nm] = a
            enc[nm] = {k: real(nm + "." + k) for k in ("scale_factor", "add_offset", "_FillValue")}
            u = "J" if nm.endswith("energy") else (funits if nm[0] == "f" else gunits)
            ds.vars[nm] = xrmod.Var(a.copy(), (GLM[2][lv],), {"units": u}, dict(enc[nm]))
        others = {k: v.arr.snapshot() for k, v in ds.vars.items() if k not in val}
        kw = {}
        if not energy:
            kw["change_energy_units"] = False
        if not areas:
            kw["check_area_units"] = False
        d = env.fn(MOD, "GLMDataset")(ds, calculate_parent_child=False, check_tree=False, fix_bad_DO07_times=False,
                                      **kw).dataset
        prove("the same variables", set(d.vars) == set(val) | set(others))
        for nm, a in val.items():
            b = a.frozen
            e = enc[nm]
            if nm == "event_energy" and energy:
                least = e["add_offset"] + e["scale_factor"]
                want = lambda k, b=b, least=least: ite(raw(b.elem(k) < least), least / 2, b.elem(k)) * 10 ** 9
            elif nm.endswith("energy") and energy:
                want = lambda k, b=b: b.elem(k) * 10 ** 9
            elif nm.endswith("area") and areas:
                top = e["add_offset"] + e["scale_factor"] * e["_FillValue"]
                m2 = (funits if nm[0] == "f" else gunits) == "m2"
                want = lambda k, b=b, top=top, m2=m2: ite(raw(core.nan_of(b.elem(k))), top, mk(b.elem(k).t)) * (
                    Q(1, 10 ** 6) if m2 else 1)
            else:
                want = lambda k, b=b: b.elem(k)
            same_array(nm, d[nm], want, (n[LEVEL[nm[:5]]],))
            if nm.endswith("energy"):
                prove("units of " + nm, d[nm].attrs["units"] == ("nJ" if energy else "J"))
            else:
                prove("units of " + nm, d[nm].attrs["units"] == ("km2" if areas else (funits if nm[0] == "f" else gunits)))
        for nm, a in others.items():
            same_array(nm + " unchanged", d[nm], a.elem, a.shape)
    return f


for fu in ("km2", "m2"):
    for gu in ("km2", "m2"):
        c.units.append(Unit(MOD + ".GLMDataset.__init__ (units)", "flash area in %s, group area in %s" % (fu, gu),
                            opened(fu, gu, True, True)))
c.units.append(Unit(MOD + ".GLMDataset.__init__ (units)", "energy conversion off", opened("m2", "km2", False, True)))
c.units.append(Unit(MOD + ".GLMDataset.__init__ (units)", "area conversion off", opened("m2", "km2", True, False)))
