import os
import numpy as np
from harness import case, get, ensure, same, close, Fail
import glmfile as g


@case(n=40, thorough=250)
def units(rng):
    GLM = get("glmtools.io.glm", "GLMDataset")
    t = g.make_tree(rng)
    nfl, ngr, nev = len(t.flash_id), len(t.group_id), len(t.event_id)
    m2 = rng.rand() < .5
    kw = {}
    if m2:
        kw.update(area_units="m2", a_scale=152601.9, a_off=0.0)
    if rng.rand() < .4:
        kw.update(e_off=0.0)
    if rng.rand() < .3:
        kw.update(e_scale=3e-15, e_off=1e-15, a_off=kw.get("a_off", 20.0))
    if rng.rand() < .4:                            # group areas packed in their own way
        kw.update(ga_scale=kw.get("a_scale", g.DEF["a_scale"]) * .75, ga_off=kw.get("a_off", g.DEF["a_off"]) + 8)
    single = rng.rand() < .7                       # packing in single precision, as in the standard files
    if single:
        kw.update(e_scale=np.float32(kw.get("e_scale", g.DEF["e_scale"])), e_off=np.float32(kw.get("e_off", g.DEF["e_off"])))
    o = dict(g.DEF)
    o.update(kw)
    o["e_scale"], o["e_off"] = float(o["e_scale"]), float(o["e_off"])

    def codes(n, hi=65530):
        c = rng.randint(0, hi, n)
        c[rng.rand(n) < .35] = 0
        c[rng.rand(n) < .2] = 1
        return c
    ec = codes(nev)
    fa, ga = codes(nfl), codes(ngr)
    miss = rng.rand() < .6
    if miss:
        fa[rng.rand(nfl) < .4] = 65535
        ga[rng.rand(ngr) < .4] = 65535
    ge, fe = codes(ngr), codes(nfl)
    with g.scratch() as d:
        p = os.path.join(d, "f.nc")
        g.write(p, rng, t, event_energy=ec, flash_area=fa, group_area=ga, group_energy=ge, flash_energy=fe, **kw)
        ds = GLM(p, ellipse_rev=0)
        D = ds.dataset
        for nm, c in (("group_energy", ge), ("flash_energy", fe)):
            close(D[nm].data, (c * o["e_scale"] + o["e_off"]) * 1e9, nm, 2e-5, 1e-9)
            ensure(D[nm].units == "nJ", "units of " + nm)
        step = o["e_scale"] + o["e_off"]
        want = np.where(ec * o["e_scale"] + o["e_off"] < step * (1 - 1e-9), .5 * step, ec * o["e_scale"] + o["e_off"]) * 1e9
        got = D.event_energy.data
        # a code of one is the smallest positive value itself; with packing in double precision rounding decides which side it falls on
        close(got[ec != 1], want[ec != 1], "event_energy", 2e-5)
        for gx in got[ec == 1]:
            if single:
                close(gx, step * 1e9, "event energy of the smallest positive value", 2e-5)
                continue
            ensure(abs(gx - step * 1e9) <= 2e-5 * step * 1e9 or abs(gx - .5e9 * step) < 2e-5 * step * 1e9, "event energy of the smallest code is %r", gx)
        ensure(D.event_energy.units == "nJ", "units of event_energy")
        for nm, c in (("flash_area", fa), ("group_area", ga)):
            sc, off = (o["a_scale"], o["a_off"]) if nm == "flash_area" else (o.get("ga_scale", o["a_scale"]), o.get("ga_off", o["a_off"]))
            w = c * sc + off
            if m2:
                w = w / 1e6
            close(D[nm].data[c != 65535], w[c != 65535], nm, 2e-5)
            ensure(D[nm].units == "km2", "units of %s are %s", nm, D[nm].units)
            # missing: the largest storable area (codes run to 65535, itself the missing code)
            hi = (65535 * sc + off) / (1e6 if m2 else 1)
            lo = (65534 * sc + off) / (1e6 if m2 else 1)
            z = D[nm].data[c == 65535]
            ensure(((z >= lo * (1 - 1e-5)) & (z <= hi * (1 + 1e-5))).all(), "missing %s became %s, expected the largest storable %s", nm, z[:3], hi)
        D.close()


@case(n=8, thorough=50)
def options_off(rng):
    """with the options off values are as stored; one option does not act on the other's variables"""
    GLM = get("glmtools.io.glm", "GLMDataset")
    t = g.make_tree(rng)
    with g.scratch() as d:
        p = os.path.join(d, "f.nc")
        fa = rng.randint(0, 65535, len(t.flash_id))
        ec = rng.randint(0, 3, len(t.event_id))
        g.write(p, rng, t, area_units="m2", a_scale=152601.9, a_off=0.0, event_energy=ec, flash_area=fa)
        a = GLM(p, ellipse_rev=0, check_area_units=False, change_energy_units=False).dataset
        close(a.flash_area.data, fa * 152601.9, "flash_area as stored", 2e-5, 1e-3)
        close(a.event_energy.data, ec * g.DEF["e_scale"] + g.DEF["e_off"], "event_energy as stored", 2e-5)
        b = GLM(p, ellipse_rev=0, check_area_units=True, change_energy_units=False).dataset
        close(b.flash_area.data, fa * .1526019, "flash_area in km2", 2e-5, 1e-9)
        close(b.event_energy.data, ec * g.DEF["e_scale"] + g.DEF["e_off"], "event_energy as stored", 2e-5)
        for x in (a, b):
            x.close()


@case(n=4, thorough=12)
def wrong_units_refused(rng):
    """an energy not declared in joules is not converted"""
    import xarray as xr
    GLM = get("glmtools.io.glm", "GLMDataset")
    t = g.make_tree(rng)
    with g.scratch() as d:
        p = os.path.join(d, "f.nc")
        g.write(p, rng, t)
        ds = xr.open_dataset(p).load()
        ds.close()
        nm = ["flash_energy", "group_energy", "event_energy"][int(rng.randint(3))]
        ds[nm].attrs["units"] = "fJ"
        try:
            r = GLM(ds, ellipse_rev=0)
        except ValueError:
            return
        raise Fail("%s declared in fJ was accepted with units %s" % (nm, r.dataset[nm].units))
