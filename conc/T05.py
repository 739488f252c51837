import numpy as np
import os
from harness import case, get, ensure, same, Fail
import glmfile as g

FOV = 0.1349


def expect(D, kw):
    fid = D.flash_id.data
    ok = np.ones(len(fid), bool)
    for key, lo in (("lon_range", "flash_lon"), ("lat_range", "flash_lat"), ("x_range", "flash_x"), ("y_range", "flash_y")):
        if kw.get(key) is not None:
            v = D[lo].data
            ok &= (v > kw[key][0]) & (v < kw[key][1])
    gp, ep = D.group_parent_flash_id.data, D.event_parent_group_id.data
    g2f = dict(zip(D.group_id.data.tolist(), gp.tolist()))
    ef = np.array([g2f[x] for x in ep.tolist()])
    if kw.get("min_groups") is not None:
        ok &= np.array([(gp == f).sum() >= kw["min_groups"] for f in fid])
    if kw.get("min_events") is not None:
        ok &= np.array([(ef == f).sum() >= kw["min_events"] for f in fid])
    if kw.get("check_event_xy", True):
        xr = kw.get("x_range") or (-FOV, FOV)
        yr = kw.get("y_range") or (-FOV, FOV)
        xr = (max(xr[0], -FOV), min(xr[1], FOV))
        yr = (max(yr[0], -FOV), min(yr[1], FOV))
        ex, ey = D.event_x.data, D.event_y.data
        inn = (ex > xr[0]) & (ex < xr[1]) & (ey > yr[0]) & (ey < yr[1])
        ok &= np.array([bool((inn & (ef == f)).any()) for f in fid])
    return fid[ok].tolist(), g2f


def rng_between(rng, v):
    a, b = np.sort(rng.choice(np.concatenate([v, v, [v.min() - 1e-3, v.max() + 1e-3, v.mean()]]), 2))
    return (float(a), float(b))


def bounds(rng, v):
    if rng.rand() < .5 or len(v) == 0:
        return None
    if rng.rand() < .5:
        return rng_between(rng, v.astype("f8"))          # exactly at flash positions: strictness matters
    a, b = np.sort(rng.uniform(v.min() - .1 * abs(v.min()), v.max() + .1 * abs(v.max()), 2))
    return (float(a), float(b))


@case(n=60, thorough=400)
def subset(rng, **size):
    GLM = get("glmtools.io.glm", "GLMDataset")
    t = g.make_tree(rng, **(size or dict(nfl=int(rng.randint(2, 9)))))
    wide = rng.rand() < .5
    nev, ngr, nfl = len(t.event_id), len(t.group_id), len(t.flash_id)
    lo, hi = (1000, 64000) if wide else (20000, 46000)
    sp = 62 if wide else 30
    with g.scratch() as d:
        p = os.path.join(d, "f.nc")
        kw = dict(flash_lat=rng.uniform(-sp, sp, nfl), flash_lon=-75 + rng.uniform(-sp, sp, nfl))
        g.write(p, rng, t, xy=(rng.randint(lo, hi, nev), rng.randint(lo, hi, nev)), **kw)
        ds = GLM(p, ellipse_rev=int(rng.randint(2)))
        D = ds.dataset
        kw = {}
        for key, v in (("lon_range", "flash_lon"), ("lat_range", "flash_lat"), ("x_range", "flash_x"), ("y_range", "flash_y")):
            b = bounds(rng, D[v].data)
            if b is not None:
                kw[key] = b
        if rng.rand() < .4:
            kw["min_events"] = int(rng.randint(0, 5))
        if rng.rand() < .4:
            kw["min_groups"] = int(rng.randint(0, 4))
        if rng.rand() < .25:
            kw["check_event_xy"] = False
        want, g2f = expect(D, kw)
        r = ds.subset_flashes(**kw)
        got = r.flash_id.data.tolist()
        ensure(sorted(got) == sorted(want), "subset_flashes(%s) kept %s, expected %s", kw, sorted(got)[:99], sorted(want)[:99])
        own = set(want)
        gr = [a for a, b in zip(D.group_id.data.tolist(), D.group_parent_flash_id.data.tolist()) if b in own]
        ensure(sorted(r.group_id.data.tolist()) == sorted(gr), "groups of the kept flashes")
        own = set(gr)
        ev = [a for a, b in zip(D.event_id.data.tolist(), D.event_parent_group_id.data.tolist()) if b in own]
        ensure(sorted(r.event_id.data.tolist()) == sorted(ev), "events of the kept flashes")
        D.close()


@case(n=2, thorough=4)
def large(rng):
    """thousands of rows"""
    subset(rng, nfl=1100, ngr=2300, nev=3500)


@case(n=20, thorough=120)
def separate_criteria(rng):
    """few criteria at a time, few events per flash: each limit decides on its own"""
    GLM = get("glmtools.io.glm", "GLMDataset")
    t = g.make_tree(rng, nfl=int(rng.randint(6, 14)))
    nev, nfl = len(t.event_id), len(t.flash_id)
    with g.scratch() as d:
        p = os.path.join(d, "f.nc")
        g.write(p, rng, t, xy=(rng.randint(1000, 64000, nev), rng.randint(1000, 64000, nev)),
                flash_lat=rng.uniform(-20, 20, nfl), flash_lon=-75 + rng.uniform(-20, 20, nfl))
        ds = GLM(p, ellipse_rev=int(rng.randint(2)))
        D = ds.dataset
        for what in (("x",), ("y",), ("x", "y"), ("x", "y"), ("lon",), ("lat",), ("lon", "lat"), ("min_events",), ("min_groups",)):
            kw = {}
            for k in what:
                if k.startswith("min"):
                    kw[k] = int(rng.randint(1, 4))
                    continue
                v = D["flash_" + k].data.astype("f8")
                if k in "xy" and rng.rand() < .7:
                    # every flash inside, events cut: the event positions decide
                    e = D["event_" + k].data.astype("f8")
                    a, b = rng.uniform(e.min() - .02, v.min()), rng.uniform(v.max(), e.max() + .02)
                    if rng.rand() < .5:
                        # exactly at the event of a flash that is nearest the edge: strictness decides
                        own = D.event_parent_flash_id.data
                        lo = [m for m in (e[own == f].max() for f in D.flash_id.data) if m < v.min()]
                        hi = [m for m in (e[own == f].min() for f in D.flash_id.data) if m > v.max()]
                        if lo:
                            a = lo[int(rng.randint(len(lo)))]
                        if hi:
                            b = hi[int(rng.randint(len(hi)))]
                else:
                    a, b = rng_between(rng, v)
                kw[k + "_range"] = (float(a), float(b))
            if rng.rand() < .2:
                kw["check_event_xy"] = False
            want, g2f = expect(D, kw)
            got = ds.subset_flashes(**kw).flash_id.data.tolist()
            ensure(sorted(got) == sorted(want), "subset_flashes(%s) kept %s, expected %s", kw, sorted(got), sorted(want))
        D.close()


@case(n=6, thorough=40)
def no_criteria(rng):
    """without criteria and with the position check off nothing is filtered"""
    GLM = get("glmtools.io.glm", "GLMDataset")
    t = g.make_tree(rng)
    with g.scratch() as d:
        p = os.path.join(d, "f.nc")
        g.write(p, rng, t)
        ds = GLM(p, ellipse_rev=0)
        r = ds.subset_flashes(check_event_xy=False)
        ensure(sorted(r.flash_id.data.tolist()) == sorted(t.flash_id.tolist()), "flashes filtered without a criterion")
        ds.dataset.close()
