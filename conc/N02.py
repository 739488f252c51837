import os
from datetime import datetime, timedelta
import numpy as np
from harness import case, get, ensure, same, close, Fail
import glmfile as g

CHANGES = [(None, 0), (datetime(2018, 10, 15), 1)]
RADII = {0: (6394140.0, 6362755.0), 1: (6392137.0, 6362755.0)}


def in_force(d):
    r = None
    for t, k in CHANGES:
        if t is None or t <= d:
            r = k
    return r


def dates(rng):
    t = CHANGES[1][0]
    out = [t, t - timedelta(microseconds=1), t + timedelta(microseconds=1), t - timedelta(days=1), t + timedelta(days=1),
           t - timedelta(seconds=1), datetime(2018, 10, 14, 23, 59, 59, 999999), datetime(2018, 11, 1), datetime(2018, 9, 30),
           datetime(2017, 12, 20), datetime(2019, 1, 5), datetime(2017, 10, 20), datetime(2019, 10, 3), datetime(2000, 1, 1), datetime(2060, 6, 6)]
    for _ in range(40):
        out.append(datetime(2016, 1, 1) + timedelta(seconds=float(rng.uniform(0, 6 * 365.25 * 86400))))
    return out


@case(n=5, thorough=60)
def revision_of_date(rng):
    f = get("glmtools.io.lightning_ellipse", "ltg_ellpse_rev")
    for d in dates(rng):
        ensure(f(d) == in_force(d), "revision for %s is %r, expected %r", d, f(d), in_force(d))


@case(n=5, thorough=60)
def radii_of_date(rng):
    f = get("glmtools.io.lightning_ellipse", "ltg_ellps_radii")
    tab = get("glmtools.io.lightning_ellipse", "lightning_ellipse_rev")
    for d in dates(rng):
        got = tuple(f(d))
        ensure(got == tuple(tab[in_force(d)]), "radii for %s are %s, expected those of revision %d", d, got, in_force(d))
        ensure(got == RADII[in_force(d)], "radii for %s are %s, expected %s", d, got, RADII[in_force(d)])


@case(n=8, thorough=60)
def dataset_default(rng):
    """opening without a revision uses the one in force at the product time"""
    GLM = get("glmtools.io.glm", "GLMDataset")
    epoch = datetime(2000, 1, 1, 12)
    t = g.make_tree(rng)
    ds = dates(rng)
    d0 = ds[int(rng.randint(len(ds)))].replace(microsecond=0)
    if not datetime(2001, 1, 1) < d0 < datetime(2059, 1, 1):
        d0 = CHANGES[1][0]
    with g.scratch() as d:
        p = os.path.join(d, "f.nc")
        g.write(p, rng, t, product_time=(d0 - epoch).total_seconds())
        a = GLM(p, fix_bad_DO07_times=False).dataset
        want = GLM(p, ellipse_rev=in_force(d0), fix_bad_DO07_times=False).dataset
        other = GLM(p, ellipse_rev=1 - in_force(d0), fix_bad_DO07_times=False).dataset
        for v in ("event_x", "event_y", "group_x", "group_y", "flash_x", "flash_y"):
            same(a[v].data, want[v].data, "%s for product time %s" % (v, d0))
        ensure(not np.array_equal(other.event_y.data, want.event_y.data), "the revisions do not differ")
        for x in (a, want, other):
            x.close()
