"""Random table hierarchies of 2 to 4 levels as xarray datasets, and independent look-ups on them."""
import numpy as np
import xarray as xr
from glmfile import distinct

NAMES = ["storm", "flash", "group", "event"]


class H:
    pass


def hierarchy(rng, levels=None, closed=False, empty=False, unique=True, big=False):
    h = H()
    L = levels or int(rng.randint(2, 5))
    h.names = NAMES[-L:]
    h.eid = [n + "_id" for n in h.names]
    h.pid = [None] + ["%s_parent_%s_id" % (h.names[i], h.names[i - 1]) for i in range(1, L)]
    h.dims = ["n_" + n for n in h.names]
    h.ids, h.par, h.pay = [], [None], []
    dt = [str(rng.choice(["int64", "uint32", "uint16" if i < 2 else "uint32"])) for i in range(L)]
    for i in range(L):
        lo = 0 if empty else 1
        n = int(rng.randint(lo, 6 + 5 * i)) if not big else int(rng.randint(1100, 1500) * (1 + i))
        if closed and i:
            n = max(n, len(h.ids[i - 1]))
        if rng.rand() < .15 and not closed and not big:
            n = lo
        h.ids.append(distinct(rng, n, 65536))
        if i:
            par = h.ids[i - 1]
            if len(par) == 0:
                a = rng.randint(0, 65536, n)
            else:
                a = par[rng.randint(0, len(par), n)]
            if closed and n:
                a[rng.permutation(n)[:len(par)]] = par
            elif n and rng.rand() < .5:            # orphans
                bad = rng.rand(n) < .3
                for k in np.flatnonzero(bad):
                    v = int(rng.randint(0, 65536)) if rng.rand() < .8 else 0
                    if v not in set(par.tolist()):
                        a[k] = v
            h.par.append(a)
    dv = {}
    co = {}
    for i in range(L):
        d = h.dims[i]
        co[h.eid[i]] = (d, h.ids[i].astype(dt[i]))
        if i:
            co[h.pid[i]] = (d, h.par[i].astype(dt[i - 1]))
        h.pay.append(rng.uniform(-1, 1, len(h.ids[i])))
        dv[h.names[i] + "_val"] = (d, h.pay[i])
    dv["scalar"] = ((), 3.5)
    h.ds = xr.Dataset(dv, coords=co)
    h.L = L
    return h


def frozen(ds):
    return {k: np.array(v.data) for k, v in ds.variables.items()}


def unchanged(ds, fr):
    return set(ds.variables) == set(fr) and all(
        ds[k].shape == fr[k].shape and (np.array_equal(ds[k].data, fr[k]) or
                                        (fr[k].dtype.kind in "fM" and np.array_equal(ds[k].data, fr[k], equal_nan=True)))
        for k in fr)
