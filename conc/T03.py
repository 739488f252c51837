import numpy as np
import os
from harness import case, get, ensure, same, Fail
import trees
import glmfile as g


def expected(h, lev, ids):
    """row positions kept at each level"""
    keep = [None] * h.L
    pos = {v: k for k, v in enumerate(h.ids[lev].tolist())}
    keep[lev] = [pos[v] for v in ids if v in pos]
    for k in range(lev + 1, h.L):
        own = {h.ids[k - 1][r] for r in keep[k - 1]}
        if k == lev + 1:
            own = {h.ids[lev][r] for r in keep[lev]}
        keep[k] = [r for r in range(len(h.ids[k])) if h.par[k][r] in own]
    for k in range(lev - 1, -1, -1):
        own = {h.par[k + 1][r] for r in keep[k + 1]}
        keep[k] = [r for r in range(len(h.ids[k])) if h.ids[k][r] in own]
    return keep


def compare(h, got, keep, lev):
    for k in range(h.L):
        gi = got[h.eid[k]].data.tolist()
        want = [int(h.ids[k][r]) for r in keep[k]]
        ensure(sorted(gi) == sorted(want), "level %s kept %s, expected %s", h.names[k], sorted(gi)[:12], sorted(want)[:12])
        if k == lev:
            ensure(gi == want, "rows of %s not in the order asked for: %s vs %s", h.names[k], gi[:12], want[:12])
        pos = {int(v): r for r, v in enumerate(h.ids[k])}
        rows = [pos[v] for v in gi]
        same(got[h.names[k] + "_val"].data, h.pay[k][rows], "values of " + h.names[k])
        if k:
            same(got[h.pid[k]].data, h.par[k][rows], "parent links of " + h.names[k])
    ensure(float(got["scalar"]) == 3.5, "scalar lost")


@case(n=60, thorough=600)
def reduce(rng, lev=None, n=None, **size):
    h = trees.hierarchy(rng, closed=rng.rand() < .5, empty=rng.rand() < .15, **size)
    t = get("glmtools.io.traversal", "OneToManyTraversal")(h.ds, h.eid, h.pid[1:])
    lev = int(rng.randint(0, h.L)) if lev is None else lev
    pool = h.ids[lev]
    n = int(rng.randint(0, len(pool) + 1)) if n is None else min(n, len(pool))
    ids = [int(v) for v in pool[rng.permutation(len(pool))[:n]]]
    if rng.rand() < .2:
        # an id not in the table selects nothing; it may be the id of another level
        own = set(pool.tolist())
        others = [int(v) for k in range(h.L) for v in h.ids[k] if int(v) not in own and k < lev]
        v = others[0] if others and rng.rand() < .5 else int(rng.randint(0, 50000))
        kids = set(h.par[lev + 1].tolist()) if lev + 1 < h.L else set()
        if v not in own and v not in ids and v not in kids:
            ids.insert(int(rng.randint(0, len(ids) + 1)), v)
    fr = trees.frozen(h.ds)
    arg = np.array(ids, dtype=h.ds[h.eid[lev]].dtype) if rng.rand() < .5 else ids
    got = t.reduce_to_entities(h.eid[lev], arg)
    compare(h, got, expected(h, lev, ids), lev)
    ensure(trees.unchanged(h.ds, fr), "reduce_to_entities altered its input")


@case(n=2, thorough=4)
def large(rng):
    """thousands of rows"""
    for lev in range(3):
        reduce(rng, lev, n=int(rng.choice([1050, 10 ** 6])), levels=3, big=True)


@case(n=15, thorough=100)
def twice(rng):
    """the same traversal can be asked again, and all ids give everything back"""
    h = trees.hierarchy(rng, closed=True)
    t = get("glmtools.io.traversal", "OneToManyTraversal")(h.ds, h.eid, h.pid[1:])
    for _ in range(2):
        lev = int(rng.randint(0, h.L))
        ids = [int(v) for v in h.ids[lev][rng.permutation(len(h.ids[lev]))]]
        compare(h, t.reduce_to_entities(h.eid[lev], ids), expected(h, lev, ids), lev)


@case(n=10, thorough=60)
def get_flashes(rng):
    GLM = get("glmtools.io.glm", "GLMDataset")
    t = g.make_tree(rng)
    with g.scratch() as d:
        p = os.path.join(d, "f.nc")
        g.write(p, rng, t)
        ds = GLM(p, ellipse_rev=0)
        D = ds.dataset
        n = int(rng.randint(0, len(t.flash_id) + 1))
        ids = [int(v) for v in t.flash_id[rng.permutation(len(t.flash_id))[:n]]]
        r = ds.get_flashes(ids)
        ensure(r.flash_id.data.tolist() == ids, "flashes %s, asked for %s", r.flash_id.data.tolist(), ids)
        gr = [int(a) for a, b in zip(t.group_id, t.group_parent_flash_id) if b in ids]
        ensure(sorted(r.group_id.data.tolist()) == sorted(gr), "groups of the chosen flashes")
        ev = [int(a) for a, b in zip(t.event_id, t.event_parent_group_id) if b in gr]
        ensure(sorted(r.event_id.data.tolist()) == sorted(ev), "events of the chosen flashes")
        for lvl in ("flash", "group", "event"):
            pos = {v: k for k, v in enumerate(D[lvl + "_id"].data.tolist())}
            rows = [pos[v] for v in r[lvl + "_id"].data.tolist()]
            for v in D.variables:
                if D[v].dims == D[lvl + "_id"].dims:
                    a, b = r[v].data, D[v].data[rows]
                    ensure(np.array_equal(a, b) or np.array_equal(a, b, equal_nan=True), "values of %s changed", v)
        D.close()
