import numpy as np
import os
from harness import case, get, ensure, same, Fail
import trees
import glmfile as g


@case(n=50, thorough=500)
def check_reports(rng, **size):
    h = trees.hierarchy(rng, closed=rng.rand() < .3, empty=rng.rand() < .15, **size)
    t = get("glmtools.io.traversal", "OneToManyTraversal")(h.ds, h.eid, h.pid[1:])
    es, ps = t.check_parent_child()
    for k in range(1, h.L):
        pa, ch = set(h.ids[k - 1].tolist()), set(h.par[k].tolist())
        n, bad, ids = es[h.eid[k - 1]]
        ensure(n == len(pa), "%s: %d unique ids, expected %d", h.eid[k - 1], n, len(pa))
        ensure({int(i) for i in ids} == pa - ch and bad == len(pa - ch), "%s without children: %s, expected %s", h.eid[k - 1], sorted(ids)[:9], sorted(pa - ch)[:9])
        n, bad, ids = ps[h.pid[k]]
        ensure(n == len(ch), "%s: %d unique ids, expected %d", h.pid[k], n, len(ch))
        ensure({int(i) for i in ids} == ch - pa and bad == len(ch - pa), "%s without parent: %s, expected %s", h.pid[k], sorted(ids)[:9], sorted(ch - pa)[:9])
    ensure(set(es) == set(h.eid[:-1]) and set(ps) == set(h.pid[1:]), "levels reported: %s %s", list(es), list(ps))


@case(n=2, thorough=4)
def large(rng):
    """thousands of rows"""
    check_reports(rng, levels=3, big=True)
    repair(rng, nfl=1100, ngr=2300, nev=3500)


@case(n=40, thorough=300)
def repair(rng, **size):
    GLM = get("glmtools.io.glm", "GLMDataset")
    mode = int(rng.randint(5))
    t = g.make_tree(rng, closed=True, **size)
    used = set(t.flash_id.tolist()) | set(t.group_id.tolist())
    if mode in (1, 4) and len(t.group_id) > 1:      # orphan groups (at least one real one kept)
        k = rng.randint(1, len(t.group_id))
        for r in rng.permutation(len(t.group_id))[:k]:
            t.group_parent_flash_id[r] = g.fresh_id(rng, set(t.flash_id.tolist()), 65536)
        if not set(t.group_parent_flash_id.tolist()) & set(t.flash_id.tolist()):
            t.group_parent_flash_id[0] = t.flash_id[0]
    if mode in (2, 4) and len(t.event_id) > 1:      # orphan events
        k = rng.randint(1, len(t.event_id))
        for r in rng.permutation(len(t.event_id))[:k]:
            t.event_parent_group_id[r] = g.fresh_id(rng, set(t.group_id.tolist()), 2 ** 32)
    if mode in (3, 4):                              # flashes without groups
        f = int(t.flash_id[rng.randint(len(t.flash_id))])
        others = [x for x in t.flash_id.tolist() if x != f]
        if others:
            t.group_parent_flash_id[t.group_parent_flash_id == f] = others[0]
    with g.scratch() as d:
        p = os.path.join(d, "f.nc")
        g.write(p, rng, t)
        # expected: flashes with at least one group, all their groups, all events of those groups
        own = set(t.group_parent_flash_id.tolist())
        fl = [f for f in t.flash_id.tolist() if f in own]
        own = set(fl)
        gr = [a for a, b in zip(t.group_id.tolist(), t.group_parent_flash_id.tolist()) if b in own]
        own = set(gr)
        ev = [a for a, b in zip(t.event_id.tolist(), t.event_parent_group_id.tolist()) if b in own]
        if not ev and len(t.event_id):
            return
        ds = GLM(p, ellipse_rev=0)
        D = ds.dataset
        ensure(sorted(D.flash_id.data.tolist()) == sorted(fl), "flashes kept %s, expected %s", sorted(D.flash_id.data.tolist())[:99], sorted(fl)[:99])
        ensure(sorted(D.group_id.data.tolist()) == sorted(gr), "groups kept %s, expected %s", sorted(D.group_id.data.tolist())[:99], sorted(gr)[:99])
        ensure(sorted(D.event_id.data.tolist()) == sorted(ev), "events kept %s, expected %s", sorted(D.event_id.data.tolist())[:99], sorted(ev)[:99])
        ensure(set(D.event_parent_group_id.data.tolist()) <= set(D.group_id.data.tolist()), "an event names a missing group")
        ensure(set(D.group_parent_flash_id.data.tolist()) <= set(D.flash_id.data.tolist()), "a group names a missing flash")
        ensure(set(D.flash_id.data.tolist()) == set(D.group_parent_flash_id.data.tolist()), "a flash without groups was kept")
        # rows carry their own values
        for lvl, ids in (("group", t.group_id), ("event", t.event_id)):
            par = {"group": t.group_parent_flash_id, "event": t.event_parent_group_id}[lvl]
            m = dict(zip(ids.tolist(), par.tolist()))
            pn = {"group": "group_parent_flash_id", "event": "event_parent_group_id"}[lvl]
            same(D[pn].data, [m[i] for i in D[lvl + "_id"].data.tolist()], "links of " + lvl)
        D.close()


@case(n=3, thorough=10)
def repair_off_or_good(rng):
    """a consistent file is not changed by the check"""
    GLM = get("glmtools.io.glm", "GLMDataset")
    t = g.make_tree(rng, closed=True)
    with g.scratch() as d:
        p = os.path.join(d, "f.nc")
        g.write(p, rng, t)
        a, b = GLM(p, ellipse_rev=0), GLM(p, ellipse_rev=0, check_tree=False)
        for v in ("flash_id", "group_id", "event_id", "group_parent_flash_id", "event_parent_group_id", "event_energy", "flash_area"):
            x, y = a.dataset[v].data, b.dataset[v].data
            ensure(np.array_equal(x, y, equal_nan=(x.dtype.kind == "f")), "%s changed though the tree was consistent", v)
        a.dataset.close()
        b.dataset.close()


@case(n=2, thorough=4)
def empty_file_opens(rng):
    """a file without lightning opens with the tree check on"""
    GLM = get("glmtools.io.glm", "GLMDataset")
    t = g.make_tree(rng, 0, 0, 0)
    with g.scratch() as d:
        p = os.path.join(d, "f.nc")
        g.write(p, rng, t)
        ds = GLM(p, ellipse_rev=0)
        ensure(ds.dataset.flash_id.shape == (0,), "empty file")
        ds.dataset.close()
