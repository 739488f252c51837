import numpy as np
from collections import Counter
import os
from harness import case, get, ensure, same, Fail
import trees
import glmfile as g


def trav(h):
    return get("glmtools.io.traversal", "OneToManyTraversal")(h.ds, h.eid, h.pid[1:])


@case(n=40, thorough=400)
def immediate_children(rng):
    h = trees.hierarchy(rng, empty=rng.rand() < .3)
    t = trav(h)
    for i in range(h.L - 1):
        fr = trees.frozen(h.ds)
        got = t.count_children(h.eid[i])
        ensure(len(got) == 1, "count_children(%s) returned %d levels", h.eid[i], len(got))
        want = [sum(1 for p in h.par[i + 1].tolist() if p == e) for e in h.ids[i].tolist()]
        same(np.asarray(got[0]).astype("i8"), np.array(want, dtype="i8"), "children of %s" % h.eid[i])
        own = set(h.ids[i].tolist())
        ensure(int(np.sum(got[0])) == sum(p in own for p in h.par[i + 1].tolist()), "counts do not add up")
        ensure(trees.unchanged(h.ds, fr), "count_children altered the dataset")


@case(n=2, thorough=4)
def large(rng):
    """thousands of rows"""
    h = trees.hierarchy(rng, levels=3, closed=rng.rand() < .5, big=True)
    got = trav(h).count_children(h.eid[0], h.eid[2])
    ensure(len(got) == 2, "%d levels", len(got))
    for i in range(2):
        have = Counter(h.par[i + 1].tolist())
        same(np.asarray(got[i]).astype("i8"), np.array([have[e] for e in h.ids[i].tolist()]), "children of %s" % h.eid[i])


@case(n=30, thorough=300)
def down_to_level(rng):
    h = trees.hierarchy(rng, levels=int(rng.choice([3, 4])), empty=rng.rand() < .2)
    t = trav(h)
    i = int(rng.randint(0, h.L - 1))
    j = int(rng.randint(i + 1, h.L))
    got = t.count_children(h.eid[i], h.eid[j])
    ensure(len(got) == j - i, "count_children(%s, %s) gave %d levels, expected %d", h.eid[i], h.eid[j], len(got), j - i)
    for k in range(i, j):
        want = [sum(1 for p in h.par[k + 1].tolist() if p == e) for e in h.ids[k].tolist()]
        same(np.asarray(got[k - i]).astype("i8"), np.array(want, dtype="i8"), "children of %s" % h.eid[k])


@case(n=12, thorough=80)
def dataset_counts(rng):
    """flash_child_group_count, group_child_event_count, flash_child_event_count of an opened file"""
    GLM = get("glmtools.io.glm", "GLMDataset")
    closed = rng.rand() < .6
    t = g.make_tree(rng, closed=closed, ngr=None if closed else int(rng.randint(1, 12)), nev=None if closed else int(rng.randint(1, 20)))
    with g.scratch() as d:
        p = os.path.join(d, "f.nc")
        g.write(p, rng, t)
        ds = GLM(p, ellipse_rev=0, check_tree=closed or rng.rand() < .5)
        D = ds.dataset
        fid, gid = D.flash_id.data.tolist(), D.group_id.data.tolist()
        gp, ep = D.group_parent_flash_id.data.tolist(), D.event_parent_group_id.data.tolist()
        g2f = dict(zip(gid, gp))
        same(D.flash_child_group_count.data, [gp.count(f) for f in fid], "flash_child_group_count")
        same(D.group_child_event_count.data, [ep.count(x) for x in gid], "group_child_event_count")
        ef = [g2f[x] for x in ep]
        same(D.flash_child_event_count.data, [ef.count(f) for f in fid], "flash_child_event_count")
        ensure(D.flash_child_group_count.dims == D.flash_id.dims and D.flash_child_event_count.dims == D.flash_id.dims
               and D.group_child_event_count.dims == D.group_id.dims, "counts are on the wrong dimension")
        D.close()


@case(n=2, thorough=6)
def empty_file(rng):
    GLM = get("glmtools.io.glm", "GLMDataset")
    t = g.make_tree(rng, 0, 0, 0)
    with g.scratch() as d:
        p = os.path.join(d, "f.nc")
        g.write(p, rng, t)
        ds = GLM(p, ellipse_rev=0, check_tree=False)
        for v in ("flash_child_group_count", "group_child_event_count", "flash_child_event_count"):
            ensure(ds.dataset[v].shape == (0,), v + " of an empty file")
        ds.dataset.close()
