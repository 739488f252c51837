import numpy as np
import os
from harness import case, get, ensure, same, Fail
import trees
import glmfile as g


@case(n=50, thorough=500)
def ancestors(rng, **size):
    h = trees.hierarchy(rng, closed=bool(size) or rng.rand() < .5, **size)
    t = get("glmtools.io.traversal", "OneToManyTraversal")(h.ds, h.eid, h.pid[1:])
    i = int(rng.randint(0, h.L - 1))
    # follow the links; None where a link is missing on the way
    cur = h.par[h.L - 1].tolist()
    for k in range(h.L - 2, i, -1):
        up = dict(zip(h.ids[k].tolist(), h.par[k].tolist()))
        cur = [up.get(c) if c is not None else None for c in cur]
    fr = trees.frozen(h.ds)
    try:
        got = t.replicate_parent_ids(h.eid[i], h.pid[h.L - 1])
    except (KeyError, IndexError, ValueError):
        if None in cur:
            return                       # refusing is fine, inventing is not
        raise Fail("look-up raised although every link exists")
    ensure(trees.unchanged(h.ds, fr), "look-up altered the dataset")
    got = np.asarray(got).tolist()
    ensure(len(got) == len(cur), "%d ancestors for %d rows", len(got), len(cur))
    for r, (a, b) in enumerate(zip(got, cur)):
        ensure(b is None or a == b, "row %d: ancestor %s is %r, expected %r", r, h.eid[i], a, b)
        if b is None:
            ensure(a not in h.ids[i].tolist() or h.L - 1 == i, "row %d has no such ancestor but got %r", r, a)


@case(n=2, thorough=4)
def large(rng):
    """thousands of rows"""
    ancestors(rng, levels=3, big=True)


@case(n=20, thorough=200)
def from_middle_level(rng):
    h = trees.hierarchy(rng, levels=4, closed=True)
    t = get("glmtools.io.traversal", "OneToManyTraversal")(h.ds, h.eid, h.pid[1:])
    got = np.asarray(t.replicate_parent_ids(h.eid[0], h.pid[2]))
    up = dict(zip(h.ids[1].tolist(), h.par[1].tolist()))
    same(got, [up[p] for p in h.par[2].tolist()], "ancestor of the middle level")


@case(n=10, thorough=80)
def event_parent_flash(rng):
    GLM = get("glmtools.io.glm", "GLMDataset")
    t = g.make_tree(rng)
    with g.scratch() as d:
        p = os.path.join(d, "f.nc")
        g.write(p, rng, t)
        ds = GLM(p, ellipse_rev=0)
        D = ds.dataset
        g2f = dict(zip(t.group_id.tolist(), t.group_parent_flash_id.tolist()))
        same(D.event_id.data, t.event_id, "event rows")
        same(D.event_parent_flash_id.data, [g2f[x] for x in t.event_parent_group_id.tolist()], "event_parent_flash_id")
        D.close()
