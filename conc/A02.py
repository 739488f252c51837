import numpy as np
from harness import case, get, ensure, same, close, Fail


def batch(rng, shape, dt, zeros=False):
    ny, nx = shape
    n = int(rng.randint(0, min(nx * ny, 12 if nx * ny < 100 else 10 ** 6) + 1))
    c = rng.choice(nx * ny, n, replace=False)
    b = np.zeros(n, dtype=[("v", dt), ("other", "f8"), ("mesh_xi", "i4"), ("mesh_yi", "i4")])
    b["mesh_yi"], b["mesh_xi"] = c // nx, c % nx
    b["v"] = np.where(rng.rand(n) < .2, np.float32(.5), rng.uniform(.01, 100, n))
    if zeros:
        b["v"][rng.rand(n) < .3] = 0
    b["other"] = -1e9
    if rng.rand() < .3:
        import pandas as pd
        return b, pd.DataFrame(b)
    return b, b


def shape(rng):
    if rng.rand() < .02:                           # more records than a block of a thousand
        return (int(rng.randint(40, 70)), int(rng.randint(40, 70)))
    return (int(rng.randint(1, 9)), int(rng.randint(1, 9)))


@case(n=150, thorough=2000)
def summing(rng):
    f = get("glmtools.grid.accumulate", "accumulate_var_on_grid_direct_idx")
    sh = shape(rng)
    grid = (rng.rand(*sh) * (rng.rand() < .5)).astype(rng.choice(["f4", "f8"]))
    want = grid.astype("f8")
    out = {}
    t = f(grid, "v", "mesh_xi", "mesh_yi", out=out) if rng.rand() < .5 else f(grid, "v", "mesh_xi", "mesh_yi")
    for _ in range(int(rng.randint(0, 6))):
        b, sent = batch(rng, sh, "f4")
        keep = b.copy()
        t.send(sent)
        same(b, keep, "the records must not change")
        for r in b:
            want[r["mesh_yi"], r["mesh_xi"]] += float(r["v"])
    close(grid, want, "summing grid", 1e-4, 1e-6)
    ensure(np.array_equal(grid == 0, want == 0), "a cell no record was addressed to changed")
    t.close()


@case(n=150, thorough=2000)
def minimum(rng):
    f = get("glmtools.grid.accumulate", "accumulate_minvar_on_grid_direct_idx")
    sh = shape(rng)
    grid = np.zeros(sh, dtype=rng.choice(["f4", "f8"]))
    want = np.zeros(sh)
    t = f(grid, "v", "mesh_xi", "mesh_yi")
    for _ in range(int(rng.randint(0, 6))):
        b, sent = batch(rng, sh, "f4", rng.rand() < .3)
        t.send(sent)
        for r in b:
            w = want[r["mesh_yi"], r["mesh_xi"]]
            if r["v"] > 0:
                want[r["mesh_yi"], r["mesh_xi"]] = float(r["v"]) if w == 0 else min(w, float(r["v"]))
    same(grid.astype("f8"), want, "minimum grid")
    t.close()


class Sink:
    def __init__(self):
        self.got = []

    def send(self, x):
        self.got.append(x)


@case(n=60, thorough=500)
def selecting(rng):
    f = get("glmtools.grid.accumulate", "select_dataset")
    for ev in (True, False, None):
        s = Sink()
        t = f(s) if ev is None else f(s, use_event_data=ev)
        want = []
        for _ in range(int(rng.randint(0, 6))):
            a, b = rng.rand(int(rng.randint(0, 3))), rng.rand(int(rng.randint(0, 3)))
            t.send((a, b))
            c = b if ev is False else a
            if len(c):
                want.append(c)
        ensure(len(s.got) == len(want), "use_event_data=%s passed on %d of %d nonempty batches", ev, len(s.got), len(want))
        for x, y in zip(s.got, want):
            same(x, y, "batch passed on with use_event_data=%s" % ev)
