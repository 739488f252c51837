import numpy as np
from harness import case, get, ensure, same, close, Fail, Skip
import geom


def sliced(rng, XY=None, n=None):
    M = get("glmtools.grid.clipping", "QuadMeshSubset")
    S = get("glmtools.grid.clipping", "QuadMeshPolySlicer")
    X, Y = geom.mesh(rng, True) if XY is None else XY
    s = S(M(X, Y, regular=True))
    n = int(rng.randint(0, 6)) if n is None else n
    polys = [geom.convex(rng, rng.uniform(X.min() - .5, X.max() + .5), rng.uniform(Y.min() - .5, Y.max() + .5),
                         float(rng.choice([.05, .5, 2.]))) for _ in range(n)]
    pieces, areas = s.slice(polys, bbox=True)
    kind = rng.randint(5)
    if kind == 0:
        ids = rng.randint(0, 2 ** 31, n)
    elif kind == 1:
        ids = np.sort(rng.choice(2 ** 16, n, replace=False)).astype("u2")[::-1]
    elif kind == 2:
        ids = (2 ** 40 + rng.choice(10 ** 6, n, replace=False)).astype("u8")
    elif kind == 3:
        ids = rng.randint(2 ** 53, 2 ** 63 - 1, n).astype("u8") | np.uint64(1)
    else:
        ids = list(rng.randint(0, 4, n))            # the same parent more than once
    return X, Y, s, polys, pieces, areas, ids


def expected(X, Y, pieces, areas, ids):
    rows = []
    for (sub, frac, (xi, yi)), a, i in zip(pieces, areas, ids):
        for q in range(len(sub)):
            p = np.asarray(sub[q], dtype="f8")
            c = geom.area(geom.cellpoly(X, Y, int(xi[q]), int(yi[q])))
            rows.append((p, sum(v[0] for v in p) / len(p), sum(v[1] for v in p) / len(p), float(frac[q]), float(frac[q]) * a / c,
                         int(xi[q]), int(yi[q]), int(i)))
    return rows


@case(n=60, thorough=800)
def records(rng, *size):
    f = get("glmtools.grid.split_events", "split_event_data")
    X, Y, s, polys, pieces, areas, ids = sliced(rng, *size)
    sub, d = f(pieces, areas, s, ids)
    rows = expected(X, Y, pieces, areas, ids)
    ensure(len(sub) == len(rows) and d.shape == (len(rows),), "%d pieces gave %d polygons and %s records", len(rows), len(sub), d.shape)
    for k, r in enumerate(rows):
        same(np.asarray(sub[k], dtype="f8"), r[0], "polygon of record %d" % k)
    col = lambda j: np.array([r[j] for r in rows], dtype="f8").reshape(-1)
    close(d["poly_ctr"][:, 0], col(1), "centre x", 1e-12, 1e-12)
    close(d["poly_ctr"][:, 1], col(2), "centre y", 1e-12, 1e-12)
    close(d["event_frac_area"], col(3), "share of the parent's area", 1e-12)
    close(d["mesh_frac_area"], col(4), "share of the mesh cell", 1e-9)
    same(d["mesh_idx"][:, 0], np.array([r[5] for r in rows], dtype="i8"), "first mesh index")
    same(d["mesh_idx"][:, 1], np.array([r[6] for r in rows], dtype="i8"), "second mesh index")
    ensure([int(v) for v in d["event_id"]] == [r[7] for r in rows], "parent id %s, expected %s", d["event_id"][:9], [r[7] for r in rows][:9])
    same(d["event_id"], np.array([r[7] for r in rows], dtype="u8"), "parent id")


@case(n=2, thorough=4)
def large(rng):
    """many polygons; mesh indices of more than two bytes"""
    records(rng, geom.mesh(rng, True, big=True), 400)
    e = np.arange(180001) * .5, np.arange(3) * 2.
    X, Y = np.meshgrid(*e, indexing="ij") if rng.rand() < .5 else np.meshgrid(*e)
    records(rng, (X, Y), 6)


@case(n=30, thorough=300)
def generated(rng):
    f = get("glmtools.grid.split_events", "gen_split_events")
    X, Y, s, polys, pieces, areas, ids = sliced(rng)
    rows = expected(X, Y, pieces, areas, range(len(polys)))
    got = list(f(pieces, areas, s))
    ensure(len(got) == len(rows), "%d records for %d pieces", len(got), len(rows))
    for k, (g, r) in enumerate(zip(got, rows)):
        sq, mean, fr, qf, (a, b), i = g
        same(np.asarray(sq, dtype="f8"), r[0], "polygon")
        close(mean, [r[1], r[2]], "centre", 1e-12, 1e-12)
        close(fr, r[3], "share of parent", 1e-12)
        close(qf, r[4], "share of cell", 1e-9)
        ensure((int(a), int(b), int(i)) == (r[5], r[6], r[7]), "labels %s, expected %s", (a, b, i), r[5:])


@case(n=40, thorough=400)
def tables(rng):
    """each field in its own column, row for row, for records with arbitrary contents"""
    n = int(rng.randint(0, 9))
    d = np.zeros(n, dtype=[("poly_ctr", "f8", (2,)), ("event_frac_area", "f8"), ("mesh_frac_area", "f8"), ("mesh_idx", "i8", (2,)), ("event_id", "u8")])
    d["poly_ctr"] = rng.randn(n, 2)
    d["event_frac_area"] = rng.rand(n)
    d["mesh_frac_area"] = rng.rand(n)
    d["mesh_idx"] = rng.randint(0, 10 ** 5, (n, 2))
    d["event_id"] = rng.randint(0, 2 ** 40, n).astype("u8")
    keep = d.copy()
    for kind in ("event", "group", "flash"):
        f = get("glmtools.grid.split_events", "split_%s_dataset_from_props" % kind)
        for nm in (None, ("first_name", "second_name")):
            t = f(d) if nm is None else f(d, centroid_names=nm)
            a, b = nm or ("split_%s_lon" % kind, "split_%s_lat" % kind)
            pre = "split_%s_" % kind
            want = {a: d["poly_ctr"][:, 0], b: d["poly_ctr"][:, 1], pre + "mesh_area_fraction": d["mesh_frac_area"],
                    pre + "area_fraction": d["event_frac_area"], pre + "mesh_x_idx": d["mesh_idx"][:, 0],
                    pre + "mesh_y_idx": d["mesh_idx"][:, 1], pre + "parent_%s_id" % kind: d["event_id"]}
            for k, v in want.items():
                ensure(k in t.variables, "column %s is missing", k)
                same(t[k].data, v, "column %s" % k)
                ensure(t[k].dims == ("number_of_split_%s_children" % kind,), "dimension of %s is %s", k, t[k].dims)
    same(d, keep, "records must not change")
