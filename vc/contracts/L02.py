"""Event lookup table: one record per location cell that has events, holding their sums, means and the distinct parents."""
from ..api import *
from .. import xrmod, theory, lemmas

c = Contract("L02")
MOD = "glmtools.io.glm"
FN = "get_lutevents"
ED, FD, GD = "number_of_events", "number_of_flashes", "number_of_groups"
c.assume("at least one event; flash ids and group ids are distinct and every event's parents are in the dataset (T02, T04)",
         "discretize_2d_location by its contract (L01): one number per event, the same for two events just when they share a cell",
         "values are not NaN; sums and means over the reals (accumulation in the columns' own precision is the bounded part's)",
         "any number of events, groups and flashes; any cells")


def table():
    ne, nf, ng = length("events", 1), length("flashes"), length("groups")
    cols = {k: array(k, ne) for k in ("event_x", "event_y", "event_energy")}
    for k in ("event_id", "event_parent_flash_id", "event_parent_group_id"):
        cols[k] = array(k, ne, sort="Int")
    cols["flash_id"], cols["flash_area"] = array("flash_id", nf, sort="Int"), array("flash_area", nf)
    cols["group_id"], cols["group_area"] = array("group_id", ng, sort="Int"), array("group_area", ng)
    dims = {"e": ED, "f": FD, "g": GD}
    d = {k: ((dims[k[0]],), a) for k, a in cols.items()}
    pt = z3.Int("product_time")
    d["product_time"] = ((), Arr((), lambda: mk(pt), arr.M8))
    k, j = z3.Ints("hk! hj!")
    for id_, n, par in (("flash_id", nf, "event_parent_flash_id"), ("group_id", ng, "event_parent_group_id")):
        f, p = cols[id_].sym, cols[par].sym
        row = z3.Function("row of " + id_, I, I)
        E.axioms.append(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k < j, j < n), f(k) != f(j)), patterns=[z3.MultiPattern(f(k), f(j))]))
        E.axioms.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ne), z3.And(
            row(p(k)) >= 0, row(p(k)) < n, f(row(p(k))) == p(k))), patterns=[p(k)]))
    coords = ("event_id", "flash_id", "group_id")
    D = xrmod.Dataset({v: x for v, x in d.items() if v not in coords}, coords={v: d[v] for v in coords})
    return ne, nf, ng, cols, pt, D


def cells(env, cols, ne):
    """discretize_2d_location as its contract has it"""
    C = z3.Function("cell", I, I)
    k = z3.Int("hk!")
    E.axioms.append(z3.ForAll([k], z3.And(C(k) >= 0, C(k) < 2 ** 64), patterns=[C(k)]))
    seen = []

    def disc(x, y, scale, x_range, y_range, *a, **kw):
        if a or kw:
            raise Unsupported("another type of location id")
        i = idx("handed", ne)
        prove("locations are those of the events", z3.And(raw(eq(A(x).elem(i), cols["event_x"].frozen.elem(i))),
                                                          raw(eq(A(y).elem(i), cols["event_y"].frozen.elem(i)))))
        seen.append((scale, x_range, y_range))
        return Arr((ne,), lambda i: mk(C(iraw(i))), arr.U8)
    if not hasattr(env.mod(MOD), "discretize_2d_location"):
        raise Unsupported("no discretize_2d_location")
    env.mod(MOD).discretize_2d_location = disc
    return C, seen


def reindexed(m, phi, inv, n, cols):
    """sum over q < m of g(phi(q)) = sum over f < n of g(f) where f = phi(inv(f)): the lemma `reindexing` below, for
    phi shown here to be one-to-one into 0..n"""
    q = idx(E.name("rq"), m)
    if not E.valid(z3.And(phi(q) >= 0, phi(q) < iraw(n), inv(phi(q)) == q), 6000):
        return False
    hit = lambda f: z3.And(inv(f) >= 0, inv(f) < iraw(m), phi(inv(f)) == f)
    for g in cols:
        E.assume(eq(theory.mksum(m, lambda j: g(phi(iraw(j)))), theory.mksum(n, lambda f: ite(hit(iraw(f)), g(iraw(f)), Q(0)))))
    return True


def uniques(r):
    """the arrays of distinct values made for an arbitrary record, taken at record r: (m, u, src, loc)"""
    for t, _ in E.ghost.get("unique", {}).values():
        if not hasattr(t, "uniq"):
            continue
        m, u, src, loc = t.uniq
        if len(u.ks) == 1:
            at = lambda f: lambda *a: f.decl(r, *a)
            yield z3.substitute(m, (u.ks[0], r)), at(u), at(src), at(loc)


def parents(what, r, v, n, ne, C, par, ids, area, G, rec):
    """count, total and (flashes) smallest area of the distinct parents of the cell's events"""
    H, w = z3.Function("has " + what, I, B), z3.Function("event of " + what, I, I)
    P, F = par.sym, ids.sym
    f, k = z3.Ints("hf! hk!")
    here = lambda k: C(k) == v
    E.axioms.append(z3.ForAll([f], z3.Implies(H(f), z3.And(w(f) >= 0, w(f) < ne, here(w(f)), P(w(f)) == F(f))), patterns=[H(f)]))
    E.axioms.append(z3.ForAll([f, k], z3.Implies(z3.And(f >= 0, f < n, k >= 0, k < ne, here(k), P(k) == F(f)), H(f)),
                              patterns=[z3.MultiPattern(H(f), P(k))]))
    one = lambda j: mk(z3.RealVal(1))
    ar = lambda j: area.frozen.elem(j)
    groups = E.ghost.get("groupers", [])
    evs = [g for g in groups if g.t.decl().name() == "cell"]
    own = [g for g in groups if g.t.decl().name() == F.name()]
    hints = [g.rnk(w(f_)) for g in evs for f_ in (G,)] + [g.pos(v, g.rnk(w(G))) for g in evs] + [P(w(G))] + \
            [g.pos(F(G), 0) for g in own] + [g.rnk(G) for g in own]
    for g in own:
        everywhere((n,), lambda j: z3.And(g.cnt(F(j)) == 1, g.pos(F(j), 0) == j), lambda j: [F(j)])
    for m, u, src, loc in uniques(r):
        for g in own:
            phi, inv = (lambda q: g.pos(u(q), 0)), (lambda j: loc(F(j)))
            if reindexed(m, phi, inv, n, [one, ar]):
                everywhere((n,), lambda j: H(j) == z3.And(inv(j) >= 0, inv(j) < m, phi(inv(j)) == j), lambda j: [F(j)], 8000)
    hs = [H(G)]
    cnt = theory.mksum(n, lambda j: ite(H(iraw(j)), Q(1), Q(0)))
    tot = theory.mksum(n, lambda j: ite(H(iraw(j)), ar(j), Q(0)))
    return H, w, cnt, tot, hints + hs


def some(name, n, f, cands, hints=()):
    for k in cands:
        if E.valid(z3.And(k >= 0, k < iraw(n), f(k)), 4000, list(hints)):
            prove(name, z3.And(k >= 0, k < iraw(n), f(k)), hints=list(hints))
            return
    q = z3.Int("some!")
    prove(name, z3.Not(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < iraw(n)), z3.Not(f(q))))), hints=list(hints))


def col(R, nm, d="lutevent_id"):
    if nm not in R.vars or R.vars[nm].dims != (d,):
        raise Unsupported("no column %s" % nm)
    return R.vars[nm].arr


@c.unit(MOD + "." + FN, "any table", singletons=True, timeout_ms=15000, budget_s=300)
def lut(env):
    ne, nf, ng, cols, pt, D = table()
    C, seen = cells(env, cols, ne)
    names = set(D.vars)
    s, xr_, yr_ = real("scale"), (real("x0"), real("x1")), (real("y0"), real("y1"))
    Rz = env.fn(MOD, FN)(D, scale_factor=s, x_range=xr_, y_range=yr_)
    prove("locations were discretized once", len(seen) == 1)
    for a, b, t in ((seen[0][0], s, "step"), (seen[0][1][0], xr_[0], "x range"), (seen[0][1][1], xr_[1], "x range end"),
                    (seen[0][2][0], yr_[0], "y range"), (seen[0][2][1], yr_[1], "y range end")):
        prove("discretized with the caller's " + t, eq(a, b))
    prove("variables of the caller's dataset", set(D.vars) == names)
    for k, a in cols.items():
        unchanged(k, a)
        prove("%s is carried over" % k, k in Rz.vars)
        same_array("%s of the result is that of the dataset" % k, Rz.vars[k].arr, lambda i: a.frozen.elem(i), a.shape)
    same_array("event_parent_lutevent_id is the cell of the event", col(Rz, "event_parent_lutevent_id", ED), lambda i: mk(C(iraw(i))), (ne,))
    key = col(Rz, "lutevent_id")
    N = key.shape[0]
    K = lambda r: raw(key.elem(r))
    r, r2, e = idx("rec", N), idx("rec2", N), idx("event", ne)
    for t, _ in list(E.ghost.get("unique", {}).values()):
        u = t.uniq[1] if hasattr(t, "uniq") else None
        if u is not None and not u.ks and everywhere((N,), lambda q: K(q) == u(q), lambda q: [u(q)]):
            K = u
            break
    evs = [g for g in E.ghost.get("groupers", []) if g.t.decl().name() == "cell"]
    cand = [t.uniq for t, _ in E.ghost.get("unique", {}).values() if hasattr(t, "uniq") and not t.uniq[1].ks]
    some("a record's cell has events", ne, lambda k: C(k) == K(r), [src(r) for m, u, src, loc in cand])
    some("every cell with events has a record", N, lambda q: K(q) == C(e), [loc(C(e)) for m, u, src, loc in cand])
    prove("records are of different cells", z3.Implies(r != r2, K(r) != K(r2)))
    v = K(r)
    here = lambda k: C(iraw(k)) == v
    total = lambda f: theory.mksum(ne, lambda k: ite(here(k), f(k), Q(0)))
    one = lambda k: mk(z3.RealVal(1))
    ev = {k: (lambda a: lambda i: a.frozen.elem(i))(cols[k]) for k in ("event_x", "event_y", "event_energy")}
    for g in evs:
        reindexed(g.cnt(v), lambda j: g.pos(v, j), lambda k: g.rnk(k), ne, list(ev.values()) + [one])
        everywhere((ne,), lambda k: here(k) == z3.And(g.rnk(k) >= 0, g.rnk(k) < g.cnt(v), g.pos(v, g.rnk(k)) == k), lambda k: [C(k)])
    count = total(one)
    get = lambda nm: col(Rz, "lutevent_" + nm).elem(r)
    prove("count is the number of events in the cell", eq(get("count"), count))
    prove("energy is the total of the events in the cell", eq(get("energy"), total(ev["event_energy"])))
    for x in "xy":
        prove("%s is the mean over the events of the cell" % x, eq(get(x), core.sdiv(total(ev["event_" + x]), count)))
    prove("time is the product time", eq(get("time_offset"), mk(pt)))
    for what, n, F in (("flash", nf, "flash_id"), ("group", ng, "group_id")):
        G = idx("a " + what, n)
        H, w, cnt, tot, hints = parents(what, r, v, n, ne, C, cols["event_parent_%s_id" % what], cols[F], cols[what + "_area"], G, Rz)
        prove("%s_count is the number of distinct parents of the events in the cell" % what, eq(get(what + "_count"), cnt), hints=hints)
        prove("total_%s_area is the total over those" % what, eq(get("total_%s_area" % what), tot), hints=hints)
        if what == "flash":
            mf = raw(get("min_flash_area"))
            prove("min_flash_area is not above that of any of those", z3.Implies(H(G), mf <= cols["flash_area"].sym(G)), hints=hints)
            own = [g for g in E.ghost.get("groupers", []) if g.t.decl().name() == "flash_id"]
            args = []
            some("min_flash_area is that of one of those", n, lambda f: z3.And(H(f), mf == cols["flash_area"].sym(f)), args, hints)


@c.unit("finite sums", "reindexing by a one-to-one map")
def reindexing(env):
    lemmas.reindexing()


@c.unit("lookup records (consequence of one record per cell)", "totals over records equal totals over events")
def totals(env):
    lemmas.totals()
