"""Facts about finite sums shown by induction, for use as instances in contracts."""
import z3
from .api import E, I, R, prove


def totals():
    """T(r, m): sum over the first m parts that belong to record r; D(q, m): its sum over the first q records."""
    v, cell = z3.Function("v", I, R), z3.Function("recordof", I, I)
    T, D, S_ = z3.Function("T", I, I, R), z3.Function("D", I, I, R), z3.Function("total", I, R)
    r, k = z3.Ints("r! k!")
    q, m, nrec = z3.Ints("q m nrec")
    E.axioms += [S_(0) == 0, z3.ForAll([k], z3.Implies(k >= 0, S_(k + 1) == S_(k) + v(k))),
                 z3.ForAll([r], T(r, 0) == 0),
                 z3.ForAll([r, k], z3.Implies(k >= 0, T(r, k + 1) == T(r, k) + z3.If(cell(k) == r, v(k), 0))),
                 z3.ForAll([k], D(0, k) == 0),
                 z3.ForAll([r, k], z3.Implies(r >= 0, D(r + 1, k) == D(r, k) + T(r, k))),
                 # every part belongs to exactly one record (shown above)
                 z3.ForAll([k], z3.Implies(k >= 0, z3.And(cell(k) >= 0, cell(k) < nrec)))]
    E.assume(z3.And(m >= 0, q >= 0))
    grow = lambda q: D(q, m + 1) == D(q, m) + z3.If(cell(m) < q, v(m), 0)
    prove("one more part changes one record: base", grow(z3.IntVal(0)))
    prove("one more part changes one record: step", z3.Implies(grow(q), grow(q + 1)))
    none = lambda q: D(q, 0) == 0
    prove("no parts: base", none(z3.IntVal(0)))
    prove("no parts: step", z3.Implies(none(q), none(q + 1)))
    prove("total: base", z3.Implies(none(nrec), D(nrec, 0) == S_(0)))
    prove("total: step", z3.Implies(z3.And(grow(nrec), D(nrec, m) == S_(m)), D(nrec, m + 1) == S_(m + 1)))


def reindexing():
    """induction on m: S(m) = sum over q < m of g(phi(q)); T(n, m) = sum over f < n of g(f) where inv(f) in 0..m and phi(inv(f)) = f"""
    g, phi, inv = z3.Function("g", I, R), z3.Function("phi", I, I), z3.Function("inv", I, I)
    S_, T = z3.Function("S", I, R), z3.Function("T", I, I, R)
    q, f = z3.Ints("q! f!")
    m, M, n, j = z3.Ints("m M n j")
    hit = lambda f, m: z3.And(inv(f) >= 0, inv(f) < m, phi(inv(f)) == f)
    E.axioms += [S_(0) == 0, z3.ForAll([q], z3.Implies(q >= 0, S_(q + 1) == S_(q) + g(phi(q)))),
                 z3.ForAll([q], T(0, q) == 0),
                 z3.ForAll([f, q], z3.Implies(f >= 0, T(f + 1, q) == T(f, q) + z3.If(hit(f, q), g(f), 0))),
                 z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < M), z3.And(phi(q) >= 0, phi(q) < n, inv(phi(q)) == q)))]
    E.assume(z3.And(m >= 0, m < M, j >= 0))
    none = lambda f: T(f, 0) == 0
    prove("nothing is hit at first: base", none(z3.IntVal(0)))
    prove("nothing is hit at first: step", z3.Implies(none(j), none(j + 1)))
    more = lambda f: T(f, m + 1) == T(f, m) + z3.If(phi(m) < f, g(phi(m)), 0)
    prove("one more of the former is one more of the latter: base", more(z3.IntVal(0)))
    prove("one more of the former is one more of the latter: step", z3.Implies(more(j), more(j + 1)))
    prove("sums agree: base", z3.Implies(none(n), S_(0) == T(n, 0)))
    prove("sums agree: step", z3.Implies(z3.And(more(n), S_(m) == T(n, m)), S_(m + 1) == T(n, m + 1)))


def member():
    """a sum of values that are not negative is at least each of them; S(m): sum of the first m"""
    b, S_ = z3.Function("b", I, R), z3.Function("S", I, R)
    q = z3.Int("q!")
    m, j = z3.Ints("m j")
    E.axioms += [S_(0) == 0, z3.ForAll([q], z3.Implies(q >= 0, z3.And(b(q) >= 0, S_(q + 1) == S_(q) + b(q))))]
    E.assume(z3.And(m >= 0, j >= 0))
    prove("no sum is negative: base", S_(0) >= 0)
    prove("no sum is negative: step", z3.Implies(S_(m) >= 0, S_(m + 1) >= 0))
    prove("every value is within the sum: base", z3.Implies(j < 0, b(j) <= S_(0)))
    prove("every value is within the sum: step", z3.Implies(z3.And(S_(m) >= 0, z3.Implies(j < m, b(j) <= S_(m))),
                                                            z3.Implies(j < m + 1, b(j) <= S_(m + 1))))
