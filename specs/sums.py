"""Sums of products over vectors, with lemmas proved by induction (discharged by z3 on every run)."""
from base import *
from vc import MULT

AI = z3.ArraySort(I, I)
SP = z3.Function("SP", AI, AI, I, I)          # SP(r, v, n) = sum_{j<n} r[j]*v[j]
LEMMAS = {}


def E(r, j):
    return z3.Select(r, ADR(IV(0), j))


def sp_def(r, v, n):
    return [SP(r, v, IV(0)) == 0, Implies(n >= 0, SP(r, v, n + 1) == SP(r, v, n) + E(r, n) * v[n])]


def lemma(name, props):
    def d(f):
        LEMMAS[name] = dict(props=props, f=f)
        return f
    return d


def induct(st, defs, n):
    """Obligations for: for all n >= 0: st(n)."""
    return [("base", [d for d in defs(IV(0))], st(IV(0))), ("step", [n >= 0, st(n)] + defs(n), st(n + 1))]


def row_of(m, i):
    """Row i of a matrix as an array (rows start at offset 0)."""
    return z3.Select(m.v.key("c.i64"), m.rb(i))


# ---- statements (instances are used as definitions in contracts)
_j = z3.Int("lj")


def same(c, x, v, w, n):
    """Equal entries, equal sums."""
    return Implies(And(n >= 0, z3.ForAll([_j], Implies(And(0 <= _j, _j < n), And(E(c, _j) == E(x, _j), v[_j] == w[_j])), patterns=[E(c, _j)])), SP(c, v, n) == SP(x, w, n))


def lin(c, a, x, b, y, v, n):
    return Implies(And(n >= 0, z3.ForAll([_j], Implies(And(0 <= _j, _j < n), E(c, _j) == a * E(x, _j) - b * E(y, _j)), patterns=[E(c, _j)])), SP(c, v, n) == a * SP(x, v, n) - b * SP(y, v, n))


def lin0(c, a, x, b, y, v, n):
    """A combination of rows that vanish on v vanishes on v."""
    return Implies(And(n >= 0, z3.ForAll([_j], Implies(And(0 <= _j, _j < n), E(c, _j) == E(x, _j) * a - E(y, _j) * b), patterns=[E(c, _j)]), SP(x, v, n) == 0, SP(y, v, n) == 0), SP(c, v, n) == 0)


def neg(c, x, v, n):
    return Implies(And(n >= 0, z3.ForAll([_j], Implies(And(0 <= _j, _j < n), E(c, _j) == -E(x, _j)), patterns=[E(c, _j)])), SP(c, v, n) == -SP(x, v, n))


def unit(c, k, v, n):
    return Implies(And(0 <= k, k < n, z3.ForAll([_j], Implies(And(0 <= _j, _j < n), E(c, _j) == If(_j == k, 1, 0)), patterns=[E(c, _j)])), SP(c, v, n) == v[k])


def inter(r, t, z, x, T, k, d, nr, n):
    """r = (-t[0..d), unit_k of nr entries, -t[d..n)), z = (x[0..d), T.., x[d..n)) with z[d+k] = sum t*x: r vanishes on z."""
    return Implies(And(0 <= d, d <= n, 0 <= k, k < nr, T == SP(t, x, n), z[d + k] == T,
                       z3.ForAll([_j], Implies(And(0 <= _j, _j < n + nr), And(E(r, _j) == If(_j < d, -E(t, _j), If(_j < d + nr, If(_j == d + k, 1, 0), -E(t, _j - nr))), Implies(_j < d, z[_j] == x[_j]), Implies(_j >= d + nr, z[_j] == x[_j - nr]))), patterns=[E(r, _j)])),
                   SP(r, z, n + nr) == 0)


def dropn(s, r, i, w, z, d, n):
    """r vanishes on z and has only entry i among its first d: the rest gives -r[i]*z[i] on the rest of z."""
    return Implies(And(0 <= i, i < d, n >= 0, SP(r, z, d + n) == 0, z3.ForAll([_j], Implies(And(0 <= _j, _j < d, _j != i), E(r, _j) == 0), patterns=[E(r, _j)]),
                       z3.ForAll([_j], Implies(And(0 <= _j, _j < n), And(E(s, _j) == E(r, d + _j), w[_j] == z[d + _j])), patterns=[E(s, _j)])),
                   SP(s, w, n) == -(E(r, i) * z[i]))


def _arrs(names):
    return [z3.Array(x, I, I) for x in names.split()]


def scale(s, d, r, L, y, w, n):
    """Entries of s times d are those of r times L; r gives d*y on w: s gives L*y."""
    return Implies(And(n >= 0, d != 0, z3.ForAll([_j], Implies(And(0 <= _j, _j < n), E(s, _j) * d == E(r, _j) * L), patterns=[E(s, _j)]), SP(r, w, n) == d * y), SP(s, w, n) == L * y)


@lemma("sum of scaled entries", ("C15",))
def _l8():
    s, r, w = _arrs("s r w")
    n, d, L, y, A, B = z3.Ints("n d L y A B")
    h = lambda n: z3.ForAll([_j], Implies(And(0 <= _j, _j < n), E(s, _j) * d == E(r, _j) * L), patterns=[E(s, _j)])
    return induct(lambda n: Implies(h(n), SP(s, w, n) * d == SP(r, w, n) * L), lambda n: sp_def(s, w, n) + sp_def(r, w, n), n) + \
        [("cancel", [d != 0, A * d == (d * y) * L], A == L * y),
         ("used form", [Implies(h(n), SP(s, w, n) * d == SP(r, w, n) * L), Implies(And(d != 0, SP(s, w, n) * d == (d * y) * L), SP(s, w, n) == L * y)], scale(s, d, r, L, y, w, n))]


@lemma("sum of equal entries", ("C15",))
def _l1():
    c, x, v, w = _arrs("c x v w")
    n = z3.Int("n")
    return induct(lambda n: same(c, x, v, w, n), lambda n: sp_def(c, v, n) + sp_def(x, w, n) + [E(c, n) == E(c, n)], n)


@lemma("sum of a linear combination", ("C15",))
def _l2():
    c, x, y, v = _arrs("c x y v")
    n, a, b = z3.Ints("n a b")
    df = lambda n: sp_def(c, v, n) + sp_def(x, v, n) + sp_def(y, v, n)
    gen = induct(lambda n: lin(c, a, x, b, y, v, n), df, n)
    return gen + [("vanishing", [lin(c, a, x, b, y, v, n)], lin0(c, a, x, b, y, v, n))]


@lemma("sum of negated entries", ("C15",))
def _l3():
    c, x, v = _arrs("c x v")
    n = z3.Int("n")
    return induct(lambda n: neg(c, x, v, n), lambda n: sp_def(c, v, n) + sp_def(x, v, n), n)


@lemma("sum with a unit vector", ("C15",))
def _l4():
    c, v = _arrs("c v")
    n, k = z3.Ints("n k")
    pre = lambda n: z3.ForAll([_j], Implies(And(0 <= _j, _j < n), E(c, _j) == If(_j == k, 1, 0)), patterns=[E(c, _j)])
    gen = lambda n: Implies(And(0 <= k, pre(n)), SP(c, v, n) == If(k < n, v[k], 0))
    return induct(gen, lambda n: sp_def(c, v, n) + [E(c, n) == E(c, n)], n) + [("used form", [gen(n)], unit(c, k, v, n))]


@lemma("schedule row with its time", ("C15",))
def _l5():
    r, t, z, x = _arrs("r t z x")
    k, d, nr, n, N, T, m = z3.Ints("k d nr n N T m")
    hyp = [0 <= d, d <= N, 0 <= k, k < nr, z[d + k] == T,
           z3.ForAll([_j], Implies(And(0 <= _j, _j < N + nr), And(E(r, _j) == If(_j < d, -E(t, _j), If(_j < d + nr, If(_j == d + k, 1, 0), -E(t, _j - nr))), Implies(_j < d, z[_j] == x[_j]), Implies(_j >= d + nr, z[_j] == x[_j - nr]))), patterns=[E(r, _j)])]
    gen = lambda m: Implies(And(0 <= m, m <= N + nr), SP(r, z, m) == If(m <= d, -SP(t, x, m), If(m <= d + nr, -SP(t, x, d) + If(m > d + k, T, 0), T - SP(t, x, m - nr))))
    return [("base", hyp + sp_def(r, z, IV(0)) + sp_def(t, x, IV(0)), gen(IV(0))),
            ("step", hyp + [m >= 0, gen(m)] + sp_def(r, z, m) + sp_def(t, x, m) + sp_def(t, x, m - nr), gen(m + 1)),
            ("used form", [Implies(And(*hyp), gen(N + nr))], inter(r, t, z, x, T, k, d, nr, N))]


@lemma("dropping solved columns", ("C15",))
def _l6():
    s, r, w, z = _arrs("s r w z")
    i, d, n, m = z3.Ints("i d n m")
    h1 = [0 <= i, i < d, z3.ForAll([_j], Implies(And(0 <= _j, _j < d, _j != i), E(r, _j) == 0), patterns=[E(r, _j)])]
    g1 = lambda m: Implies(And(0 <= m, m <= d), SP(r, z, m) == If(m > i, E(r, i) * z[i], 0))
    h2 = [z3.ForAll([_j], Implies(And(0 <= _j, _j < n), And(E(s, _j) == E(r, d + _j), w[_j] == z[d + _j])), patterns=[E(s, _j)])]
    g2 = lambda m: Implies(And(0 <= m, m <= n), SP(r, z, d + m) == SP(r, z, d) + SP(s, w, m))
    return [("base 1", h1 + sp_def(r, z, IV(0)), g1(IV(0))), ("step 1", h1 + [m >= 0, g1(m)] + sp_def(r, z, m) + [E(r, m) == E(r, m)], g1(m + 1)),
            ("base 2", h1 + h2 + sp_def(s, w, IV(0)), g2(IV(0))), ("step 2", h1 + h2 + [m >= 0, g2(m)] + sp_def(r, z, d + m) + sp_def(s, w, m), g2(m + 1)),
            ("used form", [Implies(And(*h1), g1(d)), Implies(And(*h2), g2(n))], dropn(s, r, i, w, z, d, n))]


PR = z3.Function("PR", I, AI)


def exch(prow, acc, R, x, w, L, m, n):
    """prow[c] = sum_{k<m} E(acc, k)*R(k)[c]; every R(k) gives L*x[k] on w: prow gives L*(sum acc*x) on w.  prow(q): partial rows."""
    q = z3.Int("lq")
    return Implies(And(m >= 0, n >= 0, forall([_j], Implies(And(0 <= _j, _j < n), E(prow(IV(0)), _j) == 0), [E(prow(IV(0)), _j)]),
                       forall([q, _j], Implies(And(0 <= q, q < m, 0 <= _j, _j < n), E(prow(q + 1), _j) == E(prow(q), _j) + E(acc, q) * E(R(q), _j)), [[E(R(q), _j)]]),
                       forall([q], Implies(And(0 <= q, q < m), SP(R(q), w, n) == L * x[q]), [R(q)])), SP(prow(m), w, n) == L * SP(acc, x, m))


@lemma("exchange of sums", ("C15",))
def _l7():
    acc, x, w, c, y = _arrs("acc x w c y")
    Rf = z3.Function("Rf", I, AI)
    L, m, n, a = z3.Ints("L m n a")
    df = lambda m: sp_def(acc, x, m) + [SP(acc, x, IV(0)) == 0]
    # SP(c + a*y) and SP of a zero row
    add = lambda c2, c1, a, y, n: Implies(And(n >= 0, z3.ForAll([_j], Implies(And(0 <= _j, _j < n), E(c2, _j) == E(c1, _j) + a * E(y, _j)), patterns=[E(y, _j)])), SP(c2, w, n) == SP(c1, w, n) + a * SP(y, w, n))
    zero = lambda c, n: Implies(And(n >= 0, z3.ForAll([_j], Implies(And(0 <= _j, _j < n), E(c, _j) == 0), patterns=[E(c, _j)])), SP(c, w, n) == 0)
    c2, c1 = _arrs("c2 c1")
    q = z3.Int("lq")
    hyp = [n >= 0, forall([_j], Implies(And(0 <= _j, _j < n), E(PR(IV(0)), _j) == 0), [E(PR(IV(0)), _j)])]
    hm = lambda m: [forall([q, _j], Implies(And(0 <= q, q < m, 0 <= _j, _j < n), E(PR(q + 1), _j) == E(PR(q), _j) + E(acc, q) * E(Rf(q), _j)), [[E(Rf(q), _j)]]),
                    forall([q], Implies(And(0 <= q, q < m), SP(Rf(q), w, n) == L * x[q]), [Rf(q)])]
    return induct(lambda n: add(c2, c1, a, y, n), lambda n: sp_def(c2, w, n) + sp_def(c1, w, n) + sp_def(y, w, n) + [E(y, n) == E(y, n)], n) + \
        induct(lambda n: zero(c, n), lambda n: sp_def(c, w, n) + [E(c, n) == E(c, n)], n) + \
        [("base 2", hyp + df(IV(0)) + [zero(PR(IV(0)), n)], SP(PR(IV(0)), w, n) == L * SP(acc, x, IV(0))),
         ("step 2", hyp + hm(m + 1) + df(m) + [m >= 0, Implies(And(*hm(m)), SP(PR(m), w, n) == L * SP(acc, x, m)), add(PR(m + 1), PR(m), E(acc, m), Rf(m), n)], SP(PR(m + 1), w, n) == L * SP(acc, x, m + 1))]


# ---- truncating division
def tdiv_def(a, b):
    """C's division."""
    q = TDIV(a, b)
    r = a - b * q
    ab = If(b > 0, b, -b)
    return Implies(b != 0, If(a >= 0, And(r >= 0, r < ab), And(r <= 0, -r < ab)))


def lb_true(a, c, x):
    """a*x + c >= 0: the rounded-up quotient is at most x."""
    return And(Implies(And(a >= 1, a * x + c >= 0), TDIV(-c, a) + If(And(c < 0, c - a * TDIV(c, a) != 0), 1, 0) <= x), Implies(And(a != 0, a * x + c == 0), TDIV(-c, a) == x))


def ub_true(a, c, x):
    return And(Implies(And(a <= -1, a * x + c >= 0), TDIV(c, -a) - If(And(c < 0, c - a * TDIV(c, a) != 0), 1, 0) >= x), Implies(And(a != 0, a * x + c == 0), TDIV(-c, a) == x))


@lemma("rounded quotients are bounds", ("C14",))
def _l9():
    a, c, x, q, q2, k = z3.Ints("a c x q q2 k")
    d = [tdiv_def(-c, a), tdiv_def(c, a), tdiv_def(c, -a)]
    # monotone products: a >= 1 and a*u >= a*v - (a-1) gives u >= v
    mono = lambda a, u, v: Implies(And(a >= 1, a * u > a * v - a), u >= v)
    Q, Q2, Q3 = TDIV(-c, a), TDIV(c, a), TDIV(c, -a)
    return [("monotone", [], mono(a, q, q2)),
            ("lower", d + [mono(a, x, Q), mono(a, x, Q + 1), mono(a, Q, -Q2), mono(a, -Q2, Q)], Implies(And(a >= 1, a * x + c >= 0), Q + If(And(c < 0, c - a * Q2 != 0), 1, 0) <= x)),
            ("exact", d + [mono(a, x, Q), mono(a, Q, x), mono(-a, x, Q), mono(-a, Q, x)], Implies(And(a != 0, a * x + c == 0), Q == x)),
            ("upper", d + [mono(-a, Q3, x), mono(-a, Q3 - 1, x), mono(-a, Q3, -Q2), mono(-a, -Q2, Q3)], Implies(And(a <= -1, a * x + c >= 0), Q3 - If(And(c < 0, c - a * Q2 != 0), 1, 0) >= x))]


def fac(x, y):
    """Factors that make y and x cancel: y*f = x*g, f > 0."""
    a = lambda t: If(t >= 0, t, -t)
    l = LCM(a(x), a(y))
    return If(y > 0, TDIV(l, y), TDIV(-l, y)), If(y > 0, TDIV(l, x), TDIV(-l, x))


def fac_ok(x, y):
    f, g = fac(x, y)
    return Implies(And(x != 0, y != 0), And(f > 0, y * f == x * g))


@lemma("factors from the least common multiple", ("C04",))
def _l12():
    x, y, k, m, u, v, q, l = z3.Ints("x y k m u v q l")
    a = lambda t: If(t >= 0, t, -t)
    L = LCM(a(x), a(y))
    exact = lambda u, v, q: Implies(And(v != 0, u == v * q), TDIV(u, v) == q)
    lf = [L > 0, L == a(x) * k, L == a(y) * m]
    mono = lambda a, u, v: Implies(And(a >= 1, a * u > a * v - a), u >= v)
    kpos = Implies(And(v > 0, v * q > 0), q > 0)
    return [("monotone", [], mono(u, v, q)), ("positive", [], kpos),
            ("exact quotient", [tdiv_def(u, v), u == v * q, mono(v, TDIV(u, v), q), mono(v, q, TDIV(u, v)), mono(-v, TDIV(u, v), q), mono(-v, q, TDIV(u, v)), v != 0], TDIV(u, v) == q)] + [
            ("factors, signs %d %d" % (sx, sy), [sx * x > 0, sy * y > 0, l > 0, l == (sx * x) * k, l == (sy * y) * m, Implies(And(sy * y > 0, (sy * y) * m > 0), m > 0), exact(l, y, sy * m), exact(-l, y, -sy * m), exact(l, x, sx * k), exact(-l, x, -sx * k)],
             (lambda f, g: And(f > 0, y * f == x * g))(TDIV(l, y) if sy > 0 else TDIV(-l, y), TDIV(l, x) if sy > 0 else TDIV(-l, x))) for sx in (1, -1) for sy in (1, -1)]


# ---- rows inside a buffer
SPO = z3.Function("SPO", AI, I, AI, I, I)        # SPO(b, o, v, n) = sum_{j<n} b[o, j]*v[j]
DROP = z3.Function("DROP", AI, I, AI)            # a vector without entry k


def EO(b, o, j):
    return z3.Select(b, ADR(o, j))


def spo_def(b, o, v, n):
    return [SPO(b, o, v, IV(0)) == 0, Implies(n >= 0, SPO(b, o, v, n + 1) == SPO(b, o, v, n) + EO(b, o, n) * v[n])]


def drop_def(v, k):
    return forall([_j], DROP(v, k)[_j] == If(_j < k, v[_j], v[_j + 1]), [DROP(v, k)[_j]])


def pos_def(f, s, t):
    """Multiplying by a positive number keeps the sign."""
    return Implies(And(f > 0, t == f * s), And((t >= 0) == (s >= 0), (t == 0) == (s == 0)))


def elimdrop(c, co, f, x, xo, g, y, yo, v, k, n):
    """c = f*x - g*y without entry k, which cancels."""
    return Implies(And(0 <= k, k < n, EO(x, xo, k) * f == EO(y, yo, k) * g,
                       forall([_j], Implies(And(0 <= _j, _j < n - 1), EO(c, co, _j) == If(_j < k, EO(x, xo, _j) * f - EO(y, yo, _j) * g, EO(x, xo, _j + 1) * f - EO(y, yo, _j + 1) * g)), [EO(c, co, _j)])),
                   SPO(c, co, DROP(v, k), n - 1) == f * SPO(x, xo, v, n) - g * SPO(y, yo, v, n))


def elimeq(c, co, f, x, xo, g, y, yo, v, k, n):
    """Substituting an equality that v satisfies: the sign of the row at v is kept."""
    a, b = SPO(c, co, DROP(v, k), n - 1), SPO(x, xo, v, n)
    return Implies(And(f > 0, SPO(y, yo, v, n) == 0, 0 <= k, k < n, EO(x, xo, k) * f == EO(y, yo, k) * g,
                       forall([_j], Implies(And(0 <= _j, _j < n - 1), EO(c, co, _j) == If(_j < k, EO(x, xo, _j) * f - EO(y, yo, _j) * g, EO(x, xo, _j + 1) * f - EO(y, yo, _j + 1) * g)), [EO(c, co, _j)])),
                   And((a >= 0) == (b >= 0), (a == 0) == (b == 0)))


@lemma("sum of a combination without the cancelled entry", ("C04",))
def _l10():
    c, x, y, v = _arrs("c x y v")
    n, N, co, xo, yo, f, g, k, m, S, T = z3.Ints("n N co xo yo f g k m S T")
    hyp = [0 <= k, k < N, EO(x, xo, k) * f == EO(y, yo, k) * g, drop_def(v, k),
           forall([_j], Implies(And(0 <= _j, _j < N - 1), EO(c, co, _j) == If(_j < k, EO(x, xo, _j) * f - EO(y, yo, _j) * g, EO(x, xo, _j + 1) * f - EO(y, yo, _j + 1) * g)), [EO(c, co, _j)])]
    X, Y = (lambda m: SPO(x, xo, v, m)), (lambda m: SPO(y, yo, v, m))
    Z = lambda m: SPO(c, co, DROP(v, k), m)
    gen = lambda m: Implies(And(0 <= m, m <= N - 1), Z(m) == If(m <= k, f * X(m) - g * Y(m), f * X(m + 1) - g * Y(m + 1)))
    mul = lambda a, b, c: a * (b + c) == a * b + a * c
    # one step, with products as ring identities
    step = hyp + [m >= 0, gen(m)] + spo_def(c, co, DROP(v, k), m) + spo_def(x, xo, v, m) + spo_def(y, yo, v, m) + spo_def(x, xo, v, m + 1) + spo_def(y, yo, v, m + 1)
    return [("base", hyp + spo_def(c, co, DROP(v, k), IV(0)) + spo_def(x, xo, v, IV(0)) + spo_def(y, yo, v, IV(0)), gen(IV(0))),
            ("step below", step + [m < k], gen(m + 1)),
            ("step above", step + [m >= k], gen(m + 1)),
            ("last", hyp + [N - 1 == k] + spo_def(x, xo, v, N - 1) + spo_def(y, yo, v, N - 1), f * X(N - 1) - g * Y(N - 1) == f * X(N) - g * Y(N)),
            ("used form", [Implies(And(*hyp), And(gen(N - 1), Implies(N - 1 == k, f * X(N - 1) - g * Y(N - 1) == f * X(N) - g * Y(N)))), drop_def(v, k)], elimdrop(c, co, f, x, xo, g, y, yo, v, k, N)),
            ("positive multiple", [], pos_def(f, S, T)),
            ("substitution", [elimdrop(c, co, f, x, xo, g, y, yo, v, k, N), pos_def(f, SPO(x, xo, v, N), SPO(c, co, DROP(v, k), N - 1))], elimeq(c, co, f, x, xo, g, y, yo, v, k, N))]


def sameo(c, co, x, xo, v, n):
    return Implies(And(n >= 0, forall([_j], Implies(And(0 <= _j, _j < n), EO(c, co, _j) == EO(x, xo, _j)), [EO(c, co, _j)])), SPO(c, co, v, n) == SPO(x, xo, v, n))


def gcdo(c, co, x, xo, g, v, n):
    """c*g = x with g > 0: same sign."""
    a, b = SPO(c, co, v, n), SPO(x, xo, v, n)
    return Implies(And(n >= 0, g > 0, forall([_j], Implies(And(0 <= _j, _j < n), EO(c, co, _j) * g == EO(x, xo, _j)), [EO(c, co, _j)])), And((a >= 0) == (b >= 0), (a == 0) == (b == 0)))


def zeroo(c, co, v, n):
    return Implies(And(n >= 0, forall([_j], Implies(And(0 <= _j, _j < n), EO(c, co, _j) == 0), [EO(c, co, _j)])), SPO(c, co, v, n) == 0)


@lemma("sums over rows of a buffer", ("C04",))
def _l11():
    c, x, v = _arrs("c x v")
    n, co, xo, g, S, T = z3.Ints("n co xo g S T")
    h = lambda n: forall([_j], Implies(And(0 <= _j, _j < n), EO(c, co, _j) * g == EO(x, xo, _j)), [EO(c, co, _j)])
    gen = lambda n: Implies(And(n >= 0, h(n)), SPO(x, xo, v, n) == g * SPO(c, co, v, n))
    df = lambda n: spo_def(c, co, v, n) + spo_def(x, xo, v, n) + [EO(c, co, n) == EO(c, co, n)]
    return induct(lambda n: sameo(c, co, x, xo, v, n), df, n) + induct(lambda n: zeroo(c, co, v, n), df, n) + induct(gen, df, n) + [
        ("positive multiple", [], pos_def(g, S, T)), ("used form", [gen(n), pos_def(g, SPO(c, co, v, n), SPO(x, xo, v, n))], gcdo(c, co, x, xo, g, v, n))]


def lino(c, co, f, x, xo, g, y, yo, v, n):
    return Implies(And(n >= 0, forall([_j], Implies(And(0 <= _j, _j < n), EO(c, co, _j) == EO(x, xo, _j) * f - EO(y, yo, _j) * g), [EO(c, co, _j)])), SPO(c, co, v, n) == f * SPO(x, xo, v, n) - g * SPO(y, yo, v, n))


@lemma("sum of a combination of rows of a buffer", ("C04",))
def _l13():
    c, x, y, v = _arrs("c x y v")
    n, co, xo, yo, f, g = z3.Ints("n co xo yo f g")
    return induct(lambda n: lino(c, co, f, x, xo, g, y, yo, v, n), lambda n: spo_def(c, co, v, n) + spo_def(x, xo, v, n) + spo_def(y, yo, v, n) + [EO(c, co, n) == EO(c, co, n)], n)


LEMMAS["components from the numbers of two searches (lemmas/Scc.lean)"] = dict(props=("C06",), lean="Scc.lean")
LEMMAS["gcd, lcm and truncated division (lemmas/Arith.lean)"] = dict(props=("C02", "C04", "C09", "C15"), lean="Arith.lean")


def check_lean(name, f):
    """Facts about integers the contracts use, checked by Lean (no sorry, only the standard axioms)."""
    import os
    import re
    import subprocess
    import time
    t = time.time()
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lemmas", f)
    names = re.findall(r"^theorem (\S+)", open(path).read(), re.M)
    try:
        src = open(path).read() + "".join("\n#print axioms %s.%s" % (f[:-5], n) for n in names) + "\n"
        r = subprocess.run(["lean", "--stdin"], input=src, capture_output=True, text=True, timeout=300)
        out = r.stdout + r.stderr
        ok = r.returncode == 0
    except (OSError, subprocess.TimeoutExpired) as e:
        out, ok = str(e), False
    obls = []
    for n in names:
        m = re.search(r"'" + f[:-5] + r"\.%s' (does not depend on any axioms|depends on axioms: \[([^\]]*)\])" % re.escape(n), out)
        good = ok and m and not set(re.findall(r"\w+(?:\.\w+)*", m.group(2) or "")) - {"propext", "Classical.choice", "Quot.sound"}
        obls.append(dict(name=n, kind="lemma", line=0, status="proved" if good else "failed", how="lean", time=round((time.time() - t) / len(names), 3), reason="" if good else out[:300]))
    return dict(fn="lemma: " + name, status="proved" if all(o["status"] == "proved" for o in obls) else "failed", obls=obls, used=[], inlined=[], err="", time=round(time.time() - t, 2))


def check_lemma(name):
    import time
    import solve
    t = time.time()
    obls = []
    if "lean" in LEMMAS[name]:
        return check_lean(name, LEMMAS[name]["lean"])
    for lbl, facts, goal in LEMMAS[name]["f"]():
        t1 = time.time()
        for seed, opts, m in solve.STRATS:
            r, s = solve.prove(facts, z3.BoolVal(True), goal, 20000000, seed, opts)
            if r == z3.unsat:
                break
        obls.append(dict(name=lbl, kind="lemma", line=0, status="proved" if r == z3.unsat else "failed", how="z3", time=round(time.time() - t1, 3), reason="" if r == z3.unsat else str(r)))
    return dict(fn="lemma: " + name, status="proved" if all(o["status"] == "proved" for o in obls) else "failed", obls=obls, used=[], inlined=[], err="", time=round(time.time() - t, 2))


if __name__ == "__main__":
    for k in LEMMAS:
        r = check_lemma(k)
        print(k, r["status"], r["time"], [(o["name"], o["reason"]) for o in r["obls"] if o["status"] != "proved"])


def mul_def():
    x, y = z3.Ints("mx my")
    return forall([x, y], MULT(x, y) == x * y, [MULT(x, y)])


def elimpair(c, co, f, x, xo, g, y, yo, v, k, n):
    """c = f*x + g*y without entry k, which cancels: its value at v without entry k; positive factors keep it non-negative."""
    X, Y, Z = SPO(x, xo, v, n), SPO(y, yo, v, n), SPO(c, co, DROP(v, k), n - 1)
    return Implies(And(0 <= k, k < n, MULT(EO(x, xo, k), f) + MULT(EO(y, yo, k), g) == 0,
                       forall([_j], Implies(And(0 <= _j, _j < n - 1), EO(c, co, _j) == If(_j < k, MULT(EO(x, xo, _j), f) + MULT(EO(y, yo, _j), g), MULT(EO(x, xo, _j + 1), f) + MULT(EO(y, yo, _j + 1), g))), [EO(c, co, _j)])),
                   And(Z == MULT(f, X) + MULT(g, Y), Implies(And(f > 0, g > 0, X >= 0, Y >= 0), Z >= 0)))


def lcm_pair(x, y):
    """x < 0 < y: the factors that make them cancel are positive."""
    f, g = TDIV(LCM(y, -x), -x), TDIV(LCM(-x, y), y)
    return Implies(And(x < 0, y > 0), And(f > 0, g > 0, MULT(x, f) + MULT(y, g) == 0))


def lcm_mult(x, y):
    """x, y > 0: their least common multiple is a positive multiple of both (what the least common multiple is)."""
    l = LCM(x, y)
    return Implies(And(x > 0, y > 0), And(l > 0, TDIV(l, x) * x == l, TDIV(l, y) * y == l, TDIV(l, x) > 0, TDIV(l, y) > 0, LCM(y, x) == l))


@lemma("sum of a pair of bounds without the cancelled entry", ("C04",))
def _l14():
    c, x, y, v = _arrs("c x y v")
    N, co, xo, yo, f, g, k, X, Y, a, b = z3.Ints("N co xo yo f g k X Y a b")
    el = elimdrop(c, co, f, x, xo, -g, y, yo, v, k, N)
    X, Y, Z = SPO(x, xo, v, N), SPO(y, yo, v, N), SPO(c, co, DROP(v, k), N - 1)
    md = lambda *ps: [MULT(p, q) == p * q for p, q in ps]
    ent = forall([_j], And(MULT(EO(x, xo, _j), f) == EO(x, xo, _j) * f, MULT(EO(y, yo, _j), g) == EO(y, yo, _j) * g), [[EO(x, xo, _j)], [EO(y, yo, _j)]])
    pr = elimpair(c, co, f, x, xo, g, y, yo, v, k, N)
    hyp = pr.arg(0)
    e = lambda z, o, j: EO(z, o, j)
    j = z3.Int("sj")
    row = And(*[MULT(e(z, o, t), h) == e(z, o, t) * h for z, o, h in ((x, xo, f), (y, yo, g)) for t in (j, j + 1, k)])
    inst = Implies(And(0 <= j, j < N - 1), EO(c, co, j) == If(j < k, MULT(e(x, xo, j), f) + MULT(e(y, yo, j), g), MULT(e(x, xo, j + 1), f) + MULT(e(y, yo, j + 1), g)))
    return [("entries", [inst, row], Implies(And(0 <= j, j < N - 1), EO(c, co, j) == If(j < k, e(x, xo, j) * f - e(y, yo, j) * -g, e(x, xo, j + 1) * f - e(y, yo, j + 1) * -g))),
            ("cancelled entry", [MULT(e(x, xo, k), f) + MULT(e(y, yo, k), g) == 0, row], e(x, xo, k) * f == e(y, yo, k) * -g),
            ("value", md((f, X), (g, Y)) + [Z == f * X - -g * Y], Z == MULT(f, X) + MULT(g, Y)),
            ("sign", md((f, X), (g, Y)) + [Z == MULT(f, X) + MULT(g, Y), f > 0, g > 0, X >= 0, Y >= 0], Z >= 0),
            ("factors cancel", [lcm_mult(-a, b), lcm_mult(b, -a), MULT(a, TDIV(LCM(b, -a), -a)) == a * TDIV(LCM(b, -a), -a), MULT(b, TDIV(LCM(-a, b), b)) == b * TDIV(LCM(-a, b), b)], lcm_pair(a, b))]


def unito(c, co, k, v, n):
    return Implies(And(0 <= k, k < n, forall([_j], Implies(And(0 <= _j, _j < n), EO(c, co, _j) == If(_j == k, 1, 0)), [EO(c, co, _j)])), SPO(c, co, v, n) == v[k])


def samepo(c, co, v, w, n):
    """Points that agree give the same sum."""
    return Implies(And(n >= 0, forall([_j], Implies(And(0 <= _j, _j < n), v[_j] == w[_j]), [v[_j]])), SPO(c, co, v, n) == SPO(c, co, w, n))


@lemma("value of a unit row; of a row at points that agree", ("C04", "C09"))
def _l15():
    c, v, w = _arrs("c v w")
    n, co, k = z3.Ints("n co k")
    pre = lambda n: forall([_j], Implies(And(0 <= _j, _j < n), EO(c, co, _j) == If(_j == k, 1, 0)), [EO(c, co, _j)])
    gen = lambda n: Implies(And(0 <= k, pre(n)), SPO(c, co, v, n) == If(k < n, v[k], 0))
    df = lambda n: spo_def(c, co, v, n) + [EO(c, co, n) == EO(c, co, n)]
    return induct(gen, df, n) + [("used form", [gen(n)], unito(c, co, k, v, n))] + induct(lambda n: samepo(c, co, v, w, n), lambda n: spo_def(c, co, v, n) + spo_def(c, co, w, n) + [v[n] == v[n]], n)
