"""Contract for pluto_constraints_simplify (C04): the rows kept have exactly the solutions of the rows given."""
from elim import *
from elim import _F

# ------------------------------------------------------------------ normalisation and removal of duplicates
QSRC = {}


def qsrc(n, v, base, i):
    """Sorting: which element comes to position i (QS), and where element i goes (QI)."""
    hs = [v.key("c.p.row_info.b")]
    if n not in QSRC:
        QSRC[n] = z3.Function(n, *([h.sort() for h in hs] + [I] * 3))
    return QSRC[n](*(hs + [base, i]))


def qs_ens(c):
    v, b, n = c.post, c["base"].blk, c["nmemb"]
    S, T = (lambda i: qsrc("QS", v, b, i)), (lambda i: qsrc("QI", v, b, i))
    p = lambda v, i: v.pcell("row_info", b, i)
    return [("a permutation", And(forall([i_], Implies(And(0 <= i_, i_ < n), And(0 <= S(i_), S(i_) < n, T(S(i_)) == i_, p(c.post, i_) == p(c.pre, S(i_)))), [[S(i_)], [p(c.post, i_)]]),
                                  forall([i_], Implies(And(0 <= i_, i_ < n), And(0 <= T(i_), T(i_) < n, S(T(i_)) == i_, p(c.post, T(i_)) == p(c.pre, i_))), [[T(i_)], [p(c.pre, i_)]])))]


contract("qsort", assumed=True, allocs=False, decl=[("base", ("ptr", ("ptr", ("struct", "row_info")))), ("nmemb", ("int", 64)), ("size", ("int", 64)), ("compar", ("ptr", ("void",)))],
         requires=lambda c: [("array", And(c["base"].off == 0, LEN(c["base"].blk) >= 8 * c["nmemb"]))],
         modifies=lambda c: {"c.p.row_info.b": [c["base"].blk]}, ensures=qs_ens)


DVD = z3.Function("DIVIDES", I, I, z3.BoolSort())
NRD = z3.Function("NRD", AI, I, I)
PMI = z3.Function("PMI", AI, I, I)


def sg(s, t):
    return And((s >= 0) == (t >= 0), (s == 0) == (t == 0))


def same_all(b, a):
    return ("@def", forall([r_], sameo(rb_(b), b.ro(r_), rb_(a), a.ro(r_), XG, b.nc), [b.ro(r_)]))


class Simp:
    def __init__(self, L, st=None):
        self.L = L
        v = st or L.st
        self.a, self.b = Cst(L.pre, L["cst"]), Cst(v, L["cst"])
        self.v = v

    def tmp(self, nr0=True):
        L, v = self.L, self.v
        t, a, b = Cst(v, L.v("tmpcst")), self.a, self.b
        red = L.v("is_redun").blk
        out = [("tmp: " + l, f) for l, f in t.wf()] + t.fresh_from(L.pre) + [("tmp extents", And(t.anr >= a.nr, t.anc >= a.nc, t.nc == a.nc, a.nr >= 1)), ("flags", And(live_(v, red), red >= L.pre.nb, LEN(red) >= 4 * a.nr, red != t.c, red != t.val, red != t.buf, red != t.eqb))]
        return out + ([("no rows yet", t.nr == 0)] if nr0 else [])

    def kept(self):
        """The system's own fields."""
        a, b = self.a, self.b
        return [("same storage", And(b.val == a.val, b.buf == a.buf, b.eqb == a.eqb, b.nr == a.nr, b.nc == a.nc, b.anr == a.anr, b.anc == a.anc))]

    def alive(self):
        return [("still there: " + l, f) for l, f in self.b.wf()[:5]]

    def signs(self, n, src=None):
        a, b = self.a, self.b
        src = src or (lambda i: i)
        return ("rows keep their sign", forall([r_], Implies(And(0 <= r_, r_ < n), sg(rowsum(b, r_), rowsum(a, src(r_)))), [b.ro(r_)]))

    def perm(self):
        v, a = self.v, self.a
        base = self.L.v("rows").blk
        S, T = (lambda i: qsrc("QS", v, base, i)), (lambda i: qsrc("QI", v, base, i))
        return S, T, [("permutation", And(forall([i_], Implies(And(0 <= i_, i_ < a.nr), And(0 <= S(i_), S(i_) < a.nr, T(S(i_)) == i_)), [S(i_)]), forall([i_], Implies(And(0 <= i_, i_ < a.nr), And(0 <= T(i_), T(i_) < a.nr, S(T(i_)) == i_)), [T(i_)])))]

    def sorted(self):
        a, b = self.a, self.b
        S, T, pm = self.perm()
        return self.alive() + pm + [self.signs(a.nr, S), ("kinds follow", forall([r_], Implies(And(0 <= r_, r_ < a.nr), b.eq(r_) == a.eq(S(r_))), [b.eq(r_)]))] + b.rows_(self.v, a.nr)

    def red(self, k):
        return self.v.i32(self.L.v("is_redun").blk, k)

    def implied(self, n):
        b = self.b
        return ("rows marked redundant are implied", Implies(forall([r_], Implies(And(0 <= r_, r_ < n, self.red(r_) == 0), holds(b, r_)), [b.ro(r_)]), forall([r_], Implies(And(0 <= r_, r_ < n), holds(b, r_)), [b.ro(r_)])))


def live_(v, b):
    return And(b > 0, b < v.nb, Not(v.freed(b)))


def si_inv(k):
    def f(L):
        S = Simp(L)
        a, b = S.a, S.b
        n, nc = a.nr, a.nc
        if k == 0:
            return S.tmp() + [same_all(b, a), ("i", L.i <= n), S.signs(L.i), ("rest untouched", forall([r_, j_], Implies(And(L.i <= r_, r_ < n, 0 <= j_, j_ < nc), b.at(r_, j_) == a.at(r_, j_)), [b.at(r_, j_)]))]
        if k == 1:
            return [("zero so far", forall([j_], Implies(And(0 <= j_, j_ < L.i), b.at(L.up(), j_) == 0), [b.at(L.up(), j_)])), ("j", L.i <= nc)]
        if k == 2:
            g = L.v("_gcd")
            return [("@def", forall([j_], DVD(j_, IV(0)), [DVD(j_, IV(0))])), ("positive", g > 0), ("divides so far", forall([j_], Implies(And(0 <= j_, j_ < L.i), DVD(g, b.at(L.up(), j_))), [b.at(L.up(), j_)])), ("j", L.i <= nc)]
        if k == 3:
            g, i = L.v("_gcd"), L.up()
            e = Cst(L.entry, L["cst"])
            x = z3.Int("dx")
            return [("@def", forall([x], Implies(DVD(g, x), TDIV(x, g) * g == x), [DVD(g, x)])), same_all(b, e), ("@def", gcdo(rb_(b), b.ro(i), rb_(e), e.ro(i), g, XG, nc)),
                    ("positive", g > 0), ("divides", forall([j_], Implies(And(0 <= j_, j_ < nc), DVD(g, e.at(i, j_))), [e.at(i, j_)])), ("j", L.i <= nc), ("i", And(0 <= i, i < n)),
                    ("other rows", forall([r_, j_], Implies(And(0 <= r_, r_ < n, r_ != i, 0 <= j_, j_ < nc), b.at(r_, j_) == e.at(r_, j_)), [b.at(r_, j_)])),
                    ("this row", forall([j_], Implies(And(0 <= j_, j_ < nc), b.at(i, j_) == If(j_ < L.i, TDIV(e.at(i, j_), g), e.at(i, j_))), [b.at(i, j_)]))]
        rows = L.v("rows").blk
        rw = lambda q: L.st.pcell("row_info", rows, q)
        F = lambda n_, q: L.st.f("row_info", n_, rw(q), IV(0))
        if k in (4, 5):
            out = S.tmp() + [("table", And(live_(L.st, rows), rows >= L.pre.nb, LEN(rows) >= 8 * n)), ("i", L.i <= n)]
            if k == 4:
                return out + [S.signs(n), ("infos", forall([r_], Implies(And(0 <= r_, r_ < L.i), And(live_(L.st, rw(r_)), rw(r_) >= L.entry.nb, LEN(rw(r_)) >= sizeof(L.st, "row_info"), F("row", r_) == b.buf, F("row@o", r_) == b.ro(r_), F("is_eq", r_) == b.eq(r_))), [rw(r_)])),
                              ("in order", forall([r_, k_], Implies(And(0 <= r_, r_ < k_, k_ < L.i), rw(r_) < rw(k_)), [[rw(r_), rw(k_)]]))]
            e = Cst(L.entry, L["cst"])
            Q, T, pm = S.perm()
            return out + S.alive() + pm + [("infos", forall([r_], Implies(And(0 <= r_, r_ < n), And(rw(r_) > rows, rw(r_) >= L.pre.nb, LEN(rw(r_)) >= sizeof(L.st, "row_info"), F("row", r_) == b.buf, F("row@o", r_) == e.ro(Q(r_)), F("is_eq", r_) == e.eq(Q(r_)), Implies(r_ >= L.i, live_(L.st, rw(r_))))), [rw(r_)])),
                               ("distinct", forall([r_, k_], Implies(And(0 <= r_, r_ < k_, k_ < n), rw(r_) != rw(k_)), [[rw(r_), rw(k_)]])),
                               ("rows so far", forall([r_], Implies(And(0 <= r_, r_ < n), And(b.rb(r_) == b.buf, b.ro(r_) == If(r_ < L.i, e.ro(Q(r_)), e.ro(r_)), b.eq(r_) == If(r_ < L.i, e.eq(Q(r_)), e.eq(r_)))), [[b.ro(r_)], [b.eq(r_)], [b.rb(r_)]])),
                               ("rest of the table", forall([r_], Implies(And(n <= r_, r_ < a.anr), And(b.rb(r_) == b.buf, b.ro(r_) == e.ro(r_))), [[b.ro(r_)], [b.rb(r_)]]))]
        if k == 6:
            return S.tmp() + S.sorted() + [("i", And(1 <= L.i, L.i <= n)), S.implied(L.i), ("@def", Implies(And(0 <= L.i, L.i < n), zeroo(rb_(b), b.ro(L.i), XG, nc))), ("@def", Implies(And(1 <= L.i, L.i < n), sameo(rb_(b), b.ro(L.i - 1), rb_(b), b.ro(L.i), XG, nc)))]
        if k == 7:
            return [("zero so far", forall([j_], Implies(And(0 <= j_, j_ < L.i), b.at(L.up(), j_) == 0), [b.at(L.up(), j_)])), ("j", L.i <= nc)]
        if k == 8:
            return [("equal so far", forall([j_], Implies(And(0 <= j_, j_ < L.i), b.at(L.up() - 1, j_) == b.at(L.up(), j_)), [[b.at(L.up() - 1, j_)], [b.at(L.up(), j_)]])), ("j", L.i <= nc)]
        if k == 9:
            t, red = Cst(L.st, L.v("tmpcst")), L.v("is_redun").blk
            R = z3.Select(L.entry.key("c.i32"), red)
            S.red = lambda k: z3.Select(R, k)
            pi = PMI(R, r_)
            return S.tmp() + S.sorted() + [("@def", And(NRD(R, IV(0)) == 0, NRD(R, L.i + 1) == NRD(R, L.i) + If(S.red(L.i) == 0, 1, 0), Implies(S.red(L.i) == 0, PMI(R, NRD(R, L.i)) == L.i))),
                ("flags kept", z3.Select(L.st.key("c.i32"), red) == R), ("i", L.i <= n), ("p", And(L.v("p") == NRD(R, L.i), 0 <= L.v("p"), L.v("p") <= L.i)), S.implied(n),
                ("where kept rows go", forall([r_], Implies(And(0 <= r_, r_ < L.i, S.red(r_) == 0), And(0 <= NRD(R, r_), NRD(R, r_) < L.v("p"), PMI(R, NRD(R, r_)) == r_)), [NRD(R, r_)])),
                ("where copied rows come from", forall([r_], Implies(And(0 <= r_, r_ < L.v("p")), And(0 <= pi, pi < L.i, S.red(pi) == 0, NRD(R, pi) == r_, t.eq(r_) == b.eq(pi))), [[pi], [t.eq(r_)]])),
                ("copied rows", forall([r_, j_], Implies(And(0 <= r_, r_ < L.v("p"), 0 <= j_, j_ < nc), t.at(r_, j_) == b.at(pi, j_)), [t.at(r_, j_)]))]
    return f


def gcd_hint(c):
    x = z3.Int("dx")
    g, p, q = c.ret, c.call[0], c.call[1]
    return [("@def", And(DVD(g, p), DVD(g, -p))), ("@def", forall([x], Implies(DVD(q, x), DVD(g, x)), [DVD(g, x)]))]


def cp_hint(c):
    a, b, b2 = Cst(c.pre, c["cst"]), Cst(c.cpre, c["cst"]), Cst(c.post, c["cst"])
    red, base = c.lv("is_redun").blk, c.lv("rows").blk
    R = z3.Select(c.cpre.key("c.i32"), red)
    Q, T = (lambda i: qsrc("QS", c.cpre, base, i)), (lambda i: qsrc("QI", c.cpre, base, i))
    n = a.nr
    pi = PMI(R, r_)
    inr = lambda x: And(0 <= r_, r_ < x)
    return [("@def", forall([r_], sameo(rb_(b2), b2.ro(r_), rb_(b), b.ro(pi), XG, a.nc), [b2.ro(r_)])),
            ("each row kept is one of the sorted rows", forall([r_], Implies(inr(b2.nr), And(0 <= pi, pi < n, rowsum(b2, r_) == rowsum(b, pi), b2.eq(r_) == b.eq(pi))), [b2.ro(r_)])),
            ("rows not marked are kept", forall([r_], Implies(And(inr(n), z3.Select(R, r_) == 0), And(0 <= NRD(R, r_), NRD(R, r_) < b2.nr, PMI(R, NRD(R, r_)) == r_, rowsum(b2, NRD(R, r_)) == rowsum(b, r_), b2.eq(NRD(R, r_)) == b.eq(r_))), [b.ro(r_)])),
            ("what is kept implies the sorted rows", Implies(allhold(b2), allhold(b))),
            ("the sorted rows imply what is kept", Implies(allhold(b), allhold(b2))),
            ("sorting keeps the rows", forall([r_], Implies(inr(n), And(0 <= Q(r_), Q(r_) < n, holds(b, r_) == holds(a, Q(r_)))), [b.ro(r_)])),
            ("sorting loses no row", forall([r_], Implies(inr(n), And(0 <= T(r_), T(r_) < n, holds(b, T(r_)) == holds(a, r_))), [a.ro(r_)])),
            ("the sorted rows imply the given ones", Implies(allhold(b), allhold(a))), ("the given rows imply the sorted ones", Implies(allhold(a), allhold(b)))]


def si_ens(c):
    a, b = pp(c)
    return cwfpost(c, "cst") + storage(c) + [("extents", And(b.nc == a.nc, b.nr <= a.nr))] + [("same solutions", allhold(b, X) == allhold(a, X)) for X in pts(c, "pluto_constraints_simplify")]


contract("pluto_constraints_simplify", props=("C04",), usediv=True, nloops=10, requires=lambda c: cwf(c, "cst") + [("@size (kinds fit in a short)", forall([i_], And(Cst(c.pre, c["cst"]).eq(i_) >= -32768, Cst(c.pre, c["cst"]).eq(i_) <= 32767), [Cst(c.pre, c["cst"]).eq(i_)]))],
         modifies=lambda c: dict(growmods(c), **{k: [Cst(c.pre, c["cst"]).val] for k in ("c.p.i64.b", "c.p.i64.o")}), frees=growfrees(), ensures=si_ens, hints={"gcd": gcd_hint, "pluto_constraints_copy_single": cp_hint},
         loops={k: si_inv(k) for k in range(10)})
