"""Contracts for elimination by pairing bounds (C04), lib/constraints.c: to_pure_inequalities_single, fourier_motzkin_eliminate(_smart)."""
from elim import *
from elim import _F
from cons import AAI
import vc

# ------------------------------------------------------------------ equalities as inequalities
SUMEQ = z3.Function("SUMEQ", AAI, AAI, AAI, I, I, I, I)
ESUM = z3.Function("ESUM", AAI, AAI, AAI, I, AI, I, I)


def sumeq(a, n, j):
    """Sum of column j over the equalities among the first n rows."""
    return SUMEQ(a.v.key("c.i64"), a.v.key("c.i32"), a.v.key("c.p.i64.o"), a.c, n, j)


def esum(a, n, v=None):
    """Sum of the values at a point of the equalities among the first n rows."""
    return ESUM(a.v.key("c.i64"), a.v.key("c.i32"), a.v.key("c.p.i64.o"), a.c, XG if v is None else v, n)


def anyeq(a, n):
    k = z3.Int("qk")
    return z3.Exists([k], And(0 <= k, k < n, a.eq(k) != 0))


def eqs(a, n, f):
    return forall([r_], Implies(And(0 <= r_, r_ < n, a.eq(r_) != 0), f(r_)), [a.eq(r_)])


def pure_inv(k):
    def inv(L):
        a = Cst(L.pre, L["cst"])
        q = Cst(L.st, L.v("ineq"))
        i, j = z3.Ints("i j")
        if k == 0:
            return [("kinds so far", forall([i], Implies(And(0 <= i, i < L.i), q.eq(i) == 0), [q.eq(i)])), ("i", L.i <= a.nr)]
        if k == 1:
            return [("none yet", forall([i], Implies(And(0 <= i, i < L.i), a.eq(i) == 0), [a.eq(i)])), ("i", L.i <= a.nr), ("flag", L.v("has_eq") == 0)]
        b = Cst(L.st, L.v("neg_eq"))
        R = L.i if k == 2 else L.up()
        S = lambda n, j: sumeq(a, n, j)
        d = [("copy intact", forall([i, j], Implies(And(0 <= i, i < a.nr, 0 <= j, j < a.nc), q.at(i, j) == a.at(i, j)), [q.at(i, j)])), ("@def", forall([j], S(IV(0), j) == 0, [S(IV(0), j)])), ("@def", forall([j], S(R + 1, j) == S(R, j) + If(a.eq(R) != 0, a.at(R, j), 0), [S(R + 1, j)]))]
        sm = rowsum(b, IV(0), None, a.nc)
        if k == 2:
            d += [("@def", And(esum(a, IV(0)) == 0, esum(a, R + 1) == esum(a, R) + If(a.eq(R) != 0, rowsum(a, R), 0))), ("@def", zeroo(rb_(b), b.ro(IV(0)), XG, a.nc)),
                  ("value of the sum", sm == -esum(a, R)),
                  ("the sum bounds each equality", Implies(eqs(a, R, lambda r: rowsum(a, r) >= 0), And(esum(a, R) >= 0, eqs(a, R, lambda r: rowsum(a, r) <= esum(a, R))))),
                  ("the sum vanishes with the equalities", Implies(eqs(a, R, lambda r: rowsum(a, r) == 0), esum(a, R) == 0))]
            return d + [("sums so far", forall([i, j], Implies(And(i == 0, 0 <= j, j < a.nc), b.at(i, j) == -S(R, j)), [b.at(i, j)])), ("i", R <= a.nr)]
        e = Cst(L.entry, L.v("neg_eq"))
        return d + [("@def", lino(rb_(b), b.ro(IV(0)), IV(1), rb_(e), e.ro(IV(0)), IV(1), rb_(a), a.ro(R), XG, a.nc)),
                    ("one row subtracted", forall([i, j], Implies(And(i == 0, 0 <= j, j < a.nc), b.at(i, j) == e.at(i, j) - If(j < L.i, a.at(R, j), 0)), [b.at(i, j)])),
                    ("sums so far", forall([i, j], Implies(And(i == 0, 0 <= j, j < a.nc), b.at(i, j) == -S(R, j) - If(j < L.i, a.at(R, j), 0)), [b.at(i, j)])), ("j", L.i <= a.nc),
                    ("an equality", And(a.eq(R) != 0, R < a.nr, R >= 0))]
    return inv


def pure_ens(c):
    a, b = Cst(c.pre, c["cst"]), Cst(c.post, c.ret)
    X = XG
    own = c.vf.fname == "pluto_constraints_to_pure_inequalities_single"
    same = lambda X: allhold(b, X) == allhold(a, X)
    return b.wf() + b.fresh_from(c.pre) + [
        ("extents", And(b.nc == a.nc, b.nr == a.nr + If(anyeq(a, a.nr), 1, 0))),
        b.kinds(lambda i: IV(0)),
        b.is_(lambda i, j: If(i < a.nr, a.at(i, j), -sumeq(a, a.nr, j)))] + ([] if not own else [
            ("@def", forall([r_], sameo(rb_(b), b.ro(r_), rb_(a), a.ro(r_), XG, a.nc), [b.ro(r_)]))]) + [
            ("values of the copied rows", forall([r_], Implies(And(0 <= r_, r_ < a.nr), rowsum(b, r_) == rowsum(a, r_)), [[b.ro(r_)], [a.ro(r_)]])),
            ("value of the added row", Implies(anyeq(a, a.nr), rowsum(b, a.nr) == -esum(a, a.nr))),
        ("a point of the given system satisfies the inequalities", Implies(allhold(a), allhold(b))), ("a point of the inequalities satisfies the given system", Implies(allhold(b), allhold(a)))]


def pure_hint(c):
    a, n, b = Cst(c.pre, c["cst"]), Cst(c.cpre, c.call[1]), Cst(c.post, c.call[0])
    return [("@def", sameo(rb_(b), b.ro(a.nr), rb_(n), n.ro(IV(0)), XG, a.nc)), ("the added row", rowsum(b, a.nr) == -esum(a, a.nr))]


contract("pluto_constraints_to_pure_inequalities_single", props=("C03", "C04"), nloops=4, requires=lambda c: cwf(c, "cst") + [("@size", Cst(c.pre, c["cst"]).nr + 1 <= MAXD)],
         loops={k: pure_inv(k) for k in range(4)}, ensures=pure_ens, hints={"pluto_constraints_add": pure_hint})


# ------------------------------------------------------------------ pairing lower and upper bounds
_UB, _LB, _NB = 0, 1, 2
GH = {n: z3.Function("FM_" + n, *([AI, AI] + [I] * k)) for n, k in (("NK", 3), ("NU", 3), ("NN", 3), ("NP", 3), ("J", 3), ("K", 3))}
MULF = vc.MULT
l_, q_ = z3.Ints("fl fq")


class FM:
    """The system being eliminated from (with pure inequalities where the variable occurs), and the counts that place the new rows."""

    def __init__(self, v, cst, pos):
        self.c = Cst(v, cst)
        self.pos = pos
        self.A, self.O = rb_(self.c), z3.Select(v.key("c.p.i64.o"), self.c.val)
        self.n, self.nc = self.c.nr, self.c.nc

    def g(self, name, i):
        return GH[name](self.A, self.O, self.pos, i)

    def co(self, r):
        return self.c.at(r, self.pos)

    def cls(self, r):
        return If(self.co(r) == 0, IV(_NB), If(self.co(r) > 0, IV(_LB), IV(_UB)))

    def isub(self, r):
        return self.co(r) < 0

    def islb(self, r):
        return self.co(r) > 0

    def isnb(self, r):
        return self.co(r) == 0

    def counts_def(self, i):
        one = lambda c: If(c, IV(1), IV(0))
        g = self.g
        return [("@def", And(g("NK", IV(0)) == 0, g("NU", IV(0)) == 0, g("NN", IV(0)) == 0,
                             g("NK", i + 1) == g("NK", i) + one(self.islb(i)), g("NU", i + 1) == g("NU", i) + one(self.isub(i)), g("NN", i + 1) == g("NN", i) + one(self.isnb(i))))]

    def place_def(self, i, lb):
        g = self.g
        return [("@def", And(g("NP", IV(0)) == 0, g("NP", i + 1) == g("NP", i) + If(self.isub(i), lb, If(self.isnb(i), IV(1), IV(0)))))]

    def mono(self, n):
        """Counts grow: known for all earlier rows."""
        g = self.g
        return [("counts grow", forall([r_], Implies(And(0 <= r_, r_ < n), And(0 <= g("NK", r_), g("NK", r_) + If(self.islb(r_), 1, 0) <= g("NK", n), 0 <= g("NU", r_), g("NU", r_) + If(self.isub(r_), 1, 0) <= g("NU", n), 0 <= g("NN", r_), g("NN", r_) + If(self.isnb(r_), 1, 0) <= g("NN", n))), [[g("NK", r_)], [g("NU", r_)], [g("NN", r_)]])),
                ("counts add up", And(g("NK", n) >= 0, g("NU", n) >= 0, g("NN", n) >= 0, g("NK", n) + g("NU", n) + g("NN", n) == n))]

    def ff(self, j, k):
        """Factors of the upper bound j and of the lower bound k."""
        aj, ak = -self.co(j), self.co(k)
        return TDIV(LCM(ak, aj), aj), TDIV(LCM(aj, ak), ak)

    def pair(self, j, k):
        """Coefficients of the combination of the bounds j and k."""
        f, g = self.ff(j, k)
        return lambda l: MULF(self.c.at(j, l), f) + MULF(self.c.at(k, l), g)

    def entry(self, j, k, l):
        """Coefficient l (of the new system) of the combination of the bounds j and k."""
        at = self.pair(j, k)
        return If(l < self.pos, at(l), at(l + 1))

    def keep(self, j, l):
        return If(l < self.pos, self.c.at(j, l), self.c.at(j, l + 1))

    def row(self, w, p, q, at):
        """Row p of the new system up to column q."""
        return [("this row, before the variable", forall([r_, l_], Implies(And(r_ == p, 0 <= l_, l_ < q, l_ < self.pos), w.at(r_, l_) == at(l_)), [w.at(r_, l_)])),
                ("this row, after the variable", forall([r_, l_], Implies(And(r_ == p, self.pos <= l_, l_ < q), w.at(r_, l_) == at(l_ + 1)), [w.at(r_, l_)]))]


def fm_wf(F, w, lb, ub, nb, pre):
    return [("new: " + l, f) for l, f in w.wf()] + w.fresh_from(pre) + [("new extents", And(w.nr == 0, w.nc == F.nc - 1, w.anr >= MULF(lb, ub) + nb))]


def fm_counts(F, lb, ub, nb):
    return [("totals", And(lb == F.g("NK", F.n), ub == F.g("NU", F.n), nb == F.g("NN", F.n)))] + F.mono(F.n)


def fm_bound(F, v, bound, n):
    return ("classes", forall([r_], Implies(And(0 <= r_, r_ < n), v.i32(bound, r_) == F.cls(r_)), [v.i32(bound, r_)]))


def fm_rows(F, w, p, j, k=None, kinds=None):
    """Rows 0..p-1 of the new system, in terms of where they come from; j (and k): where we are."""
    J, K_ = F.g("J", r_), F.g("K", r_)
    before = J < j if k is None else Or(J < j, And(J == j, K_ < k))
    out = [("where rows come from", forall([r_], Implies(And(0 <= r_, r_ < p), And(0 <= J, J < F.n, before, Not(F.islb(J)), Implies(F.isub(J), And(0 <= K_, K_ < F.n, F.islb(K_))))), [[J], [w.ro(r_)]])),
           ("rows kept", forall([r_, l_], Implies(And(0 <= r_, r_ < p, 0 <= l_, l_ < F.nc - 1, F.isnb(J)), w.at(r_, l_) == F.keep(J, l_)), [w.at(r_, l_)])),
           ("rows combined", forall([r_, l_], Implies(And(0 <= r_, r_ < p, 0 <= l_, l_ < F.nc - 1, F.isub(J)), w.at(r_, l_) == F.entry(J, K_, l_)), [w.at(r_, l_)]))]
    if kinds:
        out += [("kinds of the new rows", forall([r_], Implies(And(0 <= r_, r_ < p), w.eq(r_) == If(F.isnb(J), F.c.eq(J), 0)), [w.eq(r_)]))]
    P, N = F.g("NP", r_), F.g("NK", k_)
    upto = r_ < j
    out += [("where rows kept go", forall([r_], Implies(And(0 <= r_, upto, F.isnb(r_)), And(0 <= P, P < p, F.g("J", P) == r_)), [P])),
            ("where combinations go", forall([r_, k_], Implies(And(0 <= r_, upto if k is None else Or(upto, And(r_ == j, k_ < k)), F.isub(r_), 0 <= k_, k_ < F.n, F.islb(k_)), And(0 <= P + N, P + N < p, F.g("J", P + N) == r_, F.g("K", P + N) == k_)), [[P, N]]))]
    return out


def fm_cap(F, j, lb, ub):
    """Room: row pairs so far and to come."""
    u = F.g("NU", j)
    return [("@def", And(MULF(lb, IV(0)) == 0, MULF(lb, u + 1) == MULF(lb, u) + lb, Implies(And(lb >= 0, 0 <= u, u <= ub), And(MULF(lb, u) >= 0, MULF(lb, u) <= MULF(lb, ub))), Implies(And(lb >= 0, 0 <= u + 1, u + 1 <= ub), MULF(lb, u + 1) <= MULF(lb, ub)))),
            ("place", F.g("NP", j) == MULF(lb, u) + F.g("NN", j))]


def fm_locals(L):
    return tuple(L.v(x) for x in ("lb", "ub", "nb"))


def fm_loops(k, smart):
    def inv(L):
        F = FM(L.st, L["cst"], L["pos"])
        n, nc = F.n, F.nc
        v = L.st
        if k == 1:
            return (sm_link if smart else fm_link)(Cst(L.pre, L["cst"]), F) + [("no occurrence so far", forall([r_], Implies(And(0 <= r_, r_ < L.i), F.co(r_) == 0), [F.co(r_)])), ("i", L.i <= n)]
        bound = L.v("bound").blk
        lb, ub, nb = fm_locals(L)
        live = ("classes table", And(bound >= L.pre.nb, bound < v.nb, Not(v.freed(bound)), LEN(bound) >= 4 * n))
        if k == 2:
            out = F.counts_def(L.i) + [("@def", Implies(And(0 <= lb, lb <= 30001, 0 <= ub, ub <= 30001), And(MULF(lb, ub) >= 0, MULF(lb, ub) <= 900060001))), live, ("counts", And(lb == F.g("NK", L.i), ub == F.g("NU", L.i), nb == F.g("NN", L.i))), ("i", L.i <= n), fm_bound(F, v, bound, L.i)] + F.mono(L.i)
            if 1:
                out += [("kinds kept", z3.Select(v.key("c.i32"), F.c.eqb) == z3.Select(L.entry.key("c.i32"), F.c.eqb))]
            return out
        w = Cst(v, L.v("newcst"))
        e = F
        F = FM(L.entry if k == 3 else L.upentry(2 if k == 5 else 1), L["cst"], L["pos"])       # the system when the combinations start
        we = Cst(L.entry, L.v("newcst"))
        base = [live, fm_bound(F, v, bound, n)] + fm_counts(F, lb, ub, nb) + fm_wf(F, w, lb, ub, nb, L.pre) + [
            ("system kept", F.A == e.A), ("apart", And(bound != w.c, bound != w.val, bound != w.buf, bound != w.eqb))]
        if smart:
            base += [("kinds kept", z3.Select(v.key("c.i32"), F.c.eqb) == z3.Select(F.c.v.key("c.i32"), F.c.eqb))]
        else:
            base += [("new rows are inequalities", forall([r_], Implies(And(0 <= r_, r_ < w.anr), w.eq(r_) == 0), [w.eq(r_)]))]
        p = L.v("p")
        j = L.i if k == 3 else (L.up() if k in (4, 6) else L.up(2))
        inj = [("j", And(0 <= j, j < n, p < TWO31))]
        if k == 3:
            return base + F.counts_def(j) + F.place_def(j, lb) + fm_cap(F, j, lb, ub) + [("@def", Implies(And(0 <= j, j < n, F.isnb(j)), F.g("J", F.g("NP", j)) == j)), ("j", j <= n), ("@def", F.g("NK", j) == F.g("NK", j)), ("p", And(p == F.g("NP", j), p >= 0))] + fm_rows(F, w, p, j, kinds=smart)
        if k == 4:
            K0 = L.i
            return base + F.counts_def(K0) + F.place_def(j, lb) + fm_cap(F, j, lb, ub) + [("@def", Implies(And(0 <= K0, K0 < n, F.islb(K0)), And(F.g("J", F.g("NP", j) + F.g("NK", K0)) == j, F.g("K", F.g("NP", j) + F.g("NK", K0)) == K0))), ("k", K0 <= n), ("an upper bound", F.isub(j)), ("p", And(p == F.g("NP", j) + F.g("NK", K0), p >= 0, F.g("NK", K0) >= 0))] + inj + fm_rows(F, w, p, j, K0, kinds=smart)
        q = L.vm("q")
        other = [("other rows", forall([r_, l_], Implies(And(0 <= r_, r_ < w.anr, r_ != p, 0 <= l_, l_ < nc - 1), w.at(r_, l_) == we.at(r_, l_)), [w.at(r_, l_)])), ("system kept", F.A == e.A)] + fm_wf(F, w, lb, ub, nb, L.pre) + [("the system is still there: " + l, f) for l, f in Cst(v, L["cst"]).wf()] + [("its rows are where they were", z3.Select(v.key("c.p.i64.o"), F.c.val) == F.O)]
        if k == 5:
            K0 = L.up()
            return other + [("q", And(q == If(L.i <= F.pos, L.i, L.i - 1), L.i <= nc)), ("bounds", And(F.isub(j), F.islb(K0), 0 <= K0, K0 < n)), ("p", And(p >= 0, p < w.anr))] + inj + F.row(w, p, q, F.pair(j, K0))
        return other + [("q", And(q == If(L.i <= F.pos, L.i, L.i - 1), L.i <= nc)), ("not bounded", F.isnb(j)), ("p", And(p >= 0, p < w.anr))] + inj + F.row(w, p, q, lambda l: F.c.at(j, l))
    return inv


TWO31 = 1 << 31


def fm_scan(L):
    """The scan for equalities: none so far, nothing changed."""
    a, b = lp(L)
    return [("no equality so far", forall([r_], Implies(And(0 <= r_, r_ < L.i), a.eq(r_) == 0), [a.eq(r_)])), ("i", L.i <= a.nr)]


def pv(a, r):
    """Value at the point of row r of the system as inequalities."""
    return If(r < a.nr, rowsum(a, r), -esum(a, a.nr))


def pc(a, r, pos):
    return If(r < a.nr, a.at(r, pos), -sumeq(a, a.nr, pos))


def nrow(a):
    return a.nr + If(anyeq(a, a.nr), 1, 0)


def pff(a, j, k, pos):
    aj, ak = -pc(a, j, pos), pc(a, k, pos)
    return TDIV(LCM(ak, aj), aj), TDIV(LCM(aj, ak), ak)


def pos_lcm(x, y):
    return And(lcm_div(x, y), lcm_div(y, x), LCM(x, y) == LCM(y, x))


def fm_concl(F, w, V):
    """What the new system (without the variable) says."""
    S = lambda r: rowsum(F.c, r)
    f, g = F.ff(r_, k_)
    return [("the new rows follow from the old", Implies(allhold(F.c), allhold(w, V))),
            ("rows without the variable hold", Implies(allhold(w, V), forall([r_], Implies(And(0 <= r_, r_ < F.n, F.isnb(r_)), holds(F.c, r_)), [F.c.ro(r_)]))),
            ("every pair of bounds leaves room", Implies(allhold(w, V), forall([r_, k_], Implies(And(0 <= r_, r_ < F.n, F.isub(r_), 0 <= k_, k_ < F.n, F.islb(k_)), MULF(f, S(r_)) + MULF(g, S(k_)) >= 0), [[F.c.ro(r_), F.c.ro(k_)]])))]


def fm_live(F):
    return [("the system is still there: " + l, f) for l, f in F.c.wf()]


def sm_link(a, F):
    """Nothing has happened to the system, and no equality involves the variable."""
    return [("the system is untouched", And(F.A == rb_(a), F.O == z3.Select(a.v.key("c.p.i64.o"), a.val), F.c.eqb == a.eqb, F.c.buf == a.buf, F.c.val == a.val, z3.Select(F.c.v.key("c.i32"), a.eqb) == z3.Select(a.v.key("c.i32"), a.eqb), F.n == a.nr, F.nc == a.nc)),
            ("no equality involves the variable", forall([r_], Implies(And(0 <= r_, r_ < a.nr), Not(fe_ok(a, F.pos, r_))), [[a.eq(r_)], [a.ro(r_)]]))]


def fm_absent(c, smart=False):
    """The variable does not occur."""
    if c.n != 0:
        return []
    F, w = FM(c.post, c["cst"], c["pos"]), Cst(c.post, c.call[0])
    V = DROP(XG, F.pos)
    A, B = F.A, rb_(w)
    return [("@tmp", drop_def(XG, F.pos)), ("@tmp", forall([r_], elimdrop(B, w.ro(r_), IV(1), A, F.c.ro(r_), IV(0), A, F.c.ro(r_), XG, F.pos, F.nc), [w.ro(r_)])),
            ("~rows keep their value", And(w.nr == F.n, forall([r_], Implies(And(0 <= r_, r_ < w.nr), And(F.co(r_) == 0, rowsum(w, r_, V) == rowsum(F.c, r_), w.eq(r_) == F.c.eq(r_))), [[w.ro(r_)], [F.c.ro(r_)]])))] + fm_concl(F, w, V) + fm_live(F) + (sm_link if smart else fm_link)(Cst(c.pre, c["cst"]), F)


def fm_occurs(c, smart=False):
    """The variable occurs: rows kept and rows combined."""
    F, w = FM(c.cpre, c["cst"], c["pos"]), Cst(c.cpre, c.lv("newcst"))
    V = DROP(XG, F.pos)
    A, B = F.A, rb_(w)
    J, K_ = F.g("J", r_), F.g("K", r_)
    f, g = F.ff(J, K_)
    S = lambda r: rowsum(F.c, r)
    inr = And(0 <= r_, r_ < w.nr)
    fj, gj = F.ff(r_, k_)
    P, N = F.g("NP", r_), F.g("NP", r_) + F.g("NK", k_)
    a = Cst(c.pre, c["cst"])
    return fm_live(FM(c.post, c["cst"], c["pos"])) + (sm_link if smart else fm_link)(a, F) + [
        ("~entries of rows kept", forall([r_, l_], Implies(And(inr, 0 <= l_, l_ < F.nc - 1, F.isnb(J)), w.at(r_, l_) == F.keep(J, l_)), [w.at(r_, l_)])),
        ("~entries of rows combined", forall([r_, l_], Implies(And(inr, 0 <= l_, l_ < F.nc - 1, F.isub(J)), w.at(r_, l_) == F.entry(J, K_, l_)), [w.at(r_, l_)])),
        ("~where rows kept go", forall([r_], Implies(And(0 <= r_, r_ < F.n, F.isnb(r_)), And(0 <= P, P < w.nr, F.g("J", P) == r_)), [[P], [F.c.ro(r_)]])),
        ("~where combinations go", forall([r_, k_], Implies(And(0 <= r_, r_ < F.n, F.isub(r_), 0 <= k_, k_ < F.n, F.islb(k_)), And(0 <= N, N < w.nr, F.g("J", N) == r_, F.g("K", N) == k_)), [[F.c.ro(r_), F.c.ro(k_)]])),
        ("~extents", And(w.nc == F.nc - 1, 0 <= F.pos, F.pos < F.nc - 1, w.nr >= 0)),
        ("~kinds", forall([r_], Implies(inr, w.eq(r_) == If(F.isnb(J), F.c.eq(J), 0)), [[w.eq(r_)], [J]])) if smart else
        ("~inequalities only", And(forall([r_], Implies(inr, w.eq(r_) == 0), [w.eq(r_)]), forall([r_], Implies(And(0 <= r_, r_ < F.n), F.c.eq(r_) == 0), [F.c.eq(r_)]))),
        ("~bounds are inequalities", forall([r_], Implies(And(0 <= r_, r_ < F.n, F.co(r_) != 0), F.c.eq(r_) == 0), [[F.c.eq(r_)], [F.c.ro(r_)]])),
        ("~where rows come from", forall([r_], Implies(inr, And(0 <= J, J < F.n, Not(F.islb(J)), Implies(F.isub(J), And(0 <= K_, K_ < F.n, F.islb(K_))))), [[w.ro(r_)], [J]])),
        ("@tmp", drop_def(XG, F.pos)),
        ("@tmp", forall([r_], Implies(And(inr, F.isnb(J)), elimdrop(B, w.ro(r_), IV(1), A, F.c.ro(J), IV(0), A, F.c.ro(J), XG, F.pos, F.nc)), [[w.ro(r_)], [J]])),
        ("~rows kept keep their value", forall([r_], Implies(And(inr, F.isnb(J)), rowsum(w, r_, V) == S(J)), [[w.ro(r_)], [J]])),
        ("@tmp", forall([r_], Implies(inr, lcm_pair(F.co(J), F.co(K_))), [[w.ro(r_)], [J]])),
        ("~factors are positive and cancel", forall([r_], Implies(And(inr, F.isub(J)), And(f > 0, g > 0, MULF(F.co(J), f) + MULF(F.co(K_), g) == 0)), [[w.ro(r_)], [J]])),
        ("@tmp", forall([r_], Implies(And(inr, F.isub(J)), elimpair(B, w.ro(r_), f, A, F.c.ro(J), g, A, F.c.ro(K_), XG, F.pos, F.nc)), [[w.ro(r_)], [J]])),
        ("~rows combined have the combined value", forall([r_], Implies(And(inr, F.isub(J)), And(rowsum(w, r_, V) == MULF(f, S(J)) + MULF(g, S(K_)), Implies(And(S(J) >= 0, S(K_) >= 0), rowsum(w, r_, V) >= 0))), [[w.ro(r_)], [J]])),
        ("~each row without the variable is kept", forall([r_], Implies(And(0 <= r_, r_ < F.n, F.isnb(r_)), And(0 <= P, P < w.nr, rowsum(w, P, V) == S(r_), w.eq(P) == F.c.eq(r_))), [F.c.ro(r_)])),
        ("~each pair of bounds is combined", forall([r_, k_], Implies(And(0 <= r_, r_ < F.n, F.isub(r_), 0 <= k_, k_ < F.n, F.islb(k_)), And(0 <= N, N < w.nr, rowsum(w, N, V) == MULF(fj, S(r_)) + MULF(gj, S(k_)))), [[F.c.ro(r_), F.c.ro(k_)]])),
        ] + fm_concl(F, w, V)


def fm_link(a, F):
    """The system as inequalities, in terms of the system given."""
    co = F.co(r_)
    return [("rows of the system as inequalities", And(F.n == nrow(a), forall([r_], Implies(And(0 <= r_, r_ < F.n), And(co == pc(a, r_, F.pos), rowsum(F.c, r_) == pv(a, r_))), [[F.c.ro(r_)]]))),
            ("same solutions as inequalities", allhold(F.c) == allhold(a)), ("inequalities", forall([r_], Implies(And(0 <= r_, r_ < F.n), F.c.eq(r_) == 0), [F.c.eq(r_)]))]


def fm_copy_hint(c):
    a = Cst(c.pre, c["cst"])
    if c.n == 0:
        t, b = Cst(c.cpre, c.call[1]), Cst(c.post, c["cst"])
        F = FM(c.post, c["cst"], c["pos"])
        return [same_all2(b, t), ("values of the copied rows", forall([r_], Implies(And(0 <= r_, r_ < b.nr), rowsum(b, r_) == rowsum(t, r_)), [b.ro(r_)]))] + fm_link(a, F)
    if c.n == 2:
        w, b = Cst(c.cpre, c.call[1]), Cst(c.post, c["cst"])
        V = DROP(XG, c["pos"])
        return [("@def", forall([r_], sameo(rb_(b), b.ro(r_), rb_(w), w.ro(r_), V, b.nc), [b.ro(r_)])), ("values of the result", forall([r_], Implies(And(0 <= r_, r_ < b.nr), And(rowsum(b, r_, V) == rowsum(w, r_, V), b.eq(r_) == w.eq(r_))), [[b.ro(r_)], [w.ro(r_)]])),
                ("the result holds where the new system does", allhold(b, V) == allhold(w, V))] + fm_given(a, b, c["pos"])
    return []


def same_all2(b, t):
    return ("@def", forall([r_], sameo(rb_(b), b.ro(r_), rb_(t), t.ro(r_), XG, b.nc), [b.ro(r_)]))


def fm_simp_hint(c):
    F, w = FM(c.cpre, c["cst"], c["pos"]), Cst(c.cpre, c.call[0])
    V = DROP(XG, c["pos"])
    b, G = Cst(c.post, c.call[0]), FM(c.post, c["cst"], c["pos"])
    return fm_concl(F, w, V) + fm_link(Cst(c.pre, c["cst"]), F) + fm_live(G) + [("simplified", allhold(b, V) == allhold(w, V))] + fm_given(Cst(c.pre, c["cst"]), b, c["pos"])


def fm_given(a, b, pos):
    """The result b in terms of the system given."""
    V = DROP(XG, pos)
    f, g = pff(a, r_, k_, pos)
    n = nrow(a)
    return [("a point of the system gives a point of the result", Implies(allhold(a), allhold(b, V))),
        ("at a point of the result, what does not involve the variable holds", Implies(allhold(b, V), forall([r_], Implies(And(0 <= r_, r_ < n, pc(a, r_, pos) == 0), pv(a, r_) >= 0), [a.ro(r_)]))),
        ("at a point of the result, every upper bound leaves room for every lower bound", Implies(allhold(b, V), forall([r_, k_], Implies(And(0 <= r_, r_ < n, pc(a, r_, pos) < 0, 0 <= k_, k_ < n, pc(a, k_, pos) > 0), MULF(f, pv(a, r_)) + MULF(g, pv(a, k_)) >= 0), [[a.ro(r_), a.ro(k_)]])))]


def fm_ens(c):
    a, b = pp(c)
    return cwfpost(c, "cst") + storage(c) + [("one dimension less", b.nc == a.nc - 1)] + fm_given(a, b, c["pos"])


contract("fourier_motzkin_eliminate", props=("C04",), usediv=True, mulmode="uf", nloops=7,
         requires=lambda c: (lambda a: cwf(c, "cst") + [("dimension", And(c["pos"] >= 0, c["pos"] <= a.nc - 2)), ("@size", a.nr <= 30000)])(Cst(c.pre, c["cst"])),
         modifies=lambda c: dict(growmods(c), **{k: [Cst(c.pre, c["cst"]).val] for k in ("c.p.i64.b", "c.p.i64.o")}), frees=growfrees(), ensures=fm_ens,
         points=lambda d: [DROP(XG, d["pos"])], hints={"pluto_constraints_copy_single": fm_copy_hint, "pluto_constraints_remove_dim": fm_absent, "free": fm_occurs, "pluto_constraints_simplify": fm_simp_hint},
         loops={k: fm_scan if k == 0 else fm_loops(k, False) for k in range(7)})


# ------------------------------------------------------------------ with equalities kept as they are
def sm_scan(L):
    a, b = lp(L)
    return [fe_def(a, L["pos"]), ("no equality with the variable so far", L.i <= FE(a, L["pos"])), ("i", L.i <= a.nr)]


def sm_given(a, b, pos, X=None):
    X = XG if X is None else X
    V = DROP(X, pos)
    f, g = TDIV(LCM(a.at(k_, pos), -a.at(r_, pos)), -a.at(r_, pos)), TDIV(LCM(-a.at(r_, pos), a.at(k_, pos)), a.at(k_, pos))
    p, n = FE(a, pos), a.nr
    return [("a point of the system gives a point of the result", Implies(allhold(a, X), allhold(b, V))),
        ("an equality with the variable: a point of the result on it is one of the system", Implies(And(p < n, rowsum(a, p, X) == 0, allhold(b, V)), allhold(a, X))),
        ("no such equality: at a point of the result, what does not involve the variable holds", Implies(And(p >= n, allhold(b, V)), forall([r_], Implies(And(0 <= r_, r_ < n, a.at(r_, pos) == 0), holds(a, r_, X)), [a.ro(r_)]))),
        ("no such equality: at a point of the result, every upper bound leaves room for every lower bound", Implies(And(p >= n, allhold(b, V)), forall([r_, k_], Implies(And(0 <= r_, r_ < n, a.at(r_, pos) < 0, 0 <= k_, k_ < n, a.at(k_, pos) > 0), MULF(f, rowsum(a, r_, X)) + MULF(g, rowsum(a, k_, X)) >= 0), [[a.ro(r_), a.ro(k_)]])))]


def sm_copy_hint(c):
    w, b = Cst(c.cpre, c.call[1]), Cst(c.post, c["cst"])
    V = DROP(XG, c["pos"])
    return [("@def", forall([r_], sameo(rb_(b), b.ro(r_), rb_(w), w.ro(r_), V, b.nc), [b.ro(r_)])), ("values of the result", forall([r_], Implies(And(0 <= r_, r_ < b.nr), And(rowsum(b, r_, V) == rowsum(w, r_, V), b.eq(r_) == w.eq(r_))), [[b.ro(r_)], [w.ro(r_)]])),
            ("the result holds where the new system does", allhold(b, V) == allhold(w, V))] + sm_given(Cst(c.pre, c["cst"]), b, c["pos"])


def sm_simp_hint(c):
    V = DROP(XG, c["pos"])
    a = Cst(c.pre, c["cst"])
    if c.n == 0:
        g, b = Cst(c.cpre, c["cst"]), Cst(c.post, c["cst"])
        return [("simplified", allhold(b, V) == allhold(g, V))] + sm_given(a, b, c["pos"])
    F, w = FM(c.cpre, c["cst"], c["pos"]), Cst(c.cpre, c.call[0])
    b, G = Cst(c.post, c.call[0]), FM(c.post, c["cst"], c["pos"])
    return fm_concl(F, w, V) + sm_link(a, F) + fm_live(G) + [("simplified", allhold(b, V) == allhold(w, V))] + sm_given(a, b, c["pos"])


def sm_ens(c):
    a, b = pp(c)
    return [fe_def(a, c["pos"])] + cwfpost(c, "cst") + storage(c) + [("one dimension less", b.nc == a.nc - 1)] + [x for X in pts(c, "fourier_motzkin_eliminate_smart") for x in sm_given(a, b, c["pos"], X)]


contract("fourier_motzkin_eliminate_smart", props=("C04",), usediv=True, mulmode="uf", nloops=7,
         requires=lambda c: (lambda a: cwf(c, "cst") + [("dimension", And(c["pos"] >= 0, c["pos"] <= a.nc - 2)), ("@size", a.nr <= 30000)])(Cst(c.pre, c["cst"])),
         modifies=lambda c: dict(growmods(c), **{k: [Cst(c.pre, c["cst"]).val] for k in ("c.p.i64.b", "c.p.i64.o")}), frees=growfrees(), ensures=sm_ens,
         points=lambda d: [DROP(XG, d["pos"])], hints={"pluto_constraints_copy_single": sm_copy_hint, "pluto_constraints_remove_dim": lambda c: fm_absent(c, True), "free": lambda c: fm_occurs(c, True), "pluto_constraints_simplify": sm_simp_hint},
         loops={k: sm_scan if k == 0 else fm_loops(k, True) for k in range(7)})


# ------------------------------------------------------------------ which variable to eliminate next
def best_inv(k):
    def inv(L):
        a = Cst(L.pre, L["cst"])
        b = L.v("best_candidate")
        out = [("a candidate", And(b <= a.nc - 2, b >= a.nc - 1 - L["max_elim"]))]
        if k == 0:
            return out + [("j", L.i <= a.nc - 2)]
        return out + [("i", And(0 <= L.i, L.i <= a.nr)), ("j", And(L.up() <= a.nc - 2, L.up() > a.nc - 2 - L["max_elim"]))]
    return inv


contract("pluto_constraints_best_elim_candidate", props=("C04",), nloops=2,
         requires=lambda c: (lambda a: cwf(c, "cst") + [("there is a candidate", And(c["max_elim"] >= 1, c["max_elim"] <= a.nc - 1)), ("@size", a.nr <= 30000)])(Cst(c.pre, c["cst"])),
         ensures=lambda c: (lambda a: [("one of the last variables", And(c.ret <= a.nc - 2, c.ret >= a.nc - 1 - c["max_elim"]))])(Cst(c.pre, c["cst"])),
         loops={0: best_inv(0), 1: best_inv(1)})
