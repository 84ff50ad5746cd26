"""Contracts for the reverse mapping of a schedule and rewritten access functions (C15), lib/program.cpp."""
from base import *
from matrix import Mat
from linalg import dot, dot_def, lcm_facts
from cons import Cst
from stmts import *
from sums import *

XPT = z3.Array("XPT", I, I)             # an arbitrary iteration: iterators, parameters, 1
TPF = z3.Function("TPF", AAI, AAI, I, I, I, I, AI)
DVD = z3.Function("DVD", I, I, z3.BoolSort())   # divides
q_, c_ = z3.Ints("rq rc")


def tpt(s):
    """The time of XPT under the schedule, followed by the parameters and the constant."""
    return TPF(s.v.key("c.i64"), s.v.key("c.p.i64.b"), s.tr.val, s.tr.nr, s.tr.nc, s.dim)


def tpt_def(s):
    t = tpt(s)
    return [("@def", forall([q_], Implies(And(0 <= q_, q_ < s.tr.nr), t[q_] == SP(row_of(s.tr, q_), XPT, s.tr.nc)), [t[q_]])),
            ("@def", forall([q_], Implies(And(s.tr.nr <= q_, q_ < s.tr.nr + s.tr.nc - s.dim), t[q_] == XPT[s.dim + q_ - s.tr.nr]), [t[q_]]))]


def rm_req(c):
    s = Stm(c.pre, c["stmt"])
    dom = Cst(c.pre, s.f("domain"))
    d = c["divs"]
    return s.wf() + [("domain", And(live(c.pre, s.f("domain")), LEN(s.f("domain")) >= sizeof(c.pre, "pluto_constraints"), dom.nc == s.tr.nc, s.tr.nc >= s.dim + 1, s.tr.nr >= s.dim, s.tr.nr + s.tr.nc < 1 << 20)),
                     ("place for the divisors", And(live(c.pre, d.blk), d.off >= 0, LEN(d.blk) >= 8 * d.off + 8, KINDF(d.blk) != K("i32")))]


def rm_mods(c):
    return {"c.p.i32.b": [c["divs"].blk]}


def outdiv(c, view=None):
    v = view or c.post
    return v.cell("c.p.i32.b", c["divs"].blk, ADR(c["divs"].off, IV(0)))


def rm_ens(c):
    s, m = Stm(c.pre, c["stmt"]), Mat(c.post, c.ret)
    db = outdiv(c)
    dv = lambda i: c.post.i32(db, i)
    np1 = s.tr.nc - s.dim
    return m.wf() + m.fresh_from(c.pre) + [("one row per iterator, parameter and constant; one column per level, parameter and constant", And(m.nr == s.tr.nc, m.nc == s.tr.nr + np1)),
            ("divisors", And(live(c.post, db), db >= c.pre.nb, LEN(db) >= 4 * m.nr, KINDF(db) == K("i32"))),
            ("positive divisors", forall([q_], Implies(And(0 <= q_, q_ < m.nr), dv(q_) > 0), [dv(q_)])),
            ] + tpt_def(s) + [
            ("reverse mapping", forall([q_], Implies(And(0 <= q_, q_ < m.nr), SP(row_of(m, q_), tpt(s), m.nc) == dv(q_) * XPT[q_]), [row_of(m, q_)]))]


contract("pluto_matrix_print", assumed=True, allocs=False)
ZPF = z3.Function("ZPF", AI, I, AI)
ox_ = z3.Int("ox")


class RM:
    """The matrix under construction at a loop head."""

    def __init__(self, L, view=None):
        self.L = L
        self.s = Stm(L.pre, L["stmt"])
        self.t, self.d, self.N, self.C = self.s.tr, self.s.dim, self.s.tr.nr, self.s.tr.nc
        self.m = Mat(view or L.st, L.v("remap") if hasattr(L, "v") else L.call["mat"])
        self.tp = tpt(self.s)
        self.z = ZPF(self.tp, self.d)

    def at(self, i, j):
        return self.m.at(i, j)

    def defs(self):
        return tpt_def(self.s) + [("@def", forall([q_], Implies(q_ >= 0, self.z[q_] == If(q_ < self.d, XPT[q_], self.tp[q_ - self.d])), [self.z[q_]]))]

    def wf(self, nr, nc):
        m, L = self.m, self.L
        return self.divs() + m.wf() + [("fresh", And(m.m >= L.pre.nb, m.val >= L.pre.nb, m.nr == nr, m.nc == nc)), ("fresh rows", forall([ox_], Implies(ox_ < L.pre.nb, L.st.own(ox_) != m.val), [L.st.own(ox_)])),
                         ("fresh rows (2)", forall([q_], Implies(And(0 <= q_, q_ < m.anr), m.rb(q_) >= L.pre.nb), [m.rb(q_)]))]

    def vanish(self, nr):
        m = self.m
        return [("every row vanishes on the point", forall([q_], Implies(And(0 <= q_, q_ < nr), SP(row_of(m, q_), self.z, self.N + self.C) == 0), [row_of(m, q_)]))]

    def tri(self, i, nr):
        """Columns before i are in echelon form."""
        m = self.m
        return [("pivots", forall([q_], Implies(And(0 <= q_, q_ < i), m.at(q_, q_) != 0), [m.rb(q_)])),
                ("below pivots", forall([q_, c_], Implies(And(0 <= c_, c_ < i, c_ < q_, q_ < nr), m.at(q_, c_) == 0), [m.at(q_, c_)]))]

    def above(self, i):
        m = self.m
        return [("above pivots", forall([q_, c_], Implies(And(0 <= q_, q_ < c_, i < c_, c_ < self.d), m.at(q_, c_) == 0), [m.at(q_, c_)]))]

    def divs(self):
        L = self.L
        b = outdiv(L, L.st)
        return [("place of divisors", And(live(L.st, b), b >= L.pre.nb, LEN(b) >= 4 * self.C, KINDF(b) == K("i32")))]

    def dv(self, i):
        return self.L.st.i32(outdiv(self.L, self.L.st), i)


def lcm_div(a, b):
    l = LCM(a, b)
    return Implies(And(a != 0, b != 0), And(l != 0, TDIV(l, a) * a == l, TDIV(l, b) * b == l))


def same_rows(m, e, but):
    return [("other rows untouched", forall([q_], Implies(And(0 <= q_, q_ < m.nr, q_ != but), row_of(m, q_) == row_of(e, q_)), [row_of(m, q_)]))]


def rm_inv(k):
    def f(L):
        R = RM(L)
        m, t, d, N, C = R.m, R.t, R.d, R.N, R.C
        out = []
        if k == 0:
            i = L.i
            return R.wf(N, C + i) + [("i", i <= N), m.is_(lambda r, j: If(j < i, If(And(r >= N - i, j == r - (N - i)), 1, 0), If(r >= N - i, -t.at(r, j - i), t.at(r, j - i))))]
        if k == 1:
            i = L.i
            return R.wf(N, C + N) + [("i", i <= d), m.is_(lambda r, j: If(j < i, -t.at(r, j), If(j < i + N, If(j - i == r, 1, 0), -t.at(r, j - N))))]
        if k in (2, 3, 4, 5):
            i = L.i if k == 2 else (L.up(2) if k == 5 else L.up())
            e = Mat(L.entry, L.v("remap"))
            out = R.defs()
            if k == 2:
                out += [("@def", forall([q_], inter(row_of(e, q_), row_of(t, q_), R.z, XPT, SP(row_of(t, q_), XPT, C), q_, d, N, C), [row_of(e, q_)]))]
            if k == 5:
                kk = L.up()
                a, b = e.at(kk, i), e.at(i, i)
                f1, f2 = L.v("factor1"), TDIV(L.v("_lcm"), b)
                out += [("@def", lcm_div(a, b)), ("@def", lin0(row_of(m, kk), f1, row_of(e, kk), f2, row_of(e, i), R.z, N + C))]
                out += R.wf(N, C + N) + same_rows(m, e, kk) + [("k", And(i < kk, kk < N, 0 <= i, i < d, a != 0, b != 0, f1 == TDIV(L.v("_lcm"), a), L.v("_lcm") == LCM(a, b), L.i >= i, L.i <= N + C)),
                        ("row so far", forall([c_], Implies(And(0 <= c_, c_ < N + C), E(row_of(m, kk), c_) == If(And(i <= c_, c_ < L.i), E(row_of(e, kk), c_) * f1 - E(row_of(e, i), c_) * f2, E(row_of(e, kk), c_))), [E(row_of(m, kk), c_)]))]
                return out
            out += R.wf(N, C + N) + R.vanish(N) + R.tri(i, N) + [("i", And(0 <= i, i <= d))]
            if k == 3:
                out = [("@def", z3.Exists([q_], And(i <= q_, q_ < N, m.at(q_, i) != 0), patterns=[m.at(q_, i)]))] + out + [("k", And(L.i >= i + 1, L.i <= N, i < d, m.at(i, i) == 0)), ("no pivot yet", forall([q_], Implies(And(i <= q_, q_ < L.i), m.at(q_, i) == 0), [m.at(q_, i)]))]
            if k == 4:
                out += [("k", And(L.i >= i + 1, i < d, L.i <= N, m.at(i, i) != 0)), ("cleared", forall([q_], Implies(And(i < q_, q_ < L.i), m.at(q_, i) == 0), [m.rb(q_)]))]
            return out
        if k in (6, 7, 8):
            i = L.i if k == 6 else (L.up(2) if k == 8 else L.up())
            e = Mat(L.entry, L.v("remap"))
            out = R.defs()
            if k == 8:
                kk = L.up()
                a, b = e.at(kk, i), e.at(i, i)
                f1, f2 = L.v("factor1"), TDIV(L.v("_lcm"), b)
                out += [("@def", lcm_div(a, b)), ("@def", lin0(row_of(m, kk), f1, row_of(e, kk), f2, row_of(e, i), R.z, N + C))]
                out += R.wf(N, C + N) + same_rows(m, e, kk) + [("k", And(0 <= kk, kk < i, i < d, a != 0, b != 0, f1 == TDIV(L.v("_lcm"), a), L.v("_lcm") == LCM(a, b), L.i <= N + C)),
                        ("row so far", forall([c_], Implies(And(0 <= c_, c_ < N + C), E(row_of(m, kk), c_) == If(c_ < L.i, E(row_of(e, kk), c_) * f1 - E(row_of(e, i), c_) * f2, E(row_of(e, kk), c_))), [E(row_of(m, kk), c_)]))]
                return out
            out += R.wf(N, C + N) + R.vanish(N) + R.tri(d, N) + R.above(i) + [("i", And(i >= (-1 if k == 6 else 0), i < d))]
            if k == 7:
                out += [("k", And(L.i >= -1, L.i < i)), ("cleared", forall([q_], Implies(And(L.i < q_, q_ < i), m.at(q_, i) == 0), [m.rb(q_)]))]
            return out
        if k == 9:
            nr = L.i + 1
            return R.defs() + R.wf(nr, C + N) + R.vanish(nr) + R.tri(d, nr) + R.above(IV(-1)) + [("i", And(nr >= d, nr <= N))]
        if k == 10:
            i = L.i
            return R.defs() + [("@def", forall([q_], Implies(And(0 <= q_, q_ < d), And(m.at(q_, q_) < 1 << 31, m.at(q_, q_) > -(1 << 31))), [m.rb(q_)]))] + R.wf(d, C + N) + R.vanish(d) + R.tri(d, d) + R.above(IV(-1)) + [
                ("i", i <= d), ("divisors", forall([q_], Implies(And(0 <= q_, q_ < i), And(R.dv(q_) == m.at(q_, q_), R.dv(q_) > 0)), [[m.rb(q_)], [R.dv(q_)]]))]
        posd = lambda hi: ("positive", forall([q_], Implies(And(0 <= q_, q_ < hi), R.dv(q_) > 0), [R.dv(q_)]))
        if k == 11:
            i = L.i
            e = Mat(L.entry, L.v("remap"))
            return R.defs() + [("@def", forall([q_], Implies(i == d, dropn(row_of(m, q_), row_of(e, q_), q_, R.tp, R.z, d, N + C - d)), [row_of(m, q_)]))] + R.wf(d, C + N - i) + [
                ("i", i <= d), m.is_(lambda r, j: e.at(r, j + i)), posd(d),
                ("rest of the rows", Implies(i == d, forall([q_], Implies(And(0 <= q_, q_ < d), SP(row_of(m, q_), R.tp, N + C - d) == -(R.dv(q_) * XPT[q_])), [row_of(m, q_)])))]
        if k == 12:
            i = L.i
            return R.defs() + R.wf(d, C + N - d) + [posd(d), ("i", i <= d),
                ("rows", forall([q_], Implies(And(0 <= q_, q_ < d), SP(row_of(m, q_), R.tp, N + C - d) == If(q_ < i, R.dv(q_) * XPT[q_], -(R.dv(q_) * XPT[q_]))), [row_of(m, q_)]))]
        if k == 13:
            i = L.i
            return R.defs() + [("@def", forall([q_], unit(row_of(m, q_), N + q_ - d, R.tp, N + C - d), [row_of(m, q_)]))] + R.wf(d + i, C + N - d) + [posd(d + i), ("i", i <= C - d),
                ("rows", forall([q_], Implies(And(0 <= q_, q_ < d), SP(row_of(m, q_), R.tp, N + C - d) == R.dv(q_) * XPT[q_]), [row_of(m, q_)])),
                ("unit rows", forall([q_, c_], Implies(And(d <= q_, q_ < d + i, 0 <= c_, c_ < N + C - d), m.at(q_, c_) == If(c_ == N + q_ - d, 1, 0)), [m.at(q_, c_)])),
                ("unit divisors", forall([q_], Implies(And(d <= q_, q_ < d + i), R.dv(q_) == 1), [R.dv(q_)])),
                ("unit rows give parameters", forall([q_], Implies(And(d <= q_, q_ < d + i), SP(row_of(m, q_), R.tp, N + C - d) == R.dv(q_) * XPT[q_]), [row_of(m, q_)]))]
        return out
    return f


def rows_hint(kind):
    def f(c):
        R = RM(c, c.post)
        m, e = R.m, Mat(c.cpre, c.call["mat"])
        n = m.nc
        out = []
        for v in (R.z, R.tp):
            if kind == "negate":
                out += [("@def", neg(row_of(m, c.call["pos"]), row_of(e, c.call["pos"]), v, n)), ("@def", forall([q_], same(row_of(m, q_), row_of(e, q_), v, v, n), [row_of(m, q_)])),
                        ("sums", forall([q_], Implies(And(0 <= q_, q_ < m.nr), SP(row_of(m, q_), v, n) == If(q_ == c.call["pos"], -SP(row_of(e, q_), v, n), SP(row_of(e, q_), v, n))), [row_of(m, q_)]))]
            elif kind == "swap":
                w = lambda q: If(q == c.call["r1"], row_of(e, c.call["r2"]), If(q == c.call["r2"], row_of(e, c.call["r1"]), row_of(e, q)))
                out += [("@def", same(row_of(m, c.call["r1"]), row_of(e, c.call["r2"]), v, v, n)), ("@def", same(row_of(m, c.call["r2"]), row_of(e, c.call["r1"]), v, v, n)),
                        ("@def", forall([q_], same(row_of(m, q_), row_of(e, q_), v, v, n), [row_of(m, q_)])),
                        ("sums", forall([q_], Implies(And(0 <= q_, q_ < m.nr), SP(row_of(m, q_), v, n) == If(q_ == c.call["r1"], SP(row_of(e, c.call["r2"]), v, n), If(q_ == c.call["r2"], SP(row_of(e, c.call["r1"]), v, n), SP(row_of(e, q_), v, n)))), [row_of(m, q_)]))]
            else:
                lim = If(m.nr < e.nr, m.nr, e.nr)
                out += [("@def", forall([q_], same(row_of(m, q_), row_of(e, q_), v, v, n), [row_of(m, q_)])),
                        ("sums", forall([q_], Implies(And(0 <= q_, q_ < lim), SP(row_of(m, q_), v, n) == SP(row_of(e, q_), v, n)), [row_of(m, q_)]))]
        return out
    return f


contract("pluto_stmt_get_remapping", props=("C15",), usediv=True, nloops=14, requires=rm_req, modifies=rm_mods, ensures=rm_ens, loops={k: rm_inv(k) for k in range(14)},
         hints={"pluto_matrix_negate_row": rows_hint("negate"), "pluto_matrix_interchange_rows": rows_hint("swap"), "pluto_matrix_remove_row": rows_hint("keep"), "pluto_matrix_add_row": rows_hint("keep")})


# ------------------------------------------------------------------ access functions
PRF = z3.Function("PRF", AAI, AAI, AAI, I, I, I, I, AI)


def ac_req(c):
    s = Stm(c.pre, c["stmt"])
    a = Mat(c.pre, c["acc"])
    return rm_req(c) + [("access: " + l, f) for l, f in a.wf()] + [("columns of the access", a.nc == s.tr.nc)]


def ac_ens(c):
    s, a, n = Stm(c.pre, c["stmt"]), Mat(c.pre, c["acc"]), Mat(c.post, c.ret)
    db = outdiv(c)
    dv = lambda i: c.post.i32(db, i)
    return n.wf() + n.fresh_from(c.pre) + [("extents", And(n.nr == a.nr, n.nc == s.tr.nr + s.tr.nc - s.dim)), ("divisors", And(live(c.post, db), db >= c.pre.nb, LEN(db) >= 4 * n.nr)),
            ("positive divisors", forall([q_], Implies(And(0 <= q_, q_ < n.nr), dv(q_) > 0), [dv(q_)]))] + tpt_def(s) + [
            ("same element for every iteration", forall([q_], Implies(And(0 <= q_, q_ < n.nr), SP(row_of(n, q_), tpt(s), n.nc) == dv(q_) * SP(row_of(a, q_), XPT, a.nc)), [row_of(n, q_)]))]


def ac_base(L):
    """What stays true of the reverse mapping's storage."""
    s = Stm(L.pre, L["stmt"])
    m = Mat(L.st, L.v("remap"))
    db = L.v("remap_divs")
    db = db.blk if isinstance(db, PVal) else db
    dv = lambda i: L.st.i32(db, i)
    return s, m, db, dv


def ac_inv(k):
    def f(L):
        s, m, db, dv = ac_base(L)
        lc = L.v("_lcm")
        i = L.i if k in (0, 1, 3) else L.up()
        out = [("lcm positive", lc > 0)]
        if k == 0:
            out += [("divides so far", forall([q_], Implies(And(0 <= q_, q_ < L.i), DVD(dv(q_), lc)), [dv(q_)])), ("r", L.i <= m.nr)]
            nx = LCM(lc, dv(L.i))
            out = [("@def", And(nx < 1 << 31, Implies(And(lc > 0, dv(L.i) > 0), And(nx > 0, DVD(dv(L.i), nx), forall([c_], Implies(DVD(c_, lc), DVD(c_, nx)), [DVD(c_, lc)])))))] + out
        if k in (1, 2):
            t, n = tpt(s), m.nc
            out += [("divides", forall([q_], Implies(And(0 <= q_, q_ < m.nr), DVD(dv(q_), lc)), [dv(q_)])),
                    ("scaled rows", forall([q_], Implies(And(0 <= q_, q_ < i), SP(row_of(m, q_), t, n) == lc * XPT[q_]), [row_of(m, q_)])),
                    ("other rows", forall([q_], Implies(And(If(IV(k) == 1, i, i + 1) <= q_, q_ < m.nr), SP(row_of(m, q_), t, n) == dv(q_) * XPT[q_]), [row_of(m, q_)])), ("r", i <= m.nr)]
        if k == 2:
            e = Mat(L.entry, L.v("remap"))
            d, w = dv(i), e.at(i, L.i)
            out = [("@def", scale(row_of(m, i), d, row_of(e, i), lc, XPT[i], t, n)), ("@def", Implies(And(d > 0, DVD(d, lc)), TDIV(w * lc, d) * d == w * lc))] + out + [
                ("c", And(L.i <= m.nc, 0 <= i, i < m.nr)),
                ("other rows untouched", forall([q_], Implies(And(0 <= q_, q_ < m.nr, q_ != i), row_of(m, q_) == row_of(e, q_)), [row_of(m, q_)])),
                ("entries scaled so far", forall([c_], Implies(And(0 <= c_, c_ < m.nc), If(c_ < L.i, E(row_of(m, i), c_) * d == E(row_of(e, i), c_) * lc, E(row_of(m, i), c_) == E(row_of(e, i), c_))), [E(row_of(m, i), c_)]))]
        if k == 3:
            a, nw = Mat(L.pre, L["acc"]), Mat(L.st, L.v("newacc"))
            ob = outdiv(L, L.st)
            ov = lambda j: L.st.i32(ob, j)
            v = L.entry
            rm, ac, ne = Mat(v, L.v("remap")), Mat(v, L["acc"]), Mat(v, L.v("newacc"))
            pr = lambda r: (lambda q: PRF(v.key("c.i64"), v.key("c.p.i64.b"), v.key("c.p.i64.o"), ac.val, rm.val, r, q))
            z = z3.Int("rz")
            n = nw.nc
            out = [("@def", forall([q_, c_, z], E(pr(q_)(z), c_) == dot(v, ac, q_, rm, c_, z), [E(pr(q_)(z), c_)])),
                   ("@def", forall([q_, c_], dot(v, ac, q_, rm, c_, IV(0)) == 0, [dot(v, ac, q_, rm, c_, IV(0))])),
                   ("@def", forall([q_, c_, z], Implies(z >= 0, dot(v, ac, q_, rm, c_, z + 1) == dot(v, ac, q_, rm, c_, z) + ac.at(q_, z) * rm.at(z, c_)), [[E(pr(q_)(z), c_), rm.at(z, c_)]])),
                   ("@def", forall([q_], exch(pr(q_), row_of(ac, q_), lambda k_: row_of(rm, k_), XPT, tpt(s), lc, ac.nc, n), [row_of(ne, q_)])),
                   ("@def", forall([q_], same(row_of(ne, q_), pr(q_)(ac.nc), tpt(s), tpt(s), n), [row_of(ne, q_)]))] + out
            out += [("r", L.i <= nw.nr), ("divisors so far", forall([q_], Implies(And(0 <= q_, q_ < L.i), ov(q_) == lc), [ov(q_)])),
                    ("access", forall([q_], Implies(And(0 <= q_, q_ < nw.nr), SP(row_of(nw, q_), tpt(s), nw.nc) == lc * SP(row_of(a, q_), XPT, a.nc)), [row_of(nw, q_)]))]
        return out
    return f


contract("pluto_get_new_access_func", props=("C15",), usediv=True, nloops=4, requires=ac_req, modifies=rm_mods, ensures=ac_ens, loops={k: ac_inv(k) for k in range(4)})


# ------------------------------------------------------------------ the schedule as a relation
def gs_inv(L):
    s = Stm(L.pre, L["stmt"])
    t, N, C = s.tr, s.tr.nr, s.tr.nc
    m, i = Mat(L.st, L.v("sched")), L.i
    return m.wf() + [("fresh", And(m.m >= L.pre.nb, m.val >= L.pre.nb, m.nr == N, m.nc == C + i)), ("fresh rows", forall([ox_], Implies(ox_ < L.pre.nb, L.st.own(ox_) != m.val), [L.st.own(ox_)])),
                     ("fresh rows (2)", forall([q_], Implies(And(0 <= q_, q_ < m.anr), m.rb(q_) >= L.pre.nb), [m.rb(q_)])),
                     ("i", i <= N), m.is_(lambda r, j: If(j < i, If(And(r >= N - i, j == r - (N - i)), 1, 0), If(r >= N - i, -t.at(r, j - i), t.at(r, j - i))))]


contract("pluto_stmt_get_schedule", props=("C15", "C13"), nloops=1,
         requires=lambda c: (lambda s: s.wf() + [("@size", s.tr.nr + s.tr.nc < 1 << 20), ("context", c.pre.f("pluto_matrix", "context", s.tr.m, IV(0)) != 0)])(Stm(c.pre, c["stmt"])),
         ensures=lambda c: (lambda t, b: b.wf() + b.fresh_from(c.pre) + [("extents", And(b.nr == t.nr, b.nc == t.nr + t.nc)), b.is_(lambda i, j: If(j < t.nr, If(j == i, 1, 0), -t.at(i, j - t.nr)), "time minus schedule"), b.kinds(lambda i: IV(1))])(
             Stm(c.pre, c["stmt"]).tr, Cst(c.post, c.ret)),
         loops={0: gs_inv})
