"""Contracts for dependence satisfaction and directions (C10): lib/framework.cpp, lib/pluto.c."""
from base import *
from matrix import Mat
from cons import Cst
from ddg import Prog, RAR, x_, y_
from stmts import *

SYS = z3.DeclareSort("System")                       # the rows of a system, as a value
CO = z3.Function("CO", SYS, I, I, I)                   # its coefficients
KD = z3.Function("KD", SYS, I, I)                      # the kinds of its rows (0: >= 0, otherwise = 0)
# EMPTY(n, m, S): no integer point satisfies the first n rows of S over m columns
EMPTY = z3.Function("EMPTY", I, I, SYS, z3.BoolSort())
A_, B_ = z3.Consts("A B", SYS)


def agree(nr, nc, at, eq):
    """The system A has the given rows."""
    i, j = z3.Ints("ai aj")
    return And(forall([i, j], Implies(And(0 <= i, i < nr, 0 <= j, j < nc), CO(A_, i, j) == at(i, j)), [CO(A_, i, j)]),
               forall([i], Implies(And(0 <= i, i < nr), (KD(A_, i) != 0) == (eq(i) != 0)), [KD(A_, i)]))


def empty_iff(res, nr, nc, at, eq):
    """res is true exactly when the system with the given rows has no integer point."""
    return forall([A_], Implies(agree(nr, nc, at, eq), res == EMPTY(nr, nc, A_)), [EMPTY(nr, nc, A_)])


def empty_some(res, nr, nc, at, eq):
    """The same, about some system with these rows (every family of rows is a system)."""
    return z3.Exists([A_], And(agree(nr, nc, at, eq), res == EMPTY(nr, nc, A_)), patterns=[EMPTY(nr, nc, A_)])


class DepV:
    """A dependence and the schedules at its ends."""

    def __init__(self, view, dep, prog):
        self.v, self.p = view, Prog(view, prog)
        self.b = blk(dep)
        f = lambda n: view.f("dependence", n, self.b, IV(0))
        self.f = f
        ss = prog_stmts(self.p)
        self.s, self.t = ss.s(f("src")), ss.s(f("dest"))
        self.poly = Cst(view, f("dpolytope"))
        self.sd, self.td = self.s.dim, self.t.dim
        self.npar = self.p.npar
        self.nc = self.sd + self.td + self.npar + 1

    def wf(self, level):
        v, p = self.v, self.p
        out = [("program", And(live(v, p.b), LEN(p.b) >= sizeof(v, "plutoProg"), v.f("plutoProg", "context", p.b, IV(0)) != 0, p.npar >= 0, p.npar <= MAXS)),
               ("dependence", And(live(v, self.b), LEN(self.b) >= sizeof(v, "dependence"), 0 <= self.f("src"), self.f("src") < p.ns, 0 <= self.f("dest"), self.f("dest") < p.ns)),
               ("statements", And(live(v, p.stmts), LEN(p.stmts) >= 8 * p.ns, p.ns <= MAXS))]
        for n, s in (("source", self.s), ("target", self.t)):
            out += [(n + ": " + l, f) for l, f in s.wf()] + [(n + " level and columns", And(0 <= level, level < s.tr.nr, s.tr.nc >= s.dim + self.npar + 1))]
        return out + [("dependence polyhedron: " + l, f) for l, f in self.poly.wf()] + [("dependence polyhedron columns", self.poly.nc == self.nc), ("@size", self.poly.nr <= 1 << 20)]

    def diff(self, level, j, sign=1):
        """Coefficient of column j in sign * (phi(source) - phi(target)) at the level."""
        a, b = self.s.row(level, j), -self.t.row(level, j - self.sd)
        cst = self.s.row(level, j - self.td) - self.t.row(level, j - self.sd)
        e = If(j < self.sd, a, If(j < self.sd + self.td, b, cst))
        return e if sign == 1 else -e

    def rows(self, level, sign, shift):
        """Rows of: sign*(phi(source) - phi(target)) + shift >= 0 and the dependence polyhedron."""
        last = self.nc - 1
        return (lambda i, j: If(i == 0, self.diff(level, j, sign) + If(j == last, shift, 0), self.poly.at(i - 1, j)),
                lambda i: If(i == 0, 0, self.poly.eq(i - 1)))

    def none(self, level, sign, shift):
        """formula transformer: res is true exactly when no instance has sign*(phi(source)-phi(target)) + shift >= 0"""
        at, eq = self.rows(level, sign, shift)
        return lambda res: empty_iff(res, self.poly.nr + 1, self.nc, at, eq)


def dv(c):
    return DepV(c.pre, c["dep"], c["prog"])


def row_inv(sign, full=True, cname="cst"):
    def f(L):
        d, k = DepV(L.pre, L["dep"], L["prog"]), Cst(L.st, L.v(cname))
        return [("row so far", forall([y_], Implies(And(0 <= y_, y_ < L.i), k.at(IV(0), y_) == d.diff(L["level"], y_, sign)), [k.at(IV(0), y_)])), ("j", L.i <= d.nc)] + \
            [("system: " + l, f) for l, f in k.wf() + k.fresh_from(L.pre) if full or "overlap" not in l] + [("shape", And(k.nc == d.nc, k.anr >= 1, k.eq(IV(0)) == 0))]
    return f


contract("dep_satisfaction_test", props=("C10", "C13"), nloops=3,
         requires=lambda c: dv(c).wf(c["level"]),
         ensures=lambda c: [("satisfied exactly when the target is strictly later for every instance", dv(c).none(c["level"], 1, 0)(bl(c.ret)))],
         loops={0: row_inv(1), 1: row_inv(1), 2: row_inv(1)})



def dir_posts(d, level, res):
    """res is the direction according to the signs of phi(target) - phi(source) that occur."""
    p, m = Or(res == DPLUS, res == DSTAR), Or(res == DMINUS, res == DSTAR)
    return [("plus or star exactly when some instance is positive", d.none(level, -1, -1)(Not(p))),
            ("minus or star exactly when some instance is negative", d.none(level, 1, -1)(Not(m))),
            ("one of the four directions", Or(p, m, res == DZERO))]


_s = [-1, -1, -1, 1, 1, 1, 1, 1, 1, -1, -1, -1]


def dir_hint(c):
    if c.n > 3:
        return []
    return [("some instance is " + ("positive" if c.n in (0, 3) else "negative") + " unless empty", dv(c).none(c["level"], -1 if c.n in (0, 3) else 1, -1)(bl(c.ret))),
            ("such a system", empty_some(bl(c.ret), dv(c).poly.nr + 1, dv(c).nc, *dv(c).rows(c["level"], -1 if c.n in (0, 3) else 1, -1)))]


def dir_hint_add(c):
    if c.n > 3:
        return []
    d, k = dv(c), Cst(c.post, c.call["cst1"])
    at, eq = d.rows(c["level"], -1 if c.n in (0, 3) else 1, -1)
    i, j = z3.Ints("ai aj")
    last = d.nc - 1
    return [("shape", And(k.nr == d.poly.nr + 1, k.nc == d.nc)),
            ("first row", forall([j], Implies(And(0 <= j, j < d.nc), k.at(IV(0), j) == at(IV(0), j)), [k.at(IV(0), j)])),
            ("other rows", forall([i, j], Implies(And(1 <= i, i < k.nr, 0 <= j, j < d.nc), k.at(i, j) == d.poly.at(i - 1, j)), [k.at(i, j)])),
            ("kinds", forall([i], Implies(And(0 <= i, i < k.nr), k.eq(i) == eq(i)), [k.eq(i)]))]


contract("get_dep_direction", props=("C10",), nloops=12,
         requires=lambda c: dv(c).wf(c["level"]),
         ensures=lambda c: dir_posts(dv(c), c["level"], c.ret),
         hints={"pluto_constraints_is_empty": dir_hint, "pluto_constraints_add": dir_hint_add},
         loops={k: row_inv(_s[k], k % 3 == 2) for k in range(12)})


# ------------------------------------------------------------------ satisfaction of all dependences
H_KEYS = ["f.dependence.src", "f.dependence.dest", "f.dependence.dpolytope", "c.p.statement.b", "f.plutoProg.stmts", "f.plutoProg.npar", "f.statement.dim", "f.statement.trans",
          "f.pluto_matrix.val", "c.p.i64.b", "c.p.i64.o", "c.i64", "f.pluto_constraints.nrows", "f.pluto_constraints.val", "f.pluto_constraints.buf", "f.pluto_constraints.is_eq", "c.i32"]
_sysd = {}


def SYSD(view, prog, d, l, sign, shift):
    """The system of dependence block d with the row sign*(phi_l(source) - phi_l(target)) + shift >= 0 in front, in this state."""
    hs = [view.key(k) for k in H_KEYS]
    if "f" not in _sysd:
        _sysd["f"] = z3.Function("SYSD", *([h.sort() for h in hs] + [I] * 5 + [SYS]))
    return _sysd["f"](*(hs + [prog, d, l, IV(sign), IV(shift)]))


def sysd_def(sign, shift):
    """Definition of SYSD in the entry state (every family of rows is a system)."""
    def f(c):
        d, l, i, j = z3.Ints("sd sl si sj")
        pb = blk(c["prog"])
        v = DepV(c.pre, d, c["prog"])
        s = SYSD(c.pre, pb, d, l, sign, shift)
        at, eq = v.rows(l, sign, shift)
        return [forall([d, l, i, j], Implies(And(0 <= i, i <= v.poly.nr, 0 <= j, j < v.nc), CO(s, i, j) == at(i, j)), [CO(s, i, j)]),
                forall([d, l, i], Implies(And(0 <= i, i <= v.poly.nr), KD(s, i) == eq(i)), [KD(s, i)])]
    return f


def holds_none(view, prog, d, l, sign, shift):
    v = DepV(view, d, prog)
    return EMPTY(v.poly.nr + 1, v.nc, SYSD(view, blk(prog), d, l, sign, shift))


def lift(x, guard, fs, pat):
    """The facts fs (about an object that depends on x) for every x in guard."""
    ground, out = [], []
    def go(f):
        if z3.is_and(f):
            for g in f.children():
                go(g)
        elif z3.is_quantifier(f) and f.is_forall():
            vs = [z3.Const("lq%d" % k, f.var_sort(k)) for k in range(f.num_vars())]
            sub = lambda t: z3.substitute_vars(t, *reversed(vs))
            out.append(forall([x] + vs, Implies(guard, sub(f.body())), [[sub(t) for t in f.pattern(k).children()] for k in range(f.num_patterns())]))
        else:
            ground.append(f)
    for f in fs:
        go(f)
    return [forall([x], Implies(guard, And(*ground)), [pat])] + out


def all_deps_wf(p, nlev):
    """Every dependence: ends, schedules with nlev levels, polyhedron."""
    v = p.v
    d = DepV(v, p.dep(x_), p.b)
    g = And(0 <= x_, x_ < p.nd)
    fs = [f for l, f in d.wf(nlev - 1) if not l.startswith("@") and " level and columns" not in l] + [And(s.tr.nr >= nlev, s.tr.nc >= s.dim + p.npar + 1) for s in (d.s, d.t)]
    return [("program block", And(live(v, p.b), LEN(p.b) >= sizeof(v, "plutoProg"), v.f("plutoProg", "context", p.b, IV(0)) != 0)), ("counts", And(p.ns >= 0, p.nd >= 0, p.ns <= MAXS, p.nd <= MAXS, p.npar >= 0, p.npar <= MAXS)),
            ("dependence table", Or(p.nd == 0, And(live(v, p.deps), LEN(p.deps) >= 8 * p.nd)))] + \
        [("every dependence (%d)" % k, f) for k, f in enumerate(lift(x_, g, fs, p.dep(x_)))] + \
        [("dependences are distinct", forall([x_, y_], Implies(And(0 <= x_, x_ < y_, y_ < p.nd), p.dep(x_) != p.dep(y_)), [[p.dep(x_), p.dep(y_)]])),
         ("satisfied is a truth value", forall([x_], Implies(g, Or(p.d("satisfied", x_) == 0, p.d("satisfied", x_) == 1)), [p.dep(x_)])),
         ("@size", forall([x_], Implies(g, d.poly.nr <= 1 << 20), [p.dep(x_)]))]


def upd(p0, p1, x, level):
    """Dependence x after one update at the level."""
    now = holds_none(p0.v, p0.b, p0.dep(x), level, 1, 0)
    old = p0.d("satisfied", x) != 0
    return And((p1.d("satisfied", x) != 0) == Or(old, now), Or(p1.d("satisfied", x) == 0, p1.d("satisfied", x) == 1),
               p1.d("satisfaction_level", x) == If(And(Not(old), now), level, p0.d("satisfaction_level", x)))


def upd_any(p0, p1, n, level, view=None):
    """The verdict about any system with the rows of dependence x, x < n (rows read in view)."""
    q = Prog(view, p0.b) if view is not None else p0
    nn, mm = z3.Ints("rn rm")
    d = DepV(q.v, q.dep(x_), q.b)
    at, eq = d.rows(level, 1, 0)
    return forall([x_, A_, nn, mm], Implies(And(0 <= x_, x_ < n, p0.d("satisfied", x_) == 0, nn == d.poly.nr + 1, mm == d.nc, agree(nn, mm, at, eq)), (p1.d("satisfied", x_) != 0) == EMPTY(nn, mm, A_)),
                  [[p0.dep(x_), EMPTY(nn, mm, A_)]])


def upd_inv(L):
    p0, p1 = Prog(L.pre, L["prog"]), Prog(L.st, L["prog"])
    return [("verdicts", upd_any(p0, p1, L.i, L["level"])), ("updated", forall([x_], Implies(And(0 <= x_, x_ < L.i), upd(p0, p1, x_, L["level"])), [p0.dep(x_)])),
            ("rest", forall([x_], Implies(And(L.i <= x_, x_ < p0.nd), And(p1.d("satisfied", x_) == p0.d("satisfied", x_), p1.d("satisfaction_level", x_) == p0.d("satisfaction_level", x_))), [p0.dep(x_)])),
            ("i", L.i <= p0.nd), ("count", And(0 <= L.v("num_new_carried"), L.v("num_new_carried") <= L.i, (L.v("num_new_carried") > 0) == z3.Exists([x_], And(0 <= x_, x_ < L.i, new_real(p0, p1, x_)), patterns=[p0.dep(x_)])))]


def new_real(p0, p1, x):
    return And(p0.d("satisfied", x) == 0, p1.d("satisfied", x) != 0, p0.d("type", x) != RAR)


any_b = lambda b: z3.BoolVal(True)
contract("dep_satisfaction_update", props=("C10", "C13"), nloops=1, requires=lambda c: all_deps_wf(P(c), c["level"] + 1) + [("level", c["level"] >= 0)], setup=sysd_def(1, 0),
         modifies=lambda c: {"f.dependence.satisfied": any_b, "f.dependence.satisfaction_level": any_b},
         ensures=lambda c: (lambda p0, p1: [("satisfied exactly when it was or the level satisfies it, which is then recorded", forall([x_], Implies(And(0 <= x_, x_ < p0.nd), upd(p0, p1, x_, c["level"])), [p0.dep(x_)])),
                                            ("verdicts about any such system", upd_any(p0, p1, p0.nd, c["level"])),
                                            ("new ones are reported", And(c.ret >= 0, (c.ret > 0) == z3.Exists([x_], And(0 <= x_, x_ < p0.nd, new_real(p0, p1, x_)), patterns=[p0.dep(x_)])))])(P(c), P(c, view=c.post)),
         loops={0: upd_inv})

contract("deps_satisfaction_check", props=("C10", "C13"), nloops=1, requires=lambda c: P(c).wf(),
         ensures=lambda c: (lambda p: [("true exactly when every dependence other than read-read is satisfied", bl(c.ret) == forall([x_], Implies(And(0 <= x_, x_ < p.nd, real(p, x_)), p.d("satisfied", x_) != 0), [p.dep(x_)]))])(P(c)),
         loops={0: lambda L: (lambda p: [("satisfied so far", forall([x_], Implies(And(0 <= x_, x_ < L.i, real(p, x_)), p.d("satisfied", x_) != 0), [p.dep(x_)])), ("i", L.i <= p.nd)])(Prog(L.pre, L["prog"]))})


def reset(p0, p1, n):
    return forall([x_], Implies(And(0 <= x_, x_ < n), And(p1.d("satisfied", x_) == 0, p1.d("satisfaction_level", x_) == -1)), [p0.dep(x_)])


contract("pluto_dep_satisfaction_reset", props=("C10",), nloops=1, requires=lambda c: P(c).wf(),
         modifies=lambda c: {"f.dependence.satisfied": any_b, "f.dependence.satisfaction_level": any_b},
         ensures=lambda c: [("nothing is satisfied", reset(P(c), P(c, view=c.post), P(c).nd))],
         loops={0: lambda L: [("reset so far", reset(Prog(L.pre, L["prog"]), Prog(L.st, L["prog"]), L.i)), ("i", L.i <= Prog(L.pre, L["prog"]).nd)]})


# ------------------------------------------------------------------ satisfaction levels and vectors
def kinds_apart(p, *flds):
    """Program, table and dependence blocks are not vectors."""
    no = lambda b: And(*[KINDF(b) != K("f.dependence." + f) for f in flds])
    return ("blocks of other kinds", And(no(p.b), no(p.deps), no(p.stmts), forall([x_], Implies(And(0 <= x_, x_ < p.nd), no(p.dep(x_))), [p.dep(x_)])))


def vec_wf(p, fld, null_ok=True):
    """Per-dependence vectors owned by their dependences."""
    v, b = p.v, p.d(fld, x_)
    ok = And(live(v, b), v.own(b) == p.dep(x_), KINDF(b) == K("f.dependence." + fld))
    return ("vectors " + fld, forall([x_], Implies(And(0 <= x_, x_ < p.nd), Or(b == 0, ok) if null_ok else ok), [p.dep(x_)]))


def levels(p0, p1, nh):
    """Recorded levels are the first ones that satisfy, among the first nh."""
    E = lambda l: holds_none(p0.v, p0.b, p0.dep(x_), l, 1, 0)
    sl, ok = p1.d("satisfaction_level", x_), p1.d("satisfied", x_) != 0
    g = And(0 <= x_, x_ < p0.nd)
    sysl = SYSD(p0.v, p0.b, p0.dep(x_), y_, 1, 0)
    return [("level of a satisfied one", forall([x_], Implies(g, And(Implies(ok, And(0 <= sl, sl < nh, E(sl))), Implies(Not(ok), sl == -1), Or(p1.d("satisfied", x_) == 0, p1.d("satisfied", x_) == 1))), [p0.dep(x_)])),
            ("no earlier level satisfies", forall([x_, y_], Implies(And(g, 0 <= y_, y_ < nh, Or(Not(ok), y_ < sl)), Not(E(y_))), [sysl]))]


def satvec_row(p0, p1, x, y):
    sl = p1.d("satisfaction_level", x)
    return p1.v.i32(p1.d("satvec", x), y) == If(And(p0.v.i32(p0.d("dirvec", x), y) != DZERO, Or(sl >= y, sl == -1)), 1, 0)


def satvec_done(p0, p1, n, nh):
    sv = p1.d("satvec", x_)
    g = And(0 <= x_, x_ < n, real(p0, x_))
    return [("vector allocated", forall([x_], Implies(g, And(live(p1.v, sv), sv >= p0.v.nb, LEN(sv) >= 4 * nh, p1.v.own(sv) == p0.dep(x_), KINDF(sv) == K("f.dependence.satvec"))), [p0.dep(x_)])),
            ("vector", forall([x_, y_], Implies(And(g, 0 <= y_, y_ < nh), satvec_row(p0, p1, x_, y_)), [p1.v.i32(sv, y_)]))]


def satvec_rest(p0, p1, n):
    """Dependences not reached yet keep their old vectors, still allocated."""
    b, o = p1.d("satvec", x_), p0.d("satvec", x_)
    return ("old vectors", forall([x_], Implies(And(n <= x_, x_ < p0.nd), And(b == o, Or(b == 0, Not(p1.v.freed(b))))), [p0.dep(x_)]))


def cds_inv(k):
    def f(L):
        p0, p1 = Prog(L.pre, L["prog"]), Prog(L.st, L["prog"])
        if k == 0:
            return levels(p0, p1, L.i) + [("i", L.i <= p0.nh)]
        n = L.i if k == 1 else L.up()
        out = levels(p0, p1, p0.nh) + satvec_done(p0, p1, n, p0.nh)
        if k == 1:
            return out + [satvec_rest(p0, p1, n), ("i", n <= p0.nd)]
        sv = p1.d("satvec", n)
        return out + [satvec_rest(p0, p1, n + 1), ("i", And(0 <= n, n < p0.nd, real(p0, n))), ("level", L.i <= p0.nh),
                      ("this vector's block", And(live(p1.v, sv), sv >= p0.v.nb, LEN(sv) >= 4 * p0.nh, p1.v.own(sv) == p0.dep(n), KINDF(sv) == K("f.dependence.satvec"))),
                      ("this vector", forall([y_], Implies(And(0 <= y_, y_ < L.i), satvec_row(p0, p1, n, y_)), [p1.v.i32(sv, y_)]))]
    return f


contract("pluto_compute_dep_satisfaction", props=("C10", "C13"), nloops=3, setup=sysd_def(1, 0),
         requires=lambda c: (lambda p: all_deps_wf(p, p.nh) + [("levels", And(p.nh >= 0, p.nh <= MAXS)), vec_wf(p, "satvec"), vec_wf(p, "dirvec"), kinds_apart(p, "satvec"),
                                                               ("directions known", forall([x_], Implies(And(0 <= x_, x_ < p.nd, real(p, x_)), And(p.d("dirvec", x_) != 0, LEN(p.d("dirvec", x_)) >= 4 * p.nh)), [p.dep(x_)]))])(P(c)),
         modifies=lambda c: {"f.dependence.satisfied": any_b, "f.dependence.satisfaction_level": any_b, "f.dependence.satvec": any_b},
         frees=lambda c: (lambda b: KINDF(b) == K("f.dependence.satvec")),
         ensures=lambda c: (lambda p0, p1: levels(p0, p1, p0.nh) + satvec_done(p0, p1, p0.nd, p0.nh))(P(c), P(c, view=c.post)),
         loops={k: cds_inv(k) for k in range(3)})


# ------------------------------------------------------------------ directions of all dependences
def dir_at(p0, x, l, r):
    """r is the direction of dependence x at level l."""
    pos, neg = Not(holds_none(p0.v, p0.b, p0.dep(x), l, -1, -1)), Not(holds_none(p0.v, p0.b, p0.dep(x), l, 1, -1))
    return r == If(pos, If(neg, DSTAR, DPLUS), If(neg, DMINUS, DZERO))


def dirs_done(p0, p1, n, nh):
    b = p1.d("dirvec", x_)
    g = And(0 <= x_, x_ < n)
    return [("vector allocated", forall([x_], Implies(g, And(live(p1.v, b), b >= p0.v.nb, LEN(b) >= 4 * nh, p1.v.own(b) == p0.dep(x_), KINDF(b) == K("f.dependence.dirvec"))), [p0.dep(x_)])),
            ("directions", forall([x_, y_], Implies(And(g, 0 <= y_, y_ < nh), dir_at(p0, x_, y_, p1.v.i32(b, y_))), [p1.v.i32(b, y_)]))]


def cdd_inv(k):
    def f(L):
        p0, p1 = Prog(L.pre, L["prog"]), Prog(L.st, L["prog"])
        n = L.i if k == 0 else L.up()
        b, o = p1.d("dirvec", x_), p0.d("dirvec", x_)
        m = n if k == 0 else n + 1
        out = dirs_done(p0, p1, n, p0.nh) + [("old vectors", forall([x_], Implies(And(m <= x_, x_ < p0.nd), And(b == o, Or(b == 0, Not(p1.v.freed(b))))), [p0.dep(x_)]))]
        if k == 0:
            return out + [("i", n <= p0.nd)]
        b = p1.d("dirvec", n)
        return out + [("i", And(0 <= n, n < p0.nd)), ("level", L.i <= p0.nh),
                      ("this vector's block", And(live(p1.v, b), b >= p0.v.nb, LEN(b) >= 4 * p0.nh, p1.v.own(b) == p0.dep(n), KINDF(b) == K("f.dependence.dirvec"))),
                      ("this vector", forall([y_], Implies(And(0 <= y_, y_ < L.i), dir_at(p0, n, y_, p1.v.i32(b, y_))), [p1.v.i32(b, y_)]))]
    return f


contract("pluto_compute_dep_directions", props=("C10",), nloops=2, setup=lambda c: sysd_def(1, -1)(c) + sysd_def(-1, -1)(c),
         requires=lambda c: (lambda p: all_deps_wf(p, p.nh) + [("levels", And(p.nh >= 0, p.nh <= MAXS)), vec_wf(p, "dirvec"), kinds_apart(p, "dirvec")])(P(c)),
         modifies=lambda c: {"f.dependence.dirvec": any_b},
         frees=lambda c: (lambda b: KINDF(b) == K("f.dependence.dirvec")),
         ensures=lambda c: (lambda p0, p1: dirs_done(p0, p1, p0.nd, p0.nh))(P(c), P(c, view=c.post)),
         loops={k: cdd_inv(k) for k in range(2)})


# ------------------------------------------------------------------ kinds of levels
def types_inv(k):
    def f(L):
        p0, p1 = Prog(L.pre, L["prog"]), Prog(L.st, L["prog"])
        ss = prog_stmts(p0)
        typ = lambda l: hprop(p1, "type", l)
        lv = L.i if k == 0 else L.up()
        out = [("types so far", forall([y_], Implies(And(0 <= y_, y_ < lv), typ(y_) == If(ss.scalar_l(y_), 3, 1)), [typ(y_)])), ("depth", lv <= p0.nh)]
        if k == 1:
            out += [("scalar so far", forall([x_, z_], Implies(And(0 <= x_, x_ < L.i, 0 <= z_, z_ < ss.s(x_).dim), ss.s(x_).row(lv, z_) == 0), [ss.s(x_).row(lv, z_)])), ("i", L.i <= p0.ns), ("level", lv < p0.nh)]
        return out
    return f


def scalar_l(self, l):
    s = self.s(x_)
    return forall([x_, z_], Implies(And(0 <= x_, x_ < self.n, 0 <= z_, z_ < s.dim), s.row(l, z_) == 0), [s.row(l, z_)])


SArr.scalar_l = scalar_l
contract("pluto_detect_hyperplane_types", props=("C11", "C07"), nloops=2,
         requires=lambda c: (lambda p: prog_wf(p, False) + [(l, f) for l, f in prog_stmts(p).wf(p.nh)])(P(c)),
         modifies=lambda c: {"f.hyperplane_properties.type": [P(c).v.f("plutoProg", "hProps", P(c).b, IV(0))]},
         ensures=lambda c: (lambda p0, p1: [("a level is a loop exactly when some statement's row has an iterator", forall([y_], Implies(And(0 <= y_, y_ < p0.nh), hprop(p1, "type", y_) == If(prog_stmts(p0).scalar_l(y_), 3, 1)), [hprop(p1, "type", y_)]))])(
             P(c), P(c, view=c.post)),
         loops={k: types_inv(k) for k in range(2)})


def sw_done(p0, p1, n):
    ss = prog_stmts(p0)
    ty = p1.v.i32(ss.s(x_).f("hyp_types"), y_)
    return ("types", forall([x_, y_], Implies(And(0 <= x_, x_ < n, 0 <= y_, y_ < ss.s(x_).tr.nr), ty == If(ss.s(x_).scalar_z(y_), 3, 1)), [ty]))


def scalar_z(self, l):
    return forall([z_], Implies(And(0 <= z_, z_ < self.dim), self.row(l, z_) == 0), [self.row(l, z_)])


Stm.scalar_z = scalar_z


def sw_inv(k):
    def f(L):
        p0, p1 = Prog(L.pre, L["prog"]), Prog(L.st, L["prog"])
        n = L.i if k == 0 else L.up()
        out = [sw_done(p0, p1, n), ("s", n <= p0.ns)]
        if k == 1:
            s = prog_stmts(p0).s(n)
            ty = p1.v.i32(s.f("hyp_types"), y_)
            out += [("this statement", forall([y_], Implies(And(0 <= y_, y_ < L.i), ty == If(s.scalar_z(y_), 3, 1)), [ty])), ("i", And(n < p0.ns, L.i <= s.tr.nr))]
        return out
    return f


contract("pluto_detect_hyperplane_types_stmtwise", props=("C11", "C07"), nloops=2,
         requires=lambda c: (lambda p: prog_wf(p, False) + [(l, f) for l, f in prog_stmts(p).wf(IV(0))] + [
             ("type tables", forall([x_], Implies(And(0 <= x_, x_ < p.ns), (lambda s: And(live(p.v, s.f("hyp_types")), LEN(s.f("hyp_types")) >= 4 * s.tr.nr, KINDF(s.f("hyp_types")) == K("f.statement.hyp_types")))(prog_stmts(p).s(x_))), [p.stmt(x_)])),
             ("type tables are distinct", forall([x_, y_], Implies(And(0 <= x_, x_ < y_, y_ < p.ns), prog_stmts(p).s(x_).f("hyp_types") != prog_stmts(p).s(y_).f("hyp_types")), [[p.stmt(x_), p.stmt(y_)]]))])(P(c)),
         modifies=lambda c: {"c.i32": lambda b: KINDF(b) == K("f.statement.hyp_types")},
         ensures=lambda c: [sw_done(P(c), P(c, view=c.post), P(c).ns)],
         loops={k: sw_inv(k) for k in range(2)})
