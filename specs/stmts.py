"""Statements, schedules, dependences and loops as seen by contracts; contracts for lib/polyloop.c (C11) and the predicates it rests on."""
from base import *
from matrix import Mat
from ddg import Prog, RAR, x_, y_

z_ = z3.Int("z")
ST = "statement"
MAXS = 1 << 20


def bl(r):
    return r if z3.is_bool(r) else r != 0


def live(v, b):
    return And(b > 0, b < v.nb, Not(v.freed(b)))


class Stm:
    """A statement."""

    def __init__(self, view, b):
        self.v, self.b = view, blk(b)
        f = lambda n: view.f(ST, n, self.b, IV(0))
        self.f = f
        self.dim, self.id, self.type = f("dim"), f("id"), f("type")
        self.tr = Mat(view, f("trans"))

    def row(self, l, j):
        return self.tr.at(l, j)

    def scalar(self, l):
        """The schedule row at level l depends on no iterator."""
        return forall([y_], Implies(And(0 <= y_, y_ < self.dim), self.row(l, y_) == 0), [self.row(l, y_)])

    def last(self, l):
        return self.row(l, self.tr.nc - 1)

    def wf(self, nh=None):
        v = self.v
        return [("statement", And(live(v, self.b), LEN(self.b) >= sizeof(v, ST), KINDF(self.b) == K(ST), self.dim >= 0, self.dim <= MAXS))] + \
            [("schedule: " + l, f) for l, f in self.tr.wf()] + [("schedule columns", And(self.tr.nc >= self.dim + 1))] + \
            ([("schedule rows", self.tr.nr >= nh)] if nh is not None else [])


def trans_rows_wf(v, mat, x, guard):
    """Rows of a family of matrices mat (mentioning x): storage."""
    i = z3.Int("wi")
    r = mat.rb(i)
    return forall([x, i], Implies(And(guard, 0 <= i, i < mat.anr), And(r > 0, r < v.nb, LEN(r) >= 8 * mat.anc, Not(v.freed(r)), v.own(r) == mat.val, v.ownidx(r) == i, KINDF(r) == K("i64"), mat.ro(i) == 0)), [[r], [mat.ro(i)]])


class SArr:
    """An array of statements."""

    def __init__(self, view, arr, n):
        self.v, self.a, self.n = view, blk(arr), n

    def b(self, x):
        return self.v.pcell(ST, self.a, x)

    def s(self, x):
        return Stm(self.v, self.b(x))

    def wf(self, nh=None, trans=True, lbl=""):
        v = self.v
        s = self.s(x_)
        g = And(0 <= x_, x_ < self.n)
        out = [(lbl + "table", And(self.n >= 0, self.n <= MAXS, Or(self.n == 0, And(live(v, self.a), LEN(self.a) >= 8 * self.n)))),
               (lbl + "statements", forall([x_], Implies(g, And(live(v, s.b), LEN(s.b) >= sizeof(v, ST), KINDF(s.b) == K(ST), s.dim >= 0, s.dim <= MAXS)), [s.b]))]
        if trans:
            m = s.tr
            out += [(lbl + "schedules", forall([x_], Implies(g, And(*([f for l, f in m.wf()[:3]] + [m.nc >= s.dim + 1] + ([m.nr >= nh] if nh is not None else [])))), [s.b])),
                    (lbl + "schedule rows", trans_rows_wf(v, m, x_, g))]
        return out

    def mem(self, i):
        """Statement number i is in the list."""
        return z3.Exists([y_], And(0 <= y_, y_ < self.n, self.s(y_).id == i), patterns=[self.b(y_)])

    def scalar(self, l):
        s = self.s(x_)
        return forall([x_, y_], Implies(And(0 <= x_, x_ < self.n, 0 <= y_, y_ < s.dim), s.row(l, y_) == 0), [s.row(l, y_)])


class Loop:
    def __init__(self, view, p):
        self.v, self.b = view, blk(p)
        f = lambda n: view.f("pLoop", n, self.b, IV(0))
        self.depth, self.n, self.arr = f("depth"), f("nstmts"), f("stmts")
        self.ss = SArr(view, self.arr, self.n)

    def wf(self, nh=None, trans=True):
        v = self.v
        return [("loop", And(live(v, self.b), LEN(self.b) >= sizeof(v, "pLoop"), KINDF(self.b) == K("pLoop"), self.depth >= 0, self.depth <= MAXS))] + \
            [("loop's " + l, f) for l, f in self.ss.wf(nh, trans)]

    def orig(self):
        return forall([x_], Implies(And(0 <= x_, x_ < self.n), self.ss.s(x_).type == 0), [self.ss.b(x_)])

    def same(self, o, lbl="same loop"):
        return [(lbl, And(self.depth == o.depth, self.n == o.n)),
                (lbl + ": statements", forall([x_], Implies(And(0 <= x_, x_ < self.n), self.ss.b(x_) == o.ss.b(x_)), [[self.ss.b(x_)], [o.ss.b(x_)]]))]


def P(c, n="prog", view=None):
    return Prog(view or c.pre, c[n])


def prog_stmts(p):
    return SArr(p.v, p.stmts, p.ns)


def hprop(p, fld, l):
    return p.v.f("hyperplane_properties", fld, p.v.f("plutoProg", "hProps", p.b, IV(0)), l)


def prog_wf(p, satvec=True):
    """Program, statements, hyperplane table and per-dependence vectors."""
    v = p.v
    hp = v.f("plutoProg", "hProps", p.b, IV(0))
    out = [("program: " + l, f) for l, f in p.wf()] + [("program's " + l, f) for l, f in prog_stmts(p).wf(trans=False)]
    out += [("levels", And(p.nh >= 0, p.nh <= MAXS)), ("level properties", Or(p.nh == 0, And(live(v, hp), LEN(hp) >= sizeof(v, "hyperplane_properties") * p.nh)))]
    if satvec:
        sv, dv = p.d("satvec", x_), p.d("dirvec", x_)
        out += [("dependence vectors", forall([x_], Implies(And(0 <= x_, x_ < p.nd), And(live(v, sv), LEN(sv) >= 4 * p.nh, live(v, dv), LEN(dv) >= 4 * p.nh)), [p.dep(x_)]))]
    return out


def sat(p, d, l):
    return p.v.i32(p.d("satvec", d), l)


def dirv(p, d, l):
    return p.v.i32(p.d("dirvec", d), l)


def sid(p, d, end):
    """Number of the statement at an end of a dependence."""
    return prog_stmts(p).s(p.d(end, d)).id


def real(p, d):
    return p.d("type", d) != RAR


def unsg(x):
    return If(x < 0, x + (1 << 32), x)


# ------------------------------------------------------------------ predicates on schedules
def stmt_level(c, s="stmt", l="level"):
    st = Stm(c.pre, c[s])
    return st.wf() + [("level of the schedule", And(0 <= c[l], c[l] < st.tr.nr))]


contract("pluto_is_hyperplane_scalar", props=("C11", "C07"), nloops=1, requires=stmt_level,
         ensures=lambda c: [("scalar exactly when no iterator occurs", bl(c.ret) == Stm(c.pre, c["stmt"]).scalar(c["level"]))],
         loops={0: lambda L: [("zero so far", (lambda s: forall([y_], Implies(And(0 <= y_, y_ < L.i), s.row(L["level"], y_) == 0), [s.row(L["level"], y_)]))(Stm(L.pre, L["stmt"]))),
                              ("j", L.i <= Stm(L.pre, L["stmt"]).dim)]})
contract("pluto_is_hyperplane_loop", props=("C11", "C07"), nloops=0, requires=stmt_level,
         ensures=lambda c: [("a loop exactly when some iterator occurs", bl(c.ret) == Not(Stm(c.pre, c["stmt"]).scalar(c["level"])))])


def mem_l(L):
    a = SArr(L.pre, L["slist"], L["len"])
    return [("not so far", forall([y_], Implies(And(0 <= y_, y_ < L.i), a.s(y_).id != L["stmt_id"]), [a.b(y_)])), ("i", L.i <= If(L["len"] < 0, 0, L["len"]))]


contract("pluto_stmt_is_member_of", props=("C11",), nloops=1,
         requires=lambda c: SArr(c.pre, c["slist"], c["len"]).wf(trans=False),
         ensures=lambda c: [("member exactly when listed", bl(c.ret) == SArr(c.pre, c["slist"], c["len"]).mem(c["stmt_id"])), ("a truth value", Or(c.ret == 0, c.ret == 1))], loops={0: mem_l})


def sub_l(L):
    a, b = SArr(L.pre, L["s1"], L["n1"]), SArr(L.pre, L["s2"], L["n2"])
    return [("listed so far", forall([x_], Implies(And(0 <= x_, x_ < L.i), b.mem(a.s(x_).id)), [a.b(x_)])), ("i", L.i <= L["n1"])]


contract("pluto_stmt_is_subset_of", props=("C11",), nloops=1,
         requires=lambda c: SArr(c.pre, c["s1"], c["n1"]).wf(trans=False, lbl="first: ") + SArr(c.pre, c["s2"], c["n2"]).wf(trans=False, lbl="second: "),
         ensures=lambda c: (lambda a, b: [("subset exactly when every one is listed", bl(c.ret) == forall([x_], Implies(And(0 <= x_, x_ < a.n), b.mem(a.s(x_).id)), [a.b(x_)]))])(
             SArr(c.pre, c["s1"], c["n1"]), SArr(c.pre, c["s2"], c["n2"])), loops={0: sub_l})

# ------------------------------------------------------------------ parallelism
def inloop(p, lp, d):
    return And(lp.ss.mem(sid(p, d, "src")), lp.ss.mem(sid(p, d, "dest")))


def dep_scan(bad, name="prog"):
    """forall loop over dependences: none so far is bad"""
    def f(L):
        p = Prog(L.pre, L[name])
        return [("none so far", forall([z_], Implies(And(0 <= z_, z_ < L.i), Not(bad(L, p, z_))), [p.dep(z_)])), ("i", L.i <= p.nd)]
    return f


def orig_l(L):
    lp = Loop(L.pre, L["loop"])
    return [("original so far", forall([x_], Implies(And(0 <= x_, x_ < L.i), lp.ss.s(x_).type == 0), [lp.ss.b(x_)])), ("i", L.i <= lp.n)]


def loopreq(c, trans=False, lvl=True):
    p, lp = P(c), Loop(c.pre, c["loop"])
    return prog_wf(p) + lp.wf(trans=trans, nh=p.nh if trans else None) + ([("level of the loop", lp.depth < p.nh)] if lvl else [])


def anyd(p, bad):
    return z3.Exists([z_], And(0 <= z_, z_ < p.nd, bad(z_)))


def carried(p, lp, d):
    return And(real(p, d), inloop(p, lp, d), sat(p, d, lp.depth) != 0)


contract("pluto_loop_is_parallel", props=("C11",), nloops=2, requires=loopreq,
         ensures=lambda c: (lambda p, lp: [("parallel exactly when no dependence between its statements is carried", bl(c.ret) == And(lp.orig(), Or(
             hprop(p, "dep_prop", lp.depth) == 1, Not(anyd(p, lambda d: carried(p, lp, d))))))])(P(c), Loop(c.pre, c["loop"])),
         loops={0: orig_l, 1: dep_scan(lambda L, p, d: carried(p, Loop(L.pre, L["loop"]), d))})


def own_carried(p, lp, s, d):
    return And(real(p, d), sid(p, d, "src") == s, sid(p, d, "dest") == s, sat(p, d, lp.depth) != 0)


contract("pluto_loop_is_parallel_for_stmt", props=("C11",), nloops=2,
         requires=lambda c: loopreq(c) + [("statement", And(live(c.pre, blk(c["stmt"])), LEN(blk(c["stmt"])) >= sizeof(c.pre, ST)))],
         ensures=lambda c: (lambda p, lp: [("parallel exactly when no dependence of the statement on itself is carried", bl(c.ret) == And(lp.orig(), Or(
             hprop(p, "dep_prop", lp.depth) == 1, Not(anyd(p, lambda d: own_carried(p, lp, Stm(c.pre, c["stmt"]).id, d))))))])(P(c), Loop(c.pre, c["loop"])),
         loops={0: orig_l, 1: dep_scan(lambda L, p, d: own_carried(p, Loop(L.pre, L["loop"]), Stm(L.pre, L["stmt"]).id, d))})


def sat_comp(p, lp, d):
    dv = dirv(p, d, lp.depth)
    return And(real(p, d), inloop(p, lp, d), unsg(p.d("satisfaction_level", d)) < lp.depth, Or(dv == DSTAR, dv == DPLUS, dv == DMINUS))


contract("pluto_loop_has_satisfied_dep_with_component", props=("C11",), nloops=2, requires=loopreq,
         ensures=lambda c: (lambda p, lp: [("exactly when a dependence satisfied outside has a component here", bl(c.ret) == Or(Not(lp.orig()), anyd(p, lambda d: sat_comp(p, lp, d))))])(P(c), Loop(c.pre, c["loop"])),
         loops={0: orig_l, 1: dep_scan(lambda L, p, d: sat_comp(p, Loop(L.pre, L["loop"]), d))})


def inter(p, lp, depth, d):
    return And(real(p, d), p.d("src", d) != p.d("dest", d), lp.ss.mem(p.d("src", d)), lp.ss.mem(p.d("dest", d)),
               z3.Exists([y_], And(depth <= y_, y_ < p.nh, sat(p, d, y_) != 0)))


def inter_l2(L):
    p = Prog(L.pre, L["prog"])
    d = L.up()
    return [("no level so far", forall([y_], Implies(And(L["depth"] <= y_, y_ < L.i), sat(p, d, y_) == 0), [sat(p, d, y_)])), ("d", Or(L.i <= p.nh, L.i == L["depth"])), ("d from", L.i >= L["depth"]), ("none found", L.v("satisfies") == 0)]


contract("pluto_satisfies_inter_stmt_dep", props=("C11",), nloops=3, requires=lambda c: loopreq(c) + [("depth", c["depth"] >= 0)],
         ensures=lambda c: (lambda p, lp: [("exactly when a dependence between different statements is satisfied there or below", bl(c.ret) == Or(Not(lp.orig()), anyd(p, lambda d: inter(p, lp, c["depth"], d))))])(
             P(c), Loop(c.pre, c["loop"])),
         loops={0: orig_l, 1: lambda L: dep_scan(lambda L, p, d: inter(p, Loop(L.pre, L["loop"]), L["depth"], d))(L) + [("none found", L.v("satisfies") == 0)], 2: inter_l2})

# enum DepDir
DMINUS, DZERO, DPLUS, DSTAR = [IV(ord(x)) for x in '-0+*']

# ------------------------------------------------------------------ loops and bands as values
contract("pluto_loop_alloc", props=("C11",), nloops=0,
         ensures=lambda c: (lambda l: [("new loop", And(l.b >= c.pre.nb, live(c.post, l.b), LEN(l.b) >= sizeof(c.post, "pLoop"), KINDF(l.b) == K("pLoop"))), ("no statements", And(l.n == 0, l.arr == 0))])(Loop(c.post, c.ret)))


def dup_ens(c, a, r):
    return [("new loop", And(r.b >= c.pre.nb, live(c.post, r.b), LEN(r.b) >= sizeof(c.post, "pLoop"), KINDF(r.b) == K("pLoop"))),
            ("new statement table", And(r.arr >= c.pre.nb, live(c.post, r.arr), LEN(r.arr) >= 8 * r.n))] + r.same(a)


def loop_src(c, a):
    v = c.pre
    return [("loop", And(live(v, a.b), LEN(a.b) >= sizeof(v, "pLoop"), a.n >= 0, a.n <= MAXS, Or(a.n == 0, And(live(v, a.arr), LEN(a.arr) >= 8 * a.n))))]


contract("pluto_loop_dup", props=("C11",), nloops=0, requires=lambda c: loop_src(c, Loop(c.pre, c["l"])),
         ensures=lambda c: dup_ens(c, Loop(c.pre, c["l"]), Loop(c.post, c.ret)))
contract("pluto_loop_free", props=("C11",), nloops=0,
         requires=lambda c: (lambda a: [("loop", And(live(c.pre, a.b), LEN(a.b) >= sizeof(c.pre, "pLoop"), Or(a.arr == 0, And(live(c.pre, a.arr), a.arr != a.b))))])(Loop(c.pre, c["loop"])),
         frees=lambda c: (lambda a: lambda b: Or(b == a.b, And(b == a.arr, b != 0)))(Loop(c.pre, c["loop"])),
         ensures=lambda c: [("released", (lambda a: And(c.post.freed(a.b), Or(a.arr == 0, c.post.freed(a.arr))))(Loop(c.pre, c["loop"])))])


class Bnd:
    def __init__(self, view, p):
        self.v, self.b = view, blk(p)
        f = lambda n: view.f("band", n, self.b, IV(0))
        self.width, self.lp = f("width"), Loop(view, f("loop"))

    def wf(self, nh=None, trans=False):
        v = self.v
        return [("band", And(live(v, self.b), LEN(self.b) >= sizeof(v, "band"), KINDF(self.b) == K("band"), self.width >= 0, self.width <= MAXS))] + self.lp.wf(nh, trans)


def band_new(c, b, src, width):
    return [("new band", And(b.b >= c.pre.nb, live(c.post, b.b), LEN(b.b) >= sizeof(c.post, "band"), KINDF(b.b) == K("band"))), ("width", b.width == width)] + dup_ens(c, src, b.lp)


contract("pluto_band_alloc", props=("C11",), nloops=0, requires=lambda c: loop_src(c, Loop(c.pre, c["loop"])) + [("width", c["width"] >= 0)],
         ensures=lambda c: band_new(c, Bnd(c.post, c.ret), Loop(c.pre, c["loop"]), c["width"]))
contract("pluto_band_dup", props=("C11",), nloops=0,
         requires=lambda c: (lambda b: [("band", And(live(c.pre, b.b), LEN(b.b) >= sizeof(c.pre, "band"), b.width >= 0, b.width <= MAXS))] + loop_src(c, b.lp))(Bnd(c.pre, c["b"])),
         ensures=lambda c: band_new(c, Bnd(c.post, c.ret), Bnd(c.pre, c["b"]).lp, Bnd(c.pre, c["b"]).width))


def dscal_l(L):
    lp = Loop(L.pre, L["loop"])
    s = lp.ss.s(x_)
    return [("scalar so far", forall([x_, y_], Implies(And(0 <= x_, x_ < L.i, 0 <= y_, y_ < s.dim), s.row(L["depth"], y_) == 0), [s.row(L["depth"], y_)])), ("i", L.i <= lp.n)]


def trans_at(lp, l):
    s = lp.ss.s(x_)
    return ("level of every schedule", forall([x_], Implies(And(0 <= x_, x_ < lp.n), l < s.tr.nr), [lp.ss.b(x_)]))


contract("pluto_is_depth_scalar", props=("C11",), nloops=1,
         requires=lambda c: (lambda lp: lp.wf(trans=True) + [("depth", And(c["depth"] >= lp.depth)), trans_at(lp, c["depth"])])(Loop(c.pre, c["loop"])),
         ensures=lambda c: [("exactly when the level is scalar for every statement", bl(c.ret) == Loop(c.pre, c["loop"]).ss.scalar(c["depth"]))], loops={0: dscal_l})


def dom_diff(a, b, l):
    """Both first statements are scalar at l, at different positions."""
    s, t = a.ss.s(IV(0)), b.ss.s(IV(0))
    return And(s.scalar(l), t.scalar(l), s.last(l) != t.last(l))


contract("is_loop_dominated", props=("C11",), nloops=1,
         requires=lambda c: (lambda p, a, b: p.wf() + a.wf(p.nh, True) + b.wf(p.nh, True) + [("statements", And(a.n >= 1, b.n >= 1)), ("levels", And(a.depth < p.nh, b.depth < p.nh))])(
             P(c), Loop(c.pre, c["loop1"]), Loop(c.pre, c["loop2"])),
         ensures=lambda c: (lambda a, b: [("dominated exactly when the other is outside and on the same branch", bl(c.ret) == And(b.depth < a.depth, Not(z3.Exists([z_], And(0 <= z_, z_ <= b.depth, dom_diff(a, b, z_))))))])(
             Loop(c.pre, c["loop1"]), Loop(c.pre, c["loop2"])),
         loops={0: lambda L: (lambda a, b: [("same branch so far", forall([z_], Implies(And(0 <= z_, z_ < L.i), Not(dom_diff(a, b, z_))), [a.ss.s(IV(0)).last(z_)])), ("i", L.i <= b.depth + 1)])(
             Loop(L.pre, L["loop1"]), Loop(L.pre, L["loop2"]))})

def band_dom(c):
    a, b = Bnd(c.pre, c["band1"]), Bnd(c.pre, c["band2"])
    inc = forall([x_], Implies(And(0 <= x_, x_ < a.lp.n), b.lp.ss.mem(a.lp.ss.s(x_).id)), [a.lp.ss.b(x_)])
    deeper = Or(a.lp.depth > b.lp.depth, And(a.lp.depth == b.lp.depth, a.width < b.width))
    return [("dominated only when included", Implies(bl(c.ret), inc)), ("dominated only when deeper or narrower", Implies(bl(c.ret), deeper)),
            ("dominated when included and deeper or narrower", Implies(And(inc, deeper), bl(c.ret)))]


contract("is_band_dominated", props=("C11",), nloops=0,
         requires=lambda c: Bnd(c.pre, c["band1"]).wf() + Bnd(c.pre, c["band2"]).wf(), ensures=band_dom)



# ------------------------------------------------------------------ permutable and parallel bands
def perm_bad(p, lp, k, d):
    """Dependence d forbids level k in a permutable band starting at the loop's depth."""
    sl = p.d("satisfaction_level", d)
    dv = dirv(p, d, k)
    return And(real(p, d), unsg(sl) >= lp.depth, p.d("satisfied", d) != 0, Not(And(sl < k, lp.ss.scalar(sl))), inloop(p, lp, d), Or(dv == DSTAR, dv == DMINUS))


def par_bad(p, lp, k, d):
    return And(real(p, d), inloop(p, lp, d), unsg(p.d("satisfaction_level", d)) >= lp.depth, sat(p, d, k) != 0)


def okl(p, lp, k, bad):
    return forall([z_], Implies(And(0 <= z_, z_ < p.nd), Not(bad(p, lp, k, z_))), [p.dep(z_)])


k_, w_ = z3.Ints("k w")


def ok_levels(p, lp, lo, hi, bad):
    vec = dirv(p, z_, k_) if bad is perm_bad else sat(p, z_, k_)
    return forall([k_, z_], Implies(And(lo <= k_, k_ < hi, 0 <= z_, z_ < p.nd), Not(bad(p, lp, k_, z_))), [vec])


def sc_levels(lp, lo, hi):
    s = lp.ss.s(x_)
    return forall([k_, x_, y_], Implies(And(lo <= k_, k_ < hi, 0 <= x_, x_ < lp.n, 0 <= y_, y_ < s.dim), s.row(k_, y_) == 0), [s.row(k_, y_)])


def bandreq(c):
    p, lp = P(c), Loop(c.pre, c["loop"])
    return loopreq(c, True) + [("recorded levels", forall([x_], Implies(And(0 <= x_, x_ < p.nd, p.d("satisfied", x_) != 0), And(0 <= p.d("satisfaction_level", x_), p.d("satisfaction_level", x_) < p.nh)), [p.dep(x_)]))]


def loops_in(L):
    return Prog(L.pre, L["prog"]), Loop(L.pre, L["loop"])


def band_l0(bad):
    def f(L):
        p, lp = loops_in(L)
        d = L.v("depth")
        return [("levels so far", ok_levels(p, lp, lp.depth, d, bad)), ("depth", And(lp.depth <= d, d < p.nh))]
    return f


def band_l1(bad):
    def f(L):
        p, lp = loops_in(L)
        d = L.v("depth")
        return [("dependences so far", forall([z_], Implies(And(0 <= z_, z_ < L.i), Not(bad(p, lp, d, z_))), [p.dep(z_)])), ("i", L.i <= p.nd)]
    return f


def band_l2(bad):
    def f(L):
        p, lp = loops_in(L)
        d = L.v("depth")
        return [("still good", ok_levels(p, lp, lp.depth, d, bad)), ("depth", And(lp.depth <= d, d <= L.v0("depth"))), ("only constant levels peeled off", sc_levels(lp, d, L.v0("depth")))]
    return f


def maximal(p, lp, d, bad):
    """A level at or after d at which some statement has a loop is cut off by a level before it (or itself) that is not allowed."""
    vec = dirv(p, z_, k_) if bad is perm_bad else sat(p, z_, k_)
    some = z3.Exists([k_, z_], And(d <= k_, k_ <= y_, 0 <= z_, z_ < p.nd, bad(p, lp, k_, z_)), patterns=[vec])
    s = lp.ss.s(x_)
    return forall([y_, x_, w_], Implies(And(d <= y_, y_ < p.nh, 0 <= x_, x_ < lp.n, 0 <= w_, w_ < s.dim, s.row(y_, w_) != 0), some), [s.row(y_, w_)])


def perm_ens(c):
    p, lp, r = P(c), Loop(c.pre, c["loop"]), Bnd(c.post, c.ret)
    some = blk(c.ret) != 0
    e = lp.depth + r.width
    return [("either none or a band of at least two levels", Implies(some, And(r.width >= 2, e <= p.nh)))] + \
        [(l, Implies(some, f)) for l, f in band_new(c, r, lp, r.width)] + \
        [("every dependence that counts is non-negative at every level", Implies(some, ok_levels(p, lp, lp.depth, e, perm_bad))),
         ("ends with a loop", Implies(some, Not(lp.ss.scalar(e - 1)))),
         ("maximal", Implies(some, maximal(p, lp, e, perm_bad))),
         ("none only when the next level does not fit", Implies(Not(some), Or(maximal(p, lp, lp.depth, perm_bad), maximal(p, lp, lp.depth + 1, perm_bad))))]


contract("pluto_get_permutable_band", props=("C11",), nloops=3, requires=bandreq, ensures=perm_ens,
         loops={0: band_l0(perm_bad), 1: band_l1(perm_bad), 2: band_l2(perm_bad)})


def pout(c, n, view, i=0):
    """The int an out-parameter points to."""
    return view.i32(c[n], c[n].off + i)


def outp(c, n):
    return [(n + " storage", And(live(c.pre, blk(c[n])), c[n].off >= 0, LEN(blk(c[n])) >= 4 * c[n].off + 4, KINDF(blk(c[n])) == K("out.i32")))]


def outmod(*names):
    return lambda c: {"c.i32": (lambda b: Or(*[b == blk(c[n]) for n in names]))}


def parb_ens(c):
    p, lp, r = P(c), Loop(c.pre, c["loop"]), Bnd(c.post, c.ret)
    e = lp.depth + r.width
    sp = pout(c, "innermost_split_level", c.post)
    return band_new(c, r, lp, r.width) + [
        ("levels", And(r.width >= 0, e <= p.nh)),
        ("no dependence that counts is carried at any level", ok_levels(p, lp, lp.depth, e, par_bad)),
        ("maximal", maximal(p, lp, e, par_bad)),
        ("split level within the band", And(lp.depth <= sp, Or(sp == lp.depth, sp < e))),
        ("split level is the last before a constant level", Or(sp >= e - 1, lp.ss.scalar(sp + 1)))]


def split_l(L):
    p, lp = loops_in(L)
    d = L.v("d")
    return [("d", And(lp.depth <= d, Or(d == lp.depth, d < L.v("depth"))))]


contract("pluto_get_parallel_band", props=("C11",), nloops=4,
         requires=lambda c: bandreq(c) + outp(c, "innermost_split_level") + [("starts with a loop", Not(Loop(c.pre, c["loop"]).ss.scalar(Loop(c.pre, c["loop"]).depth))),
                                                                         ("out-parameter is separate", forall([x_], Implies(And(0 <= x_, x_ < P(c).nd), P(c).d("satvec", x_) != blk(c["innermost_split_level"])), [P(c).dep(x_)]))],
         modifies=outmod("innermost_split_level"), ensures=parb_ens,
         loops={0: band_l0(par_bad), 1: band_l1(par_bad), 2: band_l2(par_bad), 3: split_l})


# ------------------------------------------------------------------ lists of loops and bands
def cat_req(elem, dst):
    def f(c):
        v = c.pre
        d, s = dst(c), c["src"]
        return [("counts", And(0 <= c["num1"], c["num1"] <= MAXS, 0 <= c["num2"], c["num2"] <= MAXS)),
                ("destination", And(d.off == 0, Or(And(d.blk == 0, c["num1"] == 0), And(live(v, d.blk), LEN(d.blk) >= 8 * c["num1"])))),
                ("source", Or(c["num2"] == 0, And(live(v, s.blk), s.off >= 0, LEN(s.blk) >= 8 * (s.off + c["num2"]), s.blk != d.blk)))]
    return f


def cat_ens(elem, dst, ret):
    def f(c):
        r, d, s = ret(c), dst(c), c["src"]
        n1, n2 = c["num1"], c["num2"]
        a = lambda view, b, x: view.pcell(elem, b, x)
        return [("room", Or(n1 + n2 == 0, And(live(c.post, r), LEN(r) >= 8 * (n1 + n2)))),
                ("first part kept", forall([x_], Implies(And(0 <= x_, x_ < n1), a(c.post, r, x_) == a(c.pre, d.blk, x_)), [a(c.post, r, x_)])),
                ("then the others", forall([x_], Implies(And(0 <= x_, x_ < n2), a(c.post, r, n1 + x_) == a(c.pre, s.blk, s.off + x_)), [a(c.pre, s.blk, s.off + x_)])),
                ("then the others, by position", forall([x_], Implies(And(n1 <= x_, x_ < n1 + n2), a(c.post, r, x_) == a(c.pre, s.blk, s.off + x_ - n1)), [a(c.post, r, x_)])),
                ("source kept", forall([x_], Implies(And(0 <= x_, x_ < n2), a(c.post, s.blk, s.off + x_) == a(c.pre, s.blk, s.off + x_)), [a(c.post, s.blk, s.off + x_)]))]
    return f


contract("pluto_loops_cat", props=("C11",), nloops=0, requires=cat_req("pLoop", lambda c: c["dest"]),
         frees=lambda c: (lambda b: And(b == c["dest"].blk, b != 0)),
         modifies=lambda c: {"g.own": (lambda b: And(c["dest"].blk != 0, c.pre.own(b) == c["dest"].blk))},
         ensures=cat_ens("pLoop", lambda c: c["dest"], lambda c: blk(c.ret)))

contract("pluto_is_band_innermost", props=("C11",), nloops=2,
         requires=lambda c: (lambda b: b.wf(None, True) + [("@size sizes", And(c["num_tiling_levels"] >= 0, c["num_tiling_levels"] <= 8, c["num_levels_introduced"] >= 0, c["num_levels_introduced"] <= MAXS))])(Bnd(c.pre, c["band"])),
         ensures=lambda c: (lambda b: (lambda f, s: [("exactly when no statement has a loop inside", bl(c.ret) == forall([k_, x_, y_], Implies(And(0 <= x_, x_ < b.lp.n, f <= k_, k_ < s.tr.nr, 0 <= y_, y_ < s.dim), s.row(k_, y_) == 0), [s.row(k_, y_)]))])(
             first_in(c, b), b.lp.ss.s(x_)))(Bnd(c.pre, c["band"])),
         loops={0: lambda L: inner_l(L, None), 1: lambda L: inner_l(L, L.i)})


def first_in(c, b):
    return b.lp.depth + (c["num_tiling_levels"] + 1) * b.width + c["num_levels_introduced"]


def inner_l(L, j):
    b = Bnd(L.pre, L["band"])
    s = b.lp.ss.s(x_)
    f = first_in(L, b)
    i = L.i if j is None else L.up()
    done = x_ < i if j is None else Or(x_ < i, And(x_ == i, k_ < j))
    return [("no loop so far", forall([k_, x_, y_], Implies(And(0 <= x_, done, f <= k_, k_ < s.tr.nr, 0 <= y_, y_ < s.dim), s.row(k_, y_) == 0), [s.row(k_, y_)])), ("i", i <= b.lp.n)] + ([("j", j >= f)] if j is not None else [])
