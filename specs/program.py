"""Contracts for the program bookkeeping of lib/program.cpp (C07) and the distribution functions of lib/pluto.c (C12)."""
from base import *
from matrix import Mat, growmods, shiftrow
from cons import Cst
from ddg import Prog, Gr, RAR, CNT, x_, y_
from stmts import *
from deps import *

NO_UNROLL, UNKNOWN_DP = 0, 0
HT = "f.statement.hyp_types"


def ht(s, l):
    return s.v.i32(s.f("hyp_types"), l)


def ht_wf(s, n=None):
    """Table of row kinds: one entry per schedule row, owned by the statement (or none when there is no row)."""
    v, b = s.v, s.f("hyp_types")
    n = s.tr.nr if n is None else n
    return ("row kinds", Or(And(b == 0, n == 0), And(live(v, b), LEN(b) >= 4 * n, KINDF(b) == K(HT), v.own(b) == s.b)))


def mat_of(c, name="stmt"):
    return Stm(c.pre, c[name]).tr


def grow_m(m):
    ob = lambda b: Or(b == m.val, m.v.own(b) == m.val)
    return {"f.pluto_matrix.val": [m.m], "f.pluto_matrix.nrows": [m.m], "f.pluto_matrix.ncols": [m.m], "f.pluto_matrix.alloc_nrows": [m.m],
            "f.pluto_matrix.alloc_ncols": [m.m], "c.p.i64.b": [m.val], "c.p.i64.o": [m.val], "c.i64": m.rows(), "g.own": ob, "g.idx": ob}


def add_hyp_ens(c):
    s0, s1 = Stm(c.pre, c["stmt"]), Stm(c.post, c["stmt"])
    pos = c["pos"]
    sh = lambda f: s1.f(f) == If(s0.f(f) >= pos, s0.f(f) + 1, s0.f(f))
    a, b = s0.tr, s1.tr
    ox = z3.Int("ox")
    return [("schedule: " + l, f) for l, f in b.wf()] + [("same schedule block", s1.tr.m == s0.tr.m), ("one more level", And(b.nr == a.nr + 1, b.nc == a.nc)), b.is_(shiftrow(a, pos), "rows: zero at the position, others kept"), ht_wf(s1),
            ("kinds", forall([y_], Implies(And(0 <= y_, y_ <= a.nr), ht(s1, y_) == If(y_ < pos, ht(s0, y_), If(y_ == pos, c["type"], ht(s0, y_ - 1)))), [ht(s1, y_)])),
            ("tile levels move along", And(sh("first_tile_dim"), sh("last_tile_dim"))),
            ("fresh kinds", s1.f("hyp_types") >= c.pre.nb),
            ("ownership", And(Or(b.val == a.val, b.val >= c.pre.nb), forall([ox], Implies(And(ox < c.pre.nb, c.post.own(ox) == b.val), c.pre.own(ox) == a.val), [c.post.own(ox)])))]


def add_hyp_mods(c):
    s = Stm(c.pre, c["stmt"])
    m = grow_m(s.tr)
    hb = s.f("hyp_types")
    m.update({"f.statement.hyp_types": [s.b], "f.statement.first_tile_dim": [s.b], "f.statement.last_tile_dim": [s.b]})
    return m


def ah_inv(L):
    s0, s1, s2 = Stm(L.pre, L["stmt"]), Stm(L.st, L["stmt"]), None
    pos = L["pos"]
    a, b = s0.tr, s1.tr
    n = a.nr + 1
    return [("still", And(b.nr == n, s1.f("hyp_types") >= L.pre.nb, pos <= a.nr, 0 <= pos)), ("i", And(L.v("i") >= pos - 1, L.v("i") <= n - 2)), ht_wf(s1),
            ("moved", forall([y_], Implies(And(0 <= y_, y_ < n), And(Implies(y_ >= L.v("i") + 2, ht(s1, y_) == ht(s0, y_ - 1)), Implies(And(y_ <= L.v("i") + 1, y_ < a.nr), ht(s1, y_) == ht(s0, y_)))), [ht(s1, y_)]))]


contract("pluto_stmt_add_hyperplane", props=("C07", "C12"), nloops=1,
         requires=lambda c: (lambda s: s.wf() + [ht_wf(s), ("position", And(c["pos"] >= 0, c["pos"] <= s.tr.nr)), ("@size", s.tr.nr < 1 << 28)])(Stm(c.pre, c["stmt"])),
         modifies=add_hyp_mods, frees=lambda c: (lambda m, s: lambda b: Or(b == m.val, m.rows()(b), And(b != 0, b == s.f("hyp_types"))))(mat_of(c), Stm(c.pre, c["stmt"])),
         ensures=add_hyp_ens, loops={0: ah_inv})


# ------------------------------------------------------------------ levels of the program
HP = ["unroll", "prevec", "band_num", "dep_prop", "type"]


def hp(p):
    return p.v.f("plutoProg", "hProps", p.b, IV(0))


def hp_wf(p, n=None):
    b = hp(p)
    n = p.nh if n is None else n
    return ("level properties", Or(And(b == 0, n == 0), And(live(p.v, b), LEN(b) >= sizeof(p.v, "hyperplane_properties") * n, KINDF(b) == K("f.plutoProg.hProps"))))


def ph_inv(L):
    p0, p1 = Prog(L.pre, L["prog"]), Prog(L.st, L["prog"])
    i, pos = L.v("i"), L["pos"]
    moved = lambda f: forall([y_], Implies(And(0 <= y_, y_ <= p0.nh), And(Implies(y_ >= i + 2, hprop(p1, f, y_) == hprop(p0, f, y_ - 1)), Implies(And(y_ <= i + 1, y_ < p0.nh), hprop(p1, f, y_) == hprop(p0, f, y_)))), [hprop(p1, f, y_)])
    return [("still", And(p1.nh == p0.nh + 1, hp(p1) >= L.pre.nb)), ("i", And(i >= pos - 1, i <= p0.nh - 1)), hp_wf(p1)] + [("moved: " + f, moved(f)) for f in HP]


contract("pluto_prog_add_hyperplane", props=("C07", "C12"), nloops=1,
         requires=lambda c: (lambda p: [("program", And(live(p.v, p.b), LEN(p.b) >= sizeof(p.v, "plutoProg"), KINDF(p.b) == K("plutoProg"))), ("levels", And(p.nh >= 0, p.nh <= MAXS)), ("position", And(0 <= c["pos"], c["pos"] <= p.nh)), hp_wf(p)])(P(c)),
         modifies=lambda c: {"f.plutoProg.hProps": [P(c).b], "f.plutoProg.num_hyperplanes": [P(c).b]},
         frees=lambda c: (lambda b: And(b != 0, b == hp(P(c)))),
         ensures=lambda c: (lambda p0, p1: [("one more level", p1.nh == p0.nh + 1), hp_wf(p1), ("fresh table", hp(p1) >= c.pre.nb)] + [
             ("%s: new at the position, others kept" % f, forall([y_], Implies(And(0 <= y_, y_ < p1.nh), hprop(p1, f, y_) == If(y_ < c["pos"], hprop(p0, f, y_), If(y_ == c["pos"], v, hprop(p0, f, y_ - 1)))), [hprop(p1, f, y_)]))
             for f, v in (("unroll", IV(NO_UNROLL)), ("prevec", IV(0)), ("band_num", IV(-1)), ("dep_prop", IV(UNKNOWN_DP)), ("type", c["hyp_type"]))])(P(c), P(c, view=c.post)),
         loops={0: ph_inv})


# ------------------------------------------------------------------ edges between components
def scc(p, x):
    return p.s("scc_id", x)


def edge(g, p, a, b):
    return And(scc(p, x_) == a, scc(p, y_) == b, 0 <= x_, x_ < p.ns, 0 <= y_, y_ < p.ns, g.adj.at(x_, y_) > 0)


def dc_req(c):
    p, g = P(c), Gr(c.pre, c["g"])
    return p.wf(deps=False, stmts=True) + [("graph: " + l, f) for l, f in g.wf()] + [("one vertex per statement", g.n == p.ns)]


def dc_inv(k):
    def f(L):
        p, g = Prog(L.pre, L["prog"]), Gr(L.pre, L["g"])
        i = L.i if k == 0 else L.up()
        none = lambda cond: forall([x_, y_], Implies(cond, Not(edge(g, p, L["scc1"], L["scc2"]))), [g.adj.at(x_, y_)])
        out = [("none before", none(x_ < i)), ("i", i <= p.ns)]
        if k == 1:
            out += [("none in this row", none(And(x_ == i, y_ < L.i))), ("j", L.i <= p.ns), ("row", And(0 <= i, i < p.ns, scc(p, i) == L["scc1"]))]
        return out
    return f


contract("ddg_sccs_direct_connected", props=("C12",), nloops=2, requires=dc_req,
         ensures=lambda c: (lambda p, g: [("connected only with an edge", Implies(bl(c.ret), z3.Exists([x_, y_], edge(g, p, c["scc1"], c["scc2"]), patterns=[g.adj.at(x_, y_)]))),
                                          ("an edge connects", forall([x_, y_], Implies(edge(g, p, c["scc1"], c["scc2"]), bl(c.ret)), [g.adj.at(x_, y_)]))])(P(c), Gr(c.pre, c["g"])),
         loops={k: dc_inv(k) for k in range(2)})


# ------------------------------------------------------------------ distribution: one more constant level
OTHER = ("f.pluto_matrix.val", "i64", HT, "f.plutoProg.hProps", "f.dependence.satvec", "f.dependence.dirvec")


def kinds_ok(p):
    """Blocks of the program itself are none of those that scheduling reallocates."""
    no = lambda b: And(*[KINDF(b) != K(k) for k in OTHER])
    return [("kinds of blocks", And(KINDF(p.b) == K("plutoProg"), no(p.deps), no(p.stmts), forall([x_], Implies(And(0 <= x_, x_ < p.nd), no(p.dep(x_))), [p.dep(x_)])))]


def sched_wf(p, nr, nc=None):
    """All statements: schedules with nr(x) rows over the same columns, kinds of rows; trans blocks distinct."""
    s = prog_stmts(p).s(x_)
    g = And(0 <= x_, x_ < p.ns)
    fs = [f for l, f in s.wf()] + [ht_wf(s)[1], s.tr.nr == nr(x_)] + ([s.tr.nc == p.nvar + p.npar + 1, s.dim <= p.nvar] if nc is None else [s.tr.nc == nc(x_)])
    return [("statement table", And(p.ns >= 0, p.ns <= MAXS, Or(p.ns == 0, And(live(p.v, p.stmts), LEN(p.stmts) >= 8 * p.ns))))] + \
        [("every statement (%d)" % k, f) for k, f in enumerate(lift(x_, g, fs, p.stmt(x_)))]


def stmts_apart(p):
    tr = lambda x: prog_stmts(p).s(x).f("trans")
    return [("statements and schedules are distinct", forall([x_, y_], Implies(And(0 <= x_, x_ < y_, y_ < p.ns), And(p.stmt(x_) != p.stmt(y_), tr(x_) != tr(y_))), [[p.stmt(x_), p.stmt(y_)]]))]


def rows_kept(p0, p1, nh):
    a, b = prog_stmts(p0).s(x_), prog_stmts(p1).s(x_)
    l, j = z3.Ints("rl rj")
    return [("earlier rows kept", forall([x_, l, j], Implies(And(0 <= x_, x_ < p0.ns, 0 <= l, l < nh, 0 <= j, j < p0.nvar + p0.npar + 1), b.row(l, j) == a.row(l, j)), [b.row(l, j)])),
            ("earlier kinds kept", forall([x_, l], Implies(And(0 <= x_, x_ < p0.ns, 0 <= l, l < nh), ht(b, l) == ht(a, l)), [ht(b, l)]))]


def const_row(p0, p1, upto, l, val):
    """Row l of the first upto statements is the constant val(x)."""
    b = prog_stmts(p1).s(x_)
    j = z3.Int("rj")
    last = p0.nvar + p0.npar
    return [("constant level", forall([x_, j], Implies(And(0 <= x_, x_ < upto, 0 <= j, j <= last), b.row(l, j) == If(j == last, val(x_), 0)), [b.row(l, j)])),
            ("kind of the level", forall([x_], Implies(And(0 <= x_, x_ < upto), ht(b, l) == 3), [p0.stmt(x_)]))]


def cut_req(c):
    p, g = P(c), Gr(c.pre, c["ddg"])
    return all_deps_wf(p, p.nh) + sched_wf(p, lambda x: p.nh) + stmts_apart(p) + kinds_ok(p) + [hp_wf(p), ("levels", And(p.nh >= 0, p.nh <= MAXS, p.nvar >= 0, p.nvar <= MAXS, p.ns >= 1))] + \
        [("graph: " + l, f) for l, f in g.wf()] + [("one vertex per statement", g.n == p.ns),
        ("graph and schedules apart", forall([x_], Implies(And(0 <= x_, x_ < p.ns), prog_stmts(p).s(x_).f("trans") != g.adj.m), [p.stmt(x_)]))]


def cut_mods(c):
    p = P(c)
    any_ = any_b
    kind = lambda k: (lambda b: KINDF(b) == K(k))
    own_ = lambda b: Or(KINDF(b) == K("f.pluto_matrix.val"), KINDF(c.pre.own(b)) == K("f.pluto_matrix.val"))
    m = {"f.pluto_matrix." + f: any_ for f in ("val", "nrows", "ncols", "alloc_nrows", "alloc_ncols")}
    m.update({"c.p.i64.b": kind("f.pluto_matrix.val"), "c.p.i64.o": kind("f.pluto_matrix.val"), "c.i64": kind("i64"), "g.own": own_, "g.idx": own_,
              "f.statement.hyp_types": any_, "f.statement.first_tile_dim": any_, "f.statement.last_tile_dim": any_,
              "f.plutoProg.hProps": [p.b], "f.plutoProg.num_hyperplanes": [p.b], "f.dependence.satisfied": any_, "f.dependence.satisfaction_level": any_})
    return m


def cut_frees(c):
    return lambda b: Or(*[KINDF(b) == K(k) for k in ("f.pluto_matrix.val", "i64", HT, "f.plutoProg.hProps")])


def cut_inv(k, val):
    def f(L):
        p0, p1 = Prog(L.pre, L["prog"]), Prog(L.st, L["prog"])
        i = L.i if k == 0 else L.up()
        nh = p0.nh
        done = i if k == 0 else i + 1
        g = Gr(L.st, L["ddg"])
        out = sched_wf(p1, lambda x: If(x < done, nh + 1, nh)) + rows_kept(p0, p1, nh) + const_row(p0, p1, i, nh, lambda x: val(L, p0, x)) + [("i", i <= p0.ns)]
        out += [("graph: " + l, f) for l, f in g.wf()]
        if k == 1:
            b = prog_stmts(p1).s(i)
            out += [("this row", forall([y_], Implies(And(0 <= y_, y_ < L.i), b.row(nh, y_) == 0), [b.row(nh, y_)])), ("this kind", ht(b, nh) == 3), ("j", L.i <= p0.nvar + p0.npar), ("statement", And(0 <= i, i < p0.ns))]
        return out
    return f


def recorded(p0, p1, l, g1):
    """Satisfaction records and graph after adding level l."""
    old, new = p0.d("satisfied", x_) != 0, p1.d("satisfied", x_) != 0
    g = And(0 <= x_, x_ < p0.nd)
    return [("satisfied ones stay", forall([x_], Implies(And(g, old), And(new, p1.d("satisfaction_level", x_) == p0.d("satisfaction_level", x_))), [p0.dep(x_)])),
            ("newly satisfied at this level", forall([x_], Implies(And(g, Not(old), new), p1.d("satisfaction_level", x_) == l), [p0.dep(x_)])),
            ("newly satisfied exactly when the level orders every instance", upd_any(p0, p1, p0.nd, l, p1.v)),
            g1.edges(lambda i, j: CNT(p1, i, j, p1.nd), "edge counts of what is left")]


def any_new(p0, p1):
    return z3.Exists([x_], And(0 <= x_, x_ < p0.nd, new_real(p0, p1, x_)), patterns=[p0.dep(x_)])


def kept_level(c, p0, p1, val):
    return [("one more level", p1.nh == p0.nh + 1)] + sched_wf(p1, lambda x: p0.nh + 1) + rows_kept(p0, p1, p0.nh) + const_row(p0, p1, p0.ns, p0.nh, val) + recorded(p0, p1, p0.nh, Gr(c.post, c["ddg"])) + \
        [("kind of the level in the program", hprop(p1, "type", p0.nh) == 3)]


def undone_level(c, p0, p1):
    """Schedules as before; dependences other than read-read ones as before."""
    return [("no new level", p1.nh == p0.nh)] + sched_wf(p1, lambda x: p0.nh) + rows_kept(p0, p1, p0.nh) + \
        [("nothing satisfied", forall([x_], Implies(And(0 <= x_, x_ < p0.nd, real(p0, x_)), p1.d("satisfied", x_) == p0.d("satisfied", x_)), [p0.dep(x_)]))]


contract("pluto_transformation_print_level", assumed=True, props=(), note="debug output only")
contract("cut_all_sccs", props=("C12", "C13"), nloops=2, requires=cut_req, modifies=cut_mods, frees=cut_frees,
         ensures=lambda c: (lambda p0, p1, many: [(l, Implies(many, f)) for l, f in kept_level(c, p0, p1, lambda x: scc(p0, x))] +
                            [("nothing to do for one component", Implies(Not(many), And(p1.nh == p0.nh, c.ret == 0)))])(P(c), P(c, view=c.post), Gr(c.pre, c["ddg"]).nscc != 1),
         loops={k: cut_inv(k, lambda L, p0, x: scc(p0, x)) for k in range(2)})


def cb_val(c, p0, x):
    return If(scc(p0, x) < c["scc2"], 0, 1)


def cb_inv2(L):
    """Undoing the level."""
    p0, p1 = Prog(L.pre, L["prog"]), Prog(L.st, L["prog"])
    return sched_wf(p1, lambda x: If(x < L.i, p0.nh, p0.nh + 1)) + rows_kept(p0, p1, p0.nh) + [("i", L.i <= p0.ns)]


contract("cut_between_sccs", props=("C12", "C13"), nloops=3, requires=cut_req, modifies=cut_mods, frees=cut_frees,
         ensures=lambda c: (lambda p0, p1: [(l, Implies(c.ret != 0, f)) for l, f in kept_level(c, p0, p1, lambda x: cb_val(c, p0, x)) + [("kept only when it satisfies something", any_new(p0, p1))]] +
                            [(l, Implies(c.ret == 0, f)) for l, f in undone_level(c, p0, p1)])(P(c), P(c, view=c.post)),
         loops={0: cut_inv(0, cb_val), 1: cut_inv(1, cb_val), 2: cb_inv2})


_cut = {}


def CUTC(g, k):
    """Number of changes of dimensionality among components 0..k in g's state."""
    hs = [g.v.key(n) for n in ("f.graph.sccs", "f.scc.max_dim")]
    if "f" not in _cut:
        _cut["f"] = z3.Function("CUTC", *([h.sort() for h in hs] + [I] * 3))
    return _cut["f"](*(hs + [g.g, k]))


def cutc_def(c):
    g = Gr(c.pre, c["ddg"])
    return [CUTC(g, IV(0)) == 0]


def cd_inv(k):
    def f(L):
        p0, p1, g0, g1 = Prog(L.pre, L["prog"]), Prog(L.st, L["prog"]), Gr(L.pre, L["ddg"]), Gr(L.st, L["ddg"])
        if k == 3:
            return cb_inv2(L)
        kk = L.i if k == 0 else L.up(k)
        i = {0: None, 1: L.i if k == 1 else None, 2: L.up() if k == 2 else None}[k]
        nh = p0.nh
        done = lambda x: scc(p0, x) < kk if k == 0 else Or(scc(p0, x) < kk, And(scc(p0, x) == kk, x < (i if k == 1 else i + 1)))
        full = lambda x: scc(p0, x) < kk if k == 0 else Or(scc(p0, x) < kk, And(scc(p0, x) == kk, x < i))
        b = prog_stmts(p1).s(x_)
        j = z3.Int("rj")
        last = p0.nvar + p0.npar
        cur = kk - 1 if k == 0 else kk
        out = sched_wf(p1, lambda x: If(done(x), nh + 1, nh)) + rows_kept(p0, p1, nh) + [
            ("constant level", forall([x_, j], Implies(And(0 <= x_, x_ < p0.ns, full(x_), 0 <= j, j <= last), b.row(nh, j) == If(j == last, CUTC(g0, scc(p0, x_)), 0)), [b.row(nh, j)])),
            ("kind of the level", forall([x_], Implies(And(0 <= x_, x_ < p0.ns, done(x_)), ht(b, nh) == 3), [p0.stmt(x_)])),
            ("k", kk <= g0.nscc), ("group", And(Implies(cur >= 0, And(L.v("count") == CUTC(g0, cur), L.v("cur_max_dim") == g0.sc("max_dim", cur))), Implies(cur < 0, And(L.v("count") == 0, L.v("cur_max_dim") == g0.sc("max_dim", IV(0))))))]
        out += [("graph: " + l, f) for l, f in g1.wf()] + [("count", And(L.v("count") >= 0, L.v("count") <= (If(kk > 0, kk - 1, 0) if k == 0 else kk)))]
        if k == 0:
            out += [("@def", Implies(kk >= 1, CUTC(g0, kk) == CUTC(g0, kk - 1) + If(g0.sc("max_dim", kk) != g0.sc("max_dim", kk - 1), 1, 0)))]
        if k >= 1:
            out += [("i", And(kk < g0.nscc, i <= p0.ns))]
        if k == 2:
            bb = prog_stmts(p1).s(i)
            out += [("this row", forall([y_], Implies(And(0 <= y_, y_ <= last), bb.row(nh, y_) == 0), [bb.row(nh, y_)])), ("j", L.i <= p0.nvar), ("statement", And(0 <= i, i < p0.ns, scc(p0, i) == kk))]
        return out
    return f


contract("cut_scc_dim_based", props=("C12",), nloops=4, setup=cutc_def,
         requires=lambda c: cut_req(c) + (lambda p, g: [("components", And(g.nscc >= 1, g.nscc <= g.n, forall([x_], Implies(And(0 <= x_, x_ < p.ns), And(0 <= scc(p, x_), scc(p, x_) < g.nscc)), [p.stmt(x_)])))])(P(c), Gr(c.pre, c["ddg"])),
         modifies=cut_mods, frees=cut_frees,
         ensures=lambda c: (lambda p0, p1: [(l, Implies(c.ret != 0, f)) for l, f in kept_level(c, p0, p1, lambda x: CUTC(Gr(c.pre, c["ddg"]), scc(p0, x))) + [("kept only when it satisfies something", any_new(p0, p1))]] +
                            [(l, Implies(c.ret == 0, f)) for l, f in undone_level(c, p0, p1)])(P(c), P(c, view=c.post)),
         loops={k: cd_inv(k) for k in range(4)})


# ------------------------------------------------------------------ interchanging schedule levels
def swp(l, a, b):
    return If(l == a, b, If(l == b, a, l))


def il_inv(L):
    a, b = Stm(L.pre, L["stmt"]), Stm(L.st, L["stmt"])
    i, j = z3.Ints("i j")
    return [("swapped so far", forall([i, j], Implies(And(0 <= i, i < a.tr.nr, 0 <= j, j < a.tr.nc), b.row(i, j) == If(j < L.i, a.row(swp(i, L["level1"], L["level2"]), j), a.row(i, j))), [b.row(i, j)])), ("j", L.i <= a.tr.nc)]


def two_levels(c, n):
    return ("levels", And(0 <= c["level1"], c["level1"] < n, 0 <= c["level2"], c["level2"] < n))


def stmt_swapped(a, b, l1, l2):
    i, j = z3.Ints("i j")
    return [("rows interchanged", forall([i, j], Implies(And(0 <= i, i < a.tr.nr, 0 <= j, j < a.tr.nc), b.row(i, j) == a.row(swp(i, l1, l2), j)), [b.row(i, j)])),
            ("kinds interchanged", forall([i], Implies(And(0 <= i, i < a.tr.nr), ht(b, i) == ht(a, swp(i, l1, l2))), [ht(b, i)]))]


contract("pluto_stmt_loop_interchange", props=("C07",), nloops=1,
         requires=lambda c: (lambda s: s.wf() + [ht_wf(s), two_levels(c, s.tr.nr)])(Stm(c.pre, c["stmt"])),
         modifies=lambda c: (lambda s: {"c.i64": s.tr.rows(), "c.i32": [s.f("hyp_types")]})(Stm(c.pre, c["stmt"])),
         ensures=lambda c: stmt_swapped(Stm(c.pre, c["stmt"]), Stm(c.post, c["stmt"]), c["level1"], c["level2"]),
         loops={0: il_inv})


def all_swapped(p0, p1, n, l1, l2):
    a, b = prog_stmts(p0).s(x_), prog_stmts(p1).s(x_)
    i, j = z3.Ints("i j")
    g = And(0 <= x_, x_ < p0.ns, 0 <= i, i < a.tr.nr)
    s = If(x_ < n, swp(i, l1, l2), i)
    return [("rows", forall([x_, i, j], Implies(And(g, 0 <= j, j < a.tr.nc), b.row(i, j) == a.row(s, j)), [b.row(i, j)])),
            ("kinds", forall([x_, i], Implies(g, ht(b, i) == ht(a, s)), [ht(b, i)]))]


contract("pluto_interchange", props=("C07",), nloops=1,
         requires=lambda c: (lambda p: [("program", And(live(p.v, p.b), LEN(p.b) >= sizeof(p.v, "plutoProg"), KINDF(p.b) == K("plutoProg"), p.nvar >= 0, p.npar >= 0, p.nvar <= MAXS, p.npar <= MAXS))] + sched_wf(p, lambda x: p.nh) + stmts_apart(p) + [hp_wf(p), two_levels(c, p.nh)])(P(c)),
         modifies=lambda c: dict({"c.i64": lambda b: KINDF(b) == K("i64"), "c.i32": lambda b: KINDF(b) == K(HT)}, **{"f.hyperplane_properties." + f: [hp(P(c))] for f in HP}),
         ensures=lambda c: (lambda p0, p1: all_swapped(p0, p1, p0.ns, c["level1"], c["level2"]) + [
             ("%s of levels" % f, forall([y_], Implies(And(0 <= y_, y_ < p0.nh), hprop(p1, f, y_) == hprop(p0, f, swp(y_, c["level1"], c["level2"]))), [hprop(p1, f, y_)])) for f in HP])(P(c), P(c, view=c.post)),
         loops={0: lambda L: all_swapped(Prog(L.pre, L["prog"]), Prog(L.st, L["prog"]), L.i, L["level1"], L["level2"]) + [("k", L.i <= Prog(L.pre, L["prog"]).ns)]})

# ------------------------------------------------------------------ dependences
contract("pluto_add_dep", props=("C07",), nloops=0,
         requires=lambda c: (lambda p: p.wf()[:2] + [("dependence table", Or(And(p.deps == 0, p.nd == 0), And(live(p.v, p.deps), LEN(p.deps) >= 8 * p.nd))), ("program kind", KINDF(p.b) == K("plutoProg")), ("dependence", And(live(p.v, c["dep"].blk), LEN(c["dep"].blk) >= sizeof(p.v, "dependence"), c["dep"].blk != p.deps)),
                                                 ("table apart", And(p.deps != p.b)), ("@size", p.nd < 1 << 28)])(P(c)),
         modifies=lambda c: {"f.plutoProg.deps": [P(c).b], "f.plutoProg.ndeps": [P(c).b], "f.dependence.id": [c["dep"].blk], "g.own": lambda b: And(P(c).deps != 0, c.pre.own(b) == P(c).deps)},
         frees=lambda c: (lambda b: And(b != 0, b == P(c).deps)),
         ensures=lambda c: (lambda p0, p1: [("one more, last, numbered by its position", And(p1.nd == p0.nd + 1, p1.dep(p0.nd) == c["dep"].blk, p1.v.f("dependence", "id", c["dep"].blk, IV(0)) == p0.nd)),
                                            ("table", And(live(p1.v, p1.deps), LEN(p1.deps) >= 8 * p1.nd)),
                                            ("others kept", forall([x_], Implies(And(0 <= x_, x_ < p0.nd), p1.dep(x_) == p0.dep(x_)), [p1.dep(x_)]))])(P(c), P(c, view=c.post)))


def dec(v, id_):
    return If(v == id_, v - 1, v)


contract("decrement_stmt_id", props=("C07",), nloops=1,
         requires=lambda c: P(c).wf(stmts=True) + [("statement", And(0 <= c["id"], c["id"] < P(c).ns)), ("dependences are distinct", forall([x_, y_], Implies(And(0 <= x_, x_ < y_, y_ < P(c).nd), P(c).dep(x_) != P(c).dep(y_)), [[P(c).dep(x_), P(c).dep(y_)]])),
                                                   ("@size", forall([x_], P(c).s("id", x_) > -(1 << 30), [P(c).stmt(x_)]))],
         modifies=lambda c: {"f.statement.id": [P(c).stmt(c["id"])], "f.dependence.src": any_b, "f.dependence.dest": any_b},
         ensures=lambda c: (lambda p0, p1: [("the statement's number", p1.s("id", c["id"]) == p0.s("id", c["id"]) - 1),
                                            ("its dependences follow, others are kept", forall([x_], Implies(And(0 <= x_, x_ < p0.nd), And(*[p1.d(e, x_) == dec(p0.d(e, x_), c["id"]) for e in ("src", "dest")])), [p0.dep(x_)]))])(P(c), P(c, view=c.post)),
         loops={0: lambda L: (lambda p0, p1: [("so far", forall([x_], Implies(And(0 <= x_, x_ < p0.nd), And(*[p1.d(e, x_) == If(x_ < L.i, dec(p0.d(e, x_), L["id"]), p0.d(e, x_)) for e in ("src", "dest")])), [p0.dep(x_)])), ("i", L.i <= p0.nd)])(
             Prog(L.pre, L["prog"]), Prog(L.st, L["prog"]))})

contract("pluto_dep_alloc", props=("C07",), nloops=0,
         ensures=lambda c: (lambda b, f: [("fresh", And(b >= c.pre.nb, live(c.post, b), LEN(b) >= sizeof(c.post, "dependence"))), ("unsatisfied and empty", And(f("id") == -1, f("satisfied") == 0, f("satisfaction_level") == -1, *[f(n) == 0 for n in (
             "satvec", "dpolytope", "bounding_poly", "depsat_poly", "dirvec", "src_acc", "dest_acc", "cst", "bounding_cst", "src_unique_dpolytope")]))])(
             c.ret.blk, lambda n: c.post.f("dependence", n, c.ret.blk, IV(0))))


# ------------------------------------------------------------------ separating statements
def sep_level(p0, p1, n, level):
    """Statements before n have a zero row of constant kind inserted at the level."""
    a, b = prog_stmts(p0).s(x_), prog_stmts(p1).s(x_)
    l, j = z3.Ints("rl rj")
    g = And(0 <= x_, x_ < p0.ns, 0 <= l)
    nc = p0.nvar + p0.npar + 1
    new = lambda f, z: If(l < level, f(l), If(l == level, z, f(l - 1)))
    return [("rows", forall([x_, l, j], Implies(And(g, 0 <= j, j < nc), And(Implies(And(x_ < n, l <= p0.nh), b.row(l, j) == new(lambda k: a.row(k, j), IV(0))), Implies(And(x_ >= n, l < p0.nh), b.row(l, j) == a.row(l, j)))), [b.row(l, j)])),
            ("kinds", forall([x_, l], Implies(g, And(Implies(And(x_ < n, l <= p0.nh), ht(b, l) == new(lambda k: ht(a, k), IV(3))), Implies(And(x_ >= n, l < p0.nh), ht(b, l) == ht(a, l)))), [ht(b, l)]))]


def sep_req(c):
    p = P(c)
    return [("program", And(live(p.v, p.b), LEN(p.b) >= sizeof(p.v, "plutoProg"), KINDF(p.b) == K("plutoProg"), p.nvar >= 0, p.npar >= 0, p.nvar <= MAXS, p.npar <= MAXS, p.nh <= MAXS, *[KINDF(p.stmts) != K(k) for k in OTHER]))] + \
        sched_wf(p, lambda x: p.nh) + stmts_apart(p) + [hp_wf(p), ("level", And(0 <= c["level"], c["level"] <= p.nh))]


def sep_mods(c):
    m = cut_mods(c)
    for k in ("f.dependence.satisfied", "f.dependence.satisfaction_level"):
        del m[k]
    return m


def sep_inv(L):
    p0, p1 = Prog(L.pre, L["prog"]), Prog(L.st, L["prog"])
    return sched_wf(p1, lambda x: If(x < L.i, p0.nh + 1, p0.nh)) + sep_level(p0, p1, L.i, L["level"]) + [("i", L.i <= p0.ns), hp_wf(p1)]


def sep_post(c, val):
    p0, p1 = P(c), P(c, view=c.post)
    a, b = prog_stmts(p0).s(x_), prog_stmts(p1).s(x_)
    l, j = z3.Ints("rl rj")
    nc = p0.nvar + p0.npar + 1
    lv = c["level"]
    new = lambda f, z: If(l < lv, f(l), If(l == lv, z, f(l - 1)))
    g = And(0 <= x_, x_ < p0.ns, 0 <= l, l <= p0.nh)
    return [("one more level", p1.nh == p0.nh + 1)] + sched_wf(p1, lambda x: p0.nh + 1) + [
        ("rows", forall([x_, l, j], Implies(And(g, 0 <= j, j < nc), b.row(l, j) == new(lambda k: a.row(k, j), If(j == nc - 1, val(x_), 0))), [b.row(l, j)])),
        ("kinds", forall([x_, l], Implies(g, ht(b, l) == new(lambda k: ht(a, k), IV(3))), [ht(b, l)]))] + sep_levels(c, p0, p1)


def sep_levels(c, p0, p1):
    lv = c["level"]
    return [
        ("%s of levels" % f, forall([y_], Implies(And(0 <= y_, y_ < p1.nh), hprop(p1, f, y_) == If(y_ < lv, hprop(p0, f, y_), If(y_ == lv, v, hprop(p0, f, y_ - 1)))), [hprop(p1, f, y_)]))
        for f, v in (("unroll", IV(NO_UNROLL)), ("prevec", IV(0)), ("band_num", IV(-1)), ("dep_prop", IV(3)), ("type", IV(3)))]


contract("pluto_separate_stmt", props=("C07", "C12"), nloops=1,
         requires=lambda c: sep_req(c) + [("the statement is in the program", And(0 <= c["stmt"].blk, z3.Exists([x_], And(0 <= x_, x_ < P(c).ns, P(c).stmt(x_) == c["stmt"].blk))))],
         modifies=sep_mods, frees=cut_frees,
         ensures=lambda c: sep_post(c, lambda x: If(P(c).stmt(x) == c["stmt"].blk, 1, 0)), loops={0: sep_inv})


def sl(c, k, v=None):
    return (v or c.pre).pcell(ST, c["stmts"].blk, k)


def sepn_row(c, p0, p1, upto):
    """Constant column of the inserted row: position of listed statements, zero for the others."""
    last = p0.nvar + p0.npar
    k = z3.Int("sk")
    b = prog_stmts(p1).s(x_)
    lb = Stm(p1.v, sl(c, k))
    return [("listed statements get their positions", forall([k], Implies(And(0 <= k, k < upto), lb.row(c["level"], last) == c["offset"] + 1 + k), [sl(c, k)])),
            ("others get zero", forall([x_], Implies(And(0 <= x_, x_ < p0.ns, forall([k], Implies(And(0 <= k, k < upto), sl(c, k) != p0.stmt(x_)), [sl(c, k)])), b.row(c["level"], last) == 0), [p0.stmt(x_)]))]


def sepn_all(c, p0, p1):
    """Everything except the constant column of the inserted row."""
    a, b = prog_stmts(p0).s(x_), prog_stmts(p1).s(x_)
    l, j = z3.Ints("rl rj")
    nc = p0.nvar + p0.npar + 1
    lv = c["level"]
    new = lambda f, z: If(l < lv, f(l), If(l == lv, z, f(l - 1)))
    g = And(0 <= x_, x_ < p0.ns, 0 <= l, l <= p0.nh)
    return sched_wf(p1, lambda x: p0.nh + 1) + [
        ("rows", forall([x_, l, j], Implies(And(g, 0 <= j, j < nc, Not(And(l == lv, j == nc - 1))), b.row(l, j) == new(lambda k: a.row(k, j), IV(0))), [b.row(l, j)])),
        ("kinds", forall([x_, l], Implies(g, ht(b, l) == new(lambda k: ht(a, k), IV(3))), [ht(b, l)]))]


def sepn_inv1(L):
    p0, p1 = Prog(L.pre, L["prog"]), Prog(L.st, L["prog"])
    return sepn_all(L, p0, p1) + sepn_row(L, p0, p1, L.i) + [("k", Or(L.i <= L["num"], L.i == 0)), hp_wf(p1)]


def sepn_req(c):
    p = P(c)
    k, m = z3.Ints("sk sm")
    lb = c["stmts"].blk
    return sep_req(c) + [("list", And(live(c.pre, lb), LEN(lb) >= 8 * c["num"], *[KINDF(lb) != K(k_) for k_ in OTHER])),
                         ("listed statements are in the program", forall([k], Implies(And(0 <= k, k < c["num"]), z3.Exists([x_], And(0 <= x_, x_ < p.ns, p.stmt(x_) == sl(c, k)), patterns=[p.stmt(x_)])), [sl(c, k)])),
                         ("listed once", forall([k, m], Implies(And(0 <= k, k < m, m < c["num"]), sl(c, k) != sl(c, m)), [[sl(c, k), sl(c, m)]])), ("number", And(c["num"] <= MAXS, c["offset"] >= -MAXS, c["offset"] <= MAXS))]


contract("pluto_separate_stmts", props=("C07", "C12"), nloops=2, requires=sepn_req, modifies=sep_mods, frees=cut_frees,
         ensures=lambda c: (lambda p0, p1: [("one more level", p1.nh == p0.nh + 1)] + sepn_all(c, p0, p1) + sepn_row(c, p0, p1, c["num"]) + sep_levels(c, p0, p1))(P(c), P(c, view=c.post)),
         loops={0: sep_inv, 1: sepn_inv1})


# ------------------------------------------------------------------ padding schedules
def pad_rows(p0, p1, upto=None):
    """Old rows and kinds kept, new ones zero and constant."""
    a, b = prog_stmts(p0).s(x_), prog_stmts(p1).s(x_)
    l, j = z3.Ints("rl rj")
    g = And(0 <= x_, x_ < p0.ns, 0 <= l, l < b.tr.nr)
    return [("rows", forall([x_, l, j], Implies(And(g, 0 <= j, j < a.tr.nc), b.row(l, j) == If(l < a.tr.nr, a.row(l, j), 0)), [b.row(l, j)])),
            ("kinds", forall([x_, l], Implies(g, ht(b, l) == If(l < a.tr.nr, ht(a, l), 3)), [ht(b, l)]))]


def nr0(p0, x):
    return prog_stmts(p0).s(x).tr.nr


def is_max(p0, m, n):
    return [("largest so far", forall([x_], Implies(And(0 <= x_, x_ < n), m >= nr0(p0, x_)), [p0.stmt(x_)])), ("reached", Or(m == 0, z3.Exists([x_], And(0 <= x_, x_ < n, m == nr0(p0, x_)), patterns=[p0.stmt(x_)]))), ("non-negative", m >= 0)]


def pad_inv(k):
    def f(L):
        p0, p1 = Prog(L.pre, L["prog"]), Prog(L.st, L["prog"])
        m = L.v("max_nrows")
        nc = lambda x: prog_stmts(p0).s(x).tr.nc
        if k == 0:
            return is_max(p0, m, L.i) + [("i", L.i <= p0.ns), ("small", m <= MAXS)]
        if k == 1:
            return is_max(p0, m, p0.ns) + sched_wf(p1, lambda x: If(x < L.i, m, nr0(p0, x)), nc) + pad_rows(p0, p1) + [("i", L.i <= p0.ns), hp_wf(p1), ("small", m <= MAXS)]
        if k == 2:
            i = L.up()
            return is_max(p0, m, p0.ns) + sched_wf(p1, lambda x: If(x < i, m, If(x == i, L.i, nr0(p0, x))), nc) + pad_rows(p0, p1) + [("i", And(0 <= i, i < p0.ns)), ("j", And(nr0(p0, i) <= L.i, L.i <= m)), hp_wf(p1), ("small", m <= MAXS)]
        return is_max(p0, m, p0.ns) + sched_wf(p1, lambda x: m, nc) + pad_rows(p0, p1) + [hp_wf(p1), ("levels", And(p1.nh == L.i, L.i >= p0.nh, Or(L.i <= m, L.i == p0.nh)))] + pad_levels(p0, p1) + [("small", m <= MAXS)]
    return f


def pad_levels(p0, p1):
    return [("%s of levels" % f, forall([y_], Implies(And(0 <= y_, y_ < p1.nh), hprop(p1, f, y_) == If(y_ < p0.nh, hprop(p0, f, y_), v)), [hprop(p1, f, y_)]))
            for f, v in (("unroll", IV(NO_UNROLL)), ("prevec", IV(0)), ("band_num", IV(-1)), ("dep_prop", IV(UNKNOWN_DP)), ("type", IV(3)))]


def pad_req(c):
    p = P(c)
    return [("program", And(live(p.v, p.b), LEN(p.b) >= sizeof(p.v, "plutoProg"), KINDF(p.b) == K("plutoProg"), p.npar >= 0, p.npar <= MAXS, p.nh >= 0, p.nh <= MAXS, *[KINDF(p.stmts) != K(k) for k in OTHER]))] + \
        sched_wf(p, lambda x: nr0(p, x), lambda x: prog_stmts(p).s(x).tr.nc) + stmts_apart(p) + [hp_wf(p), ("@size", forall([x_], Implies(And(0 <= x_, x_ < p.ns), nr0(p, x_) <= MAXS), [p.stmt(x_)]))]


contract("pluto_pad_stmt_transformations", props=("C07",), nloops=4, requires=pad_req, modifies=sep_mods, frees=cut_frees,
         ensures=lambda c: (lambda p0, p1: sched_wf(p1, lambda x: nr0(p1, x), lambda x: prog_stmts(p0).s(x).tr.nc) + pad_rows(p0, p1) + pad_levels(p0, p1) + [
             ("all schedules have the same depth", forall([x_, y_], Implies(And(0 <= x_, x_ < p0.ns, 0 <= y_, y_ < p0.ns), And(nr0(p1, x_) == nr0(p1, y_), nr0(p1, x_) >= nr0(p0, y_))), [[p0.stmt(x_), p0.stmt(y_)]])),
             ("which some schedule had", Or(p0.ns == 0, nr0(p1, IV(0)) == 0, z3.Exists([x_], And(0 <= x_, x_ < p0.ns, nr0(p1, x_) == nr0(p0, x_)), patterns=[p0.stmt(x_)]))),
             ("program levels", forall([x_], Implies(And(0 <= x_, x_ < p0.ns), p1.nh == If(nr0(p1, x_) > p0.nh, nr0(p1, x_), p0.nh)), [p0.stmt(x_)])), hp_wf(p1)])(P(c), P(c, view=c.post)),
         loops={k: pad_inv(k) for k in range(4)})
