"""Contracts for tiling (C08): lib/tile.c."""
from base import *
from matrix import Mat
from cons import Cst
from ddg import Prog, RAR, x_, y_
from stmts import *
from deps import *
from program import *
from ilp import opt, dom, MV

k_, j_, l_ = z3.Ints("tk tj tl")


# ------------------------------------------------------------------ diamond tiles
def ev(s):
    return Mat(s.v, s.f("evicted_hyp"))


def dt_req(c):
    p = P(c)
    a = prog_stmts(p)
    s = a.s(x_)
    e = ev(s)
    fl = s.dim - s.f("dim_orig")
    g = And(0 <= x_, x_ < p.ns)
    g2 = And(g, s.f("evicted_hyp") != 0)
    et = lambda x: a.s(x).f("evicted_hyp")
    tr = lambda x: a.s(x).f("trans")
    return [("program", And(live(p.v, p.b), LEN(p.b) >= sizeof(p.v, "plutoProg"), KINDF(p.b) == K("plutoProg")))] + a.wf() + stmts_apart(p) + [
        ("evicted rows", forall([x_], Implies(g2, And(*([f for l, f in e.wf()[:3]] + [e.nr >= 1, fl >= 0, s.f("evicted_hyp_pos") >= 0, s.f("num_tiled_loops") >= 0, s.f("num_tiled_loops") + s.f("evicted_hyp_pos") < s.tr.nr, fl + e.nc == s.tr.nc]))), [s.b])),
        ("evicted row storage", trans_rows_wf(p.v, e, x_, g2)),
        ("evicted rows are not schedules", forall([x_, y_], Implies(And(g, 0 <= y_, y_ < p.ns), And(et(x_) != tr(y_), Implies(x_ != y_, Or(et(x_) == 0, et(x_) != et(y_))))), [[p.stmt(x_), p.stmt(y_)]]))]


def swapped(p0, p1, lo, hi):
    """Statements lo..hi-1: the evicted row and the schedule row it belongs to have changed places."""
    a, b = prog_stmts(p0).s(x_), prog_stmts(p1).s(x_)
    fl = a.dim - a.f("dim_orig")
    pos = a.f("num_tiled_loops") + a.f("evicted_hyp_pos")
    g = And(lo <= x_, x_ < hi)
    new = If(And(a.f("evicted_hyp") != 0, l_ == pos, j_ >= fl), ev(a).at(IV(0), j_ - fl), a.row(l_, j_))
    return [("schedule rows", forall([x_, l_, j_], Implies(And(g, 0 <= l_, l_ < a.tr.nr, 0 <= j_, j_ < a.tr.nc), b.row(l_, j_) == new), [b.row(l_, j_)])),
            ("evicted rows", forall([x_, j_], Implies(And(g, a.f("evicted_hyp") != 0, 0 <= j_, j_ < ev(a).nc), ev(b).at(IV(0), j_) == a.row(pos, fl + j_)), [ev(b).at(IV(0), j_)]))]


def same_rows(p0, p1, lo, hi):
    a, b = prog_stmts(p0).s(x_), prog_stmts(p1).s(x_)
    g = And(lo <= x_, x_ < hi)
    return [("other schedules", forall([x_, l_, j_], Implies(And(g, 0 <= l_, l_ < a.tr.nr, 0 <= j_, j_ < a.tr.nc), b.row(l_, j_) == a.row(l_, j_)), [b.row(l_, j_)])),
            ("other evicted rows", forall([x_, j_], Implies(And(g, a.f("evicted_hyp") != 0, 0 <= j_, j_ < ev(a).nc), ev(b).at(IV(0), j_) == ev(a).at(IV(0), j_)), [ev(b).at(IV(0), j_)]))]


def dt_inv(k):
    def f(L):
        p0, p1 = Prog(L.pre, L["prog"]), Prog(L.st, L["prog"])
        i = L.i if k == 0 else L.up()
        any_ev = z3.Exists([x_], And(0 <= x_, x_ < i, prog_stmts(p0).s(x_).f("evicted_hyp") != 0), patterns=[p0.stmt(x_)])
        out = swapped(p0, p1, IV(0), i) + same_rows(p0, p1, i if k == 0 else i + 1, p0.ns) + [("i", And(0 <= i, i <= p0.ns)), ("something done", And(Or(L.v("retval") == 0, L.v("retval") == 1), (L.v("retval") == 1) == any_ev))]
        if k == 1:
            a, b = prog_stmts(p0).s(i), prog_stmts(p1).s(i)
            fl = a.dim - a.f("dim_orig")
            pos = a.f("num_tiled_loops") + a.f("evicted_hyp_pos")
            out += [("statement", And(i < p0.ns, a.f("evicted_hyp") != 0)), ("j", And(0 <= L.i, L.i <= ev(a).nc)),
                    ("this schedule", forall([l_, j_], Implies(And(0 <= l_, l_ < a.tr.nr, 0 <= j_, j_ < a.tr.nc), b.row(l_, j_) == If(And(l_ == pos, j_ >= fl, j_ < fl + L.i), ev(a).at(IV(0), j_ - fl), a.row(l_, j_))), [b.row(l_, j_)])),
                    ("this evicted row", forall([j_], Implies(And(0 <= j_, j_ < ev(a).nc), ev(b).at(IV(0), j_) == If(j_ < L.i, a.row(pos, fl + j_), ev(a).at(IV(0), j_))), [ev(b).at(IV(0), j_)]))]
        return out
    return f


contract("pluto_diamond_tile_reschedule", props=("C08",), nloops=2, requires=dt_req,
         modifies=lambda c: {"c.i64": lambda b: And(KINDF(b) == K("i64"), KINDF(c.pre.own(b)) == K(MV))},
         ensures=lambda c: (lambda p0, p1: swapped(p0, p1, IV(0), p0.ns) + [("reports whether something was done", (c.ret != 0) == z3.Exists([x_], And(0 <= x_, x_ < p0.ns, prog_stmts(p0).s(x_).f("evicted_hyp") != 0)))])(P(c), P(c, view=c.post)),
         loops={k: dt_inv(k) for k in range(2)})


# ------------------------------------------------------------------ wavefronts
_G = {}
WKEYS = ("c.i64", "c.p.i64.b", MV, "f.pluto_matrix.nrows", "f.pluto_matrix.ncols", "f.statement.trans", "f.statement.dim", "c.p.statement.b", "f.band.loop", "f.band.width", "f.pLoop.depth", "f.pLoop.nstmts", "f.pLoop.stmts",
         "c.i32", "c.p.dependence.b", "f.plutoProg.ndeps", "f.plutoProg.deps", "f.plutoProg.stmts", "f.statement.id", "f.dependence.type", "f.dependence.src", "f.dependence.dest", "f.dependence.satisfaction_level", "f.dependence.dirvec")


def gh(name, v, *args):
    """A ghost function of the state (the listed maps) and some integers."""
    hs = [v.key(n) for n in WKEYS]
    if name not in _G:
        _G[name] = z3.Function(name, *([h.sort() for h in hs] + [I] * (len(args) + 1)))
    return _G[name](*(hs + list(args)))


def all_loops(b, d):
    """Level d is a loop of every statement of the band."""
    s = b.lp.ss.s(x_)
    return forall([x_], Implies(And(0 <= x_, x_ < b.lp.n), Not(s.scalar(d))), [b.lp.ss.b(x_)])


MINUS, STAR = ord("-"), ord("*")


def backward(p, b, q, d):
    """Dependence q, between statements of the band and not satisfied outside of it, may go backwards at level d."""
    sl = p.d("satisfaction_level", q)
    return And(real(p, q), Not(And(0 <= sl, sl < b.lp.depth)), inloop(p, b.lp, q), Or(dirv(p, q, d) == MINUS, dirv(p, q, d) == STAR))


contract("is_loop_forward", props=("C08",), nloops=1,
         requires=lambda c: (lambda p, b: prog_wf(p) + b.wf(p.nh, True) + [("level", And(0 <= c["depth"], c["depth"] < p.nh))])(P(c), Bnd(c.pre, c["band"])),
         ensures=lambda c: (lambda p, b: [("no dependence goes backwards", bl(c.ret) == Not(anyd(p, lambda q: backward(p, b, q, c["depth"]))))])(P(c), Bnd(c.pre, c["band"])),
         loops={0: dep_scan(lambda L, p, d: backward(p, Bnd(L.pre, L["band"]), d, L["depth"]))})


def LOOPS(b, d):
    return gh("LOOPSALL", b.v, b.b, d)


def FWD(b, d):
    return gh("FWD", b.v, b.b, d)


def ALLL(b, d):
    return gh("ALLL", b.v, b.b, d)


def NL(b, d):
    """Number of levels inside the band's first one, before d, that are loops of all its statements in which no dependence goes backwards."""
    return gh("NLOOPS", b.v, b.b, d)


def LDG(b, k):
    """The k-th of them; the band's first level is number 0."""
    return gh("LDEPTH", b.v, b.b, k)


def WS(b, x, j, k):
    """Entry j of the sum of rows number 0..k of the band, for its x-th statement."""
    return gh("WSUM", b.v, b.b, x, j, k)


def lv_def(p, b, d):
    """Definition of the count and the numbering at level d (instances)."""
    f = b.lp.depth
    return [("@def", And(NL(b, f + 1) == 0, LDG(b, IV(0)) == f, Implies(d > f, And((ALLL(b, d) == 1) == And(LOOPS(b, d) == 1, FWD(b, d) == 1), (LOOPS(b, d) == 1) == all_loops(b, d), (FWD(b, d) == 1) == Not(anyd(p, lambda q: backward(p, b, q, d))), NL(b, d) >= 0, NL(b, d + 1) == NL(b, d) + If(ALLL(b, d) == 1, 1, 0), Implies(ALLL(b, d) == 1, LDG(b, NL(b, d) + 1) == d)))))]


def ws_def(b, k):
    w = lambda k: WS(b, x_, j_, k)
    return [("@def", And(forall([x_, j_], w(IV(0)) == b.lp.ss.s(x_).row(b.lp.depth, j_), [w(IV(0))]), forall([x_, j_], w(k) == w(k - 1) + b.lp.ss.s(x_).row(LDG(b, k), j_), [w(k)])))]


def nip(p, b):
    """Number of levels added to the first one."""
    return If(opt(p, "multipar") != 0, NL(b, b.lp.depth + b.width), IV(1))


def par(p, lp):
    return And(lp.orig(), Or(hprop(p, "dep_prop", lp.depth) == 1, Not(anyd(p, lambda d: carried(p, lp, d)))))


def in_rows(b):
    """Rows of the first level of the band's statements."""
    return lambda q: z3.Exists([x_], And(0 <= x_, x_ < b.lp.n, q == b.lp.ss.s(x_).tr.rb(b.lp.depth)), patterns=[b.lp.ss.b(x_)])


def ctb_req(c):
    p, b = P(c), Bnd(c.pre, c["band"])
    s = b.lp.ss
    sv = p.d("satvec", x_)
    tr = lambda x: s.s(x).f("trans")
    return prog_wf(p) + b.wf(p.nh, True) + [("width", And(b.width >= 1, b.lp.depth + b.width <= p.nh)), ("options", p.v.f("plutoProg", "context", p.b, IV(0)) != 0),
        vec_wf(p, "satvec", False), vec_wf(p, "dirvec", False), ("distinct dependences", forall([x_, y_], Implies(And(0 <= x_, x_ < y_, y_ < p.nd), p.dep(x_) != p.dep(y_)), [[p.dep(x_), p.dep(y_)]])),
        ("distinct statements and schedules", forall([x_, y_], Implies(And(0 <= x_, x_ < y_, y_ < s.n), And(s.b(x_) != s.b(y_), tr(x_) != tr(y_))), [[s.b(x_), s.b(y_)]]))]


def wrow(b0, b1, lo, hi, new):
    a, b = b0.lp.ss.s(x_), b1.lp.ss.s(x_)
    return ("schedule rows of statements %s" % ("done" if new is not None else "to do"), forall([x_, l_, j_], Implies(And(lo <= x_, x_ < hi, 0 <= l_, l_ < a.tr.nr, 0 <= j_, j_ < a.tr.nc), b.row(l_, j_) == (a.row(l_, j_) if new is None else If(l_ == b0.lp.depth, new(x_, j_), a.row(l_, j_)))), [b.row(l_, j_)]))


def lds(L, n, b):
    v = L.v("loop_depths")
    c = lambda k: L.st.i32(v.blk, k)
    d = LDG(b, k_)
    return [("numbered levels", forall([k_], Implies(And(0 <= k_, k_ < n), And(c(k_) == d, Implies(k_ >= 1, And(b.lp.depth < d, d < b.lp.depth + b.width)), d >= 0, d < b.lp.depth + b.width)), [c(k_)])),
            ("levels are in order", forall([k_, l_], Implies(And(0 <= k_, k_ < l_, l_ < n), c(k_) < c(l_)), [[c(k_), c(l_)]]))]


def or_sat(p, b, d, k):
    q = z3.Int("oq")
    return z3.Exists([q], And(0 <= q, q <= k, sat(p, d, LDG(b, q)) != 0), patterns=[LDG(b, q)])


def is_wave(b, l, k):
    q = z3.Int("oq")
    return z3.Exists([q], And(1 <= q, q <= k, l == LDG(b, q)), patterns=[LDG(b, q)])


def satv(p0, p1, b, d, k):
    """Satisfaction of dependence d after levels number 1..k were merged into the first."""
    f = b.lp.depth
    new = lambda l: sat(p1, d, l)
    return And((new(f) != 0) == or_sat(p0, b, d, k), forall([l_], Implies(And(0 <= l_, l_ < p0.nh, l_ != f), new(l_) == If(is_wave(b, l_, k), 0, sat(p0, d, l_))), [new(l_)]))


def sat_same(p0, p1, d, l):
    return sat(p1, d, l) == sat(p0, d, l)


def sats(p0, p1, b, n):
    d = z3.Int("od")
    g = And(0 <= d, d < n, real(p0, d), inloop(p0, b.lp, d))
    return [("merged satisfaction", forall([d], Implies(g, satv(p0, p1, b, d, nip(p0, b))), [p0.dep(d)]))]


def sats_rest(p0, p1, b, n):
    d = z3.Int("od")
    return [("other satisfaction", forall([d, l_], Implies(And(0 <= d, d < p0.nd, 0 <= l_, l_ < p0.nh, Or(d >= n, Not(real(p0, d)), Not(inloop(p0, b.lp, d)))), sat_same(p0, p1, d, l_)), [sat(p1, d, l_)]))]


def ctb_inv(k):
    def f(L):
        p0, p1, b0, b1 = Prog(L.pre, L["prog"]), Prog(L.st, L["prog"]), Bnd(L.pre, L["band"]), Bnd(L.st, L["band"])
        f0, w = b0.lp.depth, b0.width
        end = f0 + w
        if k <= 1:
            d = L.v("depth")
            out = lv_def(p0, b0, d) + [("depth", And(f0 + 1 <= d, d <= end)), ("count", And(L.v("nloops") == NL(b0, d) + 1, NL(b0, d) <= d - f0 - 1, NL(b0, d) >= 0)), ("not parallel", Not(par(p0, b0.lp)))] + lds(L, NL(b0, d) + 1, b0)
            out += [("levels so far", forall([k_], Implies(And(0 <= k_, k_ <= NL(b0, d)), LDG(b0, k_) < d), [LDG(b0, k_)]))]
            q = z3.Int("od")
            out += [("satisfaction kept", forall([q, l_], Implies(And(0 <= q, q < p0.nd, 0 <= l_, l_ < p0.nh), sat_same(p0, p1, q, l_)), [sat(p1, q, l_)]))]
            out += [("directions kept", forall([q, l_], Implies(And(0 <= q, q < p0.nd, 0 <= l_, l_ < p0.nh), dirv(p1, q, l_) == dirv(p0, q, l_)), [[p0.dep(q), dirv(p1, q, l_)], [p0.dep(q), dirv(p0, q, l_)]]))]
            if k == 1:
                s = b0.lp.ss.s(x_)
                out += [("level", d < end), ("loops so far", forall([x_], Implies(And(0 <= x_, x_ < L.i), Not(s.scalar(d))), [b0.lp.ss.b(x_)])), ("j", L.i <= b0.lp.n)]
            return out
        n = nip(p0, b0)
        out = [("merged levels", And(L.v("nip_dims") == n, n >= 1, n <= NL(b0, end), NL(b0, end) <= w - 1, L.v("first") == f0)), ("not parallel", Not(par(p0, b0.lp)))] + lds(L, NL(b0, end) + 1, b0)
        if k <= 4:
            i = L.i if k == 2 else L.up(2) if k == 4 else L.up()
            kk = IV(0) if k == 2 else L.i if k == 3 else L.up(1)
            out += [("wavefront wanted", opt(p0, "innerpar") == 0)] + [wrow(b0, b1, IV(0), i, lambda x, j: WS(b0, x, j, n)), wrow(b0, b1, i if k == 2 else i + 1, b0.lp.n, None), ("i", And(0 <= i, i <= b0.lp.n))]
            if k >= 3:
                a, b = b0.lp.ss.s(i), b1.lp.ss.s(i)
                out = ws_def(b0, kk) + out
                lim = (lambda j: WS(b0, i, j, kk - 1)) if k == 3 else (lambda j: If(j < L.i, WS(b0, i, j, kk), WS(b0, i, j, kk - 1)))
                out += [("statement", i < b0.lp.n), ("k", And(1 <= kk, kk <= n + (1 if k == 3 else 0))), ("this schedule", forall([l_, j_], Implies(And(0 <= l_, l_ < a.tr.nr, 0 <= j_, j_ < a.tr.nc), b.row(l_, j_) == If(l_ == f0, lim(j_), a.row(l_, j_))), [b.row(l_, j_)]))]
            if k == 4:
                out += [("j", And(0 <= L.i, L.i <= a.tr.nc))]
            return out
        i = L.i if k == 5 else L.up()
        out += sats(p0, p1, b0, i) + sats_rest(p0, p1, b0, i if k == 5 else i + 1) + [("i", And(0 <= i, i <= p0.nd))]
        if k == 6:
            out += [("dependence", And(i < p0.nd, real(p0, i), inloop(p0, b0.lp, i))), ("k", And(1 <= L.i, L.i <= n + 1)), ("this dependence", satv(p0, p1, b0, i, L.i - 1))]
        return out
    return f


def ctb_ens(c):
    p0, p1, b0, b1 = P(c), P(c, view=c.post), Bnd(c.pre, c["band"]), Bnd(c.post, c["band"])
    r = bl(c.ret)
    a, b = b0.lp.ss.s(x_), b1.lp.ss.s(x_)
    g = And(0 <= x_, x_ < b0.lp.n, 0 <= l_, l_ < a.tr.nr, 0 <= j_, j_ < a.tr.nc)
    d = z3.Int("od")
    return [("done exactly when the band is not parallel and has another level that is a loop of all statements in which no dependence goes backwards", r == And(Not(par(p0, b0.lp)), NL(b0, b0.lp.depth + b0.width) >= 1)),
            ("first level is the sum of the merged levels, others kept", forall([x_, l_, j_], Implies(g, b.row(l_, j_) == If(And(r, opt(p0, "innerpar") == 0, l_ == b0.lp.depth), WS(b0, x_, j_, nip(p0, b0)), a.row(l_, j_))), [b.row(l_, j_)])),
            ("nothing done: satisfaction kept", Implies(Not(r), forall([d, l_], Implies(And(0 <= d, d < p0.nd, 0 <= l_, l_ < p0.nh), sat_same(p0, p1, d, l_)), [sat(p1, d, l_)])))] + [
            (l, Implies(r, q)) for l, q in sats(p0, p1, b0, p0.nd) + sats_rest(p0, p1, b0, p0.nd)]


contract("pluto_create_tile_schedule_band", props=("C08",), nloops=7, requires=ctb_req,
         modifies=lambda c: {"c.i64": in_rows(Bnd(c.pre, c["band"])), "c.i32": lambda b: KINDF(b) == K("f.dependence.satvec")},
         ensures=ctb_ens, loops={k: ctb_inv(k) for k in range(7)})


# ------------------------------------------------------------------ bands that may be tiled
def crosses(p, b, q):
    """Dependence q, not satisfied outside of the band, has exactly one of its ends in the band."""
    sl = p.d("satisfaction_level", q)
    return And(real(p, q), Not(And(0 <= sl, sl < b.lp.depth)), Or(And(b.lp.ss.mem(sid(p, q, "src")), Not(b.lp.ss.mem(sid(p, q, "dest")))), And(Not(b.lp.ss.mem(sid(p, q, "src"))), b.lp.ss.mem(sid(p, q, "dest")))))


contract("is_band_separate", props=("C08",), nloops=1, requires=lambda c: (lambda p, b: prog_wf(p, False) + b.wf(p.nh, True))(P(c), Bnd(c.pre, c["band"])),
         ensures=lambda c: (lambda p, b: [("no dependence crosses the band's border", bl(c.ret) == Not(anyd(p, lambda q: crosses(p, b, q))))])(P(c), Bnd(c.pre, c["band"])),
         loops={0: dep_scan(lambda L, p, d: crosses(p, Bnd(L.pre, L["band"]), d))})
