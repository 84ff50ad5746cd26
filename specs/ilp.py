"""Contracts for the constraints handed to the solver and the way back (C09): lib/framework.cpp, lib/pluto.c."""
from base import *
from matrix import Mat
from cons import Cst
from ddg import Prog, Gr, x_, y_
from stmts import *
from deps import *
from program import *

H_LOOP, H_SCALAR, H_UNKNOWN = 1, 3, 0
r_, j_ = z3.Ints("ir ij")


def opt(p, name):
    ctx = p.v.f("plutoProg", "context", p.b, IV(0))
    return p.v.f("plutoOptions", name, p.v.f("plutoContext", "options", ctx, IV(0)), IV(0))


def ccs(p):
    """Number of bounding functions besides the common one."""
    g = p.v.f("plutoProg", "ddg", p.b, IV(0))
    return If(opt(p, "per_cc_obj") != 0, p.v.f("graph", "num_ccs", g, IV(0)), 0)


def coff(p):
    """Column of the first schedule coefficient."""
    return p.npar + 1 + (p.npar + 1) * ccs(p)


def scol(p, x, j):
    """Column of coefficient j (nvar: the constant) of statement x."""
    return coff(p) + x * (p.nvar + 1) + j


def width(p):
    return coff(p) + p.ns * (p.nvar + 1) + 1


def ilp_req(p):
    g = p.v.f("plutoProg", "ddg", p.b, IV(0))
    return [("graph", Implies(opt(p, "per_cc_obj") != 0, And(live(p.v, g), LEN(g) >= sizeof(p.v, "graph"), KINDF(g) == K("graph"), p.v.f("graph", "num_ccs", g, IV(0)) >= 0))),
            ("sizes", And(p.nvar >= 0, p.npar >= 0, p.ns >= 0, ccs(p) >= 0)), ("@size", And(p.nvar < 1 << 10, p.npar < 1 << 10, p.ns < 1 << 15, ccs(p) <= p.ns, (p.npar + 1) * ccs(p) < 1 << 25, p.ns * (p.nvar + 1) < 1 << 25)),
            ("@size (lemma)", And((p.npar + 1) * ccs(p) >= 0, p.ns * (p.nvar + 1) >= p.ns))]


def cols_lemma(p, i):
    """i < ns: the columns of statement i are before those of the next and inside the solution."""
    return ("@def", Implies(And(0 <= i, i < p.ns), And(i * (p.nvar + 1) >= 0, i * (p.nvar + 1) + p.nvar + 1 <= p.ns * (p.nvar + 1))))


# ------------------------------------------------------------------ a solution becomes a level of every schedule
MV = "f.pluto_matrix.val"


def sol_mods(c):
    m = cut_mods(c)
    m["c.i64"] = lambda b: And(KINDF(b) == K("i64"), KINDF(c.pre.own(b)) == K(MV))
    m["c.i32"] = lambda b: KINDF(b) == K(HT)
    for k in ("f.dependence.satisfied", "f.dependence.satisfaction_level"):
        m.pop(k)
    return m


def sol_frees(c):
    return lambda b: Or(*([KINDF(b) == K(k) for k in (MV, HT, "f.plutoProg.hProps")] + [And(KINDF(b) == K("i64"), KINDF(c.pre.own(b)) == K(MV))]))


def sol_at(c, p, x, j):
    return p.v.cell("c.i64", c["sol"].blk, ADR(c["sol"].off, scol(p, x, j)))


def from_sol(c, p, x, j):
    return If(j < p.nvar, sol_at(c, p, x, j), If(j < p.nvar + p.npar, 0, sol_at(c, p, x, p.nvar)))


def sol_req(c):
    p = P(c)
    s = c["sol"]
    return sched_wf(p, lambda x: p.nh) + stmts_apart(p) + kinds_ok(p) + [("program", And(live(p.v, p.b), LEN(p.b) >= sizeof(p.v, "plutoProg"))), hp_wf(p), ("levels", And(p.nh >= 0, p.nh <= MAXS))] + ilp_req(p) + [
        ("solution", And(live(p.v, s.blk), s.off >= 0, LEN(s.blk) >= 8 * (s.off + width(p) - 1), KINDF(s.blk) == K("i64"), KINDF(p.v.own(s.blk)) != K(MV)))]


def sol_rows(L, p0, p1, upto, n=None):
    b = prog_stmts(p1).s(x_)
    kind = lambda: If(b.scalar(p0.nh), IV(H_SCALAR), IV(H_LOOP))
    return [("new rows", forall([x_, j_], Implies(And(0 <= x_, x_ < upto, 0 <= j_, j_ <= p0.nvar + p0.npar), b.row(p0.nh, j_) == from_sol(L, p0, x_, j_)), [b.row(p0.nh, j_)])),
            ("scalar rows", forall([x_], Implies(And(0 <= x_, x_ < upto), ht(b, p0.nh) == kind()), [p1.stmt(x_)]))]


def sol_inv(k):
    def f(L):
        p0, p1 = Prog(L.pre, L["prog"]), Prog(L.st, L["prog"])
        i = L.i if k == 0 else L.up()
        done = i if k == 0 else i + 1
        nh, s = p0.nh, L["sol"]
        out = [cols_lemma(p0, i)] + sched_wf(p1, lambda x: If(x < done, nh + 1, nh)) + rows_kept(p0, p1, nh) + sol_rows(L, p0, p1, i) + [("i", i <= p0.ns), ("solution kept", And(Not(L.st.freed(s.blk)), L.st.own(s.blk) == L.pre.own(s.blk)))]
        if k >= 1:
            b = prog_stmts(p1).s(i)
            out += [("statement", And(0 <= i, i < p0.ns))]
            lo = IV(0) if k == 1 else p0.nvar
            lim = p0.nvar if k == 1 else p0.nvar + p0.npar
            out += [("this row", forall([j_], Implies(And(0 <= j_, j_ < L.i), b.row(nh, j_) == from_sol(L, p0, i, j_)), [b.row(nh, j_)])), ("k", And(lo <= L.i, L.i <= lim))]
        return out
    return f


contract("pluto_add_hyperplane_from_ilp_solution", props=("C09", "C13"), nloops=3, requires=sol_req, modifies=sol_mods, frees=sol_frees,
         ensures=lambda c: (lambda p0, p1: [("one more level", p1.nh == p0.nh + 1)] + sched_wf(p1, lambda x: p0.nh + 1) + rows_kept(p0, p1, p0.nh) + sol_rows(c, p0, p1, p0.ns))(P(c), P(c, view=c.post)),
         loops={k: sol_inv(k) for k in range(3)})


# ------------------------------------------------------------------ largest constant of the domains
def dom(p, x):
    return Cst(p.v, prog_stmts(p).s(x).f("domain"))


def doms_wf(p):
    s = prog_stmts(p).s(x_)
    d = Cst(p.v, s.f("domain"))
    g = And(0 <= x_, x_ < p.ns)
    i, k = z3.Ints("wi wk")
    out = [("statement table", And(p.ns >= 0, p.ns <= MAXS, Or(p.ns == 0, And(live(p.v, p.stmts), LEN(p.stmts) >= 8 * p.ns)))),
           ("statements", forall([x_], Implies(g, And(live(p.v, s.b), LEN(s.b) >= sizeof(p.v, ST), d.nc >= 1)), [s.b]))]
    return out + [("domains (%d)" % q, f) for q, f in enumerate(lift(x_, g, [f for l, f in d.wf()], p.stmt(x_)))]


def lc_inv(k):
    def f(L):
        p = Prog(L.pre, L["prog"])
        i = L.i if k == 0 else L.up()
        m = L.v("max")
        v = lambda x: dom(p, x).at(r_, dom(p, x).nc - 1)
        out = [("@def", forall([x_, r_], Implies(And(0 <= x_, x_ < p.ns, 0 <= r_, r_ < dom(p, x_).nr), And(v(x_) < 1 << 31, v(x_) >= -(1 << 31))), [v(x_)])),
               ("max", And(m >= 0, m < 1 << 31)), ("seen", forall([x_, r_], Implies(And(0 <= x_, x_ < i, 0 <= r_, r_ < dom(p, x_).nr), m >= v(x_)), [v(x_)])), ("i", i <= p.ns)]
        if k == 1:
            d = dom(p, i)
            out += [("seen in this domain", forall([r_], Implies(And(0 <= r_, r_ < L.i), m >= v(i)), [v(i)])), ("r", L.i <= d.nr), ("statement", And(0 <= i, i < p.ns))]
        return out
    return f


contract("pluto_prog_get_largest_const_in_domains", props=("C09",), nloops=2, allocs=False, requires=lambda c: [("program", And(live(c.pre, P(c).b), LEN(P(c).b) >= sizeof(c.pre, "plutoProg")))] + doms_wf(P(c)),
         ensures=lambda c: (lambda p: [("no constant is larger", forall([x_, r_], Implies(And(0 <= x_, x_ < p.ns, 0 <= r_, r_ < dom(p, x_).nr), c.ret >= dom(p, x_).at(r_, dom(p, x_).nc - 1) - 1), [dom(p, x_).at(r_, dom(p, x_).nc - 1)])), ("at least -1", c.ret >= -1)])(P(c)),
         loops={k: lc_inv(k) for k in range(2)})


# ------------------------------------------------------------------ bounds on the unknowns
def cb_row(p, r, j, U):
    n = width(p) - 1
    return If(r < n, If(j == r, 1, 0), If(j == coff(p) + r - n, -1, If(j == n, U, 0)))


def cb2_inv(k):
    def f(L):
        p, b = Prog(L.pre, L["prog"]), Cst(L.st, L.v("cst"))
        n, o = width(p) - 1, coff(p)
        i = L.i
        lo, rows = {0: (IV(0), i), 1: (o, i), 2: (o, n + i - o), 3: (o, n + i - o)}[k]
        U = opt(p, "coeff_bound") if k == 2 else (L.v("ub") if k == 3 else IV(0))
        return [("width", And(b.nc == n + 1, b.nr == rows, lo <= i, i <= (o if k == 0 else n)))] + b.wf() + fresh_c(L, b) + [b.is_(lambda r, j: cb_row(p, r, j, U)), b.kinds(lambda r: IV(0))]
    return f


def fresh_c(L, b):
    ox = z3.Int("ox")
    return [("fresh", And(*[x >= L.pre.nb for x in (b.c, b.buf, b.val, b.eqb)]))]


contract("get_coeff_bounding_constraints", props=("C09",), nloops=4, requires=lambda c: [("program", And(live(c.pre, P(c).b), LEN(P(c).b) >= sizeof(c.pre, "plutoProg"), c.pre.f("plutoProg", "context", P(c).b, IV(0)) != 0))] + doms_wf(P(c)) + ilp_req(P(c)),
         ensures=lambda c: (lambda p, b: b.wf() + b.fresh_from(c.pre) + [("width", b.nc == width(p)), ("only bounds", Or(b.nr == width(p) - 1, b.nr == 2 * (width(p) - 1) - coff(p))), b.kinds(lambda r: IV(0)),
             ("every unknown non-negative", forall([r_, j_], Implies(And(0 <= r_, r_ < width(p) - 1, 0 <= j_, j_ < b.nc), b.at(r_, j_) == If(j_ == r_, 1, 0)), [b.at(r_, j_)])),
             ("upper bounds on schedule coefficients only", forall([r_, j_], Implies(And(width(p) - 1 <= r_, r_ < b.nr, 0 <= j_, j_ < b.nc - 1), b.at(r_, j_) == If(j_ == coff(p) + r_ - (width(p) - 1), -1, 0)), [b.at(r_, j_)])),
             ("given bound", Implies(opt(p, "coeff_bound") != -1, And(b.nr == 2 * (width(p) - 1) - coff(p), forall([r_], Implies(And(width(p) - 1 <= r_, r_ < b.nr), b.at(r_, b.nc - 1) == opt(p, "coeff_bound")), [b.at(r_, b.nc - 1)])))),
             ("derived bound", Implies(opt(p, "coeff_bound") == -1, forall([r_], Implies(And(width(p) - 1 <= r_, r_ < b.nr), b.at(r_, b.nc - 1) >= 10), [b.at(r_, b.nc - 1)])))])(P(c), Cst(c.post, c.ret)),
         loops={k: cb2_inv(k) for k in range(4)})


# ------------------------------------------------------------------ no trivial solutions
_nz = {}


def NIH(p, x):
    """Number of linearly independent hyperplanes found for statement x (rank of its schedule: C02)."""
    hs = [p.v.key(n) for n in ("c.i64", "c.p.i64.b", MV, "f.pluto_matrix.nrows", "f.pluto_matrix.ncols", "f.statement.trans", "f.statement.dim_orig")]
    if "f" not in _nz:
        _nz["f"] = z3.Function("NIH", *([h.sort() for h in hs] + [I, I]))
    return _nz["f"](*(hs + [x]))


def deficit(p, x):
    s = prog_stmts(p).s(x)
    return NIH(p, p.stmt(x)) < s.f("dim_orig")


def nih_req(c):
    s = Stm(c.pre, c["stmt"])
    return s.wf() + [("original dimensionality", And(s.f("dim_orig") >= 0, s.f("dim_orig") <= s.tr.nc)), ("@size", s.f("dim_orig") <= MAXS)]


def nih_frame(p, p1, x):
    """The rank depends on the entries of the schedule only."""
    a, b = prog_stmts(p).s(x), prog_stmts(p1).s(x)
    l, j = z3.Ints("rl rj")
    return ("@def", Implies(And(a.b == b.b, a.tr.nr == b.tr.nr, a.tr.nc == b.tr.nc, a.f("dim_orig") == b.f("dim_orig"), forall([l, j], Implies(And(0 <= l, l < a.tr.nr, 0 <= j, j < a.tr.nc), a.row(l, j) == b.row(l, j)), [b.row(l, j)])), NIH(p, a.b) == NIH(p1, b.b)))


class _V:
    def __init__(self, v):
        self.v = v


def RANK(m):
    """Rank of a matrix (a function of its entries; the number is checked by bounded checks, C02)."""
    hs = [m.v.key(n) for n in ("c.i64", "c.p.i64.b", MV, "f.pluto_matrix.nrows", "f.pluto_matrix.ncols")]
    if "r" not in _nz:
        _nz["r"] = z3.Function("RANK", *([h.sort() for h in hs] + [I, I]))
    return _nz["r"](*(hs + [m.m]))


contract("pluto_matrix_get_rank", props=(), assumed=True, requires=lambda c: Mat(c.pre, c["mat"]).wf(), ensures=lambda c: (lambda m: [("rank", And(c.ret == RANK(m), c.ret >= 0, c.ret <= m.nr, c.ret <= m.nc))])(Mat(c.pre, c["mat"])))


def nih_hint(c):
    """Definition of the number of independent rows: the rank of the columns of the iterators."""
    m = Mat(c.cpre, c.call["mat"])
    s = Stm(c.pre, c["stmt"])
    l, j = z3.Ints("rl rj")
    return [("rows of the statement's schedule", m.nr == s.tr.nr), ("columns of the original iterators only", m.nc == s.f("dim_orig")), m.is_(s.row, "entries of the schedule"),
            ("@def", Implies(And(m.nr == s.tr.nr, m.nc == s.f("dim_orig"), m.is_(s.row)[1]), RANK(m) == NIH(_V(c.pre), s.b)))]


def nih_inv(L):
    s = Stm(L.pre, L["stmt"])
    m = Mat(L.st, L.v("tprime"))
    d = s.f("dim_orig")
    return m.wf() + m.fresh_from(L.pre) + [("i", And(d <= L.i, L.i <= s.tr.nc)), ("extents", And(m.nr == s.tr.nr, m.nc == s.tr.nc - (L.i - d))), m.is_(lambda r, c: If(c < d, s.row(r, c), s.row(r, c + L.i - d)))]


contract("pluto_stmt_get_num_ind_hyps", props=("C09", "C13"), nloops=1, requires=nih_req, ensures=lambda c: [("number of independent rows", And(c.ret == NIH(_V(c.pre), c["stmt"].blk), c.ret >= 0, c.ret <= MAXS))],
         loops={0: nih_inv}, hints={"pluto_matrix_get_rank": nih_hint})


def fr_inv(L):
    p = Prog(L.pre, L["prog"])
    p1 = Prog(L.st, L["prog"])
    return [nih_frame(p, p1, L.i), ("full rank so far", forall([x_], Implies(And(0 <= x_, x_ < L.i), Not(deficit(p, x_))), [p.stmt(x_)])), ("i", L.i <= p.ns)]


contract("pluto_transformations_full_ranked", props=("C13",), nloops=1,
         requires=lambda c: (lambda p, s: [("program", And(live(p.v, p.b), LEN(p.b) >= sizeof(p.v, "plutoProg")))] + prog_stmts(p).wf() + [("original dimensionality", forall([x_], Implies(And(0 <= x_, x_ < p.ns), And(s.f("dim_orig") >= 0, s.f("dim_orig") <= s.tr.nc)), [p.stmt(x_)]))])(P(c), prog_stmts(P(c)).s(x_)),
         ensures=lambda c: (lambda p: [("exactly when no statement needs another hyperplane", bl(c.ret) == forall([x_], Implies(And(0 <= x_, x_ < p.ns), Not(deficit(p, x_))), [p.stmt(x_)]))])(P(c)),
         loops={0: fr_inv})


def mx_inv(L):
    p = Prog(L.pre, L["prog"])
    p1 = Prog(L.st, L["prog"])
    m = L.v("max")
    n = lambda x: NIH(p, p.stmt(x))
    return [nih_frame(p, p1, L.i), ("i", L.i <= p.ns), ("not below any so far", forall([x_], Implies(And(0 <= x_, x_ < L.i), n(x_) <= m), [p.stmt(x_)])), ("reached", And(m >= 0, m <= MAXS, Or(m == 0, z3.Exists([x_], And(0 <= x_, x_ < L.i, m == n(x_)), patterns=[p.stmt(x_)]))))]


contract("pluto_get_max_ind_hyps", props=("C13",), nloops=1, requires=lambda c: SPECS["pluto_transformations_full_ranked"].requires(c),
         ensures=lambda c: (lambda p, n: [("the largest number", And(forall([x_], Implies(And(0 <= x_, x_ < p.ns), n(x_) <= c.ret), [p.stmt(x_)]), Or(c.ret == 0, z3.Exists([x_], And(0 <= x_, x_ < p.ns, c.ret == n(x_)), patterns=[p.stmt(x_)]))))])(P(c), lambda x: NIH(P(c), P(c).stmt(x))),
         loops={0: mx_inv})


def orig(p, x, j):
    return p.v.i8(prog_stmts(p).s(x).f("is_orig_loop"), j)


def NZC(p, x):
    """Number of statements before x that still need hyperplanes."""
    hs = [p.v.key(n) for n in ("c.i64", "c.p.i64.b", MV, "f.pluto_matrix.nrows", "f.pluto_matrix.ncols", "f.statement.trans", "f.statement.dim_orig", "c.p.statement.b")]
    if "c" not in _nz:
        _nz["c"] = z3.Function("NZC", *([h.sort() for h in hs] + [I, I, I]))
    return _nz["c"](*(hs + [p.stmts, x]))


def nz_req(c):
    p = P(c)
    s = prog_stmts(p).s(x_)
    g = And(0 <= x_, x_ < p.ns)
    b = s.f("is_orig_loop")
    return [("program", And(live(p.v, p.b), LEN(p.b) >= sizeof(p.v, "plutoProg"), p.v.f("plutoProg", "context", p.b, IV(0)) != 0))] + sched_wf(p, lambda x: p.nh) + ilp_req(p) + [
        ("dimensions", forall([x_], Implies(g, And(s.f("dim_orig") >= 0, s.f("dim_orig") <= s.tr.nc, s.f("dim_orig") <= MAXS, live(p.v, b), LEN(b) >= p.nvar)), [p.stmt(x_)])),
        ("flags", forall([x_, y_], Implies(And(g, 0 <= y_, y_ < p.nvar), Or(orig(p, x_, y_) == 0, orig(p, x_, y_) == 1)), [orig(p, x_, y_)])), ("something to schedule", p.ns >= 1), ("mode", True)]


def nz_cell(p, x, j):
    """Coefficient of the row of statement x in column j < width - 1."""
    q = j - scol(p, x, 0)
    return If(And(0 <= q, q < p.nvar), If(orig(p, x, q) != 0, 1, 0), 0)


def _sx(p, nm, j):
    hs = [p.v.key(n) for n in ("f.plutoProg.npar", "f.plutoProg.nvar", "f.plutoProg.nstmts", "f.plutoProg.ddg", "f.plutoProg.context", "f.plutoContext.options", "f.plutoOptions.per_cc_obj", "f.graph.num_ccs")]
    if nm not in _nz:
        _nz[nm] = z3.Function(nm, *([h.sort() for h in hs] + [I, I, I]))
    return _nz[nm](*(hs + [p.b, j]))


def SX(p, j):
    """Statement whose coefficient is in column j, and which coefficient."""
    return _sx(p, "SXF", j)


def SJ(p, j):
    return _sx(p, "SJF", j)


def sxj_def(p):
    return ("@def", forall([j_], Implies(And(coff(p) <= j_, j_ < width(p) - 1), And(0 <= SX(p, j_), SX(p, j_) < p.ns, 0 <= SJ(p, j_), SJ(p, j_) <= p.nvar, j_ == coff(p) + SX(p, j_) * (p.nvar + 1) + SJ(p, j_))), [SX(p, j_)]))


def lazy_cell(p, j, done):
    x, q = SX(p, j), SJ(p, j)
    return If(And(coff(p) <= j, q < p.nvar, done(x, q), deficit(p, x), orig(p, x, q) != 0), 1, 0)


def nz_inv(k):
    def f(L):
        p, b = Prog(L.pre, L["prog"]), Cst(L.st, L.v("nzcst"))
        w = width(p)
        eager = k < 2
        i = L.i if k in (0, 2) else L.up()
        e = Cst(L.entry, L.v("nzcst"))
        out = [cols_lemma(p, i), nih_frame(p, Prog(L.st, L["prog"]), i), ("@def", And(NZC(p, IV(0)) == 0, Implies(And(0 <= i, i < p.ns), NZC(p, i + 1) == NZC(p, i) + If(deficit(p, i), 1, 0)))), ("width", And(b.nc == w, b.anc == w, b.anr == p.ns))] + b.wf() + fresh_c(L, b) + [("i", i <= p.ns), b.kinds(lambda r: IV(0), rows=b.anr)]
        cur = NZC(p, i)
        zero = lambda lo: ("unused rows are zero", forall([r_, j_], Implies(And(lo <= r_, r_ < b.anr, 0 <= j_, j_ < w), b.at(r_, j_) == 0), [b.at(r_, j_)]))
        if eager:
            out += [("rows", And(b.nr == cur, 0 <= cur, cur <= i, cur <= p.ns)), ("earlier rows come first", forall([x_], Implies(And(0 <= x_, x_ < i, deficit(p, x_)), And(0 <= NZC(p, x_), NZC(p, x_) < cur)), [NZC(p, x_)])),
                    ("rows so far", forall([x_, j_], Implies(And(0 <= x_, x_ < i, deficit(p, x_), 0 <= j_, j_ < w), b.at(NZC(p, x_), j_) == If(j_ == w - 1, -1, nz_cell(p, x_, j_))), [b.at(NZC(p, x_), j_)]))]
            out += [zero(cur if k == 0 else cur + 1)]
            if k == 1:
                out += [("statement", And(0 <= i, i < p.ns, deficit(p, i), L.i <= p.nvar)),
                        ("this row", forall([j_], Implies(And(0 <= j_, j_ < w), b.at(cur, j_) == If(j_ < scol(p, i, L.i), nz_cell(p, i, j_), 0)), [b.at(cur, j_)]))]
        else:
            out += [("no row yet", b.nr == 0)]
            done = lambda x, q: (x < i) if k == 2 else Or(x < i, And(x == i, q < L.i))
            if k == 3:
                j0 = scol(p, i, L.i)
                out = [("@def", Implies(And(0 <= i, i < p.ns, 0 <= L.i, L.i <= p.nvar), And(SX(p, j0) == i, SJ(p, j0) == L.i)))] + out
            out = [sxj_def(p)] + out + [zero(IV(1)), ("deficits", And(NZC(p, i) >= 0)),
                    ("coefficients so far", forall([j_], Implies(And(0 <= j_, j_ < w - 1), b.at(IV(0), j_) == lazy_cell(p, j_, done)), [b.at(IV(0), j_)])),
                    ("constant so far", b.at(IV(0), w - 1) == If(NZC(p, i) > 0, -1, 0))]
            if k == 3:
                out += [("statement", And(0 <= i, i < p.ns, deficit(p, i), L.i <= p.nvar))]
        return out
    return f


def nz_ens(c):
    p, b = P(c), Cst(c.post, c.ret)
    w = width(p)
    m = bl(c["hyp_search_mode"])
    return b.wf() + b.fresh_from(c.pre) + [("width", b.nc == w), ("EAGER: one row per statement that needs hyperplanes", Implies(Not(m), b.nr == NZC(p, p.ns))), ("LAZY: one row", Implies(m, b.nr == 1)), b.kinds(lambda r: IV(0)),
        ("EAGER: some coefficient of an original dimension is non-zero", Implies(Not(m), forall([x_, j_], Implies(And(0 <= x_, x_ < p.ns, deficit(p, x_), 0 <= j_, j_ < w), b.at(NZC(p, x_), j_) == If(j_ == w - 1, -1, nz_cell(p, x_, j_))), [b.at(NZC(p, x_), j_)]))), sxj_def(p),
        ("LAZY: some coefficient of some statement is non-zero", Implies(m, And(forall([j_], Implies(And(0 <= j_, j_ < w - 1), b.at(IV(0), j_) == lazy_cell(p, j_, lambda x, q: True)), [b.at(IV(0), j_)]), b.at(IV(0), w - 1) == If(NZC(p, p.ns) > 0, -1, 0))))]


contract("get_non_trivial_sol_constraints", props=("C09", "C13"), nloops=4, requires=nz_req, ensures=nz_ens, loops={k: nz_inv(k) for k in range(4)})
