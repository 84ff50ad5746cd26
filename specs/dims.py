"""Contracts for lib/program.cpp: removing and inserting an iteration dimension of a statement (C07): domain, names, schedule, accesses and dependences together."""
from base import *
from matrix import Mat
from cons import Cst, C
from ddg import Prog
from stmts import prog_stmts, live, P, ST, Stm, x_, y_, MAXS
from deps import lift
from update import Deps, both, BUF, VAL, EQ
from program import ht, ht_wf, HT

ACC = "pluto_access"
IT, OL = "f.statement.iterators", "f.statement.is_orig_loop"
FLD = ("dpolytope", "bounding_poly")


class Accs:
    """The accesses of a statement (reads or writes)."""

    def __init__(self, s, which):
        self.s, self.v, self.which = s, s.v, which
        self.tab, self.n = s.f(which), s.f("n" + which)

    def acc(self, x):
        return self.v.pcell(ACC, self.tab, x)

    def mb(self, x):
        return self.v.f(ACC, "mat", self.acc(x), IV(0))

    def mat(self, x, view=None):
        return Mat(view or self.v, self.mb(x))

    def g(self, x):
        return And(0 <= x, x < self.n)


def accs(s):
    return Accs(s, "writes"), Accs(s, "reads")


def it(s, x):
    return s.v.cell("c.p.i8.b", s.f("iterators"), x)


def ol(s, x):
    return s.v.cell("c.i8", s.f("is_orig_loop"), x)


def fam(p):
    return [(D, f) for D in both(p) for f in FLD]


def poly(D, f, x, view=None):
    return Cst(view or D.v, D.d(f, x))


def occ(D, st, x):
    """(statement is the source, statement is the target) of dependence x"""
    return D.d("src", x) == st.id, D.d("dest", x) == st.id


def rd_req(c, remove=True):
    p, st, v = P(c), Stm(c.pre, c["stmt"]), c.pre
    pos = c["pos"]
    dom = Cst(v, st.f("domain"))
    no = lambda b, *ks: And(*[KINDF(b) != K(k) for k in ks])
    plain = lambda b: no(b, BUF, VAL, EQ, IT, OL, "i64", "i8", "f.pluto_matrix.val", C, "pluto_matrix", "f.statement.hyp_types", ST)
    out = [("program", And(live(v, p.b), LEN(p.b) >= sizeof(v, "plutoProg"), KINDF(p.b) == K("plutoProg"), p.npar >= 0, p.npar <= MAXS, p.ns >= 0, p.ns <= MAXS, plain(p.stmts), Or(p.ns == 0, And(live(v, p.stmts), LEN(p.stmts) >= 8 * p.ns)))),
           ("every statement", forall([x_], Implies(And(0 <= x_, x_ < p.ns), And(live(v, p.stmt(x_)), LEN(p.stmt(x_)) >= sizeof(v, ST), KINDF(p.stmt(x_)) == K(ST), p.s("dim", x_) >= 0, p.s("dim", x_) <= MAXS)), [p.stmt(x_)])),
           ("statements are distinct", forall([x_, y_], Implies(And(0 <= x_, x_ < y_, y_ < p.ns), p.stmt(x_) != p.stmt(y_)), [[p.stmt(x_), p.stmt(y_)]])),
           ("the statement is the program's", And(0 <= st.id, st.id < p.ns, p.stmt(st.id) == st.b))]
    out += [("statement " + l, f) for l, f in st.wf()] + [("domain: " + l, f) for l, f in dom.wf()]
    out += [("columns", And(dom.nc == st.dim + p.npar + 1, st.tr.nc == st.dim + p.npar + 1)), ("position", And(0 <= pos, pos < st.dim if remove else pos <= st.dim)),
            ("names", And(live(v, st.f("iterators")), KINDF(st.f("iterators")) == K(IT), LEN(st.f("iterators")) >= 8 * st.dim, forall([x_], v.own(x_) != st.f("iterators"), [v.own(x_)]))),
            ("every name", forall([x_], Implies(And(0 <= x_, x_ < st.dim), And(live(v, it(st, x_)), KINDF(it(st, x_)) == K("i8"), v.cell("c.p.i8.o", st.f("iterators"), x_) == 0)), [it(st, x_)])),
            ("marks of loops", And(live(v, st.f("is_orig_loop")), KINDF(st.f("is_orig_loop")) == K(OL), LEN(st.f("is_orig_loop")) >= st.dim, forall([x_], Implies(And(0 <= x_, x_ < st.dim), Or(ol(st, x_) == 0, ol(st, x_) == 1)), [ol(st, x_)])))]
    A = accs(st)
    for a in A:
        m = a.mat(x_)
        fs = [And(live(v, a.acc(x_)), LEN(a.acc(x_)) >= sizeof(v, ACC), plain(a.acc(x_)), m.nc == st.dim + p.npar + 1, m.m != st.tr.m)] + [f for l, f in m.wf()]
        out += [(a.which + " table", And(a.n >= 0, a.n <= MAXS, Or(a.n == 0, And(live(v, a.tab), plain(a.tab), LEN(a.tab) >= 8 * a.n))))]
        out += [("every one of the %s (%d)" % (a.which, k), f) for k, f in enumerate(lift(x_, a.g(x_), fs, a.acc(x_)))]
        out += [(a.which + " have their own matrices", forall([x_, y_], Implies(And(0 <= x_, x_ < y_, y_ < a.n), a.mb(x_) != a.mb(y_)), [[a.acc(x_), a.acc(y_)]]))]
    out += [("reads and writes have their own matrices", forall([x_, y_], Implies(And(A[0].g(x_), A[1].g(y_)), A[0].mb(x_) != A[1].mb(y_)), [[A[0].acc(x_), A[1].acc(y_)]]))]
    D, T = both(p)
    for E in (D, T):
        fs = [And(live(v, E.dep(x_)), plain(E.dep(x_)), LEN(E.dep(x_)) >= sizeof(v, "dependence"), *[And(0 <= E.d(e, x_), E.d(e, x_) < p.ns) for e in ("src", "dest")])]
        for k, f in enumerate(FLD):
            a = poly(E, f, x_)
            fs += [And(a.c != dom.c, v.own(a.c) == E.dep(x_), v.ownidx(a.c) == k, a.nc == p.s("dim", E.d("src", x_)) + p.s("dim", E.d("dest", x_)) + p.npar + 1)] + [q for l, q in a.wf()]
        out += [(E.which + " table", And(E.n >= 0, E.n <= MAXS, Or(E.n == 0, And(live(v, E.tab), plain(E.tab), LEN(E.tab) >= 8 * E.n))))]
        out += [("every one of %s (%d)" % (E.which, k), f) for k, f in enumerate(lift(x_, E.g(x_), fs, E.dep(x_)))]
        out += [(E.which + " are distinct", forall([x_, y_], Implies(And(0 <= x_, x_ < y_, y_ < E.n), E.dep(x_) != E.dep(y_)), [[E.dep(x_), E.dep(y_)]]))]
    out += [("tables hold different dependences", forall([x_, y_], Implies(And(D.g(x_), T.g(y_)), D.dep(x_) != T.dep(y_)), [[D.dep(x_), T.dep(y_)]]))]
    return out


def rcol(j, p):
    """Old column that column j of a system without column p was."""
    return If(j < p, j, j + 1)


def rd_poly(D0, view, f, st, pos, done):
    """Systems f of table D0, in view, once the first `done` dependences are updated."""
    a, b = poly(D0, f, x_), poly(D0, f, x_, view)
    s, t = occ(D0, st, x_)
    i, j = z3.Ints("di dj")
    sd = D0.p.s("dim", D0.d("src", x_))
    d = x_ < done
    s, t = And(s, d), And(t, d)
    pt = sd - If(s, 1, 0) + pos           # column taken out at the target end, after that at the source end
    fs = [f_ for l, f_ in b.wf()] + [And(a.val == b.val, a.buf == b.buf, a.eqb == b.eqb, a.anr == b.anr, a.anc == b.anc, b.nr == a.nr, b.nc == a.nc - If(s, 1, 0) - If(t, 1, 0)),
                                     forall([i], Implies(And(0 <= i, i < a.nr), b.eq(i) == a.eq(i)), [b.eq(i)])]
    for w, col in ((And(Not(s), Not(t)), lambda j: j), (And(s, Not(t)), lambda j: rcol(j, pos)), (And(Not(s), t), lambda j: rcol(j, pt)), (And(s, t), lambda j: rcol(rcol(j, pt), pos))):
        fs += [forall([i, j], Implies(And(w, 0 <= i, i < a.nr, 0 <= j, j < b.nc), b.at(i, j) == a.at(i, col(j))), [b.at(i, j)])]
    return [("%s of %s (%d)" % (f, D0.which, k), q) for k, q in enumerate(lift(x_, D0.g(x_), fs, D0.dep(x_)))]


def rd_acc(a0, view, pos, done):
    a, b = a0.mat(x_), a0.mat(x_, view)
    i, j = z3.Ints("di dj")
    d = x_ < done
    fs = [And(a.val == b.val, a.anr == b.anr, a.anc == b.anc, b.nr == a.nr, b.nc == a.nc - If(d, 1, 0))] + [f_ for l, f_ in b.wf()]
    fs += [forall([i, j], Implies(And(w, 0 <= i, i < a.nr, 0 <= j, j < b.nc), b.at(i, j) == a.at(i, col(j))), [b.at(i, j)]) for w, col in ((Not(d), lambda j: j), (d, lambda j: rcol(j, pos)))]
    return [("%s (%d)" % (a0.which, k), q) for k, q in enumerate(lift(x_, a0.g(x_), fs, a0.acc(x_)))]


def rd_trans(s0, view, pos):
    a, b = s0.tr, Mat(view, s0.f("trans"))
    return [("schedule: " + l, f) for l, f in b.wf()] + [("schedule: extents", And(b.nr == a.nr, b.nc == a.nc - 1, a.val == b.val)), b.is_(lambda i, j: a.at(i, rcol(j, pos)), "schedule: columns")]


def rd_dom(s0, view, pos):
    a, b = Cst(s0.v, s0.f("domain")), Cst(view, s0.f("domain"))
    return [("domain: " + l, f) for l, f in b.wf()] + [("domain: extents", And(b.nr == a.nr, b.nc == a.nc - 1, a.val == b.val, a.buf == b.buf, a.eqb == b.eqb)), (lambda t: ("domain: " + t[0], t[1]))(b.is_(lambda i, j: a.at(i, rcol(j, pos)))), (lambda t: ("domain: " + t[0], t[1]))(b.kinds(a.eq))]


def rd_names(s0, s1, pos):
    return [("names move along", And(live(s1.v, s1.f("iterators")), LEN(s1.f("iterators")) >= 8 * s1.dim, forall([x_], Implies(And(0 <= x_, x_ < s0.dim - 1), it(s1, x_) == it(s0, rcol(x_, pos))), [it(s1, x_)])))]


def rd_marks(s0, s1, pos):
    return [("marks move along", And(live(s1.v, s1.f("is_orig_loop")), LEN(s1.f("is_orig_loop")) >= s1.dim, forall([x_], Implies(And(0 <= x_, x_ < s0.dim - 1), ol(s1, x_) == ol(s0, rcol(x_, pos))), [ol(s1, x_)])))]


def is_sys(c):
    """The systems that change: the domain and those of the dependences."""
    p, st = P(c), Stm(c.pre, c["stmt"])
    return lambda b: Or(b == Cst(c.pre, st.f("domain")).c, *[z3.Exists([y_], And(D.g(y_), D.d(f, y_) == b), patterns=[D.dep(y_)]) for D, f in fam(p)])


def is_mat(c):
    """The matrices that change: the schedule and those of the accesses."""
    st = Stm(c.pre, c["stmt"])
    return lambda b: Or(b == st.tr.m, *[z3.Exists([y_], And(a.g(y_), a.mb(y_) == b), patterns=[a.acc(y_)]) for a in accs(st)])


ISYS, IMAT = (z3.Function(n, I, z3.BoolSort()) for n in ("ISSYS", "ISMAT"))      # while verifying the function itself: these predicates on the initial state, by the definitions below


def preds(c):
    return (ISYS, IMAT) if c.vf.fname in ("pluto_stmt_remove_dim", "pluto_stmt_add_dim") and c.vf.argd is c.args else (is_sys(c), is_mat(c))


def pred_defs(c):
    """Everything that is to be in them is (proved for any such predicates, so for the least ones)."""
    st = Stm(c.pre, c["stmt"])
    return [ISYS(Cst(c.pre, st.f("domain")).c), IMAT(st.tr.m)] + [forall([x_], Implies(D.g(x_), ISYS(D.d(f, x_))), [D.dep(x_)]) for D, f in fam(P(c))] + [forall([x_], Implies(a.g(x_), IMAT(a.mb(x_))), [a.acc(x_)]) for a in accs(st)]


def rd_mods(c):
    st = Stm(c.pre, c["stmt"])
    sysb, matb = preds(c)
    own = c.pre.own
    one = [st.b]
    return {"f.pluto_constraints.ncols": sysb, "f.pluto_constraints.names": sysb, "c.i64": lambda b: Or(And(KINDF(b) == K(BUF), sysb(own(b))), And(KINDF(b) == K("i64"), matb(own(own(b))))), "c.i32": lambda b: And(KINDF(b) == K(EQ), sysb(own(b))),
            "f.pluto_matrix.ncols": matb, "f.statement.dim": one, "f.statement.iterators": one, "f.statement.is_orig_loop": one,
            "c.p.i8.b": [st.f("iterators")], "c.p.i8.o": [st.f("iterators")], "c.i8": [st.f("is_orig_loop")]}


def rd_frees(c):
    st = Stm(c.pre, c["stmt"])
    return lambda b: Or(b == st.f("iterators"), b == st.f("is_orig_loop"), b == it(st, c["pos"]))


def same_cells(va, vb, kind):
    b = z3.Int("sc")
    return forall([b], Implies(And(KINDF(b) == K(kind), b < va.nb), z3.Select(vb.key("c.i64"), b) == z3.Select(va.key("c.i64"), b)), [z3.Select(vb.key("c.i64"), b)])


def rd_inv(k):
    def f(L):
        s0, s1, p0 = Stm(L.pre, L["stmt"]), Stm(L.st, L["stmt"]), Prog(L.pre, L["prog"])
        pos = L["pos"]
        tab = lambda fn, s: (fn(s, x_))
        if k == 0:
            return [("i", And(pos <= L.i, L.i <= s0.dim - 1, s1.dim == s0.dim - 1)), ("names", forall([x_], Implies(And(0 <= x_, x_ < s0.dim), it(s1, x_) == it(s0, If(And(x_ >= pos, x_ < L.i), x_ + 1, x_))), [it(s1, x_)]))]
        if k == 1:
            return [("i", And(pos <= L.i, L.i <= s0.dim - 1, s1.dim == s0.dim - 1)), ("marks", forall([x_], Implies(And(0 <= x_, x_ < s0.dim), ol(s1, x_) == ol(s0, If(And(x_ >= pos, x_ < L.i), x_ + 1, x_))), [ol(s1, x_)]))]
        W, R = accs(s0)
        D, T = both(p0)
        if k in (2, 3):
            out = [("i", And(0 <= L.i, L.i <= (W if k == 2 else R).n)), ("systems keep their coefficients", same_cells(L.entry, L.st, BUF))] + rd_trans(s0, L.st, pos)
            return out + (rd_acc(W, L.st, pos, L.i) + rd_acc(R, L.st, pos, IV(0)) if k == 2 else rd_acc(W, L.st, pos, W.n) + rd_acc(R, L.st, pos, L.i))
        E = D if k == 4 else T
        out = [("i", And(0 <= L.i, L.i <= E.n)), ("matrices keep their entries", same_cells(L.entry, L.st, "i64"))] + rd_dom(s0, L.st, pos)
        for f_ in FLD:
            out += rd_poly(D, L.st, f_, s0, pos, L.i if k == 4 else D.n) + rd_poly(T, L.st, f_, s0, pos, IV(0) if k == 4 else L.i)
        return out
    return f


def rd_ens(c):
    s0, s1, p0, v = Stm(c.pre, c["stmt"]), Stm(c.post, c["stmt"]), P(c), c.post
    pos = c["pos"]
    out = [("one dimension fewer", s1.dim == s0.dim - 1)] + rd_dom(s0, v, pos) + rd_trans(s0, v, pos) + rd_names(s0, s1, pos) + rd_marks(s0, s1, pos)
    for a in accs(s0):
        out += rd_acc(a, v, pos, a.n)
    for D, f in fam(p0):
        out += rd_poly(D, v, f, s0, pos, D.n)
    return out


contract("pluto_stmt_remove_dim", props=("C07",), nloops=6, setup=pred_defs, requires=rd_req, modifies=rd_mods, frees=rd_frees, ensures=rd_ens, loops={k: rd_inv(k) for k in range(6)})


# ------------------------------------------------------------------ inserting a dimension
MV = "f.pluto_matrix.val"


def icol(at, i, j, p):
    """Entry (i, j) after a zero column has been inserted at p."""
    return If(j < p, at(i, j), If(j == p, 0, at(i, j - 1)))


def icol2(at, i, j, p, q):
    """The same for two columns, p < q."""
    return If(j < p, at(i, j), If(j == p, 0, If(j < q, at(i, j - 1), If(j == q, 0, at(i, j - 2)))))


def ad_hint(c):
    """A dependence of the statement on itself, once both columns are in."""
    if c.n not in (3, 4, 7, 8):
        return []
    D = both(P(c))[0 if c.n < 5 else 1]
    st, x, pos = Stm(c.pre, c["stmt"]), c.lv("i"), c["pos"]
    a, b = poly(D, FLD[(c.n + 1) % 2], x), Cst(c.post, c.call["cst"])
    i, j = z3.Ints("hi hj")
    s, t = occ(D, st, x)
    return [("both ends", forall([i, j], Implies(And(s, t, 0 <= i, i < a.nr, 0 <= j, j < a.nc + 2), b.at(i, j) == icol2(a.at, i, j, pos, st.dim + 1 + pos)), [b.at(i, j)]))]


def ad_req(c):
    st, p = Stm(c.pre, c["stmt"]), P(c)
    tp = c["time_pos"]
    sz = [("@size", And(st.tr.nc + 2 <= MAXD, st.tr.nr + 1 < MAXS, Cst(c.pre, st.f("domain")).nc + 1 <= MAXD))]
    sz += [("@size " + a.which, forall([x_], Implies(a.g(x_), a.mat(x_).nc + 2 <= MAXD), [a.acc(x_)])) for a in accs(st)]
    sz += [("@size " + D.which + f, forall([x_], Implies(D.g(x_), poly(D, f, x_).nc + 2 <= MAXD), [D.dep(x_)])) for D, f in fam(p)]
    return rd_req(c, False) + [ht_wf(st), ("schedule position", Or(tp == -1, And(0 <= tp, tp <= st.tr.nr)))] + sz


def same_or_new(pre, *prs):
    return And(*[Or(u == w, w >= pre.nb) for u, w in prs])


def ad_poly(D0, view, f, st, pos, done):
    a, b = poly(D0, f, x_), poly(D0, f, x_, view)
    s, t = occ(D0, st, x_)
    i, j = z3.Ints("di dj")
    sd = D0.p.s("dim", D0.d("src", x_))
    d = x_ < done
    s, t = And(s, d), And(t, d)
    pt = sd + If(s, 1, 0) + pos
    fs = [f_ for l, f_ in b.wf()] + [And(same_or_new(D0.v, (a.val, b.val), (a.buf, b.buf), (a.eqb, b.eqb)), b.nr == a.nr, b.nc == a.nc + If(s, 1, 0) + If(t, 1, 0)),
                                     forall([i], Implies(And(0 <= i, i < a.nr), b.eq(i) == a.eq(i)), [b.eq(i)])]
    for w, at in ((And(Not(s), Not(t)), a.at), (And(s, Not(t)), lambda i, j: icol(a.at, i, j, pos)), (And(Not(s), t), lambda i, j: icol(a.at, i, j, pt)), (And(s, t), lambda i, j: icol2(a.at, i, j, pos, pt))):
        fs += [forall([i, j], Implies(And(w, 0 <= i, i < a.nr, 0 <= j, j < b.nc), b.at(i, j) == at(i, j)), [b.at(i, j)])]
    return [("%s of %s (%d)" % (f, D0.which, k), q) for k, q in enumerate(lift(x_, D0.g(x_), fs, D0.dep(x_)))]


def ad_acc(a0, view, pos, done):
    a, b = a0.mat(x_), a0.mat(x_, view)
    i, j = z3.Ints("di dj")
    d = x_ < done
    fs = [And(b.nr == a.nr, b.nc == a.nc + If(d, 1, 0), Or(b.val == a.val, b.val >= a0.v.nb))] + [f_ for l, f_ in b.wf()]
    fs += [forall([i, j], Implies(And(w, 0 <= i, i < a.nr, 0 <= j, j < b.nc), b.at(i, j) == at(i, j)), [b.at(i, j)]) for w, at in ((Not(d), a.at), (d, lambda i, j: icol(a.at, i, j, pos)))]
    return [("%s (%d)" % (a0.which, k), q) for k, q in enumerate(lift(x_, a0.g(x_), fs, a0.acc(x_)))]


def ad_trans(s0, view, pos, tp):
    a, b = s0.tr, Mat(view, s0.f("trans"))
    col = lambda i, j: icol(a.at, i, j, pos)
    return [("schedule: " + l, f) for l, f in b.wf()] + [("schedule: extents", And(b.nr == a.nr + If(tp == -1, 0, 1), b.nc == a.nc + 1)),
            b.is_(lambda i, j: If(Or(tp == -1, i < tp), col(i, j), If(i == tp, If(j == pos, 1, 0), col(i - 1, j))), "schedule: rows and columns")]


def ad_dom(s0, view, pos):
    a, b = Cst(s0.v, s0.f("domain")), Cst(view, s0.f("domain"))
    w = lambda t: ("domain: " + t[0], t[1])
    return [("domain: " + l, f) for l, f in b.wf()] + [("domain: extents", And(b.nr == a.nr, b.nc == a.nc + 1, same_or_new(s0.v, (a.val, b.val), (a.buf, b.buf), (a.eqb, b.eqb)))), w(b.is_(lambda i, j: icol(a.at, i, j, pos))), w(b.kinds(a.eq))]


def ad_ht(s0, s1, tp, ty):
    n = s0.tr.nr
    return [ht_wf(s1), ("kinds of levels", forall([y_], Implies(And(0 <= y_, y_ < n + If(tp == -1, 0, 1)), ht(s1, y_) == If(Or(tp == -1, y_ < tp), ht(s0, y_), If(y_ == tp, ty, ht(s0, y_ - 1)))), [ht(s1, y_)]))]


def ad_names(s0, s1, pos, pre):
    return [("names move along", And(live(s1.v, s1.f("iterators")), LEN(s1.f("iterators")) >= 8 * s1.dim, it(s1, pos) >= pre.nb, forall([x_], Implies(And(0 <= x_, x_ <= s0.dim, x_ != pos), it(s1, x_) == it(s0, If(x_ < pos, x_, x_ - 1))), [it(s1, x_)])))]


def ad_marks(s0, s1, pos):
    return [("marks move along", And(live(s1.v, s1.f("is_orig_loop")), LEN(s1.f("is_orig_loop")) >= s1.dim, forall([x_], Implies(And(0 <= x_, x_ <= s0.dim), ol(s1, x_) == If(x_ == pos, 1, ol(s0, If(x_ < pos, x_, x_ - 1)))), [ol(s1, x_)])))]


def ad_mods(c):
    st = Stm(c.pre, c["stmt"])
    sysb, matb = preds(c)
    own, one = c.pre.own, [st.b]
    m = {"f.pluto_constraints." + f: sysb for f in ("val", "buf", "is_eq", "nrows", "ncols", "alloc_nrows", "alloc_ncols", "names")}
    m.update({"f.pluto_matrix." + f: matb for f in ("val", "nrows", "ncols", "alloc_nrows", "alloc_ncols")})
    table = lambda b: KINDF(b) == K(MV)
    own_ = lambda b: Or(KINDF(b) == K(MV), KINDF(own(b)) == K(MV))
    m.update({"c.i64": lambda b: Or(And(KINDF(b) == K(BUF), sysb(own(b))), KINDF(b) == K("i64")), "c.i32": lambda b: And(KINDF(b) == K(EQ), sysb(own(b))),
              "c.p.i64.b": table, "c.p.i64.o": table, "g.own": own_, "g.idx": own_,
              "f.statement.dim": one, "f.statement.iterators": one, "f.statement.is_orig_loop": one, "f.statement.hyp_types": one})
    return m


def ad_frees(c):
    st = Stm(c.pre, c["stmt"])
    sysb, matb = preds(c)
    return lambda b: Or(b == st.f("iterators"), b == st.f("is_orig_loop"), And(b != 0, b == st.f("hyp_types")), KINDF(b) == K(MV), KINDF(b) == K("i64"), And(Or(*[KINDF(b) == K(k) for k in (BUF, VAL, EQ)]), sysb(c.pre.own(b))))


def kept(va, vb, kinds, keys):
    """Blocks of these kinds are as they were."""
    b = z3.Int("kb")
    g = And(b > 0, b < va.nb, Or(*[KINDF(b) == K(k) for k in kinds]))
    out = []
    for k in keys:
        sa, sb = z3.Select(va.key(k), b), z3.Select(vb.key(k), b)
        out.append(("kept: " + k, forall([b], Implies(And(g, KINDF(sa) != K(MV)) if k == "g.own" and MV not in kinds else g, sa == sb), [sb])))
    return out


def ad_inv(k):
    def f(L):
        s0, s1, p0 = Stm(L.pre, L["stmt"]), Stm(L.st, L["stmt"]), Prog(L.pre, L["prog"])
        pos, tp = L["pos"], L["time_pos"]
        i = L.v("i")
        move = lambda new, old, n: forall([y_], Implies(And(0 <= y_, y_ <= n), And(Implies(y_ >= i + 2, new(y_) == old(y_ - 1)), Implies(And(y_ <= i + 1, y_ < n), new(y_) == old(y_)))), [new(y_)])
        if k == 0:
            return [("i", And(i >= pos - 1, i <= s0.dim - 1, s1.dim == s0.dim + 1, s1.f("iterators") >= L.pre.nb)), ("names", move(lambda y: it(s1, y), lambda y: it(s0, y), s0.dim))]
        if k == 1:
            return [("i", And(i >= tp - 1, i <= s0.tr.nr - 1, s1.tr.nr == s0.tr.nr + 1, s1.f("hyp_types") >= L.pre.nb)), ht_wf(s1), ("kinds", move(lambda y: ht(s1, y), lambda y: ht(s0, y), s0.tr.nr))] + kept(L.entry, L.st, (EQ,), ("c.i32",))
        if k == 2:
            return [("i", And(i >= pos - 1, i <= s0.dim - 1, s1.dim == s0.dim + 1, s1.f("is_orig_loop") >= L.pre.nb, Not(L.st.freed(s1.f("iterators"))), Or(s1.f("hyp_types") == 0, Not(L.st.freed(s1.f("hyp_types")))))), ("marks", move(lambda y: ol(s1, y), lambda y: ol(s0, y), s0.dim))]
        W, R = accs(s0)
        D, T = both(p0)
        alive = [("tables live", And(*[Not(L.st.freed(s1.f(n))) for n in ("iterators", "is_orig_loop")], Or(s1.f("hyp_types") == 0, Not(L.st.freed(s1.f("hyp_types"))))))]
        if k in (3, 4):
            out = alive + [("i", And(0 <= i, i <= (W if k == 3 else R).n))] + kept(L.entry, L.st, (BUF, VAL, EQ, C, IT, OL, HT, "i8"), ("c.i64", "c.p.i64.b", "c.p.i64.o", "g.own", "freed")) + ad_trans(s0, L.st, pos, tp)
            return out + (ad_acc(W, L.st, pos, i) + ad_acc(R, L.st, pos, IV(0)) if k == 3 else ad_acc(W, L.st, pos, W.n) + ad_acc(R, L.st, pos, i))
        E = D if k == 5 else T
        out = alive + [("i", And(0 <= i, i <= E.n))] + kept(L.entry, L.st, ("i64", MV, "pluto_matrix", IT, OL, HT, "i8"), ("c.i64", "c.i32", "c.p.i64.b", "c.p.i64.o", "g.own", "g.idx", "freed")) + ad_dom(s0, L.st, pos)
        for f_ in FLD:
            out += ad_poly(D, L.st, f_, s0, pos, i if k == 5 else D.n) + ad_poly(T, L.st, f_, s0, pos, IV(0) if k == 5 else i)
        return out
    return f


def ad_ens(c):
    s0, s1, p0, v = Stm(c.pre, c["stmt"]), Stm(c.post, c["stmt"]), P(c), c.post
    pos, tp = c["pos"], c["time_pos"]
    out = [("one dimension more", s1.dim == s0.dim + 1)] + ad_dom(s0, v, pos) + ad_trans(s0, v, pos, tp) + ad_ht(s0, s1, tp, c["hyp_type"]) + ad_names(s0, s1, pos, c.pre) + ad_marks(s0, s1, pos)
    for a in accs(s0):
        out += ad_acc(a, v, pos, a.n)
    for D, f in fam(p0):
        out += ad_poly(D, v, f, s0, pos, D.n)
    return out


contract("pluto_stmt_add_dim", props=("C07",), nloops=7, setup=pred_defs, requires=ad_req, modifies=ad_mods, frees=ad_frees, ensures=ad_ens, loops={k: ad_inv(k) for k in range(7)},
         hints={"pluto_constraints_add_dim": ad_hint})
