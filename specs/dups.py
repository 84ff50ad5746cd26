"""Contracts for copies of dependences and accesses (C14: index set splitting hands each piece its own copy): lib/program.cpp."""
from base import *
from matrix import Mat
from cons import Cst
from stmts import live, ST, Stm, x_, y_, MAXS
from deps import lift
from program import ht, HT
from dims import Accs, accs, it, ol, IT, OL

DF = "dependence"
ALWAYS, OPTIONAL = ("dpolytope", "bounding_poly"), ("src_unique_dpolytope", "depsat_poly", "cst", "bounding_cst")
PLAIN = ("id", "src", "dest", "src_acc", "dest_acc", "type", "satisfied", "satisfaction_level")


def sub(v, p, f):
    return Cst(v, v.f(DF, f, p))


def dd_req(c):
    v, d = c.pre, c["d"]
    out = [("a dependence", And(live(v, d.blk), d.off == 0, KINDF(d.blk) == K(DF), LEN(d.blk) >= sizeof(v, DF))), ("flag", Or(v.f(DF, "satisfied", d) == 0, v.f(DF, "satisfied", d) == 1))]
    for f in ALWAYS:
        out += [("%s: %s" % (f, l), x) for l, x in sub(v, d, f).wf()]
    for f in OPTIONAL:
        out += [("%s, if any: %s" % (f, l), Implies(v.f(DF, f, d) != 0, x)) for l, x in sub(v, d, f).wf()]
    return out


def same(a, b):
    return b.wf() + [("extents", And(b.nr == a.nr, b.nc == a.nc)), b.is_(lambda i, j: a.at(i, j)), b.kinds(lambda i: a.eq(i))]


def dd_ens(c):
    d, r = c["d"], c.ret
    out = [("a new dependence", And(r.blk >= c.pre.nb, r.off == 0, live(c.post, r.blk), KINDF(r.blk) == K(DF), LEN(r.blk) >= sizeof(c.post, DF)))]
    out += [("%s is kept" % f, c.post.f(DF, f, r) == c.pre.f(DF, f, d)) for f in PLAIN]
    new = []
    for f in ALWAYS + OPTIONAL:
        a, b = sub(c.pre, d, f), sub(c.post, r, f)
        has = True if f in ALWAYS else c.pre.f(DF, f, d) != 0
        out += [("copy of %s: %s" % (f, l), Implies(has, x)) for l, x in same(a, b) + b.fresh_from(c.pre)]
        if f in OPTIONAL:
            out += [("no %s stays none" % f, Implies(c.pre.f(DF, f, d) == 0, c.post.f(DF, f, r) == 0))]
        new.append(b)
    out += [("the copies share no storage", And(*[Implies(a.c != 0, Implies(b.c != 0, And(a.c != b.c, a.buf != b.buf, a.val != b.val, a.eqb != b.eqb))) for i, a in enumerate(new) for b in new[:i]]))]
    out += [("levels are to be computed afresh", And(c.post.f(DF, "satvec", r) == 0, c.post.f(DF, "dirvec", r) == 0))]
    return out


contract("pluto_dep_dup", props=("C14",), nloops=0, requires=dd_req, ensures=dd_ens)

AF = "pluto_access"


def ad_req(c):
    v, a = c.pre, c["acc"]
    return [("an access", And(live(v, a.blk), a.off == 0, KINDF(a.blk) == K(AF), LEN(a.blk) >= sizeof(v, AF)))] + [("its function: " + l, x) for l, x in Mat(v, v.f(AF, "mat", a)).wf()]


def ad_ens(c):
    a, b = Mat(c.pre, c.pre.f(AF, "mat", c["acc"])), Mat(c.post, c.post.f(AF, "mat", c.ret))
    return [("a new access", And(c.ret.blk >= c.pre.nb, c.ret.off == 0, live(c.post, c.ret.blk), KINDF(c.ret.blk) == K(AF), LEN(c.ret.blk) >= sizeof(c.post, AF))), ("same array", c.post.f(AF, "sym_id", c.ret) == c.pre.f(AF, "sym_id", c["acc"])),
            ("extents", And(b.nr == a.nr, b.nc == a.nc)), b.is_(a.at)] + [("its function: " + l, x) for l, x in b.wf() + b.fresh_from(c.pre)]


contract("pluto_access_dup", props=("C14",), nloops=0, requires=ad_req, ensures=ad_ens)


# ------------------------------------------------------------------ statements
def sa_req(c):
    v = c.pre
    return [("dimensions", And(c["dim"] >= 0, c["dim"] <= MAXS))] + [("schedule: " + l, f) for l, f in Mat(v, c["trans"]).wf()] + \
        [("domain, if any: " + l, Implies(c["domain"].blk != 0, f)) for l, f in Cst(v, c["domain"]).wf()]


def new_stmt(v, pre, s, dim, dom, tr):
    """Statement s of state v is new, has dim dimensions and copies of the domain and schedule given."""
    d = Cst(v, s.f("domain"))
    out = [("new statement", And(s.b >= pre.nb, live(v, s.b), LEN(s.b) >= sizeof(v, ST), KINDF(s.b) == K(ST), s.dim == dim)),
           ("schedule's extents", And(s.tr.nr == tr.nr, s.tr.nc == tr.nc)), s.tr.is_(tr.at, "schedule")] + [("schedule: " + l, f) for l, f in s.tr.wf() + s.tr.fresh_from(pre)]
    out += [("domain: " + l, Implies(dom.c != 0, f)) for l, f in same(dom, d) + d.fresh_from(pre)] + [("no domain stays none", Implies(dom.c == 0, d.c == 0))]
    ht_, it_, ol_ = s.f("hyp_types"), s.f("iterators"), s.f("is_orig_loop")
    out += [("row kinds' table", And(live(v, ht_), ht_ >= pre.nb, LEN(ht_) >= 4 * tr.nr, KINDF(ht_) == K(HT)))]
    return out


def tables(v, pre, s, dim):
    it_, ol_ = s.f("iterators"), s.f("is_orig_loop")
    return [(l, Implies(dim >= 1, f)) for l, f in (("table of names", And(live(v, it_), it_ >= pre.nb)), ("table of names' size", LEN(it_) >= 8 * dim), ("table of names' kind", KINDF(it_) == K(IT)),
                                                  ("table of marks", And(live(v, ol_), ol_ >= pre.nb)), ("table of marks' size", LEN(ol_) >= dim), ("table of marks' kind", KINDF(ol_) == K(OL)))] + [
            ("none without dimensions", Implies(dim == 0, And(it_ == 0, ol_ == 0)))]


def sa_parts(c, v):
    return Cst(c.pre, c["domain"]), Mat(c.pre, c["trans"])


def sa_inv(k):
    def f(L):
        s = Stm(L.st, L.v("stmt"))
        dom, tr = sa_parts(L, L.pre)
        out = new_stmt(L.st, L.pre, s, L["dim"], dom, tr)
        if k == 0:
            return out + [("i", And(0 <= L.i, L.i <= tr.nr)), ("kinds so far", forall([x_], Implies(And(0 <= x_, x_ < L.i), ht(s, x_) == 1), [ht(s, x_)]))]
        return out + tables(L.st, L.pre, s, L["dim"]) + [("i", And(0 <= L.i, L.i <= L["dim"])), ("names so far", forall([x_], Implies(And(0 <= x_, x_ < L.i), it(s, x_) == 0), [it(s, x_)])),
                                                         ("kinds", forall([x_], Implies(And(0 <= x_, x_ < tr.nr), ht(s, x_) == 1), [ht(s, x_)]))]
    return f


def sa_ens(c):
    s = Stm(c.post, c.ret)
    dom, tr = sa_parts(c, c.pre)
    return new_stmt(c.post, c.pre, s, c["dim"], dom, tr) + tables(c.post, c.pre, s, c["dim"]) + [
        ("at the start of its block", c.ret.off == 0), ("original dimensions", s.f("dim_orig") == c["dim"]),
        ("no accesses yet", And(s.f("nreads") == 0, s.f("nwrites") == 0, s.f("reads") == 0, s.f("writes") == 0)),
        ("loop rows", forall([x_], Implies(And(0 <= x_, x_ < tr.nr), ht(s, x_) == 1), [ht(s, x_)])),
        ("no names yet", forall([x_], Implies(And(0 <= x_, x_ < c["dim"]), it(s, x_) == 0), [it(s, x_)])),
        ("nothing evicted, no tiles, not numbered", And(s.f("evicted_hyp") == 0, s.f("evicted_hyp_pos") == -1, s.f("num_tiled_loops") == 0, s.f("first_tile_dim") == 0, s.f("last_tile_dim") == -1, s.id == -1, s.f("ploop_id") == -1, s.f("text") == 0))]


contract("pluto_stmt_alloc", props=("C14",), nloops=2, requires=sa_req, ensures=sa_ens, loops={0: sa_inv(0), 1: sa_inv(1)})


def old(c):
    """The statement that is copied (in the initial state)."""
    s = Stm(c.pre, c["stmt"])
    return s, Cst(c.pre, s.f("domain"))


def sd_req(c):
    v = c.pre
    s, dom = old(c)
    out = s.wf() + [("domain, if any: " + l, Implies(dom.c != 0, f)) for l, f in dom.wf()]
    out += [("at the start of its block", c["stmt"].off == 0), ("row kinds", And(live(v, s.f("hyp_types")), LEN(s.f("hyp_types")) >= 4 * s.tr.nr)),
            ("tables of the dimensions", Implies(s.dim >= 1, And(live(v, s.f("iterators")), LEN(s.f("iterators")) >= 8 * s.dim, live(v, s.f("is_orig_loop")), LEN(s.f("is_orig_loop")) >= s.dim))),
            ("names", forall([x_], Implies(And(0 <= x_, x_ < s.dim), And(live(v, it(s, x_)), v.cell("c.p.i8.o", s.f("iterators"), x_) == 0)), [it(s, x_)])),
            ("marks", forall([x_], Implies(And(0 <= x_, x_ < s.dim), Or(ol(s, x_) == 0, ol(s, x_) == 1)), [ol(s, x_)]))]
    for a in accs(s):
        m = a.mat(x_)
        out += [(a.which + " table", And(a.n >= 0, a.n <= MAXS, Or(a.n == 0, And(live(v, a.tab), LEN(a.tab) >= 8 * a.n))))]
        fs = [And(live(v, a.acc(x_)), KINDF(a.acc(x_)) == K(AF), LEN(a.acc(x_)) >= sizeof(v, AF))] + [f for l, f in m.wf()]
        out += [("every one of the %s (%d)" % (a.which, k), f) for k, f in enumerate(lift(x_, a.g(x_), fs, a.acc(x_)))]
    return out


def sd_names(s0, s1, n, pre):
    v = s1.v
    return [("names", forall([x_], Implies(And(0 <= x_, x_ < n), And(live(v, it(s1, x_)), it(s1, x_) >= pre.nb)), [it(s1, x_)])),
            ("marks", forall([x_], Implies(And(0 <= x_, x_ < n), ol(s1, x_) == ol(s0, x_)), [ol(s1, x_)]))]


def sd_kinds(s0, s1, n):
    return [("row kinds", forall([x_], Implies(And(0 <= x_, x_ < n), ht(s1, x_) == ht(s0, x_)), [ht(s1, x_)]))]


def sd_accs(a0, a1, n, pre):
    """The first n accesses have been copied."""
    v = a1.v
    i, j = z3.Ints("i j")
    m0, m1 = a0.mat(x_), a1.mat(x_)
    g = And(0 <= x_, x_ < n)
    fs = [And(live(v, a1.acc(x_)), a1.acc(x_) >= pre.nb, KINDF(a1.acc(x_)) == K(AF), LEN(a1.acc(x_)) >= sizeof(v, AF), v.f(AF, "sym_id", a1.acc(x_), IV(0)) == pre.f(AF, "sym_id", a0.acc(x_), IV(0)), m1.nr == m0.nr, m1.nc == m0.nc)]
    fs += [f for l, f in m1.wf() + m1.fresh_from(pre)]
    out = [("copies of the %s (%d)" % (a0.which, k), f) for k, f in enumerate(lift(x_, g, fs, a1.acc(x_)))]
    out += [("functions of the " + a0.which, forall([x_, i, j], Implies(And(g, 0 <= i, i < m0.nr, 0 <= j, j < m0.nc), m1.at(i, j) == m0.at(i, j)), [m1.at(i, j)])),
            (a0.which + " are distinct", forall([x_, y_], Implies(And(0 <= x_, x_ < y_, y_ < n), a1.acc(x_) != a1.acc(y_)), [[a1.acc(x_), a1.acc(y_)]]))]
    return out


def sd_state(c, v, s1, kinds, names, reads, writes):
    s0, dom = old(c)
    out = new_stmt(v, c.pre, s1, s0.dim, dom, s0.tr) + tables(v, c.pre, s1, s0.dim) + [("dimensions and kind", And(s1.f("dim_orig") == s0.f("dim_orig"), s1.type == s0.type))]
    out += sd_kinds(s0, s1, kinds) + sd_names(s0, s1, names, c.pre)
    if reads is None:
        return out
    (w0, r0), (w1, r1) = accs(s0), accs(s1)
    out += [("numbers of accesses", And(w1.n == w0.n, r1.n == r0.n)), ("new tables", And(*[Or(a.n == 0, And(live(v, a.tab), a.tab >= c.pre.nb, LEN(a.tab) >= 8 * a.n)) for a in (w1, r1)])), ("own tables", w1.tab != r1.tab)]
    return out + sd_accs(r0, r1, reads, c.pre) + sd_accs(w0, w1, writes, c.pre)


def sd_inv(k):
    def f(L):
        s1, (s0, dom) = Stm(L.st, L.v("nstmt")), old(L)
        n = [s0.tr.nr, s0.dim, s0.f("nreads"), s0.f("nwrites")]
        return [("i", And(0 <= L.i, L.i <= n[k]))] + sd_state(L, L.st, s1, L.i if k == 0 else n[0], IV(0) if k == 0 else L.i if k == 1 else n[1], None if k < 2 else L.i if k == 2 else n[2], IV(0) if k == 2 else L.i)
    return f


def sd_ens(c):
    s1, (s0, dom) = Stm(c.post, c.ret), old(c)
    return [("at the start of its block", c.ret.off == 0)] + sd_state(c, c.post, s1, s0.tr.nr, s0.dim, s0.f("nreads"), s0.f("nwrites")) + [
        ("nothing evicted, no tiles, not numbered", And(s1.f("evicted_hyp") == 0, s1.f("evicted_hyp_pos") == -1, s1.f("num_tiled_loops") == 0, s1.f("first_tile_dim") == 0, s1.f("last_tile_dim") == -1, s1.id == -1))]


contract("pluto_stmt_dup", props=("C14",), nloops=4, requires=sd_req, ensures=sd_ens, loops={k: sd_inv(k) for k in range(4)})
