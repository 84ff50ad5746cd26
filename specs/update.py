"""Contract for lib/pluto.c: pluto_update_deps (C08): constraints on a statement's iterators are added to every dependence at the end(s) where the statement occurs."""
from base import *
from cons import Cst, C
from ddg import Prog
from stmts import prog_stmts, live, P, ST, x_, y_, MAXS
from deps import lift

BUF, VAL, EQ = ("f.pluto_constraints." + n for n in ("buf", "val", "is_eq"))


class Deps:
    """One of the two tables of dependences of a program."""

    def __init__(self, p, which):
        self.p, self.v, self.which = p, p.v, which
        f = lambda n: p.v.f("plutoProg", n, p.b, IV(0))
        self.tab, self.n = (f("deps"), f("ndeps")) if which == "deps" else (f("transdeps"), f("ntransdeps"))

    def dep(self, x):
        return self.v.cell("c.p.dependence.b", self.tab, x)

    def d(self, fld, x):
        return self.v.f("dependence", fld, self.dep(x), IV(0))

    def poly(self, x):
        return Cst(self.v, self.d("dpolytope", x))

    def end(self, e, x):
        return prog_stmts(self.p).s(self.d(e, x))

    def g(self, x):
        return And(0 <= x, x < self.n)


def both(p):
    return Deps(p, "deps"), Deps(p, "transdeps")


ISP = z3.Function("ISPOLY", I, z3.BoolSort())    # while verifying the function itself: is_poly of the initial state, by its definition below


def isp_def(c):
    b = z3.Int("pb")
    return [forall([x_], Implies(D.g(x_), ISP(D.d("dpolytope", x_))), [D.dep(x_)]) for D in both(P(c))] + [forall([b], Implies(ISP(b), is_poly(P(c))(b)), [ISP(b)])]


def isp(c):
    return ISP if c.vf.fname == "pluto_update_deps" and c.vf.argd is c.args else is_poly(P(c))


def polys_old(L):
    """What follows from the definition for every such block."""
    b, m = z3.Int("pb"), Cst(L.pre, L["cst"])
    return [("polyhedra are old systems other than the added one", forall([b], Implies(ISP(b), And(b > 0, b < L.pre.nb, b != m.c, KINDF(b) == K(C))), [ISP(b)]))]


def is_poly(p):
    """b is the polyhedron of a dependence of the program"""
    return lambda b: Or(*[z3.Exists([y_], And(D.g(y_), D.d("dpolytope", y_) == b), patterns=[D.dep(y_)]) for D in both(p)])


def ud_req(c):
    p, m, s = P(c), Cst(c.pre, c["cst"]), prog_stmts(P(c))
    v = c.pre
    st = Stmt_(c)
    out = [("program", And(live(v, p.b), LEN(p.b) >= sizeof(v, "plutoProg"), KINDF(p.b) == K("plutoProg"), p.npar >= 0, p.npar <= MAXS, p.ns >= 0, p.ns <= MAXS)),
           ("statements", And(Or(p.ns == 0, And(live(v, p.stmts), LEN(p.stmts) >= 8 * p.ns)))),
           ("every statement", forall([x_], Implies(And(0 <= x_, x_ < p.ns), And(live(v, p.stmt(x_)), LEN(p.stmt(x_)) >= sizeof(v, ST), KINDF(p.stmt(x_)) == K(ST), s.s(x_).dim >= 0, s.s(x_).dim <= MAXS)), [p.stmt(x_)])),
           ("statement", And(live(v, st.b), LEN(st.b) >= sizeof(v, ST), KINDF(st.b) == K(ST), st.dim >= 0, st.dim <= MAXS))]
    no = lambda b: And(*[KINDF(b) != K(k) for k in (BUF, VAL, EQ)])
    out += [("tables are no storage of systems", And(no(p.stmts), *[And(no(E.tab), forall([x_], Implies(E.g(x_), no(E.dep(x_))), [E.dep(x_)])) for E in both(p)]))]
    out += [("constraints: " + l, f) for l, f in m.wf()]
    dom = Cst(v, st.f("domain"))
    out += [("domain", And(live(v, dom.c), LEN(dom.c) >= sizeof(v, C), dom.nc == m.nc)), ("columns", m.nc == st.dim + p.npar + 1)]
    D, T = both(p)
    for E in (D, T):
        a = E.poly(x_)
        fs = [And(live(v, E.dep(x_)), LEN(E.dep(x_)) >= sizeof(v, "dependence"), *[And(0 <= E.d(e, x_), E.d(e, x_) < p.ns) for e in ("src", "dest")]),
              a.c != m.c, a.nc == E.end("src", x_).dim + E.end("dest", x_).dim + p.npar + 1] + [f for l, f in a.wf()]
        out += [(E.which + " table", And(E.n >= 0, E.n <= MAXS, Or(E.n == 0, And(live(v, E.tab), LEN(E.tab) >= 8 * E.n))))]
        out += [("every one of %s (%d)" % (E.which, k), f) for k, f in enumerate(lift(x_, E.g(x_), fs, E.dep(x_)))]
        out += [(E.which + ": polyhedra are distinct", forall([x_, y_], Implies(And(0 <= x_, x_ < y_, y_ < E.n), E.d("dpolytope", x_) != E.d("dpolytope", y_)), [[E.dep(x_), E.dep(y_)]])),
                ("@size " + E.which, forall([x_], Implies(E.g(x_), And(a.nr + 2 * m.nr <= MAXD, a.nc <= MAXD, m.nc + a.nc <= MAXD)), [E.dep(x_)]))]
    out += [("polyhedra of the tables are distinct", forall([x_, y_], Implies(And(D.g(x_), T.g(y_)), D.d("dpolytope", x_) != T.d("dpolytope", y_)), [[D.dep(x_), T.dep(y_)]]))]
    return out


def Stmt_(c):
    from stmts import Stm
    return Stm(c.pre, c["stmt"])


def expect(E, m, st, x, done, half):
    """(rows, coefficient, kind) of the polyhedron of dependence x once the first `done` are complete (and, with half, the source end of number `done`)."""
    a = E.poly(x)
    sd, td = E.end("src", x).dim, E.end("dest", x).dim
    at_end = lambda e: E.end(e, x).b == st.b
    s = And(at_end("src"), Or(x < done, And(x == done, half)))
    t = And(at_end("dest"), x < done)
    k = If(s, m.nr, 0)
    nr = a.nr + k + If(t, m.nr, 0)
    src = lambda r, j: If(j < st.dim, m.at(r, j), If(j < st.dim + td, 0, m.at(r, j - td)))
    dst = lambda r, j: If(j < sd, 0, m.at(r, j - sd))
    n1 = a.nr + k
    return nr, [(lambda i: i < a.nr, a.at, a.eq), (lambda i: And(s, a.nr <= i, i < n1), lambda i, j: src(i - a.nr, j), lambda i: m.eq(i - a.nr)),
                (lambda i: And(t, n1 <= i), lambda i, j: dst(i - n1, j), lambda i: m.eq(i - n1))]


def state(E0, E1, m, st, done, half):
    """The table E (E0 initially, E1 now) has the first `done` updated."""
    a, b = E0.poly(x_), Cst(E1.v, E0.d("dpolytope", x_))
    nr, parts = expect(E0, m, st, x_, done, half)
    i, j = z3.Ints("ui uj")
    g = E0.g(x_)
    fs = [f for l, f in b.wf()] + [b.nr == nr, b.nc == a.nc, *[Or(u == w, w >= E0.v.nb) for u, w in ((a.val, b.val), (a.buf, b.buf), (a.eqb, b.eqb))]]
    fs += [forall([i, j], Implies(And(0 <= i, i < b.nr, w(i), 0 <= j, j < b.nc), b.at(i, j) == at(i, j)), [b.at(i, j)]) for w, at, eq in parts]
    fs += [forall([i], Implies(And(0 <= i, i < b.nr, w(i)), b.eq(i) == eq(i)), [b.eq(i)]) for w, at, eq in parts]
    return [("%s (%d)" % (E0.which, k), f) for k, f in enumerate(lift(x_, g, fs, E0.dep(x_)))]


def untouched(E0, va, vb):
    """The polyhedra of the table are, in vb, as they were in va."""
    a, b = Cst(va, E0.d("dpolytope", x_)), Cst(vb, E0.d("dpolytope", x_))
    same = [z3.Select(vb.key(k), s) == z3.Select(va.key(k), s) for k, s in (("c.i64", a.buf), ("c.i32", a.eqb), ("c.p.i64.b", a.val), ("c.p.i64.o", a.val))]
    return [(E0.which + " untouched: " + l, forall([x_], Implies(E0.g(x_), f), [E0.dep(x_)])) for l, f in (
        ("fields", And(a.val == b.val, a.buf == b.buf, a.eqb == b.eqb, a.nr == b.nr, a.nc == b.nc, a.anr == b.anr, a.anc == b.anc, a.names == b.names, a.next == b.next)),
        ("contents", And(*same)), ("live", And(*[Not(vb.freed(s)) for s in (a.c, a.val, a.buf, a.eqb)])), ("owners", And(*[vb.own(s) == a.c for s in (a.val, a.buf, a.eqb)])))]


def ud_mods(c):
    ip = isp(c)
    d = {"f.%s.%s" % (C, f): ip for f in ("val", "buf", "is_eq", "nrows", "ncols", "alloc_nrows", "alloc_ncols", "names")}
    d["c.i64"] = lambda b: And(KINDF(b) == K(BUF), ip(c.pre.own(b)))
    d["c.i32"] = lambda b: And(KINDF(b) == K(EQ), ip(c.pre.own(b)))
    return d


def ud_frees(c):
    ip = isp(c)
    return lambda b: And(Or(*[KINDF(b) == K(k) for k in (BUF, VAL, EQ)]), ip(c.pre.own(b)))


def ud_inv(k):
    def f(L):
        p0, p1 = Prog(L.pre, L["prog"]), Prog(L.st, L["prog"])
        (D0, T0), (D1, T1) = both(p0), both(p1)
        m, st = Cst(L.pre, L["cst"]), Stmt_(L)
        inner = k % 3 != 0
        i = L.up() if inner else L.i
        half = z3.BoolVal(k % 3 == 2)
        first = k < 3
        E0 = D0 if first else T0
        top = L.upentry() if inner else L.entry
        out = state(E0, D1 if first else T1, m, st, i, half) + (untouched(T0, L.pre, L.st) if first else untouched(D0, top, L.st))
        out = polys_old(L) + out + [("i", And(0 <= i, i <= E0.n))]
        if inner:
            l = Cst(L.st, L.vu("cst_l"))
            e = "dest" if k % 3 == 1 else "src"
            o = E0.end(e, i).dim
            pos = st.dim if k % 3 == 1 else IV(0)
            out += [("copy: " + n, f_) for n, f_ in l.wf()] + [
                ("copy is new", And(*[b >= L.pre.nb for b in (l.c, l.val, l.buf, l.eqb)])), ("c", And(0 <= L.i, L.i <= o, i < E0.n)),
                ("copy: extents", And(l.nr == m.nr, l.nc == m.nc + L.i)),
                ("copy is no polyhedron", And(*[forall([x_], Implies(E.g(x_), E.d("dpolytope", x_) != l.c), [E.dep(x_)]) for E in (D0, T0)])),
                l.is_(lambda r, j: If(j < pos, m.at(r, j), If(j < pos + L.i, 0, m.at(r, j - L.i)))), l.kinds(lambda r: m.eq(r))]
        return out
    return f


def ud_ens(c):
    p0, p1 = P(c), P(c, view=c.post)
    m, st = Cst(c.pre, c["cst"]), Stmt_(c)
    out = []
    for E0, E1 in zip(both(p0), both(p1)):
        out += state(E0, E1, m, st, E0.n, z3.BoolVal(False))
    return out


def ud_hint(c):
    """After adding to a dependence: the state of its table."""
    p0, p1 = P(c), P(c, view=c.post)
    i = c.lv("i")
    w = 0 if c.n < 2 else 1
    k, a, s = Cst(c.post, c.call["cst1"]), Cst(c.cpre, c.call["cst1"]), Cst(c.cpre, c.call["cst2"])
    E0, m, st = both(p0)[w], Cst(c.pre, c["cst"]), Stmt_(c)
    u, j = z3.Ints("hi hj")
    nr, parts = expect(E0, m, st, i, i if c.n % 2 == 0 else i + 1, z3.BoolVal(c.n % 2 == 0))
    out = [("this one's extents", And(k.nr == nr, k.nc == E0.poly(i).nc))]
    for n, (q, at, eq) in enumerate(parts):
        out += [("this one's rows (%d)" % n, forall([u, j], Implies(And(0 <= u, u < k.nr, q(u), 0 <= j, j < k.nc), k.at(u, j) == at(u, j)), [k.at(u, j)])),
                ("this one's kinds (%d)" % n, forall([u], Implies(And(0 <= u, u < k.nr, q(u)), k.eq(u) == eq(u)), [k.eq(u)]))]
    return out + state(both(p0)[w], both(p1)[w], Cst(c.pre, c["cst"]), Stmt_(c), i if c.n % 2 == 0 else i + 1, z3.BoolVal(c.n % 2 == 0))


contract("pluto_update_deps", props=("C08",), nloops=6, setup=isp_def, requires=ud_req, modifies=ud_mods, frees=ud_frees, ensures=ud_ens, loops={k: ud_inv(k) for k in range(6)},
         hints={"pluto_constraints_add": ud_hint})
