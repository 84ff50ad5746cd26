"""Contracts for lib/ddg.c and the dependence-graph part of lib/pluto.c (C06)."""
from base import *
from matrix import Mat

G = "graph"


class Gr:
    """A dependence graph as seen in a state."""

    def __init__(self, view, p):
        self.v, self.p = view, p
        self.g = blk(p)
        f = lambda n: view.f(G, n, self.g, IV(0))
        self.n, self.vs, self.sccs, self.nscc, self.ncc = f("nVertices"), f("vertices"), f("sccs"), f("num_sccs"), f("num_ccs")
        self.adj = Mat(view, f("adj"))

    def e(self, i, j):
        return self.adj.at(i, j)

    def vx(self, fld, i):
        return self.v.f("vertex", fld, self.vs, i)

    def sc(self, fld, i):
        return self.v.f("scc", fld, self.sccs, i)

    def wf(self):
        v = self.v
        live = lambda b, k: And(b > 0, b < v.nb, Not(v.freed(b)), KINDF(b) == K(k))
        return [("graph block", And(live(self.g, G), LEN(self.g) >= sizeof(v, G), v.f(G, "context", self.g, IV(0)) != 0)),
                ("vertices", And(live(self.vs, "vertex"), LEN(self.vs) >= sizeof(v, "vertex") * self.n)),
                ("components", And(live(self.sccs, "scc"), LEN(self.sccs) >= sizeof(v, "scc") * self.n)),
                ("number of vertices", And(self.n >= 0, self.n <= MAXD, self.adj.nr == self.n, self.adj.nc == self.n))
                ] + [("adjacency: " + l, f) for l, f in self.adj.wf()]

    def fresh_from(self, pre):
        return [("fresh graph", And(self.g >= pre.nb, self.vs >= pre.nb, self.sccs >= pre.nb))] + self.adj.fresh_from(pre)

    def edges(self, fn, lbl="edges"):
        i, j = z3.Ints("i j")
        return (lbl, forall([i, j], Implies(And(0 <= i, i < self.n, 0 <= j, j < self.n), self.e(i, j) == fn(i, j)), [self.e(i, j)]))

    def verts(self, fld, fn, lbl):
        i = z3.Int("i")
        return (lbl, forall([i], Implies(And(0 <= i, i < self.n), self.vx(fld, i) == fn(i)), [self.vx(fld, i)]))


def gwf(c, n="g"):
    return [("graph: " + l, f) for l, f in Gr(c.pre, c[n]).wf()]


def grow(c, n="g"):
    return {"c.i64": Gr(c.pre, c[n]).adj.rows()}


def rows2(n, a, i, j, new, old):
    """entry (a,b) of a matrix filled row by row up to row i, column j"""
    return lambda x, y: If(Or(x < i, And(x == i, y < j)), new(x, y), old(x, y))


# ------------------------------------------------------------------ alloc, free
def alloc_ens(c):
    b = Gr(c.post, c.ret)
    return b.wf() + b.fresh_from(c.pre) + [
        ("as many vertices as asked for", b.n == c["nVertices"]), b.edges(lambda i, j: IV(0), "no edges"), b.verts("id", lambda i: i, "vertex numbers"),
        b.verts("vn", lambda i: IV(-1), "vertex not visited"), b.verts("fn", lambda i: IV(-1), "vertex not finished"),
        ("components not computed", And(b.nscc == -1, b.ncc == -1)), ("context", c.post.f(G, "context", c.ret) == c["context"].blk)]


def alloc_l0(L):
    b = Gr(L.st, L.v("g"))
    return [("ids", forall([x_], Implies(And(0 <= x_, x_ < L.i), b.vx("id", x_) == x_), [b.vx("id", x_)])), ("i", L.i <= L["nVertices"])]


x_, y_ = z3.Ints("x y")


def alloc_l1(L):
    b = Gr(L.st, L.v("g"))
    i = L.i
    return [("numbers so far", forall([x_], Implies(And(0 <= x_, x_ < i), And(b.vx("vn", x_) == -1, b.vx("fn", x_) == -1)), [[b.vx("vn", x_)], [b.vx("fn", x_)]])),
            ("rows so far", forall([x_, y_], Implies(And(0 <= x_, x_ < i, 0 <= y_, y_ < b.n), b.e(x_, y_) == 0), [b.e(x_, y_)])), ("i", i <= L["nVertices"])]


def alloc_l2(L):
    b = Gr(L.st, L.v("g"))
    i, j = L.up(), L.i
    return [("rows so far", forall([x_, y_], Implies(And(0 <= x_, 0 <= y_, y_ < b.n, Or(x_ < i, And(x_ == i, y_ < j))), b.e(x_, y_) == 0), [b.e(x_, y_)])), ("j", j <= L["nVertices"])]


contract("graph_alloc", props=("C06",), nloops=3,
         requires=lambda c: [("context", c["context"].blk != 0), ("vertices", c["nVertices"] >= 0), ("@size", c["nVertices"] <= 1 << 20)],
         ensures=alloc_ens, loops={0: alloc_l0, 1: alloc_l1, 2: alloc_l2})

contract("graph_free", props=("C06",), nloops=0,
         requires=lambda c: gwf(c),
         frees=lambda c: (lambda b: (lambda g: Or(b == g.g, b == g.vs, b == g.sccs, g.adj.own()(b)))(Gr(c.pre, c["g"]))),
         ensures=lambda c: [("graph released", (lambda g: And(*[c.post.freed(b) for b in (g.g, g.vs, g.sccs, g.adj.m, g.adj.val)]))(Gr(c.pre, c["g"])))])


# ------------------------------------------------------------------ transpose, undirected, closure
def tr_l0(L):
    a, b = Gr(L.pre, L["g"]), Gr(L.st, L.v("gT"))
    return [("columns so far", forall([x_, y_], Implies(And(0 <= x_, x_ < a.n, 0 <= y_, y_ < L.i), b.e(x_, y_) == a.e(y_, x_)), [b.e(x_, y_)])),
            ("finish numbers so far", forall([x_], Implies(And(0 <= x_, x_ < L.i), b.vx("fn", x_) == a.vx("fn", x_)), [b.vx("fn", x_)])), ("i", L.i <= a.n)]


def tr_l1(L):
    a, b = Gr(L.pre, L["g"]), Gr(L.st, L.v("gT"))
    i, j = L.up(), L.i
    return [("columns so far", forall([x_, y_], Implies(And(0 <= x_, x_ < a.n, 0 <= y_, Or(y_ < i, And(y_ == i, x_ < j))), b.e(x_, y_) == a.e(y_, x_)), [b.e(x_, y_)])), ("j", j <= a.n)]


contract("graph_transpose", props=("C06",), nloops=2,
         requires=lambda c: gwf(c) + [("@size", Gr(c.pre, c["g"]).n <= 1 << 20)],
         ensures=lambda c: (lambda a, b: b.wf() + b.fresh_from(c.pre) + [("same vertices", b.n == a.n), b.edges(lambda i, j: a.e(j, i), "edge from i to j exactly as from j to i"),
                                                                       b.verts("fn", lambda i: a.vx("fn", i), "finish numbers kept"), b.verts("id", lambda i: i, "vertex numbers"),
                                                                       ("context", c.post.f(G, "context", c.ret) == c.pre.f(G, "context", a.g, IV(0)))])(Gr(c.pre, c["g"]), Gr(c.post, c.ret)),
         loops={0: tr_l0, 1: tr_l1})


def und(a):
    """undirected edge count"""
    return lambda i, j: If(i >= j, If(a.e(i, j) == 0, a.e(j, i), a.e(i, j)), If(a.e(j, i) == 0, a.e(i, j), a.e(j, i)))


def un_l0(L):
    a, b = Gr(L.pre, L["g"]), Gr(L.st, L.v("gU"))
    return [("square so far", forall([x_, y_], Implies(And(0 <= x_, x_ < L.i, 0 <= y_, y_ < L.i), b.e(x_, y_) == und(a)(x_, y_)), [b.e(x_, y_)])), ("i", L.i <= a.n)]


def un_l1(L):
    a, b = Gr(L.pre, L["g"]), Gr(L.st, L.v("gU"))
    i, j = L.up(), L.i
    return [("square so far", forall([x_, y_], Implies(And(0 <= x_, 0 <= y_, Or(And(x_ < i, y_ < i), And(x_ == i, y_ < j), And(y_ == i, x_ < j))), b.e(x_, y_) == und(a)(x_, y_)), [b.e(x_, y_)])),
            ("j", j <= i + 1)]


contract("get_undirected_graph", props=("C06",), nloops=2,
         requires=lambda c: gwf(c) + [("@size", Gr(c.pre, c["g"]).n <= 1 << 20)],
         ensures=lambda c: (lambda a, b: b.wf() + b.fresh_from(c.pre) + [("same vertices", b.n == a.n), ("context", c.post.f(G, "context", c.ret) == c.pre.f(G, "context", a.g, IV(0))),
                                                                       b.verts("id", lambda i: i, "vertex numbers"),
                                                                       ("linked exactly when an edge goes one way or the other", forall([x_, y_], Implies(And(0 <= x_, x_ < a.n, 0 <= y_, y_ < a.n), And(
                                                                           (b.e(x_, y_) != 0) == Or(a.e(x_, y_) != 0, a.e(y_, x_) != 0), b.e(x_, y_) == b.e(y_, x_))), [b.e(x_, y_)]))])(Gr(c.pre, c["g"]), Gr(c.post, c.ret)),
         loops={0: un_l0, 1: un_l1})

# Paths whose inner vertices are all below k (Floyd-Warshall), of the graph in the initial state:
#   PK(k, i, j) is defined by recursion on k;  REACH(i, j) = PK(n, i, j)
PK = z3.Function("PK", I, I, I, z3.BoolSort())


def pkdef(a, k):
    return And(forall([x_, y_], PK(IV(0), x_, y_) == (a.e(x_, y_) != 0), [PK(IV(0), x_, y_)]),
               Implies(k >= 0, forall([x_, y_], PK(k + 1, x_, y_) == Or(PK(k, x_, y_), And(PK(k, x_, k), PK(k, k, y_))), [PK(k + 1, x_, y_)])))


def tc_rows(a, b, i, j, k, n):
    """rows before (i, j) hold paths over vertices up to k, the rest paths over vertices below k; row and column k do not change in step k"""
    new = lambda x, y: Or(x < i, And(x == i, y < j))
    return forall([x_, y_], Implies(And(0 <= x_, x_ < n, 0 <= y_, y_ < n), (b.e(x_, y_) != 0) == If(new(x_, y_), PK(k + 1, x_, y_), PK(k, x_, y_))), [b.e(x_, y_)])


def lem_k(k, n):
    # PK(k+1,.,k) == PK(k,.,k) and PK(k+1,k,.) == PK(k,k,.) follow from the definition
    return []


def tc_l0(L):
    a, b = Gr(L.pre, L["g"]), Gr(L.st, L["g"])
    k = L.i
    return [("@def", pkdef(a, k)), ("paths over vertices below k", tc_rows(a, b, IV(0), IV(0), k, a.n)), ("k", k <= a.n)]


def tc_l1(L):
    a, b = Gr(L.pre, L["g"]), Gr(L.st, L["g"])
    k = L.up()
    return [("rows so far", tc_rows(a, b, L.i, IV(0), k, a.n)), ("i", L.i <= a.n)]


def tc_l2(L):
    a, b = Gr(L.pre, L["g"]), Gr(L.st, L["g"])
    k, i = L.up(2), L.up()
    return [("entries so far", tc_rows(a, b, i, L.i, k, a.n)), ("j", L.i <= a.n)]


contract("compute_transitive_closure", props=("C06",), nloops=3,
         requires=lambda c: gwf(c) , modifies=grow,
         ensures=lambda c: (lambda a, b: [("i reaches j exactly when marked", forall([x_, y_], Implies(And(0 <= x_, x_ < a.n, 0 <= y_, y_ < a.n), (b.e(x_, y_) != 0) == PK(a.n, x_, y_)), [b.e(x_, y_)]))])(
             Gr(c.pre, c["g"]), Gr(c.post, c["g"])),
         loops={0: tc_l0, 1: tc_l1, 2: tc_l2})

contract("is_adjacent", props=("C06",), nloops=0,
         requires=lambda c: gwf(c) + [("vertices", And(*[And(0 <= c[n], c[n] < Gr(c.pre, c["g"]).n) for n in ("i", "j")]))],
         ensures=lambda c: (lambda a: [("edge one way or the other", (c.ret if z3.is_bool(c.ret) else c.ret != 0) == Or(a.e(c["i"], c["j"]) != 0, a.e(c["j"], c["i"]) != 0))])(Gr(c.pre, c["g"])))


# ------------------------------------------------------------------ program view (dependences)
class Prog:
    def __init__(self, view, p):
        self.v, self.b = view, blk(p)
        f = lambda n: view.f("plutoProg", n, self.b, IV(0))
        self.ns, self.nd, self.stmts, self.deps, self.ddg = f("nstmts"), f("ndeps"), f("stmts"), f("deps"), f("ddg")
        self.nh, self.nvar, self.npar = f("num_hyperplanes"), f("nvar"), f("npar")

    def dep(self, i):
        return self.v.cell("c.p.dependence.b", self.deps, i)

    def stmt(self, i):
        return self.v.cell("c.p.statement.b", self.stmts, i)

    def d(self, fld, i):
        return self.v.f("dependence", fld, self.dep(i), IV(0))

    def s(self, fld, i):
        return self.v.f("statement", fld, self.stmt(i), IV(0))

    def wf(self, deps=True, stmts=False):
        v = self.v
        live = lambda b, k: And(b > 0, b < v.nb, Not(v.freed(b)))
        out = [("program block", And(live(self.b, "plutoProg"), LEN(self.b) >= sizeof(v, "plutoProg"), v.f("plutoProg", "context", self.b, IV(0)) != 0)),
               ("counts", And(self.ns >= 0, self.nd >= 0, self.ns <= 1 << 20, self.nd <= MAXD))]
        if deps:
            out += [("dependence table", Or(self.nd == 0, And(live(self.deps, ""), LEN(self.deps) >= 8 * self.nd))),
                    ("dependences", forall([x_], Implies(And(0 <= x_, x_ < self.nd), And(live(self.dep(x_), ""), LEN(self.dep(x_)) >= sizeof(v, "dependence"),
                                                                                        0 <= self.d("src", x_), self.d("src", x_) < self.ns, 0 <= self.d("dest", x_), self.d("dest", x_) < self.ns,
                                                                                        Or(self.d("satisfied", x_) == 0, self.d("satisfied", x_) == 1))), [self.dep(x_)]))]
        if stmts:
            out += [("statement table", Or(self.ns == 0, And(live(self.stmts, ""), LEN(self.stmts) >= 8 * self.ns))),
                    ("statements", forall([x_], Implies(And(0 <= x_, x_ < self.ns), And(live(self.stmt(x_), ""), LEN(self.stmt(x_)) >= sizeof(v, "statement"))), [self.stmt(x_)])),
                    ("statements are distinct", forall([x_, y_], Implies(And(0 <= x_, x_ < y_, y_ < self.ns), self.stmt(x_) != self.stmt(y_)), [[self.stmt(x_), self.stmt(y_)]]))]
        return out


RAR = 3  # PLUTO_DEP_RAR


def counted(p, d):
    return And(Not(p.d("type", d) == RAR), p.d("satisfied", d) == 0)


_cnt = {}


def CNT(p, a, b, k):
    """Unsatisfied non-read-read dependences from a to b among the first k in p's state."""
    hs = [p.v.key(n) for n in ("f.plutoProg.deps", "c.p.dependence.b", "f.dependence.type", "f.dependence.satisfied", "f.dependence.src", "f.dependence.dest")]
    if "f" not in _cnt:
        _cnt["f"] = z3.Function("CNT", *([h.sort() for h in hs] + [I] * 5))
    return _cnt["f"](*(hs + [p.b, a, b, k]))


def cntdef(p, k):
    return And(forall([x_, y_], CNT(p, x_, y_, IV(0)) == 0, [CNT(p, x_, y_, IV(0))]),
               Implies(And(k >= 0, k < p.nd), forall([x_, y_], CNT(p, x_, y_, k + 1) == CNT(p, x_, y_, k) + If(And(counted(p, k), p.d("src", k) == x_, p.d("dest", k) == y_), 1, 0), [CNT(p, x_, y_, k + 1)])))


def cnt_inv(g):
    def f(L):
        p, b = Prog(L.pre, L["prog"]), Gr(L.st, g(L))
        return [("@def", cntdef(p, L.i)), b.edges(lambda i, j: CNT(p, i, j, L.i), "counts so far"), ("i", L.i <= p.nd)]
    return f


contract("ddg_create", props=("C06",), nloops=1,
         requires=lambda c: [("program: " + l, f) for l, f in Prog(c.pre, c["prog"]).wf()],
         ensures=lambda c: (lambda p, b: b.wf() + b.fresh_from(c.pre) + [("one vertex per statement", b.n == p.ns), b.verts("id", lambda i: i, "vertex numbers"),
                                                                       b.edges(lambda i, j: CNT(p, i, j, p.nd), "edge count = unsatisfied non-read-read dependences")])(Prog(c.pre, c["prog"]), Gr(c.post, c.ret)),
         loops={0: cnt_inv(lambda L: L.v("g"))})


def up_l0(L):
    b = Gr(L.st, L["g"])
    return [("rows so far", forall([x_, y_], Implies(And(0 <= x_, x_ < L.i, 0 <= y_, y_ < b.n), b.e(x_, y_) == 0), [b.e(x_, y_)])), ("i", L.i <= b.n)]


def up_l1(L):
    b = Gr(L.st, L["g"])
    i, j = L.up(), L.i
    return [("rows so far", forall([x_, y_], Implies(And(0 <= x_, 0 <= y_, y_ < b.n, Or(x_ < i, And(x_ == i, y_ < j))), b.e(x_, y_) == 0), [b.e(x_, y_)])), ("j", j <= b.n)]


contract("ddg_update", props=("C06",), nloops=3,
         requires=lambda c: gwf(c) + [("program: " + l, f) for l, f in Prog(c.pre, c["prog"]).wf()] + [("graph of the program", Gr(c.pre, c["g"]).n == Prog(c.pre, c["prog"]).ns)],
         modifies=grow,
         ensures=lambda c: (lambda p, b: [b.edges(lambda i, j: CNT(p, i, j, p.nd), "edge count = unsatisfied non-read-read dependences")])(Prog(c.pre, c["prog"]), Gr(c.post, c["g"])),
         loops={0: up_l0, 1: up_l1, 2: cnt_inv(lambda L: L["g"])})
