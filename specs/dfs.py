"""Depth-first search and components of the dependence graph (C06)."""
from base import *
from matrix import Mat
import sums
from vc import AI
from ddg import Gr, gwf, G, Prog

x_, y_, w_ = z3.Ints("dx dy dw")
REACH = z3.Function("REACH", AAI, AAI, AAI, I, I, I, I, z3.BoolSort())


def reach(g, i, j):
    """There is a path (possibly empty) from i to j in the graph g of a state."""
    v = g.v
    return REACH(v.key("c.i64"), v.key("c.p.i64.b"), v.key("c.p.i64.o"), g.adj.val, g.n, i, j)


def inr(g, *xs):
    return And(*[And(0 <= x, x < g.n) for x in xs])


def reach_def(g):
    """Reachability contains the edges and is reflexive and transitive."""
    R = lambda a, b: reach(g, a, b)
    return [("@def", And(forall([x_], Implies(inr(g, x_), R(x_, x_)), [R(x_, x_)]),
                         forall([x_, y_], Implies(And(inr(g, x_, y_), g.e(x_, y_) != 0), R(x_, y_)), [g.e(x_, y_)]),
                         forall([x_, y_, w_], Implies(And(inr(g, x_, y_, w_), R(x_, y_), R(y_, w_)), R(x_, w_)), [[R(x_, y_), R(y_, w_)]])))]


def ids(g):
    return ("vertices are numbered in order", forall([x_], Implies(inr(g, x_), g.vx("id", x_) == x_), [g.vx("id", x_)]))


def tm(st, t):
    return st.cell("c.i32", t.blk, t.off)


def timewf(st, t):
    return ("clock", And(t.blk > 0, t.blk < st.nb, Not(st.freed(t.blk)), t.off >= 0, 4 * (t.off + 1) <= LEN(t.blk)))


class D:
    """What a search has done between a state p and a state q (graph a in p, b in q)."""

    def __init__(self, p, q, gp, t):
        self.a, self.b = Gr(p, gp), Gr(q, gp)
        self.T0, self.T1 = tm(p, t), tm(q, t)
        self.V0, self.V1 = (lambda j: self.a.vx("vn", j)), (lambda j: self.b.vx("vn", j))
        self.F0, self.F1 = (lambda j: self.a.vx("fn", j)), (lambda j: self.b.vx("fn", j))
        self.c0, self.c1 = (lambda j: self.a.vx("cc_id", j)), (lambda j: self.b.vx("cc_id", j))

    def new(self, j):
        return And(inr(self.a, j), self.V0(j) == 0, self.V1(j) != 0)

    def facts(self, k, skip=None, lo=0):
        """skip: a vertex still being searched."""
        a, V0, V1, F0, F1 = self.a, self.V0, self.V1, self.F0, self.F1
        new = (lambda j: And(self.new(j), j != skip)) if skip is not None else self.new
        R = lambda i, j: reach(a, i, j)
        return [("old numbers kept", forall([x_], Implies(And(inr(a, x_), V0(x_) != 0), And(V1(x_) == V0(x_), F1(x_) == F0(x_))), [[V1(x_)], [F1(x_)]])),
                ("numbers are in the past", forall([x_], Implies(inr(a, x_), And(V1(x_) >= 0, V1(x_) <= self.T1)), [V1(x_)])),
                ("numbers of new vertices", forall([x_], Implies(new(x_), And(self.T0 + lo < V1(x_), V1(x_) < F1(x_), F1(x_) <= self.T1)), [[V1(x_)], [F1(x_)]])),
                ("new vertices are reachable", forall([x_], Implies(self.new(x_), R(k, x_)), [V1(x_)])),
                ("new vertices take the component", forall([x_], Implies(self.new(x_), self.c1(x_) == self.c0(k)), [[self.c1(x_)], [V1(x_)]])),
                ("other components kept", forall([x_], Implies(And(inr(a, x_), Not(self.new(x_)), self.c1(x_) != self.c0(x_)), And(self.c1(x_) == self.c0(k), V1(x_) != 0, R(k, x_))), [self.c1(x_)])),
                ("targets of new vertices are visited in time", forall([x_, w_], Implies(And(new(x_), inr(a, w_), a.e(x_, w_) != 0), And(V1(w_) != 0, V1(w_) < F1(x_))), [a.e(x_, w_)])),
                ("different new vertices have different numbers", forall([x_, y_], Implies(And(new(x_), new(y_), x_ != y_), V1(x_) != V1(y_)), [[V1(x_), V1(y_)]])),
                ("searches are nested or apart", forall([x_, y_], Implies(And(new(x_), new(y_), V1(x_) < V1(y_)), Or(F1(x_) < V1(y_), And(F1(y_) < F1(x_), R(x_, y_)))), [[V1(x_), V1(y_)]]))]


def dv(c, st=None):
    return D(c.pre, st if st is not None else c.post, c["g"], c["time"])


def dv_req(c):
    g, v, t = Gr(c.pre, c["g"]), c["v"], c["time"]
    k = v.off
    T0 = tm(c.pre, t)
    return gwf(c) + [("vertex of the graph", And(v.blk == g.vs, 0 <= k, k < g.n)), ids(g), timewf(c.pre, t), ("not visited yet", g.vx("vn", k) == 0),
                     ("numbers are in the past", And(T0 >= 0, forall([x_], Implies(inr(g, x_), And(g.vx("vn", x_) >= 0, g.vx("vn", x_) <= T0)), [g.vx("vn", x_)])))]


def dv_ens(c):
    d = dv(c)
    k = c["v"].off
    return [("clock advances", d.T1 >= d.T0 + 2), ("first number", d.V1(k) == d.T0 + 1), ("last number", d.F1(k) == d.T1)] + d.facts(k)


def dv_inv(L):
    d = D(L.pre, L.st, L["g"], L["time"])
    k = L["v"].off
    J = L.i
    a = d.a
    return [("clock", d.T1 >= d.T0 + 1), ("j", And(0 <= J, J <= a.n)), ("this vertex is visited", And(d.V1(k) == d.T0 + 1, d.c1(k) == d.c0(k)))] + d.facts(k, skip=k, lo=1) + [
        ("targets so far are visited", forall([w_], Implies(And(0 <= w_, w_ < J, a.e(k, w_) != 0), And(d.V1(w_) != 0, d.V1(w_) <= d.T1)), [[a.e(k, w_)], [d.V1(w_)]]))]


def dv_mod(c):
    g = Gr(c.pre, c["g"])
    return {"f.vertex.vn": [g.vs], "f.vertex.fn": [g.vs], "f.vertex.cc_id": [g.vs], "c.i32": [c["time"].blk]}


contract("dfs_vertex", props=("C06",), nloops=1, requires=dv_req, ensures=dv_ens, modifies=dv_mod, loops={0: dv_inv}, allocs=False,
         setup=lambda c: [f for _, f in reach_def(Gr(c.pre, c["g"]))])


# ------------------------------------------------------------------ search from every vertex
def searched(g, T=None):
    """Numbers of the visited vertices of g are those of a depth-first search."""
    V, F = (lambda j: g.vx("vn", j)), (lambda j: g.vx("fn", j))
    R = lambda i, j: reach(g, i, j)
    vis = lambda j: And(inr(g, j), V(j) != 0) if T is not None else inr(g, j)
    return [("numbers", forall([x_], Implies(vis(x_), And(0 < V(x_), V(x_) < F(x_), *([F(x_) <= T] if T is not None else []))), [[V(x_)], [F(x_)]])),
            ("different vertices have different numbers", forall([x_, y_], Implies(And(vis(x_), vis(y_), x_ != y_), V(x_) != V(y_)), [[V(x_), V(y_)]])),
            ("targets are visited before their source is left", forall([x_, w_], Implies(And(vis(x_), inr(g, w_), g.e(x_, w_) != 0), And(V(w_) != 0, V(w_) < F(x_))), [g.e(x_, w_)])),
            ("searches are nested or apart", forall([x_, y_], Implies(And(vis(x_), vis(y_), V(x_) < V(y_)), Or(F(x_) < V(y_), And(F(y_) < F(x_), R(x_, y_)))), [[V(x_), V(y_)]]))]


def dfs_inv(k):
    def f(L):
        g = Gr(L.st, L["g"])
        if k == 0:
            return [("i", And(0 <= L.i, L.i <= g.n)), ("cleared so far", forall([x_], Implies(And(0 <= x_, x_ < L.i), g.vx("vn", x_) == 0), [g.vx("vn", x_)])), ("clock", L.v("time") == 0)]
        T = L.v("time")
        return [("i", And(0 <= L.i, L.i <= g.n)), ("clock", T >= 0), ("numbers are in the past", forall([x_], Implies(inr(g, x_), And(g.vx("vn", x_) >= 0, g.vx("vn", x_) <= T)), [g.vx("vn", x_)])),
                ("visited so far", forall([x_], Implies(And(0 <= x_, x_ < L.i), g.vx("vn", x_) != 0), [g.vx("vn", x_)]))] + searched(g, T)
    return f


def vmods(c, *fl, n="g"):
    g = Gr(c.pre, c[n])
    return {"f.vertex." + x: [g.vs] for x in fl}


contract("dfs", props=("C06",), nloops=2, requires=lambda c: gwf(c) + [ids(Gr(c.pre, c["g"]))], modifies=lambda c: vmods(c, "vn", "fn", "cc_id"),
         ensures=lambda c: searched(Gr(c.post, c["g"])), loops={0: dfs_inv(0), 1: dfs_inv(1)}, allocs=False,
         setup=lambda c: [f for _, f in reach_def(Gr(c.pre, c["g"]))])


# ------------------------------------------------------------------ second search, in descending order of finish numbers
QF = {}


def qperm(n, v, base, i):
    """Sorting: which element comes to position i (VQS), and where element i goes (VQI)."""
    h = v.key("f.vertex.id")
    if n not in QF:
        QF[n] = z3.Function(n, h.sort(), I, I, I)
    return QF[n](h, base, i)


VF = ("id", "vn", "fn", "fcg_stmt_offset", "scc_id", "cc_id")


def vq_ens(c):
    v, b, n = c.post, c["base"].blk, c["nmemb"]
    S, T = (lambda i: qperm("VQS", v, b, i)), (lambda i: qperm("VQI", v, b, i))
    f = lambda st, fld, i: st.f("vertex", fld, b, i)
    return [("a permutation", And(forall([x_], Implies(And(0 <= x_, x_ < n), And(0 <= S(x_), S(x_) < n, T(S(x_)) == x_, *[f(c.post, q, x_) == f(c.pre, q, S(x_)) for q in VF])), [[S(x_)], [f(c.post, "id", x_)], [f(c.post, "fn", x_)]]),
                                  forall([x_], Implies(And(0 <= x_, x_ < n), And(0 <= T(x_), T(x_) < n, S(T(x_)) == x_, *[f(c.post, q, T(x_)) == f(c.pre, q, x_) for q in VF])), [[T(x_)], [f(c.pre, "id", x_)]]))),
            ("in the order of the comparison function", forall([x_, y_], Implies(And(0 <= x_, x_ < y_, y_ < n), f(c.post, "fn", x_) <= f(c.post, "fn", y_)), [[f(c.post, "fn", x_), f(c.post, "fn", y_)]]))]


contract("qsort@vertex", assumed=True, allocs=False, decl=[("base", ("ptr", ("struct", "vertex"))), ("nmemb", ("int", 64)), ("size", ("int", 64)), ("compar", ("ptr", ("void",)))],
         requires=lambda c: [("array", And(c["base"].off == 0, LEN(c["base"].blk) >= sizeof(c.pre, "vertex") * c["nmemb"]))],
         modifies=lambda c: {"f.vertex." + q: [c["base"].blk] for q in VF}, ensures=vq_ens)


def fnof(c, n):
    return c.pre.f("vertex", "fn", c[n].blk, c[n].off)


contract("compar", props=("C06",), nloops=0, allocs=False, requires=lambda c: [(n, (lambda p: And(p.blk > 0, p.blk < c.pre.nb, Not(c.pre.freed(p.blk)), p.off >= 0, sizeof(c.pre, "vertex") * (p.off + 1) <= LEN(p.blk)))(c[n])) for n in ("e1", "e2")],
         ensures=lambda c: [("smaller finish number first", And((c.ret < 0) == (fnof(c, "e1") < fnof(c, "e2")), (c.ret == 0) == (fnof(c, "e1") == fnof(c, "e2"))))])


class S:
    """Components found so far: graph a before, graph g now; N components; all: no vertex is left."""

    def __init__(self, a, g, N):
        self.a, self.g, self.N = a, g, N

    def rooted(self, x, later):
        a, g = self.a, self.g
        r = z3.Int("root")
        return z3.Exists([r], And(inr(a, r), g.vx("scc_id", r) == g.vx("scc_id", x), reach(a, r, x),
                                  forall([y_], Implies(And(inr(a, y_), Or(g.vx("scc_id", y_) >= g.vx("scc_id", x), later(y_))), a.vx("fn", y_) <= a.vx("fn", r)), [a.vx("fn", y_)])))

    def facts(self, done=None):
        a, g, N = self.a, self.g, self.N
        sc = lambda x: g.vx("scc_id", x)
        vis = (lambda x: And(inr(a, x), sc(x) != -1)) if done is None else (lambda x: inr(a, x))
        later = (lambda y: sc(y) == -1) if done is None else (lambda y: z3.BoolVal(False))
        return [("component numbers", forall([x_], Implies(inr(a, x_), And(sc(x_) >= (-1 if done is None else 0), sc(x_) < N)), [sc(x_)])),
                ("no component is empty", forall([w_], Implies(And(0 <= w_, w_ < N, g.sc("id", w_) == w_), z3.Exists([x_], And(inr(a, x_), sc(x_) == w_))), [g.sc("id", w_)])),
                ("edges do not lead to later components", forall([x_, w_], Implies(And(vis(x_), inr(a, w_), a.e(x_, w_) != 0), And(sc(w_) != -1, sc(w_) <= sc(x_))), [a.e(x_, w_)])),
                ("every component is reached from the last finished vertex that was left", forall([x_], Implies(vis(x_), self.rooted(x_, later)), [sc(x_)])),
                ("component records", forall([w_], Implies(And(0 <= w_, w_ < N), g.sc("id", w_) == w_), [g.sc("id", w_)]))]


def fs_inv(k):
    def f(L):
        a, g = Gr(L.pre, L["g"]), Gr(L.st, L["g"])
        vc = L.v("vCopy")
        vid = lambda x: L.st.f("vertex", "id", vc.blk, x)
        sc, vn = (lambda x: g.vx("scc_id", x)), (lambda x: g.vx("vn", x))
        T = L.v("time") if k else None
        if k == 0:
            return [("i", And(0 <= L.i, L.i <= a.n)), ("cleared so far", forall([x_], Implies(And(0 <= x_, x_ < L.i), And(vn(x_) == 0, sc(x_) == -1)), [[vn(x_)], [sc(x_)]])), ("clock", L.v("time") == 0)]
        order = [("sorted", And(forall([x_], Implies(inr(a, x_), inr(a, vid(x_))), [vid(x_)]),
                                forall([x_, y_], Implies(And(0 <= x_, x_ <= y_, y_ < a.n), a.vx("fn", vid(x_)) <= a.vx("fn", vid(y_))), [[vid(x_), vid(y_)]]),
                                forall([x_], Implies(inr(a, x_), (lambda t: And(inr(a, t), vid(t) == x_))(qperm("VQI", L.st, vc.blk, x_))), [vn(x_)])))]
        N = L.v("numScc")
        past = [("clock", T >= 0), ("numbers are in the past", forall([x_], Implies(inr(a, x_), And(vn(x_) >= 0, vn(x_) <= T)), [vn(x_)]))]
        if k == 1:
            i = L.v("i")
            return order + past + [("i", And(-1 <= i, i < a.n, 0 <= N, N <= a.n - 1 - i)), ("visited", forall([x_], Implies(inr(a, x_), (vn(x_) == 0) == (sc(x_) == -1)), [[vn(x_)], [sc(x_)]])),
                                   ("late ones are visited", forall([x_], Implies(And(i < x_, x_ < a.n), vn(vid(x_)) != 0), [vid(x_)]))] + S(a, g, N).facts()
        e = Gr(L.entry, L["g"])
        J = L.v("j")
        return [("j", And(0 <= J, J <= a.n)), ("marked so far", forall([x_], Implies(inr(a, x_), sc(x_) == If(And(x_ < J, e.vx("scc_id", x_) == -1, vn(x_) > 0), N, e.vx("scc_id", x_))), [sc(x_)]))]
    return f


contract("dfs_for_scc", props=("C06",), nloops=3, calls={"qsort": "qsort@vertex"}, requires=lambda c: gwf(c) + [ids(Gr(c.pre, c["g"]))],
         modifies=lambda c: dict(vmods(c, "vn", "fn", "cc_id", "scc_id"), **{"f.graph.num_sccs": [c["g"].blk], "f.scc.id": [Gr(c.pre, c["g"]).sccs]}),
         ensures=lambda c: (lambda a, g: [("number of components", And(0 <= g.nscc, g.nscc <= a.n))] + S(a, g, g.nscc).facts(done=True))(Gr(c.pre, c["g"]), Gr(c.post, c["g"])),
         loops={k: fs_inv(k) for k in range(3)}, setup=lambda c: [f for _, f in reach_def(Gr(c.pre, c["g"]))])


# ------------------------------------------------------------------ components of the dependence graph
def any_b(b):
    return z3.BoolVal(True)


_csz = {}


def CSZ(p, i, k):
    """How many of the first k statements of the program are in component i."""
    hs = [p.v.key(n) for n in ("c.p.statement.b", "f.statement.scc_id")]
    if "f" not in _csz:
        _csz["f"] = z3.Function("CSZ", *([h.sort() for h in hs] + [I] * 4))
    return _csz["f"](*(hs + [p.stmts, i, k]))


def csz_def(p, i, k):
    return ("@def", And(CSZ(p, i, IV(0)) == 0, Implies(And(0 <= k, k < p.ns), CSZ(p, i, k + 1) == CSZ(p, i, k) + If(p.s("scc_id", k) == i, 1, 0))))


def cs_inv(L):
    p = Prog(L.pre, L["prog"])
    return [csz_def(p, L["scc_id"], L.i), ("i", And(0 <= L.i, L.i <= p.ns)), ("counted so far", L.v("num") == CSZ(p, L["scc_id"], L.i))]


def swf(c):
    return [("program: " + l, f) for l, f in Prog(c.pre, c["prog"]).wf(deps=False, stmts=True)]


contract("get_scc_size", props=("C06",), nloops=1, requires=swf, allocs=False, loops={0: cs_inv},
         ensures=lambda c: (lambda p: [("number of statements of the component", c.ret == CSZ(p, c["scc_id"], p.ns))])(Prog(c.pre, c["prog"])))


def mxd(p, i, m, k):
    return [("not below any", forall([x_], Implies(And(0 <= x_, x_ < k, p.s("scc_id", x_) == i), m >= p.s("dim_orig", x_)), [p.stmt(x_)])),
            ("attained", Or(m == -1, z3.Exists([x_], And(0 <= x_, x_ < k, p.s("scc_id", x_) == i, m == p.s("dim_orig", x_)))))]


contract("get_max_orig_dim_in_scc", props=("C06",), nloops=1, requires=lambda c: swf(c) + [("dimensionalities", (lambda p: forall([x_], Implies(And(0 <= x_, x_ < p.ns), And(p.s("dim_orig", x_) >= 0, p.s("dim_orig", x_) < 1 << 31)), [p.stmt(x_)]))(Prog(c.pre, c["prog"])))],
         allocs=False, loops={0: lambda L: (lambda p: [("i", And(0 <= L.i, L.i <= p.ns)), ("sign", L.v("max") >= -1)] + mxd(p, L["scc_id"], L.v("max"), L.i))(Prog(L.pre, L["prog"]))},
         ensures=lambda c: (lambda p: mxd(p, c["scc_id"], c.ret, p.ns))(Prog(c.pre, c["prog"])))

contract("graph_print_sccs", props=(), nloops=1, allocs=False, requires=lambda c: (lambda g: gwf(c) + [("components computed", And(g.nscc >= 0, g.nscc <= g.n))])(Gr(c.pre, c["g"])), loops={0: lambda L: [("i", L.i >= 0)]})


def mutual(a, x, y):
    return And(reach(a, x, y), reach(a, y, x))


def classes(a, sc, lbl="same component exactly when each reaches the other"):
    return (lbl, forall([x_, y_], Implies(inr(a, x_, y_), (sc(x_) == sc(y_)) == mutual(a, x_, y_)), [[sc(x_), sc(y_)]]))


def topo(a, sc):
    return ("edges never lead to an earlier component", forall([x_, y_], Implies(And(inr(a, x_, y_), a.e(x_, y_) != 0), sc(x_) <= sc(y_)), [a.e(x_, y_)]))


def kosaraju(a, g1, t0, t1):
    """Instance of the theorem of lemmas/Scc.lean: graph a, searched as g1; transpose t0, components found in t1."""
    sc = lambda x: t1.vx("scc_id", x)
    hyp = [f for _, f in searched(g1)] + [f for _, f in S(t0, t1, t1.nscc).facts(done=True)[2:4]] + [
        t0.n == a.n, g1.n == a.n, t0.edges(lambda i, j: a.e(j, i))[1], t0.verts("fn", lambda i: g1.vx("fn", i), "")[1]]
    return ("@def", Implies(And(*hyp), And(classes(a, sc)[1], topo(a, sc)[1])))


def sc_hint(c):
    p = Prog(c.pre, c["prog"])
    a = Gr(c.pre, p.ddg)
    t0, t1 = Gr(c.cpre, c.call[0]), Gr(c.post, c.call[0])
    g1 = Gr(c.cpre, p.ddg)
    sc = lambda x: t1.vx("scc_id", x)
    return [("same graph", And(g1.n == a.n, t0.n == a.n)), kos(a, g1, t0, t1), classes(a, sc, "components of the transpose"), topo(a, sc)]


def kos(a, g1, t0, t1):
    sc = lambda x: t1.vx("scc_id", x)
    # reachability of the graph before the call (a); the search numbers are in g1
    class X(Gr):
        pass
    h = X.__new__(X)
    h.__dict__.update(a.__dict__)
    h.vx = g1.vx
    return kosaraju(a, h, t0, t1)


def cs_mod(c):
    p = Prog(c.pre, c["prog"])
    g = Gr(c.pre, p.ddg)
    m = {"f.vertex." + x: [g.vs] for x in ("vn", "fn", "cc_id", "scc_id")}
    m.update({"f.scc." + x: [g.sccs] for x in ("max_dim", "size", "id", "sol", "is_parallel")})
    m.update({"f.graph.num_sccs": [g.g], "f.statement.scc_id": any_b})
    return m


def dg_req(c):
    p = Prog(c.pre, c["prog"])
    g = Gr(c.pre, p.ddg)
    return swf(c) + [("graph: " + l, f) for l, f in g.wf()] + [("one vertex per statement", g.n == p.ns), ids(g),
                     ("dimensionalities", forall([x_], Implies(And(0 <= x_, x_ < p.ns), And(p.s("dim_orig", x_) >= 0, p.s("dim_orig", x_) < 1 << 31)), [p.stmt(x_)]))]


def dcs_inv(k):
    def f(L):
        p = Prog(L.pre, L["prog"])
        q = Prog(L.st, L["prog"])
        a, g, t, te = Gr(L.pre, p.ddg), Gr(L.st, p.ddg), Gr(L.st, L.v("gT")), Gr(L.entry, L.v("gT"))
        if k == 0:
            return [("i", And(0 <= L.i, L.i <= a.n)), ("found components kept", forall([x_], Implies(inr(a, x_), t.vx("scc_id", x_) == te.vx("scc_id", x_)), [t.vx("scc_id", x_)])),
                    ("copied so far", forall([x_], Implies(And(0 <= x_, x_ < L.i), And(g.vx("scc_id", x_) == t.vx("scc_id", x_), q.s("scc_id", x_) == t.vx("scc_id", x_))), [[g.vx("scc_id", x_)], [q.stmt(x_)]]))]
        return [("i", And(0 <= L.i, L.i <= g.nscc)), ("found records kept", forall([x_], Implies(And(0 <= x_, x_ < g.nscc), t.sc("id", x_) == te.sc("id", x_)), [t.sc("id", x_)]))] + recs(q, g, L.i)
    return f


def recs(q, g, n):
    return [("component records", forall([w_], Implies(And(0 <= w_, w_ < n), And(g.sc("id", w_) == w_, g.sc("size", w_) == CSZ(q, w_, q.ns))), [[g.sc("id", w_)], [g.sc("size", w_)]])),
            ("largest dimensionality", forall([w_, x_], Implies(And(0 <= w_, w_ < n, 0 <= x_, x_ < q.ns, q.s("scc_id", x_) == w_), g.sc("max_dim", w_) >= q.s("dim_orig", x_)), [[g.sc("max_dim", w_), q.stmt(x_)]]))]


def dcs_ens(c):
    p, q = Prog(c.pre, c["prog"]), Prog(c.post, c["prog"])
    a, b = Gr(c.pre, p.ddg), Gr(c.post, p.ddg)
    sc = lambda x: b.vx("scc_id", x)
    return [("number of components", And(0 <= b.nscc, b.nscc <= a.n)), ("component numbers", forall([x_], Implies(inr(a, x_), And(0 <= sc(x_), sc(x_) < b.nscc)), [sc(x_)])),
            ("statements", forall([x_], Implies(inr(a, x_), q.s("scc_id", x_) == sc(x_)), [q.stmt(x_)])), classes(a, sc), topo(a, sc)] + recs(q, b, b.nscc)


contract("ddg_compute_scc", props=("C06",), nloops=2, requires=dg_req, modifies=cs_mod, ensures=dcs_ens, loops={k: dcs_inv(k) for k in range(2)}, hints={"dfs_for_scc": sc_hint})


# ------------------------------------------------------------------ connected components
CONNF = z3.Function("CONN", AAI, AAI, AAI, I, I, I, I, z3.BoolSort())


def conn(g, i, j):
    """i and j are connected when edges may be followed in both directions."""
    v = g.v
    return CONNF(v.key("c.i64"), v.key("c.p.i64.b"), v.key("c.p.i64.o"), g.adj.val, g.n, i, j)


def conn_def(a, u):
    """What it means to be connected, in terms of a graph u that has the edges of a in both directions (Scc.reach_symm)."""
    return ("@def", Implies(And(u.n == a.n, forall([x_, y_], Implies(inr(a, x_, y_), (u.e(x_, y_) != 0) == Or(a.e(x_, y_) != 0, a.e(y_, x_) != 0)), [u.e(x_, y_)])),
                            forall([x_, y_], Implies(inr(a, x_, y_), And(reach(u, x_, y_) == conn(a, x_, y_), conn(a, x_, y_) == conn(a, y_, x_))), [[reach(u, x_, y_)], [conn(a, x_, y_)]])))


def closed_def(u):
    """A set closed under edges is closed under reachability (Scc.closed_reach): the set of visited vertices."""
    vis = lambda x: u.vx("vn", x) != 0
    return ("@def", Implies(forall([x_, w_], Implies(And(inr(u, x_, w_), vis(x_), u.e(x_, w_) != 0), vis(w_)), [u.e(x_, w_)]),
                            forall([x_, w_], Implies(And(inr(u, x_, w_), vis(x_), reach(u, x_, w_)), vis(w_)), [reach(u, x_, w_)])))


def cc_hint(c):
    p = Prog(c.pre, c["prog"])
    a, u = Gr(c.pre, p.ddg), Gr(c.post, c.ret)
    return [("edges in both directions", And(u.n == a.n, forall([x_, y_], Implies(inr(a, x_, y_), (u.e(x_, y_) != 0) == Or(a.e(x_, y_) != 0, a.e(y_, x_) != 0)), [u.e(x_, y_)]))), conn_def(a, u)] + reach_def(u)


def ccls(a, cc, dom):
    return ("same component exactly when connected", forall([x_, y_], Implies(And(inr(a, x_, y_), dom(x_), dom(y_)), (cc(x_) == cc(y_)) == conn(a, x_, y_)), [[cc(x_), cc(y_)]]))


def some(a, g, cc, N, dom):
    return ("no component is empty", forall([w_], Implies(And(0 <= w_, w_ < N, g.vx("id", w_) == w_), z3.Exists([x_], And(inr(a, x_), dom(x_), cc(x_) == w_))), [g.vx("id", w_)]))


def cc_inv(k):
    def f(L):
        p, q = Prog(L.pre, L["prog"]), Prog(L.st, L["prog"])
        a, g, u = Gr(L.pre, p.ddg), Gr(L.st, p.ddg), Gr(L.st, L.v("gU"))
        vn, cc = (lambda x: u.vx("vn", x)), (lambda x: u.vx("cc_id", x))
        i = L.i
        if k == 0:
            return [("i", And(0 <= i, i <= a.n)), ("cleared so far", forall([x_], Implies(And(0 <= x_, x_ < i), vn(x_) == 0), [vn(x_)])), ("clock", L.v("time") == 0), ("nothing found", And(L.v("cc_id") == -1, L.v("num_cc") == 0))]
        T, cid = L.v("time"), L.v("cc_id")
        vis = lambda x: vn(x) != 0
        return [closed_def(u), ("i", And(0 <= i, i <= a.n)), ("clock", T >= 0), ("numbers are in the past", forall([x_], Implies(inr(a, x_), And(vn(x_) >= 0, vn(x_) <= T)), [vn(x_)])),
                ("found", And(cid >= -1, cid < i, L.v("num_cc") == cid + 1)), ("component numbers", forall([x_], Implies(And(inr(a, x_), vis(x_)), And(0 <= cc(x_), cc(x_) <= cid)), [cc(x_)])),
                ("visited vertices are closed under edges", forall([x_, w_], Implies(And(inr(a, x_, w_), vis(x_), u.e(x_, w_) != 0), vis(w_)), [u.e(x_, w_)])),
                ccls(a, cc, vis), some(a, g, cc, cid + 1, vis),
                ("visited so far", forall([x_], Implies(And(0 <= x_, x_ < i), vis(x_)), [vn(x_)])),
                ("copied so far", forall([x_], Implies(And(0 <= x_, x_ < i), And(g.vx("cc_id", x_) == cc(x_), q.s("cc_id", x_) == cc(x_))), [[g.vx("cc_id", x_)], [q.stmt(x_)], [cc(x_)]]))]
    return f


def cc_ens(c):
    p, q = Prog(c.pre, c["prog"]), Prog(c.post, c["prog"])
    a, b = Gr(c.pre, p.ddg), Gr(c.post, p.ddg)
    cc = lambda x: b.vx("cc_id", x)
    tr = lambda x: z3.BoolVal(True)
    return [("number of components", And(0 <= b.ncc, b.ncc <= a.n)), ("component numbers", forall([x_], Implies(inr(a, x_), And(0 <= cc(x_), cc(x_) < b.ncc)), [cc(x_)])),
            ("statements", forall([x_], Implies(inr(a, x_), q.s("cc_id", x_) == cc(x_)), [q.stmt(x_)])), ccls(a, cc, tr), some(a, b, cc, b.ncc, tr)]


contract("ddg_compute_cc", props=("C06",), nloops=2, requires=dg_req,
         modifies=lambda c: (lambda g: {"f.vertex.cc_id": [g.vs], "f.graph.num_ccs": [g.g], "f.statement.cc_id": any_b})(Gr(c.pre, Prog(c.pre, c["prog"]).ddg)),
         ensures=cc_ens, loops={k: cc_inv(k) for k in range(2)}, hints={"get_undirected_graph": cc_hint})


# ------------------------------------------------------------------ vertices of each component
VC = z3.Function("VCNT", AI, I, I, I)


def vc_def(arr, i, k):
    return And(VC(arr, i, IV(0)) == 0, Implies(0 <= k, VC(arr, i, k + 1) == VC(arr, i, k) + If(arr[k] == i, 1, 0)))


def vc_mono(arr, i, k, n):
    return Implies(And(0 <= k, k < n), And(0 <= VC(arr, i, k), VC(arr, i, k) + If(arr[k] == i, 1, 0) <= VC(arr, i, n)))


@sums.lemma("counts grow", ("C06",))
def _vc():
    arr = z3.Const("arr", AI)
    i, k, n = z3.Ints("i k n")
    g0 = lambda n: Implies(n >= 0, VC(arr, i, n) >= 0)
    g1 = lambda n: vc_mono(arr, i, k, n)
    return [("not negative: base", [vc_def(arr, i, n)], g0(IV(0))), ("not negative: step", [n >= 0, g0(n), vc_def(arr, i, n)], g0(n + 1)),
            ("base", [], g1(IV(0))), ("step", [n >= 0, g1(n), vc_def(arr, i, n), vc_def(arr, i, k), g0(k), g0(n)], g1(n + 1))]


def scarr(g):
    return z3.Select(g.v.key("f.vertex.scc_id"), g.vs)


def lists(a, g, n):
    """Vertex lists of the components below n."""
    A = scarr(a)
    V = lambda w: g.sc("vertices", w)
    st = g.v
    return [("lists are separate blocks", And(forall([w_], Implies(And(0 <= w_, w_ < n), And(V(w_) > 0, V(w_) < st.nb, Not(st.freed(V(w_))), LEN(V(w_)) == 4 * a.sc("size", w_))), [V(w_)]),
                                              forall([w_, x_], Implies(And(0 <= w_, w_ < x_, x_ < n), V(w_) != V(x_)), [[V(w_), V(x_)]]))),
            ("each vertex is listed at its place", forall([w_, x_], Implies(And(0 <= w_, w_ < n, inr(a, x_), A[x_] == w_), And(0 <= VC(A, w_, x_), VC(A, w_, x_) < a.sc("size", w_), st.cell("c.i32", V(w_), VC(A, w_, x_)) == x_)), [[V(w_), A[x_]]]))]


def sv_inv(k):
    def f(L):
        a, g = Gr(L.pre, L["ddg"]), Gr(L.st, L["ddg"])
        A = scarr(a)
        i = L.i if k == 0 else L.up()
        new = forall([w_], Implies(And(0 <= w_, w_ < i), g.sc("vertices", w_) >= L.pre.nb), [g.sc("vertices", w_)])
        out = [("i", And(0 <= i, i <= a.nscc)), ("fresh lists", new)] + lists(a, g, i)
        if k == 1:
            v = L.v("vertices")
            K_ = L.v("k")
            mono = [("@def", And(vc_def(A, i, L.i), forall([x_], vc_mono(A, i, x_, a.n), [A[x_]])))]
            out = mono + out + [("i", i < a.nscc), ("j", And(0 <= L.i, L.i <= a.n)), ("list", And(v.blk >= L.pre.nb, v.off == 0, v.blk < L.st.nb, Not(L.st.freed(v.blk)), LEN(v.blk) == 4 * a.sc("size", i),
                                forall([w_], Implies(And(0 <= w_, w_ < i), g.sc("vertices", w_) != v.blk), [g.sc("vertices", w_)]))), ("listed so far", K_ == VC(A, i, L.i)),
                                ("entries so far", forall([x_], Implies(And(0 <= x_, x_ < L.i, A[x_] == i), And(0 <= VC(A, i, x_), VC(A, i, x_) < K_, L.st.cell("c.i32", v.blk, VC(A, i, x_)) == x_)), [A[x_]]))]
        return out
    return f


contract("compute_scc_vertices", props=("C06",), nloops=2, requires=lambda c: (lambda g: gwf(c, "ddg") + [ids(g), ("components", And(0 <= g.nscc, g.nscc <= g.n)),
                     ("sizes", forall([w_], Implies(And(0 <= w_, w_ < g.nscc), And(g.sc("size", w_) >= 0, g.sc("size", w_) == VC(scarr(g), w_, g.n))), [g.sc("size", w_)]))])(Gr(c.pre, c["ddg"])),
         modifies=lambda c: {"f.scc.vertices": [Gr(c.pre, c["ddg"]).sccs]}, loops={k: sv_inv(k) for k in range(2)},
         ensures=lambda c: lists(Gr(c.pre, c["ddg"]), Gr(c.post, c["ddg"]), Gr(c.pre, c["ddg"]).nscc))
