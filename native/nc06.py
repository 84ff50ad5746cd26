"""Executable contracts for C06 (dependence graph, components)."""
from nat import *
from progs import *


def g_graph(rng, nmax=8):
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, nmax])
    p = rng.choice([.05, .12, .2, .35])
    edges = []
    for u in range(n):
        for v in range(n):
            while rng.random() < p:
                edges.append([u, v, rng.choice([0, 0, 1, 2, 2, 3]), 1 if rng.random() < .2 else 0])
                if rng.random() < .6:
                    break
    rng.shuffle(edges)
    # adversarial shapes: long chains in descending and mixed order
    if rng.random() < .3:
        o = list(range(n))
        rng.shuffle(o)
        edges += [[a, b, 0, 0] for a, b in zip(o, o[1:])]
        if rng.random() < .4:
            edges.append([o[-1], o[rng.randrange(n)], 1, 0])
    return dict(n=n, edges=edges, dims=[rng.randint(0, 3) for _ in range(n)], flip=[rng.randrange(2) for _ in edges], order=rng.randrange(3))


def small(tier):
    for n in (1, 2, 3):
        for m in range(1 << (n * n)):
            ed = [[i // n, i % n, 0, 0] for i in range(n * n) if m >> i & 1]
            yield dict(n=n, edges=ed, dims=[1] * n, flip=[0] * len(ed), order=0)
    pairs = [(i, j) for i in range(4) for j in range(4) if i != j]
    step = 1 if tier == "thorough" else 3
    for m in range(0, 1 << 12, step):
        ed = [[u, v, 0, 0] for k, (u, v) in enumerate(pairs) if m >> k & 1]
        yield dict(n=4, edges=ed, dims=[1, 2, 0, 1], flip=[0] * len(ed), order=m % 3)


def build(lib, d):
    return mkprog(lib, dict(npar=0, stmts=[dict(dim=k, dom=[[], []], trans=[]) for k in d["dims"]],
                            deps=[dict(src=u, dest=v, type=t, satisfied=s, level=0 if s else -1, poly=[[], []], nc=d["dims"][u] + d["dims"][v] + 1) for u, v, t, s in d["edges"]]))


def counts(n, edges):
    a = [[0] * n for _ in range(n)]
    for u, v, t, s in edges:
        if t != RAR and not s:
            a[u][v] += 1
    return a


def reach(a):
    n = len(a)
    r = [[bool(a[i][j]) for j in range(n)] for i in range(n)]
    for k in range(n):
        for i in range(n):
            if r[i][k]:
                for j in range(n):
                    r[i][j] = r[i][j] or r[k][j]
    return r


def adj(lib, g):
    nr, nc, rows = lib.rdmat(lib.get("graph", "adj", g))
    eq((nr, nc), (lib.get("graph", "nVertices", g),) * 2, "adjacency extents")
    return rows


def vert(lib, g, f):
    n = lib.get("graph", "nVertices", g)
    p = lib.get("graph", "vertices", g)
    sz = lib.sizes4("vertex")
    return [lib.get("vertex", f, p + k * sz) for k in range(n)]


def check_scc(lib, prog, g, a, dims, what):
    n = len(a)
    r = reach(a)
    ids = vert(lib, g, "scc_id")
    ns = lib.get("graph", "num_sccs", g)
    if sorted(set(ids)) != list(range(ns)):
        raise Fail("%s: component numbers %r, count %d" % (what, ids, ns))
    eq([lib.get("statement", "scc_id", stmt(lib, prog, k)) for k in range(n)], ids, "statements' component numbers")
    for i in range(n):
        for j in range(n):
            same = i == j or (r[i][j] and r[j][i])
            if (ids[i] == ids[j]) != same:
                raise Fail("%s: statements %d and %d: mutually reachable %s, component numbers %d %d" % (what, i, j, same, ids[i], ids[j]))
            if a[i][j] and ids[i] > ids[j]:
                raise Fail("%s: component numbers decrease along the edge %d -> %d: %r" % (what, i, j, ids))
    ssz = (lib.layout_size("scc"))
    sp = lib.get("graph", "sccs", g)
    lib.call("compute_scc_vertices", "v:p", g)
    for s in range(ns):
        q = sp + s * ssz
        mem = [k for k in range(n) if ids[k] == s]
        eq(lib.get("scc", "id", q), s, "component id")
        eq(lib.get("scc", "size", q), len(mem), "component size")
        eq(lib.get("scc", "max_dim", q), max(dims[k] for k in mem), "component dimensionality")
        eq(lib.i32s(lib.get("scc", "vertices", q), len(mem)), mem, "component members")
    lib.call("free_scc_vertices", "v:p", g)


def check_cc(lib, prog, g, a, what):
    n = len(a)
    u = reach([[a[i][j] or a[j][i] for j in range(n)] for i in range(n)])
    ids = vert(lib, g, "cc_id")
    eq([lib.get("statement", "cc_id", stmt(lib, prog, k)) for k in range(n)], ids, "statements' connected-component numbers")
    nc = lib.get("graph", "num_ccs", g)
    if sorted(set(ids)) != list(range(nc)):
        raise Fail("%s: connected-component numbers %r, count %d" % (what, ids, nc))
    for i in range(n):
        for j in range(n):
            if (ids[i] == ids[j]) != (i == j or u[i][j]):
                raise Fail("%s: statements %d and %d: linked %s, connected-component numbers %d %d" % (what, i, j, u[i][j], ids[i], ids[j]))


def r_graph(lib, d):
    n = d["n"]
    prog = build(lib, d)
    g = lib.call("ddg_create", "p:p", prog)
    lib.set("plutoProg", "ddg", prog, g)
    a = counts(n, d["edges"])
    eq(adj(lib, g), a, "ddg_create edge counts")
    steps = [["scc", "cc"], ["cc", "scc"], ["scc", "scc", "cc"]][d["order"]]
    for s in steps:
        lib.call("ddg_compute_" + s, "v:p", prog)
        eq(adj(lib, g), a, "edge counts after computing components")
    check_scc(lib, prog, g, a, d["dims"], "ddg_compute_scc")
    check_cc(lib, prog, g, a, "ddg_compute_cc")
    for i in range(n):
        for j in range(n):
            eq(bool(lib.call("is_adjacent", "b:pii", g, i, j)), bool(a[i][j] or a[j][i]), "is_adjacent(%d,%d)" % (i, j))
    # after satisfaction changes
    ed = []
    for k, (e, f) in enumerate(zip(d["edges"], d["flip"])):
        if f:
            lib.set("dependence", "satisfied", dep(lib, prog, k), not e[3])
        ed.append([e[0], e[1], e[2], (not e[3]) if f else e[3]])
    lib.call("ddg_update", "v:pp", g, prog)
    a = counts(n, ed)
    eq(adj(lib, g), a, "ddg_update edge counts")
    for s in steps[::-1]:
        lib.call("ddg_compute_" + s, "v:p", prog)
    check_scc(lib, prog, g, a, d["dims"], "ddg_compute_scc after update")
    check_cc(lib, prog, g, a, "ddg_compute_cc after update")
    # derived graphs
    t = lib.call("graph_transpose", "p:p", g)
    eq(adj(lib, t), [[a[j][i] for j in range(n)] for i in range(n)], "graph_transpose")
    eq(adj(lib, g), a, "graph after transposition")
    lib.call("graph_free", "v:p", t)
    u = lib.call("get_undirected_graph", "p:p", g)
    A = adj(lib, u)
    for i in range(n):
        for j in range(n):
            if bool(A[i][j]) != bool(a[i][j] or a[j][i]) or A[i][j] != A[j][i]:
                raise Fail("get_undirected_graph: entry %d %d is %d for %r" % (i, j, A[i][j], a))
    eq(adj(lib, g), a, "graph after get_undirected_graph")
    lib.call("graph_free", "v:p", u)
    lib.call("compute_transitive_closure", "v:p", g)
    eq([[bool(x) for x in r] for r in adj(lib, g)], reach(a), "transitive closure of %r" % a)
    freeprog(lib, prog)
    return bool(d["edges"])


CHECKS = [dict(name="dependence graph", gen=g_graph, run=r_graph, exhaustive=small, n={"quick": 6000, "thorough": 200000}, secs={"quick": 40, "thorough": 600})]
