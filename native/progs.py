"""Builds and reads back programs (PlutoProg, Stmt, Dep) in the real library."""
import ctypes
from nat import *

PC = "pluto_constraints"
RAW, WAR, WAW, RAR = 0, 1, 2, 3
H_UNKNOWN, H_LOOP, H_TILE, H_SCALAR = 0, 1, 2, 3


def cstring_array(lib, names):
    a = lib.malloc(8 * max(1, len(names)))
    lib.putptr(a, [lib.strdup(n) for n in names])
    return a


def mkaccess(lib, acc):
    a = lib.malloc(lib.sizes["pluto_access"])
    lib.set("pluto_access", "sym_id", a, acc.get("sym", 0))
    lib.set("pluto_access", "name", a, lib.strdup(acc["name"]))
    lib.set("pluto_access", "mat", a, lib.mat(acc["mat"], len(acc["mat"][0]) if acc["mat"] else acc["nc"], acc.get("er", 0), acc.get("ec", 0)))
    return a


def mkdep(lib, d, k):
    """d: dict(src, dest, type, poly=[rows, eqs], nc, satisfied, level, satvec, dirvec, skip)."""
    p = lib.call("pluto_dep_alloc", "p:")
    s = lambda f, v: lib.set("dependence", f, p, v)
    s("id", k), s("src", d["src"]), s("dest", d["dest"]), s("type", d.get("type", RAW))
    s("satisfied", bool(d.get("satisfied", 0))), s("satisfaction_level", d.get("level", -1))
    if lib.has("dependence", "skipdep"):
        s("skipdep", bool(d.get("skip", 0)))
    if d.get("poly") is not None:
        lists = d["poly"] if isinstance(d["poly"][0], list) and d["poly"] and d["poly"][0] and isinstance(d["poly"][0][0], list) and d["poly"][0][0] and isinstance(d["poly"][0][0][0], list) else [d["poly"]]
        s("dpolytope", lib.cstlist(lists, d["nc"], d.get("er", 0), d.get("ec", 0)))
        s("bounding_poly", lib.cstlist(lists, d["nc"]))
    for f in ("satvec", "dirvec"):
        if d.get(f) is not None:
            a = lib.malloc(4 * max(1, len(d[f])))
            lib.put32(a, [ord(x) if isinstance(x, str) else x for x in d[f]])
            s(f, a)
    return p


def mkprog(lib, P):
    """P: dict(npar, stmts=[dict(dim, dom=[rows, eqs], trans=rows, hyp=[types], reads=[..], writes=[..])], deps=[..], hprops=[types])."""
    prog = lib.call("pluto_prog_alloc", "p:p", lib.ctx())
    for k in range(P["npar"]):
        lib.call("pluto_prog_add_param", "v:psi", prog, ("P%d" % k).encode(), k)
    for k, S in enumerate(P["stmts"]):
        nc = S["dim"] + P["npar"] + 1
        dom = lib.cst(S["dom"][0], S["dom"][1], nc, S.get("er", 0), S.get("ec", 0))
        tr = lib.mat(S["trans"], S.get("tnc", nc), S.get("er", 0), S.get("ec", 0))
        it = cstring_array(lib, S.get("iters") or ["i%d" % q for q in range(S["dim"])])
        lib.call("pluto_add_stmt", "v:pppppi", prog, dom, tr, it, lib.strdup("S%d" % k), S.get("type", 0))
        lib.freecst(dom)
        lib.freemat(tr)
        st = stmt(lib, prog, k)
        s = lambda f, v: lib.set("statement", f, st, v)
        if S.get("hyp") is not None:
            lib.put32(lib.get("statement", "hyp_types", st), S["hyp"])
        if S.get("orig") is not None:
            for q, v in enumerate(S["orig"]):
                ctypes.c_uint8.from_address(lib.get("statement", "is_orig_loop", st) + q).value = v
        for f, n in (("reads", "nreads"), ("writes", "nwrites")):
            acc = S.get(f, [])
            if acc:
                a = lib.malloc(8 * len(acc))
                lib.putptr(a, [mkaccess(lib, x) for x in acc])
                s(f, a)
                s(n, len(acc))
        for f in ("dim_orig", "scc_id", "cc_id", "ploop_id", "first_tile_dim", "last_tile_dim", "num_tiled_loops", "evicted_hyp_pos"):
            if f in S:
                s(f, S[f])
    deps = P.get("deps", [])
    a = lib.malloc(8 * max(1, len(deps)))
    lib.putptr(a, [mkdep(lib, d, k) for k, d in enumerate(deps)])
    lib.set("plutoProg", "deps", prog, a)
    lib.set("plutoProg", "ndeps", prog, len(deps))
    if P.get("hprops") is not None:
        # the levels were created by padding; record the wanted types
        hp = lib.get("plutoProg", "hProps", prog)
        for k, t in enumerate(P["hprops"]):
            q = hp + k * lib.sizes4("hyperplane_properties")
            lib.set("hyperplane_properties", "type", q, t)
            for f, v in (("dep_prop", 0), ("band_num", -1), ("unroll", 0), ("prevec", 0)):
                lib.set("hyperplane_properties", f, q, v)
    for f, v in (("is_diamond_tiled", False), ("evicted_hyp_pos", -1), ("coloured_dims", 0)):
        if lib.has("plutoProg", f):
            lib.set("plutoProg", f, prog, v)
    return prog


def stmt(lib, prog, k):
    return lib.ptrs(lib.get("plutoProg", "stmts", prog), k + 1)[k]


def dep(lib, prog, k):
    return lib.ptrs(lib.get("plutoProg", "deps", prog), k + 1)[k]


def rdacc(lib, a):
    return dict(name=lib.cstr(lib.get("pluto_access", "name", a)), mat=lib.rdmat(lib.get("pluto_access", "mat", a))[2], nc=lib.get("pluto_matrix", "ncols", lib.get("pluto_access", "mat", a)))


def rdstmt(lib, st):
    g = lambda f: lib.get("statement", f, st)
    d = dict(id=g("id"), dim=g("dim"), dim_orig=g("dim_orig"))
    nc, R, E = lib.rdcst1(g("domain"))
    d["dom"] = [R, E]
    d["dnc"] = nc
    nr, tnc, rows = lib.rdmat(g("trans"))
    d["trans"] = rows
    d["tnc"] = tnc
    d["hyp"] = lib.i32s(g("hyp_types"), nr)
    d["iters"] = [lib.cstr(x) for x in lib.ptrs(g("iterators"), d["dim"])]
    d["orig"] = [ctypes.c_uint8.from_address(g("is_orig_loop") + k).value for k in range(d["dim"])]
    for f, n in (("reads", "nreads"), ("writes", "nwrites")):
        d[f] = [rdacc(lib, a) for a in lib.ptrs(g(f), g(n))] if g(n) else []
    return d


def rdprog(lib, prog):
    g = lambda f: lib.get("plutoProg", f, prog)
    S = [rdstmt(lib, p) for p in lib.ptrs(g("stmts"), g("nstmts"))]
    D = []
    for p in lib.ptrs(g("deps"), g("ndeps")):
        q = lambda f: lib.get("dependence", f, p)
        D.append(dict(id=q("id"), src=q("src"), dest=q("dest"), type=q("type"), satisfied=q("satisfied"), level=q("satisfaction_level"),
                      poly=[[n, r, e] for n, r, e in lib.rdcst(q("dpolytope"))] if q("dpolytope") else None,
                      bpoly=[[n, r, e] for n, r, e in lib.rdcst(q("bounding_poly"))] if q("bounding_poly") else None))
    nh = g("num_hyperplanes")
    hs = lib.sizes4("hyperplane_properties")
    return dict(npar=g("npar"), nvar=g("nvar"), nstmts=g("nstmts"), stmts=S, deps=D, nh=nh,
                hprops=[lib.get("hyperplane_properties", "type", g("hProps") + k * hs) for k in range(nh)])


def freeprog(lib, prog):
    # dependences: pluto_dep_free frees satvec only along with dirvec; harmless for us (leaks are not checked)
    lib.call("pluto_prog_free", "v:p", prog)
