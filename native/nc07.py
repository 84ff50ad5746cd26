"""Executable contracts for C07: program bookkeeping (program.cpp, transforms.c)."""
import copy
from nat import *
from progs import *

VALS = SMALL + [2**33 + 1, -2**40]


def rsys(rng, nc, vals, lo=0, hi=3):
    n = rng.randint(lo, hi)
    return [rnd_rows(rng, n, nc, vals), [rng.randint(0, 1) for _ in range(n)]]


def g_prog(rng, maxstmts=3, minstmts=1, maxdim=3):
    npar = rng.randint(0, 2)
    vals = rng.choice([SMALL, VALS])
    stmts = []
    for k in range(rng.randint(minstmts, maxstmts)):
        dim = rng.choice([0, 1, 1, 2, 2, 3][:maxdim + 3])
        nc = dim + npar + 1
        nr = rng.randint(0, 4)
        acc = lambda: dict(name=rng.choice("ABC"), mat=rnd_rows(rng, rng.randint(1, 2), nc, vals), er=rng.choice([0, 2]), ec=rng.choice([0, 3]))
        stmts.append(dict(dim=dim, dom=rsys(rng, nc, vals), trans=rnd_rows(rng, nr, nc, vals), hyp=[rng.choice([H_LOOP, H_SCALAR, H_TILE]) for _ in range(nr)],
                          orig=[rng.randint(0, 1) for _ in range(dim)], er=rng.choice([0, 0, 2]), ec=rng.choice([0, 0, 2]), type=rng.randint(0, 1),
                          reads=[acc() for _ in range(rng.randint(0, 2))], writes=[acc() for _ in range(rng.randint(0, 1))],
                          first_tile_dim=rng.randint(0, 3), last_tile_dim=rng.randint(-1, 3)))
    mk = lambda: (lambda s, d: dict(src=s, dest=d, type=rng.randint(0, 3), nc=stmts[s]["dim"] + stmts[d]["dim"] + npar + 1,
                                    poly=rsys(rng, stmts[s]["dim"] + stmts[d]["dim"] + npar + 1, vals, 1), er=rng.choice([0, 2]), ec=rng.choice([0, 2]),
                                    satisfied=rng.randint(0, 1), level=rng.randint(-1, 3)))(rng.randrange(len(stmts)), rng.randrange(len(stmts)))
    return dict(npar=npar, stmts=stmts, deps=[mk() for _ in range(rng.randint(0, 3))], tdeps=[mk() for _ in range(rng.choice([0, 0, 0, 1, 2]))])


def build(lib, P):
    prog = mkprog(lib, P)
    t = P.get("tdeps", [])
    a = lib.malloc(8 * max(1, len(t)))
    lib.putptr(a, [mkdep(lib, d, k) for k, d in enumerate(t)])
    lib.set("plutoProg", "transdeps", prog, a)
    lib.set("plutoProg", "ntransdeps", prog, len(t))
    for k, S in enumerate(P["stmts"]):        # types and tile dims after padding
        st = stmt(lib, prog, k)
        for f in ("first_tile_dim", "last_tile_dim"):
            lib.set("statement", f, st, S[f])
    return prog


def rd(lib, prog):
    """Everything the property talks about."""
    r = rdprog(lib, prog)
    g = lambda f: lib.get("plutoProg", f, prog)
    for k, p in enumerate(lib.ptrs(g("stmts"), g("nstmts"))):
        S = r["stmts"][k]
        S["tile"] = [lib.get("statement", "first_tile_dim", p), lib.get("statement", "last_tile_dim", p)]
        S["text"] = lib.cstr(lib.get("statement", "text", p))
        S["type"] = lib.get("statement", "type", p)
    r["tdeps"] = []
    for p in lib.ptrs(g("transdeps"), g("ntransdeps")):
        q = lambda f: lib.get("dependence", f, p)
        r["tdeps"].append(dict(id=q("id"), src=q("src"), dest=q("dest"), type=q("type"), satisfied=q("satisfied"), level=q("satisfaction_level"),
                               poly=[[n, a, e] for n, a, e in lib.rdcst(q("dpolytope"))] if q("dpolytope") else None,
                               bpoly=[[n, a, e] for n, a, e in lib.rdcst(q("bounding_poly"))] if q("bounding_poly") else None))
    hs = lib.sizes4("hyperplane_properties")
    r["hp"] = [[lib.get("hyperplane_properties", f, g("hProps") + k * hs) for f in ("type", "dep_prop", "band_num", "unroll", "prevec")] for k in range(r["nh"])]
    r["params"] = [lib.cstr(x) for x in lib.ptrs(g("params"), r["npar"])]
    r["pctx"] = lib.rdcst1(g("param_context"))
    r["cctx"] = lib.rdcst1(g("codegen_context"))
    # internal agreement
    for S in r["stmts"]:
        nc = S["dim"] + r["npar"] + 1
        if S["dnc"] != nc or S["tnc"] != nc or any(a["nc"] != nc for a in S["reads"] + S["writes"]):
            raise Fail("statement %d: columns of domain %d, schedule %d, accesses %s; expected %d" % (S["id"], S["dnc"], S["tnc"], [a["nc"] for a in S["reads"] + S["writes"]], nc))
    for D in r["deps"] + r["tdeps"]:
        nc = r["stmts"][D["src"]]["dim"] + r["stmts"][D["dest"]]["dim"] + r["npar"] + 1
        for f in ("poly", "bpoly"):
            if any(x[0] != nc for x in D[f] or []):
                raise Fail("dependence %d: %s has %s columns, expected %d" % (D["id"], f, [x[0] for x in D[f]], nc))
    return r


def cmp(got, want, what):
    if got == want:
        return
    for k in want:
        if got[k] != want[k]:
            if isinstance(want[k], list) and isinstance(got[k], list) and len(got[k]) == len(want[k]):
                for i, (a, b) in enumerate(zip(got[k], want[k])):
                    if a != b:
                        if isinstance(a, dict):
                            f = [x for x in b if a[x] != b[x]]
                            raise Fail("%s: %s[%d].%s: got %r, expected %r" % (what, k, i, f[0], a[f[0]], b[f[0]]))
                        raise Fail("%s: %s[%d]: got %r, expected %r" % (what, k, i, a, b))
            raise Fail("%s: %s: got %r, expected %r" % (what, k, got[k], want[k]))


def ins(row, pos, v=0):
    return row[:pos] + [v] + row[pos:]


def rem(row, pos):
    return row[:pos] + row[pos + 1:]


def each_dep(r, k, f):
    """f(row, pos) applied to the columns of statement k in every dependence; positions given relative to the statement."""
    pass


# ------------------------------------------------------------------ model edits
def m_dim(r, k, col):
    """col(rows, offset): edit of the columns of statement k; offset is where its iterators start."""
    S = r["stmts"][k]
    olddims = [s["dim"] for s in r["stmts"]]
    for D in r["deps"] + r["tdeps"]:
        for f in ("poly", "bpoly"):
            for x in D[f] or []:
                if D["dest"] == k:
                    x[1] = [col(row, olddims[D["src"]]) for row in x[1]]
                if D["src"] == k:
                    x[1] = [col(row, 0) for row in x[1]]
                x[0] += (D["dest"] == k) * (len(col([0] * 50, 0)) - 50) + (D["src"] == k) * (len(col([0] * 50, 0)) - 50)
    for a in S["reads"] + S["writes"]:
        a["mat"] = [col(row, 0) for row in a["mat"]]
        a["nc"] += len(col([0] * 50, 0)) - 50
    S["dom"][0] = [col(row, 0) for row in S["dom"][0]]
    S["dnc"] += len(col([0] * 50, 0)) - 50
    S["trans"] = [col(row, 0) for row in S["trans"]]
    S["tnc"] += len(col([0] * 50, 0)) - 50


def run_op(lib, inp, op):
    P = inp["prog"]
    prog = build(lib, P)
    before = rd(lib, prog)
    want = copy.deepcopy(before)
    extra = op(lib, prog, want, inp)
    got = rd(lib, prog)
    cmp(got, want, inp["op"])
    if extra:
        extra(lib, prog, got)
    freeprog(lib, prog)


def o_build(lib, prog, want, inp):
    P = inp["prog"]
    n = max([len(S["trans"]) for S in P["stmts"]] + [0])
    eq(want["nh"], n, "number of schedule levels")
    eq(want["nvar"], max(S["dim"] for S in P["stmts"]), "nvar")
    eq(want["nstmts"], len(P["stmts"]), "statements")
    for k, (S, M) in enumerate(zip(P["stmts"], want["stmts"])):
        nc = S["dim"] + P["npar"] + 1
        eq(M["id"], k, "statement number")
        eq([M["dim"], M["dim_orig"]], [S["dim"]] * 2, "dimensions")
        eq(M["dom"], S["dom"], "domain")
        eq(M["trans"], S["trans"] + [[0] * nc for _ in range(n - len(S["trans"]))], "padded schedule of statement %d" % k)
        eq(M["iters"], ["i%d" % q for q in range(S["dim"])], "iterator names")
        eq(M["text"], "S%d" % k, "text")
    eq([h[0] for h in want["hp"]], [H_SCALAR] * n, "padding levels")
    eq(want["params"], ["P%d" % k for k in range(P["npar"])], "parameters")


def o_add_dim(lib, prog, want, inp):
    k, pos, tp = inp["k"], inp["pos"], inp["tp"]
    lib.call("pluto_stmt_add_dim", "v:pIispp".replace("I", "u").replace("ispp", "ispp") if False else "v:puisip", stmt(lib, prog, k), pos, tp, b"zT0", inp["hyp"], prog)
    m_dim(want, k, lambda row, o: ins(row, o + pos))
    S = want["stmts"][k]
    S["dim"] += 1
    S["iters"].insert(pos, "zT0")
    S["orig"].insert(pos, 1)
    if tp != -1:
        S["trans"].insert(tp, ins([0] * (S["tnc"] - 1), pos, 1))
        S["hyp"].insert(tp, inp["hyp"])


def o_rem_dim(lib, prog, want, inp):
    k, pos = inp["k"], inp["pos"]
    lib.call("pluto_stmt_remove_dim", "v:pup", stmt(lib, prog, k), pos, prog)
    m_dim(want, k, lambda row, o: rem(row, o + pos))
    S = want["stmts"][k]
    S["dim"] -= 1
    S["iters"].pop(pos)
    S["orig"].pop(pos)


def m_hyp(S, pos, t, row=None):
    S["trans"].insert(pos, row or [0] * S["tnc"])
    S["hyp"].insert(pos, t)


def o_add_hyp(lib, prog, want, inp):
    k, pos = inp["k"], inp["tpos"]
    lib.call("pluto_stmt_add_hyperplane", "v:piu", stmt(lib, prog, k), inp["hyp"], pos)
    S = want["stmts"][k]
    m_hyp(S, pos, inp["hyp"])
    S["tile"] = [x + (x >= pos) for x in S["tile"]]


def o_prog_hyp(lib, prog, want, inp):
    pos = min(inp["tpos"], want["nh"])
    for i in range(want["nh"]):
        hs = lib.sizes4("hyperplane_properties")
        q = lib.get("plutoProg", "hProps", prog) + i * hs
        for f, v in (("type", i % 4), ("dep_prop", (i + 1) % 4), ("band_num", 7 + i), ("unroll", i % 3), ("prevec", i % 2)):
            lib.set("hyperplane_properties", f, q, v)
    want.update(rd(lib, prog))
    lib.call("pluto_prog_add_hyperplane", "v:pii", prog, pos, inp["hyp"])
    want["nh"] += 1
    want["hp"].insert(pos, [inp["hyp"], 0, -1, 0, 0])
    want["hprops"].insert(pos, inp["hyp"])


def o_pad(lib, prog, want, inp):
    # make the depths unequal first
    for k, n in enumerate(inp["extra"][:want["nstmts"]]):
        for _ in range(n):
            lib.call("pluto_stmt_add_hyperplane", "v:piu", stmt(lib, prog, k), H_LOOP, lib.get("pluto_matrix", "nrows", lib.get("statement", "trans", stmt(lib, prog, k))))
    want.update(rd(lib, prog))
    lib.call("pluto_pad_stmt_transformations", "v:p", prog)
    n = max(len(S["trans"]) for S in want["stmts"])
    for S in want["stmts"]:
        while len(S["trans"]) < n:
            p = len(S["trans"])
            m_hyp(S, p, H_SCALAR)
            S["tile"] = [x + (x >= p) for x in S["tile"]]
    while want["nh"] < n:
        want["nh"] += 1
        want["hp"].append([H_SCALAR, 0, -1, 0, 0])
        want["hprops"].append(H_SCALAR)


def o_sink_tr(lib, prog, want, inp):
    k, pos = inp["k"], inp["tpos"]
    lib.call("pluto_sink_transformation", "v:pu", stmt(lib, prog, k), pos)
    m_hyp(want["stmts"][k], pos, H_SCALAR)


def o_sink_stmt(lib, prog, want, inp):
    k, pos, val = inp["k"], inp["pos"], inp["val"]
    lib.call("pluto_sink_statement", "v:piip", stmt(lib, prog, k), pos, val, prog)
    S = want["stmts"][k]
    old = S["dim"]
    m_dim(want, k, lambda row, o: ins(row, o + pos))
    S["dim"] += 1
    S["iters"].insert(pos, "d%d" % old)
    S["orig"].insert(pos, 0)
    row = [0] * S["dnc"]
    row[pos], row[-1] = 1, -val
    S["dom"][0].append(row)
    S["dom"][1].append(1)


def o_inter(lib, prog, want, inp):
    a, b = inp["l1"] % max(1, want["nh"]), inp["l2"] % max(1, want["nh"])
    if want["nh"] == 0:
        return
    for i in range(want["nh"]):
        q = lib.get("plutoProg", "hProps", prog) + i * lib.sizes4("hyperplane_properties")
        for f, v in (("type", i % 4), ("dep_prop", (i + 1) % 4), ("band_num", 7 + i), ("unroll", i % 3), ("prevec", i % 2)):
            lib.set("hyperplane_properties", f, q, v)
    want.update(rd(lib, prog))
    sw = lambda l: l.__setitem__(slice(None), [l[b] if i == a else l[a] if i == b else x for i, x in enumerate(l)])
    if inp["whole"]:
        lib.call("pluto_interchange", "v:pii", prog, a, b)
        for S in want["stmts"]:
            sw(S["trans"]), sw(S["hyp"])
        sw(want["hp"]), sw(want["hprops"])
    else:
        lib.call("pluto_stmt_loop_interchange", "v:pii", stmt(lib, prog, inp["k"]), a, b)
        S = want["stmts"][inp["k"]]
        sw(S["trans"]), sw(S["hyp"])


def is_scalar(row, dim):
    return not any(row[:dim])


def o_innermost(lib, prog, want, inp):
    if want["nh"] == 0:
        return
    depth = inp["l1"] % want["nh"]
    ids = [k for k in inp["subset"] if k < want["nstmts"]] or [0]
    loop = lib.call("pluto_loop_alloc", "p:")
    lib.set("pLoop", "depth", loop, depth)
    lib.set("pLoop", "nstmts", loop, len(ids))
    a = lib.malloc(8 * len(ids))
    lib.putptr(a, [stmt(lib, prog, k) for k in ids])
    lib.set("pLoop", "stmts", loop, a)
    last = depth + 1 + inp["l2"] % (want["nh"] - depth)
    across = inp["whole"]
    S0 = [want["stmts"][k] for k in ids]
    if any(is_scalar(S["trans"][depth], S["dim"]) for S in S0) and not across:
        return       # a loop has a non-constant row
    lib.call("pluto_make_innermost_loop", "v:pubp", loop, last, across, prog)
    if across:
        end = last - 1
    else:
        end = want["nh"] - 1
        for S in S0:
            d = depth
            while d < want["nh"] and not is_scalar(S["trans"][d], S["dim"]):
                d += 1
            end = min(end, d - 1)
    for S in S0:
        for f in ("trans", "hyp"):
            x = S[f].pop(depth)
            S[f].insert(end, x)


def o_sep(lib, prog, want, inp):
    level = min(inp["tpos"], want["nh"])
    if inp["whole"]:
        ids = [k for k in inp["subset"] if k < want["nstmts"]]
        a = lib.malloc(8 * max(1, len(ids)))
        lib.putptr(a, [stmt(lib, prog, k) for k in ids])
        lib.call("pluto_separate_stmts", "v:ppiii", prog, a, len(ids), level, inp["val"])
        at = {k: inp["val"] + 1 + q for q, k in enumerate(ids)}
    else:
        lib.call("pluto_separate_stmt", "v:ppi", prog, stmt(lib, prog, inp["k"]), level)
        at = {inp["k"]: 1}
    for k, S in enumerate(want["stmts"]):
        m_hyp(S, level, H_SCALAR, [0] * (S["tnc"] - 1) + [at.get(k, 0)])
        S["tile"] = [x + (x >= level) for x in S["tile"]]
    want["nh"] += 1
    want["hprops"].insert(level, H_SCALAR)
    want["hp"].insert(level, [H_SCALAR, 3, -1, 0, 0])      # SEQ


def o_dup_stmt(lib, prog, want, inp):
    k = inp["k"]
    src = stmt(lib, prog, k)
    n = lib.call("pluto_stmt_dup", "p:p", src)
    lib.set("statement", "intra_stmt_dep_cst", n, 0)
    lib.call("pluto_add_given_stmt", "v:pp", prog, n)
    c = copy.deepcopy(want["stmts"][k])
    c["id"] = want["nstmts"]
    c["tile"] = [0, -1]
    want["stmts"].append(c)
    want["nstmts"] += 1

    def share(lib, prog, got):
        # the copy owns its parts: editing one leaves the other
        S = [stmt(lib, prog, x) for x in (k, got["nstmts"] - 1)]
        for f in ("domain", "trans", "hyp_types", "text") + (("iterators", "is_orig_loop") if c["dim"] else ()):
            if lib.get("statement", f, S[0]) == lib.get("statement", f, S[1]) and lib.get("statement", f, S[0]):
                raise Fail("copy shares %s with the original" % f)
        for f, m in (("reads", "nreads"), ("writes", "nwrites")):
            A, B = [lib.ptrs(lib.get("statement", f, x), lib.get("statement", m, x)) for x in S]
            if set(A) & set(B) or {lib.get("pluto_access", "mat", x) for x in A} & {lib.get("pluto_access", "mat", x) for x in B}:
                raise Fail("copy shares %s with the original" % f)
    return share


def o_rm_stmt(lib, prog, want, inp):
    k = inp["k"]
    if any(k in (D["src"], D["dest"]) for D in want["deps"]) or want["tdeps"]:
        return
    lib.call("pluto_remove_stmt", "v:pu", prog, k)
    want["stmts"].pop(k)
    want["nstmts"] -= 1
    for i, S in enumerate(want["stmts"]):
        S["id"] = i
    for D in want["deps"]:
        for f in ("src", "dest"):
            D[f] -= D[f] > k


def o_dup_dep(lib, prog, want, inp):
    if not want["deps"]:
        return
    k = inp["k"] % len(want["deps"])
    d = dep(lib, prog, k)
    n = lib.call("pluto_dep_dup", "p:p", d)
    for f in ("dpolytope", "bounding_poly"):
        if lib.get("dependence", f, d) and lib.get("dependence", f, d) == lib.get("dependence", f, n):
            raise Fail("copy shares %s with the original" % f)
    lib.call("pluto_add_dep", "v:pp", prog, n)
    c = copy.deepcopy(want["deps"][k])
    c["id"] = len(want["deps"])
    want["deps"].append(c)


def o_param(lib, prog, want, inp):
    pos = inp["pos"] % (want["npar"] + 1)
    if want["tdeps"]:
        return
    lib.call("pluto_prog_add_param", "v:psi", prog, b"NEW", pos)
    np_ = want["npar"]
    put = lambda row: ins(row, len(row) - 1 - np_ + pos)
    for S in want["stmts"]:
        S["dom"][0] = [put(x) for x in S["dom"][0]]
        S["trans"] = [put(x) for x in S["trans"]]
        S["dnc"] += 1
        S["tnc"] += 1
        for a in S["reads"] + S["writes"]:
            a["mat"] = [put(x) for x in a["mat"]]
            a["nc"] += 1
    for D in want["deps"]:
        for f in ("poly", "bpoly"):
            for x in D[f] or []:
                x[1] = [put(y) for y in x[1]]
                x[0] += 1
    for f in ("pctx", "cctx"):
        n, R, E = want[f]
        want[f] = (n + 1, [put(x) for x in R], E)
    want["npar"] += 1
    want["params"].insert(pos, "NEW")


def o_denorm(lib, prog, want, inp):
    """Pad every statement to the common number of dimensions (at arbitrary positions), then take the padding out again."""
    nv = max(max(s["dim"] for s in want["stmts"]), 1) + inp["extra"][0] % 2
    lib.set("plutoProg", "nvar", prog, nv)
    if "nvar" in want:
        want["nvar"] = nv
    q = 0
    for k, S in enumerate(want["stmts"]):
        while S["dim"] < nv:
            q += 1
            o_sink_stmt(lib, prog, want, dict(k=k, pos=(inp["extra"][q % 4] * 2 + inp["l1"] + q) % (S["dim"] + 1), val=inp["val"]))
    lib.call("denormalize_domains", "v:p", prog)
    for k, S in enumerate(want["stmts"]):
        for pos in reversed(range(nv)):
            if not S["orig"][pos]:
                m_dim(want, k, lambda row, o: rem(row, o + pos))
                S["dim"] -= 1
                S["iters"].pop(pos)
                S["orig"].pop(pos)


OPS = dict(denormalize=o_denorm, build=o_build, add_dim=o_add_dim, remove_dim=o_rem_dim, add_hyperplane=o_add_hyp, prog_add_hyperplane=o_prog_hyp, pad=o_pad, sink_transformation=o_sink_tr, sink_statement=o_sink_stmt,
           interchange=o_inter, make_innermost=o_innermost, separate=o_sep, dup_stmt=o_dup_stmt, remove_stmt=o_rm_stmt, dup_dep=o_dup_dep, add_param=o_param)


def g_op(name):
    def g(rng):
        while True:
            P = g_prog(rng, 4 if name in ("remove_stmt", "separate", "make_innermost") else 3)
            k = rng.randrange(len(P["stmts"]))
            S = P["stmts"][k]
            if name == "remove_dim" and S["dim"] == 0:
                continue
            if name == "remove_stmt":
                P["deps"] = [d for d in P["deps"] if k not in (d["src"], d["dest"])]
                P["tdeps"] = []
            if name == "add_param":
                P["tdeps"] = []
            n = max(len(x["trans"]) for x in P["stmts"])
            ids = list(range(len(P["stmts"])))
            rng.shuffle(ids)
            return dict(op=name, prog=P, k=k, pos=rng.randint(0, S["dim"] - (name == "remove_dim")), tp=rng.choice([-1] + list(range(n + 1))), tpos=rng.randint(0, n), hyp=rng.choice([H_LOOP, H_SCALAR, H_TILE]),
                        extra=[rng.randint(0, 2) for _ in range(4)], val=rng.choice([0, 1, -3, 5]), l1=rng.randint(0, 3), l2=rng.randint(0, 3), whole=bool(rng.randint(0, 1)), subset=ids[:rng.randint(0, len(ids))])
    return g


def mk(name):
    def run(lib, inp):
        run_op(lib, inp, OPS[name])
        return bool(inp["prog"]["stmts"][inp["k"]]["trans"])
    return dict(name=name, gen=g_op(name), run=run, n={"quick": 3000, "thorough": 60000}, secs={"quick": 12, "thorough": 200})


CHECKS = [mk(n) for n in OPS]
