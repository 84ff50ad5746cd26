"""Executable contracts for C11: loops, bands, parallelism and permutability (polyloop.c)."""
from nat import *
from progs import *
import progen
from progen import diffs, direction

U = ctypes.c_uint


def gen(rng):
    P = progen.g_prog(rng, nstmts=rng.choice([1, 2, 3, 3, 4]), nh=rng.randint(1, 5), mindeps=0, maxdeps=5, scal=0.35,
                      coefs=rng.choice([(0, 1), (0, 1, 1, -1), (1, 1, 0, 2, -1)]))
    nh = len(P["hprops"])
    for l in range(nh):
        mixed = any(any(S["trans"][l][:S["dim"]]) for S in P["stmts"])
        for S in P["stmts"]:
            if mixed:                     # a loop level: statements constant there sit at 0
                if not any(S["trans"][l][:S["dim"]]):
                    S["trans"][l] = [0] * len(S["trans"][l])
            else:
                S["trans"][l] = [0] * (len(S["trans"][l]) - 1) + [rng.choice([0, 0, 1, 2])]
            S["hyp"][l] = H_LOOP if any(S["trans"][l][:S["dim"]]) else H_SCALAR
        P["hprops"][l] = H_LOOP if mixed else H_SCALAR
    if rng.random() < 0.15:
        P["stmts"][-1]["type"] = 1
    return dict(prog=P, tl=rng.choice([0, 0, 0, 1]))


def loop_rows(P):
    nh = len(P["hprops"])
    return lambda k, l: any(P["stmts"][k]["trans"][l][:P["stmts"][k]["dim"]])


def under(P, ids, d):
    """Loops of the scattering tree below depth d for the statements ids: (depth, statements)."""
    isl = loop_rows(P)
    nh = len(P["hprops"])
    if d >= nh:
        return []
    if any(isl(k, d) and P["stmts"][k].get("type", 0) == 0 for k in ids):
        return [(d, tuple(k for k in ids if isl(k, d)))] + under(P, ids, d + 1)
    groups = {}
    for k in ids:
        groups.setdefault(P["stmts"][k]["trans"][d][-1], []).append(k)
    out = []
    for g in groups.values():
        out += under(P, g, d + 1)
    return out


def dominated(P, a, b):
    """Is loop a inside loop b?"""
    isl = loop_rows(P)
    if b[0] >= a[0]:
        return False
    s, t = a[1][0], b[1][0]
    for l in range(b[0] + 1):
        if not isl(s, l) and not isl(t, l) and P["stmts"][s]["trans"][l][-1] != P["stmts"][t]["trans"][l][-1]:
            return False
    return True


def rdloop(lib, p):
    g = lambda f: lib.get("pLoop", f, p)
    return (g("depth"), tuple(sorted(lib.get("statement", "id", s) for s in lib.ptrs(g("stmts"), g("nstmts")))))


def rdband(lib, p):
    return rdloop(lib, lib.get("band", "loop", p)) + (lib.get("band", "width", p),)


def run(lib, inp):
    P = inp["prog"]
    nh = len(P["hprops"])
    prog = mkprog(lib, P)
    n = len(P["stmts"])
    isl = loop_rows(P)
    orig = [S.get("type", 0) == 0 for S in P["stmts"]]
    lib.call("pluto_compute_dep_directions", "v:p", prog)
    lib.call("pluto_compute_dep_satisfaction", "v:p", prog)
    D = P["deps"]
    V = [list(zip(*[diffs(P, d, l) for l in range(nh)])) for d in D]
    dirs = [[direction([v[l] for v in V[k]]) for l in range(nh)] for k in range(len(D))]
    lev = [next((l for l in range(nh) if all(v[l] > 0 for v in V[k])), -1) for k in range(len(D))]
    before = rdprog(lib, prog)
    rdl = lambda p, c: sorted(rdloop(lib, x) for x in lib.ptrs(p, c))
    rdb = lambda p, c: sorted(rdband(lib, x) for x in lib.ptrs(p, c))
    cnt = U(0)
    ref = ctypes.addressof(cnt)
    norm = lambda ls: sorted((d, tuple(sorted(s))) for d, s in ls)
    tree = under(P, list(range(n)), 0)
    p = lib.call("pluto_get_all_loops", "p:pp", prog, ref)
    allp = lib.ptrs(p, cnt.value)
    eq(rdl(p, cnt.value), norm(tree), "all loops")
    inner = lambda L: under(P, list(L[1]), L[0] + 1) == []
    p2 = lib.call("pluto_get_innermost_loops", "p:pp", prog, ref)
    eq(rdl(p2, cnt.value), norm(x for x in tree if inner(x)), "innermost loops")
    p2 = lib.call("pluto_get_outermost_loops", "p:pp", prog, ref)
    eq(rdl(p2, cnt.value), norm(x for x in tree if not any(dominated(P, x, y) for y in tree)), "outermost loops")
    # parallel loops
    carried = lambda L: any(d["type"] != RAR and d["src"] in L[1] and d["dest"] in L[1] and
                            any(all(y == 0 for y in v[:L[0]]) and v[L[0]] != 0 for v in V[k]) for k, d in enumerate(D))
    par = {}
    for q in allp:
        L = rdloop(lib, q)
        r = lib.call("pluto_loop_is_parallel", "i:pp", prog, q)
        par[L] = bool(r)
        if r and not all(orig[s] for s in L[1]):
            raise Fail("loop %s over added statements reported parallel" % (L,))
        if r and carried(L):
            raise Fail("loop at level %d over statements %s reported parallel but it carries a dependence" % L)
        if not r and all(orig[s] for s in L[1]):
            # every reported-sequential loop has a dependence with a component there that no earlier level fully satisfies
            if not any(d["type"] != RAR and d["src"] in L[1] and d["dest"] in L[1] and dirs[k][L[0]] != "0" and (lev[k] == -1 or L[0] <= lev[k]) for k, d in enumerate(D)):
                raise Fail("loop at level %d over statements %s reported sequential without a dependence there" % L)
        for s in L[1]:
            r1 = lib.call("pluto_loop_is_parallel_for_stmt", "i:ppp", prog, q, stmt(lib, prog, s))
            if r1 and any(d["type"] != RAR and d["src"] == s == d["dest"] and any(all(y == 0 for y in v[:L[0]]) and v[L[0]] != 0 for v in V[k]) for k, d in enumerate(D)):
                raise Fail("loop at level %d reported parallel for statement %d, which carries a dependence there" % (L[0], s))
        eq(bool(lib.call("pluto_loop_is_innermost", "i:pp", q, prog)), inner(L), "is loop %s innermost" % (L,))
        c2 = U(0)
        ps = lib.call("pluto_get_loops_immediately_inner", "p:ppp", q, prog, ctypes.addressof(c2))
        eq(rdl(ps, c2.value), norm(x for x in under(P, list(L[1]), L[0]) if x[0] == L[0] + 1), "loops immediately inside %s" % (L,))
        if all(orig[s] for s in L[1]):
            c = any(d["type"] != RAR and d["src"] != d["dest"] and d["src"] in L[1] and d["dest"] in L[1] and
                    any(all(y == 0 for y in v[:l]) and v[l] != 0 for v in V[k] for l in range(L[0], nh)) for k, d in enumerate(D))
            if c and not lib.call("pluto_satisfies_inter_stmt_dep", "i:ppi", prog, q, L[0]):
                raise Fail("levels %d.. of %s said to carry no dependence between different statements, but they do" % (L[0], L))
            c = any(d["type"] != RAR and d["src"] in L[1] and d["dest"] in L[1] and 0 <= lev[k] < L[0] and dirs[k][L[0]] != "0" for k, d in enumerate(D))
            eq(bool(lib.call("pluto_loop_has_satisfied_dep_with_component", "i:pp", prog, q)), c, "satisfied dependence with a component at %s" % (L,))
    p2 = lib.call("pluto_get_parallel_loops", "p:pp", prog, ref)
    pl = [x for x in tree if par[(x[0], tuple(sorted(x[1])))]]
    eq(rdl(p2, cnt.value), norm(pl), "parallel loops")
    p2 = lib.call("pluto_get_dom_parallel_loops", "p:pp", prog, ref)
    eq(rdl(p2, cnt.value), norm(x for x in pl if not any(dominated(P, x, y) for y in pl)), "outermost parallel loops")
    # permutable bands
    bands = []
    for q in allp:
        L = rdloop(lib, q)
        b = lib.call("pluto_get_permutable_band", "p:pp", q, prog)
        scal = lambda l: all(not isl(s, l) for s in L[1])
        want = 0
        for l in range(L[0], nh):
            ok = True
            for k, d in enumerate(D):
                if d["type"] == RAR or d["src"] not in L[1] or d["dest"] not in L[1] or lev[k] == -1 or lev[k] < L[0]:
                    continue
                if lev[k] < l and scal(lev[k]):
                    continue
                if dirs[k][l] in "*-":
                    ok = False
            if not ok:
                break
            want = l - L[0] + 1
        while want > 0 and scal(L[0] + want - 1):
            want -= 1
        if b:
            B = rdband(lib, b)
            eq(B[:2], L, "loop of the band")
            if B[2] > max(want, 1):
                raise Fail("band of %d levels at %s reported permutable; only %d are" % (B[2], L, want))
            eq(B[2], want, "width of the band at %s" % (L,))
            bands.append(B)
            db = lib.call("pluto_band_dup", "p:p", b)
            eq(rdband(lib, db), B, "duplicated band")
            lib.call("pluto_band_free", "v:p", db)
            lib.call("pluto_band_free", "v:p", b)
        elif want >= 2:
            raise Fail("no band at %s; %d levels are permutable" % (L, want))
        # parallel band
        c2 = ctypes.c_int(0)
        b = lib.call("pluto_get_parallel_band", "p:ppp", q, prog, ctypes.addressof(c2))
        B = rdband(lib, b)
        eq(B[:2], L, "loop of the parallel band")
        for k, d in enumerate(D):
            if d["type"] != RAR and d["src"] in L[1] and d["dest"] in L[1] and (lev[k] == -1 or lev[k] >= L[0]):
                for l in range(L[0], L[0] + B[2]):
                    if lev[k] >= 0 and any(all(y == 0 for y in v[:l]) and v[l] != 0 for v in V[k]):
                        raise Fail("level %d of the parallel band at %s of width %d carries dependence %d" % (l, L, B[2], k))
        lib.call("pluto_band_free", "v:p", b)
    dom = lambda bs: sorted(a for a in bs if not any(set(a[1]) <= set(b[1]) and (a[0] > b[0] or a[0] == b[0] and a[2] < b[2]) for b in bs))
    p2 = lib.call("pluto_get_outermost_permutable_bands", "p:pp", prog, ref)
    eq(rdb(p2, cnt.value), dom(bands), "outermost permutable bands")
    innermost = [b for b in bands if not any(isl(s, l) for s in b[1] for l in range(b[0] + (inp["tl"] + 1) * b[2], nh))]
    p2 = lib.call("pluto_get_innermost_permutable_bands", "p:pup", prog, inp["tl"], ref)
    eq(rdb(p2, cnt.value), dom(innermost), "innermost permutable bands")
    eq(rdprog(lib, prog), before, "program")
    freeprog(lib, prog)
    return len(tree) > 0


def gen_sub(rng):
    n = rng.randint(1, 5)
    return dict(n=n, a=[rng.randrange(n) for _ in range(rng.randint(0, 4))], b=[rng.randrange(n) for _ in range(rng.randint(0, 4))], x=rng.randrange(n))


def run_sub(lib, inp):
    P = dict(npar=0, stmts=[dict(dim=1, dom=[[], []], trans=[[1, 0]], hyp=[1], orig=[1]) for _ in range(inp["n"])])
    prog = mkprog(lib, P)
    arr = {}
    for f in "ab":
        arr[f] = lib.malloc(8 * max(1, len(inp[f])))
        lib.putptr(arr[f], [stmt(lib, prog, k) for k in inp[f]])
    a, b = inp["a"], inp["b"]
    eq(bool(lib.call("pluto_stmt_is_subset_of", "i:pipi", arr["a"], len(a), arr["b"], len(b))), set(a) <= set(b), "subset")
    eq(bool(lib.call("pluto_stmt_is_member_of", "i:ipi", inp["x"], arr["b"], len(b))), inp["x"] in b, "member")
    freeprog(lib, prog)
    return True


CHECKS = [dict(name="loops", gen=gen, run=run, n={"quick": 5000, "thorough": 80000}, secs={"quick": 60, "thorough": 900}),
          dict(name="stmt_sets", gen=gen_sub, run=run_sub, n={"quick": 500, "thorough": 4000})]
