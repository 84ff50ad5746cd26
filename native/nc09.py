"""Executable contracts for C09: the constraints handed to the solver (framework.cpp, pluto.c)."""
import itertools
from fractions import Fraction
from nat import *
from progs import *
import progen
from progen import val, holds, pts, box


def rank(M):
    M = [[Fraction(x) for x in r] for r in M]
    r = 0
    nc = len(M[0]) if M else 0
    for c in range(nc):
        p = next((i for i in range(r, len(M)) if M[i][c]), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        for i in range(r + 1, len(M)):
            f = M[i][c] / M[r][c]
            M[i] = [a - f * b for a, b in zip(M[i], M[r])]
        r += 1
    return r


def gprog(rng, nstmts=None, ndeps=None, maxnv=2):
    """Normalised programs; dependence polytopes are boxes with difference constraints (integral)."""
    nv = rng.randint(1, maxnv)
    P = progen.g_prog(rng, nstmts=nstmts or rng.choice([1, 2, 2, 3]), nh=rng.randint(0, 3), maxdeps=0, nvar=nv, maxdim=nv, npar=rng.choice([0, 1, 1, 2]) if nv == 1 else rng.choice([0, 0, 1]))
    n, npar = len(P["stmts"]), P["npar"]
    for S in P["stmts"]:                  # rows as the scheduler makes them
        for l, r in enumerate(S["trans"]):
            r[nv:nv + npar] = [0] * npar
            if P["hprops"][l] == H_SCALAR:
                r[:nv] = [0] * nv
            r[:] = [abs(x) for x in r]
    deps = []
    for _ in range(ndeps or rng.randint(1, 3)):
        for _try in range(20):
            s, d = rng.randrange(n), rng.randrange(n)
            S, D = P["stmts"][s], P["stmts"][d]
            nc = 2 * nv + npar + 1
            los = [0] * (2 * nv) + [1] * npar
            his = [h + (2 if o else 0) for h, o in zip(S["his"][:nv], S["orig"])] + [h + (2 if o else 0) for h, o in zip(D["his"][:nv], D["orig"])] + [3] * npar
            R = box(nc, los, his)
            E = [0] * len(R)
            for _ in range(rng.randint(0, 3)):
                row = [0] * nc
                a, b = rng.sample(range(nc - 1), 2)
                row[a], row[b], row[-1] = 1, -1, rng.choice([0, 0, 1, -1, 2])
                R.append(row)
                E.append(rng.choice([0, 1]))
            if rng.random() < 0.3:
                row = [0] * nc
                row[rng.randrange(nc - 1)], row[-1] = 1, -rng.randint(0, 2)
                R.append(row)
                E.append(1)
            if pts(R, E, los, his):
                deps.append(dict(src=s, dest=d, type=rng.choice([0, 1, 2, 3]), poly=[R, E], nc=nc, los=los, his=his, satisfied=0, level=-1))
                break
    P["deps"] = deps
    return P


def phi(P, k, c, x, npar):
    """c: coefficients (nvar dims, constant)."""
    return sum(a * b for a, b in zip(c, x)) + c[-1]


def dvals(P, d, cs, cd):
    nv = P["stmts"][0]["dim"]
    ds = nv
    return [(phi(P, d["dest"], cd, x[ds:2 * ds], 0) - phi(P, d["src"], cs, x[:ds], 0), x[2 * ds:]) for x in pts(d["poly"][0], d["poly"][1], d["los"], d["his"])]


def candidates(rng, P, deps, n=12):
    """Coefficient vectors, many on the boundary of legality/boundedness: (u, w, {stmt: coefs})."""
    nv, npar = P["stmts"][0]["dim"], P["npar"]
    for _ in range(n):
        C = {}
        for k, S in enumerate(P["stmts"]):
            C[k] = [rng.choice([0, 0, 1, 1, 2, -1, 3]) if S["orig"][j] else 0 for j in range(nv)] + [rng.choice([0, 0, 1, 2])]
        u = [rng.choice([0, 0, 1, 2]) for _ in range(npar)]
        if deps:
            d = rng.choice(deps)
            if d["src"] != d["dest"]:
                mn = min(v for v, _ in dvals(P, d, C[d["src"]], C[d["dest"]]))
                C[d["dest"]][-1] += -mn + rng.choice([0, 0, -1, 1])
            w = max(v - sum(a * b for a, b in zip(u, p)) for dd in deps for v, p in dvals(P, dd, C[dd["src"]], C[dd["dest"]])) + rng.choice([0, 0, 0, -1, 1])
        else:
            w = 0
        yield u, w, C


def flat(u, w, C, n):
    return list(u) + [w] + [x for k in range(n) for x in C[k]]


def legal(P, d, C):
    return all(v >= 0 for v, _ in dvals(P, d, C[d["src"]], C[d["dest"]]))


def bounded(P, d, C, u, w):
    return all(sum(a * b for a, b in zip(u, p)) + w - v >= 0 for v, p in dvals(P, d, C[d["src"]], C[d["dest"]]))


def sat_sys(sysm, x):
    nc, R, E = sysm
    if nc != len(x) + 1:
        raise Fail("system has %d columns, expected %d" % (nc, len(x) + 1))
    return holds(R, E, x)


def gen_dep(rng):
    return dict(prog=gprog(rng, ndeps=1), nodepbound=rng.choice([0, 0, 0, 1]), seed=rng.randrange(10**6))


def run_dep(lib, inp):
    import random
    P = inp["prog"]
    rng = random.Random(inp["seed"])
    n = len(P["stmts"])
    prog = mkprog(lib, P)
    D = P["deps"][0]
    dp = dep(lib, prog, 0)
    before = rdprog(lib, prog)
    lib.opt(nodepbound=inp["nodepbound"])
    lib.call("compute_pairwise_permutability", "v:pp", dp, prog)
    lib.opt(nodepbound=0)
    sysm = lib.rdcst1(lib.get("dependence", "cst", dp))
    fs = None
    if D["type"] != RAR:
        f = lib.call("get_feautrier_schedule_constraints_dep", "p:pp", dp, prog)
        fs = lib.rdcst1(f)
    bs = None if inp["nodepbound"] else lib.rdcst1(lib.get("dependence", "bounding_cst", dp))
    seen = set()
    for u, w, C in candidates(rng, P, [D], 16):
        x = flat(u, w, C, n)
        want = (D["type"] == RAR or legal(P, D, C)) and (inp["nodepbound"] or bounded(P, D, C, u, w))
        seen.add(want)
        if sat_sys(sysm, x) != bool(want):
            raise Fail("schedule coefficients %s (bounding u=%s w=%s) are %slegal and bounded for the dependence, but the constraints say otherwise" % (C, u, w, "" if want else "not "))
        # statements outside the dependence do not matter
        y = list(x)
        for k in range(n):
            if k not in (D["src"], D["dest"]):
                o = P["npar"] + 1 + k * (P["stmts"][0]["dim"] + 1)
                for j in range(P["stmts"][0]["dim"] + 1):
                    y[o + j] += rng.randint(-2, 2)
        if sat_sys(sysm, y) != bool(want):
            raise Fail("the constraints of a dependence depend on the coefficients of an unrelated statement")
        if bs is not None and sat_sys(bs, x) != bounded(P, D, C, u, w):
            raise Fail("bounding constraints wrong for %s, u=%s w=%s" % (C, u, w))
        if fs is not None:
            strict = all(v >= 1 for v, _ in dvals(P, D, C[D["src"]], C[D["dest"]]))
            if sat_sys(fs, x) != strict:
                raise Fail("coefficients %s: strictly ordered %s, but the one-dimensional schedule constraints say otherwise" % (C, strict))
    after = rdprog(lib, prog)
    eq(after, before, "program")
    freeprog(lib, prog)
    return len(seen) > 1


def gen_glob(rng):
    P = gprog(rng, ndeps=rng.randint(1, 4))
    for d in P["deps"]:
        d["satisfied"] = rng.choice([0, 0, 0, 1])
    return dict(prog=P, percc=rng.choice([0, 0, 1]), rar=rng.randint(0, 1), seed=rng.randrange(10**6), cb=rng.choice([-1, -1, 2, 5]), lazy=rng.randint(0, 1))


def run_glob(lib, inp):
    import random
    P = inp["prog"]
    rng = random.Random(inp["seed"])
    n, npar, nv = len(P["stmts"]), P["npar"], P["stmts"][0]["dim"]
    prog = mkprog(lib, P)
    g = lib.call("ddg_create", "p:p", prog)
    lib.set("plutoProg", "ddg", prog, g)
    lib.call("ddg_compute_scc", "v:p", prog)
    lib.call("ddg_compute_cc", "v:p", prog)
    ncc = lib.get("graph", "num_ccs", g)
    cc = [lib.get("statement", "cc_id", stmt(lib, prog, k)) for k in range(n)]
    lib.opt(per_cc_obj=inp["percc"], rar=inp["rar"], coeff_bound=inp["cb"], flic=rng.randint(0, 1))
    try:
        perm = lib.rdcst1(lib.call("get_permutability_constraints", "p:p", prog))
        perm2 = lib.rdcst1(lib.call("get_permutability_constraints", "p:p", prog))
        bcs = lib.rdcst1(lib.call("get_coeff_bounding_constraints", "p:p", prog))
        nz = lib.rdcst1(lib.call("get_non_trivial_sol_constraints", "p:pb", prog, inp["lazy"]))
        cur = lib.cst(bcs[1], bcs[2], bcs[0])
        li = lib.rdcst1(lib.call("get_linear_ind_constraints", "p:ppb", prog, cur, inp["lazy"]))
        osum = lib.rdcst1(lib.call("get_per_cc_obj_sum_constraints", "p:p", prog)) if inp["percc"] else None
    finally:
        lib.opt(per_cc_obj=0, rar=0, coeff_bound=-1, flic=0)
    act = [d for d in P["deps"] if not d["satisfied"] and (inp["rar"] or d["type"] != RAR)]
    rk = [rank([r[:P["stmts"][k]["dim_orig"]] for r in P["stmts"][k]["trans"]]) if P["stmts"][k]["trans"] and P["stmts"][k]["dim_orig"] else 0 for k in range(n)]
    open_ = [k for k in range(n) if rk[k] < P["stmts"][k]["dim_orig"]]
    nz_by_stmt = 0
    maxc = max([0] + [abs(r[-1]) for S in P["stmts"] for r in S["dom"][0]])
    mix = set()
    for u, w, C in candidates(rng, P, act, 12):
        if inp["percc"]:
            us = [[rng.choice([0, 1, 2]) for _ in range(npar)] for _ in range(ncc)]
            ws = [0] * ncc
            for c in range(ncc):
                mine = [d for d in act if cc[d["src"]] == c]
                if mine:
                    ws[c] = max(v - sum(a * b for a, b in zip(us[c], p)) for d in mine for v, p in dvals(P, d, C[d["src"]], C[d["dest"]])) + rng.choice([0, 0, 0, 0, -1])
            head = [rng.choice([0, 1, 5])] * (npar + 1)
            x = head + [z for c in range(ncc) for z in us[c] + [ws[c]]] + [z for k in range(n) for z in C[k]]
            ub = lambda d: (us[cc[d["src"]]], ws[cc[d["src"]]])
            sums = [sum(([*us[c], ws[c]])[i] for c in range(ncc)) for i in range(npar + 1)]
            for e in (-1, 0, 1):
                y = [s + e for s in sums] + x[npar + 1:]
                eq(sat_sys(osum, y), e >= 0, "objective bounds at the sum of the components' bounds %+d" % e)
            for i in range(npar + 1):
                y = [s - (q == i) for q, s in enumerate(sums)] + x[npar + 1:]
                eq(sat_sys(osum, y), False, "objective bound %d below the sum of the components' bounds" % i)
        else:
            x = flat(u, w, C, n)
            ub = lambda d: (u, w)
        want = all((d["type"] == RAR or legal(P, d, C)) and bounded(P, d, C, *ub(d)) for d in act)
        mix.add(want)
        for sy in (perm, perm2):
            if sat_sys(sy, x) != want:
                raise Fail("coefficients %s are %slegal and bounded for all unsatisfied dependences, but the constraints say otherwise" % (C, "" if want else "not "))
        # side constraints
        off = npar + 1 + ((npar + 1) * ncc if inp["percc"] else 0)
        b = all(z >= 0 for z in x)
        cb = inp["cb"]
        if cb != -1:
            b = b and all(z <= cb for z in x[off:])
        got = sat_sys(bcs, x)
        if got and not b:
            raise Fail("coefficient bounds admit %s" % x)
        if b and not got and (cb != -1 or maxc < 10 or all(z <= maxc for z in x[off:])):
            raise Fail("coefficient bounds exclude %s" % x)
        nonneg = {k: [abs(z) for z in C[k]] for k in C}
        y = x[:off] + [z for k in range(n) for z in nonneg[k]]
        nt = [any(nonneg[k][:nv]) for k in range(n)]
        if inp["lazy"]:
            w2 = not open_ or any(nt[k] for k in open_)
        else:
            w2 = all(nt[k] for k in open_)
        eq(sat_sys(nz, y), w2, "non-triviality of %s" % nonneg)
        if li[1] and sat_sys(li, x):
            newr = {k: rank([r[:P["stmts"][k]["dim_orig"]] for r in P["stmts"][k]["trans"]] + [C[k][:P["stmts"][k]["dim_orig"]]]) > rk[k] for k in open_}
            if not (any if inp["lazy"] else all)(newr.values()):
                raise Fail("coefficients %s satisfy the linear independence constraints but are dependent (statements %s)" % (C, [k for k in newr if not newr[k]]))
    eq(bool(li[1]), bool(open_), "whether independence constraints exist")
    return len(mix) > 1


def gen_lexmin(rng):
    P = gprog(rng, nstmts=rng.choice([1, 1, 2]), ndeps=1)
    n, npar, nv = len(P["stmts"]), P["npar"], P["stmts"][0]["dim"]
    nc = npar + 1 + n * (nv + 1) + 1
    R, E = [], []
    for _ in range(rng.randint(0, 5)):
        row = [0] * nc
        for j in rng.sample(range(nc - 1), min(nc - 1, rng.randint(1, 3))):
            row[j] = rng.choice([1, 1, -1, 2, 3])
        row[-1] = rng.choice([0, -1, -2, 1, -3])
        R.append(row)
        E.append(rng.choice([0, 0, 0, 1]))
    for k in range(nc - 1):
        row = [0] * nc
        row[k], row[-1] = -1, 2
        R.append(row)
        E.append(0)
    return dict(prog=P, rows=R, eqs=E, nc=nc)


def run_lexmin(lib, inp):
    P = inp["prog"]
    n, npar, nv = len(P["stmts"]), P["npar"], P["stmts"][0]["dim"]
    prog = mkprog(lib, P)
    g = lib.call("ddg_create", "p:p", prog)
    lib.set("plutoProg", "ddg", prog, g)
    c = lib.cst(inp["rows"], inp["eqs"], inp["nc"])
    s = lib.call("pluto_prog_constraints_lexmin", "p:pp", c, prog)
    got = lib.i64s(s, inp["nc"] - 1) if s else None
    eq(lib.rdcst(c), [(inp["nc"], inp["rows"], inp["eqs"])], "constraints given")
    free = [True] * (npar + 1) + [bool(o) for S in P["stmts"] for o in S["orig"] + [1]]
    # preference: the bounds first, then per statement the coefficients from the innermost dimension outwards
    order = list(range(npar + 1))
    for k, S in enumerate(P["stmts"]):
        o = npar + 1 + k * (nv + 1)
        order += [o + q for q in reversed(range(S["dim_orig"]))] + [o + nv]
    best = None
    for v in itertools.product(range(3), repeat=len(order)):       # in lexicographic order of preference
        x = [0] * (inp["nc"] - 1)
        for q, z in zip(order, v):
            x[q] = z
        if holds(inp["rows"], inp["eqs"], x):
            best = x
            break
    eq(got, best, "lexicographically smallest solution")
    if s:
        # solution to schedule rows
        before = rdprog(lib, prog)
        lib.call("pluto_add_hyperplane_from_ilp_solution", "v:pp", s, prog)
        after = rdprog(lib, prog)
        for k in range(n):
            o = npar + 1 + k * (nv + 1)
            row = got[o:o + nv] + [0] * npar + [got[o + nv]]
            eq(after["stmts"][k]["trans"], before["stmts"][k]["trans"] + [row], "schedule of statement %d" % k)
            eq(after["stmts"][k]["hyp"], before["stmts"][k]["hyp"] + [H_LOOP if any(row[:nv]) else H_SCALAR], "level types of statement %d" % k)
        eq(after["nh"], before["nh"] + 1, "levels")
        eq(after["hprops"], before["hprops"] + [H_LOOP], "level types")
    return best is not None


CHECKS = [dict(name="one_dependence", gen=gen_dep, run=run_dep, n={"quick": 2500, "thorough": 30000}, secs={"quick": 50, "thorough": 600}),
          dict(name="whole_system", gen=gen_glob, run=run_glob, n={"quick": 1500, "thorough": 20000}, secs={"quick": 50, "thorough": 600}),
          dict(name="solution", gen=gen_lexmin, run=run_lexmin, n={"quick": 2000, "thorough": 20000}, secs={"quick": 40, "thorough": 400})]
