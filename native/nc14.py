"""Executable contracts for C14: index-set splitting and constant bounds."""
from nat import *
from progs import *
from progen import *


# ------------------------------------------------------------------ splitting
def g_iss(rng):
    P = g_prog(rng, nstmts=rng.choice([1, 1, 2, 3]), maxdeps=4, mindeps=rng.choice([0, 1, 2]))
    s = rng.randrange(len(P["stmts"]))
    nc = P["stmts"][s]["dim"] + P["npar"] + 1
    hs = []
    for _ in range(rng.choice([1, 1, 2])):
        h = [rng.choice([0, 0, 1, 1, -1, 2]) for _ in range(nc - 1)] + [rng.choice([0, -1, 1, -2])]
        hs.append(h)
    for k, S in enumerate(P["stmts"]):
        acc = lambda: dict(name=rng.choice("AB"), mat=[[rng.choice([0, 1, -1]) for _ in range(S["dim"] + P["npar"] + 1)]])
        S["reads"], S["writes"] = [acc() for _ in range(rng.randint(0, 2))], [acc()]
    return dict(P=P, s=s, hs=hs)


def half(lib, fn, h, nc):
    c = lib.cst([h], [1], nc)
    r = lib.call(fn, "p:p", c)
    lib.freecst(c)
    return r


def r_iss(lib, d):
    P, s, hs = d["P"], d["s"], d["hs"]
    S = P["stmts"][s]
    npar, n = P["npar"], len(P["stmts"])
    nc = S["dim"] + npar + 1
    prog = mkprog(lib, P)
    before = rdprog(lib, prog)
    cuts = []
    for k, h in enumerate(hs):
        neg, pos = half(lib, "pluto_hyperplane_get_negative_half_space", h, nc), half(lib, "pluto_hyperplane_get_non_negative_half_space", h, nc)
        if not cuts:
            cuts = [neg, pos]
        else:
            new = []
            for c in cuts:
                for q in (neg, pos):
                    m = lib.call("pluto_constraints_dup", "p:p", c)
                    lib.call("pluto_constraints_add", "p:pp", m, q)
                    new.append(m)
            cuts = new
    cs = [lib.rdcst1(c)[1:] for c in cuts]
    arr = lib.malloc(8 * len(cuts))
    lib.putptr(arr, cuts)
    for x in pts([], [], S["los"], S["his"]):
        k = sum(holds(R, E, x) for R, E in cs)
        if k != 1:
            raise Fail("the half spaces of %r contain the point %r %d times" % (hs, x, k))
    lib.call("pluto_iss", "v:ppip", stmt(lib, prog, s), arr, len(cuts), prog)
    a = rdprog(lib, prog)
    eq(a["nstmts"], n + len(cuts), "number of statements after splitting")
    for k in range(n):
        eq(a["stmts"][k], before["stmts"][k], "statement %d after splitting" % k)
    dom = pts(S["dom"][0], S["dom"][1], S["los"], S["his"])
    seen = {}
    for k in range(len(cuts)):
        T = a["stmts"][n + k]
        eq(T["id"], n + k, "number of the new statement")
        for x in pts(T["dom"][0], T["dom"][1], S["los"], S["his"]):
            if x in seen:
                raise Fail("iteration %r is in the pieces %d and %d" % (x, seen[x], k))
            seen[x] = k
        for f in ("dim", "dim_orig", "trans", "hyp", "iters", "reads", "writes", "tnc", "dnc", "orig"):
            eq(T[f], before["stmts"][s][f], "%s of the copy" % f)
    eq(sorted(seen), sorted(dom), "iterations covered by the pieces")
    # dependences: the instances, mapped back, are those of the original dependences
    orig = lambda t: s if t >= n else t
    want, got = {}, {}
    for D in P["deps"]:
        for x in instances(P, D):
            if D["src"] == s and tuple(x[0]) + tuple(x[2]) not in seen or D["dest"] == s and tuple(x[1]) + tuple(x[2]) not in seen:
                continue
            key = (D["src"], D["dest"], D["type"]) + x
            want[key] = want.get(key, 0) + 1
    for D in a["deps"]:
        if D["src"] == s or D["dest"] == s:
            raise Fail("a dependence still refers to the split statement")
        so, do = orig(D["src"]), orig(D["dest"])
        A, B = P["stmts"][so], P["stmts"][do]
        los, his = [0] * (A["dim"] + B["dim"]) + [1] * npar, A["his"][:A["dim"]] + B["his"][:B["dim"]] + [3] * npar
        if len(D["poly"]) != 1 or D["poly"][0][0] != A["dim"] + B["dim"] + npar + 1:
            raise Fail("dependence polytope has the wrong shape")
        for x in pts(D["poly"][0][1], D["poly"][0][2], los, his):
            i, j, p = x[:A["dim"]], x[A["dim"]:A["dim"] + B["dim"]], x[A["dim"] + B["dim"]:]
            for t, it in ((D["src"], i), (D["dest"], j)):
                if t >= n and seen.get(tuple(it) + tuple(p)) != t - n:
                    raise Fail("dependence instance %r refers to an iteration outside its piece" % (x,))
            key = (so, do, D["type"], i, j, p)
            got[key] = got.get(key, 0) + 1
    for k in set(want) | set(got):
        if want.get(k, 0) != got.get(k, 0):
            raise Fail("dependence instance %r occurs %d times, expected %d" % (k, got.get(k, 0), want.get(k, 0)))
    for c, (R, E) in zip(cuts, cs):
        eq(lib.rdcst1(c)[1:], (R, E), "cut modified")
    lib.call("pluto_remove_stmt", "v:pu", prog, s) if False else None
    freeprog(lib, prog)
    return True


# ------------------------------------------------------------------ constant bounds
def g_bnd(rng):
    return dict(sys=[[[[rng.choice([0, 1, -1, 1, -1, 2, -3]), rng.choice([0, 1, -1, 5, -7, 12, 2**33, -2**34])] for _ in range(n)], [int(rng.random() < .15) for _ in range(n)]]
                     for n in [rng.randint(0, 4) for _ in range(rng.choice([1, 1, 2]))]], up=rng.randrange(2))


def bound(R, E, up):
    """Integer range of x; (lo, hi), None = unbounded; 'empty'."""
    lo = hi = None
    for (a, c), e in zip(R, E):
        if a == 0:
            if (c != 0) if e else (c < 0):
                return "empty"
            continue
        if e:
            if c % a:
                return "empty"
            b = [(-c) // a] * 2
        else:
            b = [-(c // a), None] if a > 0 else [None, c // -a]
        if b[0] is not None:
            lo = b[0] if lo is None else max(lo, b[0])
        if b[1] is not None:
            hi = b[1] if hi is None else min(hi, b[1])
    if lo is not None and hi is not None and lo > hi:
        return "empty"
    return hi if up else lo


def r_bnd(lib, d):
    bs = [bound(R, E, d["up"]) for R, E in d["sys"]]
    if "empty" in bs:
        return False
    c = lib.cstlist(d["sys"], 2)
    cell = lib.malloc(8)
    fn = "pluto_constraints_get_const_" + ("ub" if d["up"] else "lb")
    ret = lib.call(fn, "i:pip", c, 0, cell)
    v = lib.i64s(cell, 1)[0]
    if ret:
        for b in bs:
            if b is None or (v < b if d["up"] else v > b):
                raise Fail("%s reports %d, which is not a bound of every system (%r)" % (fn, v, bs))
        if v != bs[0]:
            raise Fail("%s reports %d, the constant bound is %d" % (fn, v, bs[0]))
    elif None not in bs and len(set(bs)) == 1:
        raise Fail("%s finds no constant bound; it is %d" % (fn, bs[0]))
    eq([[R, E] for _, R, E in lib.rdcst(c)], d["sys"], "operand modified")
    lib.freecst(c)
    lib.libc.free(cell)
    return True


CHECKS = [
    dict(name="splitting", gen=g_iss, run=r_iss, n=dict(quick=1500, thorough=20000)),
    dict(name="constant_bounds", gen=g_bnd, run=r_bnd, n=dict(quick=5000, thorough=50000)),
]
