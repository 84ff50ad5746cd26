"""Executable contracts for C03 (constraint-system edits)."""
import copy
import ctypes
from nat import *

VALS = BIG[:-1] + SMALL
PC = "pluto_constraints"


def s64(x):
    return (x + 2**63) % 2**64 - 2**63


def g_sys(rng, nc=None, minr=0, minc=1, maxr=4, n=None, vals=None):
    """A union of systems: dict(nc, sys=[(rows, eqs)], er, ec, names)."""
    nc = rng.randint(minc, 5) if nc is None else nc
    n = rng.choice([1, 1, 1, 2, 3]) if n is None else n
    v = vals or rng.choice([VALS, SMALL])
    out = []
    for _ in range(n):
        nr = rng.randint(minr, maxr)
        out.append([rnd_rows(rng, nr, nc, v), [rng.choice([0, 0, 1]) for _ in range(nr)]])
    names = None
    if rng.random() < .4:
        names = [rng.choice([None, "i", "j", "N", "kk"]) for _ in range(nc - 1)]
    return dict(nc=nc, sys=out, er=rng.choice([0, 0, 1, 3]), ec=rng.choice([0, 0, 1, 2]), names=names)


def mk(lib, s):
    head = prev = None
    for rows, eqs in s["sys"]:
        c = lib.cst(rows, eqs, s["nc"], s["er"], s["ec"])
        if s.get("names") is not None:
            setnames(lib, c, s["names"])
        if prev:
            lib.set(PC, "next", prev, c)
        head = head or c
        prev = c
    return head


def setnames(lib, c, names):
    a = lib.malloc(8 * max(1, len(names)))
    lib.putptr(a, [lib.strdup(x) if x is not None else None for x in names])
    lib.set(PC, "names", c, a)


def rdnames(lib, c):
    p = lib.get(PC, "names", c)
    if not p:
        return None
    return [lib.cstr(x) for x in lib.ptrs(p, lib.get(PC, "ncols", c) - 1)]


def probe(lib, c):
    """The recorded capacity is really there, rows do not overlap, the list is intact."""
    while c:
        anr, anc = lib.get(PC, "alloc_nrows", c), lib.get(PC, "alloc_ncols", c)
        rp = lib.ptrs(lib.get(PC, "val", c), anr)
        for k, p in enumerate(rp):
            for j in range(anc):
                ctypes.c_int64.from_address(p + 8 * j)
            lib.call("verif_fill", "v:pl", p, anc)
        srt = sorted(rp)
        for a, b in zip(srt, srt[1:]):
            if anc and b - a < 8 * anc:
                raise Fail("rows overlap")
        lib.put32(lib.get(PC, "is_eq", c), [])
        c = lib.get(PC, "next", c)


def done(lib, *cs):
    for c in cs:
        probe(lib, c)
        lib.freecst(c)


def rd(lib, c):
    return [[rows, eqs] for nc, rows, eqs in lib.rdcst(c)], [x[0] for x in lib.rdcst(c)]


def expect(lib, c, sys, nc, what):
    got, ncs = rd(lib, c)
    for g in got:
        g[1] = [1 if e else 0 for e in g[1]]
    eq(ncs, [nc] * len(sys), what + ": columns")
    eq(got, sys, what)


def edit(name, sig, args, model, n=None, **gk):
    """In-place edit of every disjunct: model(rows, eqs, nc, args) -> (rows, eqs, nc)."""
    def gen(rng):
        s = g_sys(rng, **gk)
        return dict(s=s, args=args(rng, s))

    def run(lib, inp):
        s = inp["s"]
        c = mk(lib, s)
        lib.call(name, "v:p" + sig, c, *inp["args"])
        want, nc2 = [], None
        for rows, eqs in copy.deepcopy(s["sys"]):
            r, e, nc2 = model(rows, eqs, s["nc"], inp["args"])
            want.append([r, e])
        expect(lib, c, want, nc2, "%s%r on %d columns, %r" % (name, tuple(inp["args"]), s["nc"], s["sys"]))
        done(lib, c)
        return any(r for r, e in s["sys"])
    return dict(name=name, gen=gen, run=run, n=n or {"quick": 12000, "thorough": 200000})


nr0 = lambda s: len(s["sys"][0][0])
dimpos = lambda rng, s: [rng.randrange(s["nc"] - 1)]
rowpos = lambda rng, s: [rng.randrange(nr0(s))]
C64 = [0, 1, -1, 5, -7, 2**31, -2**33, 2**62]


def m_rmrow(R, E, nc, a):
    return R[:a[0]] + R[a[0] + 1:], E[:a[0]] + E[a[0] + 1:], nc


def m_rmdim(R, E, nc, a):
    return [r[:a[0]] + r[a[0] + 1:] for r in R], E, nc - 1


def m_swap(R, E, nc, a):
    for r in R:
        r[a[0]], r[a[1]] = r[a[1]], r[a[0]]
    return R, E, nc


def m_bound(lo, e):
    def f(R, E, nc, a):
        v, b = a
        r = [0] * nc
        r[v] = lo
        r[nc - 1] = -b if lo == 1 else b
        return R + [r], E + [e], nc
    return f


def m_negc(R, E, nc, a):
    R[a[0]] = [s64(-x) for x in R[a[0]]]
    R[a[0]][nc - 1] = s64(R[a[0]][nc - 1] - 1)
    return R, E, nc


def m_zrow(R, E, nc, a):
    R[a[0]] = [0] * nc
    return R, E, nc


def m_adddim(R, E, nc, a):
    return [r[:a[0]] + [0] + r[a[0]:] for r in R], E, nc + 1


def g_adddim(rng):
    s = g_sys(rng)
    return dict(s=s, pos=rng.randrange(s["nc"]), name=rng.choice([None, "x"]), lead=rng.randint(0, 3) if rng.random() < .3 else None)


def r_adddim(lib, inp):
    s = inp["s"]
    c = mk(lib, s)
    if inp["lead"] is not None:
        k = inp["lead"]
        lib.call("pluto_constraints_add_leading_dims", "v:pi", c, k)
        expect(lib, c, [[[[0] * k + r for r in R], E] for R, E in s["sys"]], s["nc"] + k, "pluto_constraints_add_leading_dims(%d)" % k)
    else:
        lib.call("pluto_constraints_add_dim", "v:pis", c, inp["pos"], inp["name"].encode() if inp["name"] else None)
        want = [list(m_adddim(R, E, s["nc"], [inp["pos"]])[:2]) for R, E in s["sys"]]
        expect(lib, c, want, s["nc"] + 1, "pluto_constraints_add_dim(%d) on %r" % (inp["pos"], s["sys"]))
        if s["names"] is not None:
            nm = rdnames(lib, c)
            if nm is not None:
                eq(nm[:inp["pos"]] + nm[inp["pos"] + 1:], s["names"], "names of the other dimensions after pluto_constraints_add_dim(%d)" % inp["pos"])
    done(lib, c)
    return any(r for r, e in s["sys"])


def r_rmdim_names(lib, inp):
    s = inp["s"]
    c = mk(lib, s)
    p = inp["args"][0]
    lib.call("pluto_constraints_remove_dim", "v:pi", c, p)
    expect(lib, c, [list(m_rmdim(R, E, s["nc"], [p])[:2]) for R, E in s["sys"]], s["nc"] - 1, "pluto_constraints_remove_dim(%d)" % p)
    if s["names"] is not None and s["nc"] > 2:
        nm = rdnames(lib, c)
        if nm is not None:
            eq(nm, s["names"][:p] + s["names"][p + 1:], "names after pluto_constraints_remove_dim(%d)" % p)
    done(lib, c)


def g_rmdim(rng):
    s = g_sys(rng, minc=2)
    return dict(s=s, args=dimpos(rng, s))


def g_resize(rng):
    s = g_sys(rng)
    return dict(s=s, nr=rng.randint(0, 6), nc=rng.randint(1, 7), single=rng.random() < .5)


def r_resize(lib, inp):
    s, nr, nc = inp["s"], inp["nr"], inp["nc"]
    c = mk(lib, s)
    if inp["single"]:
        lib.call("pluto_constraints_resize_single", "v:puu", c, nr, nc)
    else:
        lib.call("pluto_constraints_resize", "v:pii", c, nr, nc)
    got, ncs = rd(lib, c)
    eq(len(got), len(s["sys"]), "list length after resize")
    for k, (R, E) in enumerate(s["sys"]):
        if k and inp["single"]:
            eq((got[k], ncs[k]), ([R, E], s["nc"]), "resize_single changed another element")
            continue
        eq((len(got[k][0]), ncs[k]), (nr, nc), "extents after resize")
        for i in range(nr):
            w = (R[i] if i < len(R) else [0] * s["nc"])
            m = min(nc, s["nc"])
            eq(got[k][0][i][:m], w[:m], "row %d after resize of %r to %d x %d" % (i, R, nr, nc))
            eq(got[k][0][i][m:], [0] * (nc - m), "new columns of row %d after resize" % i)
            eq(1 if got[k][1][i] else 0, E[i] if i < len(E) else 0, "kind of row %d after resize" % i)
    done(lib, c)
    return bool(s["sys"][0][0])


def g_two(rng, single1=False, single2=False, same=True):
    a = g_sys(rng, n=1 if single1 else None)
    b = g_sys(rng, nc=a["nc"] if same else None, n=1 if single2 else None)
    return dict(a=a, b=b)


def r_add(lib, inp):
    a, b = mk(lib, inp["a"]), mk(lib, inp["b"])
    r = lib.call("pluto_constraints_add", "p:pp", a, b)
    eq(r, a, "pluto_constraints_add returns its first argument")
    (R, E), (S, F) = inp["a"]["sys"][0], inp["b"]["sys"][0]
    expect(lib, a, [[R + S, E + F]], inp["a"]["nc"], "pluto_constraints_add")
    expect(lib, b, inp["b"]["sys"], inp["b"]["nc"], "second operand of pluto_constraints_add")
    done(lib, a, b)
    return bool(R) and bool(S)


def r_addeach(lib, inp):
    a, b = mk(lib, inp["a"]), mk(lib, inp["b"])
    lib.call("pluto_constraints_add_to_each", "p:pp", a, b)
    S, F = inp["b"]["sys"][0]
    expect(lib, a, [[R + S, E + F] for R, E in inp["a"]["sys"]], inp["a"]["nc"], "pluto_constraints_add_to_each(%r, %r)" % (inp["a"]["sys"], inp["b"]["sys"]))
    expect(lib, b, inp["b"]["sys"], inp["b"]["nc"], "second operand of pluto_constraints_add_to_each")
    done(lib, a, b)
    return bool(S)


def r_copy(lib, inp):
    a, b = mk(lib, inp["a"]), mk(lib, inp["b"])
    A, B = inp["a"], inp["b"]
    if inp["single"]:
        lib.call("pluto_constraints_copy_single", "p:pp", a, b)
        got, ncs = rd(lib, a)
        eq((got, ncs), ([B["sys"][0]] + A["sys"][1:], [B["nc"]] + [A["nc"]] * (len(A["sys"]) - 1)), "pluto_constraints_copy_single of %r into %r" % (B, A))
    else:
        lib.call("pluto_constraints_copy", "p:pp", a, b)
        expect(lib, a, B["sys"], B["nc"], "pluto_constraints_copy of %r into %r" % (B, A))
    if B["nc"] > 1:
        eq(rdnames(lib, a), B["names"], "names after copy")
    expect(lib, b, B["sys"], B["nc"], "source of a copy")
    done(lib, a)
    expect(lib, b, B["sys"], B["nc"], "source of a copy after overwriting the copy")
    done(lib, b)
    return bool(B["sys"][0][0])


def g_copy(rng):
    d = g_two(rng, same=False)
    d["single"] = rng.random() < .4
    return d


def r_dup(lib, inp):
    s = inp["s"]
    a = mk(lib, s)
    one = inp["single"]
    b = lib.call("pluto_constraints_dup_single" if one else "pluto_constraints_dup", "p:p", a)
    expect(lib, b, s["sys"][:1] if one else s["sys"], s["nc"], "pluto_constraints_dup")
    probe(lib, b)
    expect(lib, a, s["sys"], s["nc"], "original after overwriting its duplicate")
    lib.freecst(b)
    expect(lib, a, s["sys"], s["nc"], "original after freeing its duplicate")
    done(lib, a)
    return bool(s["sys"][0][0])


def g_conv(rng):
    s = g_sys(rng, n=1)
    return dict(s=s, kind=rng.choice(["to_matrix", "from_matrix", "mixed", "ineq", "eq", "select", "pure", "neq", "nz", "half", "empty", "universe", "num", "alloc", "pip"]), pos=rng.randint(0, 3))


def r_conv(lib, inp):
    s, k = inp["s"], inp["kind"]
    (R, E), nc = s["sys"][0], s["nc"]
    c = mk(lib, s)
    PM = "pluto_constraints_"
    out = None
    if k == "to_matrix":
        m = lib.call(PM + "to_matrix", "p:p", c)
        eq(lib.rdmat(m), (len(R), nc + 1, [[0 if e else 1] + r for r, e in zip(R, E)]), "pluto_constraints_to_matrix")
        out = lib.call(PM + "from_matrix", "p:p", m)
        expect(lib, out, [[R, E]], nc, "pluto_constraints_from_matrix")
        lib.freemat(m)
    elif k == "from_matrix":
        M = [[x] + r for x, r in zip([0, 1, -3, 2], R)]
        m = lib.mat(M, nc + 1, 1, 1)
        out = lib.call(PM + "from_matrix", "p:p", m)
        expect(lib, out, [[R[:4], [1 if x == 0 else 0 for x, _ in zip([0, 1, -3, 2], R)]]], nc, "pluto_constraints_from_matrix")
        eq(lib.rdmat(m)[2], M, "matrix after conversion")
        lib.freemat(m)
    elif k in ("mixed", "ineq", "eq"):
        m = lib.mat(R, nc, 0, 1)
        if k == "mixed":
            e = lib.malloc(4 * len(E))
            lib.put32(e, E)
            out = lib.call(PM + "from_mixed_matrix", "p:pp", m, e)
            want = E
        else:
            out = lib.call(PM + ("from_inequalities" if k == "ineq" else "from_equalities"), "p:p", m)
            want = [0 if k == "ineq" else 1] * len(R)
        expect(lib, out, [[R, want]], nc, "constraints from a matrix (%s)" % k)
        eq(lib.rdmat(m)[2], R, "matrix after conversion")
        lib.freemat(m)
    elif k == "select" and R:
        p = inp["pos"] % len(R)
        out = lib.call(PM + "select_row", "p:pi", c, p)
        expect(lib, out, [[[R[p]], [E[p]]]], nc, "pluto_constraints_select_row(%d)" % p)
    elif k == "pure":
        ss = [sum(-r[j] for r, e in zip(R, E) if e) for j in range(nc)]
        if all(abs(x) < 2**62 for x in ss):
            out = lib.call(PM + "to_pure_inequalities_single", "p:p", c)
            want = R + ([ss] if any(E) else [])
            expect(lib, out, [[want, [0] * len(want)]], nc, "pluto_constraints_to_pure_inequalities_single of %r" % (s["sys"],))
    elif k == "neq":
        eq(lib.call(PM + "get_num_equalities", "i:p", c), sum(E), "pluto_constraints_get_num_equalities")
        m = lib.call(PM + "extract_equalities", "p:p", c)
        eq(lib.rdmat(m), (sum(E), nc, [r for r, e in zip(R, E) if e]), "pluto_constraints_extract_equalities")
        lib.freemat(m)
    elif k == "nz":
        eq(lib.call(PM + "get_num_non_zero_coeffs", "i:p", c), sum(1 for r in R for x in r[:nc - 1] if x), "pluto_constraints_get_num_non_zero_coeffs")
    elif k == "half" and R:
        h = lib.cst([R[0]], [1], nc)
        out = lib.call("pluto_hyperplane_get_non_negative_half_space", "p:p", h)
        expect(lib, out, [[[R[0]], [0]]], nc, "pluto_hyperplane_get_non_negative_half_space")
        lib.freecst(out)
        out = lib.call("pluto_hyperplane_get_negative_half_space", "p:p", h)
        w = [s64(-x) for x in R[0]]
        w[-1] = s64(w[-1] - 1)
        expect(lib, out, [[[w], [0]]], nc, "pluto_hyperplane_get_negative_half_space")
        expect(lib, h, [[[R[0]], [1]]], nc, "hyperplane after taking a half space")
        lib.freecst(h)
    elif k == "empty":
        out = lib.call(PM + "empty", "p:ip", nc, lib.ctx())
        expect(lib, out, [[[[0] * (nc - 1) + [1]], [1]]], nc, "pluto_constraints_empty")
    elif k == "universe":
        out = lib.call(PM + "universe", "p:ip", nc, lib.ctx())
        expect(lib, out, [[[], []]], nc, "pluto_constraints_universe")
    elif k == "num":
        eq(lib.call(PM + "num_in_list", "i:p", c), 1, "pluto_constraints_num_in_list")
    elif k == "alloc":
        nr = inp["pos"]
        out = lib.call(PM + "alloc", "p:iip", nr, nc, lib.ctx())
        expect(lib, out, [[[], []]], nc, "pluto_constraints_alloc")
        for p in lib.ptrs(lib.get(PC, "val", out), nr):
            eq(lib.i64s(p, nc), [0] * nc, "fresh row")
        eq(lib.i32s(lib.get(PC, "is_eq", out), nr), [0] * nr, "fresh kinds")
    expect(lib, c, [[R, E]], nc, "operand of %s" % k)
    done(lib, *([c] + ([out] if out else [])))
    return bool(R)


def r_usimple(lib, inp):
    a, b = mk(lib, inp["a"]), mk(lib, inp["b"])
    lib.call("pluto_constraints_unionize_simple", "p:pp", a, b)
    expect(lib, a, inp["a"]["sys"] + inp["b"]["sys"], inp["a"]["nc"], "pluto_constraints_unionize_simple")
    eq(lib.call("pluto_constraints_num_in_list", "i:p", a), len(inp["a"]["sys"]) + len(inp["b"]["sys"]), "pluto_constraints_num_in_list")
    expect(lib, b, inp["b"]["sys"], inp["a"]["nc"], "second operand of pluto_constraints_unionize_simple")
    done(lib, a, b)


def g_shift(rng):
    s = g_sys(rng, minc=2, n=1, vals=[0, 0, 1, -1, 2, -3, 5, 2**20, -2**33])
    p = rng.randrange(s["nc"] - 1)
    f = [rng.choice([0, 0, 1, -1, 2, 3, -4, 2**16, 2**27]) for _ in range(s["nc"])]
    f[p] = 0
    return dict(s=s, pos=p, f=f)


def r_shift(lib, inp):
    s, p, f = inp["s"], inp["pos"], inp["f"]
    (R, E), nc = s["sys"][0], s["nc"]
    c = mk(lib, s)
    m = lib.mat([f], nc)
    lib.call("pluto_constraints_shift_dim", "v:pip", c, p, m)
    expect(lib, c, [[[[x if j == p else x - r[p] * f[j] for j, x in enumerate(r)] for r in R], E]], nc, "pluto_constraints_shift_dim")
    eq(lib.rdmat(m)[2], [f], "shift function")
    lib.freemat(m)
    done(lib, c)
    return bool(R)


CHECKS = [
    edit("pluto_constraints_add_inequality", "", lambda rng, s: [], lambda R, E, nc, a: (R + [[0] * nc], E + [0], nc)),
    edit("pluto_constraints_add_equality", "", lambda rng, s: [], lambda R, E, nc, a: (R + [[0] * nc], E + [1], nc)),
    edit("pluto_constraints_add_constraint", "i", lambda rng, s: [rng.randint(0, 1)], lambda R, E, nc, a: (R + [[0] * nc], E + [a[0]], nc)),
    edit("pluto_constraints_remove_row", "u", rowpos, m_rmrow, minr=1, n=dict(quick=12000, thorough=200000), **{}),
    dict(name="pluto_constraints_remove_dim", gen=g_rmdim, run=r_rmdim_names, n={"quick": 12000, "thorough": 200000}),
    dict(name="pluto_constraints_add_dim", gen=g_adddim, run=r_adddim, n={"quick": 15000, "thorough": 200000}),
    edit("pluto_constraints_interchange_cols", "ii", lambda rng, s: [rng.randrange(s["nc"]), rng.randrange(s["nc"])], m_swap),
    edit("pluto_constraints_add_lb", "il", lambda rng, s: dimpos(rng, s) + [rng.choice(C64)], m_bound(1, 0), minc=2),
    edit("pluto_constraints_add_ub", "il", lambda rng, s: dimpos(rng, s) + [rng.choice(C64)], m_bound(-1, 0), minc=2),
    edit("pluto_constraints_set_var", "il", lambda rng, s: dimpos(rng, s) + [rng.choice(C64)], m_bound(1, 1), minc=2),
    edit("pluto_constraints_zero_row", "i", rowpos, m_zrow, minr=1, **{"n": {"quick": 8000, "thorough": 50000}}),
    edit("pluto_constraints_negate_row", "i", rowpos, lambda R, E, nc, a: ([[s64(-x) for x in r] if k == a[0] else r for k, r in enumerate(R)], E, nc), minr=1),
    edit("pluto_constraints_negate_constraint", "i", rowpos, m_negc, minr=1),
    dict(name="pluto_constraints_resize", gen=g_resize, run=r_resize, n={"quick": 15000, "thorough": 200000}),
    dict(name="pluto_constraints_add", gen=lambda rng: g_two(rng, True, True), run=r_add, n={"quick": 15000, "thorough": 200000}),
    dict(name="pluto_constraints_add_to_each", gen=lambda rng: g_two(rng, False, True), run=r_addeach, n={"quick": 15000, "thorough": 200000}),
    dict(name="pluto_constraints_copy", gen=g_copy, run=r_copy, n={"quick": 20000, "thorough": 300000}),
    dict(name="pluto_constraints_dup", gen=lambda rng: dict(s=g_sys(rng), single=rng.random() < .4), run=r_dup, n={"quick": 12000, "thorough": 200000}),
    dict(name="conversions", gen=g_conv, run=r_conv, n={"quick": 40000, "thorough": 400000}),
    dict(name="pluto_constraints_unionize_simple", gen=lambda rng: g_two(rng), run=r_usimple, n={"quick": 8000, "thorough": 100000}),
    dict(name="pluto_constraints_shift_dim", gen=g_shift, run=r_shift, n={"quick": 10000, "thorough": 100000}),
]
# operations defined on one system only
for ck in CHECKS:
    if ck["name"].split("_constraints_")[-1] in ("remove_row", "zero_row", "negate_row", "negate_constraint"):
        ck["gen"] = (lambda g: lambda rng: (lambda d: (d["s"].update(sys=d["s"]["sys"][:1]), d)[1])(g(rng)))(ck["gen"])
