"""Executable contracts for C05: conversions to and from isl sets, emptiness, union, intersection, projection, lexicographic minimum.

The oracle writes the described set as text, lets isl parse it and compares sets exactly; small cases are also enumerated point by point."""
import itertools
import re

from nat import *

PC = "pluto_constraints"
HUGE = [2**31 - 1, 2**31, -2**31, -2**31 - 1, 2**32, 2**32 + 1, -2**32, 2**33 + 5, -2**40 - 7, 2**62, -2**62 + 3, 2**63 - 1, -2**63 + 1]
COEF = [0, 0, 0, 1, 1, -1, -1, 2, -2, 3, -3, 5]


def ictx(lib):
    c = getattr(lib, "_islctx", None)
    if c is None:
        c = lib._islctx = lib.call("isl_ctx_alloc", "p:")
    return c


def term(row, names):
    t = " + ".join("%d*%s" % (c, v) for c, v in zip(row, names) if c)
    return (t + " + " if t else "") + "%d" % row[-1]


def text(systems, nc, names=None, head=None):
    names = names or ["x%d" % i for i in range(nc - 1)]
    head = head or "[%s]" % ", ".join(names)
    ds = []
    for R, E in systems:
        ds.append("%s : %s" % (head, " and ".join("%s %s 0" % (term(r, names), "=" if e else ">=") for r, e in zip(R, E)) or "1 >= 0"))
    return "{ %s }" % "; ".join(ds) if ds else "{ %s : 1 = 0 }" % head


def rd(lib, kind, s):
    p = lib.call("isl_%s_read_from_str" % kind, "p:ps", ictx(lib), s.encode())
    assert p, s
    return p


def same(lib, kind, a, b):
    """Takes neither."""
    r = lib.call("isl_%s_is_equal" % kind, "i:pp", a, b)
    assert r >= 0
    return bool(r)


def show(lib, kind, a):
    p = lib.call("isl_%s_to_str" % kind, "p:p", a)
    s = lib.cstr(p)
    lib.libc.free(p)
    return s


def toobig(s):
    """The polyhedral library's own form of the set needs coefficients beyond 64 bits."""
    return any(len(x) > 18 for x in re.findall(r"\d+", s))


def expect(lib, got, want, what):
    """got, want: lists of systems (rows, eqs), same number of columns."""
    (g, nc), w = got, want
    a, b = rd(lib, "set", text(g, nc)), rd(lib, "set", text(w, nc))
    if not same(lib, "set", a, b) and not toobig(show(lib, "set", b)):
        raise Fail("%s: got %s, expected %s" % (what, show(lib, "set", a), show(lib, "set", b)))
    lib.call("isl_set_free", "p:p", a)
    lib.call("isl_set_free", "p:p", b)


def out(lib, c, nc, what):
    r = lib.rdcst(c)
    for n, R, E in r:
        eq(n, nc, what + ": columns")
    return [(R, E) for n, R, E in r], nc


def rsys(rng, nc, big=False, maxr=4):
    n = rng.randint(0, maxr)
    R = [[rng.choice(COEF) for _ in range(nc)] for _ in range(n)]
    for r in R:
        r[-1] = rng.randint(-9, 9)
    if R and big:
        # one large coefficient: the simplified forms still fit in 64 bits
        if n == 1:
            R[0][rng.randrange(nc)] = rng.choice(HUGE)
        else:
            rng.choice(R)[rng.randrange(nc)] = rng.choice([x for x in HUGE if abs(x) < 2**41])
    return [R, [1 if rng.random() < .3 else 0 for _ in R]]


def unchanged(lib, c, d, what):
    got = [[R, E] for _, R, E in lib.rdcst(c)]
    eq(got, [[list(map(list, R)), list(E)] for R, E in d], what + ": operand modified")


# ------------------------------------------------------------------ conversions
def g_conv(rng):
    nc = rng.choice([1, 2, 3, 4])
    return dict(nc=nc, sys=[rsys(rng, nc, rng.random() < .5) for _ in range(rng.choice([1, 1, 2, 3]))], er=rng.choice([0, 2]))


def r_conv(lib, d):
    nc = d["nc"]
    c = lib.cstlist(d["sys"], nc, d["er"])
    b = lib.call("isl_basic_set_from_pluto_constraints", "p:pp", ictx(lib), c)
    s = lib.call("isl_set_from_basic_set", "p:p", lib.call("isl_basic_set_copy", "p:p", b))
    w = rd(lib, "set", text(d["sys"][:1], nc))
    if not same(lib, "set", s, w):
        raise Fail("isl_basic_set_from_pluto_constraints: got %s, expected %s" % (show(lib, "set", s), show(lib, "set", w)))
    q = lib.call("isl_basic_set_to_pluto_constraints", "p:pp", b, lib.ctx())
    expect(lib, out(lib, q, nc, "basic set back"), d["sys"][:1], "isl_basic_set_to_pluto_constraints")
    lib.freecst(q)
    for x in (s, w):
        lib.call("isl_set_free", "p:p", x)
    lib.call("isl_basic_set_free", "p:p", b)
    s = lib.call("isl_set_from_pluto_constraints", "p:pp", c, ictx(lib))
    w = rd(lib, "set", text(d["sys"], nc))
    if not same(lib, "set", s, w):
        raise Fail("isl_set_from_pluto_constraints: got %s, expected %s" % (show(lib, "set", s), show(lib, "set", w)))
    q = lib.call("isl_set_to_pluto_constraints", "p:pp", s, lib.ctx())
    expect(lib, out(lib, q, nc, "set back"), d["sys"], "isl_set_to_pluto_constraints")
    lib.freecst(q)
    for x in (s, w):
        lib.call("isl_set_free", "p:p", x)
    unchanged(lib, c, d["sys"], "conversion")
    lib.opt(islsolve=1)
    we = rd(lib, "set", text(d["sys"], nc))
    eq(bool(lib.call("pluto_constraints_is_empty", "i:p", c)), bool(lib.call("isl_set_is_empty", "i:p", we)), "pluto_constraints_is_empty")
    lib.call("isl_set_free", "p:p", we)
    unchanged(lib, c, d["sys"], "pluto_constraints_is_empty")
    lib.freecst(c)
    return True


def g_map(rng):
    ni, no, np_ = rng.randint(0, 2), rng.randint(0, 2), rng.randint(0, 1)
    return dict(ni=ni, no=no, np=np_, sys=rsys(rng, ni + no + np_ + 1, rng.random() < .4))


def r_map(lib, d):
    ni, no, np_ = d["ni"], d["no"], d["np"]
    nc = ni + no + np_ + 1
    I, O, P = ["i%d" % k for k in range(ni)], ["o%d" % k for k in range(no)], ["p%d" % k for k in range(np_)]
    c = lib.cst(d["sys"][0], d["sys"][1], nc)
    b = lib.call("isl_basic_map_from_pluto_constraints", "p:ppiii", ictx(lib), c, ni, no, np_)
    b = lib.call("isl_map_from_basic_map", "p:p", b)
    head = "[%s] -> [%s]" % (", ".join(I), ", ".join(O))
    pre = "[%s] -> " % ", ".join(P) if P else ""
    if P:
        for k, p in enumerate(P):
            b = lib.call("isl_map_set_dim_name", "p:piis", b, 1, k, p.encode())
    w = rd(lib, "map", pre + text([d["sys"]], nc, O + I + P, head))
    if not same(lib, "map", b, w):
        raise Fail("isl_basic_map_from_pluto_constraints: got %s, expected %s" % (show(lib, "map", b), show(lib, "map", w)))
    bm = rd(lib, "basic_map", pre + text([d["sys"]], nc, O + I + P, head))
    q = lib.call("isl_basic_map_to_pluto_constraints", "p:pp", bm, lib.ctx())
    got, n2 = out(lib, q, nc, "isl_basic_map_to_pluto_constraints")
    g = rd(lib, "map", pre + text(got, nc, I + O + P, head))
    if not same(lib, "map", g, w):
        raise Fail("isl_basic_map_to_pluto_constraints: got %s, expected %s" % (show(lib, "map", g), show(lib, "map", w)))
    for x in (b, w, g):
        lib.call("isl_map_free", "p:p", x)
    lib.call("isl_basic_map_free", "p:p", bm)
    lib.freecst(q)
    lib.freecst(c)
    return bool(d["sys"][0])


def g_val(rng):
    k = rng.randrange(4)
    if k == 0:
        v = rng.choice([0, 1, -1, 2**31, -2**31, 2**32, -2**32, 2**32 - 1, 2**63 - 1, -2**63, 2**63, -2**63 - 1, 2**64, -2**64, 2**62]) + rng.randint(-2, 2)
    else:
        v = rng.getrandbits(rng.choice([8, 31, 33, 62, 63, 64, 65, 70, 130])) * rng.choice([1, -1])
    return dict(v=str(v))


def r_val(lib, d):
    v = int(d["v"])
    p = lib.call("isl_val_read_from_str", "p:ps", ictx(lib), d["v"].encode())
    got = lib.call("isl_val_get_num_ll", "l:p", p)
    lib.call("isl_val_free", "p:p", p)
    eq(got, min(max(v, -2**63), 2**63 - 1), "isl_val_get_num_ll(%d)" % v)
    return v != 0


# ------------------------------------------------------------------ union, intersection
def g_two(rng):
    nc = rng.choice([1, 2, 3, 4])
    m = rng.random() < .3
    return dict(nc=nc, a=[rsys(rng, nc, m) for _ in range(rng.choice([1, 1, 2]))], b=[rsys(rng, nc, m) for _ in range(rng.choice([1, 1, 2]))], er=rng.choice([0, 3]), op=rng.randrange(4))


OPS = ["pluto_constraints_union_isl", "pluto_constraints_unionize_isl", "pluto_constraints_intersection_isl", "pluto_constraints_intersect_isl"]


def r_two(lib, d):
    nc = d["nc"]
    a, b = lib.cstlist(d["a"], nc, d["er"]), lib.cstlist(d["b"], nc)
    fn = OPS[d["op"]]
    r = lib.call(fn, "p:pp", a, b)
    if d["op"] < 2:
        want = d["a"] + d["b"]
    else:
        want = [[x[0] + y[0], x[1] + y[1]] for x in d["a"] for y in d["b"]]
    expect(lib, out(lib, r, nc, fn), want, fn)
    unchanged(lib, b, d["b"], fn)
    if d["op"] % 2:
        eq(r, a, fn + ": result is the first operand")
    else:
        unchanged(lib, a, d["a"], fn)
        lib.freecst(r)
    lib.freecst(a)
    lib.freecst(b)
    return True


# ------------------------------------------------------------------ projection
def g_proj(rng):
    nc = rng.choice([2, 3, 4, 5])
    st = rng.randrange(nc - 1)
    num = rng.randint(0, nc - 1 - st)
    s = [rsys(rng, nc, False, 5) for _ in range(rng.choice([1, 1, 2]))]
    for R, E in s:       # unit coefficients on the eliminated dimensions: the projection has no divs
        for r in R:
            for k in range(st, st + num):
                r[k] = max(-1, min(1, r[k]))
    return dict(nc=nc, start=st, num=num, sys=s)


def r_proj(lib, d):
    nc, st, num = d["nc"], d["start"], d["num"]
    s = lib.call("isl_set_project_out", "p:piuu", rd(lib, "set", text(d["sys"][:1], nc)), 3, st, num)
    exact = lib.call("isl_set_n_basic_set", "i:p", s)
    c = lib.cst(d["sys"][0][0], d["sys"][0][1], nc)
    cell = lib.malloc(8)
    lib.putptr(cell, [c])
    lib.call("pluto_constraints_project_out_isl_single", "v:pii", cell, st, num)
    c = lib.ptrs(cell, 1)[0]
    got = out(lib, c, nc - num, "pluto_constraints_project_out_isl_single")
    g = rd(lib, "set", text(got[0], nc - num))
    # never loses a point; exact where the projection is itself a plain polyhedron
    if not lib.call("isl_set_is_subset", "i:pp", s, g):
        raise Fail("pluto_constraints_project_out_isl_single lost points: got %s, expected %s" % (show(lib, "set", g), show(lib, "set", s)))
    plain = lib.call("isl_set_remove_divs", "p:p", lib.call("isl_set_copy", "p:p", s))
    if not same(lib, "set", g, plain):
        raise Fail("pluto_constraints_project_out_isl_single: got %s, expected %s" % (show(lib, "set", g), show(lib, "set", plain)))
    for x in (s, g, plain):
        lib.call("isl_set_free", "p:p", x)
    lib.freecst(c)
    lib.libc.free(cell)
    c = lib.cstlist(d["sys"], nc)
    lib.call("pluto_constraints_project_out_isl", "v:pii", c, st, num)
    got = out(lib, c, nc - num, "pluto_constraints_project_out_isl")
    s = lib.call("isl_set_project_out", "p:piuu", rd(lib, "set", text(d["sys"], nc)), 3, st, num)
    s = lib.call("isl_set_remove_divs", "p:p", s)
    g = rd(lib, "set", text(got[0], nc - num))
    if not same(lib, "set", g, s):
        raise Fail("pluto_constraints_project_out_isl: got %s, expected %s" % (show(lib, "set", g), show(lib, "set", s)))
    for x in (s, g):
        lib.call("isl_set_free", "p:p", x)
    lib.freecst(c)
    return num > 0


# ------------------------------------------------------------------ lexicographic minimum
def g_lex(rng):
    nc = rng.choice([2, 3, 4])
    R, E = rsys(rng, nc, False)
    B = rng.choice([3, 4])
    return dict(nc=nc, sys=[R, E], B=B, neg=rng.randrange(2), off=rng.choice([0, 0, 2**33, -2**34]))


def r_lex(lib, d):
    nc, B, off = d["nc"], d["B"], d["off"] if d["neg"] else max(0, d["off"])
    R, E = [list(r) for r in d["sys"][0]], list(d["sys"][1])
    # shift the first variable by off, box everything
    R = [r[:-1] + [r[-1] - r[0] * off] for r in R]
    for k in range(nc - 1):
        lo = -B if d["neg"] else -1
        o = off if k == 0 else 0
        R.append([1 if j == k else 0 for j in range(nc - 1)] + [-(lo + o)])
        R.append([-1 if j == k else 0 for j in range(nc - 1)] + [B + o])
        E += [0, 0]
    best = None
    for pt in itertools.product(*[range((-B if d["neg"] else -1) + (off if k == 0 else 0), B + 1 + (off if k == 0 else 0)) for k in range(nc - 1)]):
        if not d["neg"] and min(pt) < 0:
            continue
        if all((v == 0) if e else (v >= 0) for v, e in ((sum(a * b for a, b in zip(r, pt)) + r[-1], e) for r, e in zip(R, E))):
            best = list(pt)
            break
    c = lib.cst(R, E, nc)
    lib.opt(islsolve=1, pipsolve=0)
    fn = ["pluto_constraints_lexmin_isl", "pluto_constraints_lexmin"][B % 2]
    p = lib.call(fn, "p:pi", c, d["neg"])
    got = lib.i64s(p, nc - 1) if p else None
    eq(got, best, fn)
    if p:
        lib.libc.free(p)
    unchanged(lib, c, [[R, E]], fn)
    lib.freecst(c)
    return best is not None


CHECKS = [
    dict(name="conversions_emptiness", gen=g_conv, run=r_conv, n=dict(quick=3000, thorough=40000)),
    dict(name="maps", gen=g_map, run=r_map, n=dict(quick=2000, thorough=30000)),
    dict(name="values", gen=g_val, run=r_val, n=dict(quick=2000, thorough=30000)),
    dict(name="union_intersection", gen=g_two, run=r_two, n=dict(quick=2500, thorough=30000)),
    dict(name="projection", gen=g_proj, run=r_proj, n=dict(quick=2000, thorough=30000)),
    dict(name="lexmin", gen=g_lex, run=r_lex, n=dict(quick=2500, thorough=30000)),
]
