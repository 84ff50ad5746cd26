"""Executable contracts for C01 (matrix edits)."""
from nat import *

VALS = BIG + SMALL


def shape(rng, minr=0, minc=0):
    return rng.randint(minr, 5), rng.randint(minc, 5), rng.choice([0, 0, 1, 3]), rng.choice([0, 0, 1, 3])


def simple(name, sig, args, model, minr=0, minc=0, n=None):
    """In-place edit: model(rows, nr, nc, args) -> (nr, nc, rows)."""
    def gen(rng):
        nr, nc, er, ec = shape(rng, minr, minc)
        return dict(rows=rnd_rows(rng, nr, nc, VALS), nc=nc, er=er, ec=ec, args=args(rng, nr, nc))

    def run(lib, inp):
        m = lib.mat(inp["rows"], inp["nc"], inp["er"], inp["ec"])
        lib.call(name, "v:p" + sig, m, *inp["args"])
        got = lib.rdmat(m)
        want = model([list(r) for r in inp["rows"]], len(inp["rows"]), inp["nc"], inp["args"])
        eq(got, want, "%s%r on %d x %d" % (name, tuple(inp["args"]), len(inp["rows"]), inp["nc"]))
        # capacity really is there: every slot up to the capacity can be written
        val = lib.get("pluto_matrix", "val", m)
        anr, anc = lib.get("pluto_matrix", "alloc_nrows", m), lib.get("pluto_matrix", "alloc_ncols", m)
        for p in lib.ptrs(val, anr):
            lib.call("verif_fill", "v:pl", p, anc)
        lib.freemat(m)
        return bool(inp["rows"]) and inp["nc"] > 0
    return dict(name=name, gen=gen, run=run, n=n or {"quick": 20000, "thorough": 300000})


def s64(x):
    return (x + 2**63) % 2**64 - 2**63


def m_remove_col(R, nr, nc, a):
    return nr, nc - 1, [r[:a[0]] + r[a[0] + 1:] for r in R]


def m_remove_row(R, nr, nc, a):
    return nr - 1, nc, R[:a[0]] + R[a[0] + 1:]


def m_add_col(R, nr, nc, a):
    return nr, nc + 1, [r[:a[0]] + [0] + r[a[0]:] for r in R]


def m_add_row(R, nr, nc, a):
    return nr + 1, nc, R[:a[0]] + [[0] * nc] + R[a[0]:]


def m_negrow(R, nr, nc, a):
    R[a[0]] = [s64(-x) for x in R[a[0]]]
    return nr, nc, R


def m_neg(R, nr, nc, a):
    return nr, nc, [[s64(-x) for x in r] for r in R]


def m_swaprows(R, nr, nc, a):
    R[a[0]], R[a[1]] = R[a[1]], R[a[0]]
    return nr, nc, R


def m_swapcols(R, nr, nc, a):
    for r in R:
        r[a[0]], r[a[1]] = r[a[1]], r[a[0]]
    return nr, nc, R


def m_movecol(R, nr, nc, a):
    for r in R:
        x = r.pop(a[0])
        r.insert(a[1], x)
    return nr, nc, R


def m_set(R, nr, nc, a):
    return nr, nc, [[a[0]] * nc for _ in R]


def m_zrow(R, nr, nc, a):
    R[a[0]] = [0] * nc
    return nr, nc, R


def m_zcol(R, nr, nc, a):
    for r in R:
        r[a[0]] = 0
    return nr, nc, R


def m_rev(R, nr, nc, a):
    return nr, nc, R[::-1]


r1 = lambda rng, nr, nc: [rng.randrange(nr)]
c1 = lambda rng, nr, nc: [rng.randrange(nc)]


def g_resize(rng):
    nr, nc, er, ec = shape(rng)
    return dict(rows=rnd_rows(rng, nr, nc, VALS), nc=nc, er=er, ec=ec, nr2=rng.randint(0, 8), nc2=rng.randint(0, 8))


def r_resize(lib, inp):
    R, nc = inp["rows"], inp["nc"]
    m = lib.mat(R, nc, inp["er"], inp["ec"])
    lib.call("pluto_matrix_resize", "v:pii", m, inp["nr2"], inp["nc2"])
    nr2, nc2, got = lib.rdmat(m)
    eq((nr2, nc2), (inp["nr2"], inp["nc2"]), "pluto_matrix_resize extents")
    for i in range(min(len(R), nr2)):
        k = min(nc, nc2)
        eq(got[i][:k], R[i][:k], "pluto_matrix_resize row %d" % i)
    for p in lib.ptrs(lib.get("pluto_matrix", "val", m), lib.get("pluto_matrix", "alloc_nrows", m)):
        lib.call("verif_fill", "v:pl", p, lib.get("pluto_matrix", "alloc_ncols", m))
    lib.freemat(m)
    return bool(R) and nc > 0


def g_add(rng):
    nr, nc, er, ec = shape(rng)
    return dict(rows=rnd_rows(rng, nr, nc, VALS), nc=nc, er=er, ec=ec, rows2=rnd_rows(rng, rng.randint(0, 4), nc, VALS), er2=rng.choice([0, 2]), ec2=rng.choice([0, 2]))


def r_add(lib, inp):
    a = lib.mat(inp["rows"], inp["nc"], inp["er"], inp["ec"])
    b = lib.mat(inp["rows2"], inp["nc"], inp["er2"], inp["ec2"])
    lib.call("pluto_matrix_add", "v:pp", a, b)
    eq(lib.rdmat(a), (len(inp["rows"]) + len(inp["rows2"]), inp["nc"], inp["rows"] + inp["rows2"]), "pluto_matrix_add")
    eq(lib.rdmat(b), (len(inp["rows2"]), inp["nc"], inp["rows2"]), "pluto_matrix_add changed its second operand")
    lib.freemat(a)
    lib.freemat(b)
    return bool(inp["rows2"]) and inp["nc"] > 0


def g_dup(rng):
    nr, nc, er, ec = shape(rng)
    return dict(rows=rnd_rows(rng, nr, nc, VALS), nc=nc, er=er, ec=ec)


def r_dup(lib, inp):
    a = lib.mat(inp["rows"], inp["nc"], inp["er"], inp["ec"])
    b = lib.call("pluto_matrix_dup", "p:p", a)
    want = (len(inp["rows"]), inp["nc"], inp["rows"])
    eq(lib.rdmat(b), want, "pluto_matrix_dup")
    if b == a:
        raise Fail("dup returned its argument")
    for p in lib.ptrs(lib.get("pluto_matrix", "val", b), lib.get("pluto_matrix", "alloc_nrows", b)):
        lib.call("verif_fill", "v:pl", p, lib.get("pluto_matrix", "alloc_ncols", b))
    eq(lib.rdmat(a), want, "writing the duplicate changed the original")
    lib.freemat(a)
    lib.freemat(b)
    return bool(inp["rows"]) and inp["nc"] > 0


def r_alloc(lib, inp):
    nr, nc = inp["nr"], inp["nc"]
    m = lib.call("pluto_matrix_alloc", "p:iip", nr, nc, lib.ctx())
    eq((lib.get("pluto_matrix", "nrows", m), lib.get("pluto_matrix", "ncols", m)), (nr, nc), "pluto_matrix_alloc extents")
    for p in lib.ptrs(lib.get("pluto_matrix", "val", m), lib.get("pluto_matrix", "alloc_nrows", m)):
        lib.call("verif_fill", "v:pl", p, max(nc, lib.get("pluto_matrix", "alloc_ncols", m)))
    lib.rdmat(m)
    lib.freemat(m)
    if inp["id"]:
        k = max(nr, nc)
        m = lib.call("pluto_matrix_identity", "p:ip", k, lib.ctx())
        eq(lib.rdmat(m), (k, k, [[1 if i == j else 0 for j in range(k)] for i in range(k)]), "pluto_matrix_identity(%d)" % k)
        lib.freemat(m)


def g_eq(rng):
    nr, nc, er, ec = shape(rng)
    R = rnd_rows(rng, nr, nc, VALS)
    S = [list(r) for r in R]
    nc2 = nc
    k = rng.randint(0, 3)
    if k == 1 and nr and nc:
        i, j = rng.randrange(nr), rng.randrange(nc)
        S[i][j] = s64(S[i][j] + rng.choice([1, -1, 2**32, 2**31]))
    elif k == 2:
        S = S[:-1] if S and rng.random() < .5 else S + [[0] * nc]
    elif k == 3:
        nc2 = nc + 1
        S = [r + [0] for r in S]
    return dict(a=R, nc=nc, b=S, nc2=nc2, er=er, ec=ec)


def r_eq(lib, inp):
    a = lib.mat(inp["a"], inp["nc"], inp["er"], inp["ec"])
    b = lib.mat(inp["b"], inp["nc2"])
    got = bool(lib.call("are_pluto_matrices_equal", "b:pp", a, b))
    eq(got, inp["a"] == inp["b"] and inp["nc"] == inp["nc2"], "are_pluto_matrices_equal")
    lib.freemat(a)
    lib.freemat(b)
    return inp["nc"] > 0


CHECKS = [
    dict(name="pluto_matrix_alloc/identity", gen=lambda rng: dict(nr=rng.randint(0, 9), nc=rng.randint(0, 9), id=rng.random() < .5), run=r_alloc, n={"quick": 800, "thorough": 8000}),
    simple("pluto_matrix_remove_col", "i", c1, m_remove_col, 0, 1),
    simple("pluto_matrix_remove_row", "i", r1, m_remove_row, 1, 0),
    simple("pluto_matrix_add_col", "i", lambda rng, nr, nc: [rng.randint(0, nc)], m_add_col),
    simple("pluto_matrix_add_row", "i", lambda rng, nr, nc: [rng.randint(0, nr)], m_add_row),
    simple("pluto_matrix_negate_row", "i", r1, m_negrow, 1, 0),
    simple("pluto_matrix_negate", "", lambda rng, nr, nc: [], m_neg),
    simple("pluto_matrix_interchange_rows", "ii", lambda rng, nr, nc: [rng.randrange(nr), rng.randrange(nr)], m_swaprows, 1, 0),
    simple("pluto_matrix_swap_rows", "ii", lambda rng, nr, nc: [rng.randrange(nr), rng.randrange(nr)], m_swaprows, 1, 0),
    simple("pluto_matrix_interchange_cols", "ii", lambda rng, nr, nc: [rng.randrange(nc), rng.randrange(nc)], m_swapcols, 0, 1),
    simple("pluto_matrix_move_col", "ii", lambda rng, nr, nc: [rng.randrange(nc), rng.randrange(nc)], m_movecol, 0, 1),
    simple("pluto_matrix_set", "i", lambda rng, nr, nc: [rng.choice([0, 1, -1, 5, 2**31 - 1, -2**31])], m_set),
    simple("pluto_matrix_zero_row", "i", r1, m_zrow, 1, 0),
    simple("pluto_matrix_zero_col", "i", c1, m_zcol, 0, 1),
    simple("pluto_matrix_reverse_rows", "", lambda rng, nr, nc: [], m_rev),
    dict(name="pluto_matrix_resize", gen=g_resize, run=r_resize, n={"quick": 20000, "thorough": 300000}),
    dict(name="pluto_matrix_add", gen=g_add, run=r_add, n={"quick": 20000, "thorough": 300000}),
    dict(name="pluto_matrix_dup", gen=g_dup, run=r_dup, n={"quick": 15000, "thorough": 200000}),
    dict(name="are_pluto_matrices_equal", gen=g_eq, run=r_eq, n={"quick": 15000, "thorough": 200000}),
]
