"""Executable contracts for C02 (exact integer linear algebra)."""
import math
from fractions import Fraction
from nat import *

W63 = 2**63
MED = [0, 0, 1, -1, 2, -2, 3, 6, -9, 10, 35, 1000, -4096, 65537, 2**20, -2**21 + 1, 2**31, 2**32, -2**32, 2**33 + 2]
HUGE = MED + [2**40, 2**62, -2**62, 2**63 - 1, 3 * 2**60]


class Big(Exception):
    pass


def fit(x):
    if not -W63 <= x < W63:
        raise Big()
    return x


def rref(rows, nc):
    R = [[Fraction(x) for x in r] for r in rows]
    p = 0
    for c in range(nc):
        k = next((i for i in range(p, len(R)) if R[i][c] != 0), None)
        if k is None:
            continue
        R[p], R[k] = R[k], R[p]
        q = R[p][c]
        R[p] = [x / q for x in R[p]]
        for i in range(len(R)):
            if i != p and R[i][c] != 0:
                f = R[i][c]
                R[i] = [x - f * y for x, y in zip(R[i], R[p])]
        p += 1
    return [r for r in R if any(r)]


def g_gcd(rng):
    if rng.random() < .5:
        g = rng.choice([1, 2, 3, 2**16, 2**31, 2**32, 2**33])
        return dict(a=g * rng.randint(-50, 50), b=g * rng.randint(-50, 50))
    return dict(a=rng.choice(HUGE), b=rng.choice(HUGE))


def r_gcd(lib, inp):
    a, b = inp["a"], inp["b"]
    eq(lib.call("gcd", "l:ll", a, b), math.gcd(a, b), "gcd(%d, %d)" % (a, b))
    g = math.gcd(a, b)
    l = abs(a * b) // g if g else 0
    if l < W63:
        got = lib.call("lcm", "l:ll", a, b)
        # sign of the result is that of the product (callers use it that way or pass magnitudes)
        eq(abs(got), l, "lcm(%d, %d)" % (a, b))
        if a >= 0 and b >= 0:
            eq(got, l, "lcm(%d, %d)" % (a, b))
    return a != 0 and b != 0


def g_prod(rng):
    n, k, m = rng.randint(0, 4), rng.randint(0, 4), rng.randint(0, 4)
    v = rng.choice([SMALL, MED])
    return dict(a=rnd_rows(rng, n, k, v), k=k, b=rnd_rows(rng, k, m, v), m=m, e=rng.choice([0, 2]))


def r_prod(lib, inp):
    A, B, k, m = inp["a"], inp["b"], inp["k"], inp["m"]
    want = [[sum(A[i][t] * B[t][j] for t in range(k)) for j in range(m)] for i in range(len(A))]
    if any(sum(abs(A[i][t] * B[t][j]) for t in range(k)) >= W63 for i in range(len(A)) for j in range(m)):
        return False
    a, b = lib.mat(A, k, inp["e"], inp["e"]), lib.mat(B, m, inp["e"], 0)
    c = lib.call("pluto_matrix_product", "p:pp", a, b)
    eq(lib.rdmat(c), (len(A), m, want), "pluto_matrix_product")
    eq(lib.rdmat(a)[2], A, "product changed its first operand")
    eq(lib.rdmat(b)[2], B, "product changed its second operand")
    for x in (a, b, c):
        lib.freemat(x)
    return bool(A) and k > 0 and m > 0


def g_lex(rng):
    n = rng.randint(0, 5)
    a = [rng.choice(BIG) for _ in range(n)]
    b = list(a)
    if n and rng.random() < .8:
        i = rng.randrange(n)
        b[i:] = [rng.choice(BIG) for _ in range(n - i)]
    return dict(a=a, b=b)


def r_lex(lib, inp):
    a, b, n = inp["a"], inp["b"], len(inp["a"])
    pa, pb = lib.malloc(8 * n), lib.malloc(8 * n)
    lib.put64(pa, a)
    lib.put64(pb, b)
    got = lib.call("min_lexical", "p:ppl", pa, pb, n)
    if got not in (pa, pb):
        raise Fail("min_lexical returned neither argument")
    if n and a != b:
        eq(lib.i64s(got, n), min(a, b), "min_lexical")
    lib.libc.free(pa)
    lib.libc.free(pb)
    return n > 0


def lowrank(rng, nr, nc, vals):
    """Random matrix, often rank deficient."""
    R = rnd_rows(rng, nr, nc, vals)
    for i in range(nr):
        p = rng.random()
        if p < .3 and i:
            a, b, x, y = rng.randint(-3, 3), rng.randint(-3, 3), rng.randrange(i), rng.randrange(i)
            R[i] = [a * u + b * v for u, v in zip(R[x], R[y])]
        elif p < .4:
            R[i] = [0] * nc
    if nc > 1 and rng.random() < .3:
        c = rng.randrange(nc)
        for r in R:
            r[c] = 0
    return R


def g_rank(rng):
    nr, nc = rng.randint(0, 5), rng.randint(0, 6)
    v = rng.choice([SMALL, SMALL, [0, 1, -1, 2**16, 2**31, -2**31, 2**32], [0, 0, 1, 2**32, -2**32, 2**33, 2**40]])
    R = lowrank(rng, nr, nc, v)
    if any(abs(x) >= W63 for r in R for x in r):
        R = rnd_rows(rng, nr, nc, SMALL)
    return dict(rows=R, nc=nc, er=rng.choice([0, 2]), ec=rng.choice([0, 2]))


def echelon_fits(R, nc):
    """Exact intermediates of a fraction-free elimination in the documented order fit 64 bits."""
    M = [list(r) for r in R]
    p = 0
    try:
        for c in range(nc):
            if p >= len(M):
                break
            k = next((i for i in range(p, len(M)) if M[i][c] != 0), None)
            if k is None:
                continue
            M[p], M[k] = M[k], M[p]
            for i in range(p + 1, len(M)):
                if M[i][c]:
                    x, y = M[i][c], M[p][c]
                    # generous head-room: the exact scaling used is not prescribed
                    fit(4 * x * y)
                    for u, w in zip(M[i], M[p]):
                        fit(8 * u * y)
                        fit(8 * w * x)
                    l = abs(x * y) // math.gcd(x, y)
                    M[i] = [u * (l // x) - w * (l // y) for u, w in zip(M[i], M[p])]
            p += 1
    except Big:
        return False
    return True


def r_rank(lib, inp):
    R, nc = inp["rows"], inp["nc"]
    if not echelon_fits(R, nc):
        return False
    m = lib.mat(R, nc, inp["er"], inp["ec"])
    want = rref(R, nc)
    eq(lib.call("pluto_matrix_get_rank", "u:p", m), len(want), "pluto_matrix_get_rank")
    eq(lib.rdmat(m), (len(R), nc, R), "pluto_matrix_get_rank modified its input")
    e = lib.call("pluto_matrix_to_row_echelon", "p:p", m)
    nr2, nc2, E = lib.rdmat(e)
    eq((nr2, nc2), (len(R), nc), "row echelon extents")
    eq(rref(E, nc), want, "row space of the row echelon form of %r" % (R,))
    last = -1
    for r in E:
        l = next((j for j, x in enumerate(r) if x), nc + 1)
        if l <= last and l <= nc:
            raise Fail("not in row echelon form: %r from %r" % (E, R))
        if last > nc and l <= nc:
            raise Fail("non-zero row below a zero row: %r" % (E,))
        last = l
    lib.freemat(e)
    return bool(want)


def g_elim(rng):
    nr, nc = rng.randint(0, 5), rng.randint(1, 6)
    v = rng.choice([SMALL, SMALL, [0, 1, -1, 2, 2**16, 2**31, -2**31, 3 * 2**31], [0, 0, 1, 2**32, -2**32, 2**33]])
    R = lowrank(rng, nr, nc, v)
    st = rng.randrange(nc)
    return dict(rows=R, nc=nc, start=st, num=rng.randint(0, nc - st) if rng.random() < .5 else 1, e=rng.choice([0, 2]))


def elim_fits(R, pos):
    try:
        k = next((i for i in range(len(R)) if R[i][pos]), None)
        if k is None:
            return [r[:pos] + r[pos + 1:] for r in R]
        out = []
        for i in range(len(R)):
            if i == k:
                continue
            r = R[i]
            if r[pos]:
                x, y = r[pos], R[k][pos]
                fit(2 * x * y)
                for u, w in zip(r, R[k]):
                    fit(4 * u * y)
                    fit(4 * w * x)
                l = abs(x * y) // math.gcd(x, y)
                r = [u * (l // x) - w * (l // y) for u, w in zip(r, R[k])]
            out.append(r[:pos] + r[pos + 1:])
        return out
    except Big:
        return None


def r_elim(lib, inp):
    R, nc, st, num = inp["rows"], inp["nc"], inp["start"], inp["num"]
    cur = R
    for _ in range(num):
        cur = elim_fits(cur, st)
        if cur is None:
            return False
    m = lib.mat(R, nc, inp["e"], inp["e"])
    if num == 1:
        lib.call("gaussian_eliminate_var", "v:pi", m, st)
    else:
        lib.call("gaussian_eliminate", "v:pii", m, st, num)
    nr2, nc2, G = lib.rdmat(m)
    eq(nc2, nc - num, "columns after elimination")
    # rows = equations: the result must span exactly the combinations of the input with zero in the eliminated columns
    eq(rref(G, nc2), rref(cur, nc2), "span after eliminating %d..%d of %r" % (st, st + num - 1, R))
    piv = rref([r[st:st + num] + r[:st] + r[st + num:] for r in R], nc)
    want = rref([r[num:] for r in piv if not any(r[:num])], nc2)
    eq(rref(G, nc2), want, "span after eliminating %d..%d of %r" % (st, st + num - 1, R))
    lib.freemat(m)
    return bool(R) and num > 0


def g_vec(rng):
    nc = rng.randint(0, 6)
    v = rng.choice([SMALL, BIG[:17], [0, 1, -1, 2**31, 2**32, -2**32, 2**30]])
    A = rnd_rows(rng, rng.randint(1, 3), nc, v)
    B = rnd_rows(rng, rng.randint(1, 3), nc, v)
    r1, r2 = rng.randrange(len(A)), rng.randrange(len(B))
    if rng.random() < .5:
        k, l = rng.choice([1, 2, -1, 3, 2**16]), rng.choice([1, -1, 2, 5, 2**16])
        base = [rng.choice([0, 1, -1, 2, 7, 2**31, 2**32]) for _ in range(nc)]
        A[r1] = [k * x for x in base]
        B[r2] = [l * x for x in base]
        if nc and rng.random() < .4:
            j = rng.randrange(nc)
            B[r2][j] += rng.choice([1, -1, 2**32, 2**31])
    return dict(a=A, b=B, nc=nc, r1=r1, r2=r2)


def r_vec(lib, inp):
    A, B, nc = inp["a"], inp["b"], inp["nc"]
    x, y = A[inp["r1"]], B[inp["r2"]]
    a, b = lib.mat(A, nc, 0, 1), lib.mat(B, nc)
    if sum(abs(p * q) for p, q in zip(x, y)) < W63:
        eq(bool(lib.call("pluto_vector_is_normal", "i:pipi", a, inp["r1"], b, inp["r2"])), sum(p * q for p, q in zip(x, y)) == 0, "pluto_vector_is_normal(%r, %r)" % (x, y))
    if all(abs(p * q) < W63 // 2 for p in x for q in y):
        par = all(x[i] * y[j] == x[j] * y[i] for i in range(nc) for j in range(nc)) and any(x) == any(y)
        eq(bool(lib.call("pluto_vector_is_parallel", "i:pipi", a, inp["r1"], b, inp["r2"])), par, "pluto_vector_is_parallel(%r, %r)" % (x, y))
    eq(lib.rdmat(a)[2], A, "row test changed its operand")
    eq(lib.rdmat(b)[2], B, "row test changed its operand")
    lib.freemat(a)
    lib.freemat(b)
    return any(x) and any(y)


CHECKS = [
    dict(name="gcd/lcm", gen=g_gcd, run=r_gcd, n={"quick": 20000, "thorough": 300000},
         exhaustive=lambda tier: (dict(a=a, b=b) for a in range(-12, 13) for b in range(-12, 13))),
    dict(name="pluto_matrix_product", gen=g_prod, run=r_prod, n={"quick": 15000, "thorough": 200000}),
    dict(name="min_lexical", gen=g_lex, run=r_lex, n={"quick": 10000, "thorough": 100000}),
    dict(name="row echelon/rank", gen=g_rank, run=r_rank, n={"quick": 30000, "thorough": 600000}),
    dict(name="gaussian elimination (matrix)", gen=g_elim, run=r_elim, n={"quick": 20000, "thorough": 400000}),
    dict(name="parallel/orthogonal rows", gen=g_vec, run=r_vec, n={"quick": 25000, "thorough": 400000}),
]
