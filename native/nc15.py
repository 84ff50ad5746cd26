"""Executable contracts for C15: reverse mapping of a schedule and rewritten access functions."""
from fractions import Fraction

from nat import *
from progs import *
from progen import val


def rank(rows):
    R = [[Fraction(x) for x in r] for r in rows]
    rk = 0
    for c in range(len(R[0]) if R else 0):
        p = next((i for i in range(rk, len(R)) if R[i][c]), None)
        if p is None:
            continue
        R[rk], R[p] = R[p], R[rk]
        for i in range(rk + 1, len(R)):
            f = R[i][c] / R[rk][c]
            R[i] = [a - f * b for a, b in zip(R[i], R[rk])]
        rk += 1
    return rk


def g(rng):
    while 1:
        dim, npar = rng.choice([0, 1, 2, 2, 3, 3]), rng.randint(0, 2)
        nr = dim + rng.choice([0, 0, 1, 2])
        cs = rng.choice([[0, 0, 1, 1, -1], [0, 1, -1, 2, -2, 3], [0, 0, 1, 5, -4, 6, 2]])
        T = [[rng.choice(cs) for _ in range(dim)] + [rng.choice([0, 0, 1, -1, 3]) for _ in range(npar + 1)] for _ in range(nr)]
        for r in T:
            if rng.random() < .25:
                r[:dim] = [0] * dim
        if dim and rank([r[:dim] for r in T]) < dim:
            continue
        if nr == 0:
            continue
        nc = dim + npar + 1
        acc = [[rng.choice([0, 0, 1, 1, -1, 2, 7]) for _ in range(nc)] for _ in range(rng.randint(1, 3))]
        xs = [[rng.choice([0, 1, -1, 5, 100, -37, 12345]) for _ in range(dim + npar)] for _ in range(4)]
        return dict(dim=dim, npar=npar, trans=T, acc=acc, xs=xs)


def r(lib, d):
    dim, npar, T, acc = d["dim"], d["npar"], d["trans"], d["acc"]
    nc = dim + npar + 1
    prog = mkprog(lib, dict(npar=npar, stmts=[dict(dim=dim, dom=[[], []], trans=T)], deps=[]))
    st = stmt(lib, prog, 0)
    before = rdstmt(lib, st)
    cell = lib.malloc(8)
    m = lib.call("pluto_stmt_get_remapping", "p:pp", st, cell)
    nr, ncol, R = lib.rdmat(m)
    eq((nr, ncol), (nc, len(T) + npar + 1), "pluto_stmt_get_remapping: extents")
    divs = lib.i32s(lib.ptrs(cell, 1)[0], nr)
    A = lib.mat(acc, nc)
    n = lib.call("pluto_get_new_access_func", "p:ppp", A, st, cell)
    nr2, nc2, N = lib.rdmat(n)
    eq((nr2, nc2), (len(acc), len(T) + npar + 1), "pluto_get_new_access_func: extents")
    adivs = lib.i32s(lib.ptrs(cell, 1)[0], nr2)
    if any(x <= 0 for x in divs + adivs):
        raise Fail("divisors %r %r" % (divs, adivs))
    eq(lib.rdmat(A)[2], acc, "access function modified")
    eq(rdstmt(lib, st), before, "statement modified")
    for x in d["xs"] + [[0] * (dim + npar)] + [[int(i == j) for i in range(dim + npar)] for j in range(dim + npar)]:
        p = [val(t, x) for t in T] + x[dim:]
        for k in range(nc):
            want = (x + [1])[k]
            if val(R[k], p) != divs[k] * want:
                raise Fail("pluto_stmt_get_remapping: row %d at iteration %r gives %d / %d, expected %d; remap %r" % (k, x, val(R[k], p), divs[k], want, R))
        for k in range(len(acc)):
            if val(N[k], p) != adivs[k] * val(acc[k], x):
                raise Fail("pluto_get_new_access_func: row %d at iteration %r gives %d / %d, expected %d" % (k, x, val(N[k], p), adivs[k], val(acc[k], x)))
    for q in (m, A, n):
        lib.freemat(q)
    freeprog(lib, prog)
    return dim > 0


CHECKS = [dict(name="remapping", gen=g, run=r, n=dict(quick=6000, thorough=80000))]
