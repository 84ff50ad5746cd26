"""Contracts for lib/math_support.c: exact integer linear algebra (C02)."""
from base import *
from matrix import Mat, wf, wfpost, rowmods, keep, cur, old, M


def ab(x):
    return If(x >= 0, x, -x)


# Facts about gcd and lcm of integers (proved in lemmas/Arith.lean).
def gcd_facts(a, b):
    g, l = GCD(a, b), LCM(a, b)
    return [g == GCD(ab(a), ab(b)), Implies(a == 0, g == ab(b)), Implies(b == 0, g == ab(a)), Implies(ab(a) == ab(b), g == ab(a)), g >= 0]


def lcm_facts(a, b):
    g = GCD(a, b)
    return [Implies(Or(a == 0, b == 0), LCM(a, b) == 0),
            Implies(And(a != 0, b != 0), And(g > 0, LCM(a, b) == TDIV(a, g) * b))]


contract("gcd", props=("C02",), usediv=True, allocs=False,
         ensures=lambda c: [("greatest common divisor", c.ret == GCD(c["a"], c["b"])), ("non-negative", c.ret >= 0)]
         + ([("positive", Implies(Or(c["a"] != 0, c["b"] != 0), c.ret > 0))]),
         setup=lambda c: gcd_facts(c["a"], c["b"]) + gcd_facts(ab(c["a"]), ab(c["b"])) + [Implies(Or(c["a"] != 0, c["b"] != 0), GCD(c["a"], c["b"]) > 0)])

contract("lcm", props=("C02",), usediv=True, allocs=False,
         ensures=lambda c: [("signed least common multiple", c.ret == LCM(c["a"], c["b"]))],
         setup=lambda c: gcd_facts(c["a"], c["b"]) + lcm_facts(c["a"], c["b"]))


# ------------------------------------------------------------------ products
DOT = z3.Function("DOT", AAI, AAI, AAI, I, I, I, I, I, I)


def dot(view, a, i, b, j, n):
    """sum_{k<n} a(i,k)*b(k,j) in the given state."""
    return DOT(view.key("c.i64"), view.key("c.p.i64.b"), view.key("c.p.i64.o"), a.val, i, b.val, j, n)


def dot_def(view, a, i, b, j, n):
    return ("@def", And(dot(view, a, i, b, j, IV(0)) == 0, dot(view, a, i, b, j, n + 1) == dot(view, a, i, b, j, n) + a.at(i, n) * b.at(n, j)))


def prod_inv(L, lvl):
    a, b, r = Mat(L.pre, L["mat1"]), Mat(L.pre, L["mat2"]), Mat(L.st, L.v("mat3"))
    i, j = z3.Ints("i j")
    I0 = L.i if lvl == 0 else (L.up() if lvl == 1 else L.up(2))
    J0 = None if lvl == 0 else (L.i if lvl == 1 else L.up())
    done = (i < I0) if lvl == 0 else Or(i < I0, And(i == I0, j < J0))
    out = [("entries so far", forall([i, j], Implies(And(0 <= i, i < r.nr, 0 <= j, j < r.nc, done), r.at(i, j) == dot(L.pre, a, i, b, j, a.nc)), [r.at(i, j)]))]
    if lvl == 2:
        out = [dot_def(L.pre, a, I0, b, J0, L.i)] + out + [("k", L.i <= a.nc), ("partial sum", r.at(I0, J0) == dot(L.pre, a, I0, b, J0, L.i))]
    return out


contract("pluto_matrix_product", props=("C02",), nloops=3,
         requires=lambda c: wf(c, "mat1", "mat2") + [("inner extents agree", Mat(c.pre, c["mat1"]).nc == Mat(c.pre, c["mat2"]).nr)],
         ensures=lambda c: (lambda a, b, r: r.wf() + r.fresh_from(c.pre) + [("extents", And(r.nr == a.nr, r.nc == b.nc)),
                                                                           r.is_(lambda i, j: dot(c.pre, a, i, b, j, a.nc), "entries are the sums of products")])(
             Mat(c.pre, c["mat1"]), Mat(c.pre, c["mat2"]), Mat(c.post, c.ret)),
         loops={0: lambda L: prod_inv(L, 0), 1: lambda L: prod_inv(L, 1), 2: lambda L: prod_inv(L, 2)})

# ------------------------------------------------------------------ rows as vectors
RDOT = z3.Function("RDOT", AAI, AAI, AAI, I, I, I, I, I, I)


def rdot(view, a, i, b, j, n):
    return RDOT(view.key("c.i64"), view.key("c.p.i64.b"), view.key("c.p.i64.o"), a.val, i, b.val, j, n)


rows_req = lambda c: wf(c, "mat1", "mat2") + [
    ("same width", Mat(c.pre, c["mat1"]).nc == Mat(c.pre, c["mat2"]).nc),
    ("rows exist", And(c["r1"] >= 0, c["r1"] < Mat(c.pre, c["mat1"]).nr, c["r2"] >= 0, c["r2"] < Mat(c.pre, c["mat2"]).nr))]


def normal_inv(L):
    a, b = Mat(L.pre, L["mat1"]), Mat(L.pre, L["mat2"])
    f = lambda n: rdot(L.pre, a, L["r1"], b, L["r2"], n)
    return [("@def", And(f(IV(0)) == 0, f(L.i + 1) == f(L.i) + a.at(L["r1"], L.i) * b.at(L["r2"], L.i))),
            ("partial dot product", L.v("dot") == f(L.i)), ("j", L.i <= a.nc)]


contract("pluto_vector_is_normal", props=("C02",), nloops=1, requires=rows_req,
         ensures=lambda c: [("orthogonal exactly when the dot product is zero", (lambda a, b: (c.ret != 0) == (rdot(c.pre, a, c["r1"], b, c["r2"], a.nc) == 0))(Mat(c.pre, c["mat1"]), Mat(c.pre, c["mat2"])))],
         loops={0: normal_inv})


def par_def(c, a, b, n):
    """Rows have the same zero pattern and all 2x2 minors vanish (up to column n)."""
    j, k = z3.Ints("j k")
    x = lambda q: a.at(c["r1"], q)
    y = lambda q: b.at(c["r2"], q)
    return And(forall([j], Implies(And(0 <= j, j < n), (x(j) == 0) == (y(j) == 0)), [x(j)]),
               forall([j, k], Implies(And(0 <= j, j < n, 0 <= k, k < n), x(j) * y(k) == y(j) * x(k)), [[x(j), x(k)]]))


# Cross-multiplication through a common non-zero pivot implies all minors vanish (proved in lemmas/Arith.lean):
#   x0 != 0, y0 != 0, x0*yj == y0*xj, x0*yk == y0*xk  ==>  xj*yk == yj*xk
def par_inv(L):
    a, b = Mat(L.pre, L["mat1"]), Mat(L.pre, L["mat2"])
    j = z3.Int("j")
    x = lambda q: a.at(L["r1"], q)
    y = lambda q: b.at(L["r2"], q)
    num, den = L.v("num"), L.v("den")
    p = z3.Function("PIV", I, I)(L.v("num") * 0)
    return [("zero pattern", forall([j], Implies(And(0 <= j, j < L.i), (x(j) == 0) == (y(j) == 0)), [x(j)])),
            ("pivot", And((num == 0) == (den == 0), Implies(num == 0, forall([j], Implies(And(0 <= j, j < L.i), And(x(j) == 0, y(j) == 0)), [x(j)])))),
            ("proportional to the pivot", forall([j], Implies(And(0 <= j, j < L.i), num * y(j) == den * x(j)), [x(j)])),
            ("pivot is an entry", Implies(num != 0, z3.Exists([j], And(0 <= j, j < L.i, x(j) == num, y(j) == den))))]


def par_ens(c):
    a, b = Mat(c.pre, c["mat1"]), Mat(c.pre, c["mat2"])
    x = lambda q: a.at(c["r1"], q)
    y = lambda q: b.at(c["r2"], q)
    j, k = z3.Ints("j k")
    n = a.nc
    zp = forall([j], Implies(And(0 <= j, j < n), (x(j) == 0) == (y(j) == 0)), [x(j)])
    # exists a non-zero pivot (or both rows are zero) through which every entry is proportional
    piv = Or(forall([j], Implies(And(0 <= j, j < n), And(x(j) == 0, y(j) == 0)), [x(j)]),
             z3.Exists([k], And(0 <= k, k < n, x(k) != 0, y(k) != 0, forall([j], Implies(And(0 <= j, j < n), x(k) * y(j) == y(k) * x(j)), [x(j)]))))
    # a failed cross-multiplication refutes proportionality
    no = Or(z3.Exists([j], And(0 <= j, j < n, (x(j) == 0) != (y(j) == 0))),
            z3.Exists([j, k], And(0 <= j, j < n, 0 <= k, k < n, x(j) * y(k) != y(j) * x(k))))
    return [("reported parallel only when proportional", Implies(c.ret != 0, And(zp, piv))),
            ("reported not parallel only when not proportional", Implies(c.ret == 0, no))]


contract("pluto_vector_is_parallel", props=("C02",), nloops=1, requires=rows_req, ensures=par_ens, loops={0: par_inv})


# ------------------------------------------------------------------ lexicographic minimum of two vectors
def lex_ens(c):
    x = lambda q: c.pre.cell("c.i64", c["a"].blk, ADR(c["a"].off, q))
    y = lambda q: c.pre.cell("c.i64", c["b"].blk, ADR(c["b"].off, q))
    j, k = z3.Ints("j k")
    n = c["num"]

    def less(x, y):
        return z3.Exists([k], And(0 <= k, k < n, x(k) < y(k), forall([j], Implies(And(0 <= j, j < k), x(j) == y(j)), [x(j)])))
    same = forall([j], Implies(And(0 <= j, j < n), x(j) == y(j)), [x(j)])
    isa = And(c.ret.blk == c["a"].blk, c.ret.off == c["a"].off)
    isb = And(c.ret.blk == c["b"].blk, c.ret.off == c["b"].off)
    return [("one of the arguments, the smaller one", Or(And(isa, Or(less(x, y), same)), And(isb, less(y, x))))]


def lex_inv(L):
    x = lambda q: L.pre.cell("c.i64", L["a"].blk, ADR(L["a"].off, q))
    y = lambda q: L.pre.cell("c.i64", L["b"].blk, ADR(L["b"].off, q))
    j = z3.Int("j")
    return [("equal so far", forall([j], Implies(And(0 <= j, j < L.i), x(j) == y(j)), [x(j)])), ("i", Or(L.i <= L["num"], L["num"] < 0))]


contract("min_lexical", props=("C02",), nloops=1, allocs=False,
         requires=lambda c: [("vectors", And(c["num"] >= 0, c["num"] < MAXD, *[
             And(c[n].off >= 0, (c[n].off + c["num"]) * 8 <= LEN(c[n].blk), Not(c.pre.freed(c[n].blk)), c[n].blk > 0) for n in ("a", "b")]))],
         ensures=lex_ens, loops={0: lex_inv})


# ------------------------------------------------------------------ elimination of a variable by an equality
FNZ = z3.Function("FNZ", AAI, AAI, AAI, I, I, I, I)


def fnz(a, pos):
    """First row with a non-zero entry in column pos (the number of rows if none)."""
    v = a.v
    return FNZ(v.key("c.i64"), v.key("c.p.i64.b"), v.key("c.p.i64.o"), a.val, pos, a.nr)


def fnz_def(a, pos):
    i = z3.Int("i")
    p = fnz(a, pos)
    return ("@def", And(0 <= p, p <= a.nr, forall([i], Implies(And(0 <= i, i < p), a.at(i, pos) == 0), [a.at(i, pos)]), Implies(p < a.nr, a.at(p, pos) != 0)))


def combined(a, p, pos, i, j):
    x, y = a.at(p, pos), a.at(i, pos)
    l = LCM(ab(x), ab(y))
    return If(Or(i == p, y == 0), a.at(i, j), a.at(i, j) * TDIV(l, y) - a.at(p, j) * TDIV(l, x))


def gev_inv(lvl):
    def inv(L):
        a, b = old(L), cur(L)
        pos = L["pos"]
        p = fnz(a, pos)
        i, j = z3.Ints("i j")
        out = [fnz_def(a, pos)]
        if lvl == 0:
            out += [("untouched while searching", b.is_(a.at)[1]), ("no pivot yet", And(L.i <= p))]
        else:
            R = L.up() if lvl == 1 else L.up(2)
            k = L.i if lvl == 1 else L.up()
            done = (i < k) if lvl == 1 else Or(i < k, And(i == k, j < L.i))
            out += [("pivot", And(R == p, p < a.nr)),
                    ("rows so far", forall([i, j], Implies(And(0 <= i, i < b.nr, 0 <= j, j < b.nc), b.at(i, j) == If(done, combined(a, p, pos, i, j), a.at(i, j))), [b.at(i, j)]))]
            if lvl == 2:
                x, y = a.at(p, pos), a.at(k, pos)
                out += [("factors", And(k != p, y != 0, L.v("factor1") == TDIV(LCM(ab(x), ab(y)), y), L.v("factor2") == TDIV(LCM(ab(x), ab(y)), x)))]
        return out
    return inv


def gev_ens(c):
    a, b = Mat(c.pre, c["mat"]), Mat(c.post, c["mat"])
    pos = c["pos"]
    p = fnz(a, pos)
    src = lambda i: If(i >= p, i + 1, i)
    col = lambda j: If(j >= pos, j + 1, j)
    i, j = z3.Ints("i j")
    body = lambda si: And(Implies(j < pos, b.at(i, j) == combined(a, p, pos, si, j)), Implies(j >= pos, b.at(i, j) == combined(a, p, pos, si, j + 1)))
    return wfpost(c, "mat") + [fnz_def(a, pos),
                               ("extents", And(b.nc == a.nc - 1, b.nr == If(p < a.nr, a.nr - 1, a.nr))),
                               ("rows above the pivot", forall([i, j], Implies(And(0 <= i, i < b.nr, i < p, 0 <= j, j < b.nc), body(i)), [b.at(i, j)])),
                               ("rows below the pivot", forall([i, j], Implies(And(p <= i, i < b.nr, 0 <= j, j < b.nc), body(i + 1)), [b.at(i, j)]))]


contract("gaussian_eliminate_var", props=("C02",), usediv=True, nloops=3,
         requires=lambda c: wf(c, "mat") + [("column", And(c["pos"] >= 0, c["pos"] < Mat(c.pre, c["mat"]).nc))],
         modifies=lambda c: dict(rowmods(c, "mat"), **{"f.pluto_matrix.ncols": [c["mat"].blk], "f.pluto_matrix.nrows": [c["mat"].blk]}),
         ensures=gev_ens, loops={0: gev_inv(0), 1: gev_inv(1), 2: gev_inv(2)})

contract("gaussian_eliminate", props=("C02",), nloops=1,
         requires=lambda c: wf(c, "mat") + [("columns", And(c["start"] >= 0, c["num_elim"] >= 0, c["start"] + c["num_elim"] <= Mat(c.pre, c["mat"]).nc))],
         modifies=lambda c: dict(rowmods(c, "mat"), **{"f.pluto_matrix.ncols": [c["mat"].blk], "f.pluto_matrix.nrows": [c["mat"].blk]}),
         ensures=lambda c: wfpost(c, "mat") + [("columns removed", Mat(c.post, c["mat"]).nc == Mat(c.pre, c["mat"]).nc - c["num_elim"])],
         loops={0: lambda L: cur(L).wf() + [("columns so far", cur(L).nc == old(L).nc - L.i), ("i", L.i <= L["num_elim"])]})
