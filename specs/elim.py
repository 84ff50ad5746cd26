"""Contracts for elimination and simplification of constraint systems (C04), lib/constraints.c."""
from base import *
from cons import *
from linalg import lcm_facts, gcd_facts
from sums import *

XG = z3.Array("XG", I, I)       # an arbitrary (homogeneous) point: values of the variables, then the scale of the constant
i_, j_, r_, k_ = z3.Ints("ei ej er ek")


def ab(x):
    return If(x >= 0, x, -x)


def rowsum(a, i, v=None, n=None):
    """Row i of the system at the point v."""
    return SPO(z3.Select(a.v.key("c.i64"), a.buf), a.ro(i), XG if v is None else v, a.nc if n is None else n)


def rb_(a):
    return z3.Select(a.v.key("c.i64"), a.buf)


def holds(a, i, v=None):
    s = rowsum(a, i, v)
    return And(s >= 0, Implies(a.eq(i) != 0, s == 0))


def allhold(a, v=None, n=None):
    return forall([i_], Implies(And(0 <= i_, i_ < (a.nr if n is None else n)), holds(a, i_, v)), [[rowsum(a, i_, v)], [a.ro(i_)]])


def lcm_div(x, y):
    """x, y > 0: their least common multiple is a positive multiple of both."""
    l = LCM(x, y)
    return Implies(And(x > 0, y > 0), And(l > 0, TDIV(l, x) * x == l, TDIV(l, y) * y == l, TDIV(l, x) > 0, TDIV(l, y) > 0, TDIV(-l, x) * x == -l, TDIV(l, -x) * x == -l, TDIV(-l, -x) * x == l, TDIV(-l, y) * y == -l, TDIV(l, -y) * y == -l, TDIV(-l, -y) * y == l, TDIV(-l, -y) > 0))


def pts(c, name):
    """Points a postcondition speaks about: an arbitrary one when it is proved, hence any chosen one for a caller."""
    if c.vf.fname == name:
        return [XG]
    f = getattr(SPECS.get(c.vf.fname), "points", None)
    return (f(c.vf.argd, c) if f.__code__.co_argcount > 1 else f(c.vf.argd)) if f else [XG]


# ------------------------------------------------------------------ substitution of an equality
def FE(a, pos):
    """The first equality in which the variable occurs."""
    hs = [a.v.key(n) for n in ("c.i64", "c.i32", "c.p.i64.o")]
    if "fe" not in _F:
        _F["fe"] = z3.Function("FE", *([h.sort() for h in hs] + [I] * 6))
    return _F["fe"](*(hs + [a.val, a.buf, a.eqb, a.nr, pos]))


_F = {}


def fe_ok(a, pos, r):
    return And(a.eq(r) != 0, a.at(r, pos) != 0)


def fe_def(a, pos):
    p = FE(a, pos)
    return ("@def", And(0 <= p, p <= a.nr, forall([i_], Implies(And(0 <= i_, i_ < p), Not(fe_ok(a, pos, i_))), [a.at(i_, pos)]), Implies(p < a.nr, fe_ok(a, pos, p))))


def f1f2(a, r, i, pos):
    return fac(a.at(r, pos), a.at(i, pos))


def comb(a, r, i, pos, j):
    f, g = f1f2(a, r, i, pos)
    return If(Or(i == r, a.at(i, pos) == 0), a.at(i, j), a.at(i, j) * f - a.at(r, j) * g)


def ge_inv(lvl):
    def inv(L):
        a, b = lp(L)
        pos = L["pos"]
        p = FE(a, pos)
        out = [fe_def(a, pos)]
        if lvl == 0:
            return out + [("no equality yet", L.i <= p)]
        R = L.v("r")
        k = L.i if lvl == 1 else L.up()
        done = (i_ < k) if lvl == 1 else Or(i_ < k, And(i_ == k, j_ < L.i))
        out += [("the equality", And(R == p, p < a.nr)),
                ("rows so far", forall([i_, j_], Implies(And(0 <= i_, i_ < b.nr, 0 <= j_, j_ < b.nc), b.at(i_, j_) == If(done, comb(a, p, i_, pos, j_), a.at(i_, j_))), [b.at(i_, j_)]))]
        if lvl == 2:
            f, g = f1f2(a, p, k, pos)
            out += [("factors", And(k != p, a.at(k, pos) != 0, L.v("factor1") == f, L.v("factor2") == g))]
        return out
    return inv


def GF(n, a, pos, i):
    """Factors of row i (1) and of the equality (2)."""
    hs = [a.v.key(x) for x in ("c.i64", "c.i32", "c.p.i64.o")]
    if n not in _F:
        _F[n] = z3.Function(n, *([h.sort() for h in hs] + [I] * 7))
    return _F[n](*(hs + [a.val, a.buf, a.eqb, a.nr, pos, i]))


def gf_def(a, pos):
    p = FE(a, pos)
    f, g = f1f2(a, p, i_, pos)
    z = a.at(i_, pos) == 0
    F, G = GF("GF1", a, pos, i_), GF("GF2", a, pos, i_)
    return ("@def", forall([i_], And(F == If(z, 1, f), G == If(z, 0, g)), [[F], [G]]))


def ge_sum(a, b, pos):
    """Facts about the result b, with the point."""
    p = FE(a, pos)
    A, B = rb_(a), rb_(b)
    V = DROP(XG, pos)
    on = rowsum(a, p) == 0
    def each(f):
        return forall([i_], Implies(And(0 <= i_, i_ < b.nr), And(Implies(i_ < p, f(i_)), Implies(i_ >= p, f(i_ + 1)))), [b.ro(i_)])
    def each2(f):
        return forall([i_, j_], Implies(And(0 <= i_, i_ < b.nr, 0 <= j_, j_ < b.nc), And(Implies(i_ < p, f(i_)), Implies(i_ >= p, f(i_ + 1)))), [b.at(i_, j_)])
    F, G = (lambda i: GF("GF1", a, pos, i)), (lambda i: GF("GF2", a, pos, i))
    ent = lambda si: b.at(i_, j_) == If(j_ < pos, a.at(si, j_) * F(si) - a.at(p, j_) * G(si), a.at(si, j_ + 1) * F(si) - a.at(p, j_ + 1) * G(si))
    sg = lambda si: And((rowsum(b, i_, V) >= 0) == (rowsum(a, si) >= 0), (rowsum(b, i_, V) == 0) == (rowsum(a, si) == 0), b.eq(i_) == a.eq(si))
    pre = [fe_def(a, pos), ("@def", drop_def(XG, pos)), gf_def(a, pos), ("@def", each(lambda si: fac_ok(a.at(p, pos), a.at(si, pos))))]
    mid = [("factors cancel the variable", each(lambda si: And(F(si) > 0, a.at(si, pos) * F(si) == a.at(p, pos) * G(si)))),
           ("each row is a combination with the equality", each2(ent))]
    lem = [("@def", each(lambda si: elimeq(B, b.ro(i_), F(si), A, a.ro(si), G(si), A, a.ro(p), XG, pos, a.nc)))]
    fin = [("on the equality, every other row keeps its sign and kind", Implies(on, each(sg)))]
    sgr = lambda i, r: And((rowsum(b, i, V) >= 0) == (rowsum(a, r) >= 0), (rowsum(b, i, V) == 0) == (rowsum(a, r) == 0), b.eq(i) == a.eq(r))
    fin += [("on the equality, seen from the old rows", Implies(on, forall([r_], Implies(And(0 <= r_, r_ < a.nr), And(Implies(r_ < p, sgr(r_, r_)), Implies(r_ > p, sgr(r_ - 1, r_)))), [a.ro(r_)])))]
    prj = [("projection: a point of the system gives a point of the result", Implies(on, Implies(allhold(a), allhold(b, V)))), ("projection: a point of the result on the equality is one of the system", Implies(on, Implies(allhold(b, V), allhold(a))))]
    return pre, mid, lem, fin, prj


def ge_hint(c):
    a, b = Cst(c.pre, c["cst"]), Cst(c.post, c["cst"])
    pre, mid, lem, fin, prj = ge_sum(a, b, c["pos"])
    return pre + mid + lem + fin + prj


def ge_ens(c):
    a, b = pp(c)
    pre, mid, lem, fin, prj = ge_sum(a, b, c["pos"])
    return cwfpost(c, "cst") + pre + [("storage kept", And(a.val == b.val, a.buf == b.buf, a.eqb == b.eqb, a.anr == b.anr, a.anc == b.anc)), ("extents", And(b.nc == a.nc - 1, b.nr == a.nr - 1))] + mid + fin + prj


contract("pluto_constraints_gaussian_eliminate", props=("C04",), usediv=True, nloops=3,
         requires=lambda c: (lambda a: cwf(c, "cst") + [("variable", And(c["pos"] >= 0, c["pos"] <= a.nc - 2)), ("an equality contains it", z3.Exists([i_], And(0 <= i_, i_ < a.nr, fe_ok(a, c["pos"], i_)), patterns=[a.at(i_, c["pos"])]))])(Cst(c.pre, c["cst"])),
         modifies=lambda c: inmods(c, nrows=1, ncols=1, names=1), ensures=ge_ens, loops={k: ge_inv(k) for k in range(3)}, hints={"pluto_constraints_remove_dim": ge_hint})
