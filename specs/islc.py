"""Contracts for the conversions to and from isl objects and the operations built on them (C05).

isl and gmp are external: their documented behaviour is assumed.  A gmp integer's value is the ghost state m.mpz of its block; isl objects are
immutable values named by handles (MR, MC, MROW of a matrix; IN of a set at a point)."""
from base import *
from cons import *
from sums import *
from deps import bl, SYS, CO, KD, EMPTY, empty_iff, empty_some
from elim import XG, rowsum, rb_, holds, allhold, pts

i_, j_, r_, k_ = z3.Ints("si sj sr sk")
MPZ = ("ptr", ("struct", "__mpz_struct"))


def hp(n):
    return ("ptr", ("struct", n))


def mz(v, p):
    return z3.Select(v.key("m.mpz"), p.blk)


def msz(v, p):
    return v.f("__mpz_struct", "_mp_size", p.blk, IV(0))


def sgn_ok(v, p):
    s, z = msz(v, p), mz(v, p)
    return And((s > 0) == (z > 0), (s < 0) == (z < 0))


def zmods(*ns):
    return lambda c: {k: [c[n].blk for n in ns] for k in ("m.mpz", "f.__mpz_struct._mp_size", "f.__mpz_struct._mp_alloc", "f.__mpz_struct._mp_d")}


def zset(val, out="x"):
    def ens(c):
        return [("value", mz(c.post, c[out]) == val(c)), ("sign of the size", sgn_ok(c.post, c[out]))]
    return ens


def p2(e):
    e = z3.simplify(e)
    assert z3.is_int_value(e)
    return IV(2 ** e.as_long())


def fdiv(a, b):
    return a / b         # z3's div: floor for positive divisors


def tdiv(a, b):
    return If(a >= 0, a / b, -((-a) / b))


def loc(c, *ns):
    return [("an integer", And(c[n].blk > 0, c[n].off == 0)) for n in ns]


U64 = ("int", 64)
def gmp(name, args, val, out="x", **kw):
    zs = [n for n, t in args if t == MPZ]
    contract(name, assumed=True, allocs=False, decl=args, requires=lambda c: loc(c, *zs), modifies=zmods(out), ensures=zset(val, out), **kw)


gmp("__gmpz_init", [("x", MPZ)], lambda c: IV(0))
gmp("__gmpz_clear", [("x", MPZ)], lambda c: IV(0))
gmp("__gmpz_set_si", [("x", MPZ), ("n", U64)], lambda c: c["n"])
gmp("__gmpz_set_ui", [("x", MPZ), ("n", U64)], lambda c: If(c["n"] >= 0, c["n"], c["n"] + 2**64))
gmp("__gmpz_add_ui", [("x", MPZ), ("y", MPZ), ("n", U64)], lambda c: mz(c.pre, c["y"]) + If(c["n"] >= 0, c["n"], c["n"] + 2**64))
gmp("__gmpz_mul_2exp", [("x", MPZ), ("y", MPZ), ("n", U64)], lambda c: mz(c.pre, c["y"]) * p2(c["n"]))
gmp("__gmpz_tdiv_q_2exp", [("x", MPZ), ("y", MPZ), ("n", U64)], lambda c: tdiv(mz(c.pre, c["y"]), p2(c["n"])))
gmp("__gmpz_fdiv_q_2exp", [("x", MPZ), ("y", MPZ), ("n", U64)], lambda c: fdiv(mz(c.pre, c["y"]), p2(c["n"])))
gmp("__gmpz_fdiv_r_2exp", [("x", MPZ), ("y", MPZ), ("n", U64)], lambda c: mz(c.pre, c["y"]) % p2(c["n"]))
contract("__gmpz_get_ui", assumed=True, allocs=False, decl=[("x", MPZ)], requires=lambda c: loc(c, "x"), modifies=lambda c: {},
         ensures=lambda c: (lambda z: [("low bits of the magnitude", c.ret % 2**64 == If(z >= 0, z, -z) % 2**64)])(mz(c.pre, c["x"])))

def i64(x):
    return And(x >= -2**63, x < 2**63)


contract("mpz_set_sll", props=("C05",), requires=lambda c: loc(c, "n") + [("@size (a 64-bit value)", i64(c["sll"]))], modifies=zmods("n"), ensures=zset(lambda c: c["sll"], "n"))
contract("mpz_set_ull", props=("C05",), requires=lambda c: loc(c, "n") + [("@size (a 64-bit value)", i64(c["ull"]))], modifies=zmods("n"), ensures=zset(lambda c: If(c["ull"] >= 0, c["ull"], c["ull"] + 2**64), "n"))


# ------------------------------------------------------------------ values
VAL = z3.Function("ISLVAL", I, I)        # numerator of a rational value
RAT = z3.Function("ISLRAT", I, z3.BoolSort())
contract("isl_val_is_rat", assumed=True, allocs=False, decl=[("v", hp("isl_val"))], modifies=lambda c: {}, ensures=lambda c: [("answer", (c.ret != 0) == RAT(c["v"].blk))])
contract("isl_val_get_num_gmp", assumed=True, allocs=False, decl=[("v", hp("isl_val")), ("z", MPZ)], requires=lambda c: loc(c, "z"), modifies=zmods("z"), ensures=zset(lambda c: VAL(c["v"].blk), "z"))
contract("isl_val_from_gmp", assumed=True, allocs=False, decl=[("ctx", hp("isl_ctx")), ("n", MPZ), ("d", MPZ)], requires=lambda c: loc(c, "n", "d") + [("integer", mz(c.pre, c["d"]) == 1)], modifies=lambda c: {},
         ensures=lambda c: [("value", And(c.ret.blk > 0, c.ret.off == 0, RAT(c.ret.blk), VAL(c.ret.blk) == mz(c.pre, c["n"])))])
contract("isl_val_free", assumed=True, allocs=False, decl=[("v", hp("isl_val"))], modifies=lambda c: {}, ensures=lambda c: [])
contract("mpz_fits_ll", props=("C05",), requires=lambda c: loc(c, "z") + [("valid", And(c["z"].blk < c.pre.nb, Not(c.pre.freed(c["z"].blk)), LEN(c["z"].blk) >= 16)), ("sign of the size", sgn_ok(c.pre, c["z"]))], modifies=lambda c: {}, ensures=lambda c: [("answer", (c.ret != 0) == i64(mz(c.pre, c["z"])))])
contract("isl_val_get_num_ll", props=("C05",), requires=lambda c: [("rational", And(c["v"].blk > 0, c["v"].off == 0, RAT(c["v"].blk)))], modifies=lambda c: {},
         ensures=lambda c: [("exact when it fits in 64 bits", Implies(i64(VAL(c["v"].blk)), c.ret == VAL(c["v"].blk))), ("otherwise the nearest 64-bit value", Implies(Not(i64(VAL(c["v"].blk))), c.ret == If(VAL(c["v"].blk) > 0, IV(2**63 - 1), IV(-2**63))))])
contract("isl_val_get_ctx", assumed=True, allocs=False, decl=[("v", hp("isl_val"))], modifies=lambda c: {}, ensures=lambda c: [])
contract("isl_handle_error", assumed=True, allocs=False, decl=[("ctx", hp("isl_ctx")), ("e", ("int", 32)), ("m", ("ptr", ("int", 8))), ("f", ("ptr", ("int", 8))), ("l", ("int", 32))], modifies=lambda c: {}, ensures=lambda c: [])


X_ = z3.Array("anyX", I, I)
Y_ = z3.Array("anyY", I, I)


def gen(c, name, pat, f):
    """A fact about an arbitrary point: proved at XG, on which nothing is assumed; used at every point."""
    if c.vf.fname == name:
        return f(XG)
    return And(f(XG), forall([X_], f(X_), [pat(X_)]))


# ------------------------------------------------------------------ matrices and basic sets
MR = z3.Function("ISLMR", I, I)                # rows and columns of a matrix, its rows
MC = z3.Function("ISLMC", I, I)
MROW = z3.Function("ISLMROW", I, I, AI)
SDIM = z3.Function("ISLSDIM", I, I)            # dimensions of a space or set
INB = z3.Function("ISLIN", I, AI, z3.BoolSort())    # the point (with 1 as last entry) lies in the set
H_MAT, H_CTX, H_SP, H_BS, H_SET, H_BM = hp("isl_mat"), hp("isl_ctx"), hp("isl_space"), hp("isl_basic_set"), hp("isl_set"), hp("isl_basic_map")
I32 = ("int", 32)


def ME(m, i, j):
    return EO(MROW(m, i), IV(0), j)


def given(c):
    return And(c.ret.blk > 0, c.ret.off == 0)


def ext(name, decl, ens, req=lambda c: [], ret=None):
    contract(name, assumed=True, allocs=False, decl=decl, requires=req, modifies=lambda c: {}, ensures=ens, **({"ret_ct": ret} if ret else {}))


def mset_ens(c):
    m, n = c["mat"].blk, c.ret.blk
    return [("updated", And(given(c), MR(n) == MR(m), MC(n) == MC(m), forall([i_, j_], ME(n, i_, j_) == If(And(i_ == c["row"], j_ == c["col"]), VAL(c["v"].blk), ME(m, i_, j_)), [ME(n, i_, j_)])))]


ext("isl_mat_alloc", [("ctx", H_CTX), ("r", I32), ("n", I32)], lambda c: [("matrix", And(given(c), MR(c.ret.blk) == c["r"], MC(c.ret.blk) == c["n"]))], lambda c: [("extents", And(c["r"] >= 0, c["n"] >= 0))], H_MAT)
ext("isl_mat_set_element_val", [("mat", H_MAT), ("row", I32), ("col", I32), ("v", hp("isl_val"))], mset_ens,
    lambda c: [("in the matrix", And(0 <= c["row"], c["row"] < MR(c["mat"].blk), 0 <= c["col"], c["col"] < MC(c["mat"].blk), RAT(c["v"].blk)))], H_MAT)
ext("isl_space_set_alloc", [("ctx", H_CTX), ("np", I32), ("d", I32)], lambda c: [("space", And(given(c), SDIM(c.ret.blk) == c["d"]))], lambda c: [("no parameters", c["np"] == 0)], H_SP)


def mats_in(e, q, X, n):
    """The point satisfies the rows of the two matrices."""
    return And(forall([r_], Implies(And(0 <= r_, r_ < MR(e)), SPO(MROW(e, r_), IV(0), X, n) == 0), [MROW(e, r_)]), forall([r_], Implies(And(0 <= r_, r_ < MR(q)), SPO(MROW(q, r_), IV(0), X, n) >= 0), [MROW(q, r_)]))


def bset_ens(c):
    e, q = c["eq"].blk, c["ineq"].blk
    return [("points", And(given(c), SDIM(c.ret.blk) == SDIM(c["dim"].blk), INB(c.ret.blk, XG) == mats_in(e, q, XG, MC(e))))]


ext("isl_basic_set_from_constraint_matrices", [("dim", H_SP), ("eq", H_MAT), ("ineq", H_MAT), ("c1", I32), ("c2", I32), ("c3", I32), ("c4", I32)], bset_ens,
    lambda c: [("columns", And(MC(c["eq"].blk) == SDIM(c["dim"].blk) + 1, MC(c["ineq"].blk) == MC(c["eq"].blk))), ("variables first, then the constant", And(c["c1"] == 3, c["c4"] == 0, c["c2"] != 3, c["c3"] != 3, c["c2"] != 0, c["c3"] != 0))], H_BS)

IE = z3.Function("EQPLACE", AAI, I, I, I)      # the k-th equality / inequality of a system
II_ = z3.Function("INEQPLACE", AAI, I, I, I)


def cnt_lip(c):
    """Counting equalities: never decreases and grows by at most one per row (by induction on the definition)."""
    a = Cst(c.pre, c["cst"])
    n, m = z3.Ints("n m")
    t = lambda x: cnteq(c.pre, a, x)
    return [forall([n, m], Implies(And(0 <= n, n <= m), And(t(n) <= t(m), t(m) - t(n) <= m - n)), [[t(n), t(m)]])]


def from_inv(lvl):
    def inv(L):
        a = Cst(L.pre, L["cst"])
        t = lambda x: cnteq(L.pre, a, x)
        ie = lambda r: IE(L.pre.key("c.i32"), a.eqb, r)
        ii = lambda r: II_(L.pre.key("c.i32"), a.eqb, r)
        if lvl == 0:
            return [cnt_def(L.pre, a, L.i), ("counts", And(L.v("n_eq") == t(L.i), L.v("n_ineq") == L.i - t(L.i), t(L.i) >= 0, t(L.i) <= L.i)), ("i", L.i <= a.nr)]
        R = L.i if lvl == 1 else L.up()
        E, Q = L.v("eq"), L.v("ineq")
        out = [("matrices", And(E.blk > 0, E.off == 0, Q.blk > 0, Q.off == 0, MR(E.blk) == t(a.nr), MR(Q.blk) == a.nr - t(a.nr), MC(E.blk) == a.nc, MC(Q.blk) == a.nc)), cnt_def(L.pre, a, R),
               ("@def", And(Implies(a.eq(R) != 0, ie(t(R)) == R), Implies(a.eq(R) == 0, ii(R - t(R)) == R)))]
        if lvl == 1:
            out += [("counts", And(L.v("n_eq") == t(R), L.v("n_ineq") == R - t(R), t(R) >= 0, t(R) <= R)), ("i", R <= a.nr)]
        out += [("places", forall([i_], Implies(And(0 <= i_, i_ < R), And(0 <= t(i_), t(i_) <= i_, If(a.eq(i_) != 0, t(i_) < t(R), i_ - t(i_) < R - t(R)))), [t(i_)])),
                ("equalities so far", forall([i_, j_], Implies(And(0 <= i_, i_ < R, a.eq(i_) != 0, 0 <= j_, j_ < a.nc), ME(E.blk, t(i_), j_) == a.at(i_, j_)), [a.at(i_, j_)])),
                ("inequalities so far", forall([i_, j_], Implies(And(0 <= i_, i_ < R, a.eq(i_) == 0, 0 <= j_, j_ < a.nc), ME(Q.blk, i_ - t(i_), j_) == a.at(i_, j_)), [a.at(i_, j_)])),
                ("rows of equalities", forall([r_], Implies(And(0 <= r_, r_ < t(R)), And(0 <= ie(r_), ie(r_) < R, a.eq(ie(r_)) != 0, t(ie(r_)) == r_)), [ie(r_)])),
                ("rows of inequalities", forall([r_], Implies(And(0 <= r_, r_ < R - t(R)), And(0 <= ii(r_), ii(r_) < R, a.eq(ii(r_)) == 0, ii(r_) - t(ii(r_)) == r_)), [ii(r_)]))]
        if lvl == 2:
            iseq = a.eq(R) != 0
            out += [("this row", forall([j_], Implies(And(0 <= j_, j_ < L.i), And(Implies(iseq, ME(E.blk, t(R), j_) == a.at(R, j_)), Implies(Not(iseq), ME(Q.blk, R - t(R), j_) == a.at(R, j_)))), [a.at(R, j_)])),
                    ("j", L.i <= a.nc), ("R", And(0 <= R, R < a.nr)), ("counts", And(L.v("n_eq") == t(R + 1), L.v("n_ineq") == R + 1 - t(R + 1), L.v("row") == If(iseq, t(R), R - t(R))))]
        return out
    return inv


def from_hint(c):
    a = Cst(c.pre, c["cst"])
    t = lambda x: cnteq(c.pre, a, x)
    E, Q = c.call["eq"].blk, c.call["ineq"].blk
    A = rb_(a)
    ie = lambda r: IE(c.pre.key("c.i32"), a.eqb, r)
    ii = lambda r: II_(c.pre.key("c.i32"), a.eqb, r)
    k = lambda i: And(Implies(a.eq(i) != 0, SPO(MROW(E, t(i)), IV(0), XG, a.nc) == rowsum(a, i)), Implies(a.eq(i) == 0, SPO(MROW(Q, i - t(i)), IV(0), XG, a.nc) == rowsum(a, i)))
    return [("@def", forall([i_], And(sameo(A, a.ro(i_), MROW(E, t(i_)), IV(0), XG, a.nc), sameo(A, a.ro(i_), MROW(Q, i_ - t(i_)), IV(0), XG, a.nc)), [a.ro(i_)])),
            ("sums of the rows", forall([i_], Implies(And(0 <= i_, i_ < a.nr), k(i_)), [a.ro(i_)])),
            ("equality rows, seen from the matrix", forall([r_], Implies(And(0 <= r_, r_ < t(a.nr)), And(0 <= ie(r_), ie(r_) < a.nr, a.eq(ie(r_)) != 0, SPO(MROW(E, r_), IV(0), XG, a.nc) == rowsum(a, ie(r_)))), [MROW(E, r_)])),
            ("inequality rows, seen from the matrix", forall([r_], Implies(And(0 <= r_, r_ < a.nr - t(a.nr)), And(0 <= ii(r_), ii(r_) < a.nr, a.eq(ii(r_)) == 0, SPO(MROW(Q, r_), IV(0), XG, a.nc) == rowsum(a, ii(r_)))), [MROW(Q, r_)])),
            ("points of the system", Implies(allhold(a), mats_in(E, Q, XG, a.nc))),
            ("points of the set", Implies(mats_in(E, Q, XG, a.nc), allhold(a)))]


contract("isl_basic_set_from_pluto_constraints", props=("C05",), nloops=3, setup=cnt_lip,
         requires=lambda c: [(l, f) for l, f in Cst(c.pre, c["cst"]).wf(single=False)] + [("a constant column", Cst(c.pre, c["cst"]).nc >= 1)], modifies=lambda c: {}, loops={k: from_inv(k) for k in range(3)},
         hints={"isl_basic_set_from_constraint_matrices": from_hint},
         ensures=lambda c: (lambda a: [("the set", And(given(c), SDIM(c.ret.blk) == a.nc - 1)), ("exactly the points of the system", gen(c, "isl_basic_set_from_pluto_constraints", lambda X: INB(c.ret.blk, X), lambda X: INB(c.ret.blk, X) == allhold(a, X)))])(Cst(c.pre, c["cst"])))


# a map's points are laid out in the order in which its columns were given
MORD = z3.Function("ISLMORD", I, I)
MD = lambda h, k: z3.Function("ISLMDIM%d" % k, I, I)(h)
ext("isl_space_alloc", [("ctx", H_CTX), ("np", I32), ("ni", I32), ("no", I32)], lambda c: [("space", And(given(c), SDIM(c.ret.blk) == c["np"] + c["ni"] + c["no"], MD(c.ret.blk, 1) == c["np"], MD(c.ret.blk, 2) == c["ni"], MD(c.ret.blk, 3) == c["no"]))], None or (lambda c: []), H_SP)


def order(c, n):
    o = IV(0)
    for k in range(1, n + 1):
        o = o * 10 + c["c%d" % k]
    return o


def bmap_ens(c):
    return bset_ens(c) + [("column order", MORD(c.ret.blk) == order(c, 5))] + [("dimensions", And(*[MD(c.ret.blk, k) == MD(c["dim"].blk, k) for k in (1, 2, 3)]))]


ext("isl_basic_map_from_constraint_matrices", [("dim", H_SP), ("eq", H_MAT), ("ineq", H_MAT)] + [("c%d" % k, I32) for k in range(1, 6)], bmap_ens,
    lambda c: [("columns", And(MC(c["eq"].blk) == SDIM(c["dim"].blk) + 1, MC(c["ineq"].blk) == MC(c["eq"].blk))), ("the constant last", c["c5"] == 0)], H_BM)
OUT_IN = IV(32410)      # out, in, div, param, cst
IN_OUT = IV(23410)

contract("isl_basic_map_from_pluto_constraints", props=("C05",), nloops=3, setup=cnt_lip,
         requires=lambda c: [(l, f) for l, f in Cst(c.pre, c["cst"]).wf(single=False)] + [("dimensions", And(c["n_in"] >= 0, c["n_out"] >= 0, c["n_par"] >= 0, Cst(c.pre, c["cst"]).nc == c["n_in"] + c["n_out"] + c["n_par"] + 1))],
         modifies=lambda c: {}, loops={k: from_inv(k) for k in range(3)}, hints={"isl_basic_map_from_constraint_matrices": from_hint},
         ensures=lambda c: (lambda a: [("the map", And(given(c), MD(c.ret.blk, 1) == c["n_par"], MD(c.ret.blk, 2) == c["n_in"], MD(c.ret.blk, 3) == c["n_out"])), ("variables of the range, of the domain, parameters", MORD(c.ret.blk) == OUT_IN),
                                       ("exactly the points of the system", INB(c.ret.blk, XG) == allhold(a))])(Cst(c.pre, c["cst"])))

# ------------------------------------------------------------------ from isl
EQM = z3.Function("ISLEQM", I, I)
INQM = z3.Function("ISLINQM", I, I)
NODIV = z3.Function("ISLNODIV", I, I)     # the set without its existentially quantified divisions


def mats_ens(h, fn, o, n):
    def ens(c):
        b = c["b"].blk
        e, q = EQM(b), INQM(b)
        return [("matrix", And(given(c), c.ret.blk == fn(b), MR(e) >= 0, MR(q) >= 0, MR(e) <= MAXD, MR(q) <= MAXD, MR(e) + MR(q) <= MAXD, MC(e) == SDIM(b) + 1, MC(q) == SDIM(b) + 1, SDIM(b) >= 0, SDIM(b) < MAXD, INB(b, XG) == mats_in(e, q, XG, MC(e))))]
    return ens


for h, pre_, o in (("set", H_BS, [3, 4, 1, 0]), ("map", H_BM, [2, 3, 4, 1, 0])):
    for nm, fn in (("equalities", EQM), ("inequalities", INQM)):
        ext("isl_basic_%s_%s_matrix" % (h, nm), [("b", pre_)] + [("c%d" % k, I32) for k in range(1, len(o) + 1)], mats_ens(h, fn, o, len(o)),
            (lambda o: lambda c: [("column order", And(*[c["c%d" % (k + 1)] == o[k] for k in range(len(o))]))])(o), H_MAT)
    ext("isl_basic_%s_copy" % h, [("b", pre_)], lambda c: [("same", And(given(c), c.ret.blk == c["b"].blk))], ret=pre_)
    ext("isl_basic_%s_free" % h, [("b", pre_)], lambda c: [], ret=pre_)
ext("isl_basic_set_remove_divs", [("b", H_BS)], lambda c: [("divisions dropped", And(given(c), c.ret.blk == NODIV(c["b"].blk), SDIM(c.ret.blk) == SDIM(c["b"].blk), Implies(INB(c["b"].blk, XG), INB(c.ret.blk, XG))))], ret=H_BS)
ext("isl_mat_rows", [("m", H_MAT)], lambda c: [("rows", c.ret == MR(c["m"].blk))])
ext("isl_mat_cols", [("m", H_MAT)], lambda c: [("columns", c.ret == MC(c["m"].blk))])
ext("isl_mat_get_element_val", [("m", H_MAT), ("row", I32), ("col", I32)], lambda c: [("entry", And(given(c), RAT(c.ret.blk), VAL(c.ret.blk) == ME(c["m"].blk, c["row"], c["col"])))],
    lambda c: [("in the matrix", And(0 <= c["row"], c["row"] < MR(c["m"].blk), 0 <= c["col"], c["col"] < MC(c["m"].blk)))], hp("isl_val"))
ext("isl_mat_free", [("m", H_MAT)], lambda c: [], ret=H_MAT)


def sat64(x):
    return If(i64(x), x, If(x > 0, IV(2**63 - 1), IV(-2**63)))


def to_rows(a, b, n, part=None):
    """Rows of the system a, from the matrices of b: the first n rows, and part of the next."""
    e, q = EQM(b), INQM(b)
    src = lambda i, j: If(i < MR(e), sat64(ME(e, i, j)), sat64(ME(q, i - MR(e), j)))
    out = [("kinds so far", forall([i_], Implies(And(0 <= i_, i_ < n), a.eq(i_) == If(i_ < MR(e), 1, 0)), [a.eq(i_)])),
           ("rows so far", forall([i_, j_], Implies(And(0 <= i_, i_ < n, 0 <= j_, j_ < a.nc), a.at(i_, j_) == src(i_, j_)), [a.at(i_, j_)]))]
    if part is not None:
        out += [("this row's kind", a.eq(n) == If(n < MR(e), 1, 0)), ("this row", forall([j_], Implies(And(0 <= j_, j_ < part), a.at(n, j_) == src(n, j_)), [a.at(n, j_)]))]
    return out


def to_inv(k, bs):
    def inv(L):
        b = bs(L)
        e, q = EQM(b), INQM(b)
        a = Cst(L.st, L.v("cons"))
        out = [("result: " + l, f) for l, f in a.wf()] + a.fresh_from(L.pre) + [("extents", And(a.nr == MR(e) + MR(q), a.nc == MC(e))), ("locals", And(L.v("eq").blk == e, L.v("ineq").blk == q, L.v("eq_row") == MR(e), L.v("ineq_row") == MR(q), L.v("n_col") == MC(e)))]
        off = IV(0) if k < 2 else MR(e)
        mine = MR(e) if k < 2 else MR(q)
        if k in (0, 2):
            return out + [("i", And(0 <= L.i, L.i <= mine))] + to_rows(a, b, off + L.i)
        return out + [("i", And(0 <= L.up(), L.up() < mine)), ("j", And(0 <= L.i, L.i <= a.nc))] + to_rows(a, b, off + L.up(), L.i)
    return inv


def fits(b):
    e, q = EQM(b), INQM(b)
    return And(forall([i_, j_], Implies(And(0 <= i_, i_ < MR(e), 0 <= j_, j_ < MC(e)), i64(ME(e, i_, j_))), [ME(e, i_, j_)]), forall([i_, j_], Implies(And(0 <= i_, i_ < MR(q), 0 <= j_, j_ < MC(q)), i64(ME(q, i_, j_))), [ME(q, i_, j_)]))


def to_facts(a, b):
    e, q = EQM(b), INQM(b)
    A = rb_(a)
    at = lambda i: If(i < MR(e), SPO(MROW(e, i), IV(0), XG, a.nc), SPO(MROW(q, i - MR(e)), IV(0), XG, a.nc))
    F = fits(b)
    return [("@def", forall([i_], And(sameo(A, a.ro(i_), MROW(e, i_), IV(0), XG, a.nc), sameo(A, a.ro(i_), MROW(q, i_ - MR(e)), IV(0), XG, a.nc)), [a.ro(i_)])),
            ("each row at the point", Implies(F, forall([i_], Implies(And(0 <= i_, i_ < a.nr), And(Implies(i_ < MR(e), rowsum(a, i_) == SPO(MROW(e, i_), IV(0), XG, a.nc)), Implies(i_ >= MR(e), rowsum(a, i_) == SPO(MROW(q, i_ - MR(e)), IV(0), XG, a.nc)))), [a.ro(i_)]))),
            ("seen from the equalities", Implies(F, forall([r_], Implies(And(0 <= r_, r_ < MR(e)), And(rowsum(a, r_) == SPO(MROW(e, r_), IV(0), XG, a.nc), a.eq(r_) == 1)), [MROW(e, r_)]))),
            ("seen from the inequalities", Implies(F, forall([r_], Implies(And(0 <= r_, r_ < MR(q)), And(rowsum(a, MR(e) + r_) == SPO(MROW(q, r_), IV(0), XG, a.nc), a.eq(MR(e) + r_) == 0)), [MROW(q, r_)]))),
            ("points of the set", Implies(F, Implies(INB(b, XG), allhold(a)))), ("points of the system", Implies(F, Implies(allhold(a), INB(b, XG))))]


def to_ens(a, b, c):
    e, q = EQM(b), INQM(b)
    return a.wf() + a.fresh_from(c.pre) + [("extents", And(a.nr == MR(e) + MR(q), a.nc == SDIM(b) + 1))] + to_rows(a, b, a.nr) + to_facts(a, b)


contract("isl_basic_set_to_pluto_constraints", props=("C05",), nloops=4, requires=lambda c: [("context", c["context"].blk != 0)], modifies=lambda c: {},
         loops={k: to_inv(k, lambda L: NODIV(L["bset"].blk)) for k in range(4)}, ensures=lambda c: to_ens(Cst(c.post, c.ret), NODIV(c["bset"].blk), c))


# ------------------------------------------------------------------ unions: a list of systems
LKEYS = ["c.i64", "c.i32", "c.p.i64.b", "c.p.i64.o"] + ["f.pluto_constraints." + f for f in ("val", "buf", "is_eq", "nrows", "ncols", "alloc_nrows", "alloc_ncols", "next", "context", "names")] + ["freed", "g.own"]
_LF = {}
X_ = z3.Array("anyX", I, I)


def lfun(n, v, c, *extra):
    hs = [v.key(k) for k in LKEYS] + [c] + list(extra)
    if n not in _LF:
        _LF[n] = z3.Function(n, *([h.sort() for h in hs] + [z3.BoolSort()]))
    return _LF[n](*hs)


def LWF(v, c, nb=None):
    """A list of well-formed systems over the same variables."""
    return lfun("LWF", v, c, v.nb if nb is None else nb)


def lwf_mono(v, c):
    """Allocating more blocks keeps lists well formed (by induction on the list)."""
    n = z3.Int("nbm")
    return forall([n], Implies(And(n >= v.nb, LWF(v, c)), LWF(v, c, n)), [LWF(v, c, n)])


def LIN(v, c, X=None):
    """The point lies in the union."""
    return lfun("LIN", v, c, XG if X is None else X)


def l_def(v, c, X=None):
    a = Cst(v, c)
    n = Cst(v, a.next)
    return [("@def", Implies(c != 0, LWF(v, c) == And(And(*[f for l, f in a.wf(single=False)]), a.nc >= 1, Implies(a.next != 0, And(LWF(v, a.next), n.nc == a.nc))))),
            ("@def", Implies(c != 0, LIN(v, c, X) == Or(allhold(a, X), And(a.next != 0, LIN(v, a.next, X)))))]


EMPT = z3.Function("ISLEMPTY", I, z3.BoolSort())
WIT = z3.Function("ISLWITNESS", I, AI)
MARK = z3.Function("MARK", AI, z3.BoolSort())
ext("isl_set_from_basic_set", [("b", H_BS)], lambda c: [("same points", And(given(c), SDIM(c.ret.blk) == SDIM(c["b"].blk), forall([X_], INB(c.ret.blk, X_) == INB(c["b"].blk, X_), [INB(c.ret.blk, X_)])))], ret=H_SET)
ext("isl_set_empty", [("s", H_SP)], lambda c: [("no points", And(given(c), SDIM(c.ret.blk) == SDIM(c["s"].blk), forall([X_], Not(INB(c.ret.blk, X_)), [INB(c.ret.blk, X_)])))], ret=H_SET)
for nm, opn in (("isl_set_union", Or), ("isl_set_intersect", And)):
    ext(nm, [("a", H_SET), ("b", H_SET)], (lambda opn: lambda c: [("points", And(given(c), SDIM(c.ret.blk) == SDIM(c["a"].blk), forall([X_], INB(c.ret.blk, X_) == opn(INB(c["a"].blk, X_), INB(c["b"].blk, X_)), [INB(c.ret.blk, X_)])))])(opn),
        lambda c: [("same space", SDIM(c["a"].blk) == SDIM(c["b"].blk))], ret=H_SET)
ext("isl_ctx_alloc", [], lambda c: [("context", given(c))], ret=H_CTX)
ext("isl_ctx_free", [("c", H_CTX)], lambda c: [])
ext("isl_set_free", [("s", H_SET)], lambda c: [], ret=H_SET)
ext("isl_set_is_empty", [("s", H_SET)], lambda c: (lambda h: [("answer", And(Or(c.ret == 0, c.ret == 1), (c.ret == 1) == EMPT(h), Implies(EMPT(h), forall([X_], Not(INB(h, X_)), [INB(h, X_)])), Implies(Not(EMPT(h)), INB(h, WIT(h)))))])(c["s"].blk))


def setfrom_inv(L):
    p, s = L.v("cst"), L.v("set")
    c0 = L["cst"].blk
    v = L.pre
    return l_def(v, p.blk) + [("cursor", And(p.off == 0, p.blk >= 0, Implies(p.blk != 0, And(LWF(v, p.blk), Cst(v, p.blk).nc == Cst(v, c0).nc)))), ("set", And(s.blk > 0, s.off == 0, SDIM(s.blk) == Cst(v, c0).nc - 1)),
                                ("points so far", Or(INB(s.blk, XG), And(p.blk != 0, LIN(v, p.blk))) == LIN(v, c0))]


contract("isl_set_from_pluto_constraints", props=("C05",), nloops=1, setup=lambda c: [f for _, f in l_def(c.pre, c["cst"].blk)], requires=lambda c: [("a union of systems", And(c["cst"].blk > 0, c["cst"].off == 0, LWF(c.pre, c["cst"].blk)))], modifies=lambda c: {},
         loops={0: setfrom_inv}, ensures=lambda c: [("the set", And(given(c), SDIM(c.ret.blk) == Cst(c.pre, c["cst"]).nc - 1)), ("exactly the points of the union", gen(c, "isl_set_from_pluto_constraints", lambda X: INB(c.ret.blk, X), lambda X: INB(c.ret.blk, X) == LIN(c.pre, c["cst"].blk, X)))])


def lreq(c, *ns):
    return [("%s: a union of systems" % n, And(c[n].blk > 0, c[n].off == 0, LWF(c.pre, c[n].blk))) for n in ns]


def lset(*ns):
    return lambda c: [f for n in ns for _, f in l_def(c.pre, c[n].blk)] + [lwf_mono(c.pre, c[n].blk) for n in ns]


contract("pluto_constraints_lexmin_pip", assumed=True, decl=[("cst", hp("pluto_constraints")), ("negvar", I32)], ret_ct=("ptr", ("int", 64)), requires=lambda c: lreq(c, "cst"), modifies=lambda c: {},
         ensures=lambda c: (lambda a: [("no solution", Implies(c.ret.blk == 0, forall([X_], Not(allhold(a, X_)), [MARK(X_)]))), ("a solution", Implies(c.ret.blk != 0, And(c.ret.blk >= c.pre.nb, c.ret.off == 0, Not(c.post.freed(c.ret.blk)), z3.Exists([X_], And(MARK(X_), allhold(a, X_))))))])(Cst(c.pre, c["cst"])))


SPA = z3.Function("SPA", SYS, I, AI, I, I)     # row i of the system A at a point
WSYS = z3.Function("WSYS", I, I, SYS, AI)
A0 = z3.Const("A0", SYS)


def a_holds(A, n, m, X):
    return forall([r_], Implies(And(0 <= r_, r_ < n), And(SPA(A, r_, X, m) >= 0, Implies(KD(A, r_) != 0, SPA(A, r_, X, m) == 0))), [[SPA(A, r_, X, m)], [KD(A, r_)]])


def empty_def(A, n, m):
    """EMPTY: no integer point satisfies the rows of A (WSYS: a point if there is one)."""
    return And(Implies(EMPTY(n, m, A), And(Not(a_holds(A, n, m, XG)), forall([X_], Not(a_holds(A, n, m, X_)), [MARK(X_)]))), Implies(Not(EMPTY(n, m, A)), a_holds(A, n, m, WSYS(n, m, A))))


def agree_sums(a, A, X):
    """Sums of equal rows are equal."""
    return Implies(agree_(A, a), forall([r_], Implies(And(0 <= r_, r_ < a.nr), SPA(A, r_, X, a.nc) == rowsum(a, r_, X)), [[SPA(A, r_, X, a.nc)], [a.ro(r_)], [KD(A, r_)]]))


def agree_(A, a):
    return And(forall([i_, j_], Implies(And(0 <= i_, i_ < a.nr, 0 <= j_, j_ < a.nc), CO(A, i_, j_) == a.at(i_, j_)), [CO(A, i_, j_)]), forall([i_], Implies(And(0 <= i_, i_ < a.nr), (KD(A, i_) != 0) == (a.eq(i_) != 0)), [[KD(A, i_)], [a.eq(i_)]]))


ISE = "pluto_constraints_is_empty"


def empty_ens(c):
    a = Cst(c.pre, c["cst"])
    if c.vf.fname in EMPTY_USERS:
        some = z3.Exists([X_], And(MARK(X_), LIN(c.pre, c["cst"].blk, X_)), patterns=[MARK(X_)])
        out = [("empty: no point", Implies(c.ret != 0, gen(c, ISE, MARK, lambda X: Not(LIN(c.pre, c["cst"].blk, X))))), ("not empty: a point", Implies(c.ret == 0, some))]
        if c.vf.fname == ISE:
            W = WSYS(a.nr, a.nc, A0)
            out += [("@def", empty_def(A0, a.nr, a.nc)), ("@def", And(agree_sums(a, A0, XG), agree_sums(a, A0, W), forall([X_], agree_sums(a, A0, X_), [MARK(X_)])))]
            at_ = lambda X: Implies(And(a.next == 0, agree_(A0, a)), a_holds(A0, a.nr, a.nc, X) == allhold(a, X))
            out += [("for one system, in terms of its rows: the point", And(at_(XG))), ("for one system, in terms of its rows: the other point", And(at_(W)))]
            out += [("for one system, in terms of its rows: no point", Implies(And(a.next == 0, agree_(A0, a), c.ret == 0), Not(EMPTY(a.nr, a.nc, A0))))]
            out += [("for one system, in terms of its rows: some point", Implies(And(a.next == 0, agree_(A0, a), c.ret != 0, LINW(c, W)), EMPTY(a.nr, a.nc, A0)))]
        return out
    return [("empty exactly when no integer point satisfies it", empty_iff(bl(c.ret), a.nr, a.nc, a.at, a.eq)), ("systems exist", empty_some(bl(c.ret), a.nr, a.nc, a.at, a.eq))]


EMPTY_USERS = {ISE}
def LINW(c, W):
    """The first of these postconditions, at the point W instead of XG."""
    return Not(LIN(c.pre, c["cst"].blk, W))


def empty_req(c):
    if c.vf.fname in EMPTY_USERS:
        return lreq(c, "cst")
    return [("system: " + l, f) for l, f in Cst(c.pre, c["cst"]).wf()] + [("a constant column", Cst(c.pre, c["cst"]).nc >= 1)]


def empty_setup(c):
    v, b = c.pre, c["cst"].blk
    a = Cst(v, b)
    W = WSYS(a.nr, a.nc, A0)
    out = lset("cst")(c) + [lwf_mono(v, a.next), l_def(v, a.next)[0][1], MARK(XG), MARK(W), forall([X_], l_def(v, b, X_)[1][1], [MARK(X_)])]
    return out


contract("pluto_constraints_is_empty", props=("C05", "C10"), nloops=0, setup=empty_setup, requires=empty_req, modifies=lambda c: {}, ensures=empty_ens, hints={"isl_set_is_empty": lambda c: [("@def", MARK(WIT(c.call["s"].blk)))]})

contract("isl_set_to_pluto_constraints", assumed=True, requires=lambda c: [("set", c["set"].blk > 0), ("context", c["context"].blk != 0)], modifies=lambda c: {},
         ensures=lambda c: [("a union of systems", And(given(c), LWF(c.post, c.ret.blk), c.ret.blk >= c.pre.nb)), ("points", And(LIN(c.post, c.ret.blk) == INB(c["set"].blk, XG)))])

for nm, opn in (("union", Or), ("intersection", And)):
    contract("pluto_constraints_%s_isl" % nm, props=("C05",), nloops=0, setup=lset("cst1", "cst2"), requires=lambda c: lreq(c, "cst1", "cst2") + [("same variables", Cst(c.pre, c["cst1"]).nc == Cst(c.pre, c["cst2"]).nc)], modifies=lambda c: {},
             ensures=(lambda opn, nm: lambda c: [("a fresh union of systems", And(given(c), LWF(c.post, c.ret.blk), c.ret.blk >= c.pre.nb)), ("exactly the %s" % nm, LIN(c.post, c.ret.blk) == opn(LIN(c.pre, c["cst1"].blk), LIN(c.pre, c["cst2"].blk)))])(opn, nm))


# ------------------------------------------------------------------ lexicographic minimum
LEXLE = z3.Function("LEXLE", AI, AI, I, z3.BoolSort())     # lexicographic order on the first n entries
PT = z3.Function("ISLPOINT", I, AI)
H_PT = hp("isl_point")


def nonneg(X, n):
    return forall([j_], Implies(And(0 <= j_, j_ < n), X[j_] >= 0), [X[j_]])


ext("isl_set_get_space", [("s", H_SET)], lambda c: [("space", And(given(c), SDIM(c.ret.blk) == SDIM(c["s"].blk)))], ret=H_SP)
ext("isl_basic_set_positive_orthant", [("s", H_SP)], lambda c: [("non-negative points", And(given(c), SDIM(c.ret.blk) == SDIM(c["s"].blk), forall([X_], INB(c.ret.blk, X_) == nonneg(X_, SDIM(c["s"].blk)), [INB(c.ret.blk, X_)])))], ret=H_BS)
ext("isl_set_lexmin", [("s", H_SET)], lambda c: (lambda s, r: [("the least point", And(given(c), SDIM(r) == SDIM(s), EMPT(r) == EMPT(s), forall([X_], Implies(INB(r, X_), And(INB(s, X_), forall([Y_], Implies(INB(s, Y_), LEXLE(X_, Y_, SDIM(s))), [INB(s, Y_)]))), [INB(r, X_)]))),
     ("empty: nothing at all", Implies(EMPT(s), forall([X_], Not(INB(s, X_)), [INB(s, X_)])))])(c["s"].blk, c.ret.blk), ret=H_SET)
ext("isl_set_n_dim", [("s", H_SET)], lambda c: [("dimensions", c.ret == SDIM(c["s"].blk))])
ext("isl_set_sample_point", [("s", H_SET)], lambda c: [("a point of the set", And(given(c), Implies(Not(EMPT(c["s"].blk)), And(INB(c["s"].blk, PT(c.ret.blk)), PT(c.ret.blk)[SDIM(c["s"].blk)] == 1)), MARK(PT(c.ret.blk))))], ret=H_PT)
ext("isl_point_get_coordinate_val", [("p", H_PT), ("t", I32), ("i", I32)], lambda c: [("coordinate", And(given(c), RAT(c.ret.blk), VAL(c.ret.blk) == PT(c["p"].blk)[c["i"]]))], lambda c: [("a set coordinate", c["t"] == 3)], hp("isl_val"))
ext("isl_point_free", [("p", H_PT)], lambda c: [], ret=H_PT)
Y_ = z3.Array("anyY", I, I)


def feasible(c, X):
    a = Cst(c.pre, c["cst"])
    return And(allhold(a, X), Implies(c["negvar"] == 0, nonneg(X, a.nc - 1)))


def lex_inv(L):
    p, s = L.v("p").blk, L.v("sol")
    n = L.v("num_dimensions")
    return [("i", And(0 <= L.i, L.i <= n)), ("solution block", And(s.off == 0, s.blk >= L.pre.nb, s.blk < L.st.nb, Not(L.st.freed(s.blk)), LEN(s.blk) >= 8 * n)),
            ("coordinates so far", forall([j_], Implies(And(0 <= j_, j_ < L.i), L.st.cell("c.i64", s.blk, j_) == sat64(PT(p)[j_])), [L.st.cell("c.i64", s.blk, j_)]))]


def lex_ens(c):
    a = Cst(c.pre, c["cst"])
    r = c.ret
    least = lambda X: forall([Y_], Implies(feasible(c, Y_), LEXLE(X, Y_, a.nc - 1)), [MARK(Y_)]) if c.vf.fname != "pluto_constraints_lexmin_isl" else Implies(feasible(c, XG), LEXLE(X, XG, a.nc - 1))
    ex = z3.Exists([X_], And(MARK(X_), feasible(c, X_), X_[a.nc - 1] == 1, least(X_), forall([j_], Implies(And(0 <= j_, j_ < a.nc - 1), c.post.cell("c.i64", r.blk, j_) == sat64(X_[j_])), [c.post.cell("c.i64", r.blk, j_)])), patterns=[MARK(X_)])
    return [("no solution: no feasible point", Implies(r.blk == 0, Not(feasible(c, XG)))),
            ("a fresh vector", Implies(r.blk != 0, And(r.off == 0, r.blk >= c.pre.nb, Not(c.post.freed(r.blk)), LEN(r.blk) >= 8 * (a.nc - 1)))), ("the least feasible point", Implies(r.blk != 0, ex))]


contract("pluto_constraints_lexmin_isl", props=("C05", "C09"), nloops=1, requires=lambda c: Cst(c.pre, c["cst"]).wf() + [("a constant column", Cst(c.pre, c["cst"]).nc >= 1)], modifies=lambda c: {}, loops={0: lex_inv}, ensures=lex_ens,
         hints={"isl_set_lexmin": lambda c: [("the set minimised", INB(c.call["s"].blk, XG) == feasible(c, XG))],
                "isl_set_sample_point": lambda c: [("the point is feasible", feasible(c, PT(c.ret.blk))), ("and least", Implies(feasible(c, XG), LEXLE(PT(c.ret.blk), XG, Cst(c.pre, c["cst"]).nc - 1)))]})


# ------------------------------------------------------------------ maps
INFO = "pluto_cst_context_info"


def info_(c):
    v, u = c.pre, c["user"].blk
    return v.f(INFO, "cst", u, IV(0)), v.f(INFO, "context", u, IV(0))


def info_req(c):
    v, u = c.pre, c["user"].blk
    out, ctx = info_(c)
    lv = lambda b, n: And(b > 0, b < v.nb, Not(v.freed(b)), LEN(b) >= n)
    return [("request", And(lv(u, 16), c["user"].off == 0, lv(out, 8), ctx != 0))]


contract("isl_basic_map_to_pluto_constraints_func_arg", props=("C05",), nloops=4, requires=info_req, modifies=lambda c: {"c.p.pluto_constraints.b": [info_(c)[0]]},
         loops={k: to_inv(k, lambda L: L["bmap"].blk) for k in range(4)}, ensures=lambda c: to_ens(Cst(c.post, c.post.pcell("pluto_constraints", info_(c)[0], IV(0))), c["bmap"].blk, c))
contract("isl_basic_map_to_pluto_constraints", props=("C05",), nloops=0, requires=lambda c: [("context", c["context"].blk != 0)], modifies=lambda c: {}, ensures=lambda c: to_ens(Cst(c.post, c.ret), c["bmap"].blk, c))
