"""Contracts for lib/math_support.c: the matrix abstraction (C01) and integer linear algebra (C02)."""
from base import *

M = "pluto_matrix"


class Mat:
    """A matrix as seen in a state."""

    def __init__(self, view, p):
        self.v, self.p = view, p
        self.m = blk(p)
        self.val = view.f(M, "val", self.m, IV(0))
        self.nr = view.f(M, "nrows", self.m, IV(0))
        self.nc = view.f(M, "ncols", self.m, IV(0))
        self.anr = view.f(M, "alloc_nrows", self.m, IV(0))
        self.anc = view.f(M, "alloc_ncols", self.m, IV(0))

    def rb(self, i):
        return self.v.cell("c.p.i64.b", self.val, i)

    def ro(self, i):
        return self.v.cell("c.p.i64.o", self.val, i)

    def at(self, i, j):
        return self.v.cell("c.i64", self.rb(i), ADR(self.ro(i), j))

    def own(self):
        """Predicate: block belongs to this matrix."""
        return lambda b: Or(b == self.m, b == self.val, self.rows()(b))

    def rows(self):
        return lambda b: And(self.v.own(b) == self.val, KINDF(b) == K("i64"))

    def wf(self, nrmax=None):
        i = z3.Int("wi")
        v = self.v
        r = self.rb(i)
        return [
            ("matrix block", And(self.m > 0, self.m < v.nb, LEN(self.m) >= sizeof(v, M), Not(v.freed(self.m)), KINDF(self.m) == K(M))),
            ("row table", And(self.val > 0, self.val < v.nb, LEN(self.val) >= 8 * self.anr, Not(v.freed(self.val)), v.own(self.val) == self.m,
                              KINDF(self.val) == K("f.pluto_matrix.val"))),
            ("extents", And(self.nr >= 0, self.nr <= self.anr, self.nc >= 0, self.nc <= self.anc, self.anr >= 1, self.anc >= 1, self.anr <= MAXD, self.anc <= MAXD)),
            ("rows", forall([i], Implies(And(0 <= i, i < self.anr), And(
                r > 0, r < v.nb, LEN(r) >= 8 * self.anc, Not(v.freed(r)), v.own(r) == self.val, v.ownidx(r) == i, KINDF(r) == K("i64"), self.ro(i) == 0)), [r, self.ro(i)])),
        ]

    def fresh_from(self, pre):
        i = z3.Int("wi")
        return [("fresh matrix", And(self.m >= pre.nb, self.val >= pre.nb)),
                ("fresh rows", forall([i], Implies(And(0 <= i, i < self.anr), self.rb(i) >= pre.nb), [self.rb(i)]))]

    def is_(self, fn, lbl="contents", rows=None, cols=None):
        """forall i<rows, j<cols: at(i,j) == fn(i,j)"""
        i, j = z3.Ints("i j")
        rows = self.nr if rows is None else rows
        cols = self.nc if cols is None else cols
        return (lbl, forall([i, j], Implies(And(0 <= i, i < rows, 0 <= j, j < cols), self.at(i, j) == fn(i, j)), [self.at(i, j)]))


def wf(c, *names, view=None):
    out = []
    for n in names:
        for l, f in Mat(view or c.pre, c[n]).wf():
            out.append(("%s: %s" % (n, l), f))
    return out


def wfpost(c, n):
    return [("%s stays well formed: %s" % (n, l), f) for l, f in Mat(c.post, c[n]).wf()]


def rowmods(c, *names):
    """Modifies: only entries of the rows of the named matrices."""
    ms = [Mat(c.pre, c[n]) for n in names]
    return {"c.i64": lambda b: Or(*[m.rows()(b) for m in ms])}


def keep(c, n):
    """Extents and storage unchanged."""
    a, b = Mat(c.pre, c[n]), Mat(c.post, c[n])
    return [("extents kept", And(a.nr == b.nr, a.nc == b.nc))]


# ------------------------------------------------------------------ alloc / free
contract("pluto_matrix_alloc", props=("C01",), nloops=1,
         requires=lambda c: [("extents", And(c["alloc_nrows"] >= 0, c["alloc_ncols"] >= 0, c["alloc_nrows"] <= MAXD, c["alloc_ncols"] <= MAXD))],
         ensures=lambda c: Mat(c.post, c.ret).wf() + Mat(c.post, c.ret).fresh_from(c.pre) + [
             ("extents as requested", And(Mat(c.post, c.ret).nr == c["alloc_nrows"], Mat(c.post, c.ret).nc == c["alloc_ncols"])),
             ("capacity", And(Mat(c.post, c.ret).anr == If(c["alloc_nrows"] > 1, c["alloc_nrows"], 1), Mat(c.post, c.ret).anc == If(c["alloc_ncols"] > 1, c["alloc_ncols"], 1))),
             ("context", c.post.f(M, "context", c.ret) == c["context"].blk)],
         loops={0: lambda L: alloc_inv(L)})


def alloc_inv(L):
    m = Mat(L.st, L.v("mat"))
    i = z3.Int("wi")
    r = m.rb(i)
    v = L.st
    return [("rows so far", forall([i], Implies(And(0 <= i, i < L.i), And(
        r >= L.pre.nb, r < v.nb, LEN(r) >= 8 * m.anc, Not(v.freed(r)), v.own(r) == m.val, v.ownidx(r) == i, KINDF(r) == K("i64"), m.ro(i) == 0)), [r])),
        ("i", L.i <= m.anr),
        ("table not disturbed", And(v.own(m.val) == m.m, Not(v.freed(m.val)), Not(v.freed(m.m))))]

contract("pluto_matrix_free", props=("C01",), nloops=1,
         requires=lambda c: [(l, Implies(c["mat"].blk != 0, f)) for l, f in Mat(c.pre, c["mat"]).wf()],
         frees=lambda c: (lambda b: And(c["mat"].blk != 0, Mat(c.pre, c["mat"]).own()(b))),
         ensures=lambda c: [("everything released", Implies(c["mat"].blk != 0, And(
             c.post.freed(c["mat"].blk), c.post.freed(Mat(c.pre, c["mat"]).val),
             (lambda m, i: forall([i], Implies(And(0 <= i, i < m.anr), c.post.freed(m.rb(i))), [m.rb(i)]))(Mat(c.pre, c["mat"]), z3.Int("i")))))],
         loops={0: lambda L: free_inv(L)})


def free_inv(L):
    m = Mat(L.pre, L["mat"])
    i = z3.Int("wi")
    r = m.rb(i)
    return [("done", forall([i], Implies(And(0 <= i, i < L.i), L.st.freed(r)), [r])),
            ("rest", forall([i], Implies(And(L.i <= i, i < m.anr), Not(L.st.freed(r))), [r])),
            ("table", And(Not(L.st.freed(m.val)), Not(L.st.freed(m.m)))), ("i", L.i <= m.anr)]


# ------------------------------------------------------------------ growth
def growmods(c, n="mat"):
    m = Mat(c.pre, c[n])
    ob = lambda b: Or(b == m.val, m.v.own(b) == m.val)
    return {"f.pluto_matrix.val": [m.m], "f.pluto_matrix.nrows": [m.m], "f.pluto_matrix.ncols": [m.m], "f.pluto_matrix.alloc_nrows": [m.m],
            "f.pluto_matrix.alloc_ncols": [m.m], "c.p.i64.b": [m.val], "c.p.i64.o": [m.val], "c.i64": m.rows(), "g.own": ob, "g.idx": ob}


def growfrees(n="mat"):
    return lambda c: (lambda b: Or(b == Mat(c.pre, c[n]).val, Mat(c.pre, c[n]).rows()(b)))


def own_closed(c, n):
    """Blocks owned by the row table afterwards are owned rows or fresh (callers' separation argument)."""
    a, b = Mat(c.pre, c[n]), Mat(c.post, c[n])
    x = z3.Int("ox")
    return [("ownership", And(Or(b.val == a.val, b.val >= c.pre.nb),
                              forall([x], Implies(And(x < c.pre.nb, c.post.own(x) == b.val), c.pre.own(x) == a.val), [c.post.own(x)])))]


def resize_ens(c):
    a, b = Mat(c.pre, c["mat"]), Mat(c.post, c["mat"])
    i, j = z3.Ints("i j")
    return wfpost(c, "mat") + [
        ("extents", And(b.nr == c["nrows"], b.nc == c["ncols"])),
        ("capacity", And(b.anr == If(c["nrows"] > a.anr, c["nrows"], a.anr), b.anc == If(c["ncols"] > a.anc, c["ncols"], a.anc))),
        ("no entry lost", forall([i, j], Implies(And(0 <= i, i < a.anr, 0 <= j, j < a.anc), b.at(i, j) == a.at(i, j)), [b.at(i, j)]))] + own_closed(c, "mat")


def ownershipinv(L, a, b):
    x = z3.Int("ox")
    return ("ownership", forall([x], Implies(And(x < L.pre.nb, L.st.own(x) == b.val), L.pre.own(x) == a.val), [L.st.own(x)]))


def resize_inv0(L):
    a, b = Mat(L.pre, L["mat"]), Mat(L.st, L["mat"])
    k = z3.Int("wi")
    nr = L.v("alloc_nrows")
    return [("filled with NULL", forall([k], Implies(And(a.anr <= k, k < L.i), And(b.rb(k) == 0, b.ro(k) == 0)), [b.rb(k)])),
            ("old rows", forall([k], Implies(And(0 <= k, k < a.anr), And(b.rb(k) == a.rb(k), b.ro(k) == 0)), [b.rb(k)])),
            ("i", L.i <= nr), ownershipinv(L, a, b),
            ("owners", And(forall([k], Implies(And(0 <= k, k < a.anr), And(L.st.own(a.rb(k)) == b.val, L.st.ownidx(a.rb(k)) == k)), [a.rb(k)]),
                           L.st.own(b.val) == b.m, Not(L.st.freed(b.m)), Not(L.st.freed(b.val))))]


def resize_inv1(L):
    a, b = Mat(L.pre, L["mat"]), Mat(L.st, L["mat"])
    k, j = z3.Ints("wi wj")
    nr, nc = L.v("alloc_nrows"), L.v("alloc_ncols")
    v = L.st
    r = b.rb(k)
    x = z3.Int("ox")
    return [("new rows", forall([k], Implies(And(0 <= k, k < L.i), And(
        r > 0, r >= L.pre.nb, r < v.nb, LEN(r) >= 8 * nc, Not(v.freed(r)), v.own(r) == b.val, v.ownidx(r) == k, KINDF(r) == K("i64"), b.ro(k) == 0)), [r])),
        ("copied", forall([k, j], Implies(And(0 <= k, k < L.i, k < a.anr, 0 <= j, j < a.anc), b.at(k, j) == a.at(k, j)), [b.at(k, j)])),
        ("pending rows", forall([k], Implies(And(L.i <= k, k < nr), And(b.ro(k) == 0, If(k < a.anr, And(r == a.rb(k), Not(v.freed(r)), v.ownidx(r) == k), r == 0))), [r])),
        ("i", L.i <= nr),
        ("table", And(v.own(b.val) == b.m, Not(v.freed(b.m)), Not(v.freed(b.val)))),
        ("pending contents", forall([k], Implies(And(L.i <= k, k < a.anr), z3.Select(v.key("c.i64"), a.rb(k)) == z3.Select(L.pre.key("c.i64"), a.rb(k))), [a.rb(k)])),
        ownershipinv(L, a, b)]


contract("pluto_matrix_resize", props=("C01",), nloops=2,
         requires=lambda c: wf(c, "mat") + [("extents", And(c["nrows"] >= 0, c["ncols"] >= 0, c["nrows"] <= MAXD, c["ncols"] <= MAXD))],
         modifies=growmods, frees=growfrees(), ensures=resize_ens, loops={0: resize_inv0, 1: resize_inv1})


# ------------------------------------------------------------------ columns / rows
def old(L):
    return Mat(L.pre, L["mat"])


def cur(L):
    return Mat(L.st, L["mat"])


contract("pluto_matrix_remove_col", props=("C01",), nloops=2,
         requires=lambda c: wf(c, "mat") + [("position", And(c["pos"] >= 0, c["pos"] < Mat(c.pre, c["mat"]).nc))],
         modifies=lambda c: dict(rowmods(c, "mat"), **{"f.pluto_matrix.ncols": [c["mat"].blk]}),
         ensures=lambda c: wfpost(c, "mat") + [(lambda a, b: ("extents", And(b.nr == a.nr, b.nc == a.nc - 1)))(Mat(c.pre, c["mat"]), Mat(c.post, c["mat"])),
                                               (lambda a, b: b.is_(lambda i, j: If(j >= c["pos"], a.at(i, j + 1), a.at(i, j))))(Mat(c.pre, c["mat"]), Mat(c.post, c["mat"]))],
         loops={0: lambda L: [cur(L).is_(lambda i, j: If(And(j >= L["pos"], j < L.i), old(L).at(i, j + 1), old(L).at(i, j))), ("j", L.i <= cur(L).nc - 1)],
                1: lambda L: [cur(L).is_(lambda i, j: If(And(j >= L["pos"], Or(j < L.up(), And(j == L.up(), i < L.i))), old(L).at(i, j + 1), old(L).at(i, j)))]})

contract("pluto_matrix_remove_row", props=("C01",), nloops=2,
         requires=lambda c: wf(c, "mat") + [("position", And(c["pos"] >= 0, c["pos"] < Mat(c.pre, c["mat"]).nr))],
         modifies=lambda c: dict(rowmods(c, "mat"), **{"f.pluto_matrix.nrows": [c["mat"].blk]}),
         ensures=lambda c: wfpost(c, "mat") + [(lambda a, b: ("extents", And(b.nr == a.nr - 1, b.nc == a.nc)))(Mat(c.pre, c["mat"]), Mat(c.post, c["mat"])),
                                               (lambda a, b: b.is_(lambda i, j: If(i >= c["pos"], a.at(i + 1, j), a.at(i, j))))(Mat(c.pre, c["mat"]), Mat(c.post, c["mat"]))],
         loops={0: lambda L: [cur(L).is_(lambda i, j: If(And(i >= L["pos"], i < L.i), old(L).at(i + 1, j), old(L).at(i, j))), ("i", L.i <= cur(L).nr - 1)],
                1: lambda L: [cur(L).is_(lambda i, j: If(And(i >= L["pos"], Or(i < L.up(), And(i == L.up(), j < L.i))), old(L).at(i + 1, j), old(L).at(i, j)))]})


def add_col_inv(done):
    def inv(L):
        a, b = old(L), cur(L)
        i, j = z3.Ints("i j")
        return [("columns", forall([i, j], Implies(And(0 <= i, i < b.nr, 0 <= j, j < b.nc), And(
            Implies(done(L, i, j), b.at(i, j) == a.at(i, j - 1)), Implies(And(Not(done(L, i, j)), j < a.nc), b.at(i, j) == a.at(i, j)))), [b.at(i, j)])),
            ] + ([("j", L.i >= L["pos"] - 1)] if done is add_col_done0 else [])
    return inv


def add_col_done0(L, i, j):
    return j >= L.i + 2


def add_col_done1(L, i, j):
    return Or(j >= L.up() + 2, And(j == L.up() + 1, i < L.i))


def shiftcol(a, pos):
    return lambda i, j: If(j < pos, a.at(i, j), If(j == pos, IV(0), a.at(i, j - 1)))


contract("pluto_matrix_add_col", props=("C01",), nloops=3,
         requires=lambda c: wf(c, "mat") + [("position", And(c["pos"] >= 0, c["pos"] <= Mat(c.pre, c["mat"]).nc, Mat(c.pre, c["mat"]).nc < MAXD))],
         modifies=growmods, frees=growfrees(),
         ensures=lambda c: (lambda a, b: wfpost(c, "mat") + [("extents", And(b.nr == a.nr, b.nc == a.nc + 1)), b.is_(shiftcol(a, c["pos"]))])(Mat(c.pre, c["mat"]), Mat(c.post, c["mat"]))
         + own_closed(c, "mat"),
         loops={0: add_col_inv(add_col_done0), 1: add_col_inv(add_col_done1),
                2: lambda L: [("columns", (lambda a, b, i, j: forall([i, j], Implies(And(0 <= i, i < b.nr, 0 <= j, j < b.nc), And(
                    Implies(And(j == L["pos"], i < L.i), b.at(i, j) == 0), Implies(j < L["pos"], b.at(i, j) == a.at(i, j)), Implies(j > L["pos"], b.at(i, j) == a.at(i, j - 1)))),
                    [b.at(i, j)]))(old(L), cur(L), z3.Int("i"), z3.Int("j")))]})


def add_row_inv(done, outer):
    def inv(L):
        a, b = old(L), cur(L)
        i, j = z3.Ints("i j")
        return [("rows", forall([i, j], Implies(And(0 <= i, i < b.nr, 0 <= j, j < b.nc), And(
            Implies(done(L, i, j), b.at(i, j) == a.at(i - 1, j)), Implies(And(Not(done(L, i, j)), i < a.nr), b.at(i, j) == a.at(i, j)))), [b.at(i, j)])),
            ] + ([("i", L.i >= L["pos"] - 1)] if outer else [])
    return inv


def shiftrow(a, pos):
    return lambda i, j: If(i < pos, a.at(i, j), If(i == pos, IV(0), a.at(i - 1, j)))


contract("pluto_matrix_add_row", props=("C01",), nloops=3,
         requires=lambda c: wf(c, "mat") + [("position", And(c["pos"] >= 0, c["pos"] <= Mat(c.pre, c["mat"]).nr, Mat(c.pre, c["mat"]).nr < MAXD))],
         modifies=growmods, frees=growfrees(),
         ensures=lambda c: (lambda a, b: wfpost(c, "mat") + [("extents", And(b.nr == a.nr + 1, b.nc == a.nc)), b.is_(shiftrow(a, c["pos"]))])(Mat(c.pre, c["mat"]), Mat(c.post, c["mat"]))
         + own_closed(c, "mat"),
         loops={0: add_row_inv(lambda L, i, j: i >= L.i + 2, True), 1: add_row_inv(lambda L, i, j: Or(i >= L.up() + 2, And(i == L.up() + 1, j < L.i)), False),
                2: lambda L: [("rows", (lambda a, b, i, j: forall([i, j], Implies(And(0 <= i, i < b.nr, 0 <= j, j < b.nc), And(
                    Implies(And(i == L["pos"], j < L.i), b.at(i, j) == 0), Implies(i < L["pos"], b.at(i, j) == a.at(i, j)), Implies(i > L["pos"], b.at(i, j) == a.at(i - 1, j)))),
                    [b.at(i, j)]))(old(L), cur(L), z3.Int("i"), z3.Int("j")))]})


# ------------------------------------------------------------------ in-place edits: every entry is a function of the old entries
def inplace(name, req, fn, done0, done1=None, props=("C01",), mat="mat", extra_inv=None, **kw):
    """fn(a, c, i, j): new entry; done0/done1(L, i, j): entry already rewritten at the head of loop 0/1."""
    loops = {}

    def mkinv(done):
        def inv(L):
            a, b = Mat(L.pre, L[mat]), Mat(L.st, L[mat])
            return [b.is_(lambda i, j: If(done(L, i, j), fn(a, L, i, j), a.at(i, j)))]
        return inv
    if done0:
        loops[0] = mkinv(done0)
    if done1:
        loops[1] = mkinv(done1)
    contract(name, props=props, nloops=len(loops),
             requires=lambda c: wf(c, mat) + req(c, Mat(c.pre, c[mat])),
             modifies=lambda c: rowmods(c, mat),
             ensures=lambda c: wfpost(c, mat) + keep(c, mat) + [Mat(c.post, c[mat]).is_(lambda i, j: fn(Mat(c.pre, c[mat]), c, i, j))],
             loops=loops, **kw)


inplace("pluto_matrix_negate_row", lambda c, m: [("row", And(c["pos"] >= 0, c["pos"] < m.nr))],
        lambda a, c, i, j: If(i == c["pos"], -a.at(i, j), a.at(i, j)), lambda L, i, j: j < L.i)
inplace("pluto_matrix_negate", lambda c, m: [], lambda a, c, i, j: -a.at(i, j), lambda L, i, j: i < L.i)
swaprow = lambda a, c, i, j: If(i == c["r1"], a.at(c["r2"], j), If(i == c["r2"], a.at(c["r1"], j), a.at(i, j)))
rows12 = lambda c, m: [("rows", And(c["r1"] >= 0, c["r1"] < m.nr, c["r2"] >= 0, c["r2"] < m.nr))]
inplace("pluto_matrix_interchange_rows", rows12, swaprow, lambda L, i, j: j < L.i)
inplace("pluto_matrix_swap_rows", rows12, swaprow, lambda L, i, j: j < L.i)
inplace("pluto_matrix_interchange_cols", lambda c, m: [("columns", And(c["c1"] >= 0, c["c1"] < m.nc, c["c2"] >= 0, c["c2"] < m.nc))],
        lambda a, c, i, j: If(j == c["c1"], a.at(i, c["c2"]), If(j == c["c2"], a.at(i, c["c1"]), a.at(i, j))), lambda L, i, j: i < L.i)
inplace("pluto_matrix_set", lambda c, m: [], lambda a, c, i, j: c["val"], lambda L, i, j: i < L.i, lambda L, i, j: Or(i < L.up(), And(i == L.up(), j < L.i)))
inplace("pluto_matrix_zero_row", lambda c, m: [("row", And(c["pos"] >= 0, c["pos"] < m.nr))],
        lambda a, c, i, j: If(i == c["pos"], IV(0), a.at(i, j)), lambda L, i, j: j < L.i)
inplace("pluto_matrix_zero_col", lambda c, m: [("column", And(c["pos"] >= 0, c["pos"] < m.nc))],
        lambda a, c, i, j: If(j == c["pos"], IV(0), a.at(i, j)), lambda L, i, j: i < L.i)
inplace("pluto_matrix_reverse_rows", lambda c, m: [], lambda a, c, i, j: a.at(a.nr - 1 - i, j), lambda L, i, j: Or(i < L.i, i > L.st.f(M, "nrows", L["mat"]) - 1 - L.i))


def movecol(a, c1, c2):
    """Column permutation: column c1 ends at position c2."""
    return lambda i, j: If(c1 < c2, If(And(c1 <= j, j < c2), a.at(i, j + 1), If(j == c2, a.at(i, c1), a.at(i, j))),
                           If(And(c2 < j, j <= c1), a.at(i, j - 1), If(j == c2, a.at(i, c1), a.at(i, j))))


contract("pluto_matrix_move_col", props=("C01",), nloops=2,
         requires=lambda c: wf(c, "mat") + [("columns", (lambda m: And(c["c1"] >= 0, c["c1"] < m.nc, c["c2"] >= 0, c["c2"] < m.nc))(Mat(c.pre, c["mat"])))],
         modifies=lambda c: rowmods(c, "mat"),
         ensures=lambda c: wfpost(c, "mat") + keep(c, "mat") + [Mat(c.post, c["mat"]).is_(movecol(Mat(c.pre, c["mat"]), c["c1"], c["c2"]))],
         loops={0: lambda L: [cur(L).is_(movecol(old(L), L["c1"], L.i)), ("j", L.i <= L["c2"])],
                1: lambda L: [cur(L).is_(movecol(old(L), L["c1"], L.i)), ("j", L.i >= L["c2"])]})

# ------------------------------------------------------------------ whole-matrix copies
contract("pluto_matrix_add", props=("C01",), nloops=2,
         requires=lambda c: wf(c, "mat1", "mat2") + [("distinct operands", c["mat1"].blk != c["mat2"].blk),
                                                     ("same width", Mat(c.pre, c["mat1"]).nc == Mat(c.pre, c["mat2"]).nc),
                                                     ("size", Mat(c.pre, c["mat1"]).nr + Mat(c.pre, c["mat2"]).nr <= MAXD)],
         modifies=lambda c: growmods(c, "mat1"), frees=growfrees("mat1"),
         ensures=lambda c: (lambda a, b, s: wfpost(c, "mat1") + [("extents", And(b.nr == a.nr + s.nr, b.nc == a.nc)),
                                                                b.is_(lambda i, j: If(i < a.nr, a.at(i, j), s.at(i - a.nr, j)))])(
             Mat(c.pre, c["mat1"]), Mat(c.post, c["mat1"]), Mat(c.pre, c["mat2"])) + own_closed(c, "mat1"),
         loops={0: lambda L: add_inv(L, lambda i, j: i < L.i), 1: lambda L: add_inv(L, lambda i, j: Or(i < L.up(), And(i == L.up(), j < L.i)))})


def add_inv(L, done):
    a, b, s = Mat(L.pre, L["mat1"]), Mat(L.st, L["mat1"]), Mat(L.pre, L["mat2"])
    i, j = z3.Ints("i j")
    return [("rows", forall([i, j], Implies(And(0 <= i, i < b.nr, 0 <= j, j < b.nc, Or(i < a.nr, done(i, j))),
                                            b.at(i, j) == If(i < a.nr, a.at(i, j), s.at(i - a.nr, j))), [b.at(i, j)]))]


def dup_inv(done):
    def inv(L):
        a, b = Mat(L.pre, L["src"]), Mat(L.st, L.v("dup"))
        i, j = z3.Ints("i j")
        return [("copied", forall([i, j], Implies(And(0 <= i, i < a.nr, 0 <= j, j < a.nc, done(L, i, j)), b.at(i, j) == a.at(i, j)), [b.at(i, j)]))]
    return inv


contract("pluto_matrix_dup", props=("C01",), nloops=2,
         requires=lambda c: wf(c, "src"),
         ensures=lambda c: (lambda a, b: b.wf() + b.fresh_from(c.pre) + [("extents", And(b.nr == a.nr, b.nc == a.nc)), b.is_(a.at),
                                                                        ("context", c.post.f(M, "context", c.ret) == c.pre.f(M, "context", c["src"]))])(
             Mat(c.pre, c["src"]), Mat(c.post, c.ret)),
         loops={0: dup_inv(lambda L, i, j: i < L.i), 1: dup_inv(lambda L, i, j: Or(i < L.up(), And(i == L.up(), j < L.i)))})

contract("pluto_matrix_identity", props=("C01",), nloops=1,
         requires=lambda c: [("size", And(c["size"] >= 0, c["size"] <= MAXD))],
         ensures=lambda c: (lambda b: b.wf() + b.fresh_from(c.pre) + [("extents", And(b.nr == c["size"], b.nc == c["size"])),
                                                                     b.is_(lambda i, j: If(i == j, IV(1), IV(0)))])(Mat(c.post, c.ret)),
         loops={0: lambda L: [Mat(L.st, L.v("mat")).is_(lambda i, j: If(And(i == j, i < L.i), IV(1), IV(0)))]})


def eq_def(a, b):
    i, j = z3.Ints("i j")
    return And(a.nr == b.nr, a.nc == b.nc, forall([i, j], Implies(And(0 <= i, i < a.nr, 0 <= j, j < a.nc), a.at(i, j) == b.at(i, j)), [a.at(i, j)]))


contract("are_pluto_matrices_equal", props=("C01",), nloops=2,
         requires=lambda c: wf(c, "mat1", "mat2"),
         ensures=lambda c: [("equal exactly when every entry is", c.ret == eq_def(Mat(c.pre, c["mat1"]), Mat(c.pre, c["mat2"])))],
         loops={0: lambda L: eqm_inv(L, lambda i, j: i < L.i), 1: lambda L: eqm_inv(L, lambda i, j: Or(i < L.up(), And(i == L.up(), j < L.i)))})


def eqm_inv(L, done):
    a, b = Mat(L.pre, L["mat1"]), Mat(L.pre, L["mat2"])
    i, j = z3.Ints("i j")
    return [("equal so far", forall([i, j], Implies(And(0 <= i, i < a.nr, 0 <= j, j < a.nc, done(i, j)), a.at(i, j) == b.at(i, j)), [a.at(i, j)]))]
