"""Contracts for lib/constraints.c: editing one (unnamed) system of affine constraints (C03)."""
from base import *
from matrix import Mat, wf as mwf

C = "pluto_constraints"
AREA = z3.Function("AREA", I, I, I)      # room in a buffer with so many rows and columns: at least 1


class Cst:
    """A constraint system as seen in a state."""

    def __init__(self, view, p):
        self.v, self.p = view, p
        self.c = blk(p)
        g = lambda f: view.f(C, f, self.c, IV(0))
        self.val, self.buf, self.eqb = g("val"), g("buf"), g("is_eq")
        self.nr, self.nc, self.anr, self.anc = g("nrows"), g("ncols"), g("alloc_nrows"), g("alloc_ncols")
        self.names, self.next = g("names"), g("next")

    def rb(self, i):
        return self.v.cell("c.p.i64.b", self.val, i)

    def ro(self, i):
        return self.v.cell("c.p.i64.o", self.val, i)

    def at(self, i, j):
        return self.v.cell("c.i64", self.buf, ADR(self.ro(i), j))

    def eq(self, i):
        return self.v.cell("c.i32", self.eqb, i)

    def parts(self):
        return lambda b: Or(b == self.c, b == self.val, b == self.buf, b == self.eqb)

    def rows_(self, v, n=None):
        i, k = z3.Ints("wi wk")
        n = self.anr if n is None else n
        return [
            ("rows", forall([i], Implies(And(0 <= i, i < n), And(self.rb(i) == self.buf, self.ro(i) >= 0, 8 * (self.ro(i) + self.anc) <= LEN(self.buf))), [self.rb(i), self.ro(i)])),
            ("rows do not overlap", forall([i, k], Implies(And(0 <= i, i < n, 0 <= k, k < n, i != k), Or(self.ro(i) + self.anc <= self.ro(k), self.ro(k) + self.anc <= self.ro(i))), [[self.ro(i), self.ro(k)]]))]

    def wf(self, single=True):
        v = self.v
        live = lambda b, k: And(b > 0, b < v.nb, Not(v.freed(b)), KINDF(b) == K(k))
        return [
            ("system block", And(live(self.c, C), LEN(self.c) >= sizeof(v, C), v.f(C, "context", self.c, IV(0)) != 0)),
            ("row table", And(live(self.val, "f.pluto_constraints.val"), LEN(self.val) >= 8 * self.anr, v.own(self.val) == self.c)),
            ("buffer", And(live(self.buf, "f.pluto_constraints.buf"), v.own(self.buf) == self.c, LEN(self.buf) == 8 * AREA(self.anr, self.anc))),
            ("kinds", And(live(self.eqb, "f.pluto_constraints.is_eq"), LEN(self.eqb) >= 4 * self.anr, v.own(self.eqb) == self.c)),
            ("extents", And(self.nr >= 0, self.nr <= self.anr, self.nc >= 0, self.nc <= self.anc, self.anr <= MAXD, self.anc <= MAXD)),
        ] + self.rows_(v) + ([("one unnamed system", And(self.names == 0, self.next == 0))] if single else [])

    def fresh_from(self, pre):
        return [("fresh storage", And(self.c >= pre.nb, self.val >= pre.nb, self.buf >= pre.nb, self.eqb >= pre.nb))]

    def is_(self, fn, lbl="coefficients", rows=None, cols=None):
        i, j = z3.Ints("i j")
        rows = self.nr if rows is None else rows
        cols = self.nc if cols is None else cols
        return (lbl, forall([i, j], Implies(And(0 <= i, i < rows, 0 <= j, j < cols), self.at(i, j) == fn(i, j)), [self.at(i, j)]))

    def kinds(self, fn, lbl="kinds", rows=None):
        i = z3.Int("i")
        rows = self.nr if rows is None else rows
        return (lbl, forall([i], Implies(And(0 <= i, i < rows), self.eq(i) == fn(i)), [self.eq(i)]))


def cwf(c, *names):
    return [("%s: %s" % (n, l), f) for n in names for l, f in Cst(c.pre, c[n]).wf()]


def cwfpost(c, n):
    return [("%s stays well formed: %s" % (n, l), f) for l, f in Cst(c.post, c[n]).wf()]


def pp(c, n="cst"):
    return Cst(c.pre, c[n]), Cst(c.post, c[n])


def mx(a, b):
    return If(a > b, a, b)


def mn(a, b):
    return If(a < b, a, b)


def lp(L, n="cst"):
    return Cst(L.pre, L[n]), Cst(L.st, L[n])


def intact(L, a, lbl="source untouched"):
    """The contents of the system a (a Cst of the initial state) are as they were."""
    return [(lbl, And(*[z3.Select(L.st.key(k), b) == z3.Select(a.v.key(k), b) for k, b in (("c.i64", a.buf), ("c.i32", a.eqb))]))]


def growmods(c, n="cst"):
    a = Cst(c.pre, c[n])
    fl = {"f.%s.%s" % (C, f): [a.c] for f in ("val", "buf", "is_eq", "nrows", "ncols", "alloc_nrows", "alloc_ncols", "names")}
    fl.update({"c.i64": [a.buf], "c.i32": [a.eqb]})
    return fl


def growfrees(n="cst"):
    return lambda c: (lambda b: (lambda a: Or(b == a.val, b == a.buf, b == a.eqb))(Cst(c.pre, c[n])))


def storage(c, n="cst"):
    """Storage is the old one or fresh."""
    a, b = pp(c, n)
    return [("storage kept or fresh", And(*[Or(x == y, y >= c.pre.nb) for x, y in ((a.val, b.val), (a.buf, b.buf), (a.eqb, b.eqb))]))]


# ------------------------------------------------------------------ alloc / resize
def alloc_ens(c):
    b = Cst(c.post, c.ret)
    return b.wf() + b.fresh_from(c.pre) + [
        ("no constraints, all columns", And(b.nr == 0, b.nc == c["max_cols"], b.anr == c["max_rows"], b.anc == c["max_cols"])),
        b.is_(lambda i, j: IV(0), "zero coefficients", b.anr, b.anc), b.kinds(lambda i: IV(0), "inequalities", b.anr),
        ("context", c.post.f(C, "context", c.ret) == c["context"].blk)]


def alloc_inv(L):
    b = Cst(L.st, L.v("cst"))
    i, k = z3.Ints("wi wk")
    nc, nr = L["max_cols"], L["max_rows"]
    n = L.i
    return [("@def", Implies(And(0 <= n, n < nr, nc >= 0), And((n + 1) * nc <= nr * nc, (n + 1) * nc == n * nc + nc, n * nc <= nr * nc, n * nc >= 0))),
            ("@def", (nr * nc) == nc * nr),
            ("rows so far", forall([i], Implies(And(0 <= i, i < n), And(b.rb(i) == b.buf, b.ro(i) >= 0, b.ro(i) + nc <= n * nc, 8 * (b.ro(i) + nc) <= LEN(b.buf))), [b.rb(i), b.ro(i)])),
            ("rows do not overlap", forall([i, k], Implies(And(0 <= i, i < k, k < n), b.ro(i) + nc <= b.ro(k)), [[b.ro(i), b.ro(k)]])),
            ("owned", And(*[L.st.own(x) == b.c for x in (b.val, b.buf, b.eqb)])),
            ("i", And(0 <= n, n <= nr)), ]


contract("pluto_constraints_alloc", props=("C03",), nloops=1,
         requires=lambda c: [("context", c["context"].blk != 0), ("extents", And(c["max_rows"] >= 0, c["max_cols"] >= 0)),
                             ("@size", And(c["max_rows"] <= MAXD, c["max_cols"] <= MAXD, c["max_rows"] * c["max_cols"] <= MAXD))],
         setup=lambda c: [Implies(And(c["max_rows"] >= 0, c["max_cols"] >= 0), c["max_rows"] * c["max_cols"] >= 0), AREA(c["max_rows"], c["max_cols"]) == mx(IV(1), c["max_rows"]) * mx(IV(1), c["max_cols"])],
         ensures=alloc_ens, loops={0: alloc_inv})


def resize_ens(c):
    a, b = pp(c)
    return cwfpost(c, "cst") + storage(c) + [
        ("extents", And(b.nr == c["nrows"], b.nc == c["ncols"])),
        ("capacity", And(b.anr == mx(c["nrows"], a.anr), b.anc == mx(c["ncols"], a.anc))),
        ("no coefficient lost, new ones zero", (lambda i, j: forall([i, j], Implies(And(0 <= i, i < b.anr, 0 <= j, j < b.anc), And(
            Implies(And(i < c["nrows"], i < a.nr, j < c["ncols"], j < a.nc), b.at(i, j) == a.at(i, j)),
            Implies(Or(i >= c["nrows"], i >= a.nr, j >= c["ncols"], j >= a.nc), b.at(i, j) == 0))), [b.at(i, j)]))(*z3.Ints("i j"))),
        ("kinds kept, new ones inequalities", (lambda i: forall([i], Implies(And(0 <= i, i < b.anr), b.eq(i) == If(And(i < c["nrows"], i < a.nr), a.eq(i), 0)), [b.eq(i)]))(z3.Int("i")))]


def resize_inv(lvl):
    def inv(L):
        a, b = Cst(L.pre, L["cst"]), Cst(L.st, L.v("newCst"))
        i, j = z3.Ints("i j")
        I0 = L.i if lvl == 0 else L.up()
        inn = And(i < L["nrows"], i < a.nr, j < L["ncols"], j < a.nc)
        done = (i < I0) if lvl == 0 else Or(i < I0, And(i == I0, j < L.i))
        return [("copied", forall([i, j], Implies(And(0 <= i, i < b.anr, 0 <= j, j < b.anc), And(
            Implies(And(inn, done), b.at(i, j) == a.at(i, j)), Implies(Not(inn), b.at(i, j) == 0))), [b.at(i, j)])),
            ("kinds copied", forall([i], Implies(And(0 <= i, i < b.anr), And(Implies(And(i < L["nrows"], i < a.nr, i < I0), b.eq(i) == a.eq(i)),
                                                                          Implies(Or(i >= L["nrows"], i >= a.nr), b.eq(i) == 0))), [b.eq(i)]))] + \
            intact(L, a) + ([("j", L.i <= mx(IV(0), mn(L["ncols"], a.nc)))] if lvl else [("i", L.i <= mn(L["nrows"], a.nr))])
    return inv


contract("pluto_constraints_resize_single", props=("C03",), nloops=4, dead_ok=("loop 2 body", "loop 3 body"),
         requires=lambda c: cwf(c, "cst") + [("extents", And(c["nrows"] >= 0, c["ncols"] >= 0)),
                                             ("@size", And(c["nrows"] <= MAXD, c["ncols"] <= MAXD))],
         modifies=growmods, frees=growfrees(), ensures=resize_ens, loops={0: resize_inv(0), 1: resize_inv(1)})


# ------------------------------------------------------------------ generic shapes
def edit_ens(c, nr, nc, at, eq, n="cst", grow=True, extra=()):
    """The system has nr x nc coefficients at(i,j) and kinds eq(i); storage is the old one or fresh."""
    a, b = pp(c, n)
    return cwfpost(c, n) + (storage(c, n) if grow else [("storage kept", And(a.val == b.val, a.buf == b.buf, a.eqb == b.eqb, a.anr == b.anr, a.anc == b.anc))]) + [
        ("extents", And(b.nr == nr(a), b.nc == nc(a))), b.is_(lambda i, j: at(a, i, j)), b.kinds(lambda i: eq(a, i))] + list(extra)


same_nr, same_nc = (lambda a: a.nr), (lambda a: a.nc)
same_at, same_eq = (lambda a, i, j: a.at(i, j)), (lambda a, i: a.eq(i))


def inmods(c, n="cst", **fields):
    a = Cst(c.pre, c[n])
    d = {"c.i64": [a.buf], "c.i32": [a.eqb]}
    d.update({"f.%s.%s" % (C, k): [a.c] for k in fields})
    return d


def inloop(L, fn, kinds=None, n="cst", extra=()):
    """Invariant: every coefficient in the used rectangle is fn(a, i, j)."""
    a, b = lp(L, n)
    i, j = z3.Ints("i j")
    out = [("coefficients", forall([i, j], Implies(And(0 <= i, i < a.nr, 0 <= j, j < a.nc), b.at(i, j) == fn(a, i, j)), [b.at(i, j)]))]
    if kinds is not None:
        out.append(("kinds", forall([i], Implies(And(0 <= i, i < a.nr), b.eq(i) == kinds(a, i)), [b.eq(i)])))
    return out + list(extra)


def addrow(name, kind):
    def inv(L):
        a, b = lp(L)
        i, j = z3.Ints("i j")
        return [("old rows", forall([i, j], Implies(And(0 <= i, i < a.nr, 0 <= j, j < a.nc), b.at(i, j) == a.at(i, j)), [b.at(i, j)])),
                ("new row", forall([j], Implies(And(0 <= j, j < L.i), b.at(a.nr, j) == 0), [b.at(a.nr, j)])), ("j", L.i <= a.nc)]
    contract(name, props=("C03",), nloops=1, requires=lambda c: cwf(c, "cst") + [("@size", Cst(c.pre, c["cst"]).nr + 1 <= MAXD)],
             modifies=growmods, frees=growfrees(), loops={0: inv},
             ensures=lambda c: edit_ens(c, lambda a: a.nr + 1, same_nc, lambda a, i, j: If(i < a.nr, a.at(i, j), 0), lambda a, i: If(i < a.nr, a.eq(i), kind)))


addrow("pluto_constraints_add_inequality", 0)
addrow("pluto_constraints_add_equality", 1)
contract("pluto_constraints_add_constraint", props=("C03",), nloops=0, requires=lambda c: cwf(c, "cst") + [("@size", Cst(c.pre, c["cst"]).nr + 1 <= MAXD)],
         modifies=growmods, frees=growfrees(),
         ensures=lambda c: edit_ens(c, lambda a: a.nr + 1, same_nc, lambda a, i, j: If(i < a.nr, a.at(i, j), 0), lambda a, i: If(i < a.nr, a.eq(i), If(c["is_eq"] != 0, IV(1), IV(0)))))

contract("pluto_constraints_resize", props=("C03",), nloops=0,
         requires=lambda c: cwf(c, "cst") + [("extents", And(c["nrows"] >= 0, c["ncols"] >= 0)), ("@size", And(c["nrows"] <= MAXD, c["ncols"] <= MAXD))],
         modifies=growmods, frees=growfrees(), ensures=resize_ens)

contract("pluto_constraints_free", props=("C03",), nloops=1, dead_ok=("loop 0 body",),
         requires=lambda c: [(l, Implies(c["cst"].blk != 0, f)) for l, f in Cst(c.pre, c["cst"]).wf()],
         frees=lambda c: (lambda b: And(c["cst"].blk != 0, Cst(c.pre, c["cst"]).parts()(b))),
         ensures=lambda c: [("everything released", Implies(c["cst"].blk != 0, And(*[c.post.freed(x) for x in (lambda a: (a.c, a.val, a.buf, a.eqb))(Cst(c.pre, c["cst"]))])))])


def bound(name, kind, coef, const, arg):
    contract(name, props=("C03",), nloops=1,
             requires=lambda c: cwf(c, "cst") + [("variable", And(c["varnum"] >= 0, c["varnum"] <= Cst(c.pre, c["cst"]).nc - 2)), ("@size", Cst(c.pre, c["cst"]).nr + 1 <= MAXD)],
             modifies=growmods, frees=growfrees(),
             loops={0: lambda L: bound_inv(L, kind, coef, const, arg)},
             ensures=lambda c: edit_ens(c, lambda a: a.nr + 1, same_nc,
                                        lambda a, i, j: If(i < a.nr, a.at(i, j), If(j == c["varnum"], IV(coef), If(j == a.nc - 1, const(c[arg]), IV(0)))),
                                        lambda a, i: If(i < a.nr, a.eq(i), kind)))


def bound_inv(L, kind, coef, const, arg):
    a, e, b = Cst(L.pre, L["cst"]), Cst(L.entry, L["cst"]), Cst(L.st, L["cst"])
    p = L.v("cst")
    i, j = z3.Ints("i j")
    done = lambda i, j: If(i < a.nr, a.at(i, j), If(j == L["varnum"], IV(coef), If(j == a.nc - 1, const(L[arg]), IV(0))))
    return [("cursor", Or(p.blk == a.c, p.blk == 0)), ("cursor offset", p.off == 0),
            ("before", Implies(p.blk != 0, forall([i, j], Implies(And(0 <= i, i < a.nr + 1, 0 <= j, j < a.nc), b.at(i, j) == If(i < a.nr, a.at(i, j), 0)), [b.at(i, j)]))),
            ("after", Implies(p.blk == 0, forall([i, j], Implies(And(0 <= i, i < a.nr + 1, 0 <= j, j < a.nc), b.at(i, j) == done(i, j)), [b.at(i, j)])))]


bound("pluto_constraints_add_lb", 0, 1, lambda v: -v, "lb")
bound("pluto_constraints_add_ub", 0, -1, lambda v: v, "ub")
bound("pluto_constraints_set_var", 1, 1, lambda v: -v, "val")


# ------------------------------------------------------------------ rows
def rmrow_inv(lvl):
    def inv(L):
        I0 = L.i if lvl == 0 else L.up()
        J = L.i
        a, b = lp(L)
        fn = lambda a, i, j: If(Or(i < L["pos"], i > I0), a.at(i, j), If(i < I0, a.at(i + 1, j), (If(j < J, a.at(i + 1, j), a.at(i, j)) if lvl else a.at(i, j))))
        kf = lambda a, i: If(Or(i < L["pos"], i >= I0), a.eq(i), a.eq(i + 1))
        return inloop(L, fn, kf, extra=[("j", L.i <= a.nc)] if lvl else [("i", L.i <= a.nr - 1)])
    return inv


contract("pluto_constraints_remove_row", props=("C03",), nloops=2,
         requires=lambda c: cwf(c, "cst") + [("row", And(c["pos"] >= 0, c["pos"] <= Cst(c.pre, c["cst"]).nr - 1))],
         modifies=lambda c: inmods(c, nrows=1),
         ensures=lambda c: edit_ens(c, lambda a: a.nr - 1, same_nc, lambda a, i, j: If(i < c["pos"], a.at(i, j), a.at(i + 1, j)), lambda a, i: If(i < c["pos"], a.eq(i), a.eq(i + 1)), grow=False),
         loops={0: rmrow_inv(0), 1: rmrow_inv(1)})

onerow = lambda c: cwf(c, "cst") + [("row", And(c["pos"] >= 0, c["pos"] <= Cst(c.pre, c["cst"]).nr - 1))]


def rowedit(name, fn, dec=False, loops=None, nloops=1):
    contract(name, props=("C03",), nloops=nloops, requires=onerow, modifies=lambda c: {"c.i64": [Cst(c.pre, c["cst"]).buf]},
             ensures=lambda c: edit_ens(c, same_nr, same_nc,
                                        lambda a, i, j: If(i == c["pos"], (fn(a, i, j) - If(j == a.nc - 1, IV(1), IV(0))) if dec else fn(a, i, j), a.at(i, j)), same_eq, grow=False),
             loops={0: lambda L: inloop(L, lambda a, i, j: If(And(i == L["pos"], j < L.i), fn(a, i, j), a.at(i, j)), extra=[("j", L.i <= Cst(L.pre, L["cst"]).nc)])})


rowedit("pluto_constraints_zero_row", lambda a, i, j: IV(0))
rowedit("pluto_constraints_negate_row", lambda a, i, j: -a.at(i, j))


# ------------------------------------------------------------------ columns
def rmdim_inv(lvl):
    def inv(L):
        I0 = L.i if lvl == 0 else L.up()
        a, b = lp(L)
        sh = lambda a, i, j: If(j < L["pos"], a.at(i, j), If(j < a.nc - 1, a.at(i, j + 1), a.at(i, j)))
        part = lambda a, i, j: If(And(j >= L["pos"], j < L.i), a.at(i, j + 1), a.at(i, j))
        return inloop(L, lambda a, i, j: If(i < I0, sh(a, i, j), If(i == I0, part(a, i, j), a.at(i, j)) if lvl else a.at(i, j)),
                      extra=[("j", L.i <= a.nc - 1)] if lvl else [("i", L.i <= a.nr)])
    return inv


contract("pluto_constraints_remove_dim", props=("C03",), nloops=3,
         requires=lambda c: cwf(c, "cst") + [("dimension", And(c["pos"] >= 0, c["pos"] <= Cst(c.pre, c["cst"]).nc - 2))],
         modifies=lambda c: inmods(c, ncols=1, names=1),
         ensures=lambda c: edit_ens(c, same_nr, lambda a: a.nc - 1, lambda a, i, j: If(j < c["pos"], a.at(i, j), a.at(i, j + 1)), same_eq, grow=False),
         loops={0: rmdim_inv(0), 1: rmdim_inv(1)})


def swap_inv(L):
    a, b = lp(L)
    sw = lambda a, i, j: If(j == L["col1"], a.at(i, L["col2"]), If(j == L["col2"], a.at(i, L["col1"]), a.at(i, j)))
    return inloop(L, lambda a, i, j: If(i < L.i, sw(a, i, j), a.at(i, j)), extra=[("i", L.i <= a.nr)])


contract("pluto_constraints_interchange_cols", props=("C03",), nloops=1,
         requires=lambda c: cwf(c, "cst") + [("columns", And(*[And(c[x] >= 0, c[x] < Cst(c.pre, c["cst"]).nc) for x in ("col1", "col2")]))],
         modifies=lambda c: {"c.i64": [Cst(c.pre, c["cst"]).buf]},
         ensures=lambda c: edit_ens(c, same_nr, same_nc, lambda a, i, j: If(j == c["col1"], a.at(i, c["col2"]), If(j == c["col2"], a.at(i, c["col1"]), a.at(i, j))), same_eq, grow=False),
         loops={0: swap_inv})


def negc_inv(L):
    return inloop(L, lambda a, i, j: If(And(i == L["pos"], j < L.i), -a.at(i, j), a.at(i, j)), extra=[("j", L.i <= Cst(L.pre, L["cst"]).nc)])


contract("pluto_constraints_negate_constraint", props=("C03",), nloops=1, requires=lambda c: onerow(c) + [("constant column", Cst(c.pre, c["cst"]).nc >= 1)],
         modifies=lambda c: {"c.i64": [Cst(c.pre, c["cst"]).buf]},
         ensures=lambda c: edit_ens(c, same_nr, same_nc, lambda a, i, j: If(i == c["pos"], -a.at(i, j) - If(j == a.nc - 1, IV(1), IV(0)), a.at(i, j)), same_eq, grow=False),
         loops={0: negc_inv})


# add_dim: column pos is new, the old columns from pos on move right by one
def adddim_fn(a, i, j, pos):
    return If(j < pos, a.at(i, j), If(j == pos, 0, a.at(i, j - 1)))


def adddim_inv(which):
    def inv(L):
        a, b = lp(L)
        i, j = z3.Ints("i j")
        pos = L["pos"]
        if which == 2:   # zero the new column
            fn = lambda i, j: If(j < pos, a.at(i, j), If(j == pos, If(i < L.i, IV(0), b.at(i, pos)), a.at(i, j - 1)))
            ex = [("i", L.i <= a.nr)]
        else:
            J = L.i if which == 0 else L.up()
            # columns J+2.. already hold their left neighbour's old value; column J+1 is being written (rows < i)
            moved = lambda i, j: j > J + 1
            base = lambda i, j: If(j > J + 1, a.at(i, j - 1), If(j == J + 1, If(J + 1 < a.nc, a.at(i, J + 1), b.at(i, j)), a.at(i, j)))
            if which == 0:
                fn = base
                ex = [("j", And(J >= pos - 1, J <= a.nc - 1))]
            else:
                fn = lambda i, j: If(And(j == J + 1, i < L.i), a.at(i, J), base(i, j))
                ex = [("j", And(J >= pos, J <= a.nc - 1)), ("i", L.i <= a.nr)]
        return [("coefficients", forall([i, j], Implies(And(0 <= i, i < a.nr, 0 <= j, j < a.nc + 1), b.at(i, j) == fn(i, j)), [b.at(i, j)]))] + ex
    return inv


contract("pluto_constraints_add_dim", props=("C03",), nloops=3,
         requires=lambda c: cwf(c, "cst") + [("position", And(c["pos"] >= 0, c["pos"] <= Cst(c.pre, c["cst"]).nc - 1)), ("@size", Cst(c.pre, c["cst"]).nc + 1 <= MAXD)],
         modifies=growmods, frees=growfrees(),
         ensures=lambda c: edit_ens(c, same_nr, lambda a: a.nc + 1, lambda a, i, j: adddim_fn(a, i, j, c["pos"]), same_eq),
         loops={0: adddim_inv(0), 1: adddim_inv(1), 2: adddim_inv(2)})


def lead_inv(L):
    a, b = lp(L)
    return [("%s" % l, f) for l, f in b.wf()] + [
        ("storage", And(*[Or(x == y, y >= L.pre.nb) for x, y in ((a.val, b.val), (a.buf, b.buf), (a.eqb, b.eqb))])),
        ("extents", And(b.nr == a.nr, b.nc == a.nc + L.i, 0 <= L.i, Implies(L["num_dims"] >= 0, L.i <= L["num_dims"]))),
        b.is_(lambda i, j: If(j < L.i, 0, a.at(i, j - L.i))), b.kinds(lambda i: a.eq(i))]


contract("pluto_constraints_add_leading_dims", props=("C03",), nloops=1,
         requires=lambda c: cwf(c, "cst") + [("number", c["num_dims"] >= 0), ("constant column", Cst(c.pre, c["cst"]).nc >= 1), ("@size", Cst(c.pre, c["cst"]).nc + c["num_dims"] <= MAXD)],
         modifies=growmods, frees=growfrees(), loops={0: lead_inv},
         ensures=lambda c: edit_ens(c, same_nr, lambda a: a.nc + c["num_dims"], lambda a, i, j: If(j < c["num_dims"], 0, a.at(i, j - c["num_dims"])), same_eq))


# ------------------------------------------------------------------ two systems
def two(c, x, y):
    return [("different systems", c[x].blk != c[y].blk)]


def add_inv(L):
    a, s, b = Cst(L.pre, L["cst1"]), Cst(L.pre, L["cst2"]), Cst(L.st, L["cst1"])
    i, j = z3.Ints("i j")
    return [("old rows", forall([i, j], Implies(And(0 <= i, i < a.nr, 0 <= j, j < a.nc), b.at(i, j) == a.at(i, j)), [b.at(i, j)])),
            ("added rows", forall([i, j], Implies(And(a.nr <= i, i < a.nr + L.i, 0 <= j, j < a.nc), b.at(i, j) == s.at(i - a.nr, j)), [b.at(i, j)])),
            ("i", L.i <= s.nr)]


contract("pluto_constraints_add", props=("C03",), nloops=1,
         requires=lambda c: cwf(c, "cst1", "cst2") + two(c, "cst1", "cst2") + [
             ("same space", Cst(c.pre, c["cst1"]).nc == Cst(c.pre, c["cst2"]).nc), ("@size", Cst(c.pre, c["cst1"]).nr + Cst(c.pre, c["cst2"]).nr <= MAXD)],
         modifies=lambda c: growmods(c, "cst1"), frees=growfrees("cst1"), loops={0: add_inv},
         ensures=lambda c: (lambda s: edit_ens(c, lambda a: a.nr + s.nr, same_nc, lambda a, i, j: If(i < a.nr, a.at(i, j), s.at(i - a.nr, j)),
                                               lambda a, i: If(i < a.nr, a.eq(i), s.eq(i - a.nr)), n="cst1", extra=[("returns its argument", And(c.ret.blk == c["cst1"].blk, c.ret.off == 0))]))(Cst(c.pre, c["cst2"])))

contract("pluto_constraints_add_to_each", props=("C03",), nloops=1,
         requires=lambda c: cwf(c, "cst1", "cst2") + two(c, "cst1", "cst2") + [
             ("same space", Cst(c.pre, c["cst1"]).nc == Cst(c.pre, c["cst2"]).nc), ("@size", Cst(c.pre, c["cst1"]).nr + Cst(c.pre, c["cst2"]).nr <= MAXD)],
         modifies=lambda c: growmods(c, "cst1"), frees=growfrees("cst1"), loops={0: add_inv},
         ensures=lambda c: (lambda s: edit_ens(c, lambda a: a.nr + s.nr, same_nc, lambda a, i, j: If(i < a.nr, a.at(i, j), s.at(i - a.nr, j)),
                                               lambda a, i: If(i < a.nr, a.eq(i), s.eq(i - a.nr)), n="cst1", extra=[("returns its argument", And(c.ret.blk == c["cst1"].blk, c.ret.off == 0))]))(Cst(c.pre, c["cst2"])))


def copy_ens(c):
    s = Cst(c.pre, c["src"])
    return edit_ens(c, lambda a: s.nr, lambda a: s.nc, lambda a, i, j: s.at(i, j), lambda a, i: s.eq(i), n="dest",
                    extra=[("returns its argument", And(c.ret.blk == c["dest"].blk, c.ret.off == 0)), ("capacity", And(Cst(c.post, c["dest"]).anr >= Cst(c.pre, c["dest"]).anr, Cst(c.post, c["dest"]).anc >= Cst(c.pre, c["dest"]).anc))])


def copy_inv(L):
    s, b = Cst(L.pre, L["src"]), Cst(L.st, L["dest"])
    i, j = z3.Ints("i j")
    return [("copied rows", forall([i, j], Implies(And(0 <= i, i < L.i, 0 <= j, j < s.nc), b.at(i, j) == s.at(i, j)), [b.at(i, j)])), ("i", L.i <= s.nr)]


contract("pluto_constraints_remove_names_single", inline=True)
contract("pluto_constraints_set_names", inline=True)
contract("pluto_constraints_copy_single", props=("C03",), dead_ok=("loop 0 body", "loop 2 body", "loop 3 body", "loop 4 body"),
         requires=lambda c: cwf(c, "dest", "src") + two(c, "dest", "src"),
         modifies=lambda c: growmods(c, "dest"), frees=growfrees("dest"), loops={1: copy_inv}, ensures=copy_ens)
contract("pluto_constraints_copy", props=("C03",), nloops=0,
         requires=lambda c: cwf(c, "dest", "src") + two(c, "dest", "src"),
         modifies=lambda c: growmods(c, "dest"), frees=growfrees("dest"), ensures=copy_ens)


def dup_ens(c):
    s, b = Cst(c.pre, c["src"]), Cst(c.post, c.ret)
    return b.wf() + b.fresh_from(c.pre) + [("extents", And(b.nr == s.nr, b.nc == s.nc)), b.is_(lambda i, j: s.at(i, j)), b.kinds(lambda i: s.eq(i)),
                                           ("at the start of its block", c.ret.off == 0)]


for n in ("pluto_constraints_dup_single", "pluto_constraints_dup"):
    contract(n, props=("C03",), nloops=0, requires=lambda c: cwf(c, "src"), ensures=dup_ens)


# ------------------------------------------------------------------ conversions
def select_inv(L):
    a, b = Cst(L.pre, L["cst"]), Cst(L.st, L.v("row"))
    j = z3.Int("j")
    return [("copied", forall([j], Implies(And(0 <= j, j < L.i), b.at(IV(0), j) == a.at(L["pos"], j)), [b.at(IV(0), j)])), ("j", L.i <= a.nc), ("kind", b.eq(IV(0)) == a.eq(L["pos"]))]


contract("pluto_constraints_select_row", props=("C03",), nloops=1, requires=onerow, loops={0: select_inv},
         ensures=lambda c: (lambda a, b: b.wf() + b.fresh_from(c.pre) + [("extents", And(b.nr == 1, b.nc == a.nc)), b.is_(lambda i, j: a.at(c["pos"], j)), b.kinds(lambda i: a.eq(c["pos"]))])(
             Cst(c.pre, c["cst"]), Cst(c.post, c.ret)))


def tomat_inv(lvl):
    def inv(L):
        a, m = Cst(L.pre, L["cst"]), Mat(L.st, L.v("mat"))
        i, j = z3.Ints("i j")
        I0 = L.i if lvl == 0 else L.up()
        full = lambda i, j: If(j == 0, If(a.eq(i) != 0, IV(0), IV(1)), a.at(i, j - 1))
        done = [("rows so far", forall([i, j], Implies(And(0 <= i, i < I0, 0 <= j, j < a.nc + 1), m.at(i, j) == full(i, j)), [m.at(i, j)]))]
        if lvl:
            done += [("this row", forall([j], Implies(And(0 <= j, j < L.i + 1), m.at(I0, j) == full(I0, j)), [m.at(I0, j)])), ("j", L.i <= a.nc)]
        else:
            done += [("i", L.i <= a.nr)]
        return done
    return inv


contract("pluto_constraints_to_matrix", props=("C03",), nloops=2, requires=lambda c: cwf(c, "cst") + [("@size", Cst(c.pre, c["cst"]).nc + 1 <= MAXD)], loops={0: tomat_inv(0), 1: tomat_inv(1)},
         ensures=lambda c: (lambda a, m: m.wf() + m.fresh_from(c.pre) + [("extents", And(m.nr == a.nr, m.nc == a.nc + 1)),
                                                                        m.is_(lambda i, j: If(j == 0, If(a.eq(i) != 0, IV(0), IV(1)), a.at(i, j - 1)))])(Cst(c.pre, c["cst"]), Mat(c.post, c.ret)))


def frommat(name, kind, off, extra=lambda c: []):
    def inv(lvl):
        def f(L):
            m, b = Mat(L.pre, L["mat"]), Cst(L.st, L.v("cst"))
            i, j = z3.Ints("i j")
            I0 = L.i if lvl == 0 else L.up()
            out = [("rows so far", forall([i, j], Implies(And(0 <= i, i < I0, 0 <= j, j < m.nc - off), b.at(i, j) == m.at(i, j + off)), [b.at(i, j)])),
                   ("kinds so far", forall([i], Implies(And(0 <= i, i < I0 + (1 if lvl else 0)), b.eq(i) == kind(L, m, i)), [b.eq(i)]))]
            if lvl:
                out += [("this row", forall([j], Implies(And(0 <= j, j < L.i), b.at(I0, j) == m.at(I0, j + off)), [b.at(I0, j)])), ("j", L.i <= m.nc - off)]
            else:
                out += [("i", L.i <= m.nr)]
            return out
        return f
    contract(name, props=("C03",), nloops=2,
             requires=lambda c: [("mat: " + l, f) for l, f in Mat(c.pre, c["mat"]).wf()] + [
                 ("context", c.pre.f("pluto_matrix", "context", c["mat"]) != 0), ("columns", Mat(c.pre, c["mat"]).nc >= off)] + extra(c),
             loops={0: inv(0), 1: inv(1)},
             ensures=lambda c: (lambda m, b: b.wf() + b.fresh_from(c.pre) + [("extents", And(b.nr == m.nr, b.nc == m.nc - off)), b.is_(lambda i, j: m.at(i, j + off)), b.kinds(lambda i: kind(c, m, i))])(
                 Mat(c.pre, c["mat"]), Cst(c.post, c.ret)))


frommat("pluto_constraints_from_matrix", lambda x, m, i: If(m.at(i, IV(0)) == 0, IV(1), IV(0)), 1)
frommat("pluto_constraints_from_inequalities", lambda x, m, i: IV(0), 0)
frommat("pluto_constraints_from_equalities", lambda x, m, i: IV(1), 0)
frommat("pluto_constraints_from_mixed_matrix", lambda x, m, i: x.pre.cell("c.i32", x["is_eq"].blk, ADR(x["is_eq"].off, i)), 0,
        lambda c: [("kinds given", And(c["is_eq"].blk > 0, c["is_eq"].blk < c.pre.nb, Not(c.pre.freed(c["is_eq"].blk)), c["is_eq"].off >= 0, 4 * (c["is_eq"].off + Mat(c.pre, c["mat"]).nr) <= LEN(c["is_eq"].blk)))])

contract("pluto_constraints_universe", props=("C03",), nloops=0,
         requires=lambda c: [("context", c["context"].blk != 0), ("extents", c["ncols"] >= 0), ("@size", c["ncols"] <= MAXD)],
         ensures=lambda c: (lambda b: b.wf() + b.fresh_from(c.pre) + [("no constraints", And(b.nr == 0, b.nc == c["ncols"]))])(Cst(c.post, c.ret)))
contract("pluto_constraints_empty", props=("C03",), nloops=0,
         requires=lambda c: [("context", c["context"].blk != 0), ("extents", c["ncols"] >= 1), ("@size", c["ncols"] <= MAXD)],
         ensures=lambda c: (lambda b: b.wf() + b.fresh_from(c.pre) + [("one contradictory constraint", And(b.nr == 1, b.nc == c["ncols"], b.eq(IV(0)) == 1)),
                                                                    b.is_(lambda i, j: If(j == c["ncols"] - 1, IV(1), IV(0)))])(Cst(c.post, c.ret)))


# ------------------------------------------------------------------ counting, shifting
CNTEQ = z3.Function("CNTEQ", AAI, I, I, I)


def cnteq(view, a, n):
    return CNTEQ(view.key("c.i32"), a.eqb, n)


def cnt_def(view, a, n):
    return ("@def", And(cnteq(view, a, IV(0)) == 0, cnteq(view, a, n + 1) == cnteq(view, a, n) + If(a.eq(n) != 0, 1, 0)))


def numeq_inv(L):
    a = Cst(L.pre, L["cst"])
    return [cnt_def(L.pre, a, L.i), ("count", And(L.v("count") == cnteq(L.pre, a, L.i), L.v("count") <= L.i, L.v("count") >= 0)), ("r", L.i <= a.nr)]


contract("pluto_constraints_get_num_equalities", props=("C03",), nloops=1, requires=lambda c: cwf(c, "cst"), loops={0: numeq_inv},
         ensures=lambda c: (lambda a: [("number of equalities", And(c.ret == cnteq(c.pre, a, a.nr), c.ret >= 0, c.ret <= a.nr))])(Cst(c.pre, c["cst"])))


def shift_inv(lvl):
    def inv(L):
        a, f = Cst(L.pre, L["cst"]), Mat(L.pre, L["func"])
        I0 = L.i if lvl == 0 else L.up()
        pos = L["pos"]
        full = lambda a, i, j: If(j == pos, a.at(i, j), a.at(i, j) - a.at(i, pos) * f.at(IV(0), j))
        return inloop(L, lambda a, i, j: If(i < I0, full(a, i, j), (If(And(i == I0, j < L.i), full(a, i, j), a.at(i, j)) if lvl else a.at(i, j))),
                      extra=[("j", L.i <= a.nc)] if lvl else [("i", L.i <= a.nr)])
    return inv


contract("pluto_constraints_shift_dim", props=("C03",), nloops=2,
         requires=lambda c: cwf(c, "cst") + [("func: " + l, f) for l, f in Mat(c.pre, c["func"]).wf()] + (lambda a, f: [
             ("one row of the same width, not moving pos", And(f.nc == a.nc, f.nr == 1, f.at(IV(0), c["pos"]) == 0)), ("variable", And(c["pos"] >= 0, c["pos"] < a.nc))])(Cst(c.pre, c["cst"]), Mat(c.pre, c["func"])),
         modifies=lambda c: {"c.i64": [Cst(c.pre, c["cst"]).buf]},
         ensures=lambda c: (lambda f: edit_ens(c, same_nr, same_nc, lambda a, i, j: If(j == c["pos"], a.at(i, j), a.at(i, j) - a.at(i, c["pos"]) * f.at(IV(0), j)), same_eq, grow=False))(Mat(c.pre, c["func"])),
         loops={0: shift_inv(0), 1: shift_inv(1)})

contract("pluto_constraints_is_ub", props=("C03",), nloops=0,
         requires=lambda c: cwf(c, "cst") + [("row and variable", And(c["row"] >= 0, c["row"] < Cst(c.pre, c["cst"]).nr, c["pos"] >= 0, c["pos"] < Cst(c.pre, c["cst"]).nc))],
         ensures=lambda c: [("negative coefficient", c.ret == If(Cst(c.pre, c["cst"]).at(c["row"], c["pos"]) < 0, 1, 0))])


def cnt_mono(c):
    """Counting never decreases (by induction on the definition)."""
    a = Cst(c.pre, c["cst"])
    n, m = z3.Ints("n m")
    t = lambda x: cnteq(c.pre, a, x)
    return [forall([n, m], Implies(And(0 <= n, n <= m), t(n) <= t(m)), [[t(n), t(m)]])]


def exeq_inv(lvl):
    def inv(L):
        a, m = Cst(L.pre, L["cst"]), Mat(L.st, L.v("mat"))
        i, j = z3.Ints("i j")
        t = lambda x: cnteq(L.pre, a, x)
        R = L.i if lvl == 0 else L.up()
        out = [cnt_def(L.pre, a, R), ("count", And(L.v("count") == t(R), 0 <= R)),
               ("places", forall([i], Implies(And(0 <= i, i < R, a.eq(i) != 0), And(t(i) < t(R), t(i) >= 0)), [a.eq(i)])),
               ("rows so far", forall([i, j], Implies(And(0 <= i, i < R, a.eq(i) != 0, 0 <= j, j < a.nc), m.at(t(i), j) == a.at(i, j)), [a.at(i, j)]))]
        if lvl:
            out += [("this row", forall([j], Implies(And(0 <= j, j < L.i), m.at(t(R), j) == a.at(R, j)), [a.at(R, j)])), ("c", L.i <= a.nc), ("an equality", And(a.eq(R) != 0, R < a.nr))]
        else:
            out += [("r", R <= a.nr)]
        return out
    return inv


contract("pluto_constraints_extract_equalities", props=("C03",), nloops=2, requires=lambda c: cwf(c, "cst"), setup=cnt_mono,
         loops={0: exeq_inv(0), 1: exeq_inv(1)},
         ensures=lambda c: (lambda a, m, i, j: m.wf() + m.fresh_from(c.pre) + [
             ("extents", And(m.nr == cnteq(c.pre, a, a.nr), m.nc == a.nc)),
             ("each equality in order", forall([i, j], Implies(And(0 <= i, i < a.nr, a.eq(i) != 0, 0 <= j, j < a.nc), m.at(cnteq(c.pre, a, i), j) == a.at(i, j)), [a.at(i, j)]))])(
                 Cst(c.pre, c["cst"]), Mat(c.post, c.ret), *z3.Ints("i j")))


def zero_ens(c):
    a, b = pp(c)
    return cwfpost(c, "cst") + [("storage kept", And(a.val == b.val, a.buf == b.buf, a.eqb == b.eqb, a.anr == b.anr, a.anc == b.anc, a.nr == b.nr, a.nc == b.nc)), b.is_(lambda i, j: IV(0), "zero coefficients", b.anr, b.anc), b.kinds(lambda i: IV(0), "inequalities", b.anr)]


contract("pluto_constraints_zero", props=("C03",), nloops=0,
         requires=lambda c: (lambda a: cwf(c, "cst") + [("@size", And(a.anr * a.anc <= MAXD))])(Cst(c.pre, c["cst"])),
         setup=lambda c: (lambda a: [AREA(a.anr, a.anc) == mx(IV(1), a.anr) * mx(IV(1), a.anc), AREA(a.anr, a.anc) >= 1, Implies(And(a.anr >= 0, a.anc >= 0), a.anr * a.anc >= 0), Implies(And(a.anr >= 1, a.anc >= 1), a.anr * a.anc >= 1)])(Cst(c.pre, c["cst"])),
         modifies=lambda c: inmods(c), ensures=zero_ens)
