"""Contracts for constant bounds and index-set splitting (C14): lib/constraints.c, lib/iss.c."""
from base import *
from matrix import Mat
from cons import Cst, cwf
from stmts import *
from sums import lb_true, ub_true

XV = z3.Int("XV")        # an arbitrary value of the variable

contract("pluto_constraints_project_out_single", props=("C14",), nloops=2, dead_ok=("loop 0 body", "loop 1 body", "loop 0 exit", "loop 1 exit"),
         requires=lambda c: [("nothing to project out (the projection itself is not available in this build)", c["num"] == 0)],
         loops={0: lambda L: [], 1: lambda L: []})


def sat1(b, n=None):
    """XV satisfies the rows of a system over one variable."""
    i = z3.Int("wi")
    v = b.at(i, IV(0)) * XV + b.at(i, IV(1))
    return And(XV >= -(1 << 63), XV < 1 << 63, forall([i], Implies(And(0 <= i, i < (b.nr if n is None else n)), If(b.eq(i) != 0, v == 0, v >= 0)), [b.at(i, IV(0))]))


def bnd(name, out, low):
    o = lambda c, v: v.cell("c.i64", c[out].blk, ADR(c[out].off, IV(0)))
    ok = lambda v: (v <= XV) if low else (v >= XV)

    def inv(L):
        b, a = Cst(L.st, L.v("cst")), Cst(L.pre, L["cnst"])
        val = o(L, L.st)
        i = L.i
        w = b.at(i, IV(0)), b.at(i, IV(1))
        return [("@def", (lb_true if low else ub_true)(w[0], w[1], XV)), ("i", i <= a.nr), ("copy", And(b.nr == a.nr, b.nc == 2)), ("fresh", And(*[x >= L.pre.nb for x in (b.c, b.buf, b.val, b.eqb)])), b.is_(a.at), b.kinds(a.eq)] + [("copy: " + l, f) for l, f in b.wf()] + [
            ("true bound", Implies(sat1(a), Implies(L.v("retval") != 0, ok(val)))), ("verdict", Or(L.v("retval") == 0, L.v("retval") == 1)),
            ("no bound yet", Implies(L.v("retval") == 0, val == (-(1 << 63) if low else (1 << 63) - 1)))]
    contract(name, props=("C14",), nloops=1, usediv=True,
             requires=lambda c: cwf(c, "cnst") + [("one variable", And(Cst(c.pre, c["cnst"]).nc == 2, c["pos"] == 0)),
                                                  ("place for the bound", And(live(c.pre, c[out].blk), c[out].off >= 0, LEN(c[out].blk) >= 8 * c[out].off + 8, c[out].blk != Cst(c.pre, c["cnst"]).buf))],
             modifies=lambda c: {"c.i64": [c[out].blk]},
             ensures=lambda c: [("verdict", Or(c.ret == 0, c.ret == 1)), ("true bound", Implies(And(c.ret == 1, sat1(Cst(c.pre, c["cnst"]))), ok(o(c, c.post))))],
             loops={0: inv})


bnd("pluto_constraints_get_const_lb", "lb", True)
bnd("pluto_constraints_get_const_ub", "ub", False)
