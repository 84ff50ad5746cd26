"""Vocabulary shared by all contracts."""
import z3
from vc import (Contract, PVal, NULL, K, KINDF, LEN, ADR, IV, forall, fresh, NoFit, is_lit, TDIV, GCD, LCM, AAI, I)

MAXD = 1 << 30
SPECS = {}


def contract(name, **kw):
    extra = {k: kw.pop(k) for k in list(kw) if k in ("props", "nloops", "mulmode", "dead_ok", "static_mods", "usediv", "hints", "points", "calls")}
    c = Contract(name, **kw)
    for k, v in extra.items():
        setattr(c, k, v)
    if not hasattr(c, "props"):
        c.props = ()
    assert name not in SPECS, name
    SPECS[name] = c
    return c


def And(*a):
    a = [x for x in a if x is not True]
    return z3.And(*a) if len(a) != 1 else a[0]


Or, Not, Implies, If = z3.Or, z3.Not, z3.Implies, z3.If
_q = [0]


def blk(p):
    return p.blk if isinstance(p, PVal) else p


def ints(names):
    return z3.Ints(names)


def uns(x):
    return x


def sizeof(view, struct):
    return view.vf.env.csize(("struct", struct))
