"""Executable contracts for C13: the schedules of the library interface are legal, injective and cover the input domains.

Whole programs go through pluto_transform / pluto_schedule; isl decides legality exactly (for all parameter values)."""
import re

from nat import *
from nc05 import ictx, rd, show

V = "abcd"


def g_prog(rng):
    """Statements in a shared loop nest; every dependence goes forward in the original execution order."""
    n = rng.choice([1, 1, 2, 2, 3])
    par = rng.random() < .6
    hi = "N" if par else str(rng.choice([3, 5, 9]))
    two = par and rng.random() < .4                # extents in different dimensions given by different parameters
    nd = rng.choice([1, 2, 2, 3]) if n == 1 else rng.choice([1, 2, 2])
    dims = [rng.randint(1, nd) if rng.random() < .4 else nd for _ in range(n)]
    shape = rng.choice(["box", "box", "tri"])
    his = [rng.choice("NM") if two else hi for _ in V]
    if shape == "tri":
        his = [hi] * len(V)
    doms = []
    for k in range(n):
        c = []
        for q in range(dims[k]):
            lo = V[q - 1] if shape == "tri" and q else "0"
            c.append("%s <= %s < %s" % (lo, V[q], his[q]))
        t = " and ".join(c)
        doms.append("S_%d[%s] : %s" % (k, ", ".join(V[:dims[k]]), t))
    deps = []
    share = rng.choice([3, 3, 3, 1, 0])          # loops shared by different statements
    for _ in range(rng.randint(0, 5)):
        s, t = rng.randrange(n), rng.randrange(n)
        common = min(dims[s], dims[t], share)
        if n > 1 and not common and s >= t:
            s, t = min(s, t), max(s, t)
            if s == t:
                common = dims[s]
        if s == t:
            common = dims[s]
        # distance on the common loops, lexicographically positive, or zero and textually forward
        dist = [rng.choice([0, 0, 0, 1, 1, 2, -1, -2, "*", "<", "r"]) for _ in range(common)]
        lead = next((q for q, x in enumerate(dist) if x != 0), None)
        if lead is None:
            if s >= t:
                if not common:
                    continue
                dist[rng.randrange(common)] = 1
        elif dist[lead] not in (1, 2, "<"):
            dist[lead] = rng.choice([1, 1, 2, "<"])
        c = []
        for q, x in enumerate(dist):
            a, b = V[q], V[q].upper()
            if x == "*":
                continue
            if x == "<":
                c.append("%s > %s" % (b, a))
            elif x == "r":
                c.append("%s + %s = %s - 1" % (a, b, his[q]))
            else:
                c.append("%s = %s + %d" % (b, a, x))
        extra = [q for q in range(common, dims[t])]
        if rng.random() < .3 and extra and common:
            c.append("%s = %s" % (V[extra[0]].upper(), V[0]))
        deps.append("S_%d[%s] -> S_%d[%s] : %s" % (s, ", ".join(V[:dims[s]]), t, ", ".join(V[:dims[t]].upper()), " and ".join(c) or "1 = 1"))
    o = {}
    for k, vs in (("tile", [0, 0, 1]), ("parallel", [0, 0, 1]), ("fuse", [1, 2, 0]), ("second_level_tile", [0, 0, 0, 1]), ("innerpar", [0, 0, 0, 1]), ("multipar", [0, 0, 0, 1]), ("diamondtile", [0, 1]),
                  ("fulldiamondtile", [0, 0, 0, 1]), ("intratileopt", [0, 1]), ("nodepbound", [0, 0, 0, 0, 1]), ("flic", [0, 0, 1]), ("per_cc_obj", [0, 0, 1]), ("identity", [0] * 20 + [0]), ("coeff_bound", [-1, -1, -1, 4])):
        o[k] = rng.choice(vs)
    if nd > 2:
        o["nodepbound"] = 0
    if o["diamondtile"] or o["nodepbound"] or o["per_cc_obj"]:
        o["coeff_bound"] = -1                             # the solver may run for minutes
    return dict(par=("[M, N] -> " if two and rng.random() < .5 else "[N, M] -> ") if two else "[N] -> " if par else "", doms=doms, deps=deps, opts=o, acc=False, dims=dims)


DEFAULTS = None


def setopts(lib, o):
    global DEFAULTS
    lib.ctx()
    if DEFAULTS is None:
        DEFAULTS = {k: lib.get("plutoOptions", k, lib.opts) for k in o if lib.has("plutoOptions", k)}
    for k in o:
        if lib.has("plutoOptions", k):
            lib.set("plutoOptions", k, lib.opts, o[k])


def lexpos(n):
    v = ["t%d" % k for k in range(n)]
    return "{ [%s] : %s }" % (", ".join(v), " or ".join("(" + " and ".join(["%s = 0" % x for x in v[:k]] + ["%s > 0" % v[k]]) + ")" for k in range(n)) or "1 = 0")


def judge(lib, what, sched, dom, deps):
    """sched, dom, deps: isl union objects; kept."""
    sd = lib.call("isl_union_map_domain", "p:p", lib.call("isl_union_map_copy", "p:p", sched))
    if not lib.call("isl_union_set_is_equal", "i:pp", sd, dom):
        raise Fail("%s: the schedule is defined on %s, the program has %s" % (what, show(lib, "union_set", sd), show(lib, "union_set", dom)))
    lib.call("isl_union_set_free", "p:p", sd)
    if not lib.call("isl_union_map_is_single_valued", "i:p", sched):
        raise Fail("%s: an iteration has several schedule points: %s" % (what, show(lib, "union_map", sched)))
    d = lib.call("isl_union_map_apply_domain", "p:pp", lib.call("isl_union_map_copy", "p:p", deps), lib.call("isl_union_map_copy", "p:p", sched))
    d = lib.call("isl_union_map_apply_range", "p:pp", d, lib.call("isl_union_map_copy", "p:p", sched))
    d = lib.call("isl_union_map_deltas", "p:p", d)
    txt = show(lib, "union_set", d)
    ns = set(len(m.split(",")) if m.strip() else 0 for m in re.findall(r"\[([^\]]*)\] :", txt.split("->", 1)[-1] if "->" in txt else txt))
    m = re.search(r"\{ \[([^\]]*)\]", txt)
    if m:
        n = len(m.group(1).split(",")) if m.group(1).strip() else 0
        lp = rd(lib, "union_set", lexpos(n))
        if not lib.call("isl_union_set_is_subset", "i:pp", d, lp):
            bad = lib.call("isl_union_set_subtract", "p:pp", d, lp)
            raise Fail("%s: a dependence target does not run strictly after its source; schedule distances %s; schedule %s" % (what, show(lib, "union_set", bad), show(lib, "union_map", sched)))
        lib.call("isl_union_set_free", "p:p", lp)
    lib.call("isl_union_set_free", "p:p", d)
    # distinct iterations of a statement, distinct points
    ml = lib.call("isl_union_map_get_map_list", "p:p", sched)
    for k in range(lib.call("isl_map_list_n_map", "i:p", ml)):
        mp = lib.call("isl_map_list_get_map", "p:pi", ml, k)
        if not lib.call("isl_map_is_injective", "i:p", mp):
            raise Fail("%s: two iterations of a statement share a schedule point: %s" % (what, show(lib, "map", mp)))
        lib.call("isl_map_free", "p:p", mp)
    lib.call("isl_map_list_free", "p:p", ml)


def r_prog(lib, d):
    setopts(lib, d["opts"])
    dom = rd(lib, "union_set", d["par"] + "{ %s }" % "; ".join(d["doms"]))
    deps = rd(lib, "union_map", d["par"] + "{ %s }" % "; ".join(d["deps"]))
    cs, cm = (lambda x: lib.call("isl_union_set_copy", "p:p", x)), (lambda x: lib.call("isl_union_map_copy", "p:p", x))
    # only instances between iterations that exist
    deps = lib.call("isl_union_map_intersect_range", "p:pp", lib.call("isl_union_map_intersect_domain", "p:pp", deps, cs(dom)), cs(dom))
    reads = writes = None
    if d["acc"]:
        w = "; ".join("S_%d[%s] -> A%d[%s]" % (k, ", ".join(V[:n]), k, ", ".join(V[:n])) for k, n in enumerate(d["dims"]))
        reads, writes = rd(lib, "union_map", d["par"] + "{ %s }" % w), rd(lib, "union_map", d["par"] + "{ %s }" % w)
    lib.opt(silent=1, isldepaccesswise=0)
    s = lib.call("pluto_transform", "p:ppppp", cs(dom), cm(deps), reads, writes, lib.ctx())
    if not s:
        return False            # the library says so when it finds none
    s = lib.call("isl_union_map_intersect_domain", "p:pp", s, cs(dom))      # pluto_transform returns the mapping only
    judge(lib, "pluto_transform", s, dom, deps)
    for x in (s, deps):
        lib.call("isl_union_map_free", "p:p", x)
    lib.call("isl_union_set_free", "p:p", dom)
    return bool(d["deps"])


def r_str(lib, d):
    """The string interface gives the same schedule as pluto_transform, or another legal one."""
    setopts(lib, dict(d["opts"], silent=1, isldepaccesswise=0))
    lib.opt(silent=1, isldepaccesswise=0)
    dom = rd(lib, "union_set", d["par"] + "{ %s }" % "; ".join(d["doms"]))
    deps = rd(lib, "union_map", d["par"] + "{ %s }" % "; ".join(d["deps"]))
    cs, cm = (lambda x: lib.call("isl_union_set_copy", "p:p", x)), (lambda x: lib.call("isl_union_map_copy", "p:p", x))
    deps = lib.call("isl_union_map_intersect_range", "p:pp", lib.call("isl_union_map_intersect_domain", "p:pp", deps, cs(dom)), cs(dom))
    ref = lib.call("pluto_transform", "p:ppppp", cs(dom), cm(deps), None, None, lib.ctx())
    if not ref:
        return False
    out = lib.malloc(24)
    lib.putptr(out, [0, 0, 0])
    lib.call("pluto_schedule_str", "v:sspppp", show(lib, "union_set", dom).encode(), show(lib, "union_map", deps).encode(), out, out + 8, out + 16, lib.ctx())
    txt = lib.cstr(lib.ptrs(out, 1)[0])
    got = rd(lib, "union_map", txt)
    if not lib.call("isl_union_map_is_equal", "i:pp", ref, got):
        # printing and reading may give another, equally good constraint order: the schedule need only be legal
        got = lib.call("isl_union_map_intersect_domain", "p:pp", got, cs(dom))
        judge(lib, "pluto_schedule_str", got, dom, deps)
    return True


# inputs on which the library failed before (repaired defects), run in a child process
BASE = dict(tile=0, parallel=0, fuse=2, second_level_tile=0, innerpar=0, multipar=0, diamondtile=1, fulldiamondtile=0, intratileopt=1, nodepbound=0, flic=0, per_cc_obj=0, identity=0, coeff_bound=-1)
FIXED = [
    dict(par="[N] -> ", doms=["S_%d[a, b] : 0 <= a < N and a <= b < N" % k for k in range(3)],
         deps=["S_1[a, b] -> S_0[A, B] : A = a + 1 and B = b", "S_0[a, b] -> S_2[A, B] : A = a and B = b", "S_0[a, b] -> S_2[A, B] : A = a + 2 and B > b",
               "S_2[a, b] -> S_0[A, B] : A = a and B = b + 2", "S_1[a, b] -> S_1[A, B] : A = a + 1 and B = b"], opts=dict(BASE), acc=False, dims=[2, 2, 2], name=""),
    dict(par="[N] -> ", doms=["S_0[a, b] : 0 <= a < N and 0 <= b < N"], deps=["S_0[a, b] -> S_0[A, B] : A > a and B = b + -1", "S_0[a, b] -> S_0[A, B] : A = a + 1 and B = b + 1"],
         opts=dict(BASE, per_cc_obj=1), acc=False, dims=[2], name=""),
    dict(par="[N] -> ", doms=["S_%d[a, b] : 0 <= a < N and 0 <= b < N" % k for k in range(3)],
         deps=["S_2[a, b] -> S_0[A, B] : A = a + 1", "S_2[a, b] -> S_0[A, B] : A = a + 2 and B = b + 0", "S_0[a, b] -> S_0[A, B] : A = a + 1 and B = b + 0"],
         opts=dict(BASE, parallel=1, fuse=1, diamondtile=0), acc=False, dims=[2, 2, 2], name=""),
    dict(par="[N] -> ", doms=["S_0[a] : 0 <= a < N", "S_1[a, b] : 0 <= a < N and 0 <= b < N", "S_2[a, b] : 0 <= a < N and 0 <= b < N"],
         deps=["S_0[a] -> S_0[A] : A = a + 2", "S_1[a, b] -> S_2[A, B] : A = a + 2 and B = b + 0", "S_2[a, b] -> S_0[A] : A = a + 2", "S_0[a] -> S_2[A, B] : A = a + 0"],
         opts=dict(BASE, tile=1, fuse=1, diamondtile=0, intratileopt=0), acc=False, dims=[1, 2, 2], name=""),
]


def r_fixed(lib, d):
    import os
    import tempfile
    f = tempfile.TemporaryFile()
    pid = os.fork()
    if pid == 0:
        os.dup2(f.fileno(), 2)
        rc = 0
        try:
            r_prog(lib, d)
        except Fail as e:
            os.write(2, str(e).encode())
            rc = 3
        os._exit(rc)
    _, st = os.waitpid(pid, 0)
    f.seek(0)
    if st:
        raise Fail("%s%s" % (d["name"], f.read().decode(errors="replace")[-1500:]))
    return True


CHECKS = [dict(name="transform", gen=g_prog, run=r_prog, n=dict(quick=4000, thorough=30000), secs=dict(quick=100, thorough=1200)),
          dict(name="string_interface", gen=g_prog, run=r_str, n=dict(quick=200, thorough=400), secs=dict(quick=20, thorough=100)),
          dict(name="fixed", exhaustive=lambda tier: iter(FIXED), gen=None, run=r_fixed, n=dict(quick=0, thorough=0))]
BUDGET = dict(quick=110, thorough=1500, deep=400)
