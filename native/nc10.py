"""Executable contracts for C10: dependence satisfaction and directions."""
from nat import *
from progs import *
import progen
from progen import diffs, direction, instances, sched, rddeps


def gen(rng):
    P = progen.g_prog(rng, mindeps=1, coefs=rng.choice([(0, 0, 1, 1, -1, 2), (0, 1), (0, 1, 1, 2, 3), (1, -1, 5, 2**33)]))
    return dict(prog=P, level=rng.randrange(len(P["hprops"])), pre=[rng.randint(0, 1) for _ in P["deps"]])


def run(lib, inp):
    P = inp["prog"]
    nh = len(P["hprops"])
    prog = mkprog(lib, P)
    before = rdprog(lib, prog)
    D = P["deps"]
    V = [[diffs(P, d, l) for l in range(nh)] for d in D]
    sat = [[all(x > 0 for x in v[l]) for l in range(nh)] for v in V]
    dirs = ["".join(direction(v[l]) for l in range(nh)) for v in V]
    # verdicts at one level
    l = inp["level"]
    for k, d in enumerate(D):
        eq(bool(lib.call("dep_satisfaction_test", "b:ppu", dep(lib, prog, k), prog, l)), sat[k][l], "satisfaction of dependence %d at level %d (differences %s)" % (k, l, V[k][l][:12]))
        eq(chr(lib.call("get_dep_direction", "i:ppu", dep(lib, prog, k), prog, l)), dirs[k][l], "direction of dependence %d at level %d (differences %s)" % (k, l, V[k][l][:12]))
    # update: only the unsatisfied ones are tested
    n = lib.call("dep_satisfaction_update", "i:pi", prog, l)
    new = [k for k, d in enumerate(D) if not d["satisfied"] and sat[k][l]]
    eq(n, sum(1 for k in new if D[k]["type"] != RAR), "number of newly satisfied dependences")
    G = rddeps(lib, prog, nh)
    for k, d in enumerate(D):
        eq([G[k]["satisfied"], G[k]["level"]], [1, l] if k in new else [d["satisfied"], d["level"]], "satisfaction record of dependence %d after the update" % k)
    eq(bool(lib.call("deps_satisfaction_check", "i:p", prog)), all(g["satisfied"] for g, d in zip(G, D) if d["type"] != RAR), "all satisfied")
    lib.call("pluto_dep_satisfaction_reset", "v:p", prog)
    G = rddeps(lib, prog, nh)
    eq([[g["satisfied"], g["level"]] for g in G], [[0, -1] for _ in D], "after reset")
    eq(bool(lib.call("deps_satisfaction_check", "i:p", prog)), all(d["type"] == RAR for d in D), "all satisfied after reset")
    # all levels
    lib.call("pluto_compute_dep_directions", "v:p", prog)
    G = rddeps(lib, prog, nh)
    eq([g["dirvec"] for g in G], dirs, "direction vectors")
    lib.call("pluto_compute_dep_satisfaction", "v:p", prog)
    G = rddeps(lib, prog, nh)
    for k, d in enumerate(D):
        lev = next((l for l in range(nh) if sat[k][l]), -1)
        eq([G[k]["satisfied"], G[k]["level"]], [int(lev >= 0), lev], "satisfaction of dependence %d over all levels" % k)
        if d["type"] != RAR:
            eq(G[k]["satvec"], [int(dirs[k][l] != "0" and (lev == -1 or l <= lev)) for l in range(nh)], "satisfaction vector of dependence %d" % k)
    # instance-wise
    n = lib.call("pluto_compute_dep_satisfaction_precise", "i:p", prog)
    G = rddeps(lib, prog, nh)
    tot = 0
    for k, d in enumerate(D):
        left = list(zip(*V[k])) if nh else []
        sv = [0] * nh
        done = 0
        lev = -1
        for l in range(nh):
            if any(x[l] > 0 for x in left):
                sv[l] = 1
                lev = l
            left = [x for x in left if x[l] <= 0]
            if not left:
                done = 1
                break
        tot += done and d["type"] != RAR
        eq([G[k]["satisfied"], G[k]["level"], G[k]["satvec"]], [done, lev, sv], "instance-wise satisfaction of dependence %d" % k)
    eq(n, tot, "number of dependences satisfied instance-wise")
    after = rdprog(lib, prog)
    for f in ("stmts", "npar", "nvar", "nh", "hprops"):
        eq(after[f], before[f], f)
    eq([[d["poly"], d["bpoly"], d["src"], d["dest"], d["type"]] for d in after["deps"]], [[d["poly"], d["bpoly"], d["src"], d["dest"], d["type"]] for d in before["deps"]], "dependences")
    freeprog(lib, prog)
    return any(any(v) for v in V)


CHECKS = [dict(name="satisfaction", gen=gen, run=run, n={"quick": 4000, "thorough": 60000}, secs={"quick": 60, "thorough": 900})]
