"""Executable contracts for C12: separating components (pluto.c cut_*)."""
from nat import *
from progs import *
import progen
from progen import diffs, rddeps


def gen(rng):
    nv = rng.randint(1, 3)
    P = progen.g_prog(rng, nstmts=rng.choice([1, 2, 3, 4, 5]), nh=rng.randint(0, 3), mindeps=0, maxdeps=7, nvar=nv, maxdim=nv, types=[0, 0, 0, 1, 2, 3])
    n = len(P["stmts"])
    if rng.random() < 0.7:                  # mostly forward dependences: several components
        for d in P["deps"]:
            if d["src"] > d["dest"] and rng.random() < 0.8:
                S, D = P["stmts"][d["src"]], P["stmts"][d["dest"]]
                k = nv
                perm = list(range(k, 2 * k)) + list(range(k)) + list(range(2 * k, d["nc"]))
                d["poly"] = [[[r[q] for q in perm] for r in d["poly"][0]], d["poly"][1]]
                d["los"], d["his"] = [d["los"][q] for q in perm[:-1]], [d["his"][q] for q in perm[:-1]]
                d["src"], d["dest"] = d["dest"], d["src"]
    for d in P["deps"]:
        d["satisfied"], d["level"] = 0, -1
    return dict(prog=P, op=rng.choice(["all", "between", "dim", "smart", "conservative"]), a=rng.randrange(8), b=rng.randrange(8))


def run(lib, inp):
    P = inp["prog"]
    nh = len(P["hprops"])
    n = len(P["stmts"])
    prog = mkprog(lib, P)
    npar, nv = P["npar"], P["stmts"][0]["dim"]
    for l in range(nh):
        lib.call("dep_satisfaction_update", "i:pi", prog, l)
    g = lib.call("ddg_create", "p:p", prog)
    lib.set("plutoProg", "ddg", prog, g)
    lib.call("ddg_compute_scc", "v:p", prog)
    D = P["deps"]
    G0 = rddeps(lib, prog, 0)
    before = rdprog(lib, prog)
    for k, S in enumerate(before["stmts"]):
        S["scc"] = lib.get("statement", "scc_id", stmt(lib, prog, k))
    scc = [S.pop("scc") for S in before["stmts"]]
    ns = lib.get("graph", "num_sccs", g)
    mdim = [max(P["stmts"][k]["dim_orig"] for k in range(n) if scc[k] == c) for c in range(ns)]
    V = [[diffs(P, d, l) for l in range(nh)] for d in D]
    uns = [k for k, d in enumerate(D) if d["type"] != RAR and not G0[k]["satisfied"]]
    conn = lambda a, b: any(scc[D[k]["src"]] == a and scc[D[k]["dest"]] == b for k in uns)
    op, ret, want = inp["op"], None, None
    a = b = 0
    if op == "all":
        ret = lib.call("cut_all_sccs", "u:pp", prog, g)
        want = [scc] if ns > 1 else []
    elif op == "between":
        a, b = inp["a"] % ns, inp["b"] % ns
        ret = lib.call("cut_between_sccs", "u:ppii", prog, g, a, b)
        lv = [int(c >= b) for c in scc]
        sat = [k for k in uns if lv[D[k]["src"]] < lv[D[k]["dest"]]]
        empty = [k for k in uns if not list(progen.instances(P, D[k]))]
        want = [lv] if conn(a, b) and (sat or empty) else []
    elif op == "dim":
        ret = lib.call("cut_scc_dim_based", "u:pp", prog, g)
        cnt, c = [0], 0
        for q in range(1, ns):
            c += mdim[q] != mdim[q - 1]
            cnt.append(c)
        lv = [cnt[c] for c in scc]
        sat = [k for k in uns if lv[D[k]["src"]] < lv[D[k]["dest"]] or not list(progen.instances(P, D[k]))]
        want = [lv] if ns > 1 and sat else []
    elif ns >= 1:
        lib.call("cut_smart" if op == "smart" else "cut_conservative", "v:pp", prog, g)
    after = rdprog(lib, prog)
    new = []
    nh2 = after["nh"]
    if nh2 < nh:
        raise Fail("levels were lost: %d of %d left" % (nh2, nh))
    for k in range(n):
        b0, a0 = before["stmts"][k], after["stmts"][k]
        if len(a0["trans"]) != nh2:
            raise Fail("statement %d has %d levels, the program %d" % (k, len(a0["trans"]), nh2))
        eq(a0["trans"][:nh], b0["trans"], "existing levels of statement %d" % k)
        eq(a0["hyp"][:nh], b0["hyp"], "types of the existing levels of statement %d" % k)
        for l in range(nh, nh2):
            if any(a0["trans"][l][:-1]) or a0["hyp"][l] != H_SCALAR:
                raise Fail("new level %d of statement %d is not constant: %s type %d" % (l, k, a0["trans"][l], a0["hyp"][l]))
        for f in a0:
            if f not in ("trans", "hyp"):
                eq(a0[f], b0[f], "%s of statement %d" % (f, k))
    new = [[after["stmts"][k]["trans"][l][-1] for k in range(n)] for l in range(nh, nh2)]
    eq(after["hprops"], before["hprops"] + [H_SCALAR] * len(new), "level types of the program")
    if want is not None:
        eq(new, want, "new constant levels (components %s)" % scc)
    # order, satisfaction records
    G = rddeps(lib, prog, 0)
    live = set(k for k, d in enumerate(D) if not G0[k]["satisfied"])
    for l, lv in enumerate(new):
        got = set()
        for k in live:
            d = D[k]
            if d["type"] != RAR and lv[d["src"]] > lv[d["dest"]]:
                raise Fail("new level %d places statement %d after its dependent %d" % (nh + l, d["src"], d["dest"]))
            if lv[d["src"]] < lv[d["dest"]] or not list(progen.instances(P, d)):
                got.add(k)
                eq([G[k]["satisfied"], G[k]["level"]], [1, nh + l], "record of dependence %d" % k)
        if want is None and lv != scc and not any(D[k]["type"] != RAR for k in got):
            raise Fail("new level %s satisfies no dependence" % lv)
        if sorted((c, v) for c, v in zip(scc, lv)) != sorted(sorted((c, v) for c, v in zip(scc, lv)), key=lambda x: x[1]) or len(set(zip(scc, lv))) != len(set(scc)):
            raise Fail("new level %s does not keep components %s together and in order" % (lv, scc))
        live -= got
        if ret is not None:
            eq(ret, sum(1 for k in got if D[k]["type"] != RAR), "number of dependences cut")
    if not new and ret is not None:
        eq(ret, 0, "number of dependences cut")
    for k in live:
        if D[k]["type"] == RAR:         # verdicts on read-read pairs are not relied upon
            continue
        eq([G[k]["satisfied"], G[k]["level"]], [0, -1], "record of dependence %d, which no new level satisfies" % k)
    for k in range(len(D)):
        if G0[k]["satisfied"]:
            eq([G[k]["satisfied"], G[k]["level"]], [G0[k]["satisfied"], G0[k]["level"]], "record of dependence %d, satisfied before" % k)
    for f in ("poly", "bpoly", "src", "dest", "type"):
        eq([d[f] for d in after["deps"]], [d[f] for d in before["deps"]], "dependences' " + f)
    if new:
        adj = lib.rdmat(lib.get("graph", "adj", g))[2]
        w = [[0] * n for _ in range(n)]
        for k in live:
            if D[k]["type"] != RAR:
                w[D[k]["src"]][D[k]["dest"]] += 1
        eq(adj, w, "unsatisfied dependence counts after the cut")
    eq(bool(lib.call("ddg_sccs_direct_connected", "i:ppii", g, prog, a, b)), any(D[k]["type"] != RAR and scc[D[k]["src"]] == a and scc[D[k]["dest"]] == b for k in live), "components connected")
    return bool(new)


CHECKS = [dict(name="cuts", gen=gen, run=run, n={"quick": 6000, "thorough": 80000}, secs={"quick": 60, "thorough": 900})]
import nc07
CHECKS.append(nc07.mk("separate"))
