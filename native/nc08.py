"""Executable contracts for C08: tiling and the tile wavefront (tile.c, transforms.c)."""
import itertools
from nat import *
from progs import *
import progen
from progen import val, holds, pts


def g_acc(rng, nc):
    return dict(name=rng.choice("AB"), mat=rnd_rows(rng, rng.randint(1, 2), nc, SMALL))


def gprog(rng, nh=None, nstmts=None, maxdeps=3, coefs=None, maxdim=2):
    P = progen.g_prog(rng, nstmts=nstmts or rng.choice([1, 1, 2, 3]), nh=nh or rng.randint(1, 4), maxdeps=maxdeps, scal=0.2, maxdim=maxdim,
                      coefs=coefs or rng.choice([(0, 1), (0, 1, 1, -1), (1, 1, 0, 2, -1, 3)]))
    for S in P["stmts"]:
        nc = S["dim"] + P["npar"] + 1
        S["reads"] = [g_acc(rng, nc) for _ in range(rng.randint(0, 1))]
        S["writes"] = [g_acc(rng, nc) for _ in range(rng.randint(0, 1))]
        if rng.random() < 0.3:
            S["dom"][0].append([rng.choice([0, 1, -1]) for _ in range(nc - 1)] + [rng.randint(0, 3)])
            S["dom"][1].append(0)
    P["split"] = rng.randint(0, len(P["deps"])) if rng.random() < 0.4 else len(P["deps"])
    return P


def split_deps(lib, prog, P):
    """The dependences from P["split"] on become transitive ones (prog->transdeps)."""
    n = P.get("split", len(P["deps"]))
    ps = lib.ptrs(lib.get("plutoProg", "deps", prog), len(P["deps"]))
    t = ps[n:]
    a = lib.malloc(8 * max(1, len(t)))
    lib.putptr(a, t)
    lib.set("plutoProg", "transdeps", prog, a)
    lib.set("plutoProg", "ntransdeps", prog, len(t))
    lib.set("plutoProg", "ndeps", prog, n)


def rdall(lib, prog):
    r = rdprog(lib, prog)
    for p in lib.ptrs(lib.get("plutoProg", "transdeps", prog), lib.get("plutoProg", "ntransdeps", prog)):
        q = lambda f: lib.get("dependence", f, p)
        r["deps"].append(dict(src=q("src"), dest=q("dest"), type=q("type"), poly=[[n, c, e] for n, c, e in lib.rdcst(q("dpolytope"))]))
    return r


def gen(rng):
    P = gprog(rng)
    nh = len(P["hprops"])
    d = rng.randrange(nh)
    w = rng.randint(1, nh - d)
    members = [k for k in range(len(P["stmts"])) if rng.random() < 0.8] or [0]
    big = rng.random() < 0.15
    return dict(prog=P, depth=d, width=w, members=members, sizes=[rng.choice([1, 2, 3, 4, 5, 7] if not big else [32, 1000, 2**31 - 1]) for _ in range(w)])


def mkband(lib, prog, depth, width, members):
    loop = lib.call("pluto_loop_alloc", "p:")
    a = lib.malloc(8 * max(1, len(members)))
    lib.putptr(a, [stmt(lib, prog, k) for k in members])
    lib.set("pLoop", "stmts", loop, a)
    lib.set("pLoop", "nstmts", loop, len(members))
    lib.set("pLoop", "depth", loop, depth)
    b = lib.call("pluto_band_alloc", "p:pi", loop, width)
    lib.call("pluto_loop_free", "v:p", loop)
    return b


def params(P):
    return list(itertools.product(*[range(1, 4)] * P["npar"]))


def tiles(S, levels, sizes, x):
    """Tile coordinates of the iteration x (with parameters appended) of statement S."""
    return tuple(val(S["trans"][l], x) // sz for l, sz in zip(levels, sizes))


def check_ext(P, tiled, before, after, tcoords, tag=""):
    """tiled: {stmt: number of added tile dimensions (in front)}; tcoords(k, x) gives the required ones."""
    npar = P["npar"]
    for k, S in enumerate(P["stmts"]):
        b, a = before["stmts"][k], after["stmts"][k]
        nt = tiled.get(k, 0)
        eq(a["dim"], b["dim"] + nt, "dimensions of statement %d" % k)
        eq(a["iters"][nt:], b["iters"], "iterator names of statement %d" % k)
        if len(set(a["iters"])) != len(a["iters"]):
            raise Fail("statement %d: duplicate iterator names %s" % (k, a["iters"]))
        eq(a["orig"][nt:], b["orig"], "original-loop flags of statement %d" % k)
        box = [range(lo - 1, hi + 2) for lo, hi in zip(S["los"], S["his"])][:S["dim"]]
        for it in itertools.product(*box):
            for par in params(P):
                x = it + par
                t = tcoords(k, x)
                inside = holds(b["dom"][0], b["dom"][1], x)
                deltas = [tuple(0 for _ in t)]
                for q in range(len(t)):
                    for e in (-1, 1):
                        deltas.append(tuple(e if z == q else 0 for z in range(len(t))))
                for dl in deltas:
                    y = tuple(u + v for u, v in zip(t, dl)) + x
                    h = holds(a["dom"][0], a["dom"][1], y)
                    # moving an outer tile index moves the inner ones' reference, so only the exact tuple may hold
                    if h != (inside and not any(dl)):
                        raise Fail("statement %d: iteration %s parameters %s (in domain: %s) is %sin tile %s; its tile is %s" % (k, it, par, inside, "" if h else "not ", y[:nt], t))
                for f in ("reads", "writes"):
                    for A, B in zip(a[f], b[f]):
                        if [val(r, t + x) for r in A["mat"]] != [val(r, x) for r in B["mat"]] or A["name"] != B["name"]:
                            raise Fail("statement %d: access changed at iteration %s" % (k, it))
                eq(len(a["reads"]), len(b["reads"]), "reads")
                eq(len(a["writes"]), len(b["writes"]), "writes")


def check_deps(P, tiled, before, after, tcoords, rng):
    for k, (D, b, a) in enumerate(zip(P["deps"], before["deps"], after["deps"])):
        for f in ("src", "dest", "type"):
            eq(a[f], b[f], f)
        s, d = D["src"], D["dest"]
        ds, dd = P["stmts"][s]["dim"], P["stmts"][d]["dim"]
        ns, nd = tiled.get(s, 0), tiled.get(d, 0)
        nc, R, E = a["poly"][0]
        eq(nc, ns + ds + nd + dd + P["npar"] + 1, "columns of dependence %d" % k)
        los, his = D["los"], D["his"]
        for x in itertools.product(*[range(lo - (j < ds + dd), hi + 1 + (j < ds + dd)) for j, (lo, hi) in enumerate(zip(los, his))]):
            if rng.random() < 0.5 and len(los) > 4:
                continue
            xs, xd, par = x[:ds], x[ds:ds + dd], x[ds + dd:]
            ts, td = tcoords(s, xs + par), tcoords(d, xd + par)
            inside = holds(b["poly"][0][1], b["poly"][0][2], x)
            if holds(R, E, ts + xs + td + xd + par) != inside:
                raise Fail("dependence %d: instance %s -> %s (before tiling: %s) is not %s with its tile coordinates" % (k, xs, xd, inside, inside))
            if inside:
                for q in range(ns + nd):
                    for e in (-1, 1):
                        t = list(ts + td)
                        t[q] += e
                        if holds(R, E, tuple(t[:ns]) + xs + tuple(t[ns:]) + xd + par):
                            raise Fail("dependence %d: instance %s -> %s also holds with other tile coordinates" % (k, xs, xd))


def run(lib, inp):
    import random
    P = inp["prog"]
    prog = mkprog(lib, P)
    d, w, mem, sizes = inp["depth"], inp["width"], inp["members"], inp["sizes"]
    split_deps(lib, prog, P)
    band = mkband(lib, prog, d, w, mem)
    before = rdall(lib, prog)
    ts = lib.malloc(4 * w)
    lib.put32(ts, sizes)
    lib.call("pluto_tile_band", "v:ppp", prog, band, ts)
    after = rdall(lib, prog)
    eq(len(after["deps"]), len(P["deps"]), "number of dependences")
    lev = {k: [l for l in range(d, d + w) if P["stmts"][k]["hyp"][l] != H_SCALAR] for k in mem}
    tiled = {k: len(v) for k, v in lev.items()}

    def tc(k, x):
        if k not in lev:
            return ()
        return tuple(val(P["stmts"][k]["trans"][l], x) // sizes[l - d] for l in lev[k])
    check_ext(P, tiled, before, after, tc)
    check_deps(P, tiled, before, after, tc, random.Random(7))
    for k, S in enumerate(P["stmts"]):
        a, b = after["stmts"][k], before["stmts"][k]
        nt = tiled.get(k, 0)
        ext = [[0] * nt + r for r in b["trans"]]
        if k in lev:
            trows, ty = [], []
            for l in range(d, d + w):
                if l in lev[k]:
                    r = [0] * len(a["trans"][0])
                    r[lev[k].index(l)] = 1
                    trows.append(r)
                    ty.append(H_TILE)
                else:
                    # a constant in a tile dimension of other statements is divided like they are
                    c = ext[l][-1]
                    trows.append(ext[l][:-1] + [c // sizes[l - d] if any(l in lev[q] for q in mem) else c])
                    ty.append(H_SCALAR)
            eq(a["trans"], ext[:d] + trows + ext[d:], "schedule of statement %d" % k)
            eq(a["hyp"], b["hyp"][:d] + ty + b["hyp"][d:], "level types of statement %d" % k)
            p = stmt(lib, prog, k)
            eq([lib.get("statement", f, p) for f in ("first_tile_dim", "last_tile_dim")], [d, d + w - 1], "tile levels of statement %d" % k)
        else:
            eq(a["trans"], ext, "schedule of statement %d (not in the band)" % k)
            eq(a["hyp"], b["hyp"], "level types of statement %d (not in the band)" % k)
    return any(tiled.values())


def gen_dims(rng):
    P = gprog(rng, nh=rng.randint(1, 3), nstmts=rng.choice([1, 2]), maxdeps=1)
    nh = len(P["hprops"])
    # disjoint bands: a partition of some statements
    ids = list(range(len(P["stmts"])))
    d = rng.randrange(nh)
    w = rng.randint(1, nh - d)
    bands = [[d, w, ids]] if rng.random() < 0.6 or len(ids) == 1 else [[d, w, ids[:1]], [rng.randrange(nh), 1, ids[1:]]]
    if rng.random() < 0.2:
        bands = bands[:1]
        bands[0][2] = bands[0][2][:1]
    for S in P["stmts"]:                  # large schedule values so that 32-wide tiles are non-trivial
        for r in S["trans"]:
            r[-1] += rng.choice([0, 0, 31, 255, -1, 300])
    return dict(prog=P, bands=bands, second=rng.randint(0, 1))


def run_dims(lib, inp):
    """pluto_tile_scattering_dims with the default sizes (32, then 8 x 32)."""
    P = inp["prog"]
    prog = mkprog(lib, P)
    before = rdprog(lib, prog)
    lib.opt(lt=-1, ft=-1, find_tile_sizes=0)
    nb = len(inp["bands"])
    a = lib.malloc(8 * nb)
    lib.putptr(a, [mkband(lib, prog, *b) for b in inp["bands"]])
    lib.call("pluto_tile_scattering_dims", "v:ppib", prog, a, nb, 0)
    if inp["second"]:
        lib.call("pluto_tile_scattering_dims", "v:ppib", prog, a, nb, 1)
    after = rdprog(lib, prog)
    lev = {}
    for d, w, ids in inp["bands"]:
        for k in ids:
            lev[k] = [l for l in range(d, d + w) if P["stmts"][k]["hyp"][l] != H_SCALAR]
    n = 2 if inp["second"] else 1
    tiled = {k: n * len(v) for k, v in lev.items()}

    def tc(k, x):
        if k not in lev:
            return ()
        t = tuple(val(P["stmts"][k]["trans"][l], x) // 32 for l in lev[k])
        return tuple(v // 8 for v in t) + t if n == 2 else t
    check_ext(P, tiled, before, after, tc)
    mx = max(len(S["trans"]) for S in after["stmts"])
    eq(after["nh"], mx, "levels of the program")
    band = {k: (d, w, i) for i, (d, w, ids) in enumerate(inp["bands"]) for k in ids}
    for k, S in enumerate(after["stmts"]):
        eq(len(S["trans"]), mx, "levels of statement %d" % k)
        for it in itertools.product(*[range(lo, hi + 1) for lo, hi in zip(P["stmts"][k]["los"], P["stmts"][k]["his"])][:P["stmts"][k]["dim"]]):
            for par in params(P):
                x = it + par
                old = [val(r, x) for r in P["stmts"][k]["trans"]]
                new = [val(r, tc(k, x) + x) for r in S["trans"]]
                if k in band:
                    d, w, _ = band[k]
                    mix = lambda l: any(l in lev[q] for q in band if band[q] == band[k])
                    cst = lambda l: P["stmts"][k]["trans"][l][-1]
                    t1 = [old[l] // 32 if l in lev[k] else old[l] - cst(l) + cst(l) // 32 if mix(l) else old[l] for l in range(d, d + w)]
                    t2 = [t1[l - d] // 8 if l in lev[k] else old[l] - cst(l) + cst(l) // 32 // 8 if mix(l) else old[l] for l in range(d, d + w)]
                    want = old[:d] + (t2 if n == 2 else []) + t1 + old[d:]
                else:
                    want = old
                eq(new, want + [0] * (mx - len(want)), "schedule of statement %d at %s" % (k, it))
        eq(S["hyp"], [H_LOOP if any(r[:S["dim"]]) else H_SCALAR for r in S["trans"]], "level types of statement %d" % k)
    eq(after["hprops"], [H_LOOP if any(any(S["trans"][l][:S["dim"]]) for S in after["stmts"]) else H_SCALAR for l in range(mx)], "level types of the program")
    return any(tiled.values())


def gen_wave(rng):
    P = gprog(rng, nh=rng.randint(2, 4), coefs=(0, 1, 1, 2))
    nh = len(P["hprops"])
    d = rng.randrange(nh - 1)
    w = rng.randint(2, nh - d)
    mem = [k for k in range(len(P["stmts"])) if any(P["stmts"][k]["trans"][d][:P["stmts"][k]["dim"]]) and rng.random() < 0.9]
    return dict(prog=P, depth=d, width=w, members=mem, multipar=rng.randint(0, 1), innerpar=rng.choice([0, 0, 1]))


def run_wave(lib, inp):
    P = inp["prog"]
    if not inp["members"]:
        return False
    prog = mkprog(lib, P)
    nh = len(P["hprops"])
    lib.call("pluto_compute_dep_directions", "v:p", prog)
    lib.call("pluto_compute_dep_satisfaction", "v:p", prog)
    d, w, mem = inp["depth"], inp["width"], inp["members"]
    band = mkband(lib, prog, d, w, mem)
    before = rdprog(lib, prog)
    sv0 = progen.rddeps(lib, prog, nh)
    par = bool(lib.call("pluto_loop_is_parallel", "i:pp", prog, lib.get("band", "loop", band)))
    lib.opt(multipar=inp["multipar"], innerpar=inp["innerpar"])
    r = lib.call("pluto_create_tile_schedule_band", "b:pp", prog, band)
    lib.opt(multipar=0, innerpar=0)
    after = rdprog(lib, prog)
    sv1 = progen.rddeps(lib, prog, nh)
    isl = lambda k, l: any(P["stmts"][k]["trans"][l][:P["stmts"][k]["dim"]])
    back = lambda l: any(D["type"] != RAR and D["src"] in mem and D["dest"] in mem and not 0 <= sv0[k]["level"] < d and sv0[k]["dirvec"][l] in "-*" for k, D in enumerate(P["deps"]))
    lds = [d] + [l for l in range(d + 1, d + w) if all(isl(k, l) for k in mem) and not back(l)]
    acts = not par and len(lds) > 1
    eq(bool(r), acts, "whether a wavefront was made")
    use = lds[1:] if inp["multipar"] else lds[1:2]
    for k in range(len(P["stmts"])):
        want = [list(x) for x in before["stmts"][k]["trans"]]
        if acts and k in mem and not inp["innerpar"]:
            want[d] = [sum(want[l][j] for l in [d] + use) for j in range(len(want[d]))]
        eq(after["stmts"][k]["trans"], want, "schedule of statement %d" % k)
        for f in after["stmts"][k]:
            if f != "trans":
                eq(after["stmts"][k][f], before["stmts"][k][f], f)
    for k, D in enumerate(P["deps"]):
        if D["type"] == RAR:
            continue
        sv = list(sv0[k]["satvec"])
        if acts and D["src"] in mem and D["dest"] in mem:
            for l in use:
                sv[d] |= sv[l]
                sv[l] = 0
        eq([bool(x) for x in sv1[k]["satvec"]], [bool(x) for x in sv], "satisfaction vector of dependence %d" % k)
    return acts


def gen_strip(rng):
    P = gprog(rng, nstmts=rng.choice([1, 2]))
    k = rng.randrange(len(P["stmts"]))
    return dict(prog=P, k=k, level=rng.randrange(len(P["hprops"])), factor=rng.choice([1, 2, 3, 5, 32]))


def run_strip(lib, inp):
    P, k, l, fac = inp["prog"], inp["k"], inp["level"], inp["factor"]
    prog = mkprog(lib, P)
    before = rdprog(lib, prog)
    nm = lib.strdup("zz")
    lib.call("pluto_stripmine", "v:piipp", stmt(lib, prog, k), l, fac, nm, prog)
    after = rdprog(lib, prog)
    tc = lambda q, x: (val(P["stmts"][k]["trans"][l], x) // fac,) if q == k else ()
    check_ext(P, {k: 1}, before, after, tc)
    b, a = before["stmts"][k], after["stmts"][k]
    ext = [[0] + r for r in b["trans"]]
    eq(a["trans"], ext[:l] + [[1] + [0] * (len(ext[0]) - 1)] + ext[l:], "schedule")
    eq(a["hyp"], b["hyp"][:l] + [H_TILE] + b["hyp"][l:], "level types")
    return True


CHECKS = [dict(name="tile_band", gen=gen, run=run, n={"quick": 3000, "thorough": 40000}, secs={"quick": 40, "thorough": 600}),
          dict(name="tile_dims", gen=gen_dims, run=run_dims, n={"quick": 1000, "thorough": 20000}, secs={"quick": 30, "thorough": 400}),
          dict(name="wavefront", gen=gen_wave, run=run_wave, n={"quick": 2000, "thorough": 20000}, secs={"quick": 25, "thorough": 300}),
          dict(name="stripmine", gen=gen_strip, run=run_strip, n={"quick": 800, "thorough": 8000}, secs={"quick": 15, "thorough": 200})]
