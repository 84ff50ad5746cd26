"""Executable contracts for C04 (simplification, elimination, Farkas)."""
from nat import *
from poly import *

PC = "pluto_constraints"
COEF = [0, 0, 0, 1, 1, -1, -1, 2, -2, 3, -3, 5, -4, 6]
BIGC = [2**31, -2**31, 2**31 + 1, 2**32, 2**33 - 1, -2**33, 3 * 2**31]


def rrow(rng, nc, big=False):
    r = [rng.choice(COEF) for _ in range(nc)]
    if big and rng.random() < .5:
        r[rng.randrange(nc)] = rng.choice(BIGC)
    if rng.random() < .15:
        m = rng.choice([2, 3, -2, 6])
        r = [x * m for x in r]
    return r


def rsys(rng, nc, maxr=5, big=False, eqp=.25):
    nr = rng.randint(0, maxr)
    rows = [rrow(rng, nc, big) for _ in range(nr)]
    for i in range(nr):
        if i and rng.random() < .12:
            rows[i] = list(rows[rng.randrange(i)])
        elif i and rng.random() < .08:
            rows[i] = [-x for x in rows[rng.randrange(i)]]
        elif rng.random() < .06:
            rows[i] = [0] * nc
        elif i and rng.random() < .1:
            k = rng.choice([2, 3])
            rows[i] = [x * k for x in rows[rng.randrange(i)]]
        elif i and rng.random() < .1:
            rows[i] = list(rows[rng.randrange(i)])
            rows[i][rng.randrange(nc)] += rng.choice([1, -1])
    return [rows, [1 if rng.random() < eqp else 0 for _ in range(nr)]]


def chk_same(lib, before, after, what):
    """before: poly constraints (None = empty); after: (rows, eqs)."""
    got = cons(*after)
    try:
        if before is None:
            ok = empty(got)
        else:
            ok = same(before, got)
    except TooBig:
        return
    if not ok:
        raise Fail("%s: the described set changed; got %r" % (what, after))


# ------------------------------------------------------------------ simplify
def g_simp(rng):
    nc = rng.randint(1, 4)
    return dict(nc=nc, sys=[rsys(rng, nc, 6, big=rng.random() < .3) for _ in range(rng.choice([1, 1, 2]))], er=rng.choice([0, 1]), ec=rng.choice([0, 1]))


def r_simp(lib, d):
    c = lib.cstlist(d["sys"], d["nc"], d["er"], d["ec"])
    lib.call("pluto_constraints_simplify", "v:p", c)
    out = lib.rdcst(c)
    eq(len(out), len(d["sys"]), "number of systems")
    for (nc, R, E), (R0, E0) in zip(out, d["sys"]):
        eq(nc, d["nc"], "columns")
        chk_same(lib, cons(R0, E0), (R, E), "pluto_constraints_simplify")
        if len(R) > len(R0):
            raise Fail("simplification added constraints")
    probe(lib, c)
    lib.freecst(c)
    return any(s[0] for s in d["sys"])


def probe(lib, c):
    while c:
        anr, anc = lib.get(PC, "alloc_nrows", c), lib.get(PC, "alloc_ncols", c)
        rp = lib.ptrs(lib.get(PC, "val", c), anr)
        for p in rp:
            lib.call("verif_fill", "v:pl", p, anc)
        srt = sorted(rp)
        for a, b in zip(srt, srt[1:]):
            if anc and b - a < 8 * anc:
                raise Fail("rows overlap")
        c = lib.get(PC, "next", c)


# ------------------------------------------------------------------ one elimination
LIM = 2**62


def lcm_(a, b):
    return abs(a) // gcd(abs(a), abs(b)) * abs(b) if a and b else 0


def fits(R, pos):
    for a in R:
        for b in R:
            if a[pos] and b[pos]:
                L = lcm_(a[pos], b[pos])
                if L >= LIM:
                    return False
                f, g = L // abs(a[pos]), L // abs(b[pos])
                if any(abs(x) * f + abs(y) * g >= LIM for x, y in zip(a, b)):
                    return False
    return True


def g_elim(rng):
    nc = rng.randint(2, 4)
    d = dict(nc=nc, pos=rng.randrange(nc - 1), sys=[rsys(rng, nc, 6, big=rng.random() < .35, eqp=rng.choice([0, .15, .3]))], er=rng.choice([0, 2]), ec=rng.choice([0, 1]))
    return d


def r_elim(fn, need_eq=False, lists=False):
    def run(lib, d):
        if not all(fits(R, d["pos"]) for R, E in d["sys"]):
            return False
        sysl = d["sys"]
        if need_eq:
            sysl = [s for s in sysl if any(e and r[d["pos"]] for r, e in zip(*s))]
            if not sysl:
                return False
        if fn == "fourier_motzkin_eliminate":
            # equalities become inequalities first: their negated sum must fit too
            for R, E in sysl:
                if any(abs(sum(r[j] for r, e in zip(R, E) if e)) > 2**40 for j in range(d["nc"])):
                    return False
                S = [-sum(r[j] for r, e in zip(R, E) if e) for j in range(d["nc"])]
                if any(E) and not fits(R + [S], d["pos"]):
                    return False
        c = lib.cstlist(sysl, d["nc"], d["er"], d["ec"])
        lib.call(fn, "v:pi", c, d["pos"])
        out = lib.rdcst(c)
        eq(len(out), len(sysl), "number of systems")
        for (nc, R, E), (R0, E0) in zip(out, sysl):
            eq(nc, d["nc"] - 1, "columns")
            try:
                p = project(cons(R0, E0), [k for k in range(d["nc"] - 1) if k != d["pos"]])
            except TooBig:
                continue
            chk_same(lib, p, (R, E), fn)
        probe(lib, c)
        lib.freecst(c)
        return any(r[d["pos"]] for s in sysl for r in s[0])
    return run


def g_elim_list(rng):
    d = g_elim(rng)
    d["sys"] += [rsys(rng, d["nc"], 4, eqp=.2) for _ in range(rng.choice([0, 1]))]
    return d


# ------------------------------------------------------------------ candidate choice, elimination of several
def g_many(rng):
    nc = rng.randint(3, 5)
    k = rng.randint(1, min(3, nc - 1))
    return dict(nc=nc, k=k, sys=rsys(rng, nc, 5, eqp=.2), plain=rng.random() < .3)


def r_many(lib, d):
    R0, E0 = d["sys"]
    c = lib.cst(R0, E0, d["nc"])
    fn = "fourier_motzkin_eliminate" if d["plain"] else "fourier_motzkin_eliminate_smart"
    for i in range(d["k"]):
        nc, R, E = lib.rdcst1(c)
        if len(R) > 40 or any(abs(x) > 2**25 for r in R for x in r):
            lib.freecst(c)
            return False
        b = lib.call("pluto_constraints_best_elim_candidate", "i:pi", c, d["k"] - i)
        if not (nc - 2 - (d["k"] - i) < b <= nc - 2):
            raise Fail("elimination candidate %d is not among the last %d variables" % (b, d["k"] - i))
        lib.call(fn, "v:pi", c, b)
    nc, R, E = lib.rdcst1(c)
    eq(nc, d["nc"] - d["k"], "columns")
    if len(R) > 60:
        lib.freecst(c)
        return False
    try:
        chk_same(lib, project(cons(R0, E0), list(range(d["nc"] - 1 - d["k"]))), (R, E), "eliminating %d variables" % d["k"])
    except TooBig:
        pass
    lib.freecst(c)
    return bool(R0)


# ------------------------------------------------------------------ equalities as inequalities
def g_pure(rng):
    nc = rng.randint(1, 4)
    return dict(nc=nc, sys=rsys(rng, nc, 5, eqp=.5))


def r_pure(lib, d):
    R0, E0 = d["sys"]
    c = lib.cst(R0, E0, d["nc"])
    q = lib.call("pluto_constraints_to_pure_inequalities_single", "p:p", c)
    nc, R, E = lib.rdcst1(q)
    eq(nc, d["nc"], "columns")
    eq(any(E), False, "equalities left")
    chk_same(lib, cons(R0, E0), (R, E), "to_pure_inequalities_single")
    eq(lib.rdcst1(c)[1:], (R0, E0), "operand")
    lib.freecst(q)
    lib.freecst(c)
    return any(E0)


# ------------------------------------------------------------------ Farkas
def g_farkas(rng):
    nv = rng.randint(1, 3)
    R, E = rsys(rng, nv + 1, rng.choice([2, 3, 4]), eqp=.2)
    # make a random point feasible: the polyhedron has to be non-empty
    pt = [rng.randint(-2, 2) for _ in range(nv)]
    for i, r in enumerate(R):
        v = ev(r, pt)
        if E[i]:
            r[-1] -= v
        elif v < 0:
            r[-1] -= v
            if rng.random() < .5:
                r[-1] += rng.randint(0, 3)
    nphi = rng.randint(1, 3)
    phi = [[rng.choice([0, 0, 1, 1, -1, 2, -1]) for _ in range(nphi + 1)] for _ in range(nv + 1)]
    if rng.random() < .5:
        # the plain template: one unknown per variable (and the constant)
        nphi = nv + 1
        phi = [[1 if i == j else 0 for j in range(nv + 1)] + [rng.choice([0, 0, -1])] for i in range(nv + 1)]
    pts = [[rng.randint(-3, 3) for _ in range(nphi)] for _ in range(25)]
    return dict(nv=nv, sys=[R, E], phi=phi, pts=pts)


def r_farkas(lib, d):
    R, E = d["sys"]
    nv = d["nv"]
    nphi = len(d["phi"][0]) - 1
    c = lib.cst(R, E, nv + 1)
    m = lib.mat(d["phi"], nphi + 1)
    f = lib.call("farkas_lemma_affine", "p:pp", c, m)
    nc, FR, FE = lib.rdcst1(f)
    eq(nc, nphi + 1, "columns of the Farkas system")
    dom = cons(R, E)
    got = cons(FR, FE)
    yes = 0
    for pt in d["pts"]:
        form = tuple(ev(row, pt) for row in d["phi"])
        want = entails(dom, (form, "ge"))
        yes += want
        if sat(got, pt) != want:
            raise Fail("farkas_lemma_affine: coefficients %r give the form %r which is %snon-negative on the domain, but the constraints say otherwise: %r" % (pt, form, "" if want else "not ", FR))
    eq(lib.rdcst1(c)[1:], (R, E), "domain")
    eq(lib.rdmat(m)[2], d["phi"], "phi")
    for x in (f, c):
        lib.freecst(x)
    lib.freemat(m)
    return yes not in (0, len(d["pts"]))


N = {"quick": 12000, "thorough": 300000}
CHECKS = [
    dict(name="pluto_constraints_simplify", gen=g_simp, run=r_simp, n={"quick": 16000, "thorough": 300000}, secs={"quick": 12, "thorough": 200}),
    dict(name="fourier_motzkin_eliminate", gen=g_elim_list, run=r_elim("fourier_motzkin_eliminate"), n=N, secs={"quick": 15, "thorough": 200}),
    dict(name="fourier_motzkin_eliminate_smart", gen=g_elim, run=r_elim("fourier_motzkin_eliminate_smart"), n=N, secs={"quick": 15, "thorough": 200}),
    dict(name="pluto_constraints_gaussian_eliminate", gen=lambda rng: (lambda d: d)(g_elim_eq(rng)), run=r_elim("pluto_constraints_gaussian_eliminate", True), n=N, secs={"quick": 15, "thorough": 200}),
    dict(name="elimination of several variables", gen=g_many, run=r_many, n={"quick": 8000, "thorough": 200000}, secs={"quick": 15, "thorough": 200}),
    dict(name="pluto_constraints_to_pure_inequalities_single", gen=g_pure, run=r_pure, n={"quick": 6000, "thorough": 100000}, secs={"quick": 8, "thorough": 100}),
    dict(name="farkas_lemma_affine", gen=g_farkas, run=r_farkas, n={"quick": 6000, "thorough": 100000}, secs={"quick": 15, "thorough": 200}),
]
BUDGET = {"quick": 100, "thorough": 1200, "deep": 240}


def g_elim_eq(rng):
    d = g_elim(rng)
    if not d["sys"][0][0]:
        d["sys"] = [[[rrow(rng, d["nc"])], [1]]]
    R, E = d["sys"][0]
    k = rng.randrange(len(R))
    E[k] = 1
    if R[k][d["pos"]] == 0:
        R[k][d["pos"]] = rng.choice([1, -1, 2, -3])
    return d
