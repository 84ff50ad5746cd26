"""Random small programs with bounded dependence polytopes, and their brute-force semantics."""
import itertools
from progs import *
from nat import SMALL

RAWT = [0, 0, 0, 1, 2, 3]


def box(nc, los, his):
    """rows for lo <= x_k <= hi"""
    R = []
    for k, (a, b) in enumerate(zip(los, his)):
        r = [0] * nc
        r[k], r[-1] = 1, -a
        R.append(r)
        r = [0] * nc
        r[k], r[-1] = -1, b
        R.append(r)
    return R


def val(row, x):
    return sum(a * b for a, b in zip(row, x)) + row[-1]


def holds(rows, eqs, x):
    return all((val(r, x) == 0) if e else (val(r, x) >= 0) for r, e in zip(rows, eqs))


def pts(rows, eqs, los, his):
    return [x for x in itertools.product(*[range(a, b + 1) for a, b in zip(los, his)]) if holds(rows, eqs, x)]


def g_prog(rng, nstmts=None, maxdim=2, nh=None, mindeps=0, maxdeps=4, coefs=(0, 0, 0, 1, 1, -1, 2), legalish=False, scal=0.3, types=RAWT, nvar=None, npar=None):
    npar = rng.choice([0, 0, 0, 1, 1, 2]) if npar is None else npar
    n = nstmts or rng.choice([1, 1, 2, 2, 3])
    nh = rng.randint(1, 3) if nh is None else nh
    stmts = []
    kinds = [H_SCALAR if rng.random() < scal else H_LOOP for _ in range(nh)]
    for k in range(n):
        dim = rng.randint(0 if n > 1 else 1, maxdim)
        real = dim
        if nvar is not None:              # normalised: every statement has nvar dimensions, the padded ones fixed at 0
            real, dim = min(dim, nvar), nvar
        nc = dim + npar + 1
        los = [0] * dim + [1] * npar
        his = [rng.randint(0, 2) if q < real else 0 for q in range(dim)] + [3] * npar
        R = box(nc, los, his)
        T, H = [], []
        for l in range(nh):
            row = [0] * nc
            if kinds[l] == H_LOOP:
                for j in range(real):
                    row[j] = rng.choice(coefs)
                for j in range(dim, dim + npar):
                    row[j] = rng.choice([0, 0, 0, 1, -1])
            row[-1] = rng.choice([0, 0, 0, 1, 2, -1])
            T.append(row)
            H.append(H_LOOP if any(row[:dim]) else H_SCALAR)
        stmts.append(dict(dim=dim, dom=[R, [0] * len(R)], trans=T, hyp=H, orig=[int(q < real) for q in range(dim)], dim_orig=real, los=los, his=his))
    deps = []
    for k in range(rng.randint(mindeps, maxdeps)):
        s, d = rng.randrange(n), rng.randrange(n)
        S, D = stmts[s], stmts[d]
        ds, dd = S["dim"], D["dim"]
        nc = ds + dd + npar + 1
        los = [0] * (ds + dd) + [1] * npar
        his = S["his"][:ds] + D["his"][:dd] + [3] * npar
        R = box(nc, los, his)
        E = [0] * len(R)
        for _ in range(rng.randint(0, 2)):
            row = [0] * nc
            if rng.random() < 0.6 and ds and dd:          # uniform-ish: dest = src + c
                q = rng.randrange(min(ds, dd))
                row[q], row[ds + q], row[-1] = 1, -1, rng.choice([0, 1, 1, -1])
                R.append(row)
                E.append(rng.choice([1, 1, 0]))
            else:
                for j in range(nc - 1):
                    row[j] = rng.choice([0, 0, 1, -1])
                row[-1] = rng.choice([0, 1, -1, 2])
                R.append(row)
                E.append(rng.choice([0, 0, 1]))
        deps.append(dict(src=s, dest=d, type=rng.choice(types), poly=[R, E], nc=nc, los=los, his=his, satisfied=rng.randint(0, 1), level=rng.randint(-1, nh - 1)))
    return dict(npar=npar, stmts=stmts, deps=deps, hprops=kinds)


def instances(P, d):
    """(source iteration, target iteration, parameters) of every instance."""
    ds, dd = P["stmts"][d["src"]]["dim"], P["stmts"][d["dest"]]["dim"]
    for x in pts(d["poly"][0], d["poly"][1], d["los"], d["his"]):
        yield x[:ds], x[ds:ds + dd], x[ds + dd:]


def sched(S, l, it, par):
    return val(S["trans"][l], tuple(it) + tuple(par))


def diffs(P, d, l):
    S, D = P["stmts"][d["src"]], P["stmts"][d["dest"]]
    return [sched(D, l, t, p) - sched(S, l, s, p) for s, t, p in instances(P, d)]


def direction(v):
    pos, neg = any(x > 0 for x in v), any(x < 0 for x in v)
    return "*" if pos and neg else "+" if pos else "-" if neg else "0"


def rddeps(lib, prog, nh):
    out = []
    n = lib.get("plutoProg", "ndeps", prog)
    for p in lib.ptrs(lib.get("plutoProg", "deps", prog), n):
        q = lambda f: lib.get("dependence", f, p)
        out.append(dict(satisfied=int(bool(q("satisfied"))), level=q("satisfaction_level"),
                        satvec=lib.i32s(q("satvec"), nh) if q("satvec") else None, dirvec="".join(chr(x) for x in lib.i32s(q("dirvec"), nh)) if q("dirvec") else None))
    return out
