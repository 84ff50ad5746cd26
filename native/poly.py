"""Exact rational and integer reference reasoning on small polyhedra (the oracle of the executable contracts).

A constraint is (row, kind): row = coefficients then constant; kind 'ge', 'gt' or 'eq'."""
from fractions import Fraction
from math import gcd


class TooBig(Exception):
    pass


def norm(row):
    g = 0
    for x in row:
        g = gcd(g, abs(x))
    return tuple(x // g for x in row) if g > 1 else tuple(row)


def cons(rows, eqs):
    return [(tuple(r), "eq" if e else "ge") for r, e in zip(rows, eqs)]


def neg(row):
    return tuple(-x for x in row)


def drop(row, p):
    return row[:p] + row[p + 1:]


def tidy(cs):
    """Normalise; keep the tightest of parallel inequalities. None if contradictory."""
    best = {}
    eqs = set()
    for row, k in cs:
        row = tuple(row)
        if not any(row[:-1]):
            c = row[-1]
            if (k == "ge" and c < 0) or (k == "gt" and c <= 0) or (k == "eq" and c != 0):
                return None
            continue
        if k == "eq":
            row = norm(row)
            if next(x for x in row if x) < 0:
                row = neg(row)
            eqs.add(row)
            continue
        g = 0
        for x in row[:-1]:
            g = gcd(g, abs(x))
        d = tuple(x // g for x in row[:-1])
        v = (Fraction(row[-1], g), k == "ge")
        # smaller constant is tighter; strict is tighter at equal constants
        if d not in best or (v[0], v[1]) < (best[d][0], best[d][1]):
            best[d] = v
    out = [(r, "eq") for r in eqs]
    for d, (c, ge) in best.items():
        q = c.denominator
        out.append((tuple(x * q for x in d) + (c.numerator,), "ge" if ge else "gt"))
    return out


def elim(cs, p, limit=4000):
    """Project out coordinate p (rational shadow); cs tidy."""
    for row, k in cs:
        if k == "eq" and row[p]:
            out = []
            a = row[p]
            for r2, k2 in cs:
                if r2 is row and k2 == "eq":
                    continue
                b = r2[p]
                if b == 0:
                    out.append((drop(r2, p), k2))
                else:
                    m = abs(a)
                    s = b if a > 0 else -b
                    out.append((drop(tuple(m * x - s * y for x, y in zip(r2, row)), p), k2))
            return tidy(out)
    lo = [(r, k) for r, k in cs if r[p] > 0]
    up = [(r, k) for r, k in cs if r[p] < 0]
    out = [(drop(r, p), k) for r, k in cs if r[p] == 0]
    if len(lo) * len(up) > limit:
        raise TooBig()
    for r, k in lo:
        for r2, k2 in up:
            out.append((drop(tuple(-r2[p] * x + r[p] * y for x, y in zip(r, r2)), p), "gt" if "gt" in (k, k2) else "ge"))
    return tidy(out)


def empty(cs):
    cs = tidy(cs)
    while cs is not None:
        n = len(cs[0][0]) - 1 if cs else 0
        if not cs or n == 0:
            return False
        # cheapest variable first
        def cost(p):
            if any(k == "eq" and r[p] for r, k in cs):
                return -1
            return sum(1 for r, k in cs if r[p] > 0) * sum(1 for r, k in cs if r[p] < 0)
        cs = elim(cs, min(range(n), key=cost))
    return True


def entails(cs, c):
    row, k = c
    if k == "eq":
        return entails(cs, (row, "ge")) and entails(cs, (neg(row), "ge"))
    return empty(cs + [(neg(row), "gt" if k == "ge" else "ge")])


def same(a, b):
    """Same rational set."""
    if empty(a):
        return empty(b)
    if empty(b):
        return False
    return all(entails(a, c) for c in b) and all(entails(b, c) for c in a)


def project(cs, keep):
    """Rational projection on the coordinates in keep (in order)."""
    cs = tidy(cs)
    if cs is None:
        return None
    if not cs:
        return []
    n = len(cs[0][0]) - 1
    for p in sorted(set(range(n)) - set(keep), reverse=True):
        cs = elim(cs, p)
        if cs is None:
            return None
        if not cs:
            return []
    return cs


def contra(n):
    return [((0,) * n + (-1,), "ge")]


def sat(cs, pt):
    pt = tuple(pt) + (1,)
    for row, k in cs:
        v = sum(x * y for x, y in zip(row, pt))
        if (k == "eq" and v != 0) or (k == "ge" and v < 0) or (k == "gt" and v <= 0):
            return False
    return True


def ev(row, pt):
    return sum(x * y for x, y in zip(row, tuple(pt) + (1,)))


def points(n, lo, hi):
    if n == 0:
        yield ()
        return
    for p in points(n - 1, lo, hi):
        for v in range(lo, hi + 1):
            yield p + (v,)
