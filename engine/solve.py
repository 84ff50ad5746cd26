"""Discharges verification conditions with z3 (E-matching, no MBQI), one function per worker."""
import multiprocessing
import os
import time
import traceback
import z3
from llir import Module, Unsupported
import vc

RLIMIT = int(os.environ.get("VERIF_RLIMIT", "6000000"))
RLIMIT2 = 40000000


STRATS = ((0, {"smt.relevancy": 0}, 1), (0, {}, 1), (1, {}, 1), (2, {}, 1), (7, {"smt.relevancy": 0, "smt.case_split": 3}, 2), (13, {"smt.qi.eager_threshold": 100.0, "smt.case_split": 3}, 2),
          (3, {"smt.relevancy": 0, "smt.arith.solver": 2}, 2), (0, {"smt.array.extensional": True}, 1))


def mk():
    s = z3.SimpleSolver()
    s.set("auto_config", False)
    s.set("smt.mbqi", False)
    s.set("smt.array.extensional", False)
    s.set("smt.arith.solver", 2) if os.environ.get("VERIF_ARITH2") else None
    return s


def prove(facts, guard, goal, rlimit, seed=0, opts=None):
    s = mk()
    s.set("rlimit", rlimit)
    if seed:
        s.set("smt.random_seed", seed)
    for k, v in (opts or {}).items():
        s.set(k, v)
    for f in facts:
        s.add(f)
    s.add(guard)
    s.add(z3.Not(goal))
    r = s.check()
    return r, s


def cut_facts(vf, cut, keep, n):
    if not cut:
        return vf.facts[:n]
    return vf.facts[:vf.nentry] + keep + [vf.facts[i] for i in sorted(vf.sticky + vf.gdefs) if i < cut and vf.sticky] + vf.facts[cut:n]


def cuts_for(vf, o):
    """Places before which what was known may be forgotten (loop invariants carry what is needed)."""
    cs = [x for x in reversed(vf.cuts) if x[0] < o.n][:3]
    top = getattr(o, "top", None)
    if top is not None and all(x is not top for x in cs):
        cs = [top] + cs
    return cs


def discharge(vf, rlimit=None, part=(0, 1)):
    """Returns list of dicts per obligation (every part[1]-th from part[0] on)."""
    out = []
    rl = rlimit or RLIMIT
    inc = mk()
    inc.set("rlimit", rl)
    n = 0
    for o in vf.obls[part[0]::part[1]]:
        t = time.time()
        while n < o.n:
            inc.add(vf.facts[n])
            n += 1
        if z3.is_true(o.goal):
            out.append(dict(name=o.name, kind=o.kind, line=o.line, status="proved", how="simplify", time=0.0))
            continue
        r = z3.unknown
        how = "z3/hint"
        if o.hs is not None and o.n > 600:
            r, s = prove([vf.facts[i] for i in vf.sticky if i < o.hs] + vf.facts[o.hs:o.n], o.guard, o.goal, rl // 4)
        if r != z3.unsat:
            inc.push()
            inc.add(o.guard)
            inc.add(z3.Not(o.goal))
            r = inc.check()
            inc.pop()
            how = "z3"
        if r != z3.unsat and o.hs is not None:
            r, s = prove([vf.facts[i] for i in vf.sticky if i < o.hs] + vf.facts[o.hs:o.n], o.guard, o.goal, rl)
            how = "z3/hint"
        if r != z3.unsat:
            # forget what was known before an earlier loop (its invariants carry what is needed)
            cs = cuts_for(vf, o)
            for k, (cut, keep) in enumerate(cs + cs[:1]):
                r, s = prove(cut_facts(vf, cut, keep, o.n), o.guard, o.goal, rl, 0, STRATS[(k + (len(cs) > 3)) % 2][1])
                how = "z3/cut%d" % k
                if r == z3.unsat:
                    break
        if r != z3.unsat:
            for k, (seed, opts, m) in enumerate(STRATS):
                r, s = prove(vf.facts[:o.n], o.guard, o.goal, rl * m, seed, opts)
                how = "z3#%d" % k
                if r == z3.unsat:
                    break
        split = vf.exit_split if o.kind == "post" else o.split
        if r != z3.unsat and len(split) > 1:
            # one way in at a time
            how = "z3/paths"
            for g in split + [z3.Not(z3.Or(*split))]:
                for cut, keep in [(0, [])] + cuts_for(vf, o):
                    fs = cut_facts(vf, cut, keep, o.n)
                    r, s = prove(fs, z3.And(o.guard, g), o.goal, rl, 0, {})
                    if r == z3.unsat:
                        break
                if r != z3.unsat:
                    break
        out.append(dict(name=o.name, kind=o.kind, line=o.line, status="proved" if r == z3.unsat else "failed", how=how,
                        time=round(time.time() - t, 3), reason="" if r == z3.unsat else str(r)))
    return out


def vacuity(vf, rlimit=300000, part=(0, 1)):
    """Cover points whose facts are (provably) contradictory."""
    bad = []
    for g, n, lbl in vf.cover[part[0]::part[1]]:
        r, s = prove(vf.facts[:n], g, z3.BoolVal(False), rlimit)
        if r == z3.unsat:
            bad.append(lbl)
    return bad


def merge_parts(rs):
    """One result from the slices of a function's obligations."""
    if len(rs) == 1:
        return rs[0]
    out = dict(rs[0])
    out["obls"] = [o for r in rs for o in r["obls"]]
    out["time"] = round(sum(r["time"] for r in rs), 2)
    out["vacuous"] = [x for r in rs for x in r.get("vacuous", [])]
    st = [r["status"] for r in rs]
    for x in ("timeout", "nofit", "failed", "vacuous"):
        if x in st:
            out["status"] = x
            out["err"] = "; ".join(r["err"] for r in rs if r["status"] == x)[:1500]
            return out
    return out


def verify_one(env, specs, name, rlimit=None, part=(0, 1)):
    t = time.time()
    res = dict(fn=name, status="", obls=[], time=0.0, used=[], inlined=[], err="")
    try:
        vc._n[0] = 0
        vf = vc.Verify(env, specs, name)
        vf.verify()
        res["skeleton"] = vf.skeleton
        res["obls"] = discharge(vf, rlimit, part)
        res["used"] = sorted(vf.used_contracts)
        res["inlined"] = sorted(vf.inlined)
        res["nfacts"] = len(vf.facts)
        bad = [o for o in res["obls"] if o["status"] != "proved"]
        res["status"] = "failed" if bad else "proved"
        if not bad:
            v = vacuity(vf, part=part)
            res["vacuous"] = v
            v2 = [x for x in v if x not in getattr(specs[name], "dead_ok", ())]
            if v2:
                res["status"] = "vacuous"
                res["err"] = "contradictory facts at: " + ", ".join(v2)
    except (Unsupported, vc.NoFit, KeyError) as e:
        res["status"] = "nofit"
        res["err"] = "%s: %s" % (type(e).__name__, e)
    except Exception as e:
        res["status"] = "nofit"
        res["err"] = traceback.format_exc()[-1500:]
    res["time"] = round(time.time() - t, 2)
    return res
