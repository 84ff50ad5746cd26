"""Debug driver: all obligations of one function in parallel: pdbg.py fn [wall seconds per obligation]"""
import multiprocessing
from vdbg import *
import z3
env = load()
fn = sys.argv[1]
wall = int(sys.argv[2]) if len(sys.argv) > 2 else 30
NW = int(os.environ.get("NW", "8"))
t0 = time.time()
vf = vc.Verify(env, allspecs.specs(), fn)
vf.verify()
print("vc: %.1fs, %d obligations, %d facts" % (time.time() - t0, len(vf.obls), len(vf.facts)))
sys.stdout.flush()


def work(ks):
    out = []
    for k in ks:
        o = vf.obls[k]
        if z3.is_true(o.goal):
            continue
        t = time.time()
        ok = None
        tries = [("full", vf.facts[:o.n], {})]
        if o.hs is not None:
            tries.append(("hint", [vf.facts[i] for i in vf.sticky if i < o.hs] + vf.facts[o.hs:o.n], {}))
        cs = solve.cuts_for(vf, o)
        for j, (cut, keep) in enumerate(cs + cs[:1]):
            tries.append(("cut%d" % j, solve.cut_facts(vf, cut, keep, o.n), solve.STRATS[(j + (len(cs) > 3)) % 2][1]))
        tries.sort(key=lambda x: len(x[1]))
        for nm, fs, op in tries:
            left = wall - (time.time() - t)
            if left < 1:
                break
            r, s = solve.prove(fs, o.guard, o.goal, solve.RLIMIT, 0, dict(op, timeout=int(left * 1000)))
            if r == z3.unsat:
                ok = nm
                break
        if not ok:
            for j, (seed, opts, m) in enumerate(solve.STRATS):
                left = wall - (time.time() - t)
                if left < 1:
                    break
                r, s = solve.prove(vf.facts[:o.n], o.guard, o.goal, solve.RLIMIT * m, seed, dict(opts, timeout=int(left * 1000)))
                if r == z3.unsat:
                    ok = "strat%d" % j
                    break
        split = vf.exit_split if o.kind == "post" else o.split
        if not ok and len(split) > 1:
            for g in split + [z3.Not(z3.Or(*split))]:
                for cut, keep in [(0, [])] + solve.cuts_for(vf, o):
                    r, s = solve.prove(solve.cut_facts(vf, cut, keep, o.n), z3.And(o.guard, g), o.goal, solve.RLIMIT, 0, dict(timeout=20000))
                    if r == z3.unsat:
                        break
                if r != z3.unsat:
                    print("   path fails:", o.line, o.name, split.index(g) if any(g is x for x in split) else "rest")
                    break
            else:
                ok = "paths"
        out.append((k, ok, time.time() - t))
    return out


idx = list(range(len(vf.obls)))
if len(sys.argv) > 3:
    idx = [k for k in idx if any(a in "%s: %s" % (vf.obls[k].line, vf.obls[k].name) for a in sys.argv[3:])]
ctx = multiprocessing.get_context("fork")
with ctx.Pool(NW) as p:
    rs = [x for l in p.imap_unordered(work, [[k] for k in idx]) for x in l]
rs.sort()
for k, ok, t in rs:
    if not ok or t > 8:
        o = vf.obls[k]
        print("%s %5.1fs line %s: [%s] %s" % (ok or "FAIL", t, o.line, o.kind, o.name))
print(sum(1 for x in rs if x[1]), "/", len(rs), "%.0fs" % (time.time() - t0))
