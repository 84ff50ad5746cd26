"""Which conjuncts of a quantified goal fail: dbg6.py fn line label-part"""
import z3,sys
from vdbg import *
env=load()
fn,line,sub=sys.argv[1],int(sys.argv[2]),sys.argv[3]
vf=vc.Verify(env,allspecs.specs(),fn); vf.verify()
def split(g):
    if z3.is_quantifier(g) and g.is_forall():
        vs=[z3.Const("sk!%d"%k,g.var_sort(k)) for k in range(g.num_vars())]
        return split(z3.substitute_vars(g.body(),*reversed(vs)))
    if z3.is_and(g): return [x for c in g.children() for x in split(c)]
    if z3.is_implies(g): return [z3.Implies(g.arg(0),x) for x in split(g.arg(1))]
    return [g]
for o in vf.obls:
    if o.line==line and sub in o.name:
        for x in split(o.goal):
            r,s=solve.prove(vf.facts[:o.n],o.guard,x,4000000)
            if r!=z3.unsat: print(r, s.reason_unknown(), str(x)[:1500])
        break
