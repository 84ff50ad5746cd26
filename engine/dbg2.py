import z3
import sys
from vdbg import *
env=load()
fn,line,sub=sys.argv[1],int(sys.argv[2]),sys.argv[3]
vf=vc.Verify(env,allspecs.specs(),fn); vf.verify()
for o in vf.obls:
    if o.line==line and sub in o.name:
        for c,(cut,keep) in enumerate([(0,[])]+[x for x in reversed(vf.cuts) if x[0]<o.n][:4]):
            fs = vf.facts[:o.n] if not cut else vf.facts[:vf.nentry] + keep + vf.facts[cut:o.n]
            for opts in ({}, {"smt.relevancy":0},{"smt.arith.solver":2},{"smt.case_split":3}):
                r,s=solve.prove(fs,o.guard,o.goal,20000000,0,opts)
                st=s.statistics()
                print(c,len(fs),opts,r,s.reason_unknown() if r!=z3.unsat else "", [ (k,st.get_key_value(k)) for k in st.keys() if k in('rlimit count','quant instantiations')]); sys.stdout.flush()
        if len(sys.argv)>4: print(o.goal)
        break
