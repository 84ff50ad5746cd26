import z3,sys,os
from vdbg import *
env=load()
fn,line,sub=sys.argv[1],int(sys.argv[2]),sys.argv[3]
vf=vc.Verify(env,allspecs.specs(),fn); vf.verify()
for o in vf.obls:
    if o.line==line and sub in o.name:
        sp=vf.exit_split if o.kind=="post" else o.split
        for gi,g in enumerate(sp or [z3.BoolVal(True)]):
          for c,(cut,keep) in enumerate([(0,[])]+[x for x in reversed(vf.cuts) if x[0]<o.n][:int(os.environ.get("NC","4"))]):
            fs = vf.facts[:o.n] if not cut else vf.facts[:vf.nentry] + keep + vf.facts[cut:o.n]
            for opts in ({}, {"smt.relevancy":0},{"smt.case_split":3}):
                r,s=solve.prove(fs,z3.And(g,o.guard),o.goal,30000000,0,opts)
                st=s.statistics()
                print(gi,c,len(fs),opts,r,s.reason_unknown() if r!=z3.unsat else "", [ (k,st.get_key_value(k)) for k in st.keys() if k in('rlimit count','quant instantiations')]); sys.stdout.flush()
        break
