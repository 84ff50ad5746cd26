import sys, z3
sys.argv=[sys.argv[0]]+sys.argv[1:]
from vdbg import *
env=load()
fn,line,sub=sys.argv[1],int(sys.argv[2]),sys.argv[3]
vf=vc.Verify(env,allspecs.specs(),fn).verify()
for o in vf.obls:
    if o.line==line and sub in o.name:
        for opts in ({}, {"smt.relevancy":0}, {"smt.relevancy":1},{"smt.arith.solver":2},{"smt.case_split":3},{"smt.case_split":0}, {"smt.qi.eager_threshold":100.0},{"smt.array.extensional":False}, {"smt.phase_selection":0}, {"smt.restart.max":10} if 0 else {}, {"smt.arith.nl":False},{"smt.ematching":True,"smt.mbqi":True}):
            r,s=solve.prove(vf.facts[:o.n],o.guard,o.goal,20000000,0,opts)
            st=s.statistics()
            print(o.name,opts,r,s.reason_unknown() if r!=z3.unsat else "", [ (k,st.get_key_value(k)) for k in st.keys() if k in('rlimit count','quant instantiations')])
        if len(sys.argv)>4:
            s=solve.mk()
            for f in vf.facts[:o.n]: s.add(f)
            s.add(o.guard); s.add(z3.Not(o.goal)); open('/tmp/o.smt2','w').write(s.to_smt2())
        print(o.goal)
