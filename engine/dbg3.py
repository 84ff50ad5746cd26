import z3,sys,os
from vdbg import *
import traceback
Q={}
def forall(vs, body, pats=None):
    st=traceback.extract_stack(limit=5)[:-1]
    nm="|".join("%s:%d"%(os.path.basename(f.filename),f.lineno) for f in st[-3:])
    k="q%d"%len(Q); Q[k]=nm
    kw=dict(patterns=[z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p for p in pats]) if pats else {}
    return z3.ForAll(vs, body, qid=k, **kw)
vc.forall=forall
import base
for m in list(sys.modules.values()):
    if getattr(m,'forall',None) is not None and m.__name__ in('base','matrix','cons','ddg','stmts','deps','linalg','vc'): m.forall=forall
z3.set_param('smt.qi.profile',True); z3.set_param('smt.qi.profile_freq',3000)
env=load()
fn,line,sub=sys.argv[1],int(sys.argv[2]),sys.argv[3]
vf=vc.Verify(env,allspecs.specs(),fn); vf.verify()
for o in vf.obls:
    if o.line==line and sub in o.name:
        s=solve.mk()
        for f in vf.facts[:o.n]: s.add(f)
        s.add(o.guard); s.add(z3.Not(o.goal)); t=s.to_smt2()
        open('/tmp/o.smt2','w').write("(set-option :smt.auto_config false)(set-option :smt.mbqi false)(set-option :smt.qi.profile true)\n"+t)
        break
import json; json.dump(Q,open('/tmp/q.json','w'))
