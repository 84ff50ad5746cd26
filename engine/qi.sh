timeout 100 python3-vt dbg3.py "$@"; (timeout 100 z3-new rlimit=${RL:-8000000} /tmp/o.smt2 > /tmp/qi.txt 2>&1) ; grep -v quant /tmp/qi.txt | tail -1; python3 - <<'P'
import json,re
Q=json.load(open('/tmp/q.json')); R=[]
for l in open('/tmp/qi.txt'):
    m=re.search(r'\] +(\S+) +: +(\d+)',l)
    if m: R.append((int(m.group(2)),m.group(1)))
for n,q in sorted(R)[-14:]: print(n,q,Q.get(q))
P
