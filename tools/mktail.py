import json,os
rows=[]
for d in sorted(os.listdir('/verif/seeded')):
    if not os.path.isdir('/verif/seeded/'+d): continue
    m=json.load(open('/verif/seeded/%s/meta.json'%d)); rows.append("| %s | %s | %s |"%(d,m["property"],m["what_it_breaks"].replace("|","/").replace("\n"," ")[:160]))
t='''## Findings
`known-findings.jsonl` lists every genuine defect found; all were repaired by small `fix:` commits in /repo (the file names
the commit and what failed), so no check prints a KNOWN-FINDING line at present.  The last ones to go were found by
widening C13's native search (several statements with diamond tiling, per-component objectives, two parameters).

## Planted faults
Seeded faults live in `seeded/` (not read by any check).  `tools/mutate.py` plants random small faults in named
functions and runs the property's check on each; survivors were used to strengthen the checks or found to be equivalent.
Each of the following is caught by the check of its own property (a failing input, or a failed obligation of a proved function).

| planted fault | caught by | what it breaks |
| --- | --- | --- |
'''+"\n".join(rows)+"\n"
open('/verif/tools/design_tail.md','w').write(t)
