"""Fills the generated sections of DESIGN.md from DESIGN.in.md."""
import json,glob,os
P=[json.loads(l) for l in open('/verif/properties.jsonl')]
M={c['property']:c for c in json.load(open('/verif/MANIFEST.json'))['checks']}
N={c['property']:c for c in json.load(open('/verif/MANIFEST.json'))['not_applicable']}
D=json.load(open('/verif/tools/design_notes.json'))
s=''
for p in P:
    s+=f"\n### {p['id']} {p['title']}\n\n"
    if p['id'] in N: s+='Not applicable: '+N[p['id']]['reason']+'\n'; continue
    s+=D[p['id']].strip()+'\n'
s+='\n'
f=''.join(f"* {k['property']} {k['commit']}: {k['what']}\n" for k in json.load(open('/verif/known_findings.json')) if k['status']=='fixed')
kn=''.join(f"* {k['property']}: {k['what']}\n" for k in json.load(open('/verif/known_findings.json')) if k['status']=='known')
if kn: f+='\nRecorded, not repaired:\n'+kn
R=json.load(open('/verif/tools/seed_results.json')) if os.path.exists('/verif/tools/seed_results.json') else {}
t='\n| bug | property | needs | caught by |\n|---|---|---|---|\n'
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    i=m.split('/')[-2]; d=json.load(open(m))
    t+=f"| {i} | {d['property']} | {d['needs']} | {R.get(i,'?')} |\n"
o=open('/verif/DESIGN.in.md').read().replace('@@PROPS@@',s).replace('@@FIXES@@',f+'\n').replace('@@SEEDS@@',t+'\n')
open('/verif/DESIGN.md','w').write(o)
