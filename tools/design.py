"""Writes DESIGN.md: tools/design_head.md, then tables made from known-findings.json, seeded/ and props."""
import json,os,sys
V='/verif'
out=open(V+'/tools/design_head.md').read()
d=json.load(open(V+'/known-findings.json'))
L=[x for k in d if isinstance(d[k],list) for x in d[k]]
out+='\n## Genuine defects found\n\nRepaired in /repo ("fix:" commits; the check reports them again if they return):\n\n'
for x in L:
    if x['status']=='fixed': out+=f"* {x['property']} `{x.get('commit')}` — {x['what']}\n"
k=[x for x in L if x['status']!='fixed']
out+='\nRecorded, not repaired (printed as KNOWN-FINDING, keyed to the construct that fails):\n\n'
out+=''.join(f"* {x['property']} `{x['key']}` — {x['what']}\n" for x in k) or '* none\n'
out+='\n'+open(V+'/tools/design_tail.md').read()
out+='\n## Planted bugs\n\nEach is in `seeded/<id>` with a demonstration. "Caught by" is the result of the last run of\n`tools/seed.py`.\n\n| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n'
for i in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{i}/meta.json'))
    out+=f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])} |\n"
open(V+'/DESIGN.md','w').write(out)
