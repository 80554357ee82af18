#!/usr/bin/env python3
# Writes MANIFEST.json from bin/config.json and properties.jsonl.
import json
V='/verif'
cfg=json.load(open(f'{V}/bin/config.json'))
props=[json.loads(l) for l in open(f'{V}/properties.jsonl')]
NA={}
checks=[];na=[]
for p in props:
    i=p['id']
    if i in cfg:
        c=cfg[i]
        checks.append(dict(property=i,quick_cmd=f'python3 bin/check.py {i}',thorough_cmd=f'VERIF_TIER=thorough python3 bin/check.py {i}',evidence_file=f'evidence/{i}.json',
          technique='contract-based deductive verification (Verus) of functions extracted from /repo on every run; failing inputs searched with an independent oracle',
          level=c.get('level','proof'),level_note=c.get('note','Every obligation generated from the current source of the functions in units '+', '.join(c['units'])+' is discharged by Verus/Z3 for all inputs, relative to the trusted helpers and extraction rewrites listed in the evidence.')))
    else: na.append(dict(property=i,reason=NA.get(i,'not built yet')))
m=dict(version=1,setup_cmd='bash bin/setup.sh',checks=checks,not_applicable=na)
json.dump(m,open(f'{V}/MANIFEST.json','w'),indent=1)
print(len(checks),len(na))
