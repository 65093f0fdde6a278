#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below"""
import json,subprocess,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
N=json.load(open(V+'/tools/checks.json'))
checks=[]
for p in props:
    i=p['id']
    if i not in N: continue
    t,note=N[i]
    checks.append(dict(property=i,quick_cmd=f'./check.sh {i} quick',thorough_cmd=f'./check.sh {i} thorough',technique=t,level='exploration',level_note=note))
na=[dict(property=p['id'],reason='its check is not built yet') for p in props if p['id'] not in N]
m=dict(version=1,setup_cmd='./build.sh all',
 hooks=dict(guard='cfg(anothertls_verif)',enable='RUSTFLAGS="--cfg anothertls_verif" (see build.sh)',source_commits=['710dbb8']),
 checks=checks,not_applicable=na)
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1);open(V+'/MANIFEST.json','a').write('\n')
