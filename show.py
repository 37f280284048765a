#!/usr/bin/env python3
"""show.py PID: print the last evidence of a check, compactly"""
import json,sys
e=json.load(open('/verif/evidence/%s.json'%sys.argv[1])); c=e['coverage']
for n,p in c.get('cases',{}).items():
    print('==',n,'complete' if p['complete'] else 'INCOMPLETE','paths',p['paths'],'maxdec',p['max_decisions_on_a_path'],'pending',p['unexplored_prefixes'],'s',p['seconds'],p['ends'],'reach',p['reached'])
    for k in ('missing_witness','unsupported','unknown'):
        if p[k]: print('    ',k,json.dumps(p[k])[:3000])
    for l,d in p['obligations'].items(): print('    ',d,l)
for k in ('witness_disagreements','violations_not_reproduced'):
    if c.get(k): print(k, json.dumps(c[k])[:2500])
