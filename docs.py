#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (ids that checks.py has are claimed)"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
from checks import CHECKS

P = []
def prop(id, title, statement, over, q, why, files, mech, note, state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, note=note, state=state or [], na=na))

exec(open(os.path.join(HERE, 'properties_src.py')).read())

def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
            if p['state']:
                a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
            f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['q']), why_tests_cant=p['why'], anchors=a)) + '\n')
    checks, na = [], []
    for p in P:
        if p['id'] in CHECKS and not p['na']:
            checks.append(dict(property=p['id'], level='model_checking', technique='symbolic execution of the compiled LLVM IR of the real sources; every path condition and assertion over symbolic reals decided by z3/cvc5 (exact polynomial normal forms first); counterexamples replayed natively',
                level_note=p['note'], quick_cmd='python3-vt check.py %s' % p['id'], thorough_cmd='VERIF_TIER=thorough python3-vt check.py %s' % p['id']))
        else:
            na.append(dict(property=p['id'], reason=p['na'] or 'check not built yet'))
    m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
        notes='Solver-based checking of the real code: engine/ is a symbolic executor for the LLVM IR clang makes of /repo on each run; see DESIGN.md.')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
main()
