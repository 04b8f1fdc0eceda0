#!/usr/bin/env python3
import json
from props import P, COMMON
with open('properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=None))) + '\n')
m = dict(version=1, setup_cmd="python3-vt -c 'import z3'", checks=[], not_applicable=[],
         notes='No hooks in /repo. Every check re-extracts LLVM IR from /repo/Source on each run; see DESIGN.md.')
for p in P:
    if p['claimed']:
        m['checks'].append(dict(property=p['id'], quick_cmd='python3-vt check.py %s' % p['id'], thorough_cmd='python3-vt check.py %s thorough' % p['id'],
            technique='contract-based deductive verification: VCs from the LLVM IR of the real functions, discharged by z3/cvc5', level=p['level'], level_note=COMMON + (p['note'] or '')))
    else:
        m['not_applicable'].append(dict(property=p['id'], reason=p['reason']))
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
