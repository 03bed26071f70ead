#!/usr/bin/env python3
import sys, os, json, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from props import T, NA
from registry import PROPS
with open(V + '/properties.jsonl', 'w') as f:
    for pid in sorted(T):
        t = T[pid]; assert len(t['title']) <= 80, pid
        d = dict(id=pid, title=t['title'], statement=t['statement'], quantifier=dict(over=t['over'], text=t['quant']), why_tests_cant=t['why'],
                 anchors=dict(files=t['files'], mechanism=[dict(name=a, where=b) for a, b in t['mech']]))
        f.write(json.dumps(d) + '\n')
checks = []
for pid in sorted(T):
    if pid in NA: continue
    assert pid in PROPS, pid
    checks.append(dict(property=pid, quick_cmd='python3 check.py %s --tier quick' % pid, thorough_cmd='python3 check.py %s --tier thorough' % pid, evidence_file='evidence/%s.json' % pid,
        technique='symbolic execution of the LLVM IR of the real sources (engine/kse), every assertion decided by z3 over all inputs within the bounds; counterexamples replayed natively',
        level='model_checking', level_note=T[pid]['note']))
assert set(NA) <= set(T)
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks,
    not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())],
    notes='No hooks are needed: harnesses call the public API. See DESIGN.md; known findings in known_findings.txt.'), open(V + '/MANIFEST.json', 'w'), indent=1)
