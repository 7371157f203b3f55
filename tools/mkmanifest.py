#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
TECH = 'contract-based deductive verification of the real C++ (verification conditions generated from the clang AST of /repo, discharged by z3)'
BND = ' All obligations are regenerated from the current source on every run; a bounded random replay against the real code runs besides, labelled bounded and never counted as proved.'
from importlib.util import spec_from_file_location, module_from_spec
sp = spec_from_file_location('notes', H + '/tools/notes.py'); N = module_from_spec(sp); sp.loader.exec_module(N)
checks = []
for i in ids:
    if i in N.NA: continue
    lv, note = N.NOTES[i]
    checks.append(dict(property=i, quick_cmd='./check.py %s quick' % i, thorough_cmd='./check.py %s thorough' % i, evidence_file='evidence/%s.json' % i, technique=TECH, level=lv, level_note=note + BND))
m = dict(version=1, setup_cmd='./check.py --setup', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in N.NA.items()],
         notes='No hooks in /repo. Genuine defects were repaired in "fix:" commits, listed in KNOWN_FINDINGS.txt.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks))
