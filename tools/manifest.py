#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl: a property is claimed when it has units (vc/units) and a driver."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
NOTES = {}
for l in open(f'{V}/tools/notes.txt'):
    if ':' in l: k, v = l.split(':', 1); NOTES[k.strip()] = v.strip()
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{V}/vc/units/{i.lower()}.py') and os.path.exists(f'{V}/drivers/{i.lower()}.cpp'):
        checks.append(dict(property=i, quick_cmd=f'python3-vt vc/run.py {i}', thorough_cmd=f'python3-vt vc/run.py {i} --thorough',
            technique='contract-based deductive verification of the C++ source: verification conditions generated from clang\'s AST of /repo on every run, discharged by z3; failed obligations replayed on the compiled code',
            level='proof', level_note=NOTES.get('*', '') + ' ' + NOTES.get(i, '')))
    else: na.append(dict(property=i, reason='not claimed yet: the contracts for this property are still being written'))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3" && clang++ --version >/dev/null', checks=checks, not_applicable=na,
    notes='No hooks in /repo. Findings: KNOWN_FINDINGS.txt (all repaired by fix: commits).'), open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not claimed')
