#!/usr/bin/env python3
"""Generates MANIFEST.json from the contracts that exist."""
import json, glob, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
have = sorted(set(re.match(r'(P\d+)', os.path.basename(f)).group(1) for f in glob.glob(V + '/contracts/P*.cpp')))
NA = json.load(open(V + '/tools/not_applicable.json'))
notes = json.load(open(V + '/tools/level_notes.json'))
LEVEL = {'P32': 'other', 'P10': 'other', 'P06': 'other', 'P28': 'other'}  # every contract has bounded sizes
checks = []
for p in props:
    i = p['id']
    if i in have:
        checks.append({'property': i, 'quick_cmd': 'python3-vt /verif/check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3-vt /verif/check.py %s --tier thorough' % i,
                       'technique': 'contract-based deductive verification: contracts on the real functions, compiled with them to LLVM IR on every run; verification conditions by symbolic execution over all inputs, discharged by a normal-form prover for real arithmetic with transcendental functions and by z3; callees under their own contract where listed',
                       'level': LEVEL.get(i, 'proof'), 'level_note': notes.get(i, 'doubles are treated as reals; assumptions and replaced callees are listed in the evidence')})
na = [{'property': p['id'], 'reason': NA.get(p['id'], 'not under contract yet')} for p in props if p['id'] not in have]
m = {'version': 1, 'setup_cmd': 'python3-vt -m compileall -q /verif/vf /verif/check.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', [x['property'] for x in na])
