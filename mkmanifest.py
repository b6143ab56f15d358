#!/usr/bin/env python3-vt
"""Write MANIFEST.json from claims.py and properties.jsonl."""
import json, os
import claims
ROOT = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    c = claims.CLAIMS.get(i)
    if not c:
        na.append({'property': i, 'reason': claims.NA.get(i, 'not claimed: no contract within reach of the verifier has been discharged for it')})
        continue
    nf = sum(len(f) for _, f in c['proof'])
    tech = 'contracts on the real C functions, verification conditions discharged by SMT (deductive verification)'
    if c.get('conc'): tech += '; bounded comparison with a reference model stands in where a function is not under contract, and replays failed obligations'
    note = c['explanation'] + ' Assumes: see evidence assumptions and trusted_base; C is read from the current sources through gcc -E and pycparser.'
    d = {'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'python3-vt check.py %s --thorough' % i, 'technique': tech, 'level': c['level'], 'level_note': note}
    checks.append(d)
m = {'version': 1, 'setup_cmd': 'python3-vt cv/selftest.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: contracts live in specs/*.spec and are bound to the functions of the current source on every run.'}
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
