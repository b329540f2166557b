#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the contracts present in spec/."""
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
have = {}
for f in sorted(glob.glob(root + '/spec/gvspec_*.go')):
    doc = []
    for line in open(f):
        if line.startswith('//'):
            doc.append(line); continue
        m = re.match(r'func (Prove_(C\d+)_\w+)', line)
        if m:
            fl = ' '.join(doc)
            if 'gv:off' not in fl and not re.search(r'off=1', fl):
                b = re.search(r'bounded=(\S+)', fl)
                ids = [m.group(2)] + [x for a in re.findall(r'also=(\S+)', fl) for x in a.split(',')]
                for i in ids:
                    have.setdefault(i, []).append((m.group(1), b.group(1) if b else None))
        doc = []
checks, na = [], []
for p in props:
    i = p['id']
    hs = have.get(i, [])
    if not hs:
        na.append({'property': i, 'reason': NA.get(i, 'no contract yet') if 'NA' in globals() else 'no contract yet'})
        continue
    proved = [h for h, b in hs if not b]
    bounded = [(h, b) for h, b in hs if b]
    note = 'Contracts on the real code, every obligation discharged from the current source for all inputs: ' + ', '.join(proved) + '. ' if proved else ''
    if bounded:
        note += 'Bounded stand-ins (never counted as proved; loops unrolled up to the stated bound, all values symbolic): ' + ', '.join(f'{h} ({b})' for h, b in bounded) + '. '
    note += 'Assumes exact real arithmetic, mathematical integers, and trusted models of gonum and the standard library; trusts the verifier /verif/gv, go/ssa, z3 and cvc5. A random cross-check on the real code (bounded) supplies failing inputs.'
    checks.append({
        'property': i, 'quick_cmd': f'./check.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {i}',
        'technique': 'contract-based deductive verification of the Go SSA of the real code (weakest-precondition style VC generation, SMT and ring normalisation)',
        'level': 'proof' if proved else 'other', 'level_note': note})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: contracts live in /verif/spec and are overlaid when the package is loaded.'},
          open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
