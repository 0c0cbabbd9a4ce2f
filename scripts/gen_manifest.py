#!/usr/bin/env python3
# writes MANIFEST.json: a check per property that has a specification, the rest not applicable
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
claims = {}
for f in sorted(glob.glob(root + '/specs/*/*.go')):
    t = open(f).read()
    m = re.search(r'^//verif:property (.*)$', t, re.M)
    if not m: continue
    lvl = re.search(r'^//verif:level (\w+)', t, re.M)
    notes = re.findall(r'^//verif:note (.*)$', t, re.M)
    off = re.search(r'^//verif:unclaimed', t, re.M)
    if off: continue
    for p in m.group(1).split():
        c = claims.setdefault(p, {'level': 'proof', 'notes': []})
        if lvl: c['level'] = lvl.group(1)
        c['notes'] += notes
reasons = json.load(open(root + '/scripts/not_applicable.json'))
checks, na = [], []
base = ('Obligations are generated from the SSA of /repo at every run and discharged by SMT for all inputs; '
        'trusted: x/tools SSA, the symbolic executor in tool/, the solvers, the modelled library functions listed in the evidence. ')
for p in props:
    i = p['id']
    if i in claims:
        c = claims[i]
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i}', 'thorough_cmd': f'./check.sh {i} thorough',
            'technique': 'contract-based deductive verification: executable contracts on the real Go functions, verification conditions from go/ssa, SMT (z3, cvc5)',
            'level': c['level'], 'level_note': base + ' '.join(c['notes'])})
    else:
        na.append({'property': i, 'reason': reasons.get(i, 'no check has been built for this property yet')})
json.dump({'version': 1, 'setup_cmd': 'bash ./setup.sh', 'checks': checks, 'not_applicable': na}, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
