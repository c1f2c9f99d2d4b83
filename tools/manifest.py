"""Writes MANIFEST.json from properties.jsonl and the contracts."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '../engine'))
import check, contracts
R = check.ROOT
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
base = check.baseline().get('tasks', {})
checks = []; na = []
for q in props:
    i = q['id']; own = [t for t in contracts.tasks() if i in t.props]
    pr = [t for t in own if base.get(t.name, {}).get('status') == 'proved']
    b = contracts.BOUNDED.get(i, [])
    if not pr:
        na.append(dict(property=i, reason='no function of this property is under a discharged contract yet')); continue
    op = [t.name for t in own if t not in pr]
    note = 'Contracts proved for all inputs on every run: ' + ', '.join(t.name.replace('ystring::', '').replace('<char const*>', '') for t in pr) + ', and the contracts they rely on.'
    if b or op: note += ' Bounded only (executable oracle under sanitizers, not proof): ' + ', '.join(list(b) + op) + '.'
    note += ' Trusted: models of the standard library operations that are not executed, clang -O0 IR as the meaning of the source, the obligation generator, z3; views below 2^32 bytes.'
    checks.append(dict(property=i, quick_cmd='python3-vt engine/check.py ' + i, thorough_cmd='python3-vt engine/check.py ' + i, evidence_file='evidence/%s.json' % i,
        technique='contract-based deductive verification of the compiled code (function contracts, inferred loop invariants, SMT), with an executable oracle to find failing inputs', level='proof', level_note=note))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na, notes='One engine: engine/check.py. Tier through VERIF_TIER. No hooks in /repo.'), open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
