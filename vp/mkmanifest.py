import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
ids = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in PROPS: continue
    P = PROPS[i]
    tech = P.get('technique') or ('Kani contract harness over the full input domain (CBMC)' if P.get('kani') and not P['units'] else 'Verus contracts on the extracted source (deductive, Z3)')
    checks.append({'property': i, 'quick_cmd': 'VERIF_TIER=quick python3 vp/check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 vp/check.py ' + i,
        'evidence_file': 'evidence/%s.json' % i, 'technique': tech, 'level': P['level'], 'level_note': P['note']})
na = [{'property': i, 'reason': NA.get(i, 'no deductive check built yet')} for i in ids if i not in PROPS]
m = {'version': 1, 'setup_cmd': 'python3 vp/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: contracts live in /verif/proofs and are attached to functions extracted mechanically from /repo on every run (vp/tmpl.py). known findings: known_findings.txt'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
