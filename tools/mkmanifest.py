"""Write MANIFEST.json"""
import json
import sys
sys.path.insert(0, '/verif')
from contracts import registry
P = [json.loads(l) for l in open('/verif/properties.jsonl')]
ids = [p['id'] for p in P]
claimed = [i for i in ids if any(i in v for v in registry.PROPS.values())]
checks = []
for i in claimed:
    checks.append({
        'property': i,
        'quick_cmd': 'VERIF_TIER=quick python3-vt check.py %s' % i,
        'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % i,
        'technique': 'contracts on the functions of typedload, discharged by a deductive verifier (pyvc + z3) that executes the real source symbolically; bounded search on the real code for failing inputs',
        'level': registry.LEVEL.get(i, 'proof'),
        'level_note': registry.note(i),
    })
m = {'version': 1,
     'setup_cmd': 'python3-vt tools/setup.py',
     'checks': checks,
     'not_applicable': [{'property': i, 'reason': registry.NA.get(i, 'no contract was written for it')} for i in ids if i not in claimed],
     'notes': 'No hooks in /repo: the verifier reads the source of /repo on every run. See DESIGN.md.'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError:
    pass
print(len(claimed), 'claimed')
