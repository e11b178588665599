"""Run every unit; write contracts/props_map.json: unit -> properties of its obligations."""
import json
import os
import sys
sys.path.insert(0, '/verif')
os.chdir('/verif')
import check
from contracts import registry
us = registry.all_units()
reps = check.run_units(us, 400)
m = {}
for r in reps:
    m[r['unit']] = sorted({t for o in r['obls'] for t in o[1] if t != '*'})
    bad = [o for o in r['obls'] if o[2] != 'discharged']
    print('%-28s %-11s %6.1fs %4d obligations %3d not discharged  %s %s' % (r['unit'], r['status'], r['secs'], len(r['obls']), len(bad), ' '.join(m[r['unit']]), r['reason'][-200:]))
    for o in bad[:4]:
        print('      ', o[2], o[0])
if '-n' not in sys.argv:
    json.dump(m, open('/verif/contracts/props_map.json', 'w'), indent=1, sort_keys=True)
