"""limits.py SEED SECONDS: runs the bounded search of every property on the tree, and writes in oracle/limits.json how many cases are without a failure."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
from oracle import search

seed, secs = int(sys.argv[1]), float(sys.argv[2])
props = sys.argv[3].split(',') if len(sys.argv) > 3 else ['C%02d' % i for i in range(1, 21)]
p = os.path.join(HERE, 'oracle', 'limits.json')
for q in props:
    r = search.search(q, seed, None, secs)
    print(q, r['evaluations'], len(r['failures']), len(r['errors']), r['lost'], time.strftime('%H:%M:%S'), flush=True)
    for i, f in r['failures'][:2]:
        print(f[:3000], flush=True)
    d = json.load(open(p)) if os.path.exists(p) else {}
    # those below this number have been run by all the workers
    n = r['below']
    if r['failures'] or r['lost']:
        n = 0
    d.setdefault(str(seed), {})[q] = n
    json.dump(d, open(p, 'w'), indent=1, sort_keys=True)
    open(p, 'a').write('\n')
