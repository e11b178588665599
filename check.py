#!/opt/veriftools/pyvenv/bin/python3
"""
check.py PROPERTY - decide a property on the current tree.

1. the verifier: every function under contract that the property depends on is taken from the
   source in VERIF_REPO (/repo), and every obligation it generates is given to the solver;
2. the bounded search (oracle/): random cases on the real code. It looks for a failing input when an
   obligation fails, and it stands in for what is not under contract.

exit 0: held; exit 1 and VIOLATION line: broken; 2: error of the check.
"""
import json
import multiprocessing
import os
import sys
import time
import traceback

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.stdout.reconfigure(errors='backslashreplace')
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CFG = {'quick': dict(deadline=240, search=15, hunt=100), 'thorough': dict(deadline=1500, search=600, hunt=600)}[TIER]
JOBS = min(8, os.cpu_count() or 1)
from contracts.registry import SPLIT


def run_unit(mod, name, deadline):
    """in a process of its own"""
    import importlib
    sys.setrecursionlimit(20000)
    from contracts import base
    m = importlib.import_module('contracts.' + mod)
    for n, thunk, ex in m.ALL:
        if n == name:
            E = base.Verifier()
            rep = base.verify(E, n, thunk, ex, deadline, jobs=SPLIT.get(n, 1))
            return {'unit': n, 'module': mod, 'status': rep.status, 'reason': rep.reason, 'paths': rep.paths, 'kinds': rep.kinds, 'secs': rep.secs,
                    'covered': rep.covered, 'assumptions': sorted(E.assumptions), 'checks': E.nchecks,
                    'obls': [(o.name, tuple(o.tags), o.status, o.secs, o.detail[:6000] if o.status != 'discharged' else '', str(o.where)) for o in rep.obls]}
    raise KeyError(name)


def unit_proc(mod, name, deadline, q):
    try:
        q.put((mod, name, run_unit(mod, name, deadline)))
    except BaseException:
        q.put((mod, name, {'unit': name, 'module': mod, 'status': 'unsupported', 'reason': traceback.format_exc()[-1500:], 'paths': 0, 'kinds': {}, 'secs': 0.0,
                           'covered': {}, 'assumptions': [], 'checks': 0, 'obls': []}))


def run_units(us, deadline, jobs=JOBS):
    """all the units, in parallel; the longest first"""
    ctx = multiprocessing.get_context('fork')
    q = ctx.Queue()
    todo = list(us)
    running = {}
    out = {}
    t0 = {}

    def lost(u, why):
        return {'unit': u[1], 'module': u[0], 'status': 'unsupported', 'reason': why, 'paths': 0, 'kinds': {}, 'secs': time.time() - t0[u], 'covered': {}, 'assumptions': [], 'checks': 0, 'obls': []}
    while todo or running:
        while todo and len(running) < jobs:
            u = todo.pop(0)
            p = ctx.Process(target=unit_proc, args=(u[0], u[1], deadline, q))
            t0[u] = time.time()
            p.start()
            running[u] = p
        try:
            m, n, r = q.get(timeout=.5)
            out[(m, n)] = r
            p = running.pop((m, n), None)
            if p:
                p.join(5)
                if p.is_alive():
                    p.kill()
        except Exception:
            for u, p in list(running.items()):
                if u in out:
                    running.pop(u)
                elif not p.is_alive():
                    time.sleep(.3)
                    if q.empty():
                        running.pop(u)
                        out[u] = lost(u, 'the verifier process ended')
                elif time.time() - t0[u] > deadline + 60:
                    p.kill()
                    running.pop(u)
                    out[u] = lost(u, 'the verifier process hung')
    return [out[u] for u in us]


def fingerprint(obl):
    return '%s: %s' % obl[:2]


def write_replay(prop, text):
    d = os.path.join(HERE, 'replay')
    os.makedirs(d, exist_ok=True)
    import hashlib
    p = os.path.join(d, '%s-%s.txt' % (prop, hashlib.sha1(text.encode('utf-8', 'backslashreplace')).hexdigest()[:10]))
    with open(p, 'w', errors='backslashreplace') as f:
        f.write(text)
    return p


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                out.append(l.split(' ', 2)[2])
    return out


def limit(prop, seed):
    """quick tier: how many cases are run at most, so that it is the same ones on a fast and on a slow machine"""
    p = os.path.join(HERE, 'oracle', 'limits.json')
    if TIER != 'quick' or not os.path.exists(p):
        return None
    return json.load(open(p)).get(str(seed), {}).get(prop)


def main(prop):
    t0 = time.time()
    from contracts import registry
    from oracle import search
    os.chdir(HERE)
    from contracts import roundtrip
    uses = {q for l, qs in roundtrip.USES.items() if prop in registry.PROPS.get(l, ()) for q in qs}
    us = [u for u in registry.all_units() if prop in registry.PROPS.get(u[1], ()) or u[1] in {a for a, _ in uses}]
    reps = run_units([(m, n) for m, n in us], CFG['deadline'])
    mine = []          # obligations of this property
    failed = []
    open_ = []         # what was not decided by the verifier
    for r in reps:
        if r['status'] != 'verified':
            open_.append('%s: %s' % (r['unit'], (r['reason'].strip().split('\n') or [''])[-1][:300]))
        for o in r['obls']:
            if prop in o[1] or '*' in o[1] or (r['unit'], o[0]) in uses:
                mine.append((r['unit'],) + tuple(o))
                if o[2] in ('refuted', 'not-proved'):
                    failed.append((r['unit'],) + tuple(o))
                elif o[2] != 'discharged':
                    open_.append('%s: %s: %s' % (r['unit'], o[0], o[2]))
    got = {(r['unit'], o[0]) for r in reps for o in r['obls']}
    whole = {r['unit'] for r in reps if r['status'] == 'verified'}
    for u, n in sorted(uses):
        if u in whole and (u, n) not in got:
            open_.append('%s: the obligation that a lemma uses is not generated: %s' % (u, n))
    tv = time.time() - t0
    if us and not mine and not open_:
        print('ERROR: no obligation was generated')
        return 2
    # bounded search
    known = known_findings(prop)
    res = search.search(prop, SEED, limit(prop, SEED), CFG['search'], JOBS)
    fails = res['failures']
    hunted = 0
    if (failed or open_) and not fails:
        # look harder for a failing input
        hunted = CFG['hunt']
        res2 = search.search(prop, SEED + 1000003, limit(prop, SEED + 1000003), hunted, JOBS)
        fails = res2['failures']
        for k in ('evaluations', 'distinct'):
            res[k] += res2[k]
        res['errors'] += res2['errors']
        seed = SEED + 1000003
    else:
        seed = SEED
    out = []
    seen_known = set()
    new = []
    for i, f in fails:
        k = [q for q in known if q in f]
        if k:
            seen_known.update(k)
        else:
            new.append((i, f))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    violations = 0
    desc = []
    if failed:
        names = {}
        for o in failed:
            names.setdefault((o[0], o[1], o[3]), []).append(o)
        for (u, n, s), os_ in names.items():
            desc.append('obligation of %s %s: %s\n' % (u, s, n))
        for (u, n, s), os_ in list(names.items())[:6]:
            desc.append('--- %s: %s\nverifier output (%s):\n%s\n' % (u, n, s, os_[0][5]))
    if new:
        violations = 1
        i, f = new[0]
        text = 'VIOLATION of %s on the tree in %s\n\nfailing case, found by running the real code:\n%s\n\nto run it again: cd %s && PYTHONHASHSEED=0 python3-vt -m oracle.one %s %s %d\n\n%s' % (
            prop, REPO, f, HERE, prop, seed, i, 'obligations that fail:\n' + ''.join(desc) if desc else '(no obligation of the verifier fails: found by the bounded search)\n')
        p = write_replay(prop, text)
        print('failing case: ' + f[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, p))
    elif failed:
        violations = 1
        text = 'VIOLATION of %s on the tree in %s\n\nobligations that fail (no failing input was found by %d random cases):\n%s' % (prop, REPO, res['evaluations'], ''.join(desc))
        p = write_replay(prop, text)
        print(''.join(desc[:10])[:1500])
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, p))
    wall = time.time() - t0
    disc = sum(1 for o in mine if o[3] == 'discharged')
    level = registry.LEVEL.get(prop, "proof")
    fnames = sorted({k for r in reps for k in r['covered']})
    assumptions = sorted({a for r in reps for a in r['assumptions']}) + registry.ASSUMPTIONS
    from oracle import props
    cov = {
        'evaluations': res['evaluations'],
        'distinct_nontrivial': res['distinct'],
        'rule': 'bounded part (not counted as proved): random types, values and options (oracle/props.py %s), seed %d; a case counts when it exercises the property (%s) and its types and classes differ from the other cases' % (prop.lower(), SEED, (props.CASES[prop].__doc__ or 'it is not vacuous').strip().split('\n')[0]),
        'samples': samples(prop),
        'search_errors': len(res['errors']),
        'bounded_only': registry.BOUNDED.get(prop, []),
        'undecided_by_the_verifier': open_,
    }
    if us:
        cov.update({
            'obligations': len(mine),
            'discharged': disc,
            'checker_cmd': 'python3-vt check.py %s' % prop,
            'trusted_base': registry.TRUSTED,
            'functions_under_contract': fnames,
            'units': [{'unit': r['unit'], 'status': r['status'], 'paths': r['paths'], 'outcomes': r['kinds'], 'seconds': round(r['secs'], 1), 'solver_checks': r['checks']} for r in reps],
            'solver': 'z3 (python bindings)',
            'solver_seconds': round(sum(o[4] for o in mine), 2),
            'obligations_by_unit': {r['unit']: sum(1 for o in r['obls'] if prop in o[1]) for r in reps},
        })
    ev = {'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': level, 'coverage': cov, 'assumptions': assumptions, 'wall_s': round(wall, 2), 'violations': violations}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w', errors='backslashreplace') as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    print('%s: %d obligations, %d discharged, %d functions under contract, verifier %.1fs; %d cases, %d distinct, %d errors; %.1fs' % (
        prop, len(mine), disc, len(fnames), tv, res['evaluations'], res['distinct'], len(res['errors']), wall))
    for o in open_[:10]:
        print('undecided by the verifier, bounded search only: ' + o)
    if violations:
        return 1
    if res['errors'] and len(res['errors']) * 20 > res['evaluations']:
        print('ERROR: the bounded search failed: ' + res['errors'][0][1])
        return 2
    if res['evaluations'] == 0:
        print('ERROR: no case was run')
        return 2
    return 0


def samples(prop):
    """some cases, written out"""
    from oracle import search
    import random
    out = []
    i = 0
    while len(out) < 3 and i < 60:
        try:
            s = search.sample(prop, SEED, i)
        except Exception:
            s = None
        if s:
            out.append(s)
        i += 1
    return out or ['case 0 of seed %d' % SEED]


if __name__ == '__main__':
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    try:
        rc = main(args[0])
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
