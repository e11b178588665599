"""oracle.search - run the cases of a property: python3 -m oracle.search C01 [n | seconds s] [seed]"""
import multiprocessing
import os
import random
import sys
import time
import traceback


def one(prop, seed, i):
    """run a case. (signature, nontrivial, failure text or None)"""
    from . import props, universe
    r = random.Random('%s/%s/%d' % (prop, seed, i))
    c = universe.Ctx(r)
    try:
        sig, nt = props.CASES[prop](c)
        return (sig, tuple(c.lines)), nt, None
    except props.Skip:
        return None, False, None
    except props.Bad as e:
        lines = ''.join('    ' + q + '\n' for l in c.lines for q in l.split('\n'))
        return None, False, 'property %s, case seed=%s number=%d\n%s\noptions: %r\ntypes of the case:\n%s' % (prop, seed, i, e, c.o, lines)


def sample(prop, seed, i):
    """a case, written out"""
    from . import props, universe
    c = universe.Ctx(random.Random('%s/%s/%d' % (prop, seed, i)))
    try:
        sig, nt = props.CASES[prop](c)
    except Exception:
        return None
    if not nt:
        return None
    log = getattr(c, 'log', None)
    out = []
    for x in log or ():
        out.append(x.src if isinstance(x, universe.TD) else universe.srepr(x))
    return {'number': i, 'what': out or str(sig)[:300], 'options': repr(c.o), 'types': '\n'.join(c.lines)[:800]}


def worker(prop, seed, start, step, n, deadline, q):
    sys.setrecursionlimit(3000)
    cnt = nt = 0
    sigs = set()
    fails = []
    errors = []
    i = start
    from . import props
    while (n is None or i < n) and time.time() < deadline and len(fails) < 3:
        try:
            s, t, f = one(prop, seed, i)
            cnt += 1
            if f:
                fails.append((i, f))
            elif t:
                h = hash(s)
                if h not in sigs:
                    sigs.add(h)
                    nt += 1
        except (KeyboardInterrupt, SystemExit):
            raise
        except BaseException as e:
            errors.append((i, traceback.format_exc()[-1500:]))
            if len(errors) > 200:
                break
        i += step
    q.put((start, cnt, sigs, fails, errors))


def search(prop, seed, n=None, seconds=20, jobs=8):
    """{evaluations, distinct, failures, errors}"""
    ctx = multiprocessing.get_context('fork')
    q = ctx.Queue()
    deadline = time.time() + seconds
    ps = [ctx.Process(target=worker, args=(prop, seed, k, jobs, n, deadline, q)) for k in range(jobs)]
    for p in ps:
        p.start()
    out = []
    lost = 0
    t0 = time.time()
    while len(out) < jobs:
        try:
            out.append(q.get(timeout=1))
        except Exception:
            if time.time() > deadline + 60 or all(not p.is_alive() for p in ps) and q.empty():
                lost = jobs - len(out)
                break
    for p in ps:
        if p.is_alive():
            p.join(2)
        if p.is_alive():
            p.kill()
    sigs = set()
    for o in out:
        sigs |= o[2]
    return {'below': jobs * min([o[1] for o in out] or [0]), 'evaluations': sum(o[1] for o in out), 'distinct': len(sigs), 'failures': sorted(f for o in out for f in o[3]), 'errors': sorted(e for o in out for e in o[4]), 'lost': lost}


if __name__ == '__main__':
    sys.stdout.reconfigure(errors='backslashreplace')
    import glob
    ps = sys.argv[1].split(',') if sys.argv[1] != 'all' else ['C%02d' % i for i in range(1, 21)]
    secs = float(sys.argv[2]) if len(sys.argv) > 2 else 10
    seed = sys.argv[3] if len(sys.argv) > 3 else '1'
    for p in ps:
        t = time.time()
        r = search(p, seed, None, secs)
        print(p, r['evaluations'], 'cases', r['distinct'], 'distinct', len(r['failures']), 'failures', len(r['errors']), 'errors', 'lost', r['lost'], '%.1fs' % (time.time() - t))
        for i, f in r['failures'][:int(os.environ.get('SHOW', 2))]:
            print('   ', f[:2500].replace('\n', '\n    '))
        for i, f in r['errors'][:1]:
            print('   ERR', i, f)
