"""
oracle.props - for each property a function that makes one random case, runs the real code
on it, and raises Bad(text) when the property does not hold for that case.

These are the bounded searches for a failing input: they stand next to the proofs, they are
not counted as proofs.
"""
import copy
import decimal
import functools
import inspect
import itertools
import pickle
import signal
import warnings
from .universe import *
from typedload.exceptions import AnnotationType as AT, TraceItem, Annotation

warnings.simplefilter('ignore')


class Bad(Exception):
    pass


class Skip(Exception):
    """not an interesting case"""


def bad(fmt, *a):
    raise Bad(fmt % tuple(srepr(x) if not isinstance(x, (str, int)) else x for x in a) if a else fmt)


def nested(n):
    x = []
    for _ in range(n):
        x = [x]
    return x


class Unprintable:
    def __repr__(self):
        raise ZeroDivisionError()


class NoEq:
    """like an array: == doesn't give a bool"""
    __hash__ = None

    def __eq__(self, o):
        raise ZeroDivisionError()


class NoEqHash(NoEq):
    def __init__(self, h):
        self.h = h

    def __hash__(self):
        return hash(self.h)


def failing(*l):
    yield from l
    raise ZeroDivisionError()


# values that can't be compared with others, or iterated
INCOMPARABLE = [lambda: decimal.Decimal('sNaN'), NoEq, lambda: NoEqHash(1), lambda: NoEqHash('a'), lambda: NoEqHash('A'), failing, lambda: failing(2020, 1, 1), lambda: failing(1)]

# values whose repr() fails
UNPRINTABLE = [lambda: 10**5000, lambda: [10**5000], lambda: {10**5000: 1}, lambda: {'a': 10**5000}, lambda: nested(4000), lambda: argparse.Namespace, lambda: argparse.Namespace(_get_kwargs=1),
               lambda: collections.deque([10**5000]), Unprintable, lambda: (10**5000,), lambda: Mapish({10**5000: 2}), lambda: argparse.Namespace(a=10**5000)]


def unprintable(c, v, values=UNPRINTABLE):
    """v, with a value that can't be printed in some place of it"""
    r = c.r
    q = r.choice(values)()
    for _ in range(4):
        if type(v) is list and v and r.random() < .8:
            i = r.randrange(len(v))
            return v[:i] + [unprintable(c, v[i], values)] + v[i + 1:]
        if type(v) is dict and r.random() < .8:
            v = dict(v)
            k = r.choice(list(v)) if v and r.random() < .7 else 'x'
            if r.random() < .3 and values is UNPRINTABLE:
                v[10**5000] = v.pop(k, 1)
            else:
                v[k] = unprintable(c, v[k], values) if k in v else q
            return v
    return q


def make_data(c, td, p_valid=.5):
    r = c.r
    w = r.random()
    if w > .93:
        return junk(c)
    x = td.gen(c)
    v = td.data(c, x)
    if w < p_valid:
        return v
    v = mutate(c, v)
    if r.random() < .2:
        v = mutate(c, v)
    return v


def desc(e):
    return '%s(%s)' % (type(e).__name__, srepr(e.args, 200))


def no_iters(v, d=4):
    if hasattr(v, '__next__') or isinstance(v, (zip, map)):
        return False
    if d and isinstance(v, (list, tuple, collections.deque)):
        return all(no_iters(i, d - 1) for i in v)
    if d and isinstance(v, dict):
        return all(no_iters(i, d - 1) for i in v.values())
    if isinstance(v, Reiter):
        return all(no_iters(i, d - 1) for i in v.l)
    if isinstance(v, (Mapish, AttrMap)):
        return no_iters(v.d, d - 1)
    if isinstance(v, argparse.Namespace):
        return no_iters(v.__dict__, d - 1)
    if isinstance(v, types.MappingProxyType):
        return no_iters(dict(v), d - 1)
    return True


# ----------------------------------------------------------------------
def c01(c):
    td = rand_type(c, c.r.choice([1, 2, 3, 3]))
    l = c.o.loader()
    out = []
    for _ in range(c.r.choice([1, 1, 2, 3])):
        v = make_data(c, td)
        c.log = (td, v)
        k, x = run_load(l, v, td.py)
        out.append(k)
        if k == 'ok' and not td.conf(x):
            bad('load(%s, %s) = %s which does not conform to the type', v, td.src, x)
    return td.src, 'ok' in out


def c02(c):
    td = rand_type(c, c.r.choice([1, 2, 3, 3]))
    l = c.o.loader()
    ok = False
    for _ in range(c.r.choice([1, 1, 2, 3])):
        v = make_data(c, td, .1)
        odd = c.r.random() < .06
        if odd:
            v = unprintable(c, v, c.r.choice([UNPRINTABLE, INCOMPARABLE]))
        c.log = (td, v)
        k, e = run_load(l, v, td.py)
        if k == 'bad' or k == 'deep' and not odd:
            bad('load(%s, %s) raised %s', v, td.src, desc(e))
        if k == 'te':
            ok = True
    return td.src, ok


# ---------------------------------------------------------------------- C03
def isq(a, b):
    """the same object; the items of a str or of a network are new at every iteration"""
    return a is b or type(a) is type(b) and (isinstance(a, (str, int, float, bytes, ipaddress.IPv4Address, ipaddress.IPv6Address)) and (a == b or a != a) or
                                             isinstance(a, tuple) and len(a) == len(b) and all(isq(*q) for q in zip(a, b)))


def check_trace(e, v, t, first=True):
    """the trace of e leads from (v, t) to e.value"""
    tr = e.trace
    if not tr:
        bad('empty trace')
    if first:
        it = tr[0]
        if not (it.value is v and it.type_ == t):
            bad('the first item of the trace is (%s, %s), not the value and type given to load()', it.value, it.type_)
    cur = [v]          # candidates for the current value
    for n, it in enumerate(tr):
        if not isinstance(it, TraceItem):
            bad('trace item %s', it)
        an = it.annotation
        if an is None:
            if not any(isq(it.value, x) for x in cur):
                bad('trace item %d is about %s, the value reached is %s', n, it.value, cur)
            continue
        at, av = an
        if at is AT.INDEX:
            if not isinstance(av, int) or isinstance(av, bool) or av < 0:
                bad('trace item %d: index %s', n, av)
            if not any(isq(it.value, x) for x in cur):
                bad('trace item %d is about %s, the value reached is %s', n, it.value, cur)
            if hasattr(it.value, '__next__'):
                return
            els = list(it.value)
            if av >= len(els):
                bad('trace item %d: index %d of a container of %d elements', n, av, len(els))
            cur = [els[av]]
        elif at is AT.FIELD:
            m = it.value
            if not any(isq(m, x) for x in cur) and not derived(m, cur):
                bad('trace item %d is about %s, the value reached is %s', n, m, cur)
            d = dict(m.items())
            if av not in d:
                bad('trace item %d: field %s is not in %s', n, av, m)
            cur = [d[av]]
        elif at in (AT.KEY, AT.VALUE):
            els = []
            for x in cur:
                if isinstance(x, argparse.Namespace):
                    x = x.__dict__
                els += list(x.keys() if at is AT.KEY else x.values())
            if not any(isq(it.value, x) for x in els):
                bad('trace item %d: %s is no %s of %s', n, it.value, at.value, cur)
            if not isq(av, it.value):
                bad('trace item %d is annotated with %s, its value is %s', n, av, it.value)
            cur = [it.value]
        elif at is AT.UNION or at is AT.FORWARDREF:
            if not any(isq(it.value, x) for x in cur):
                bad('trace item %d is about %s, the value reached is %s', n, it.value, cur)
        else:
            bad('annotation %s', an)
    ev = e.value
    if not any(isq(ev, x) for x in cur) and not derived(ev, cur):
        bad('exception.value is %s, the trace leads to %s', ev, cur)
    for s in e.exceptions:
        if not isinstance(s, TypedloadException):
            bad('sub-exception %s', s)
        if s.trace:
            check_trace(s, ev, None, first=False)


def derived(m, cur):
    """m is a renamed or converted copy of one of cur: same values"""
    for x in cur:
        try:
            d = x.__dict__ if isinstance(x, argparse.Namespace) else dict(x.items())
            if all(any(v is w for w in d.values()) for v in m.values()):
                return True
        except Exception:
            pass
    return False


def positions(td, data, path=(), depth=0):
    """(path, td, replace) of the places in data; path steps are (AnnotationType, value)"""
    yield path, td, (lambda y: y), data
    if depth > 6:
        return
    if isinstance(td, NewT):
        for p, t, f, dd in positions(td.sub, data, path, depth + 1):
            yield p, t, f, dd
    elif isinstance(td, Fwd):
        for p, t, f, dd in positions(td.target, data, path + ((AT.FORWARDREF, td.name),), depth + 1):
            yield p, t, f, dd
    elif isinstance(td, Seqs) or isinstance(td, Tup):
        if isinstance(data, list):
            for i, x in enumerate(data):
                sub = td.sub if isinstance(td, Seqs) else td.subs[i] if i < len(td.subs) else None
                if sub is None:
                    continue

                def rep(y, f, i=i):
                    z = list(data)
                    z[i] = f(y)
                    return z
                for p, t, f, dd in positions(sub, x, path + ((AT.INDEX, i),), depth + 1):
                    yield p, t, (lambda y, rep=rep, f=f: rep(y, f)), dd
    elif isinstance(td, Dct):
        if isinstance(data, dict):
            for k, x in data.items():
                def rep(y, f, k=k):
                    z = dict(data)
                    z[k] = f(y)
                    return z
                for p, t, f, dd in positions(td.v, x, path + ((AT.VALUE, None),), depth + 1):
                    yield p, t, (lambda y, rep=rep, f=f: rep(y, f)), dd
    elif isinstance(td, Obj):
        if isinstance(data, dict):
            for fl in td.fields:
                k = td.key(fl)
                if not fl.init or k not in data:
                    continue

                def rep(y, f, k=k):
                    z = dict(data)
                    z[k] = f(y)
                    return z
                for p, t, f, dd in positions(fl.loadtd, data[k], path + ((AT.FIELD, td.initname(fl)),), depth + 1):
                    yield p, t, (lambda y, rep=rep, f=f: rep(y, f)), dd


def render(path):
    out = []
    for at, x in path:
        out.append('[%d]' % x if isinstance(x, int) else str(x))
    return '.' + '.'.join(out) if out else '.'


def c03(c):
    r = c.r
    if r.random() < .04:
        return c16_iters(c)
    w = r.random()
    if w < .5:
        td = rand_type(c, r.choice([2, 3, 4]))
        l = c.o.loader()
        for _ in range(r.choice([1, 2])):
            v = make_data(c, td, .05)
            if not no_iters(v):
                continue
            c.log = (td, v)
            k, e = run_load(l, v, td.py)
            if k == 'te':
                check_trace(e, v, td.py)
                s = str(e)
                p = path_of(e.trace)
                if p is not None and ('Path: ' + p) not in s:
                    bad('str() of the exception does not have the path %s: %s', p, s)
                return td.src, True
        return td.src, False
    # a single element is broken: the path is known
    td = rand_type(c, r.choice([2, 3, 4]), union=r.random() < .5)
    x = td.gen(c, 4)
    v = td.data(c, x)
    ps = [p for p in positions(td, v) if p[0] or r.random() < .1]
    if not ps:
        return td.src, False
    path, t, rep, old = r.choice(ps)
    b = t.bad(c)
    if b is NOBAD:
        return td.src, False
    if r.random() < .3 and isinstance(b, (str, list, dict)) and b:
        b = copy.copy(b)
    v2 = rep(b)
    c.log = (td, v2)
    l = c.o.loader()
    if run_load(c.o.loader(), v, td.py)[0] != 'ok' or run_load(c.o.loader(), b, t.py)[0] == 'ok':
        return td.src, False
    if r.random() < .3:
        run_load(l, v, td.py)
    k, e = run_load(l, v2, td.py)
    if k == 'ok':
        bad('%s was accepted at %s as %s: load(%s, %s)', b, render(path), t.src, v2, td.src)
    if k != 'te':
        return td.src, False
    check_trace(e, v2, td.py)
    got = [(a.annotation.annotation_type, a.annotation.value) for a in e.trace if a.annotation is not None]
    # the dict values are annotated with the value
    want = []
    cur = v2
    exp = list(path)
    full = tuple_path(td, v2, path)
    if len(got) > len(full):
        # more steps: inside of the bad value
        got = got[:len(full)]
    if [g[0] for g in got] != [f[0] for f in full] or any(g[1] is not f[1] and g[1] != f[1] for g, f in zip(got, full)):
        bad('the error is at %s, the trace says %s, in load(%s, %s)', render(full), render(got), v2, td.src)
    if len([a for a in e.trace if a.annotation is not None]) == len(full) and not isq(e.value, b) and not derived(b, [e.value]) and not derived(e.value, [b]):
        bad('exception.value is %s, the offending value is %s', e.value, b)
    s = str(e)
    if 'Path: ' + render(full) not in s:
        bad('str() of the exception does not show the path %s: %s', render(full), s)
    return td.src, True


def tuple_path(td, v, path):
    """path with the values of the VALUE steps filled in"""
    out = []
    cur = v
    t = td
    for at, x in path:
        while isinstance(t, NewT):
            t = t.sub
        if at is AT.FORWARDREF:
            t = t.target
            out.append((at, x))
            continue
        if at is AT.INDEX:
            cur = cur[x]
            t = t.sub if isinstance(t, Seqs) else t.subs[x]
            out.append((at, x))
        elif at is AT.FIELD:
            f = [f for f in t.fields if t.initname(f) == x][0]
            cur = cur[t.key(f)]
            t = f.loadtd
            out.append((at, x))
        else:
            return PathTail(out)
    return out


class PathTail(list):
    pass


def path_of(trace):
    """the rendering of a trace: the annotations, joined"""
    p = [i.annotation for i in trace if i.annotation is not None]
    try:
        s = '.'.join('[%d]' % a.value if isinstance(a.value, int) else str(a.value) for a in p)
    except Exception:
        return None
    return '.' + s if p else '.'


# ---------------------------------------------------------------------- C04
def alt_outcomes(c, u, v, o):
    return [run_load(o.loader(), v, s.py) for s in u.subs]


def judge_union(c, u, v, o, res, tag=None):
    """res = outcome of load(v, u)"""
    k, x = res
    args = u.py.__args__
    basics = o.basics()
    if type(v) in basics and type(v) in args:
        if k != 'ok' or x is not v:
            bad('%s is of a basic type of %s, it is not returned unchanged but: %s', v, u.src, desc(x) if k != 'ok' else srepr(x))
        return 'basic'
    alts = alt_outcomes(c, u, v, o)
    if any(a[0] in ('bad', 'deep') for a in alts) or k in ('bad', 'deep'):
        return None
    good = [(s, a[1]) for s, a in zip(u.subs, alts) if a[0] == 'ok']
    if o.uniondebugconflict:
        if (k == 'ok') != (len(good) == 1):
            bad('with uniondebugconflict, load(%s, %s) %s but %d alternatives accept the value', v, u.src, 'succeeds' if k == 'ok' else 'fails', len(good))
        if k == 'ok' and not same(x, good[0][1]):
            bad('load(%s, %s) = %s, the only matching alternative gives %s', v, u.src, x, good[0][1])
    else:
        if k != 'ok' and good:
            bad('load(%s, %s) fails but %s accepts it', v, u.src, good[0][0].src)
        if k == 'ok' and not good:
            bad('load(%s, %s) = %s but no alternative accepts it', v, u.src, x)
        if k == 'ok':
            cand = good
            nb = [g for g in good if not (g[0].py in basics)]
            if nb:
                cand = nb
            if not any(same(x, g[1]) for g in cand):
                bad('load(%s, %s) = %s, the %salternatives give %s', v, u.src, x, 'non basic ' if nb else '', [g[1] for g in cand])
            if tag is not None:
                m = [g for g in good if isinstance(g[0], Obj) and any(f.name == tag and isinstance(f.td, Lit) and v.get(tag) in f.td.values and
                                                                      any(type(v.get(tag)) is type(q) and v.get(tag) == q for q in f.td.values) for f in g[0].fields)]
                if m and not any(same(x, g[1]) and (g[0].kind == 'typeddict' or type(x) is g[0].py) for g in m):
                    bad('load(%s, %s) = %s, it is not the alternative having the tag, %s', v, u.src, x, m[0][0].src)
    if k == 'te':
        if not good:
            if not isinstance(x, TypedloadValueError):
                bad('no alternative of %s accepts %s: raised %s', u.src, v, desc(x))
            if len(x.exceptions) != len(args):
                bad('load(%s, %s): %d sub-exceptions for %d alternatives', v, u.src, len(x.exceptions), len(args))
            ts = []
            for s in x.exceptions:
                if not isinstance(s, TypedloadException):
                    bad('sub-exception %s', s)
                a = s.trace[0].annotation if s.trace else None
                ts.append(a.value if a else None)
            for t in args:
                if not any(q is t or q == t for q in ts):
                    bad('load(%s, %s): no sub-exception for the alternative %s', v, u.src, t)
    return 'ok' if good else 'fail'


def union_td(c):
    r = c.r
    w = r.random()
    if w < .3:
        return tagged_union(c, lambda: rand_type(c, 1), opts=('tagdefault',) if r.random() < .3 else ())
    if w < .45:
        subs = r.sample([Basic(c, t) for t in (int, str, bool, float)] + [NoneTD(c)], r.randrange(2, 5))
        return Un(c, subs)
    if w < .6:
        # objects with the same shape, and basic types
        subs = [Obj(c, r.choice(OBJKINDS), lambda q: leaf(c), nf=r.choice([1, 2]), mangle=False) for _ in range(r.choice([1, 2, 2, 3]))]
        if r.random() < .5:
            subs.insert(r.randrange(len(subs) + 1), Basic(c, r.choice([int, str, bool])))
        if len(subs) < 2:
            subs.append(NoneTD(c))
        return Un(c, subs)
    u = rand_union(c, lambda **kw: rand_type(c, r.choice([0, 1, 1, 2]), union=False))
    if u is None:
        raise Skip
    return u


def c04(c):
    r = c.r
    u = union_td(c)
    tag = getattr(u, 'tagkey', None)
    o = c.o
    if r.random() < .7:
        o.uniondebugconflict = False
    l = o.loader()
    sig = None
    for _ in range(r.choice([1, 2, 3, 4])):
        w = r.random()
        if w < .6:
            v = u.data(c, u.gen(c))
            if r.random() < .25:
                v = mutate(c, v)
        elif w < .8:
            v = plain(c, 2)
        else:
            v = junk(c)
        if tag and isinstance(v, dict) and r.random() < .3:
            v = dict(v)
            v[tag] = r.choice(['a', 'b', 1, True, 'zz', [1], None, 0, '', {}])
        if not no_iters(v):
            continue
        try:
            hasattr(v, 'get') and tag and v.get(tag)
        except Exception:
            continue
        tg = tag if tag and isinstance(v, dict) and tag in v else None
        c.log = (u, v)
        how = r.randrange(6)
        if how == 0:
            res = run_load(l, [v], List[u.py])
            res = (res[0], res[1][0] if res[0] == 'ok' else inner(res[1]))
        elif how == 1:
            res = run_load(l, {'k': v}, Dict[str, u.py])
            res = (res[0], res[1]['k'] if res[0] == 'ok' else inner(res[1]))
        elif how == 2:
            res = run_load(l, [v, 1], Tuple[u.py, int])
            res = (res[0], res[1][0] if res[0] == 'ok' else inner(res[1]))
        else:
            res = run_load(l, v, u.py)
            if how < 5:
                sig = judge_union(c, u, v, o, res, tg) or sig
                continue
        if res[0] == 'te' and how < 3:
            # the sub-exceptions of the union are those of the nested error
            pass
        sig = judge_union(c, u, v, o, res, tg) or sig
    return u.src, sig in ('ok', 'fail')


def inner(e):
    return e


# ---------------------------------------------------------------------- C05
DICTLIKE = ['dict', 'dict', 'dict', 'ordered', 'mapish', 'proxy', 'attrmap', 'ns', 'sub', 'chain', 'userdict', 'default']


def dictlike(c, d, how=None):
    how = how or c.r.choice(DICTLIKE)
    if how == 'ordered':
        return collections.OrderedDict(d)
    if how == 'mapish':
        return Mapish(d)
    if how == 'proxy':
        return types.MappingProxyType(d)
    if how == 'attrmap':
        return AttrMap(d)
    if how == 'ns' and c.o.dictequivalence and all(isinstance(k, str) for k in d):
        n = argparse.Namespace()
        n.__dict__.update(d)
        return n
    if how == 'sub':
        return SubDict(d)
    if how == 'chain':
        return collections.ChainMap(d)
    if how == 'userdict':
        return collections.UserDict(d)
    if how == 'default':
        return collections.defaultdict(list, d)
    return d


def rand_obj(c, opts=(), kind=None, d=1, mangle=True, nf=None):
    r = c.r
    kind = kind or r.choice(OBJKINDS)
    op = tuple(opts)
    return Obj(c, kind, lambda q: rand_type(c, r.choice([0, 0, d])), opts=op, mangle=mangle, nf=nf)


def obj_expect(td, o, entries):
    """entries: python field -> raw value. Expected outcome of loading: ('ok', {field: value}) | ('te', class or None)"""
    out = {}
    failed = False
    for f in td.fields:
        if not f.init:
            continue
        if f.name in entries:
            k, x = run_load(o.loader(), entries[f.name], f.loadtd.py)
            if k != 'ok':
                failed = True
                continue
            if f.conv:
                x = str(x)
            out[f.name] = x
    return failed, out


def c05(c):
    r = c.r
    o = c.o
    w = r.random()
    if w < .12:
        return c05_capture(c)
    if w < .17:
        return c05_pep563(c)
    if w < .21:
        return c05_inherit(c)
    td = rand_obj(c, opts=[q for q in ('noinit', 'conv', 'alias') if r.random() < .4])
    if w < .25:
        v = r.choice([3, None, [1], 'ab', 2.5, object(), [('a', 1)], True, (1,), OnlyLen(), Reiter([1]), b'a', set(), int, [{}]])
        if not o.dictequivalence and r.random() < .5:
            v = argparse.Namespace(a=1)
        c.log = (td, v)
        k, e = run_load(o.loader(), v, td.py)
        if k != 'te':
            bad('data that is not dict-like was accepted: load(%s, %s): %s %s', v, td.src, k, e)
        return td.src, True
    extras = {}
    entries = {}
    p_miss = r.choice([0, 0, .1, .3])
    for f in td.fields:
        if not f.init:
            continue
        if td.required(f) and r.random() >= p_miss or not td.required(f) and r.random() < .6:
            v = f.loadtd.data(c, f.loadtd.gen(c, 2))
            if r.random() < .07:
                v = mutate(c, v)
            if not no_iters(v):
                continue
            entries[f.name] = v
    keys = {td.key(f) for f in td.fields} | {f.name for f in td.fields} | {td.initname(f) for f in td.fields}
    if r.random() < .3:
        for q in r.sample(['zz', 'extra', 'a', 'b', 'x', 5, None, 'Name', ' a'], r.randrange(1, 4)):
            if q not in keys:
                extras[q] = junk(c, 1)
    items = [(td.key(f), entries[f.name]) for f in td.fields if f.name in entries] + list(extras.items())
    r.shuffle(items)
    d = dictlike(c, dict(items))
    c.log = (td, d)
    l = o.loader()
    if r.random() < .4:
        run_load(l, td.data(c, td.gen(c, 2)), td.py)
    in_list = r.random() < .3
    if in_list:
        k, x = run_load(l, [d], List[td.py])
        if k == 'ok':
            x = x[0]
    else:
        k, x = run_load(l, d, td.py)
    missing = [f.name for f in td.fields if td.required(f) and f.name not in entries]
    failed, want = obj_expect(td, o, entries)
    if k in ('bad', 'deep'):
        return td.src, False
    if missing:
        if k != 'te' or not isinstance(x, TypedloadTypeError if td.kind == 'attrs' else TypedloadValueError):
            if not (k == 'te' and (failed or extras and o.failonextra)):
                bad('required fields %s are missing: load(%s, %s): %s', missing, d, td.src, x if k == 'ok' else desc(x))
        return td.src, True
    if extras and o.failonextra:
        if k == 'ok':
            bad('failonextra: load(%s, %s) accepted %s', d, td.src, list(extras))
        return td.src, True
    if failed:
        if k == 'ok':
            bad('load(%s, %s) = %s but some field can not be loaded as its type', d, td.src, x)
        return td.src, True
    if k != 'ok':
        bad('load(%s, %s) fails with %s, but every required field is there and every field loads', d, td.src, desc(x))
    check_obj(td, x, want, d)
    return td.src, True


def check_obj(td, x, want, d):
    if td.kind == 'typeddict':
        if type(x) is not dict or set(x) != set(want) or not all(same(x[q], want[q]) for q in want):
            bad('load(%s, %s) = %s, expected %s', d, td.src, x, want)
        return
    if type(x) is not td.py:
        bad('load(%s, %s) = %s', d, td.src, x)
    for f in td.fields:
        y = getattr(x, f.name, NOBAD)
        z = want[f.name] if f.name in want else f.dflt()
        if y is NOBAD or not same(y, z):
            bad('load(%s, %s): field %s is %s, expected %s', d, td.src, f.name, y, z)


def mentions(v, classes, d=6):
    if id(v) in classes or id(type(v)) in classes:
        return True
    if d and isinstance(v, dict):
        return any(mentions(k, classes, d - 1) or mentions(x, classes, d - 1) for k, x in v.items())
    if d and isinstance(v, (list, tuple, set, frozenset, collections.deque)):
        return any(mentions(x, classes, d - 1) for x in v)
    if isinstance(v, Reiter):
        return mentions(v.l, classes, d - 1)
    if isinstance(v, (Mapish, AttrMap)):
        return mentions(v.d, classes, d - 1)
    if isinstance(v, argparse.Namespace):
        return mentions(v.__dict__, classes, d - 1)
    if isinstance(v, types.MappingProxyType):
        return mentions(dict(v), classes, d - 1)
    return False


def c05_inherit(c):
    """classes made of several, which annotate the same fields"""
    r = c.r
    o = c.o.with_(failonextra=False)
    kind = r.choice(['dataclass', 'dataclass', 'attrs' if attr else 'dataclass', 'typeddict'])
    names = ['a', 'b', 'c']
    T = None
    fields = {}
    for i in range(r.choice([1, 2, 3, 4])):
        n = c.fresh('H')
        last = False
        body, mine = [], {}
        plain = kind != 'typeddict' and r.random() < .35
        for f in r.sample(names, r.randrange(4)):
            t = r.choice(['int', 'str', 'float', 'List[int]', 'Optional[str]'])
            w = r.random()
            if kind == 'typeddict':
                if f in fields:
                    continue        # can't be changed
                body.append('%s: %s' % (f, t))
                mine[f] = (t, True)
            elif w < .12 and not plain:
                body.append('%s: ClassVar[%s] = None' % (f, t))
                mine[f] = None
            elif w < .4 and t != 'List[int]':
                body.append('%s: %s = None' % (f, t))
                mine[f] = (t, False)
            else:
                if plain and w < .8:
                    body.append('%s: %s' % (f, t))
                elif kind == 'attrs':
                    body.append('%s: %s = attr.ib(kw_only=True)' % (f, t) if not plain else 'pass')
                    mine[f] = (t, True)
                else:
                    body.append('%s: %s = dcfield()' % (f, t) if not plain else 'pass')
                    mine[f] = (t, True)
        base = '(%s)' % T if T else '(TypedDict)' if kind == 'typeddict' else ''
        if not plain:
            total = True
            if kind == 'typeddict' and r.random() < .4:
                total = False
                base = base[:-1] + ', total=False)'
            for f, q in mine.items():
                fields.pop(f, None)
                if q:
                    fields[f] = (q[0], q[1] and total)
            deco = {'dataclass': '@dataclass(kw_only=True)\n', 'attrs': '@attr.s(auto_attribs=True, kw_only=True)\n', 'typeddict': ''}[kind]
            if kind == 'dataclass':
                for f in list(mine):
                    if mine[f] is None:
                        fields.pop(f, None)
        else:
            deco = ''
        c.add('%sclass %s%s:\n%s\n' % (deco, n, base, ''.join('    %s\n' % q for q in body or ['pass'])))
        T = n
    cls = c.ns[T]
    if kind == 'dataclass' and not dataclasses.is_dataclass(cls) or kind == 'attrs' and not hasattr(cls, '__attrs_attrs__'):
        raise Skip
    # the reference
    if kind == 'dataclass':
        # a plain class can hide the default of its base, but the constructor keeps it
        ref = {f.name: (f.type, f.default is dataclasses.MISSING) for f in dataclasses.fields(cls)}
    elif kind == 'attrs':
        ref = {f.name: (f.type, f.default is attr.NOTHING) for f in cls.__attrs_attrs__}
    else:
        ref = {f: (t, f in cls.__required_keys__) for f, t in cls.__annotations__.items()}
        if {f: (eval(t, c.ns), q) for f, (t, q) in fields.items()} != ref:
            raise Skip
    l = o.loader()
    for _ in range(2):
        v = {f: r.choice([1, '2', 'x', None, 2.5, ['3'], [4]]) for f in r.sample(names, r.choice([1, 2, 3, 3]))}
        c.log = (T, v)
        k, x = run_load(l, v, cls)
        if k == 'bad':
            bad('load(%s, %s) raised %s', v, T, desc(x))
        want = {f: elem(o, v[f], ref[f][0]) for f in v if f in ref}
        if any(q and f not in v for f, (t, q) in ref.items()) or any(w is None for w in want.values()):
            if k == 'ok':
                bad('load(%s, %s) = %s; the fields are %s', v, T, x, ref)
            continue
        if k != 'ok':
            bad('load(%s, %s) raised %s; the fields are %s', v, T, desc(x), ref)
        for f, w in want.items():
            g = x[f] if kind == 'typeddict' else getattr(x, f)
            if not any(same(g, q) for q in w):
                bad('load(%s, %s) = %s; the field %s is of type %s', v, T, x, f, ref[f][0])
    return kind + str(sorted(ref)), bool(ref)


def c05_pep563(c):
    """the same classes with deferred annotations"""
    r = c.r
    td = rand_obj(c, kind=r.choice(['dataclass', 'namedtuple', 'typeddict']))
    src = '\n'.join(c.srcs)
    if 'NotRequired' in src or 'attr.' in src or re.search(r"'[A-Z]\d+'", src):
        raise Skip
    import __future__
    m = types.ModuleType('pep563case')
    m.__dict__.update(c.ns)
    m.__dict__['__name__'] = m.__name__
    o = c.o
    sys.modules[m.__name__] = m
    try:
        for q in c.srcs:
            exec(compile(q, '<pep563>', 'exec', dont_inherit=True, flags=__future__.annotations.compiler_flag), m.__dict__)
        T = getattr(m, td.name)
        l = o.loader(pep563=True)
        own = {id(q) for q in c.ns.values() if isinstance(q, type) and q.__module__ not in sys.modules or isinstance(q, type) and q.__module__ == c.ns.get('__name__')}
        for _ in range(2):
            v = td.data(c, td.gen(c, 2))
            if r.random() < .5:
                v = mutate(c, v)
            if not no_iters(v) or mentions(v, own):
                raise Skip
            c.log = (td, v)
            a = run_load(o.loader(), v, td.py)
            b = run_load(l, v, T)
            if ' at 0x' in repr(a[1]):
                continue
            if a[0] != b[0] or (repr(a[1]) != repr(b[1]) if a[0] == 'ok' else type(a[1]) is not type(b[1])):
                bad('with deferred annotations and pep563, load(%s, %s): %s; without: %s', v, td.src, b, a)
        return 'pep563' + td.src, True
    finally:
        del sys.modules[m.__name__]


def c05_capture(c):
    """classes whose constructor records what it is given"""
    r = c.r
    o = c.o
    n = c.fresh('C')
    tds = {q: rand_type(c, r.choice([0, 1])) for q in r.sample(Obj.NAMES, r.randrange(1, 4))}
    how = r.choice(['dataclass', 'namedtuple'] + (['attrs'] if attr else []))
    names = list(tds)
    nd = {q for q in names if r.random() < .5}
    names.sort(key=lambda q: q in nd)
    if how == 'dataclass':
        s = '@dataclass(init=False)\nclass %s:\n' % n
        for q in names:
            s += '    %s: %s%s\n' % (q, tds[q].src, ' = dcfield(default=None)' if q in nd else '')
        s += '    def __init__(_me, **kw):\n        _me.captured = kw\n'
    elif how == 'attrs':
        s = '@attr.s(init=False)\nclass %s:\n' % n
        for q in names:
            s += '    %s = attr.ib(type=%s%s)\n' % (q, tds[q].src, ', default=None' if q in nd else '')
        s += '    def __init__(_me, **kw):\n        _me.captured = kw\n'
    else:
        if 'count' in names:
            raise Skip
        s = 'class %s_(NamedTuple):\n' % n
        for q in names:
            s += '    %s: %s%s\n' % (q, tds[q].src, ' = None' if q in nd else '')
        s += 'class %s(%s_):\n    __annotations__ = %s_.__annotations__\n    def __new__(cls, **kw):\n        x = tuple.__new__(cls, [None] * %d)\n        x.captured = kw\n        return x\n' % (n, n, n, len(names))
    c.add(s)
    py = c.ns[n]
    d = {}
    for q in names:
        if q not in nd or r.random() < .5:
            d[q] = tds[q].data(c, tds[q].gen(c, 2))
    d2 = dict(d)
    ex = {}
    if not o.failonextra and r.random() < .5:
        ex = {q: 1 for q in ('zz', 'captured') if q not in d}
    d2.update(ex)
    c.log = (n, d2)
    k, x = run_load(o.loader(), d2, py)
    want = {}
    for q in d:
        a, b = run_load(o.loader(), d[q], tds[q].py)
        if a != 'ok':
            if k == 'ok':
                bad('load(%s, %s) succeeds, field %s can not be loaded', d2, s, q)
            return n, False
        want[q] = b
    if k != 'ok':
        if k == 'te':
            bad('load(%s, %s) fails: %s', d2, s, desc(x))
        return n, False
    if not same(dict(x.captured), want):
        bad('load(%s, %s): the constructor received %s, expected %s', d2, s, x.captured, want)
    return how + str(len(names)), True


# ---------------------------------------------------------------------- C06
def inject(c, td, data):
    """list of (description, new data, kind) having something that no field takes"""
    out = []
    r = c.r
    for path, t, rep, cur in positions(td, data):
        if isinstance(t, Obj) and isinstance(cur, dict):
            keys = {t.key(f) for f in t.fields}
            pool = ['zz', 'extra_', 'A', '', ' ', 'self', 'é2', '__class__', 'trace']
            if t.kind in ('dataclass', 'attrs'):
                pool += [f.name for f in t.fields if t.key(f) != f.name]
                pool += [v for f in t.fields for v in f.meta.values() if isinstance(v, str)]
            if t.kind == 'attrs':
                pool += [t.initname(f) for f in t.fields]
            pool += [f.name for f in t.fields if f.meta.get(c.o.mangle_key)] * 2
            pool += [f.name.upper() for f in t.fields]
            q = r.choice(pool)
            if r.random() < .1:
                q = r.choice([5, None, 2.5, (1,), b'a', True])
            pool += [q for f in t.fields if not f.init for q in (f.name, t.key(f), t.initname(f))] * 3
            q = r.choice(pool) if r.random() < .3 else q
            keys -= {t.key(f) for f in t.fields if not f.init}
            if q in keys:
                continue
            z = dict(cur)
            if r.random() < .3:
                z = {q: junk(c, 1), **z}
            else:
                z[q] = junk(c, 1)
            out.append(('%s gets the key %r' % (render(path), q), rep(z)))
        elif isinstance(t, Tup) and isinstance(cur, list) and len(cur) == len(t.subs):
            z = cur + [junk(c, 1) for _ in range(r.choice([1, 1, 2, 5]))]
            out.append(('%s gets %d more elements' % (render(path), len(z) - len(cur)), rep(r.choice([list, tuple])(z))))
    return out


def c06(c):
    r = c.r
    td = rand_type(c, r.choice([1, 2, 3]), union=False, kinds=['object', 'object', 'tuple', 'list', 'dict', 'vtuple'], objopts=[q for q in ('alias', 'conv', 'noinit', 'norepr') if r.random() < .3])
    v = td.data(c, td.gen(c))
    o1 = c.o.with_(failonextra=True)
    o0 = c.o.with_(failonextra=False)
    a = run_load(o0.loader(), v, td.py)
    b = run_load(o1.loader(), v, td.py)
    c.log = (td, v)
    if a[0] != b[0] or a[0] == 'ok' and not same(a[1], b[1]):
        bad('data without extras: load(%s, %s) is %s with failonextra=False, %s with failonextra=True', v, td.src, a, b)
    if a[0] != 'ok':
        return td.src, False
    inj = inject(c, td, v)
    if not inj:
        return td.src, False
    l0, l1 = o0.loader(), o1.loader()
    if r.random() < .5:
        run_load(l1, v, td.py)
        run_load(l0, v, td.py)
    for what, v2 in r.sample(inj, min(len(inj), 3)):
        c.log = (td, v2)
        k, x = run_load(l0, v2, td.py)
        if k != 'ok' or not same(x, a[1]):
            bad('failonextra=False, %s: load(%s, %s): %s, without the extra it gives %s', what, v2, td.src, x if k == 'ok' else desc(x), a[1])
        k, x = run_load(l1, v2, td.py)
        if k != 'te' or not isinstance(x, TypedloadValueError):
            bad('failonextra=True, %s: load(%s, %s): %s', what, v2, td.src, x if k == 'ok' else desc(x))
    return td.src, True


# ---------------------------------------------------------------------- C07
def c07(c):
    r = c.r
    kind = r.choice(['dataclass'] + (['attrs'] if attr else []))
    td = Obj(c, kind, lambda q: Basic(c, r.choice([int, str])) if r.random() < .8 else rand_type(c, 1), nf=r.choice([1, 2, 3, 4]), mangle=True,
             opts=[q for q in ('norepr', 'noinit', 'alias', 'conv') if r.random() < .25])
    o = c.o.with_(basiccast=True)
    keyss = ['name', 'alt', 'none']
    ls = {q: o.with_(mangle_key=q).loader() for q in keyss}
    ds = {q: o.with_(mangle_key=q, hidedefault=False).dumper() for q in keyss}
    nontriv = False
    for _ in range(r.choice([1, 2, 4])):
        mk = r.choice(keyss)
        oo = o.with_(mangle_key=mk)
        c.o.mangle_key = mk
        x = td.gen(c)
        # load from the mangled keys
        data = td.data(c, x, missing=False)
        raw = {}
        for f in td.fields:
            if f.init and td.key(f, oo) in data:
                raw[f.name] = data[td.key(f, oo)]
        if r.random() < .3:
            data = dictlike(c, data, r.choice(['dict', 'ordered', 'ns', 'mapish', 'sub']))
        c.log = (td, data)
        k, y = run_load(ls[mk], data, td.py)
        failed, want = obj_expect(td, oo, raw)
        if not failed:
            if k != 'ok':
                bad('mangle_key=%r: load(%s, %s) fails: %s', mk, data, td.src, desc(y))
            check_obj(td, y, want, data)
        # the python name is not accepted instead
        hidden = [f for f in td.fields if f.init and td.key(f, oo) != f.name and f.name not in {td.key(g, oo) for g in td.fields}]
        if hidden:
            nontriv = True
            f = r.choice(hidden)
            d2 = dict(data.items()) if not isinstance(data, argparse.Namespace) else dict(data.__dict__)
            val = d2.pop(td.key(f, oo))
            d2[f.name] = val
            c.log = (td, d2)
            k, y = run_load(ls[mk], d2, td.py)
            if td.required(f):
                if k == 'ok':
                    bad('mangle_key=%r: load(%s, %s) accepts the python name %s instead of %s', mk, d2, td.src, f.name, td.key(f, oo))
            elif oo.failonextra:
                if k == 'ok':
                    bad('mangle_key=%r failonextra: load(%s, %s) accepts the python name %s', mk, d2, td.src, f.name)
            elif not failed:
                if k != 'ok':
                    bad('mangle_key=%r: load(%s, %s) fails: %s', mk, d2, td.src, desc(y))
                w2 = dict(want)
                del w2[f.name]
                check_obj(td, y, w2, d2)
        # dump
        k, y = run_dump(ds[mk], x)
        if k == 'ok':
            want = {}
            for f in td.fields:
                if not f.repr:
                    continue
                a, b = run_dump(o.with_(mangle_key=mk, hidedefault=False).dumper(), getattr(x, f.name))
                want[td.key(f, oo)] = b
            if any(f.meta.get(mk) for f in td.fields):
                nontriv = True
            if type(y) is not dict or not same(y, want):
                bad('mangle_key=%r: dump(%s) = %s, expected %s', mk, x, y, want)
    return td.src + str([f.meta for f in td.fields]), nontriv


# ---------------------------------------------------------------------- C08
def c08(c):
    r = c.r
    o = c.o
    basics = [q for q in o.basics() if q is not NoneType]
    t = r.choice(basics)
    vals = [0, 1, -3, True, False, 2.5, 0.0, 3.0, '', 'a', '12', '1.5', 'True', b'a', b'', None, SubInt(4), SubStr('q'), float('nan'), float('inf'), 10**400, '1' * 5000, [], [1], {}, (1,),
            1j, 10**20, '٣', ' 7 ', '1_0', '0x10', 'nan', 'é', object, bytearray(b'a'), datetime.date(2020, 1, 1), OnlyLen(), enum.IntEnum('IE', 'X')(1), -0.0, '-0']
    if r.random() < .4:
        exact = [v for v in vals if type(v) is t] or vals
        v = r.choice(exact)
    else:
        v = r.choice(vals)
    # where the basic type is expected
    wrap = r.randrange(12)
    n = c.fresh('C')
    td = Basic(c, t)
    T, D, get = t, v, lambda x: x
    nested = wrap != 0
    for _ in range(r.choice([1, 1, 1, 2])):
        T, D, get = wrap_type(c, wrap, T, D, get)
        nested = nested or wrap != 0
        wrap = r.randrange(12)
    c.log = (T, D)
    l = o.loader()
    for _ in range(r.choice([1, 1, 2])):
        k, x = run_load(l, D, T)
        if k in ('bad', 'deep'):
            return str(T), False
        if k == 'ok':
            try:
                y = get(x)
            except Exception as e:
                raise Skip
        if type(v) is t:
            if k != 'ok':
                bad('%s is exactly a %s: load(%s, %s) with basiccast=%r raised %s', v, t.__name__, D, T, o.basiccast, desc(x))
            if not (y is v or y != y and v != v) or type(y) is not type(v):
                bad('%s is exactly a %s: load(%s, %s) changes it into %s', v, t.__name__, D, T, y)
        elif not o.basiccast:
            if k == 'ok' and not (y is v and isinstance(v, t)):
                bad('basiccast=False: load(%s, %s) = %s', D, T, x)
        else:
            try:
                w = ('ok', t(v))
            except Exception as e:
                w = ('fail', e)
            if w[0] == 'ok':
                if k != 'ok':
                    bad('basiccast=True: load(%s, %s) raised %s, %s(%s) is %s', D, T, desc(x), t.__name__, v, w[1])
                if not same(y, w[1]) and not (nested and y is v and isinstance(v, t)):
                    bad('basiccast=True: load(%s, %s) = %s, %s(%s) is %s', D, T, x, t.__name__, v, w[1])
            elif k == 'ok' and not (nested and y is v and isinstance(v, t)):
                bad('basiccast=True: load(%s, %s) = %s, %s(%s) fails', D, T, x, t.__name__, v)
    return str(T) + type(v).__name__, type(v) is not t


def wrap_type(c, wrap, T, D, get):
    r = c.r
    n = c.fresh('W')
    hashd = True
    try:
        hash(D)
    except TypeError:
        hashd = False
    if wrap in (1, 2):
        i = r.randrange(3)
        fill = {int: 5, str: 'f', bool: True, float: 1.5, bytes: b'f'}.get(T, None)
        k = i if fill is not None else 0
        return r.choice([List, list])[T], [fill] * k + [D], lambda x: get(x[k])
    if wrap == 3:
        return r.choice([Tuple, tuple])[T, ...], [D], lambda x: get(x[0])
    if wrap == 4:
        return Tuple[int, T], [1, D], lambda x: get(x[1])
    if wrap == 5 :
        return Dict[str, T], {'a': D}, lambda x: get(x['a'])
    if wrap == 6 and isinstance(T, type) and hashd:
        return Dict[T, int], {D: 1}, lambda x: get(list(x)[0])
    if wrap == 7 and isinstance(T, type) and hashd:
        s = r.choice([Set, FrozenSet])
        return s[T], [D], lambda x: get(list(x)[0])
    if wrap == 8:
        c.ns['WT'] = T
        c.add('class %s(NamedTuple):\n    a: WT\n' % n)
        return c.ns[n], {'a': D}, lambda x: get(x.a)
    if wrap == 9:
        c.ns['WT'] = T
        c.add('@dataclass\nclass %s:\n    a: WT\n' % n)
        return c.ns[n], {'a': D}, lambda x: get(x.a)
    if wrap == 10:
        c.ns['WT'] = T
        c.add('class %s(TypedDict):\n    a: WT\n' % n)
        return c.ns[n], {'a': D}, lambda x: get(x['a'])
    if wrap == 11:
        if attr and r.random() < .5:
            c.ns['WT'] = T
            c.add('@attr.s\nclass %s:\n    a = attr.ib(type=WT)\n' % n)
            return c.ns[n], {'a': D}, lambda x: get(x.a)
        return NewType(n, T), D, get
    return T, D, get


# ---------------------------------------------------------------------- dump
def ref_dump(x, o, c):
    """what dump(x) has to be"""
    t = type(x)
    if t in o.basics():
        return x
    td = c.classes.get(t)
    if td is not None:
        r = {}
        for f in td.fields:
            v = getattr(x, f.name)
            if not f.repr:
                continue
            if o.hidedefault and f.has_default() and v == f.dflt():
                continue
            r[td.key(f, o)] = ref_dump(v, o, c)
        return r
    if isinstance(x, enum.Enum):
        return ref_dump(x.value, o, c)
    if isinstance(x, (list, tuple, set, frozenset)):
        return [ref_dump(i, o, c) for i in x]
    if isinstance(x, dict):
        return {ref_dump(k, o, c): ref_dump(v, o, c) for k, v in x.items()}
    if isinstance(x, (datetime.date, datetime.time)):
        if o.isodates:
            return x.isoformat()
        if isinstance(x, datetime.datetime):
            return [x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond]
        if isinstance(x, datetime.date):
            return [x.year, x.month, x.day]
        return [x.hour, x.minute, x.second, x.microsecond]
    if isinstance(x, datetime.timedelta):
        return x.total_seconds()
    if isinstance(x, re.Pattern):
        return x.pattern
    return str(x)


def isplain(x, o):
    if type(x) in (list,):
        return all(isplain(i, o) for i in x)
    if type(x) is dict:
        return all(isplain(k, o) and isplain(v, o) for k, v in x.items())
    return type(x) in o.basics()


def dump_value(c, **kw):
    td = rand_type(c, c.r.choice([1, 2, 3, 3]), objopts=[q for q in ('norepr', 'noinit', 'alias') if c.r.random() < .3], **kw)
    return td, td.gen(c, 3)


UNSUPPORTED = [lambda: object(), lambda: 1j, lambda: b'abc', lambda: bytearray(b'a'), lambda: range(3), lambda: (i for i in []), lambda: int, lambda: SubInt(7), lambda: SubStr('a'),
               lambda: collections.deque([1]), lambda: types.MappingProxyType({}), lambda: lambda: 3, lambda: Ellipsis, lambda: Unhash(), lambda: ValueError('x'), lambda: {}.keys(),
               lambda: argparse.Namespace(a=1), lambda: Reiter([1]), lambda: Mapish({}), Unprintable, lambda: argparse.Namespace, lambda: collections.deque([10**5000])]


@dataclasses.dataclass
class _CDefault:
    a: int = 3


class Magic:
    """has every attribute"""
    def __getattr__(self, n):
        if n.startswith('__') and n not in ('__attrs_attrs__', '__dataclass_fields__'):
            raise AttributeError(n)
        return 3


# classes are no values
CLASSES = [lambda: _CDefault, lambda: _CD, lambda: _CE, lambda: _CN, lambda: _CT, lambda: _CA if attr else _CD, lambda: List[int], lambda: dict, lambda: datetime.date, Magic]
UNSUPPORTED += CLASSES


def c09(c):
    r = c.r
    o = c.o
    o.isodates = o.isodates or r.random() < .5
    td, x = dump_value(c)
    if not o.isodates:
        o.isodates = False
    d = o.dumper()
    w = r.random()
    if w < .25:
        # something unsupported, inside of the value
        q = r.choice(UNSUPPORTED)()
        if o.bytes and isinstance(q, bytes):
            raise Skip
        how = r.randrange(9)
        n = c.fresh('U')
        if how == 0:
            y = [x, q]
        elif how == 1:
            y = (q,)
        elif how == 2:
            y = {'a': x, 'b': q}
        elif how == 3:
            try:
                y = {q: 1}
            except TypeError:
                y = [[q]]
        elif how == 4:
            c.add('class %s(NamedTuple):\n    a: Any\n    b: Any = 3\n' % n)
            y = c.ns[n](x, q) if r.random() < .5 else c.ns[n](q)
        elif how == 5:
            c.add('@dataclass\nclass %s:\n    a: Any\n    b: List[Any]\n' % n)
            y = c.ns[n](x, [q]) if r.random() < .5 else c.ns[n](q, [])
        elif how == 6:
            try:
                y = {q}
            except TypeError:
                y = q
        elif how == 7 and attr:
            c.add('@attr.s\nclass %s:\n    a = attr.ib(type=Any)\n' % n)
            y = c.ns[n]([q])
        else:
            y = q
        for _ in range(r.choice([0, 0, 1])):
            y = r.choice([lambda: [y], lambda: {'z': y}, lambda: (1, y)])()
        c.log = ('dump', y)
        if r.random() < .5:
            run_dump(d, x)
        k, e = run_dump(d, y)
        if k != 'te' or not isinstance(e, TypedloadValueError):
            bad('dump(%s) has to be rejected (%s): %s', y, q, e if k == 'ok' else desc(e))
        return 'unsupported %s' % type(q), True
    c.log = ('dump', x)
    for _ in range(r.choice([1, 1, 2])):
        k, y = run_dump(d, x)
        if k != 'ok':
            bad('dump(%s) raised %s', x, desc(y))
        if not isplain(y, o):
            bad('dump(%s) = %s is not plain data', x, y)
        want = ref_dump(x, o, c)
        if not same(y, want):
            bad('dump(%s) = %s, expected %s', x, y, want)
    return td.src, not isinstance(td, Basic)


def rt_type(c, d=3, hashable=False, dumphash=False):
    """unambiguous types"""
    r = c.r

    def sub(**kw):
        a = dict(hashable=hashable, dumphash=dumphash)
        a.update(kw)
        return rt_type(c, d - 1, **a)
    if d <= 0 or r.random() < .15:
        for _ in range(20):
            t = leaf(c, hashable, dumphash)
            if isinstance(t, Pat) and t.of is bytes:
                continue
            if isinstance(t, AnyTD):
                t.plain_only = True
            return t
        return Basic(c, int)
    k = r.choice(['list', 'set', 'frozenset', 'vtuple', 'tuple', 'dict', 'dict', 'union', 'union', 'newtype', 'object', 'object', 'object', 'rec', 'leaf'])
    if k == 'leaf' or dumphash and k not in ('newtype', 'union'):
        return rt_type(c, 0, hashable, dumphash)
    if k == 'newtype':
        return NewT(c, sub())
    if hashable and k in ('list', 'set', 'dict', 'rec'):
        k = 'vtuple'
    if k in ('list', 'vtuple'):
        return Seqs(c, k, sub())
    if k in ('set', 'frozenset'):
        return Seqs(c, k, sub(hashable=True))
    if k == 'tuple':
        return Tup(c, [sub() for _ in range(r.choice([0, 1, 2, 3]))])
    if k == 'dict':
        return Dct(c, rt_type(c, d - 1, True, True), sub())
    if k == 'rec':
        return rec_object(c, lambda: rt_type(c, 0))
    if k == 'union':
        w = r.random()
        basics = [Basic(c, t) for t in (int, str, float, bool)]
        if dumphash or hashable or w < .35:
            subs = r.sample(basics + [NoneTD(c)], r.randrange(2, 5))
            return Un(c, subs)
        if w < .6:
            s = sub()
            if not none_free(s):
                return s
            subs = [s, NoneTD(c)]
            if r.random() < .3:
                subs.reverse()
            return Un(c, subs)
        if w < .8:
            u = tagged_union(c, lambda: rt_type(c, 1), opts=('tagreq',))
            if r.random() < .3:
                u = Un(c, list(u.subs) + [NoneTD(c)])
            return u
        subs = r.sample(basics, r.randrange(1, 3)) + [r.choice([lambda: Seqs(c, 'list', sub()), lambda: Dct(c, Basic(c, str), sub()), lambda: Tup(c, [sub(), sub()])])()]
        r.shuffle(subs)
        return Un(c, subs)
    kind = r.choice(OBJKINDS)
    if hashable:
        kind = 'namedtuple'
    return Obj(c, kind, lambda q: sub(), opts=[q for q in ('noinit', 'alias') if r.random() < .3])


def none_free(s):
    """no value of the type dumps to a basic value None, or to something the union would take as basic"""
    while isinstance(s, NewT):
        s = s.sub
    return not isinstance(s, (NoneTD, AnyTD, Un, OptFwd)) and not (isinstance(s, Lit) and None in s.values)


# ---------------------------------------------------------------------- C10
def c10(c):
    r = c.r
    o = c.o
    o.isodates = True if r.random() < .6 else False
    o.uniondebugconflict = False
    td = rt_type(c, r.choice([1, 2, 3, 3]))
    if o.failonextra and any(not f.init for t in td.walk() if isinstance(t, Obj) for f in t.fields):
        o.failonextra = False       # what the constructor does not take is dumped
    x = td.gen(c, 4)
    d, l = o.dumper(), o.loader()
    c.log = (td, x)
    if r.random() < .4:
        y = td.gen(c, 3)
        run_load(l, run_dump(d, y)[1], td.py)
    k, y = run_dump(d, x)
    if k != 'ok':
        bad('dump(%s) raised %s', x, desc(y))
    if r.random() < .3 and all_str_keys(y) and not o.bytes:
        import json
        try:
            y2 = json.loads(json.dumps(y))
            if same(y2, y):
                y = y2
        except Exception:
            pass
    k, z = run_load(l, y, td.py)
    if k != 'ok':
        bad('load(dump(%s), %s) raised %s; the dump is %s', x, td.src, desc(z), y)
    if not same(x, z) and not x == z:
        bad('load(dump(%s), %s) = %s; the dump is %s', x, td.src, z, y)
    return td.src, not isinstance(td, Basic)


def all_str_keys(y):
    if isinstance(y, dict):
        return all(isinstance(k, str) and all_str_keys(v) for k, v in y.items())
    if isinstance(y, list):
        return all(all_str_keys(i) for i in y)
    return True


# ---------------------------------------------------------------------- C11
def c11(c):
    r = c.r
    kind = r.choice(['namedtuple', 'dataclass'] + (['attrs', 'attrs'] if attr else []))
    simple = r.random() < .6
    td = Obj(c, kind, lambda q: rand_type(c, 0 if simple else 1), nf=r.choice([1, 2, 3, 4]), opts=[q for q in ('norepr', 'noinit') if r.random() < .3])
    o = c.o
    ds = {}
    w = r.random()
    if w < .12 and attr:
        return c11_selfdefault(c)
    if w < .18:
        return c11_factory(c)
    nontriv = False
    # values equal to defaults but of another type, from time to time
    for _ in range(r.choice([1, 2, 3, 5])):
        hd = r.random() < .7
        oo = o.with_(hidedefault=hd)
        if hd not in ds:
            ds[hd] = oo.dumper()
        p = {}
        for f in td.fields:
            if not f.init:
                continue
            if f.has_default():
                w = r.random()
                if w < .3:
                    continue
                if w < .55:
                    v = f.dflt()
                    alt = {0: False, 1: True, '': '', 1.0: 1}
                    try:
                        if r.random() < .3 and v in alt:
                            v = alt[v]
                    except TypeError:
                        pass
                    p[td.initname(f)] = copy.deepcopy(v) if not isinstance(v, re.Pattern) else v
                    continue
                if w < .75:
                    p[td.initname(f)] = r.choice([None, 0, '', [], {}, False, 0.0, (), 1])
                    continue
            p[td.initname(f)] = f.td.gen(c, 2)
        x = td.py(**p)
        if not td.frozen and r.random() < .3 and kind == 'dataclass':
            for f in td.fields:
                if not f.init and r.random() < .5:
                    try:
                        setattr(x, f.name, f.td.gen(c, 2))
                    except Exception:
                        pass
        c.log = ('dump', x)
        k, y = run_dump(ds[hd], x)
        if k != 'ok':
            return td.src, False
        want = {}
        for f in td.fields:
            v = getattr(x, f.name)
            if not f.repr:
                continue
            if hd and f.has_default() and v == f.dflt():
                nontriv = True
                continue
            want[td.key(f, oo)] = run_dump(oo.dumper(), v)[1]
        if type(y) is not dict or not same(y, want):
            bad('hidedefault=%r: dump(%s) = %s, expected %s', str(hd), x, y, want)
        # changing a dump, or a value, does not matter later
        if r.random() < .3:
            y.clear()
            for f in td.fields:
                v = getattr(x, f.name)
                if isinstance(v, list) and f.factory:
                    v.append(3)
    return td.src, nontriv


def c11_factory(c):
    """default factories that give something else every time (today, a counter)"""
    r = c.r
    n = c.fresh('C')
    now = [0]
    c.ns['tick'] = lambda: now[0]
    c.ns['ticks'] = lambda: [now[0]]
    how = r.choice(['dataclass'] + (['attrs'] if attr else []))
    if how == 'dataclass':
        c.add('@dataclass\nclass %s:\n    k: str = "k"\n    a: int = dcfield(default_factory=tick)\n    b: List[int] = dcfield(default_factory=ticks)\n' % n)
    else:
        c.add('@attr.s\nclass %s:\n    k = attr.ib(type=str, default="k")\n    a = attr.ib(type=int, factory=tick)\n    b = attr.ib(type=List[int], factory=ticks)\n' % n)
    C = c.ns[n]
    hide = r.random() < .8
    d = c.o.with_(hidedefault=hide).dumper()
    for _ in range(r.randrange(1, 5)):
        a, b, now[0] = r.randrange(3), [r.randrange(3)], r.randrange(3)
        x = C(a=a, b=b)
        c.log = ('dump', x, now[0])
        k, y = run_dump(d, x)
        want = {} if hide else {'k': 'k', 'a': a, 'b': b}
        if hide and a != now[0]:
            want['a'] = a
        if hide and b != [now[0]]:
            want['b'] = b
        if k != 'ok' or not same(y, want):
            bad('dump(%s) = %s, expected %s, where the factory gives %s now', x, y, want, now[0])
    return 'factory', True


def c11_selfdefault(c):
    r = c.r
    n = c.fresh('C')
    c.add('@attr.s\nclass %s:\n    a = attr.ib(type=int)\n    b = attr.ib(type=int, default=attr.Factory(lambda s: s.a + 1, takes_self=True))\n    c = attr.ib(type=list, factory=list)\n' % n)
    C = c.ns[n]
    d = c.o.with_(hidedefault=True).dumper()
    for _ in range(3):
        a, b = r.randrange(5), r.randrange(6)
        x = C(a=a, b=b, c=[1] * r.randrange(2))
        k, y = run_dump(d, x)
        want = {'a': a}
        if b != a + 1:
            want['b'] = b
        if x.c:
            want['c'] = x.c
        if k != 'ok' or not same(y, want):
            bad('dump(%s) = %s, expected %s', x, y, want)
    return 'selfdefault', True


# ---------------------------------------------------------------------- C12
def type_snap(c):
    out = []
    for n, t in list(c.ns.items()):
        if isinstance(t, type) and getattr(t, '__module__', '') == 'case':
            e = [n]
            for a in ('__annotations__', '__dataclass_fields__', '_field_defaults', '__required_keys__', '__optional_keys__', '__members__', '__attrs_attrs__', '_fields', '__dict__'):
                v = t.__dict__.get(a) if a != '__dict__' else None
                if a == '__dict__':
                    e.append(tuple(sorted((k, id(v)) for k, v in t.__dict__.items() if k not in ('__doc__', '__slotnames__') and (k != '__annotations__' or v))))
                elif isinstance(v, dict) or isinstance(v, types.MappingProxyType):
                    if v or a != '__annotations__':
                        e.append((a, tuple((k, repr(v[k])) for k in v)))
                elif v is not None:
                    e.append((a, repr(v)))
            out.append(tuple(e))
    return out


def containers(x, out, d=0):
    """ids of the mutable containers in x"""
    if d > 60:
        return
    if isinstance(x, (list, dict, set, collections.deque)):
        if id(x) in out:
            return
        out[id(x)] = x
    if isinstance(x, (list, tuple, set, frozenset)):
        for i in x:
            containers(i, out, d + 1)
    elif isinstance(x, dict):
        for k, v in x.items():
            containers(k, out, d + 1)
            containers(v, out, d + 1)
    elif isinstance(x, enum.Enum):
        containers(x.value, out, d + 1)
    else:
        f = field_names(type(x))
        for n in f or ():
            containers(getattr(x, n, None), out, d + 1)
        for n in f or ():
            q = type(x).__dict__.get('__dataclass_fields__', {}).get(n) if isinstance(type(x).__dict__.get('__dataclass_fields__', None), dict) else None


def c12(c):
    r = c.r
    if r.random() < .5:
        td = rand_type(c, r.choice([2, 3]), objopts=[q for q in ('conv', 'alias', 'noinit') if r.random() < .3])
        l = c.o.loader()
        td.py
        nt = False
        for _ in range(r.choice([1, 2])):
            v = make_data(c, td)
            if r.random() < .3:
                v = deep_wrap(c, v)
            if not no_iters(v):
                continue
            c.log = (td, v)
            a, ta = snap(v), type_snap(c)
            k, x = run_load(l, v, td.py)
            if snap(v) != a:
                bad('load(..., %s) changed its input, now it is %s', td.src, v)
            tb = type_snap(c)
            if tb != ta:
                for p, q in zip(ta, tb):
                    if p != q:
                        bad('load(%s, %s) changed the type: before %s, after %s', v, td.src, str([i for i in p if i not in q])[:600], str([i for i in q if i not in p])[:600])
                bad('load(%s, %s) changed the types', v, td.src)
            nt = True
        return td.src, nt
    o = c.o
    td, x = dump_value(c)
    if r.random() < .3:
        x = [x, {'q': [x]}]
        x.append(x[0])
    a, ta = snap(x), type_snap(c)
    c.log = ('dump', x)
    d = o.dumper()
    dumps = []
    for _ in range(2):
        k, y = run_dump(d, x)
        if snap(x) != a:
            bad('dump() changed the object, now it is %s', x)
        tb = type_snap(c)
        if tb != ta:
            for p, q in zip(ta, tb):
                if p != q:
                    bad('dump() changed the type of %s: before %s, after %s', x, str([i for i in p if i not in q])[:600], str([i for i in q if i not in p])[:600])
            bad('dump() changed the types of %s', x)
        if k != 'ok':
            break
        m, n = {}, {}
        containers(x, m)
        containers(y, n)
        for i in n:
            if i in m:
                bad('dump(%s) = %s shares the container %s with the object', x, y, n[i])
        for prev in dumps:
            for i in n:
                if i in prev and n[i]:
                    bad('two dumps of %s share the container %s', x, n[i])
        dumps.append(n)
        # defaults of the classes
        for C, t in c.classes.items():
            for f in t.fields:
                if f.default is not NOBAD and id(f.default) in n:
                    bad('dump(%s) shares the default of %s.%s', x, t.src, f.name)
        # changing the dump does not change the object
        for q in n.values():
            if isinstance(q, list):
                q.append('changed')
            elif isinstance(q, dict):
                q['changed'] = 1
        if snap(x) != a:
            bad('changing the dump changes the object %s', x)
    return td.src, bool(dumps)


def deep_wrap(c, v):
    """other containers having the same content"""
    r = c.r
    if isinstance(v, list):
        y = [deep_wrap(c, i) for i in v]
        return r.choice([list, list, tuple, collections.deque, SubList])(y)
    if isinstance(v, dict):
        return dictlike(c, {k: deep_wrap(c, i) for k, i in v.items()})
    return v


# ---------------------------------------------------------------------- C13
def outcome(k, x):
    if k == 'ok':
        return ('ok', x)
    return ('fail', type(x).__name__)


def same_outcome(a, b):
    return a[0] == b[0] and (same(a[1], b[1]) if a[0] == 'ok' else a[1] == b[1])


def c13(c):
    r = c.r
    o = c.o
    w = r.random()
    if w < .02:
        return c11_factory(c)
    if w < .04:
        return c13_shared(c)
    if w < .06:
        return c13_transient(c)
    if r.random() < .5:
        tds = []
        pool = []

        def mk():
            w = r.random()
            if pool and w < .35:
                t = r.choice(pool)
                s = r.choice(['list', 'vtuple', 'dictv', 'opt', 'tuple', 'field', 'self', 'set', 'dictk'])
                if s == 'self':
                    return t
                if s in ('list', 'vtuple'):
                    return Seqs(c, s, t)
                if s == 'set' and t.hashable:
                    return Seqs(c, s, t)
                if s == 'dictk' and t.hashable and t.dumphash:
                    return Dct(c, t, r.choice(pool))
                if s == 'dictv':
                    return Dct(c, Basic(c, r.choice([str, int])), t)
                if s == 'opt' and not isinstance(t, (Un, NoneTD, AnyTD, OptFwd)):
                    return Un(c, [t, NoneTD(c)])
                if s == 'tuple':
                    return Tup(c, [t, Basic(c, int)])
                return Obj(c, r.choice(OBJKINDS), lambda q: t, nf=1)
            if w < .5:
                return union_td(c)
            if w < .6 and pool:
                # another class having the same name
                same_name = [t for t in pool if isinstance(t, Obj) and not any(isinstance(q, Fwd) for q in t.walk())]
                if same_name:
                    t = r.choice(same_name)
                    t.py, t.src
                    n = Obj(c, r.choice(OBJKINDS), lambda q: rand_type(c, 1), name=t.name)
                    # reachable under another name in the namespace
                    al = c.fresh('S')
                    c.ns[al] = n.py
                    c.ns[t.name] = t.py
                    c.lines.append('%s = %s  # same name, another class' % (al, t.name))
                    n.src = al
                    return n
            return rand_type(c, r.choice([1, 2, 2]))
        for _ in range(r.choice([2, 3, 4])):
            t = mk()
            if any(isinstance(q, Fwd) for q in t.walk()):
                # self recursive types resolve by name: names are unique, fine
                pass
            tds.append(t)
            pool.append(t)
        steps = []
        for _ in range(r.randrange(2, 8)):
            t = r.choice(tds)
            v = make_data(c, t, .7)
            if no_iters(v):
                steps.append((t, v))
        # two orders of the same union
        us = [t for t in tds if isinstance(t, Un)]
        if us and r.random() < .4:
            u = r.choice(us)
            u2 = Un.__new__(Un)
            u2.__dict__.update(u.__dict__)
            u2.subs = tuple(reversed(u.subs))
            u2.src = 'Union[%s]' % ', '.join(s.src for s in u2.subs)
            u2._py = None
            for _ in range(2):
                steps.append((u2, make_data(c, u, .8)))
        steps = [s for s in steps if no_iters(s[1])]
        # unions that are equal but ordered differently are one type for the typing module
        if r.random() < .06:
            return forked_history(c, o, steps)
        l = o.loader()
        for i, (t, v) in enumerate(steps):
            a = run_load(l, v, t.py)
            b = run_load(o.loader(), v, t.py)
            c.log = (t, v)
            c.hist = [(q.src, srepr(w, 100)) for q, w in steps[:i]]
            if 'bad' in (a[0], b[0]) or 'deep' in (a[0], b[0]):
                if a[0] == b[0]:
                    continue
            if not same_outcome(outcome(*a), outcome(*b)):
                bad('load(%s, %s) gives %s after %s, and %s with a new loader', v, t.src, outcome(*a), c.hist, outcome(*b))
        return ';'.join(t.src for t in tds), len(steps) > 2
    # dumper
    vals = []
    for _ in range(r.choice([2, 3])):
        t = rand_type(c, r.choice([1, 2, 3]), objopts=[q for q in ('norepr', 'noinit') if r.random() < .3])
        vals += [(t, t.gen(c, 2)) for _ in range(r.choice([1, 2]))]
        if isinstance(t, Obj) and t.kind == 'dataclass':
            t2 = Obj(c, r.choice(['dataclass', 'namedtuple']), lambda q: rand_type(c, 1), name=t.name)
            vals += [(t2, t2.gen(c, 2))]
    if r.random() < .4:
        vals += [(None, q()) for q in r.sample(UNSUPPORTED, 2)]
        if r.random() < .3:
            vals += [(None, q()) for q in r.sample(CLASSES, 3)]
        vals += [(None, SubDict(a=1)), (None, SubList([1])), (None, collections.OrderedDict(a=(1,)))]
    r.shuffle(vals)
    vals = vals * r.choice([1, 2])
    if r.random() < .06:
        return forked_dump(c, o, vals)
    d = o.dumper()
    for i, (t, x) in enumerate(vals):
        a = run_dump(d, x)
        b = run_dump(o.dumper(), x)
        c.log = ('dump', x)
        if not same_outcome(outcome(*a), outcome(*b)):
            bad('dump(%s) gives %s after %s, and %s with a new dumper', x, outcome(*a), srepr([v for _, v in vals[:i]]), outcome(*b))
        if a[0] == 'ok' and isinstance(a[1], (list, dict)) and r.random() < .3:
            a[1].clear()
    return 'dump' + ';'.join(t.src for t, _ in vals if t), len(vals) > 1


class Unsup:
    def __init__(self, x=0):
        self.x = str(x)

    def __str__(self):
        return self.x

    def __eq__(self, o):
        return type(o) is type(self) and self.x == o.x

    def __hash__(self):
        return 3


class Unsup2(Unsup):
    pass


def c13_shared(c):
    """what is done to the options of one loader or dumper changes no other one"""
    r = c.r
    o = c.o

    class Foo(NamedTuple):
        a: int
    probes = [(5, Unsup), ('x', Unsup2), ({'a': 1}, ForwardRef('Foo')), ('3', int), ([1, '2'], List[Unsup]), (1, str)]
    dprobes = [Unsup(5), Unsup2('x'), [Unsup(1)], 3, 'a']

    def try_load(l):
        return [outcome(*run_load(l, v, t)) for v, t in probes]

    def try_dump(d):
        return [outcome(*run_dump(d, v)) for v in dprobes]
    before, dbefore = o.loader(), o.dumper()
    want, dwant = try_load(before), try_dump(dbefore)
    l, d = o.loader(), o.dumper()
    other, dother = o.loader(), o.dumper()
    for _ in range(r.choice([1, 2, 3])):
        k = r.randrange(8)
        u = r.choice([Unsup, Unsup2])
        c.log = ('options changed', k, u)
        h = (lambda t, u=u: t in (u, int), lambda l_, v, t: Marker(1, v))
        dh = (lambda v, u=u: type(v) in (u, int), lambda l_, v, t: Marker(1, v))
        if k == 0:
            l.basictypes.add(u)
        elif k == 1:
            l.strconstructed.add(u)
        elif k == 2:
            if l.frefs is not None:
                l.frefs['Foo'] = Foo
        elif k == 3:
            l.handlers.insert(r.choice([0, 30]), h)
        elif k == 4:
            d.basictypes.add(u)
        elif k == 5:
            d.strconstructed.add(u)
        elif k == 6:
            d.handlers.insert(r.choice([0, 30]), dh)
        else:
            l.basictypes.discard(str)
            d.basictypes.discard(str)
    try_load(l)
    try_dump(d)
    for q, w in ((other, 'made before'), (o.loader(), 'made later'), (before, 'used before')):
        for a, b, p in zip(try_load(q), want, probes):
            if not same_outcome(a, b):
                bad('load%s of a loader %s gives %s, it gave %s before the options of another loader were changed', p, w, a, b)
    for q, w in ((dother, 'made before'), (o.dumper(), 'made later'), (dbefore, 'used before')):
        for a, b, p in zip(try_dump(q), dwant, dprobes):
            if not same_outcome(a, b):
                bad('dump(%s) of a dumper %s gives %s, it gave %s before the options of another dumper were changed', p, w, a, b)
    return 'shared', True


def c13_transient(c):
    """types that are deleted after their use, others take their addresses"""
    r = c.r
    o = c.o.with_(failonextra=False)
    l, d = o.loader(), o.dumper()
    srcs = ['list[int]', 'dict[str, int]', 'tuple[int, str]', 'set[str]', 'int | list[str]', 'list[list[int]]', 'dict[int, str]', 'tuple[str, ...]', 'frozenset[int]', 'list[str]',
            'tuple[int, ...]', 'int | None', 'str | list[int]', 'list[int | None]', 'dict[str, list[str]]']
    vals = [[1], {'a': 1}, [1, 'a'], ['a'], [['1']], {'1': 'x'}, ['x', 'y'], None, '3', 7, [1.5, None], {'a': ['b']}]
    for i in range(r.choice([10, 30])):
        w = r.random()
        v = r.choice(vals)
        if w < .7:
            src = r.choice(srcs)
            a = run_load(l, v, eval(src))
            b = run_load(o.loader(), v, eval(src))
        else:
            n, t = 'f%d' % r.randrange(3), r.choice([int, str, Any])
            k = r.randrange(3)

            def make():
                if k == 0:
                    return dataclasses.make_dataclass('C%d' % i, [(n, t)], eq=True, frozen=True)
                if k == 1:
                    return NamedTuple('C%d' % i, [(n, t)])
                return TypedDict('C%d' % i, {n: t})
            src = 'class with the field %s of type %s' % (n, t)
            v = {n: r.choice(['1', 1, None, []])}
            a = run_load(l, v, make())
            b = run_load(o.loader(), v, make())
            if k < 2:
                # one that nothing else knows
                x, y = make()(v[n]), make()(v[n])
                e, f = run_dump(d, x), run_dump(o.dumper(), y)
                del x, y
                c.log = ('dump', src)
                if not same_outcome(outcome(*e), outcome(*f)):
                    bad('dump of a %s with %s gives %s, and %s with a new dumper', src, v, outcome(*e), outcome(*f))
        c.log = (src, v)
        if stable(a[1]) != stable(b[1]) if a[0] == b[0] == 'ok' else a[0] != b[0]:
            bad('load(%s, %s) gives %s after other types that are deleted, and %s with a new loader', v, src, outcome(*a), outcome(*b))
        del a, b
    return 'transient', True


def in_child(f):
    """run f in a forked process, return the text it gives"""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rfd)
            s = f()
            with os.fdopen(wfd, 'w', errors='backslashreplace') as w:
                w.write(s)
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd) as fd:
        s = fd.read()
    os.waitpid(pid, 0)
    return s


def stable(x, d=0):
    """a text that is the same for equal values"""
    if d > 40:
        return '...'
    if isinstance(x, (list, tuple)):
        return '%s[%s]' % (type(x).__name__, ','.join(stable(i, d + 1) for i in x))
    if isinstance(x, (set, frozenset)):
        return '%s{%s}' % (type(x).__name__, ','.join(sorted(stable(i, d + 1) for i in x)))
    if isinstance(x, dict):
        return 'dict{%s}' % ','.join(sorted(stable(k, d + 1) + ':' + stable(v, d + 1) for k, v in x.items()))
    f = field_names(type(x))
    if f is not None:
        return '%s(%s)' % (type(x).__name__, ','.join('%s=%s' % (n, stable(getattr(x, n, None), d + 1)) for n in f))
    if type(x).__repr__ is object.__repr__:
        return type(x).__name__
    return '%s:%s' % (type(x).__name__, re.sub(r'0x[0-9a-f]+', '', srepr(x, 400)))


def text_outcome(o):
    return 'ok ' + stable(o[1]) if o[0] == 'ok' else 'fail ' + o[1]


def forked_history(c, o, steps):
    """the history runs in one process, the last load alone in another one"""
    if not steps:
        raise Skip
    t, v = steps[-1]
    py = [q.py for q, _ in steps]

    def hist():
        for (q, w), p in zip(steps[:-1], py):
            # other loaders, with other options, in the same process
            run_load(c.r.choice([o, o.with_(mangle_key='alt'), o.with_(basiccast=not o.basiccast), o.with_(failonextra=not o.failonextra)]).loader(), w, p)
        return text_outcome(outcome(*run_load(o.loader(), v, py[-1])))

    def alone():
        return text_outcome(outcome(*run_load(o.loader(), v, py[-1])))
    a, b = in_child(hist), in_child(alone)
    c.log = (t, v)
    if a != b:
        bad('load(%s, %s) gives %s after %s were loaded in the same process, and %s otherwise', v, t.src, a, [(q.src, w) for q, w in steps[:-1]], b)
    return 'forked', True


def forked_dump(c, o, vals):
    t, x = vals[-1]

    def hist():
        for q, w in vals[:-1]:
            run_dump(c.r.choice([o, o.with_(mangle_key='alt'), o.with_(hidedefault=not o.hidedefault), o.with_(isodates=not o.isodates)]).dumper(), w)
        return text_outcome(outcome(*run_dump(o.dumper(), x)))

    def alone():
        return text_outcome(outcome(*run_dump(o.dumper(), x)))
    a, b = in_child(hist), in_child(alone)
    c.log = ('dump', x)
    if a != b:
        bad('dump(%s) gives %s after %s were dumped in the same process, and %s otherwise', x, a, [w for q, w in vals[:-1]], b)
    return 'forked', True


# ---------------------------------------------------------------------- C14
NODEF = type('NODEF', (), {})()


class Marker:
    def __init__(self, h, v):
        self.h, self.v = h, v

    def __repr__(self):
        return 'Marker(%r,%r)' % (self.h, self.v)

    def __eq__(self, o):
        return type(o) is Marker and o.h == self.h and o.v is self.v

    def __hash__(self):
        return hash(self.h)


class Handler:
    def __init__(self, f):
        self.f = f

    def call(self, ld, v, t='default'):
        return self.f(ld, v, t)


class K1:
    pass


class K2:
    pass


class K3(K1):
    pass


class CondErr(Exception):
    pass


def c14(c):
    return r_choice(c, [c14_load, c14_dump, c14_nested, c14_unsupported, c14_dumpnested])


def r_choice(c, fs):
    return c.r.choice(fs)(c)


def rand_handlers(c, universe, l, dump=False):
    """random handlers put among the default ones"""
    r = c.r
    calls = []
    hs = []

    def mk(i):
        ts = set(r.sample(universe, r.randrange(0, len(universe)))) if not dump else None
        raises = r.random() < .15
        classes = tuple(r.sample(universe, r.randrange(0, len(universe)))) if dump else None
        style = r.randrange(3)

        def cond(t):
            if raises and r_state[0] and (t is raise_for[0]):
                raise CondErr('cond')
            if dump:
                y = type(t) in classes
            else:
                y = t in ts
            return [y, 'yes' if y else '', [1] if y else []][style]

        def handler(ld, v, t):
            calls.append((i, ld, v, t))
            return Marker(i, v)

        def handler_default(ld, v, t=None):
            return handler(ld, v, t)

        def handler_args(ld, v, *a):
            return handler(ld, v, *a)
        return cond, r.choice([handler] * 3 + [handler_default, functools.partial(handler), Handler(handler).call] + [handler_args] * (not dump))
    r_state = [True]
    raise_for = [r.choice(universe) if not dump else None]
    n = r.randrange(1, 5)
    for i in range(n):
        hs.append(mk(i))
    return hs, calls


def expect_index(handlers, t, rce):
    for i, (cond, h) in enumerate(handlers):
        try:
            m = cond(t)
        except Exception as e:
            if rce:
                return 'exc', e
            m = False
        if m:
            return 'idx', i
    return 'none', None


def c14_load(c):
    r = c.r
    universe = [int, str, List[int], Dict[str, int], Union[int, str], K1, K2, K3, Tuple[int, ...], Optional[K1], Literal[1], datetime.date, Any, Set[str], NoneType, bool]
    l = c.o.loader(raiseconditionerrors=r.random() < .6)
    hs, calls = rand_handlers(c, universe, l)
    base = l.handlers
    w = r.random()
    if w < .3:
        l.handlers = hs + base
    elif w < .5:
        l.handlers = base + hs
    elif w < .8:
        i = r.randrange(len(base))
        l.handlers = base[:i] + hs + base[i:]
    else:
        l.handlers = list(hs)
    if r.random() < .15:
        # a condition that always raises
        def boom(t):
            raise CondErr('boom')
        l.handlers.insert(r.randrange(len(l.handlers) + 1), (boom, lambda *a: None))
    for _ in range(r.choice([2, 4, 6])):
        t = r.choice(universe)
        want = expect_index(l.handlers, t, l.raiseconditionerrors)
        c.log = ('index', t)
        try:
            got = ('idx', l.index(t))
        except Exception as e:
            got = ('exc', e)
        if want[0] == 'idx' and (got[0] != 'idx' or got[1] != want[1]):
            bad('index(%s) is %s, the first matching handler is %d', t, got, want[1])
        if want[0] == 'none' and not (got[0] == 'exc' and isinstance(got[1], ValueError)):
            bad('index(%s): %s, no condition matches', t, got)
        if want[0] == 'exc' and not (got[0] == 'exc' and isinstance(got[1], CondErr)):
            bad('index(%s): %s, a condition raises', t, got)
        # load
        if r.random() < .7:
            v = r.choice([1, 'a', [1], {'a': 1}, None, K1()])
            del calls[:]
            if want[0] == 'idx':
                h = l.handlers[want[1]]
                k, x = run_load(l, v, t)
                mine = [i for i, q in enumerate(hs) if q is h]
                if mine:
                    if k != 'ok' or not (type(x) is Marker and x.h == mine[0] and x.v is v):
                        bad('load(%s, %s): %s, the handler %d was to be used', v, t, x, mine[0])
                    i, ld, vv, tt = calls[-1]
                    if ld is not l or vv is not v or tt != t:
                        bad('load(%s, %s): the handler was called with (%s, %s, %s)', v, t, ld, vv, tt)
                else:
                    if h in base:
                        k2, x2 = ('ok', h[1](l, v, t)) if False else (None, None)
                    if k == 'ok' and type(x) is Marker and getattr(t, '__origin__', None) is not Union:
                        bad('load(%s, %s) = %s, the handler of position %d was to be used', v, t, x, want[1])
            elif want[0] == 'none':
                k, x = run_load(l, v, t)
                if not (k == 'te' and isinstance(x, TypedloadTypeError)):
                    bad('load(%s, %s): %s, the type is not handled', v, t, x)
    return 'load%d' % len(hs), True


class _CN(NamedTuple):
    a: int


@dataclasses.dataclass
class _CD:
    a: int


class _CT(TypedDict):
    a: int


class _CE(enum.Enum):
    X = 'x'


if attr:
    @attr.s(hash=True)
    class _CA:
        a = attr.ib(type=int)


def c14_nested(c):
    """a custom handler is used at every depth"""
    r = c.r
    calls = []
    which = r.choice(['custom', 'override', 'overridebasic'])
    l = c.o.loader(uniondebugconflict=False)
    K = type('Kx', (), {})
    n = c.fresh('C')
    if which == 'custom':
        T = K
    elif which == 'override':
        T = r.choice([List[int], Dict[str, int], Tuple[int, int], Literal['q'], datetime.date, Union[int, str, None], Set[int], 'newtype', 'newtype', 'newtype', 'nt', 'dc', 'td', 'enum', 'attrs'])
        if T == 'newtype':
            T = NewType('NTx', r.choice([int, str, List[int], K, Optional[int], datetime.date]))
            if r.random() < .5:
                T = NewType('NTy', T)
        elif isinstance(T, str):
            T = r.choice({'nt': [_CN], 'dc': [_CD], 'td': [_CT], 'enum': [_CE], 'attrs': [_CA] if attr else [_CD]}[T])
    else:
        T = r.choice([pathlib.Path, uuid.UUID, datetime.timedelta])

    def handler(ld, v, t):
        calls.append((ld, v, t))
        if v == 'wrong':
            raise TypedloadValueError('no', value=v, type_=t)
        return Marker('h', v)

    def handler2(ld, v, t):
        return Marker('second', v)
    w = r.random()
    if which == 'custom':
        if w < .5:
            l.handlers.append((lambda t: t == T, handler))
            l.handlers.append((lambda t: t == T, handler2))
        else:
            l.handlers.insert(0, (lambda t: t == T, handler2))
            l.handlers.insert(0, (lambda t: t == T, handler))
    else:
        l.handlers.insert(0, (lambda t: t == T, handler2))
        l.handlers.insert(0, (lambda t: t == T, handler))
    leaf_v = r.choice([object(), 'x', 5, ('t',), 'wrong' if r.random() < .5 else 'x', [1], {'a': 1}])
    if r.random() < .2:
        # already an instance
        made = {K: K, _CN: lambda: _CN(1), _CD: lambda: _CD(1), _CE: lambda: _CE.X, _CT: lambda: {'a': 1}, pathlib.Path: lambda: pathlib.Path('a'), uuid.UUID: lambda: uuid.UUID(int=5),
                datetime.timedelta: lambda: datetime.timedelta(1), datetime.date: lambda: datetime.date(2020, 1, 1), List[int]: lambda: [1], Dict[str, int]: lambda: {'a': 1}, Tuple[int, int]: lambda: (1, 2)}
        if attr:
            made[_CA] = lambda: _CA(1)
        if T in made:
            leaf_v = made[T]()
    D, TT = leaf_v, T
    hashd = True
    path = []
    for _ in range(r.choice([0, 1, 2, 3])):
        s = r.choice(['list', 'vtuple', 'tuple', 'dict', 'nt', 'dc', 'td', 'attrs', 'opt', 'newtype', 'set', 'dictk', 'union'])
        nn = c.fresh('C')
        c.ns['WT'] = TT
        if s == 'list':
            k = r.randrange(3)
            D, TT = [D] * (k + 1), List[TT]
        elif s == 'vtuple':
            D, TT = (D,), Tuple[TT, ...]
        elif s == 'tuple':
            D, TT = (1, D), Tuple[int, TT]
        elif s == 'dict':
            D, TT = {'k': D}, Dict[str, TT]
        elif s == 'dictk':
            try:
                D, TT = {D: 1}, Dict[TT, int]
            except TypeError:
                continue
        elif s == 'set':
            D, TT = [D], FrozenSet[TT]
        elif s == 'nt':
            c.add('class %s(NamedTuple):\n    a: WT\n' % nn)
            D, TT = {'a': D}, c.ns[nn]
        elif s == 'dc':
            c.add('@dataclass\nclass %s:\n    a: WT\n' % nn)
            D, TT = {'a': D}, c.ns[nn]
        elif s == 'td':
            c.add('class %s(TypedDict):\n    a: WT\n' % nn)
            D, TT = {'a': D}, c.ns[nn]
        elif s == 'attrs' and attr:
            c.add('@attr.s(hash=True)\nclass %s:\n    a = attr.ib(type=WT)\n' % nn)
            D, TT = {'a': D}, c.ns[nn]
        elif s == 'newtype':
            TT = NewType(nn, TT)
        elif s == 'opt':
            if D is None:
                continue
            TT = Optional[TT]
        elif s == 'union':
            if type(D) in (int, str, float, bool, NoneType):
                continue
            TT = Union[TT, bytearray]
            l.handlers.append((lambda t: t is bytearray, lambda l, v, t: (_ for _ in ()).throw(TypedloadValueError('no'))))
    c.log = (TT, D)
    u0 = getattr(T, '__args__', ()) if getattr(T, '__origin__', None) is Union else ()
    for rep in range(r.choice([1, 2])):
        del calls[:]
        k, x = run_load(l, D, TT)
        mine = [q for q in calls if q[1] is leaf_v]
        if not mine:
            if u0 and (type(leaf_v) in u0):
                return 'passthrough', False
            if which == 'override' and getattr(T, '__origin__', None) is Union:
                return 'flattened', False
            # union alternatives that are merged, values hashed away
            if k == 'te' and 'unhashable' in str(x):
                return 'unhashable', False
            bad('load(%s, %s): the handler of %s was not called; result %s', D, TT, T, x if k == 'ok' else desc(x))
        for ld, v, t in mine:
            if ld is not l:
                bad('the handler was called with the loader %s', ld)
            if t != T:
                bad('the handler of %s was called with the type %s', T, t)
        if k == 'ok' and 'second' in stable(x) and "Marker('second'" in repr(x):
            bad('load(%s, %s) = %s: not the first matching handler', D, TT, x)
    return str(TT)[:80], True


def c14_unsupported(c):
    r = c.r
    K = type('Unknown', (), {})
    l = c.o.loader()
    c.ns['WT'] = K
    nn = c.fresh('C')
    s = r.randrange(12)
    d = r.choice([1, 'a', None, [1], object()])
    if s == 0:
        D, T = d, K
    elif s == 1:
        D, T = [d], List[K]
    elif s == 2:
        D, T = (1, d), Tuple[int, K]
    elif s == 3:
        D, T = {'a': d}, Dict[str, K]
    elif s == 4:
        D, T = {'a': 1}, Dict[K, int]
    elif s == 5:
        c.add('class %s(NamedTuple):\n    a: WT\n' % nn)
        D, T = {'a': d}, c.ns[nn]
    elif s == 6:
        c.add('@dataclass\nclass %s:\n    a: WT\n' % nn)
        D, T = {'a': d}, c.ns[nn]
    elif s == 7:
        c.add('class %s(TypedDict):\n    a: WT\n' % nn)
        D, T = {'a': d}, c.ns[nn]
    elif s == 8:
        D, T = [d], Set[K]
    elif s == 9:
        D, T = K, Union[K, bytearray]
    elif s == 10:
        D, T = [d], Tuple[K, ...]
    else:
        D, T = d, NewType(nn, K)
    top = s == 0
    for _ in range(r.choice([0, 0, 1])):
        D, T = r.choice([lambda: ([D], List[T]), lambda: ({'a': D}, Dict[str, T]), lambda: ((D,), Tuple[T])])()
        top = False
    c.log = (T, D)
    for _ in range(r.choice([1, 2])):
        k, x = run_load(l, D, T)
        if k != 'te' or top and not isinstance(x, TypedloadTypeError):
            bad('load(%s, %s): %s, the type %s is not handled', D, T, x if k == 'ok' else desc(x), K)
    return 'unsupported%d' % s, True


def c14_dump(c):
    r = c.r
    universe = [int, str, list, dict, K1, K2, K3, tuple, datetime.date, NoneType, bool, float, set]
    vals = [1, 'a', [1], {'a': 1}, K1(), K2(), K3(), (1,), datetime.date(2020, 1, 1), None, True, 2.5, {3}]
    d = c.o.dumper(raiseconditionerrors=r.random() < .6)
    hs, calls = rand_handlers(c, universe, d, dump=True)
    base = d.handlers
    w = r.random()
    if w < .4:
        d.handlers = hs + base
    elif w < .6:
        d.handlers = base + hs
    elif w < .85:
        i = r.randrange(len(base))
        d.handlers = base[:i] + hs + base[i:]
    else:
        d.handlers = list(hs)
    if r.random() < .15:
        def boom(t):
            raise CondErr('boom')
        d.handlers.insert(r.randrange(len(d.handlers) + 1), (boom, lambda *a: None))
    for _ in range(r.choice([2, 4, 6])):
        v = r.choice(vals)
        want = expect_index(d.handlers, v, d.raiseconditionerrors)
        c.log = ('index', v)
        try:
            got = ('idx', d.index(v))
        except Exception as e:
            got = ('exc', e)
        if want[0] == 'idx' and (got[0] != 'idx' or got[1] != want[1]):
            bad('Dumper.index(%s) is %s, the first matching handler is %d', v, got, want[1])
        if want[0] == 'none' and not (got[0] == 'exc' and isinstance(got[1], ValueError)):
            bad('Dumper.index(%s): %s, no condition matches', v, got)
        if want[0] == 'exc' and not (got[0] == 'exc' and isinstance(got[1], CondErr)):
            bad('Dumper.index(%s): %s, a condition raises', v, got)
        if want[0] == 'idx':
            del calls[:]
            ann = r.choice([(), (), (type(v),), (Any,), (List[int],), (Optional[type(v)],)])
            try:
                k, x = 'ok', d.dump(v, *ann)
            except Exception as e:
                k, x = 'exc', e
            h = d.handlers[want[1]]
            mine = [i for i, q in enumerate(hs) if q is h]
            if mine:
                if k != 'ok' or not (type(x) is Marker and x.h == mine[0] and x.v is v):
                    bad('dump(%s): %s, the handler %d was to be used', v, x, mine[0])
                i, ld, vv, tt = calls[-1]
                if ld is not d or vv is not v or tt != (ann or (Any,))[0]:
                    bad('dump(%s%s): the handler was called with (%s, %s, %s)', v, ann, ld, vv, tt)
            elif k == 'ok' and type(x) is Marker:
                bad('dump(%s) = %s, the handler of position %d was to be used', v, x, want[1])
    return 'dump%d' % len(hs), True


def c14_dumpnested(c):
    """custom dump handlers at every depth, two and three parameters"""
    r = c.r
    d = c.o.dumper(hidedefault=r.random() < .5)
    K = type('Kd', (), {'__eq__': lambda s, o: s is o, '__hash__': lambda s: 3})
    calls = []

    def h3(dd, v, t):
        calls.append((dd, v, t))
        return Marker('h', v)

    def h3d(dd, v, t='default'):
        calls.append((dd, v, t))
        return Marker('h', v)

    def h2(dd, v):
        calls.append((dd, v, NODEF))
        return Marker('h', v)
    other = lambda dd, v, t: Marker('second', v)
    over = r.random() < .4
    if over:
        x0 = r.choice([1, 'a', [1], datetime.date(2020, 1, 1), (1, 2), pathlib.Path('a')])
        T = type(x0)
    else:
        x0, T = K(), K
    cond = lambda v: type(v) is T
    h = r.choice([h2, h3, h3d, Handler(h3).call])
    ann = Any
    if over:
        d.handlers.insert(0, (cond, other))
        d.handlers.insert(0, (cond, h))
    else:
        i = r.randrange(len(d.handlers))
        d.handlers.append((cond, h))
        d.handlers.append((cond, other))
    x = x0
    for _ in range(r.choice([0, 1, 2, 3])):
        s = r.choice(['list', 'tuple', 'dict', 'nt', 'dc', 'dclist', 'attrs', 'set', 'dictk', 'enum'])
        nn = c.fresh('C')
        hashd = True
        ann = Any if x is x0 else NODEF
        try:
            hash(x)
        except TypeError:
            hashd = False
        if s == 'list' and not (T is list):
            x = [x]
        elif s == 'tuple' and T is not tuple:
            x = (0.5, x)
        elif s == 'dict':
            x = {'k': x} if T is not str else {0.5: x}
        elif s == 'dictk' and hashd:
            x = {x: 0.5}
        elif s == 'set' and hashd:
            x = {x}
        elif s == 'nt':
            c.add('class %s(NamedTuple):\n    a: Any\n' % nn)
            x = c.ns[nn](x)
        elif s == 'dc':
            c.ns['WT'] = r.choice([type(x), Any])
            if ann is Any:
                ann = ('type', c.ns['WT'])
            c.add('@dataclass(frozen=True)\nclass %s:\n    a: WT\n' % nn)
            x = c.ns[nn](x)
        elif s == 'dclist' and T is not list:
            c.ns['WT'] = r.choice([List[type(x)], List[Any], list])
            c.add('@dataclass\nclass %s:\n    a: WT\n' % nn)
            x = c.ns[nn]([x])
        elif s == 'attrs' and attr:
            c.add('@attr.s(hash=True)\nclass %s:\n    a = attr.ib()\n' % nn)
            x = c.ns[nn](x)
        elif s == 'enum':
            x = enum.Enum(nn, {'A': x}).A
    c.log = ('dump', x)
    for _ in range(r.choice([1, 2])):
        del calls[:]
        k, y = run_dump(d, x)
        mine = [q for q in calls if q[1] is x0]
        if not mine:
            bad('dump(%s): the handler of %s was not called; result %s', x, T, y if k == 'ok' else desc(y))
        if mine[0][0] is not d:
            bad('dump handler called with %s', mine[0][0])
        if h is not h2 and mine[0][2] == 'default':
            bad('dump handler of %s called without the type', x0)
        if type(ann) is tuple and h is not h2 and mine[0][2] != ann[1]:
            bad('dump handler of the field of type %s called with the type %s', ann[1], mine[0][2])
        if k == 'ok' and "Marker('second'" in repr(y):
            bad('dump(%s) = %s: not the first matching handler', x, y)
    return 'dumpnested' + stable(x)[:60], True


# ---------------------------------------------------------------------- C15
def c15(c):
    r = c.r
    o = c.o
    w = r.random()
    if w < .55:
        # self recursive types, at any depth, and errors in them
        td = rec_object(c, lambda: rand_type(c, 1, union=False))
        if r.random() < .5:
            td2 = r.choice([lambda: Seqs(c, 'list', td), lambda: Dct(c, Basic(c, str), td), lambda: Tup(c, [td]), lambda: Seqs(c, 'vtuple', td)])()
        else:
            td2 = td
        o.uniondebugconflict = False
        l = o.loader()
        for _ in range(r.choice([1, 2])):
            x = td2.gen(c, r.choice([2, 4, 6]))
            v = td2.data(c, x)
            c.log = (td2, v)
            k, y = run_load(l, v, td2.py)
            if k != 'ok':
                if any(isinstance(q, (Un,)) for q in td2.walk()):
                    return td2.src, False
                bad('load(%s, %s): %s', v, td2.src, desc(y))
            if not td2.conf(y):
                bad('load(%s, %s) = %s', v, td2.src, y)
            if not any(isinstance(q, (Un, AnyTD, En)) or isinstance(q, Obj) and any(f.conv for f in q.fields) for q in td2.walk()):
                if not same(strip(x), strip(y)):
                    bad('load(%s, %s) = %s, expected %s', v, td2.src, y, x)
        return td2.src, any(isinstance(q, Fwd) for q in td.walk())
    n = c.fresh('Q')
    fr = typing.ForwardRef(n)
    T = rand_type(c, r.choice([0, 1, 2]), union=False)
    v = make_data(c, T, .8)
    if not no_iters(v):
        raise Skip
    if w < .7:
        # given in frefs
        given = {n: T.py, 'other': int}
        l = o.loader(frefs=dict(given))
        if r.random() < .5:
            # a type having the same name is met: the given one stays
            nm = T.py.__name__ if hasattr(T.py, '__name__') else None
            other = type(n, (), {})
            C2 = NamedTuple(n, [('a', int)])
            run_load(l, {'a': 1}, C2)
            run_load(l, [{'a': 1}], List[C2])
        a = run_load(l, v, fr)
        b = run_load(o.loader(), v, T.py)
        c.log = (fr, v)
        cmp_fwd(a, b, v, 'ForwardRef(%r) given as %s' % (n, T.src))
        for q in given:
            if l.frefs[q] is not given[q]:
                bad('the frefs entry %s was replaced by %s', q, l.frefs[q])
        return T.src, True
    if w < .8:
        l = o.loader(frefs=None)
        how = r.randrange(3)
        t = [fr, List[fr], Optional[fr]][how]
        vv = [v, [v], object()][how]
        k, x = run_load(l, vv, t)
        c.log = (t, vv)
        if k != 'te':
            bad('frefs=None: load(%s, %s): %s', vv, t, x)
        return 'none', True
    if w < .87:
        l = o.loader()
        if r.random() < .5:
            # names that are similar to the one that is given
            b = r.choice(['Node', 'node', 'Leaf_2', 'A.B', 'List', 'N', '_x', '__y', 'int'])
            try:
                fr = typing.ForwardRef(r.choice([b.lower(), b.upper(), b.swapcase(), b.capitalize(), b + '_', '_' + b, b.lstrip('_') or 'z', 'typing.' + b, b + '.c', b.split('.')[-1], b.split('.')[0], b[::-1].strip('2_.'),
                                                 b[:-1].rstrip('.') or 'z', b[1:].lstrip('2.') or 'z', b + 's', b + '2', 'Optional[%s]' % b, '(%s)' % b, ' '.join([b, '']), b + '\t']))
            except SyntaxError:
                raise Skip
            if fr.__forward_arg__ == b:
                raise Skip
            l = o.loader(frefs={b: T.py, 'other': T.py})
        k, x = run_load(l, v, fr)
        c.log = (fr, v)
        if not (k == 'te' and isinstance(x, TypedloadValueError)):
            bad('unknown name: load(%s, %s): %s', v, fr, x)
        run_load(l, v, fr)
        return 'unknown', True
    # met before, also only inside of other types; the first one counts
    kinds = [q for q in OBJKINDS]
    A = Obj(c, r.choice(kinds), lambda q: leaf(c), nf=r.choice([1, 2]), name=n)
    A.py
    apy = A.py
    B = Obj(c, r.choice(kinds), lambda q: leaf(c), nf=r.choice([1, 2]), name=n)
    how = r.randrange(8)
    x = A.data(c, A.gen(c, 1))
    l = o.loader()
    if how == 0:
        k, y = run_load(l, x, apy)
    elif how == 1:
        k, y = run_load(l, [x], List[apy])
    elif how == 2:
        k, y = run_load(l, {'k': x}, Dict[str, apy])
    elif how == 3:
        k, y = run_load(l, (x,), Tuple[apy])
    elif how == 4:
        k, y = run_load(l, (x,), Tuple[apy, ...])
    elif how == 5:
        c.ns['WT'] = apy
        nn = c.fresh('C')
        c.add('class %s(NamedTuple):\n    a: WT\n' % nn)
        k, y = run_load(l, {'a': x}, c.ns[nn])
    elif how == 6:
        k, y = run_load(l, x, Union[apy, bytearray])
    else:
        k, y = run_load(l, [x], List[List[apy]])
    if k != 'ok' and how != 7:
        return 'met', False
    run_load(l, B.data(c, B.gen(c, 1)), B.py)
    v = A.data(c, A.gen(c, 1)) if r.random() < .8 else make_data(c, A)
    if not no_iters(v):
        raise Skip
    a = run_load(l, v, fr)
    b = run_load(o.loader(), v, apy)
    c.log = (fr, v)
    if how == 7:
        return 'met7', False
    cmp_fwd(a, b, v, 'ForwardRef(%r), met before as %s (how=%d)' % (n, A.kind, how))
    return 'met%d' % how, True


def strip(x):
    return x


def cmp_fwd(a, b, v, what):
    if a[0] != b[0] or a[0] == 'ok' and not same(a[1], b[1]):
        bad('%s: loading %s gives %s, the type itself gives %s', what, v, a[1] if a[0] == 'ok' else desc(a[1]), b[1] if b[0] == 'ok' else desc(b[1]))


# ---------------------------------------------------------------------- C16
def lazy(c, td, v, d=0):
    """the data, having one-shot iterators in place of some lists"""
    if isinstance(td, NewT):
        return lazy(c, td.sub, v, d + 1)
    if isinstance(td, Fwd):
        return lazy(c, td.target, v, d + 1)
    if isinstance(td, Seqs) and type(v) is list:
        els = [lazy(c, td.sub, x, d + 1) for x in v]
        return c.r.choice([els, iter(els), (i for i in els)])
    if isinstance(td, Tup) and type(v) is list:
        return [lazy(c, t, x, d + 1) for t, x in zip(td.subs, v)] + v[len(td.subs):]
    if isinstance(td, Dct) and type(v) is dict:
        return {k: lazy(c, td.v, x, d + 1) for k, x in v.items()}
    if isinstance(td, Obj) and type(v) is dict:
        m = {td.key(f): f.loadtd for f in td.fields}
        return {k: lazy(c, m[k], x, d + 1) if k in m else x for k, x in v.items()}
    return v


def c16_iters(c):
    """one-shot iterators, in the data at any depth, are the same as lists"""
    r = c.r
    o = c.o
    td = rand_type(c, r.choice([1, 2, 3]), union=False)
    if r.random() < .4:
        td = Dct(c, Basic(c, r.choice([str, int])), Seqs(c, r.choice(['list', 'vtuple']), td))
    v = td.data(c, td.gen(c, 3))
    if r.random() < .6:
        ps = [p for p in positions(td, v) if p[0]]
        if ps:
            path, t, rep, old = r.choice(ps)
            b = t.bad(c)
            if b is not NOBAD:
                v = rep(b)
    if not no_iters(v):
        raise Skip
    w = lazy(c, td, v)
    c.log = (td, v)
    a = run_load(o.loader(), v, td.py)
    b = run_load(o.loader(), w, td.py)
    if 'bad' in (a[0], b[0]) or 'deep' in (a[0], b[0]):
        return td.src, False
    if not same_outcome(outcome(*a), outcome(*b)):
        bad('load(%s, %s) gives %s, and %s if iterators take the place of lists', v, td.src, outcome(*a), outcome(*b))
    if a[0] == 'te':
        pa, pb = ([(i.annotation.annotation_type, i.annotation.value if i.annotation.annotation_type in (AT.INDEX, AT.FIELD) else None) for i in e.trace if i.annotation] for e in (a[1], b[1]))
        if pa != pb:
            bad('the error of load(%s, %s) is at %s, and at %s if iterators take the place of lists', v, td.src, pa, pb)
    return td.src, not no_iters(w)


def c16(c):
    r = c.r
    o = c.o
    if r.random() < .1:
        return c16_iters(c)
    kind = r.choice(['list', 'vtuple', 'set', 'frozenset', 'tuple', 'dict', 'dict'])
    l = o.loader()
    if kind == 'dict':
        kt = rand_type(c, r.choice([0, 0, 1]), hashable=True, dumphash=True)
        vt = rand_type(c, r.choice([0, 1, 2]))
        td = Dct(c, kt, vt)
        n = r.choice([0, 1, 2, 3, 5, 17])
        d = {}
        for _ in range(n):
            c.keymode += 1
            kk = kt.data(c, kt.gen(c, 1))
            c.keymode -= 1
            if r.random() < .08:
                kk = r.choice(['zz', 1, True, 2.0, None, (1,), '1'])
            vv = vt.data(c, vt.gen(c, 2))
            if r.random() < .04:
                vv = mutate(c, vv)
            if no_iters(vv):
                d[kk] = vv
        dd = dictlike(c, d)
        if r.random() < .08:
            dd = r.choice([[1], 'ab', 3, None, [('a', 1)], {1, 2}, object(), 2.5, (('a', 1),)])
            c.log = (td, dd)
            k, x = run_load(l, dd, td.py)
            if k == 'ok':
                bad('load(%s, %s) = %s, it is no dictionary', dd, td.src, x)
            return td.src, True
        c.log = (td, dd)
        k, x = run_load(l, dd, td.py)
        if k in ('bad', 'deep'):
            return td.src, False
        pairs = []
        fail = False
        targs = td.py.__args__
        for kk, vv in d.items():
            a, b = elem(o, kk, targs[0]), elem(o, vv, targs[1])
            if a is None or b is None:
                fail = True
            pairs.append((a, b))
        if fail:
            if k == 'ok':
                bad('load(%s, %s) = %s, some entry can not be loaded', dd, td.src, x)
            return td.src, True
        if k != 'ok':
            bad('load(%s, %s) raised %s, every entry can be loaded', dd, td.src, desc(x))
        # the last value of equal keys wins
        if type(x) is not dict:
            bad('load(%s, %s) = %s', dd, td.src, x)
        want = {}
        for a, b in pairs:
            for ka in a:
                want.setdefault(_h(ka), []).append(b)
        got = list(x.items())
        for gk, gv in got:
            if not any(any(same(gk, q) for q in a) for a, b in pairs):
                bad('load(%s, %s) = %s: key %s was not in the data', dd, td.src, x, gk)
            cand = [b for a, b in pairs if any(eq(gk, q) for q in a)]
            if not any(same(gv, q) for q in cand[-1]) and len(kset(pairs)) == len(pairs):
                bad('load(%s, %s) = %s: the value of %s is %s, expected %s', dd, td.src, x, gk, gv, cand[-1])
        for a, b in pairs:
            if not any(any(eq(gk, q) for q in a) for gk, gv in got):
                bad('load(%s, %s) = %s: the key %s is lost', dd, td.src, x, a)
        if len(kset(pairs)) == len(pairs):
            if len(got) != len(pairs):
                bad('load(%s, %s) = %s: %d entries of %d', dd, td.src, x, len(got), len(pairs))
            for (gk, gv), (a, b) in zip(got, pairs):
                if not any(same(gk, q) for q in a) or not any(same(gv, q) for q in b):
                    bad('load(%s, %s) = %s: entry %s: %s, expected %s: %s', dd, td.src, x, gk, gv, a, b)
        return td.src, bool(d)
    hashable = kind in ('set', 'frozenset')
    if kind == 'tuple':
        tds = [rand_type(c, r.choice([0, 0, 1, 2])) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]
        td = Tup(c, tds)
    else:
        e = rand_type(c, r.choice([0, 0, 1, 2]), hashable=hashable)
        if r.random() < .15:
            e = Un(c, r.sample([Basic(c, t) for t in (int, str, bool, float)] + [NoneTD(c)], 2))
        td = Seqs(c, kind, e)
    if r.random() < .1:
        v = r.choice([{'a': 1}, {}, 3, None, 2.5, object(), collections.OrderedDict(a=1), SubDict(), collections.defaultdict(list)])
        c.log = (td, v)
        k, x = run_load(l, v, td.py)
        if k == 'ok':
            bad('load(%s, %s) = %s, the value is not suitable', v, td.src, x)
        return td.src, True
    if kind == 'tuple':
        els = [t.data(c, t.gen(c, 2)) for t in tds]
        w = r.random()
        if w < .15:
            els = els[:r.randrange(len(els) + 1)]
        elif w < .3:
            els = els + [junk(c, 1)] * r.choice([1, 2])
    else:
        n = r.choice([0, 1, 2, 3, 5, 9, 40, 130]) if r.random() < .3 else r.choice([0, 1, 2, 3, 4])
        if n > 10 and e.kind not in ('basic', 'literal', 'enum', 'none', 'union', 'any'):
            n = 10
        els = [e.data(c, e.gen(c, 2)) for _ in range(n)]
        if r.random() < .15 and els:
            els[r.randrange(len(els))] = r.choice([None, 'zz', [1], {'a': 1}, True, 1, 2.5, SubInt(3), '', 0, (), b'a', Unhash()])
    if not no_iters(els):
        raise Skip
    mk = r.choice([list, list, tuple, collections.deque, iter, Reiter, lambda q: (i for i in q), SubList, lambda q: dict(enumerate(q)).values()])
    if kind == 'tuple' and mk in (iter, Reiter):
        mk = list
    v = mk(els)
    if kind == 'tuple' and not hasattr(v, '__len__'):
        k, x = run_load(l, v, td.py)
        if k == 'ok':
            bad('load(iterator, %s) = %s', td.src, x)
        return td.src, False
    c.log = (td, els)
    k, x = run_load(l, v, td.py)
    if k in ('bad', 'deep'):
        return td.src, False
    if kind == 'tuple':
        if len(els) < len(tds):
            if k == 'ok':
                bad('load(%s, %s) = %s, the value is too short', els, td.src, x)
            return td.src, True
        if o.failonextra and len(els) > len(tds):
            if k == 'ok':
                bad('failonextra: load(%s, %s) = %s, the value is too long', els, td.src, x)
            return td.src, True
        els = els[:len(tds)]
        want = [elem(o, q, t) for q, t in zip(els, td.py.__args__)]
    else:
        want = [elem(o, q, td.py.__args__[0]) for q in els]
    if any(q is None for q in want):
        if k == 'ok':
            bad('load(%s, %s) = %s, some element can not be loaded', els, td.src, x)
        return td.src, True
    if hashable and any(not all(can_hash(z) for z in q) for q in want):
        return td.src, False
    if k != 'ok':
        bad('load(%s, %s) raised %s, every element can be loaded', els, td.src, desc(x))
    cls = td.cls if kind != 'tuple' else tuple
    if type(x) is not cls:
        bad('load(%s, %s) = %s', els, td.src, x)
    if not hashable:
        if len(x) != len(els):
            bad('load(%s, %s) = %s: %d elements, not %d', els, td.src, x, len(x), len(els))
        for i, (a, q) in enumerate(zip(x, want)):
            if not any(same(a, z) for z in q):
                bad('load(%s, %s) = %s: element %d is %s, alone it loads as %s', els, td.src, x, i, a, q)
    else:
        for a in x:
            if not any(any(same(a, z) for z in q) for q in want):
                bad('load(%s, %s) = %s: %s was not in the data', els, td.src, x, a)
        for q in want:
            if not any(z in x for z in q) and not any(z != z for z in q):
                bad('load(%s, %s) = %s: %s is lost', els, td.src, x, q)
    return td.src, bool(els)


def _h(x):
    try:
        return hash(x)
    except TypeError:
        return None


def can_hash(x):
    return _h(x) is not None


def eq(a, b):
    return a == b or a != a and b != b


def kset(pairs):
    out = []
    for a, b in pairs:
        if not any(eq(a[0], q) for q in out):
            out.append(a[0])
    return out


def elem(o, v, t):
    """the acceptable results of loading an element, or None if it fails"""
    k, x = run_load(o.loader(), v, t)
    out = []
    if k == 'ok':
        out.append(x)
    if isinstance(t, type) and t in o.basics() and isinstance(v, t):
        out.append(v)
    return out or None


# ---------------------------------------------------------------------- C17
def c17(c):
    r = c.r
    o = c.o
    w = r.randrange(7)
    if w < 2:
        td = Lit(c)
        if r.random() < .2:
            td2 = Lit(c)
            T = Union[td.py, td2.py] if False else td.py
        v = r.choice(list(td.values) + ['nope', 1, 1.0, True, False, 0, '1', None, [1], {}, 'a', (1,), 2, 3, 'A', SubStr('a'), SubInt(1), b'x', Unhash(), r.choice(INCOMPARABLE)()])
        T = td.py
        l = o.loader()
        c.log = (td, v)
        for wrap in range(2):
            k, x = run_load(l, v, T) if wrap == 0 else run_load(l, [v], List[T])
            if wrap and k == 'ok':
                x = x[0]
            try:
                want = any(v is q or v == q for q in td.values)
            except (ZeroDivisionError, decimal.InvalidOperation):
                want = False
            if want != (k == 'ok'):
                bad('load(%s, %s): %s', v, td.src, x if k == 'ok' else desc(x))
            if want and x is not v:
                bad('load(%s, %s) returns %s, not the value itself', v, td.src, x)
        return td.src + srepr(v), True
    if w == 2:
        v = r.choice([None, 0, '', False, [], 'None', {}, object(), NoneType, float('nan'), ()])
        how = r.randrange(5)
        l = o.loader()
        T = [NoneType, List[None], Tuple[None, int], Dict[str, None], NewType('Q', NoneType)][how]
        D = [v, [v], (v, 1), {'a': v}, v][how]
        c.log = (T, D)
        k, x = run_load(l, D, T)
        if k == 'ok':
            x = [lambda: x, lambda: x[0], lambda: x[0], lambda: x['a'], lambda: x][how]()
        if (k == 'ok') != (v is None) or k == 'ok' and x is not None:
            bad('load(%s, %s): %s', D, T, x if k == 'ok' else desc(x))
        return 'none' + str(how), True
    if w == 3:
        v = junk(c)
        l = o.loader()
        how = r.randrange(4)
        T = [Any, NewType('Q', Any), List[Any], Dict[str, Any]][how]
        D = [v, v, [v], {'a': v}][how]
        c.log = (T, D)
        k, x = run_load(l, D, T)
        if k == 'ok':
            x = [lambda: x, lambda: x, lambda: x[0], lambda: x['a']][how]()
        if k != 'ok' or x is not v:
            bad('load(%s, %s): %s', D, T, x if k == 'ok' else desc(x))
        return 'any' + str(how), True
    if w == 4:
        td = rand_type(c, r.choice([0, 1, 2]))
        n = NewT(c, td)
        n2 = NewT(c, n) if r.random() < .3 else n
        v = make_data(c, td)
        if not no_iters(v):
            raise Skip
        c.log = (n2, v)
        a = run_load(o.loader(), v, n2.py)
        b = run_load(o.loader(), v, td.py)
        if a[0] != b[0] or (same(a[1], b[1]) if a[0] == 'ok' else type(a[1]) is type(b[1])) is False:
            bad('load(%s, %s): %s; the supertype gives %s', v, 'NewType of ' + td.src, a, b)
        return n2.src + td.src, True
    # enums
    E = c17_enum(c)
    py, ann, vals = E
    mem = list(py)
    v = r.choice([m.value for m in mem] + [q for m in mem for q in vals.get(m.name, [])] + ['nope', None, 99, [1, 2], (1, 2), '1', 1.0, True, mem[0], [], {}, Unhash(), 'M0', 'A', object()])
    l = o.loader()
    c.log = (py, v)
    k, x = run_load(l, v, py)
    direct = [m for m in mem if v is m or type(m.value) is type(v) and m.value == v or safe_eq(m.value, v)]
    if direct:
        if k != 'ok' or x is not direct[0] and not safe_eq(x, direct[0]):
            bad('load(%s, %s): %s, expected %s', v, py, x if k == 'ok' else desc(x), direct[0])
        return str(len(mem)), True
    cand = []
    for t in ann:
        a, b = run_load(o.loader(), v, t)
        if a == 'ok':
            cand += [m for m in mem if safe_eq(m.value, b)]
    if k == 'ok':
        if not any(x is m for m in cand):
            bad('load(%s, %s) = %s, expected one of %s', v, py, x, cand)
    else:
        if cand:
            bad('load(%s, %s) raised %s, expected one of %s', v, py, desc(x), cand)
        if k != 'te' or not isinstance(x, TypedloadValueError):
            bad('load(%s, %s) raised %s', v, py, desc(x))
    return str(py) + srepr(v), True


def safe_eq(a, b):
    try:
        return bool(a == b)
    except Exception:
        return False


def c17_enum(c):
    r = c.r
    n = c.fresh('E')
    w = r.randrange(6)
    ann = []
    alias = {}
    if w == 0:
        vals = r.sample([1, 2, 'a', 'b', 2.5, None, True, '1', 0], r.randrange(1, 5))
        c.add('class %s(enum.Enum):\n' % n + ''.join('    M%d = %r\n' % (i, v) for i, v in enumerate(vals)))
    elif w == 1:
        c.add('class %s(enum.Enum):\n    note: Tuple[int, str]\n    A = (1, "x")\n    B = (2, "y")\n    C = (1, "y")\n' % n)
        ann = [Tuple[int, str]]
        alias = {'A': [[1, 'x'], ['1', 'x'], [1, 'x', 3]], 'B': [[2, 'y'], (2, 'y')]}
    elif w == 2:
        c.add('class %s(enum.IntEnum):\n    A = 1\n    B = 2\n    C = 3\n' % n)
    elif w == 3:
        c.add('class %s(enum.Enum):\n    p: pathlib.Path\n    d: datetime.date\n    A = pathlib.Path("/a")\n    B = datetime.date(2020, 1, 2)\n    C = pathlib.Path("b")\n' % n)
        ann = [pathlib.Path, datetime.date]
        alias = {'A': ['/a'], 'B': ['2020-01-02', [2020, 1, 2]], 'C': ['b', '2021-01-01']}
    elif w == 4:
        c.add('class P%s(NamedTuple):\n    x: int\n    y: int = 0\nclass %s(enum.Enum):\n    t: P%s\n    q: FrozenSet[int]\n    A = P%s(1, 2)\n    B = P%s(3)\n    C = frozenset([1])\n' % (n, n, n, n, n))
        ann = [c.ns['P' + n], FrozenSet[int]]
        alias = {'A': [{'x': 1, 'y': 2}, {'x': '1', 'y': 2}, (1, 2)], 'B': [{'x': 3}], 'C': [[1], [1, 1]]}
    else:
        c.add('class %s(enum.Enum):\n' % n + ''.join('    M%d = %d\n' % (i, i) for i in range(r.choice([9, 10, 11, 12, 15]))))
    return c.ns[n], ann, alias


# ---------------------------------------------------------------------- C18
def c18_types(c):
    """type expression -> the predicates that are true"""
    out = []
    r = c.r
    e = r.choice([int, str, Any, List[int], K1, Optional[int], Dict[str, Any], Union[int, str, None], Tuple[int, ...], Literal[1]])
    f = r.choice([int, str, bool, Any, Set[int], K2, Literal['a', 'b'], bytes])

    def add(src, *p, **kw):
        out.append((src, set(p), kw))
    add(List[e], 'is_list')
    add(list[e], 'is_list')
    add(List, 'is_list')
    add(Dict[str, e], 'is_dict')
    add(dict[f, e], 'is_dict')
    add(Dict, 'is_dict')
    add(Set[f], 'is_set')
    add(set[f], 'is_set')
    add(Set, 'is_set')
    add(FrozenSet[f], 'is_frozenset')
    add(frozenset[f], 'is_frozenset')
    add(FrozenSet, 'is_frozenset')
    add(Tuple[e, f], 'is_tuple')
    add(Tuple[e, ...], 'is_tuple')
    add(tuple[e, ...], 'is_tuple')
    add(Tuple[()], 'is_tuple')
    add(tuple[()], 'is_tuple')
    add(Tuple, 'is_tuple')
    x = [q for q in [int, str, K1, List[int], Dict[str, int], Literal[1], bool, bytes, K2, float, Tuple[int]]]
    r.shuffle(x)
    n = r.choice([2, 2, 3, 4])
    add(Union[tuple(x[:n])], 'is_union', args=tuple(x[:n]))
    if n > 1:
        add(Union[tuple(x[:n - 1] + [None])], *(['is_union', 'is_optional'] if n == 2 else ['is_union']), args=tuple(x[:n - 1] + [NoneType]))
        add(Union[tuple([None] + x[:n - 1])], *(['is_union', 'is_optional'] if n == 2 else ['is_union']), args=tuple([NoneType] + x[:n - 1]))
    add(Optional[e] if e not in (Optional[int], Union[int, str, None]) else Optional[int], 'is_union', 'is_optional')
    tx = [q for q in x if isinstance(q, type)]
    add(tx[0] | tx[1], 'is_union', args=(tx[0], tx[1]))
    add(tx[0] | None, 'is_union', 'is_optional', args=(tx[0], NoneType))
    add(None | tx[0], 'is_union', 'is_optional', args=(NoneType, tx[0]))
    add(tx[0] | tx[1] | None, 'is_union', args=(tx[0], tx[1], NoneType))
    add(Union, 'union_bare')
    lits = r.sample([1, 2, 'a', 'b', True, None, b'x', 0], r.randrange(1, 5))
    add(Literal[tuple(lits)], 'is_literal', lits=lits)
    add(NoneType, 'is_nonetype')
    add(Any, 'is_any')
    add(typing.ForwardRef('Foo'), 'is_forwardref')
    nt = NewType('NT', e)
    add(nt, 'is_newtype')
    add(NewType('NT2', nt), 'is_newtype')
    add(re.Pattern, 'is_pattern')
    add(re.Pattern[str], 'is_pattern')
    add(typing.Pattern, 'is_pattern')
    add(typing.Pattern[bytes], 'is_pattern')
    for k in ('Enum', 'IntEnum', 'Flag', 'IntFlag', 'StrEnum'):
        q = getattr(enum, k)('Q' + k, {'A': 1 if k != 'StrEnum' else 'a'})
        add(q, 'is_enum')
    add(enum.Enum, 'is_enum')
    c.add('class EM(str, enum.Enum):\n    A = "a"\n')
    add(c.ns['EM'], 'is_enum')
    # classes with an unusual metaclass, or that inherit what makes them of a kind
    c.add('import abc\nclass Meta(enum.EnumMeta):\n    pass\nclass EMeta(enum.Enum, metaclass=Meta):\n    A = 1\nclass EBase(enum.Enum):\n    def m(self): return 1\nclass ESub(EBase):\n    B = 2\n'
          'class AMeta(abc.ABCMeta):\n    pass\n@dataclass\nclass DMeta(metaclass=AMeta):\n    a: int\nclass DSub(DMeta):\n    pass\n@dataclass(frozen=True, slots=True)\nclass DSlots:\n    a: int = 1\n'
          'T1 = typing.TypeVar("T1")\n@dataclass\nclass DGen(typing.Generic[T1]):\n    a: int\nclass Plain(metaclass=AMeta):\n    a: int\n')
    for q in ('EMeta', 'EBase', 'ESub'):
        add(c.ns[q], 'is_enum')
    for q in ('DMeta', 'DSub', 'DSlots', 'DGen'):
        add(c.ns[q], 'is_dataclass')
    add(c.ns['Plain'])
    if attr:
        c.add('@attr.s(auto_attribs=True, slots=True)\nclass ASlots(metaclass=AMeta):\n    a: int\nclass ASub(ASlots):\n    pass\n')
        add(c.ns['ASlots'], 'is_attrs')
        add(c.ns['ASub'], 'is_attrs')
    o = Obj(c, 'namedtuple', lambda q: Basic(c, int), nf=r.choice([0, 1, 2]))
    add(o.py, 'is_namedtuple')
    c.ns['WT'] = o.py
    c.add('class SubNT(WT):\n    def m(self): return 3\n')
    add(c.ns['SubNT'], 'is_namedtuple')
    add(Obj(c, 'dataclass', lambda q: Basic(c, int), nf=r.choice([0, 1, 2])).py, 'is_dataclass')
    if attr:
        add(Obj(c, 'attrs', lambda q: Basic(c, int), nf=r.choice([0, 1, 2])).py, 'is_attrs')
    td = Obj(c, 'typeddict', lambda q: Basic(c, int), nf=r.choice([0, 1, 2]))
    add(td.py, 'is_typeddict')
    c.ns['WT'] = td.py
    c.add('class SubTD(WT):\n    zz: int\n')
    add(c.ns['SubTD'], 'is_typeddict')
    add(NotRequired[e], 'is_notrequired', inner=e)
    for t in (int, str, float, bool, bytes, object, type, K1, K3, tuple, list, dict, set, frozenset, pathlib.Path, uuid.UUID, datetime.date, datetime.datetime, datetime.timedelta,
              complex, Exception, collections.OrderedDict, collections.deque, collections.UserDict, type(Ellipsis), range, ipaddress.IPv4Address):
        add(t)
    cnt = collections.namedtuple('cnt', 'a b')
    add(typing.Type[int])
    add(typing.Sequence[int])
    add(typing.Iterable[e])
    add(typing.Callable[[int], str])
    add(typing.Mapping[str, int])
    add(typing.Deque[int])
    add(typing.DefaultDict[str, int])
    add(typing.TypeVar('TV'))
    add(typing.Required[e])
    add(typing.ClassVar[int])
    add(typing.Final[int])
    add(typing.Generic)
    for q in (None, 3, 'int', 2.5, [], {}, (), lambda: 3, Ellipsis, [int], 'Foo', object(), b'', enum.Enum('QQ', {'A': 1}).A, o.py):
        if q is not o.py:
            add(q)
    return out


PREDS = ['is_any', 'is_pattern', 'is_attrs', 'is_dataclass', 'is_dict', 'is_enum', 'is_forwardref', 'is_frozenset', 'is_list', 'is_literal', 'is_namedtuple', 'is_nonetype', 'is_set',
         'is_tuple', 'is_union', 'is_typeddict', 'is_newtype', 'is_optional', 'is_notrequired']


def c18(c):
    r = c.r
    c.o.bytes = False
    n = 0
    for t, p, kw in c18_types(c):
        if 'union_bare' in p:
            continue
        for q in PREDS:
            f = getattr(typechecks, q)
            try:
                y = f(t)
            except Exception as e:
                bad('%s(%s) raised %s', q, t, desc(e))
            if type(y) is not bool:
                bad('%s(%s) returned %s, not a bool', q, t, y)
            if y != (q in p):
                bad('%s(%s) is %s', q, t, str(y))
            n += 1
        if 'args' in kw:
            try:
                got = typechecks.uniontypes(t)
            except Exception as e:
                bad('uniontypes(%s) raised %s', t, desc(e))
            a = list(got)
            want = t.__args__
            if len(a) != len(kw['args']) or any(not any(i == j for j in kw['args']) for i in a) or any(not any(i == j for i in a) for j in kw['args']):
                bad('uniontypes(%s) = %s, expected %s', t, got, kw['args'])
        if 'lits' in kw:
            got = typechecks.literalvalues(t)
            if type(got) is not set or got != set(kw['lits']) or len(got) != len(set(kw['lits'])):
                bad('literalvalues(%s) = %s', t, got)
        elif r.random() < .2:
            try:
                got = typechecks.literalvalues(t)
                bad('literalvalues(%s) = %s, it is no Literal', t, got)
            except ValueError:
                pass
            except Bad:
                raise
            except Exception as e:
                bad('literalvalues(%s) raised %s', t, desc(e))
        if 'inner' in kw:
            if typechecks.notrequiredtype(t) != kw['inner']:
                bad('notrequiredtype(%s) = %s', t, typechecks.notrequiredtype(t))
    # supported types are routed to the handler of their kind
    l = Loader()
    HN = {'none': is_h(NoneType), 'union': is_h(Union[int, str]), 'basic': is_h(int), 'enum': is_h(enum.Enum('Q', {'A': 1})), 'tuple': is_h(Tuple[int]), 'vtuple': is_h(Tuple[int]), 'list': is_h(List[int]),
          'dict': is_h(Dict[str, int]), 'set': is_h(Set[int]), 'frozenset': is_h(FrozenSet[int]), 'literal': is_h(Literal[1]), 'datetime': is_h(datetime.date), 'pattern': is_h(re.Pattern), 'timedelta': is_h(datetime.timedelta),
          'strcon': is_h(pathlib.Path), 'any': is_h(Any), 'newtype': is_h(NewType('X', int)), 'fwd': is_h(typing.ForwardRef('X'))}
    td = rand_type(c, 2)
    kind = EXPECT_HANDLER.get(td.kind)
    if kind:
        name = handler_name(l, td.py)
        if name != kind:
            bad('%s is handled by %s, expected %s', td.src, name, kind)
        # exclusive
        m = [i for i, (cond, h) in enumerate(l.handlers) if cond(td.py)]
        if len(m) != 1 and td.kind != 'none':
            bad('%s matches the conditions %s', td.src, m)
    return td.src, True


def is_h(t):
    return t


EXPECT_HANDLER = {'none': 'is_nonetype', 'union': 'is_union', 'enum': 'is_enum', 'tuple': 'is_tuple', 'vtuple': 'is_tuple', 'list': 'is_list', 'dict': 'is_dict', 'set': 'is_set', 'frozenset': 'is_frozenset',
                  'literal': 'is_literal', 'pattern': 'is_pattern', 'any': 'is_any', 'newtype': 'is_newtype', 'fwd': 'is_forwardref', 'namedtuple': 'is_namedtuple', 'dataclass': 'is_dataclass', 'attrs': 'is_attrs', 'typeddict': 'is_typeddict'}


def handler_name(l, t):
    i = l.index(t)
    return {getattr(typechecks, p): p for p in PREDS}.get(l.handlers[i][0], EXPECT_ANY(l, t))


def EXPECT_ANY(l, t):
    # a condition that is not one of the predicates as such: see whether it agrees with the predicate of the type
    for p in PREDS:
        if p != 'is_optional' and getattr(typechecks, p)(t):
            return p
    return None


# ---------------------------------------------------------------------- C19
def rand_text(c):
    return c.r.choice(['', 'msg', 'é', 'a\nb', '%s %d', '{x}', 'x' * 300, '\\', "it's \"q\""])


def rand_exc(c, d=None):
    r = c.r
    if d is None:
        d = r.choice([3] * 9 + [6, 9, 20])
    cls = r.choice([TypedloadException, TypedloadValueError, TypedloadTypeError, TypedloadAttributeError])
    tr = []
    for i in range(r.choice([0, 1, 1, 2, 3, 6])):
        an = None
        if r.random() < .75 and i or r.random() < .2:
            an = r.choice([Annotation(AT.INDEX, r.choice([0, 1, 12, 10**6])), Annotation(AT.FIELD, r.choice(['a', 'é', '', 'Non', 'a.b', '%s'])), Annotation(AT.KEY, r.choice(['k', 3, (1, 2), 2.5])),
                           Annotation(AT.VALUE, r.choice(['v', [1], {'a': 1}, True, object])), Annotation(AT.UNION, r.choice([int, List[int], K1])), Annotation(AT.FORWARDREF, 'Foo')])
        tr.append(TraceItem(r.choice([1, 'a', [1], None]), r.choice([int, List[int], None, K1]), an))
    sub = [rand_exc(c, d - 1) for _ in range(r.choice([0, 0, 1, 2, 3] if d <= 3 else [1, 1, 1, 1, 2]))] if d > 0 else []
    kw = {}
    desc_ = rand_text(c)
    if r.random() < .8:
        kw['trace'] = tr
    if r.random() < .8:
        kw['value'] = r.choice([1, None, [1], 'x', object(), 0, '', [], False, {}])
    if r.random() < .8:
        kw['type_'] = r.choice([int, List[int], None, K1])
    if sub or r.random() < .5:
        kw['exceptions'] = sub
    e = cls(desc_, **kw) if r.random() < .8 else cls(desc_, kw.get('trace'), kw.get('value'), kw.get('type_'), kw.get('exceptions'))
    want = (desc_, kw.get('trace') or [], kw.get('value'), kw.get('type_'), kw.get('exceptions') or [])
    if e.args != (desc_,):
        bad('args of %s: %s, description %s', cls, e.args, desc_)
    for n, w in zip(('trace', 'value', 'type_', 'exceptions'), want[1:]):
        g = getattr(e, n)
        if n in ('value', 'type_'):
            if g is not w:
                bad('%s is %s, given %s', n, g, w)
        else:
            if type(g) is not list or len(g) != len(w) or any(i is not j for i, j in zip(g, w)):
                bad('%s is %s, given %s', n, g, w)
    return e


def ref_path(trace):
    p = []
    for i, it in enumerate(trace):
        if it.annotation is not None:
            v = it.annotation.value
            p.append('[%d]' % v if isinstance(v, int) else str(v))
    return p


def path_forms(trace):
    """the ways in which a path can be shown: pieces joined by dots, in order"""
    p = ref_path(trace)
    return p


def check_str(e):
    try:
        s = str(e)
    except Exception as x:
        bad('str() of %s raised %s', desc(e), desc(x))
    if type(s) is not str:
        bad('str() gave %s', s)
    s += ' '        # the end is stripped
    # the order: first the exception, then each sub-exception; each with a description and a path
    pos = 0

    def need(text, what):
        nonlocal pos
        i = s.find(text, pos)
        if i < 0:
            bad('str() of the exception lacks %s %s: %s', what, text, s[:800])
        pos = i + len(text)

    def show(x, trace, top):
        need(str(x.args[0]), 'the description')
        need('Path: ', 'the path')
        pp = path_forms(trace)
        j = '.'.join(pp)
        if pp:      # a path that begins with None is taken for the root: no trace of load() begins with an annotation
            need(j.rstrip(), 'the path')     # str() strips its end
        for y in x.exceptions:
            show(y, trace + y.trace[1:], False)
    show(e, e.trace, True)
    return s


def c19(c):
    r = c.r
    for cls, b in ((TypedloadValueError, ValueError), (TypedloadTypeError, TypeError), (TypedloadAttributeError, AttributeError), (TypedloadException, Exception)):
        if not issubclass(cls, b) or not issubclass(cls, TypedloadException):
            bad('%s is not a %s', cls, b)
    if r.random() < .5:
        e = rand_exc(c)
        c.log = ('exc', e.args)
        check_str(e)
        return 'made%d%d' % (len(e.trace), len(e.exceptions)), True
    td = rand_type(c, r.choice([1, 2, 3, 4]))
    if r.random() < .4:
        td = Seqs(c, 'list', union_td(c))
    v = make_data(c, td, .05)
    odd = r.random() < .04
    if odd:
        v = unprintable(c, v)
    c.log = (td, v)
    k, e = run_load(c.o.loader(), v, td.py)
    if k != 'te':
        return td.src, False
    check_subs(e)
    if odd:
        try:
            str(e)
        except Exception as x:
            bad('str() of a %s raised %s', type(e), type(x))
        return 'odd' + td.src, True
    check_str(e)
    return td.src + str(len(e.exceptions)), True


def check_subs(e, d=0):
    if not isinstance(e, TypedloadException):
        bad('sub-exception %s is not a TypedloadException', e)
    for a in ('trace', 'value', 'type_', 'exceptions'):
        if not hasattr(e, a):
            bad('the exception has no %s', a)
    if not isinstance(e.trace, list) or not isinstance(e.exceptions, list):
        bad('trace or exceptions of %s', desc(e))
    for x in e.exceptions:
        check_subs(x, d + 1)


# ---------------------------------------------------------------------- C20
def c20(c):
    return r_choice(c, [c20_date, c20_date, c20_dump, c20_delta, c20_strcon, c20_pattern])


def c20_date(c):
    r = c.r
    o = c.o
    t = r.choice([datetime.date, datetime.time, datetime.datetime])
    td = DateTD(c, t.__name__)
    w = r.random()
    if w < .4:
        x = td.gen(c)
        v = x.isoformat()
        if r.random() < .2:
            v = r.choice([v.replace('-', ''), v + 'Z', v.replace('T', ' '), v[:-1], v.replace(':', ''), SubStr(v)])
        elif r.random() < .15:
            v = r.choice(['', '2020-02-30', '25:00', 'x', '2020-01-01', '2020-01-01T10:00:00.123456+05:30', '10:00:00.5', '2020-W01-1', '00:00', '24:00', '2020-01-01T24:00:00'])
        try:
            want = t.fromisoformat(v)
        except Exception:
            want = None
    else:
        n = r.randrange(0, 9)
        base = [r.choice([1, 2020, 9999]), r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.randrange(60), r.randrange(60), r.choice([0, 1, 999999])]
        v = (base if t is not datetime.time else base[3:])[:n]
        if t is datetime.date:
            v = v[:r.choice([2, 3, 3, 3, 4])]
        if r.random() < .2 and v:
            v[r.randrange(len(v))] = r.choice(['1', 2.0, None, -1, 10**20, 61, True, [1], 0])
        try:
            want = t(*v)
        except Exception:
            want = None
        v = r.choice([list, tuple])(v)
        if r.random() < .05:
            v, want = failing(*v), None
    c.log = (t, v)
    k, x = run_load(o.loader(), v, t)
    if want is None:
        if k == 'ok':
            bad('load(%s, %s) = %s', v, t, x)
    elif k != 'ok' or not same(x, want) or x.__repr__() != want.__repr__():
        bad('load(%s, %s): %s, expected %s', v, t, x if k == 'ok' else desc(x), want)
    return srepr(v), True


def c20_dump(c):
    r = c.r
    c.o.isodates = True
    td = DateTD(c)
    x = td.gen(c)
    if r.random() < .2:
        x = td.py.fromisoformat(x.isoformat())
    iso = r.random() < .5
    d = c.o.with_(isodates=iso).dumper()
    wrapd = r.random() < .3
    c.log = ('dump', x)
    if getattr(x, 'tzinfo', None) is not None and not iso:
        k, y = run_dump(d, [x] if wrapd else x)
        if k == 'ok':
            bad('isodates=False: dump(%s) = %s drops the time zone', x, y)
        return 'tz', True
    k, y = run_dump(d, [x] if wrapd else x)
    if k == 'ok' and wrapd:
        y = y[0]
    want = x.isoformat() if iso else td.parts(x)
    if k != 'ok' or not same(y, want):
        bad('isodates=%s: dump(%s) = %s, expected %s', str(iso), x, y, want)
    k, z = run_load(c.o.loader(), y, td.py)
    if k != 'ok' or not same(z, x):
        bad('load(dump(%s)) = %s', x, z)
    return srepr(y), True


def c20_delta(c):
    r = c.r
    if r.random() < .5:
        v = r.choice([0, 1, -1, 2.5, -0.5, 1e6, 86400, 1e-6, 5e-7, 10**9, 3.000001, 10**30, float('inf'), float('nan'), 1e308, 'x', None, [1], '3', True, -10**13, 999999999 * 86400.0])
        try:
            want = datetime.timedelta(seconds=v)
        except Exception:
            want = None
        c.log = ('timedelta', v)
        k, x = run_load(c.o.loader(), v, datetime.timedelta)
        if want is None:
            if k == 'ok':
                bad('load(%s, timedelta) = %s', v, x)
        elif k != 'ok' or x != want:
            bad('load(%s, timedelta): %s, expected %s', v, x, want)
        return srepr(v), True
    x = DeltaTD(c).gen(c)
    c.log = ('dump', x)
    k, y = run_dump(c.o.dumper(), x)
    if k != 'ok' or not same(y, x.total_seconds()):
        bad('dump(%s) = %s', x, y)
    k, z = run_load(c.o.loader(), y, datetime.timedelta)
    if k != 'ok' or z != x:
        bad('load(dump(%s)) = %s', x, z)
    return srepr(y), True


class MyStr:
    def __init__(self, s):
        if not isinstance(s, str) or s.startswith('!'):
            raise ValueError('bad')
        self.s = s

    def __str__(self):
        return self.s

    def __eq__(self, o):
        return type(o) is MyStr and o.s == self.s

    def __hash__(self):
        return hash(self.s)


def c20_strcon(c):
    r = c.r
    if r.random() < .15:
        l = Loader()
        l.strconstructed = set(l.strconstructed) | {MyStr}
        d = Dumper(strconstructed={MyStr})
        v = r.choice(['a', '', '!x', 3])
        k, x = run_load(l, [v], List[MyStr])
        if (k == 'ok') != (isinstance(v, str) and not v.startswith('!')) or k == 'ok' and x != [MyStr(v)]:
            bad('strconstructed: load(%s): %s', v, x)
        if k == 'ok':
            y = run_dump(d, x)
            if y != ('ok', [v]):
                bad('strconstructed: dump(%s) = %s', x, y)
        return 'mystr', True
    td = StrCon(c)
    v = r.choice(td.good + td.wrong + ['', 3, b'abcd', 2**31, ['a'], ('10.0.0.0', 8), pathlib.PurePosixPath('q')])
    try:
        want = td.py(v)
    except Exception:
        want = None
    c.log = (td, v)
    k, x = run_load(c.o.loader(), v, td.py)
    if want is None:
        if k == 'ok':
            bad('load(%s, %s) = %s, the constructor fails', v, td.src, x)
        return td.src + 'x', True
    if k != 'ok' or not same(x, want):
        bad('load(%s, %s): %s, expected %s', v, td.src, x if k == 'ok' else desc(x), want)
    k, y = run_dump(c.o.dumper(), x)
    if k != 'ok' or not same(y, str(x)):
        bad('dump(%s) = %s', x, y)
    return td.src + srepr(v), True


def c20_pattern(c):
    r = c.r
    td = Pat(c)
    v = r.choice(['', 'a.*', '(', '[', r'\d', b'a', b'', b'(', 3, None, SubStr('a'), re.compile('q'), re.compile(b'q'), [1], '(?P<n>x)', 'a' * 50, '*', 'é'])
    c.log = (td, v)
    k, x = run_load(c.o.loader(), v, td.py)
    want = None
    if td.of is None or type(v) is td.of:
        try:
            want = re.compile(v)
        except Exception:
            want = None
    if want is None:
        if k == 'ok':
            bad('load(%s, %s) = %s', v, td.src, x)
        return td.src + 'x', True
    if k != 'ok' or not (isinstance(x, re.Pattern) and x.pattern == want.pattern and x.flags == want.flags):
        bad('load(%s, %s): %s', v, td.src, x if k == 'ok' else desc(x))
    k, y = run_dump(c.o.dumper(), x)
    if k != 'ok' or not same(y, want.pattern):
        bad('dump(%s) = %s', x, y)
    return td.src + srepr(v), True


CASES = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09, 'C10': c10,
         'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14, 'C15': c15, 'C16': c16, 'C17': c17, 'C18': c18, 'C19': c19, 'C20': c20}
