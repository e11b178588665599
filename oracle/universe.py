"""
oracle.universe - random types (with an independent notion of what conforms to them),
conforming values, data to load, and data that is broken on purpose.

Nothing in here looks at how typedload works: a type is described by a TD object, built together
with the Python type expression, so that what conforms to it is known without introspection.
"""
import argparse
import collections
import dataclasses
import datetime
import enum
import ipaddress
import math
import os
import pathlib
import random
import re
import sys
import types
import typing
import uuid
from typing import *

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import typedload
from typedload import dataloader, datadumper, typechecks, exceptions
from typedload.dataloader import Loader
from typedload.datadumper import Dumper
from typedload.exceptions import *
assert os.path.realpath(typedload.__file__).startswith(os.path.realpath(REPO)), typedload.__file__
try:
    import attr
except ImportError:
    attr = None

NoneType = type(None)
UTC = datetime.timezone.utc


# ----------------------------------------------------------------------
def same(a, b, depth=0):
    """deep equality that also compares types (nan equals nan)"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if depth > 60:
        return True
    if isinstance(a, float):
        return (a == b and math.copysign(1, a) == math.copysign(1, b)) or (a != a and b != b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, depth + 1) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)):
        if len(a) != len(b):
            return False
        rest = list(b)
        for x in a:
            for i, y in enumerate(rest):
                if same(x, y, depth + 1):
                    del rest[i]
                    break
            else:
                return False
        return True
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        rest = list(b.items())
        for k, v in a.items():
            for i, (k2, v2) in enumerate(rest):
                if same(k, k2, depth + 1):
                    if not same(v, v2, depth + 1):
                        return False
                    del rest[i]
                    break
            else:
                return False
        return True
    f = field_names(type(a))
    if f is not None:
        miss = object()
        for n in f:
            x, y = getattr(a, n, miss), getattr(b, n, miss)
            if x is miss or y is miss:
                if x is not y:
                    return False
            elif not same(x, y, depth + 1):
                return False
        return True
    try:
        return bool(a == b)
    except Exception:
        return False


def field_names(c):
    if '__dataclass_fields__' in dir(c):
        return [f.name for f in dataclasses.fields(c)]
    if hasattr(c, '__attrs_attrs__'):
        return [f.name for f in c.__attrs_attrs__]
    return None


def snap(x, memo=None, depth=0):
    """a deep, order preserving, picture of a value"""
    if depth > 80:
        return '...'
    if isinstance(x, (list, tuple)):
        return (type(x), id(x) if isinstance(x, list) else 0, tuple(snap(i, memo, depth + 1) for i in x))
    if isinstance(x, collections.deque):
        return (type(x), id(x), tuple(snap(i, memo, depth + 1) for i in x))
    if isinstance(x, dict):
        return (type(x), id(x), tuple((snap(k, memo, depth + 1), snap(v, memo, depth + 1)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return (type(x), id(x), frozenset(repr(i) for i in x), len(x))
    if isinstance(x, argparse.Namespace):
        return (type(x), id(x), snap(x.__dict__, memo, depth + 1))
    f = field_names(type(x))
    if f is not None:
        return (type(x), id(x), tuple((n, snap(getattr(x, n, '<unset>'), memo, depth + 1)) for n in f))
    return (type(x), repr(x))


# ----------------------------------------------------------------------
class Opts:
    def __init__(self, **kw):
        self.basiccast = True
        self.failonextra = False
        self.dictequivalence = True
        self.uniondebugconflict = False
        self.mangle_key = 'name'
        self.bytes = False
        self.hidedefault = True
        self.isodates = True
        self.__dict__.update(kw)

    def with_(self, **kw):
        d = dict(self.__dict__)
        d.update(kw)
        return Opts(**d)

    def loader(self, **kw):
        d = dict(basiccast=self.basiccast, failonextra=self.failonextra, dictequivalence=self.dictequivalence,
                 uniondebugconflict=self.uniondebugconflict, mangle_key=self.mangle_key)
        if self.bytes:
            d['basictypes'] = {int, bool, float, str, bytes, NoneType}
        d.update(kw)
        return Loader(**d)

    def dumper(self, **kw):
        d = dict(hidedefault=self.hidedefault, isodates=self.isodates, mangle_key=self.mangle_key)
        if self.bytes:
            d['basictypes'] = {int, bool, float, str, bytes, NoneType}
        d.update(kw)
        return Dumper(**d)

    def basics(self):
        return [int, bool, float, str, NoneType] + ([bytes] if self.bytes else [])

    def __repr__(self):
        return 'Opts(%s)' % ', '.join('%s=%r' % i for i in sorted(self.__dict__.items()))


def rand_opts(r, **kw):
    o = Opts(basiccast=r.random() < .6, failonextra=r.random() < .4, dictequivalence=r.random() < .8,
             uniondebugconflict=r.random() < .15, mangle_key=r.choice(['name', 'name', 'alt']), bytes=r.random() < .2,
             hidedefault=r.random() < .5, isodates=r.random() < .7)
    o.__dict__.update(kw)
    return o


class Ctx:
    """one case: random source, namespace in which the types are defined, source text"""

    def __init__(self, r, o=None):
        self.r = r
        self.o = o or rand_opts(r)
        self.ns = {}
        exec('from typing import *\nfrom dataclasses import *\nimport dataclasses, datetime, re, pathlib, uuid, ipaddress, enum, types, typing\nfrom dataclasses import field as dcfield\n', self.ns)
        self.ns['__name__'] = 'case'
        self.ns['NoneType'] = NoneType
        if attr:
            self.ns['attr'] = attr
        self.lines = []
        self.srcs = []
        self.n = 0
        self.keymode = 0
        self.classes = {}

    def fresh(self, p):
        self.n += 1
        return '%s%d' % (p, self.n)

    def add(self, src):
        self.lines.append(src)
        self.srcs.append(src)
        exec(compile(src, '<case>', 'exec', dont_inherit=True), self.ns)

    def put(self, obj, p='v'):
        n = self.fresh(p)
        self.ns[n] = obj
        if not isinstance(obj, types.FunctionType):
            self.lines.append('%s = %r' % (n, obj))
        return n

    def ev(self, src):
        return eval(src, self.ns)


# ----------------------------------------------------------------------
class TD:
    kind = '?'
    hashable = True       # values are hashable
    dumphash = True       # dumps are hashable
    src = None
    subs = ()

    def conf(self, x):
        raise NotImplementedError

    def gen(self, c, d=3):
        raise NotImplementedError

    def data(self, c, x):
        """plain data from which x loads"""
        return x

    def bad(self, c):
        """some value which certainly is rejected by this type, whatever the options (or NOBAD)"""
        return NOBAD

    def __repr__(self):
        return self.src or self.kind

    def walk(self, seen=None):
        seen = seen if seen is not None else set()
        if id(self) in seen:
            return
        seen.add(id(self))
        yield self
        for s in self.subs:
            yield from s.walk(seen)


NOBAD = object()

INTS = [0, 1, -1, 2, 3, 7, 255, 10**6, -10**9, 2**53 + 1, 2**63, 10**30]
FLOATS = [0.0, -0.0, 1.5, -2.25, 1e10, 1e308, 0.1, 3.0]
STRS = ['', 'a', 'b', 'abc', '12', '-7', '1.5', 'True', 'None', 'é', '日本', 'x' * 40, ' ', '.', 'name', '\n', '\ud800', "it's", '%s', '{}']


class Basic(TD):
    kind = 'basic'

    def __init__(self, c, t):
        self.t = t
        self.src = t.__name__
        self.py = t

    def conf(self, x):
        return isinstance(x, self.t)

    def gen(self, c, d=3):
        r = c.r
        if self.t is int:
            return r.choice(INTS) if r.random() < .7 else r.randrange(-1000, 1000)
        if self.t is bool:
            return r.random() < .5
        if self.t is float:
            return r.choice(FLOATS) if r.random() < .7 else r.randrange(-1000, 1000) / 8
        if self.t is str:
            return r.choice(STRS) if r.random() < .7 else ''.join(r.choice('abcxyz019_é') for _ in range(r.randrange(8)))
        if self.t is bytes:
            return r.choice([b'', b'a', b'\x00\xff', b'12'])

    def bad(self, c):
        if self.t in (int, float):
            return c.r.choice(['zz', [1], {'a': 1}, None, object])
        if self.t is bytes:
            return c.r.choice([3.5, ['a'], 'a', None])
        return NOBAD


class NoneTD(TD):
    kind = 'none'

    def __init__(self, c):
        self.src = 'NoneType'
        self.py = NoneType

    def conf(self, x):
        return x is None

    def gen(self, c, d=3):
        return None

    def bad(self, c):
        return c.r.choice([0, '', False, [], 'None', {}])


class AnyTD(TD):
    kind = 'any'

    def __init__(self, c, deep=True):
        self.src = 'Any'
        self.py = Any
        self.hashable = self.dumphash = not deep
        self.deep = deep

    def conf(self, x):
        return True

    def gen(self, c, d=3):
        r = c.r
        if not self.deep or d <= 0:
            return r.choice([None, 1, 'a', 2.5, True, '', 0])
        return plain(c, d)


def plain(c, d=2):
    """json-like data"""
    r = c.r
    k = r.random()
    if d <= 0 or k < .5:
        return r.choice([None, True, False, 0, 1, -3, 2.5, '', 'a', '12', 'zz', 10**20])
    if k < .75:
        return [plain(c, d - 1) for _ in range(r.randrange(4))]
    return {r.choice(['a', 'b', 'c', 'x', 'name', 'kind', '']): plain(c, d - 1) for _ in range(r.randrange(4))}


class Lit(TD):
    kind = 'literal'

    def __init__(self, c, values=None):
        r = c.r
        if values is None:
            pool = [1, 2, 3, -5, 'a', 'b', 'kind', '', '1', True, False, None, 0, 7]
            if c.o.bytes:
                pool.append(b'x')
            values = []
            for v in r.sample(pool, r.randrange(1, 5)):
                values.append(v)
        self.values = tuple(values)
        self.src = 'Literal[%s]' % ', '.join(repr(v) for v in self.values)
        self.py = c.ev(self.src)

    def conf(self, x):
        return any(x is v or (type(x) is type(v) and x == v) or x == v for v in self.values)

    def gen(self, c, d=3):
        return c.r.choice(self.values)

    def bad(self, c):
        return c.r.choice(['nope', 99, [1], {'a': 2}, object])


class En(TD):
    """Enum: values are basic, or tuples loaded through an annotation"""
    kind = 'enum'

    def __init__(self, c):
        r = c.r
        n = c.fresh('E')
        w = r.random()
        self.ann = None
        base = 'enum.Enum'
        if w < .3:
            vals = r.sample([1, 2, 3, 'a', 'b', '1', 2.5, 'zz'], r.randrange(1, 5))
        elif w < .45:
            base = 'enum.IntEnum'
            vals = r.sample([1, 2, 3, 4, 0, -1], r.randrange(1, 4))
        elif w < .6:
            base = 'str, enum.Enum'
            vals = r.sample(['a', 'b', '1', '', 'red'], r.randrange(1, 4))
        elif w < .8:
            vals = r.sample([(1, 2), (3, 4), (5, 6), (0, 0)], r.randrange(1, 4))
            self.ann = 'Tuple[int, int]'
            self.dumphash = False
        elif w < .9:
            vals = r.sample([(1,), (1, 2), (1, 2, 3), ()], r.randrange(1, 4))
            self.ann = 'Tuple[int, ...]'
            self.dumphash = False
        else:
            vals = list(range(20))[:r.randrange(9, 15)]
        body = ''
        if self.ann:
            body += '    note: %s\n' % self.ann
        for i, v in enumerate(vals):
            body += '    M%d = %r\n' % (i, v)
        c.add('class %s(%s):\n%s' % (n, base, body))
        self.src = n
        self.py = c.ns[n]

    def conf(self, x):
        return type(x) is self.py

    def gen(self, c, d=3):
        return c.r.choice(list(self.py))

    def data(self, c, x):
        v = x.value
        return list(v) if isinstance(v, tuple) else v

    def bad(self, c):
        return c.r.choice(['nope', 99, [1, 2, 3, 4, 5], {'a': 2}, None])


STRCON = {
    'pathlib.Path': (['', '.', '/', '/tmp/a b', 'a/../b', 'x.txt', '/é'], [3, None, ['a'], 2.5]),
    'ipaddress.IPv4Address': (['127.0.0.1', '0.0.0.0', '255.255.255.255', '10.1.2.3'], ['999.1.1.1', '', 'x', None, [1], '::1']),
    'ipaddress.IPv6Address': (['::1', 'fe80::1', '2001:db8::ff'], ['', 'x', None, '127.0.0.1']),
    'ipaddress.IPv4Network': (['10.0.0.0/8', '192.168.1.0/24', '1.2.3.4/32'], ['10.0.0.1/8', 'x', None, 'a/b']),
    'ipaddress.IPv6Network': (['2001:db8::/32', '::/0'], ['x', None, '2001:db8::1/32']),
    'ipaddress.IPv4Interface': (['10.0.0.1/8', '1.2.3.4/32'], ['x', None, '10.0.0.1/99']),
    'ipaddress.IPv6Interface': (['2001:db8::1/32', '::1/128'], ['x', None, '::1/999']),
    'uuid.UUID': (['12345678-1234-5678-1234-567812345678', '00000000-0000-0000-0000-000000000000', 'ffffffff-ffff-4fff-bfff-ffffffffffff'],
                  ['x', '', '1234', 3, None, [1], b'a']),
}


class StrCon(TD):
    kind = 'strcon'

    def __init__(self, c, name=None):
        self.src = name or c.r.choice(list(STRCON))
        self.good, self.wrong = STRCON[self.src]
        self.py = eval(self.src, globals())

    def conf(self, x):
        return isinstance(x, self.py)

    def gen(self, c, d=3):
        return self.py(c.r.choice(self.good))

    def data(self, c, x):
        return str(x)

    def bad(self, c):
        return c.r.choice(self.wrong + [{'a': 1}])


class DateTD(TD):
    kind = 'datetime'

    def __init__(self, c, which=None):
        self.which = which or c.r.choice(['date', 'time', 'datetime'])
        self.src = 'datetime.' + self.which
        self.py = getattr(datetime, self.which)
        self.dumphash = c.o.isodates

    def conf(self, x):
        return isinstance(x, self.py)

    def gen(self, c, d=3):
        r = c.r
        y, mo, da = r.choice([1, 1970, 2024, 9999, 1583]), r.randrange(1, 13), r.randrange(1, 29)
        h, mi, s, us = r.randrange(24), r.randrange(60), r.choice([0, 0, 1, 59]), r.choice([0, 0, 1, 999999, 500000, 1000])
        tz = None
        if c.o.isodates and r.random() < .4:
            tz = r.choice([UTC, datetime.timezone(datetime.timedelta(hours=5, minutes=30)), datetime.timezone(datetime.timedelta(hours=-3)),
                           datetime.timezone(datetime.timedelta(seconds=3661))])
        if self.which == 'date':
            return datetime.date(y, mo, da)
        if self.which == 'time':
            return datetime.time(h, mi, s, us, tzinfo=tz)
        return datetime.datetime(y, mo, da, h, mi, s, us, tzinfo=tz)

    def parts(self, x):
        if self.which == 'date':
            return [x.year, x.month, x.day]
        if self.which == 'time':
            return [x.hour, x.minute, x.second, x.microsecond]
        return [x.year, x.month, x.day, x.hour, x.minute, x.second, x.microsecond]

    def data(self, c, x):
        if getattr(x, 'tzinfo', None) is not None or c.keymode or c.r.random() < .6:
            return x.isoformat()
        return self.parts(x)

    def bad(self, c):
        return c.r.choice(['nope', '2024-13-45', None, 3.5, ['a'], [10**30, 1, 1], [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]])


class DeltaTD(TD):
    kind = 'timedelta'

    def __init__(self, c):
        self.src = 'datetime.timedelta'
        self.py = datetime.timedelta

    def conf(self, x):
        return type(x) is datetime.timedelta

    def gen(self, c, d=3):
        r = c.r
        return datetime.timedelta(days=r.choice([0, 1, -1, 365, 4000]), seconds=r.randrange(0, 86400), microseconds=r.choice([0, 1, 500000, 999999]))

    def data(self, c, x):
        return x.total_seconds()

    def bad(self, c):
        return c.r.choice(['nope', '12', None, [1], float('inf'), 10**30, float('nan')])


class Pat(TD):
    kind = 'pattern'

    def __init__(self, c, which=None):
        pool = ['re.Pattern', 're.Pattern[str]', 'typing.Pattern', 'typing.Pattern[str]']
        if c.o.bytes:
            pool += ['re.Pattern[bytes]', 'typing.Pattern[bytes]']
        self.src = which or c.r.choice(pool)
        self.py = c.ev(self.src)
        self.of = bytes if 'bytes' in self.src else str if 'str' in self.src else None

    def conf(self, x):
        return isinstance(x, re.Pattern) and (self.of is None or type(x.pattern) is self.of)

    def gen(self, c, d=3):
        p = c.r.choice(['', 'a', 'a.*b', r'\d+', '[a-z]{2,3}', '(x|y)', '^$'])
        if self.of is bytes:
            p = p.encode()
        return re.compile(p)

    def data(self, c, x):
        return x.pattern

    def bad(self, c):
        return c.r.choice([3, None, '(' if self.of is not bytes else b'(', [1], {'a': 1}, 'a' * 3 + '{99999999999999999999}' if self.of is not bytes else 'x'])


class NewT(TD):
    kind = 'newtype'

    def __init__(self, c, sub):
        n = c.fresh('N')
        c.add('%s = NewType(%r, %s)' % (n, n, sub.src))
        self.sub = sub
        self.subs = (sub,)
        self.src = n
        self.py = c.ns[n]
        self.hashable, self.dumphash = sub.hashable, sub.dumphash

    def conf(self, x):
        return self.sub.conf(x)

    def gen(self, c, d=3):
        return self.sub.gen(c, d)

    def data(self, c, x):
        return self.sub.data(c, x)

    def bad(self, c):
        return self.sub.bad(c)


class Seqs(TD):
    """List, Set, FrozenSet, Tuple[T, ...]"""

    def __init__(self, c, kind, sub):
        self.kind = kind
        self.sub = sub
        self.subs = (sub,)
        self.cls = {'list': list, 'set': set, 'frozenset': frozenset, 'vtuple': tuple}[kind]
        tn = {'list': ['List', 'list'], 'set': ['Set', 'set'], 'frozenset': ['FrozenSet', 'frozenset'], 'vtuple': ['Tuple', 'tuple']}[kind]
        tn = c.r.choice(tn)
        if "'" in sub.src and tn[0].islower():
            tn = tn = {'list': 'List', 'set': 'Set', 'frozenset': 'FrozenSet', 'tuple': 'Tuple'}[tn]
        self.src = '%s[%s%s]' % (tn, sub.src, ', ...' if kind == 'vtuple' else '')
        self.hashable = kind in ('frozenset', 'vtuple') and sub.hashable
        self.dumphash = False
        self._py = None
        self.c = c

    @property
    def py(self):
        if self._py is None:
            self._py = self.c.ev(self.src)
        return self._py

    def conf(self, x):
        return type(x) is self.cls and all(self.sub.conf(i) for i in x)

    def gen(self, c, d=3):
        n = 0 if d <= 0 else c.r.choice([0, 1, 1, 2, 2, 3, 5])
        return self.cls([self.sub.gen(c, d - 1) for _ in range(n)])

    def data(self, c, x):
        return [self.sub.data(c, i) for i in x]

    def bad(self, c):
        return c.r.choice([3, None, {'a': 1}, 2.5, {}])


class Tup(TD):
    kind = 'tuple'

    def __init__(self, c, subs):
        self.subs = tuple(subs)
        tn = 'Tuple' if any("'" in s.src for s in subs) else c.r.choice(['Tuple', 'tuple'])
        self.src = '%s[%s]' % (tn, ', '.join(s.src for s in subs) if subs else '()')
        self.hashable = all(s.hashable for s in subs)
        self.dumphash = False
        self._py = None
        self.c = c

    py = Seqs.py

    def conf(self, x):
        return type(x) is tuple and len(x) == len(self.subs) and all(s.conf(i) for s, i in zip(self.subs, x))

    def gen(self, c, d=3):
        return tuple(s.gen(c, d - 1) for s in self.subs)

    def data(self, c, x):
        return [s.data(c, i) for s, i in zip(self.subs, x)]

    def bad(self, c):
        return c.r.choice([3, None, {'a': 1}, 2.5, {}] + ([[]] if self.subs else []))


class Dct(TD):
    kind = 'dict'
    hashable = False
    dumphash = False

    def __init__(self, c, k, v):
        self.k, self.v = k, v
        self.subs = (k, v)
        tn = 'Dict' if "'" in k.src + v.src else c.r.choice(['Dict', 'dict'])
        self.src = '%s[%s, %s]' % (tn, k.src, v.src)
        self._py = None
        self.c = c

    py = Seqs.py

    def conf(self, x):
        return type(x) is dict and all(self.k.conf(i) and self.v.conf(j) for i, j in x.items())

    def gen(self, c, d=3):
        n = 0 if d <= 0 else c.r.choice([0, 1, 1, 2, 3])
        return {self.k.gen(c, d - 1): self.v.gen(c, d - 1) for _ in range(n)}

    def data(self, c, x):
        r = {}
        for k, v in x.items():
            c.keymode += 1
            kd = self.k.data(c, k)
            c.keymode -= 1
            r[kd] = self.v.data(c, v)
        return r

    def bad(self, c):
        return c.r.choice([3, None, [1, 2], 'ab', 2.5, []])


class Un(TD):
    kind = 'union'

    def __init__(self, c, subs):
        self.subs = tuple(subs)
        w = c.r.random()
        if len(subs) == 2 and isinstance(subs[1], NoneTD) and w < .5:
            self.src = 'Optional[%s]' % subs[0].src
        elif w < .8 or any("'" in s.src for s in subs) or subs[0].src in ('NoneType', 'Any') or not isinstance(subs[0].py, type):
            self.src = 'Union[%s]' % ', '.join(s.src for s in subs)
        else:
            self.src = '(' + ' | '.join(s.src for s in subs) + ')'
            try:
                if c.ev(self.src).__args__ != c.ev('Union[%s]' % ', '.join(s.src for s in subs)).__args__:
                    raise TypeError
            except Exception:
                self.src = 'Union[%s]' % ', '.join(s.src for s in subs)
        self.hashable = all(s.hashable for s in subs)
        self.dumphash = all(s.dumphash for s in subs)
        self._py = None
        self.c = c

    py = Seqs.py

    def conf(self, x):
        return any(s.conf(x) for s in self.subs)

    def gen(self, c, d=3):
        s = c.r.choice(self.subs)
        return s.gen(c, d - 1)

    def data(self, c, x):
        for s in self.subs:
            if s.conf(x):
                return s.data(c, x)
        return x

    def bad(self, c):
        for _ in range(20):
            s = c.r.choice(self.subs)
            b = s.bad(c)
            if b is not NOBAD and all(surely_bad(s, b) for s in self.subs):
                return b
        return NOBAD


def surely_bad(td, b):
    """does td reject b under all the options"""
    if isinstance(td, Basic):
        if td.t is int or td.t is float:
            return b is None or b is object or isinstance(b, (list, dict)) or b in ('zz', 'nope', 'x')
        return False
    if isinstance(td, NoneTD):
        return b is not None
    if isinstance(td, Seqs):
        return b is None or isinstance(b, (dict, int, float))
    if isinstance(td, Tup):
        return b is None or isinstance(b, (dict, int, float))
    if isinstance(td, Dct):
        return b is None or isinstance(b, (int, float, list, str))
    if isinstance(td, Lit):
        return b in ('nope', 99) or isinstance(b, (list, dict)) or b is object
    if isinstance(td, Obj):
        return b is None or isinstance(b, (int, float, list, str))
    if isinstance(td, (StrCon,)):
        return b is None
    if isinstance(td, (DateTD, DeltaTD)):
        return b is None
    if isinstance(td, Un):
        return all(surely_bad(s, b) for s in td.subs)
    return False


class Fwd(TD):
    """a forward reference, by name, to an object type"""
    kind = 'fwd'

    def __init__(self, name):
        self.name = name
        self.src = repr(name)
        self.target = None
        self.hashable = False
        self.dumphash = False

    @property
    def py(self):
        return typing.ForwardRef(self.name)

    def conf(self, x):
        return self.target.conf(x)

    def gen(self, c, d=3):
        return self.target.gen(c, d - 1)

    def data(self, c, x):
        return self.target.data(c, x)

    def bad(self, c):
        return c.r.choice([3, None, [1, 2], 'ab'])


class F:
    """a field of an object"""
    def __init__(self, name, td):
        self.name = name
        self.td = td
        self.default = NOBAD       # default value
        self.factory = None
        self.meta = {}
        self.init = True
        self.repr = True
        self.alias = None
        self.conv = None
        self.req = True            # TypedDict: required
        self.mark = None
        self.loadtd = td           # type it is loaded as (converter)

    def has_default(self):
        return self.default is not NOBAD or self.factory is not None

    def dflt(self):
        return self.factory() if self.factory else self.default


class Obj(TD):
    """NamedTuple, dataclass, attrs, TypedDict"""
    hashable = False
    dumphash = False
    NAMES = ['a', 'b', 'c', 'x', 'y', 'name', 'value', 'kind', 'items', 'keys', 'get', 'data', 'type_', 'long_field_name', 'f1', 'f2', 'é', 'values', 'count', 'self_', 'metadata']

    def __init__(self, c, kind, mkfield, nf=None, tag=None, name=None, mangle=True, opts=()):
        """mkfield(name) -> TD"""
        r = c.r
        self.kind = kind
        self.c = c
        n = self.name = name or c.fresh('C')
        nf = r.choice([0, 1, 2, 2, 3, 3, 4]) if nf is None else nf
        names = r.sample([q for q in self.NAMES if not (kind == 'namedtuple' and q in ('count',))], nf)
        if kind == 'attrs' and r.random() < .25 and names and not (tag and names[0] == tag[0]):
            names[0] = '_' + names[0]
        self.fields = []
        if tag:
            f = F(tag[0], Lit(c, tag[1]))
            self.fields.append(f)
            names = [q for q in names if q != tag[0]]
            if 'tagdefault' in opts:
                f.default = tag[1][0]
        for q in names:
            f = F(q, mkfield(q))
            self.fields.append(f)
            w = r.random()
            if kind != 'typeddict' and w < .45 and 'nodefault' not in opts:
                v = f.td.gen(c, 0 if any(isinstance(q, Fwd) and q.target is None for q in f.td.walk()) else 1)
                if r.random() < .5 and kind in ('dataclass', 'attrs') or self.unhash(v) and kind == 'dataclass':
                    import copy
                    f.factory = (lambda v: lambda: copy.deepcopy(v))(v)
                    if type(v) in (list, dict, set) and not v:
                        f.factory = type(v)
                else:
                    f.default = v
        if kind in ('dataclass', 'attrs') and mangle and self.fields and r.random() < .5:
            self.mangle(c)
        getattr(self, 'make_' + kind)(c, opts)
        self.src = n
        self.py = c.ns[n]
        c.classes[self.py] = self
        self.subs = tuple(f.td for f in self.fields)
        if kind == 'namedtuple':
            self.hashable = all(s.hashable for s in self.subs)
        if kind == 'dataclass' and self.frozen and all(s.hashable for s in self.subs):
            self.hashable = True

    @staticmethod
    def unhash(v):
        try:
            hash(v)
            return False
        except TypeError:
            return True

    def mangle(self, c):
        r = c.r
        fs = [f for f in self.fields if not f.name.startswith('_')]
        if not fs:
            return
        for key in (['name'] if r.random() < .6 else ['name', 'alt']):
            w = r.random()
            ns = [f.name for f in fs]
            if w < .25 and len(fs) >= 2:          # permutation
                p = ns[1:] + ns[:1]
                for f, q in zip(fs, p):
                    f.meta[key] = q
            elif w < .45 and len(fs) >= 2:        # chain, the last gets a new name
                p = ns[1:] + ['new_' + key]
                for f, q in zip(fs, p):
                    f.meta[key] = q
            else:
                for i, f in enumerate(fs):
                    if r.random() < .6:
                        f.meta[key] = r.choice(['m_%s', '%s-%s' % ('x', '%s'), '%s_', '@%s', 'Ⅷ%s', '%s.']) % f.name
                        if r.random() < .06 and not any(q.meta.get(key) == '' for q in fs):
                            f.meta[key] = ''
        if r.random() < .2:
            r.choice(fs).meta['unrelated'] = 3

    def key(self, f, o=None):
        """the key of a field in the data"""
        o = o or self.c.o
        if self.kind in ('dataclass', 'attrs'):
            return f.meta.get(o.mangle_key, f.name)
        return f.name

    def initname(self, f):
        if self.kind == 'attrs':
            return f.alias or f.name.lstrip('_')
        return f.name

    def order(self):
        self.fields.sort(key=lambda f: f.has_default())

    def dval(self, c, f):
        if f.factory:
            return c.put(f.factory, 'fac') if f.factory not in (list, dict, set) else f.factory.__name__
        return c.put(f.default, 'd')

    def make_namedtuple(self, c, opts):
        self.order()
        s = 'class %s(NamedTuple):\n    """doc"""\n' % self.name
        for f in self.fields:
            s += '    %s: %s' % (f.name, f.td.src)
            if f.has_default():
                s += ' = %s' % self.dval(c, f)
            s += '\n'
        if not self.fields:
            s += '    pass\n'
        c.add(s)

    def make_dataclass(self, c, opts):
        r = c.r
        self.frozen = r.random() < .3
        kw = r.random() < .2
        if not kw:
            self.order()
        args = []
        if self.frozen:
            args.append('frozen=True')
        if kw:
            args.append('kw_only=True')
        slots = r.random() < .15
        if slots:
            args.append('slots=True')
        s = ''
        split = r.randrange(1, len(self.fields)) if len(self.fields) > 1 and r.random() < .2 else 0

        def body(fs):
            s = ''
            for f in fs:
                a = []
                if f.factory:
                    a.append('default_factory=%s' % self.dval(c, f))
                elif f.has_default():
                    a.append('default=%s' % self.dval(c, f))
                if f.meta:
                    a.append('metadata=%r' % (f.meta,))
                if f.has_default() and 'noinit' in opts and r.random() < .3 and not slots:
                    f.init = False
                    a.append('init=False')
                s += '    %s: %s' % (f.name, f.td.src)
                if a:
                    s += ' = dcfield(%s)' % ', '.join(a)
                s += '\n'
            return s
        if split:
            base = c.fresh('B')
            s += '@dataclass(%s)\nclass %s:\n%s' % (', '.join(args), base, body(self.fields[:split]))
            s += '@dataclass(%s)\nclass %s(%s):\n%s' % (', '.join(args), self.name, base, body(self.fields[split:]))
        else:
            s += '@dataclass(%s)\nclass %s:\n%s' % (', '.join(args), self.name, body(self.fields))
            if not self.fields or r.random() < .15:
                s += '    CONST: ClassVar[int] = 3\n'
        c.add(s)

    def make_attrs(self, c, opts):
        r = c.r
        self.order()
        style = r.choice(['attr.s', 'attr.s(auto_attribs=True)', 'attr.s(kw_only=True)', 'attr.define', 'attr.s(frozen=True)'])
        s = '@%s\nclass %s:\n' % (style, self.name)
        auto = 'auto' in style or 'define' in style
        for f in self.fields:
            a = []
            if f.factory:
                a.append('factory=%s' % self.dval(c, f))
            elif f.has_default():
                a.append('default=%s' % self.dval(c, f))
            if f.meta:
                a.append('metadata=%r' % (f.meta,))
            if 'conv' in opts and isinstance(f.td, Basic) and f.td.t is str and not f.has_default() and r.random() < .5:
                f.conv = 'conv'
                cn = c.fresh('conv')
                hint = r.choice(['int', 'Any', ''])
                f.loadtd = Basic(c, int) if hint == 'int' else AnyTD(c)
                c.add('def %s(v%s):\n    return str(v)' % (cn, ': ' + hint if hint else ''))
                a.append('converter=%s' % cn)
            if 'norepr' in opts and r.random() < .3:
                f.repr = False
                a.append('repr=False')
            if 'noinit' in opts and f.has_default() and r.random() < .3:
                f.init = False
                a.append('init=False')
            if 'alias' in opts and not f.name.startswith('_') and r.random() < .3:
                f.alias = 'al_' + f.name
                a.append('alias=%r' % f.alias)
            if auto:
                s += '    %s: %s = attr.ib(%s)\n' % (f.name, f.td.src, ', '.join(a))
            else:
                s += '    %s = attr.ib(type=%s%s)\n' % (f.name, f.td.src, ''.join(', ' + q for q in a))
        if not self.fields:
            s += '    pass\n'
        c.add(s)

    def make_typeddict(self, c, opts):
        r = c.r
        total = r.random() < .7 or 'tagreq' in opts
        s = ''
        split = r.randrange(1, len(self.fields)) if len(self.fields) > 1 and r.random() < .3 else 0

        def body(fs, total):
            s = ''
            for f in fs:
                t = f.td.src
                f.req = total
                if 'tagreq' in opts and f is self.fields[0]:
                    pass
                elif r.random() < .25:
                    f.mark = 'NotRequired'
                    f.req = False
                    t = 'NotRequired[%s]' % t
                s += '    %s: %s\n' % (f.name, t)
            return s or '    pass\n'
        if split:
            base = c.fresh('B')
            s += 'class %s(TypedDict, total=%r):\n%s' % (base, total, body(self.fields[:split], total))
            t2 = r.random() < .7
            s += 'class %s(%s, total=%r):\n%s' % (self.name, base, t2, body(self.fields[split:], t2))
        else:
            s += 'class %s(TypedDict, total=%r):\n%s' % (self.name, total, body(self.fields, total))
        c.add(s)

    frozen = False

    # ---- values
    def required(self, f):
        if self.kind == 'typeddict':
            return f.req
        return f.init and not f.has_default()

    def get(self, x, f):
        if self.kind == 'typeddict':
            return x.get(f.name, NOBAD)
        return getattr(x, f.name)

    def conf(self, x):
        if self.kind == 'typeddict':
            names = {f.name for f in self.fields}
            return type(x) is dict and set(x) <= names and all((f.name in x or not f.req) and (f.name not in x or f.td.conf(x[f.name])) for f in self.fields)
        return type(x) is self.py and all(f.conv or f.td.conf(getattr(x, f.name)) for f in self.fields)

    def gen(self, c, d=3):
        p = {}
        for f in self.fields:
            if not f.init:
                continue
            if self.kind == 'typeddict':
                if not f.req and (c.r.random() < .4 or d <= 0):
                    continue
            elif f.has_default() and (c.r.random() < .4 or d <= 0):
                continue
            p[self.initname(f)] = f.loadtd.gen(c, d - 1)
        return self.py(**p)

    def data(self, c, x, missing=True):
        r = {}
        fs = list(self.fields)
        c.r.shuffle(fs)
        for f in fs:
            v = self.get(x, f)
            if v is NOBAD or not f.init:
                continue
            if f.has_default() and missing and c.r.random() < .5 and same(v, f.dflt()):
                continue
            r[self.key(f)] = f.td.data(c, v) if not f.conv else f.loadtd.data(c, v)
        return r

    def bad(self, c):
        return c.r.choice([3, None, [1, 2], 'ab', 2.5])


OBJKINDS = ['namedtuple', 'dataclass', 'typeddict'] + (['attrs'] if attr else [])


# ----------------------------------------------------------------------
# random types
# ----------------------------------------------------------------------
def leaf(c, hashable=False, dumphash=False):
    r = c.r
    w = r.random()
    if w < .5:
        return Basic(c, r.choice([int, int, str, str, bool, float] + ([bytes] if c.o.bytes else [])))
    if w < .55:
        return NoneTD(c)
    if w < .6:
        return AnyTD(c, deep=not (hashable or dumphash))
    if w < .68:
        return Lit(c)
    if w < .76:
        for _ in range(10):
            e = En(c)
            if e.dumphash or not dumphash:
                return e
        return Basic(c, str)
    if w < .84:
        return StrCon(c)
    if w < .91:
        t = DateTD(c)
        return t if t.dumphash or not dumphash else Basic(c, int)
    if w < .95:
        return DeltaTD(c)
    return Pat(c)


def rand_type(c, d=3, hashable=False, dumphash=False, union=True, kinds=None, objopts=(), mangle=True):
    """a random type"""
    r = c.r

    def sub(**kw):
        a = dict(hashable=hashable, dumphash=dumphash, union=union, objopts=objopts, mangle=mangle)
        a.update(kw)
        return rand_type(c, d - 1, **a)
    if d <= 0 or r.random() < .2 and kinds is None:
        return leaf(c, hashable, dumphash)
    for _ in range(50):
        k = r.choice(kinds or ['list', 'list', 'set', 'frozenset', 'vtuple', 'tuple', 'tuple', 'dict', 'dict', 'union', 'union', 'newtype', 'object', 'object', 'object', 'leaf', 'rec'])
        if k == 'leaf':
            return leaf(c, hashable, dumphash)
        if k == 'newtype':
            return NewT(c, sub())
        if dumphash and k not in ('union',):
            continue
        if k in ('list', 'set', 'dict', 'rec') and hashable:
            continue
        if k in ('list', 'vtuple'):
            return Seqs(c, k, sub())
        if k in ('set', 'frozenset'):
            return Seqs(c, k, sub(hashable=True))
        if k == 'tuple':
            return Tup(c, [sub() for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4]))])
        if k == 'dict':
            return Dct(c, sub(hashable=True, dumphash=True), sub())
        if k == 'union' and union:
            u = rand_union(c, sub)
            if u is None:
                continue
            return u
        if k == 'object':
            kind = r.choice(OBJKINDS)
            if hashable:
                if kind in ('typeddict', 'attrs'):
                    continue
                o = Obj(c, kind, lambda q: sub(), opts=objopts, mangle=mangle)
                if not o.hashable:
                    continue
                return o
            return Obj(c, kind, lambda q: sub(), opts=objopts, mangle=mangle)
        if k == 'rec':
            return rec_object(c, sub)
    return leaf(c, hashable, dumphash)


def rand_union(c, sub, n=None):
    r = c.r
    for _ in range(20):
        subs = []
        seen = set()
        for _ in range(n or r.choice([2, 2, 2, 3, 3, 4])):
            s = NoneTD(c) if r.random() < .25 else sub()
            while isinstance(s, NewT) and isinstance(s.sub, Un):
                s = s.sub
            if isinstance(s, (Un, AnyTD)):
                continue
            if s.src in seen:
                continue
            seen.add(s.src)
            subs.append(s)
        if len(subs) < 2:
            continue
        u = Un(c, subs)
        try:
            if len(u.py.__args__) != len(subs):
                continue
        except TypeError:
            continue
        return u
    return None


def tagged_union(c, sub, kinds=None, opts=(), key=None):
    """objects told apart by a literal"""
    r = c.r
    key = key or r.choice(['kind', 'type', 'tag'])
    tags = r.sample(['a', 'b', 'c', 1, 2, 'é', '', 0, None], r.randrange(2, 5))
    subs = []
    i = 0
    while tags:
        n = 1 if len(tags) < 2 or r.random() < .8 else 2
        mine, tags = tags[:n], tags[n:]
        subs.append(Obj(c, r.choice(kinds or OBJKINDS), lambda q: sub(), nf=r.choice([0, 1, 2]), tag=(key, mine), mangle=False, opts=('nodefault',) + tuple(opts)))
    if len(subs) < 2:
        return tagged_union(c, sub, kinds, opts, key)
    u = Un(c, subs)
    u.tagkey = key
    return u


def rec_object(c, sub, kind=None):
    """an object that refers to itself by name"""
    r = c.r
    kind = kind or r.choice(OBJKINDS)
    name = c.fresh('R')
    fwds = []

    def mk(q):
        f = Fwd(name)
        fwds.append(f)
        w = r.randrange(6)
        if w == 0:
            return Seqs(c, 'list', f)
        if w == 1:
            return OptFwd(c, f)
        if w == 2:
            return Seqs(c, 'vtuple', f)
        if w == 3:
            return Dct(c, Basic(c, str), f)
        if w == 4:
            return Seqs(c, 'list', OptFwd(c, f))
        return sub()
    o = Obj(c, kind, mk, nf=r.choice([1, 2, 3]), name=name)
    for f in fwds:
        f.target = o
    return o


class OptFwd(TD):
    kind = 'union'

    def __init__(self, c, f):
        self.subs = (f, NoneTD(c))
        self.src = 'Optional[%s]' % f.src
        self.hashable = self.dumphash = False
        self.c = c
        self._py = None

    py = Seqs.py

    def conf(self, x):
        return x is None or self.subs[0].conf(x)

    def gen(self, c, d=3):
        return None if d <= 0 or c.r.random() < .4 else self.subs[0].gen(c, d - 1)

    def data(self, c, x):
        return None if x is None else self.subs[0].data(c, x)

    def bad(self, c):
        return c.r.choice([3, 2.5, [1, 2]])


# ----------------------------------------------------------------------
# strange values
# ----------------------------------------------------------------------
class OnlyLen:
    def __len__(self):
        return 2

    def __repr__(self):
        return 'OnlyLen()'


class LenLies:
    """has a length, but is no iterable"""
    def __len__(self):
        return 3
    __iter__ = None

    def __repr__(self):
        return 'LenLies()'


class Reiter:
    """an iterable that is no sequence"""
    def __init__(self, l):
        self.l = l

    def __iter__(self):
        return iter(self.l)

    def __repr__(self):
        return 'Reiter(%r)' % (self.l,)


class Mapish(collections.abc.Mapping):
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __repr__(self):
        return 'Mapish(%r)' % (self.d,)


class Unhash:
    __hash__ = None

    def __repr__(self):
        return 'Unhash()'


class SubInt(int):
    pass


class SubStr(str):
    pass


class SubList(list):
    pass


class SubDict(dict):
    pass


class AttrMap:
    """has keys() and items() but it is no Mapping"""
    def __init__(self, d):
        self.d = d

    def keys(self):
        return self.d.keys()

    def items(self):
        return self.d.items()

    def values(self):
        return self.d.values()

    def get(self, k, d=None):
        return self.d.get(k, d)

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)

    def __repr__(self):
        return 'AttrMap(%r)' % (self.d,)


def junk(c, d=2):
    r = c.r
    w = r.random()
    if w < .4:
        return plain(c, d)
    e = plain(c, d - 1)
    return r.choice([
        lambda: (e,), lambda: [[[[1]]]], lambda: b'abc', lambda: b'', lambda: bytearray(b'a'), lambda: 1j, lambda: float('nan'), lambda: float('inf'),
        lambda: 10**400, lambda: -10**30, lambda: range(3), lambda: frozenset([1, 2]), lambda: {1, 2}, lambda: object(), lambda: object, lambda: int,
        lambda: OnlyLen(), lambda: LenLies(), lambda: Reiter([1, 2, e]), lambda: Mapish({'a': e}), lambda: Unhash(), lambda: SubInt(3), lambda: SubStr('a'),
        lambda: SubList([e]), lambda: SubDict(a=e), lambda: argparse.Namespace(a=e, name=3), lambda: types.MappingProxyType({'a': e}),
        lambda: collections.OrderedDict(a=e), lambda: collections.deque([1, e]), lambda: collections.defaultdict(list, a=e), lambda: {1: 2, None: 3},
        lambda: {(): e}, lambda: iter([1, e]), lambda: (x for x in [1, 2]), lambda: datetime.date(2020, 1, 2), lambda: datetime.datetime(2020, 1, 2, 3),
        lambda: pathlib.PurePosixPath('a'), lambda: re.compile('a'), lambda: uuid.UUID(int=3), lambda: '\ud800', lambda: 'x' * 500, lambda: '(' * 500,
        lambda: [e] * 20, lambda: {'kind': [1]}, lambda: {'kind': {}}, lambda: {'type': Unhash()}, lambda: {'kind': 'a', 'a': 1}, lambda: [None], lambda: {'a': None},
        lambda: lambda: 3, lambda: Ellipsis, lambda: NotImplemented, lambda: type('X', (), {}), lambda: typing.List[int], lambda: enum.Enum,
        lambda: [2020, 1, 1], lambda: [10**20], lambda: '1' * 5000, lambda: 1e400, lambda: -0.0, lambda: memoryview(b'ab'), lambda: {'a': 1}.items(), lambda: {'a': 1}.keys(),
        lambda: ValueError('x'), lambda: AttrMap({'a': e}), lambda: zip([1], [2]),
    ])()


def instance(c):
    """an instance of a class of the case, often with a wrong field"""
    r = c.r
    o = r.choice(list(c.classes.values()))
    try:
        x = o.gen(c, 1)
        if isinstance(o, Obj) and o.fields and r.random() < .7:
            f = r.choice(o.fields)
            b = r.choice([junk(c, 1), 'not an int', 3, None, [1]])
            if o.kind == 'namedtuple':
                x = x._replace(**{f.name: b})
            elif o.kind == 'typeddict':
                x[f.name] = b
            else:
                object.__setattr__(x, f.name, b)
        return x
    except Exception:
        return junk(c)


def mutate(c, x, d=3):
    """break some part of plain data"""
    r = c.r
    if c.classes and r.random() < .08:
        return instance(c)
    if r.random() < .25 or not isinstance(x, (list, dict)) or not x:
        w = r.random()
        if w < .5:
            return junk(c)
        if isinstance(x, dict):
            y = dict(x)
            y[r.choice(['a', 'b', 'x', 'extra', 'name', 'kind', 3, None])] = junk(c, 1)
            return y
        if isinstance(x, list):
            return r.choice([x + [junk(c, 1)], tuple(x), x[:-1], {'a': x}, collections.deque(x)])
        return r.choice([str(x) if not isinstance(x, str) else [x], [x], None, {'a': x}, (x, x), junk(c)])
    if isinstance(x, list):
        y = list(x)
        i = r.randrange(len(y))
        if r.random() < .15:
            del y[i]
        else:
            y[i] = mutate(c, y[i], d - 1)
        return y
    y = dict(x)
    k = r.choice(list(y))
    w = r.random()
    if w < .2:
        del y[k]
    elif w < .3:
        v = y.pop(k)
        y[r.choice(['zz', 'a', 'name', 5, SubStr('q')])] = v
    else:
        y[k] = mutate(c, y[k], d - 1)
    return y


# ----------------------------------------------------------------------
def run_load(l, v, t):
    """('ok', result) | ('te', TypedloadException) | ('bad', other exception)"""
    try:
        return 'ok', l.load(v, t)
    except TypedloadException as e:
        return 'te', e
    except RecursionError as e:
        return 'deep', e
    except Exception as e:
        return 'bad', e


def run_dump(d, x):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return 'ok', d.dump(x)
        except TypedloadException as e:
            return 'te', e
        except RecursionError as e:
            return 'deep', e
        except Exception as e:
            return 'bad', e


def srepr(x, n=300):
    try:
        s = repr(x)
    except Exception as e:
        s = '<%s>' % type(x)
    return s if len(s) <= n else s[:n] + '...'
