"""
Contracts of typechecks.py, and of which handler a type is routed to (C18 C14 C04).

The typing module has no public interface for these checks: what its objects look like is
assumed here, one record per kind of type expression, and compared with samples of that kind
by the running Python on every run (conform()).
"""
import collections
import enum
import ipaddress
import pathlib
import re
import types
import uuid
from typing import Any, Dict, ForwardRef, FrozenSet, List, Literal, NamedTuple, NewType, NotRequired, Optional, Set, Tuple, TypedDict, Union, _TypedDictMeta
from .base import *
from .load_kinds import is_dict

NT = type(None)
PREDS = ['is_any', 'is_pattern', 'is_attrs', 'is_dataclass', 'is_dict', 'is_enum', 'is_forwardref', 'is_frozenset', 'is_list', 'is_literal', 'is_namedtuple', 'is_nonetype', 'is_set',
         'is_tuple', 'is_union', 'is_typeddict', 'is_newtype', 'is_optional', 'is_notrequired']
FLAGS = ['__dataclass_fields__', '__attrs_attrs__', '_fields', '__annotations__', '__args__', '__extra__']
SPECIAL = [list, dict, set, frozenset, tuple, List, Dict, Set, FrozenSet, Tuple, Union, Literal, NotRequired, re.Pattern]
OTHER = object()
FREE = None


class Kind:
    """
    origin: __origin__ (None: there is none; OTHER: something that is not in SPECIAL)
    cls:    its class: an object, or OTHER (not UnionType, ForwardRef, NewType, TypedDict's metaclass)
    isclass, enum, tuple: isinstance(t, type), issubclass(t, Enum), issubclass(t, tuple); FREE: either
    flags:  the attributes of FLAGS that exist, those in free may or may not
    obj:    the type itself, when there is one only
    """

    def __init__(self, name, preds, samples, origin=None, cls=OTHER, isclass=False, enum=False, tuple=False, flags=(), free=(), obj=OTHER, sets=()):
        self.name, self.preds, self.samples = name, set(preds.split()), samples
        self.origin, self.cls, self.isclass, self.enum, self.tuple = origin, cls, isclass, enum, tuple
        self.flags, self.free, self.obj, self.sets = set(flags), set(free), obj, set(sets)


def sample_classes():
    import dataclasses
    ns = {}
    exec('''
import enum, dataclasses, collections
from typing import *
class E0(enum.Enum):
    A = 1
class E1(enum.IntEnum):
    A = 1
class E2(enum.Flag):
    A = 1
class E3(str, enum.Enum):
    A = "a"
class E4(enum.Enum):
    x: int
    A = 1
class N0(NamedTuple):
    pass
class N1(NamedTuple):
    a: int
class N2(N1):
    def m(self): return 1
@dataclasses.dataclass
class D0: pass
@dataclasses.dataclass
class D1:
    a: int = 1
class D2(D1): pass
class T0(TypedDict): pass
class T1(TypedDict, total=False):
    a: int
class T2(T1):
    b: int
class P0: pass
class P1:
    a: int
class P2(list): pass
class P3(tuple): pass
''', ns)
    try:
        import attr
        ns['attr'] = attr
        exec('''
@attr.s
class A0:
    a = attr.ib(type=int)
@attr.s(auto_attribs=True)
class A1:
    a: int = 1
@attr.define
class A2: pass
''', ns)
    except ImportError:
        pass
    return ns


_S = sample_classes()


def some(*names):
    return [_S[n] for n in names if n in _S]


def generic(name, pred, origin, ts):
    return Kind(name, pred, ts, origin=origin, free=('__args__', '__annotations__'))


KINDS = [
    generic('List', 'is_list', list, [List, List[int], list[int], List[Any], list[Union[int, str]], List['Foo']]),
    generic('Dict', 'is_dict', dict, [Dict, Dict[str, int], dict[str, Any], Dict['Foo', 'Bar']]),
    generic('Set', 'is_set', set, [Set, Set[int], set[str]]),
    generic('FrozenSet', 'is_frozenset', frozenset, [FrozenSet, FrozenSet[int], frozenset[Any]]),
    generic('Tuple', 'is_tuple', tuple, [Tuple, Tuple[int], Tuple[int, ...], tuple[int, str], Tuple[()], tuple[()]]),
    Kind('Union', 'is_union', [Union[int, str], Optional[int], Optional[List[int]], Union[int, str, None], Union[List[int], Dict[str, int]], Optional['Foo']], origin=Union, flags=('__args__',)),
    Kind('A | B', 'is_union', [int | str, int | None, None | int, int | str | None, list[int] | None, _S['D1'] | _S['N1']], cls=types.UnionType, flags=('__args__',)),
    Kind('Literal', 'is_literal', [Literal[1], Literal['a', None], Literal[1, True, b'']], origin=Literal, flags=('__args__',)),
    Kind('NotRequired', 'is_notrequired', [NotRequired[int], NotRequired[List[int]], NotRequired['Foo']], origin=NotRequired, flags=('__args__',)),
    Kind('Pattern[]', 'is_pattern', [re.Pattern[str], typing.Pattern, typing.Pattern[bytes], typing.Pattern[str]], origin=re.Pattern, free=('__args__', '__annotations__')),
    Kind('Pattern', 'is_pattern', [re.Pattern], obj=re.Pattern),
    Kind('NoneType', 'is_nonetype', [NT], obj=NT),
    Kind('Any', 'is_any', [Any], obj=Any),
    Kind('ForwardRef', 'is_forwardref', [ForwardRef('Foo'), ForwardRef('List[int]')], cls=ForwardRef),
    Kind('NewType', 'is_newtype', [NewType('X', int), NewType('Y', List[int]), NewType('Z', NewType('X', int))], cls=NewType),
    Kind('Enum', 'is_enum', [enum.Enum, enum.IntEnum, enum.StrEnum, enum.IntFlag] + some('E0', 'E1', 'E2', 'E3', 'E4'), isclass=True, enum=True, tuple=FREE, free=('__annotations__',)),
    Kind('NamedTuple', 'is_namedtuple', some('N0', 'N1', 'N2'), isclass=True, tuple=True, flags=('_fields', '__annotations__')),
    Kind('dataclass', 'is_dataclass', some('D0', 'D1', 'D2'), isclass=True, tuple=FREE, flags=('__dataclass_fields__',), free=('__annotations__',)),
    Kind('attrs', 'is_attrs', some('A0', 'A1', 'A2'), isclass=True, tuple=FREE, flags=('__attrs_attrs__',), free=('__annotations__',)),
    Kind('TypedDict', 'is_typeddict', some('T0', 'T1', 'T2'), cls=_TypedDictMeta, isclass=True, flags=('__annotations__',)),
    Kind('other class', '', [int, str, float, bool, bytes, object, type, complex, list, dict, set, frozenset, collections.OrderedDict, range, Exception] + some('P0', 'P1', 'P2'), isclass=True, free=('__annotations__', '__args__')),
    Kind('subclass of tuple', '', [tuple] + some('P3'), isclass=True, tuple=True, free=('__annotations__',)),
    Kind('other generic', '', [typing.Type[int], typing.Sequence[int], typing.Callable[[int], str], typing.Deque[int], typing.DefaultDict[str, int], typing.ClassVar[int], typing.Final[int], typing.Required[int],
                               type[int], collections.deque[int], typing.Annotated[int, 3]], origin=OTHER, free=('__args__', '__annotations__')),
    Kind('no type', '', [3, None, 'int', [], {}, (), 2.5, Ellipsis, typing.TypeVar('TV'), typing.Final, object(), len, _S['E0'].A, [int]], free=('__args__', '_fields', '__annotations__')),
]
UNITYPES = [k for k in KINDS if k.obj is not OTHER]


def conform(k):
    """the first assumption that a sample does not satisfy, or None"""
    for t in k.samples:
        o = getattr(t, '__origin__', None)
        if k.origin is None and hasattr(t, '__origin__'):
            return t, '__origin__'
        if k.origin is OTHER:
            if any(o is s for s in SPECIAL):
                return t, '__origin__'
        elif o is not k.origin:
            return t, '__origin__'
        c = type(t)
        if getattr(t, '__class__', None) is not c and k.origin is None:
            return t, '__class__'
        if k.cls is OTHER:
            if c in (types.UnionType, ForwardRef, NewType) or isinstance(t, _TypedDictMeta) or getattr(t, '__class__', None) in (types.UnionType, ForwardRef, NewType):
                return t, 'class'
        elif c is not k.cls:
            return t, 'class'
        if k.obj is not OTHER:
            if t is not k.obj:
                return t, 'identity'
            continue
        if any(t == u.obj for u in UNITYPES):
            return t, 'equality'
        if isinstance(t, type) != k.isclass:
            return t, 'isclass'
        for base, want in ((enum.Enum, k.enum), (tuple, k.tuple)):
            if k.isclass and want is not FREE and issubclass(t, base) != want:
                return t, base.__name__
        for a in FLAGS:
            if a not in k.free and hasattr(t, a) != (a in k.flags):
                return t, a
    return None


def is_of_kind(E, k):
    """a type expression of the kind"""
    bad = conform(k)
    if bad:
        raise Unsupported('%s is not as assumed of a %s (%s)' % (bad[0], k.name, bad[1]))
    E.note('typing: what type expressions look like (contracts/checks.py, compared with samples by every run)')
    if k.obj is not OTHER:
        return PyC(k.obj)
    T = z3.Const('T', V)
    ne = lambda a, o: z3.And(a != E.const(o), key(a) != key(E.const(o)))
    E.assume(has('__origin__', T) == (k.origin is not None))
    o = attr('__origin__', T)
    if k.origin is OTHER:
        E.assume(z3.And([hashable(o)] + [ne(o, s) for s in SPECIAL]))
    elif k.origin is not None:
        E.assume(o == E.const(k.origin))
    c = attr('__class__', T)
    E.assume(has('__class__', T))
    E.assume(typeof(T) == c)
    if k.cls is OTHER:
        E.assume(z3.And([ne(c, s) for s in (types.UnionType, ForwardRef, NewType, _TypedDictMeta)]))
    else:
        E.assume(c == E.const(k.cls))
    E.assume(isinst(T, E.const(_TypedDictMeta)) == (k.cls is _TypedDictMeta))
    for u in UNITYPES:
        E.assume(ne(T, u.obj))
    E.assume(isinst(T, E.const(type)) == k.isclass)
    for base, want in ((enum.Enum, k.enum), (tuple, k.tuple)):
        if want is not FREE:
            E.assume(fn('issub', V, V, B)(T, E.const(base)) == want)
    for a in FLAGS:
        if a not in k.free:
            E.assume(has(a, T) == (a in k.flags))
    return SV(T)


def params(E, T):
    """the parameters of a type expression: a tuple"""
    a = attr('__args__', T.t)
    E.seq_attrs.add('__args__')
    return a


def v_pred(name):
    f = getattr(typechecks, name)

    def th(E):
        k = KINDS[E.choose(len(KINDS))]
        T = is_of_kind(E, k)
        want = name in k.preds
        if name == 'is_optional' and 'is_union' in k.preds:
            n = it_n(params(E, T))
            E.assume(n >= 1)
            a = params(E, T)
            E.declare_seq(a)
            isnone = lambda i: key(it_el(a, i)) == key(E.const(NT))
            for i in (0, 1):
                E.assume(hashable(it_el(a, z3.IntVal(i))))
            want = z3.And(n == 2, z3.Or(isnone(z3.IntVal(0)), isnone(z3.IntVal(1))))
        kind, r = run_function(E, E.wrap(f), [T])
        E.oblige('%s never raises' % name, kind == 'normal', ('C18',), detail=k.name)
        E.oblige('%s returns a bool' % name, E.class_of(r) is bool or E.isinstance_f(r, PyC(bool)), ('C18',), detail=k.name)
        b = E.truth_f(r)
        E.oblige('%s is true exactly for the types it documents' % name, tob(b) == tob(want), ('C18', 'C14') if name not in ('is_optional', 'is_notrequired') else ('C18',), detail=k.name)
        return 'normal'
    return th


def v_uniontypes(E):
    ks = [k for k in KINDS if 'is_union' in k.preds]
    k = ks[E.choose(len(ks))]
    T = is_of_kind(E, k)
    a = params(E, T)
    E.declare_seq(a)
    kind, r = run_function(E, E.wrap(typechecks.uniontypes), [T])
    E.oblige('uniontypes does not raise for a union', kind == 'normal', ('C18',))
    same_elements(E, 'uniontypes', r, a)
    return 'normal'


def same_elements(E, what, r, a):
    """r has exactly the elements of the tuple a, in their order"""
    if isinstance(r, SV) and r.t.eq(a):
        E.oblige(what + ': the parameters of the type', True, ('C18', 'C04'))
        return
    E.oblige(what + ': a sequence', isinstance(r, TupV) or isinstance(r, Ref) and E.obj(r).kind == 'list', ('C18',))
    segs = r.segs if isinstance(r, TupV) else E.obj(r).d['segs']
    n = E.segs_len(segs)
    E.oblige(what + ': as many as the type has parameters', tob(it_n(a) == n), ('C18', 'C04'))
    i = E.skolem('i', 0, it_n(a))
    E.oblige(what + ': the parameters of the type', E.term(E.force(E.segs_get(segs, i))) == it_el(a, i), ('C18', 'C04'))


def v_notrequiredtype(E):
    T = is_of_kind(E, [k for k in KINDS if 'is_notrequired' in k.preds][0])
    a = params(E, T)
    E.declare_seq(a)
    E.assume(it_n(a) == 1)
    kind, r = run_function(E, E.wrap(typechecks.notrequiredtype), [T])
    E.oblige('notrequiredtype does not raise for NotRequired[...]', kind == 'normal', ('C18', 'C05'))
    E.oblige('notrequiredtype: the wrapped type', E.term(r) == it_el(a, z3.IntVal(0)), ('C18', 'C05'))
    return 'normal'


def v_literalvalues(E):
    k = KINDS[E.choose(len(KINDS))]
    T = is_of_kind(E, k)
    if 'is_literal' in k.preds:
        a = params(E, T)
        E.declare_seq(a)
        i = z3.Int('qi')
        E.assume(z3.ForAll([i], hashable(it_el(a, i)), patterns=[it_el(a, i)]))
    E.note('str() of a type expression does not fail')
    E.printable_containers = True
    if isinstance(T, SV):
        E.assume(can_print(T.t))
    kind, r = run_function(E, E.wrap(typechecks.literalvalues), [T])
    if 'is_literal' not in k.preds:
        E.oblige('literalvalues: refuses what is no Literal', kind == 'raise', ('C18',))
        oblige_exc(E, r, 'literalvalues', ValueError, ('C18',))
        return 'raise'
    E.oblige('literalvalues does not raise for a Literal', kind == 'normal', ('C18', 'C17'))
    E.oblige('literalvalues: a set', isinstance(r, Ref) and E.obj(r).kind == 'set', ('C18',))
    kk = E.fresh('k', K)
    E.oblige('literalvalues: exactly the values of the Literal', tob(E.layers_has(E.obj(r).d['layers'], kk)) == E.inseq_f(a, kk), ('C18', 'C17', 'C04'))
    return 'normal'


def v_discriminators(E):
    """{field: set of the values of its Literal}, {} for what has no annotations"""
    E.contracts[('typedload.typechecks', 'is_literal')] = lambda E, a, k: E.bval(fn('isliteral', V, B)(E.term(E.force(a[0]))))
    lv = fn('litvals', V, V)
    E.contracts[('typedload.typechecks', 'literalvalues')] = contract_literalvalues
    T = z3.Const('T', V)
    an = attr('__annotations__', T)
    E.assume(z3.Implies(has('__annotations__', T), isinst(an, E.const(dict))))
    is_dict(E, an)
    E.note('__annotations__ of a type is a dictionary')
    kind, r = run_function(E, E.wrap(typechecks.discriminatorliterals), [SV(T)])
    T_ = ('C18', 'C04')
    E.oblige('discriminatorliterals never raises', kind == 'normal', T_)
    E.oblige('discriminatorliterals: a new dictionary', isinstance(r, Ref) and E.obj(r).kind == 'dict' and E.obj(r).owned, T_)
    layers = E.obj(r).d['layers']
    kk = E.fresh('k', K)
    h = tob(E.layers_has(layers, kk))
    f = mget(an, kk)
    mention(E, f)
    E.inst_all(midx(an, kk))
    E.inst_foralls(midx(an, kk))
    lit = fn('isliteral', V, B)(f)
    E.oblige('discriminatorliterals: the fields whose annotation is a Literal', h == z3.And(has('__annotations__', T), mhas(an, kk), lit), T_)
    if E.choose(2) == 0:
        E.assume(h)
        x = E.force(E.layers_get(layers, kk))
        E.oblige('discriminatorliterals: the values of the Literal of the field', isinstance(x, SV) and x.t == lv(f), T_)
        raise PathDead()
    return 'normal'


def contract_literalvalues(E, a, k):
    t = E.term(E.force(a[0]))
    E.oblige('literalvalues is called on a Literal', fn('isliteral', V, B)(t), ('C18', 'C04', 'C02'))
    return SV(fn('litvals', V, V)(t))


def by_identity(x, ys):
    return next((i for i, y in enumerate(ys) if x is y), None)


# kind of type -> a type whose handler is verified to do what a kind like that needs (contracts load_*)
SAMPLE = {'List': List[int], 'Dict': Dict[str, int], 'Set': Set[int], 'FrozenSet': FrozenSet[int], 'Tuple': Tuple[int, str], 'Union': Union[int, List[int]], 'A | B': Union[int, List[int]], 'Literal': Literal[1, 2],
          'Pattern[]': re.Pattern, 'Pattern': re.Pattern, 'NoneType': NT, 'Any': Any, 'ForwardRef': ForwardRef('Foo'), 'NewType': NewType('X', int), 'Enum': _S['E0'], 'NamedTuple': _S['N1'], 'dataclass': _S['D1'],
          'attrs': _S.get('A1'), 'TypedDict': _S['T1']}
CONCRETE = [('date', datetime.date), ('time', datetime.time), ('datetime', datetime.datetime), ('timedelta', datetime.timedelta)]


def v_routing(E):
    """the first condition of the real handler list that is true is that of the kind"""
    l = make_loader(E)
    hs = handlers_of(E, l)
    real = dataloader.Loader()
    strc = fn('isstrconstructed', K, B)
    sc = E.new_set((('pred', lambda kk: strc(kk)),))
    E.put(l, strconstructed=sc)
    dates = [d for _, d in CONCRETE]
    for d in dates + [u.obj for u in UNITYPES if u.obj is not NT]:
        E.assume(z3.Not(basic(key(E.const(d)))))
    for d in dates + [u.obj for u in UNITYPES]:
        E.assume(z3.Not(strc(key(E.const(d)))))
    E.assume(basic(key(E.const(NT))))
    E.note('basictypes and strconstructed are disjoint sets of classes that are of no other kind; None is a basic type')
    what = [k for k in KINDS if k.name in SAMPLE and SAMPLE[k.name] is not None] + CONCRETE + ['basic', 'strconstructed', 'unsupported']
    k = what[E.choose(len(what))]
    b = s = False
    if isinstance(k, Kind):
        T = is_of_kind(E, k)
        sample = SAMPLE[k.name]
    elif isinstance(k, tuple):
        T = PyC(k[1])
        sample = k[1]
    else:
        kk = [q for q in KINDS if q.name in ('other class', 'subclass of tuple', 'other generic', 'NotRequired')]
        if k != 'unsupported':
            kk = kk[:2]
        T = is_of_kind(E, kk[E.choose(len(kk))])
        sample = int if k == 'basic' else pathlib.Path
        b, s = k == 'basic', k == 'strconstructed'
    if isinstance(T, SV):
        E.assume(z3.And([hashable(T.t), basic(key(T.t)) == b, strc(key(T.t)) == s] + [key(T.t) != key(E.const(d)) for d in dates]))
    name = k.name if isinstance(k, Kind) else k[0] if isinstance(k, tuple) else k
    first = None
    rest = []
    for i, (c, h) in enumerate(hs):
        kind, r = run_function(E, c, [T])
        E.oblige('no condition raises on a %s type' % name, kind == 'normal', ('C18', 'C14', 'C02'))
        if E.branch(E.truth_f(r)):
            if first is None:
                first = i
            else:
                rest.append(i)
    if k == 'unsupported':
        E.oblige('a type that is not supported has no handler', first is None, ('C18', 'C14'))
        return 'none'
    want = real.index(sample)
    E.oblige('a %s type has a handler' % name, first is not None, ('C18', 'C14', 'C01'))
    E.oblige('a %s type is routed to the handler of its kind' % name, first == want, ('C18', 'C14', 'C01'), detail='first match %s, expected %s' % (first, want))
    if k == 'basic' or name == 'NoneType':
        return 'normal'
    E.oblige('a %s type matches the condition of its kind only' % name, not rest, ('C18',), detail='%r' % rest)
    return 'normal'


ALL = [(p, v_pred(p), ('normal',)) for p in PREDS] + [
    ('uniontypes', v_uniontypes, ('normal',)),
    ('notrequiredtype', v_notrequiredtype, ('normal',)),
    ('literalvalues', v_literalvalues, ('normal', 'raise')),
    ('discriminatorliterals', v_discriminators, ('normal',)),
    ('routing of types', v_routing, ('normal', 'none')),
]

if __name__ == '__main__':
    main(ALL)
