"""Which handler of the dumper a value is routed to (C14 C09)."""
import pathlib
from .dump_core import *
from .dump_core import _E
from .load_kinds import is_dict
from .checks import _S

# kind of value -> a value whose handler is verified to do what a value like that needs (contracts dump_*)
SAMPLES = {'basic': 1, 'namedtuple': _S['N1'](1), 'dataclass': _S['D1'](), 'list': [1], 'enum': _E.a, 'dict': {}, 'attrs': _S['A1']() if 'A1' in _S else None, 'date': datetime.date(2000, 1, 1),
           'timedelta': datetime.timedelta(1), 'pattern': re.compile('a') if False else None, 'strconstructed': pathlib.Path('a')}
import re
SAMPLES['pattern'] = re.compile('a')


MARKS = ('__dataclass_fields__', '__attrs_attrs__')


def marks(E, v):
    E.note('what makes a class a dataclass or an attrs class is found in its instances too, and in no metaclass')
    T = typeof(v)
    for m in MARKS:
        E.assume(z3.Implies(z3.Not(E.isinst_term(v, type)), has(m, v) == has(m, T)))
        E.assume(z3.Implies(E.isinst_term(v, type), z3.Not(has(m, T))))
        E.attr_facts[m] = lambda E, t, a: None


def v_sameclass(E):
    """the conditions of the dumper give the same answer for every value of a class: the cache of the handlers is by class"""
    make_dumper(E)
    hs = dhandlers_of(E)
    c, h = hs[E.choose(len(hs))]
    v, w = z3.Const('value', V), z3.Const('other', V)
    x = z3.Const('qx', V)
    E.assume(typeof(v) == typeof(w))
    E.assume(hashable(typeof(v)))
    E.note('isinstance() depends only on the class of the value')
    for C in (tuple, list, set, frozenset, Enum, dict, datetime.date, datetime.time, datetime.timedelta, datetime.datetime, re.Pattern, type):
        E.assume(E.isinst_term(v, C) == E.isinst_term(w, C))
    E.note('instances of tuple classes have no _fields and no _asdict of their own')
    for m in ('_fields', '_asdict'):
        E.assume(has(m, v) == has(m, w))
    marks(E, v)
    marks(E, w)
    k1, r1 = run_function(E, c, [SV(v)])
    k2, r2 = run_function(E, c, [SV(w)])
    E.oblige('dump conditions: none raises', k1 == k2 == 'normal', ('C13', 'C14'))
    E.oblige('dump conditions: the same for all the values of a class', E.truth_f(r1) == E.truth_f(r2), ('C13', 'C14', 'C09'))
    return 'normal'


def v_routing(E):
    d = make_dumper(E)
    hs = dhandlers_of(E)
    strc = fn('isstrconstructed', K, B)
    # the set that the lambda of the handler refers to is the attribute of the dumper
    E.put(d, strconstructed=E.new_set((('pred', lambda kk: strc(kk)),)))
    v = z3.Const('value', V)
    E.assume(hashable(typeof(v)))
    kinds = [k for k, s in SAMPLES.items() if s is not None] + ['unsupported', 'class']
    k = kinds[E.choose(len(kinds))]
    I = lambda c: E.isinst_term(v, c)
    seqs = z3.Or(I(list), I(tuple), I(set), I(frozenset))
    facts = {
        'basic': dbasic(key(typeof(v))), 'namedtuple': z3.And(has('_fields', v), has('_asdict', v), I(tuple)), 'dataclass': has('__dataclass_fields__', v), 'list': seqs,
        'enum': I(Enum), 'dict': I(dict), 'attrs': has('__attrs_attrs__', v), 'date': z3.Or(I(datetime.date), I(datetime.time)), 'timedelta': I(datetime.timedelta), 'pattern': I(re.Pattern),
        'strconstructed': strc(key(typeof(v)))}
    E.note('a value is of one of the kinds that can be dumped, or of none')
    marks(E, v)
    if k == 'class':
        # a class, of any kind, is no value that can be dumped
        E.assume(I(type))
        E.assume(z3.And(*[z3.Not(f) for name, f in facts.items() if name not in ('dataclass', 'attrs')]))
        k = 'unsupported'
        facts = {}
    else:
        E.assume(z3.Not(I(type)))
    for name, f in facts.items():
        if name == k:
            E.assume(f)
        elif not (name == 'list' and k == 'namedtuple'):
            E.assume(z3.Not(f))
    first = None
    for i, (c, h) in enumerate(hs):
        kind, r = run_function(E, c, [SV(v)])
        E.oblige('no condition of the dumper raises', kind == 'normal', ('C14', 'C09'))
        if E.branch(E.truth_f(r)):
            first = i
            break
    if k == 'unsupported':
        E.oblige('a value of no kind has no dump handler', first is None, ('C14', 'C09'))
        return 'none'
    E.oblige('a %s value has a dump handler' % k, first is not None, ('C14', 'C09'))
    E.oblige('a %s value is routed to the dump handler of its kind' % k, first == datadumper.Dumper().index(SAMPLES[k]), ('C14', 'C09'), detail='handler %s' % first)
    return 'normal'


ALL = [('routing of values', v_routing, ('normal', 'none')),
       ('conditions of the dumper', v_sameclass, ('normal',))]

if __name__ == '__main__':
    main(ALL)
