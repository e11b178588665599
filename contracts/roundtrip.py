"""
C10: the round trip load(dump(x), T) == x, as lemmas over the contracts of the dump handlers and of the load handlers.

Each lemma takes as hypotheses what the named obligations (USES) prove of the real functions, and the induction hypothesis
for the parts of x (which is finite): a part p that conforms to t is dumped, the dump loads as t, and gives a value equal to p.
check.py requires that every obligation in USES is generated and discharged in the same run, and reports those that fail.
Equality of values is equality of keys: key(a) == key(b) iff a == b.
"""
from .base import *
from .dump_core import dok, dres

con = fn('conforms', V, V, B)                   # p conforms to t, and t is supported and unambiguous
A, T_ = z3.Const('anyannotation', V), z3.Const('T', V)
C10 = ('C10',)
i, j = z3.Int('qi'), z3.Int('qj')
x, t, a = z3.Const('qx', V), z3.Const('qt', V), z3.Const('qa', V)
k = z3.Const('qk', K)


def hypothesis(E):
    """the induction hypothesis, for the parts"""
    d = dres(x, a)
    E.assume(z3.ForAll([x, a, t], z3.Implies(con(x, t), z3.And(dok(x, a), supported(key(t)), ok(d, t), key(res(d, t)) == key(x))), patterns=[z3.MultiPattern(con(x, t), d)]))
    # a part whose type is basic is a value of exactly that type: it is dumped as it is
    E.assume(z3.ForAll([x, a, t], z3.Implies(z3.And(con(x, t), basic(key(t))), z3.And(d == x, typeof(x) == t)), patterns=[z3.MultiPattern(con(x, t), d)]))
    E.note('round trip: values of basic types are of exactly that type; types are unambiguous; dumps of parts of sets and of keys are hashable and distinct')


def accepted(y, d, t):
    """what loading d as an element does (contract of the containers)"""
    return z3.Or(z3.And(ok(d, t), y == res(d, t)), z3.And(basic(key(t)), isinst(d, t), y == d))


class Value:
    """x, its dump d and the loaded value y"""

    def __init__(self, E, what):
        self.E = E
        self.what = what

    def oblige(self, name, f):
        self.E.oblige('round trip of a %s: %s' % (self.what, name), f, C10)


def sequence(what, fixed):
    def run(E):
        hypothesis(E)
        L = Value(E, what)
        n, m = z3.Int('n'), z3.Int('m')
        el, de, ye = fn('x_el', I, V), fn('d_el', I, V), fn('y_el', I, V)
        ty = (lambda q: fn('type_el', I, V)(q)) if fixed else (lambda q: T_)
        E.assume(z3.And(n >= 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), con(el(i), ty(i))), patterns=[el(i)])))
        # the dump: as many elements, in order, each its dump (or itself, if plain)
        nd = z3.Int('nd')
        E.assume(nd == n)
        an = fn('annotation_el', I, V)
        E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Or(z3.And(dok(el(i), an(i)), de(i) == dres(el(i), an(i))),
                 z3.And(de(i) == el(i), de(i) == dres(el(i), an(i))))), patterns=[de(i)]))
        if fixed:
            E.assume(m == n)
        c = E.choose(3)
        if c == 0:
            # it is a list: only an element (the load of element j as its type) can make the load fail
            J = z3.Int('J')
            E.assume(z3.And(J >= 0, J < nd))
            mention(E, el(J), de(J))
            L.oblige('the load does not fail', z3.And(supported(key(ty(J))), ok(de(J), ty(J))))
            return 'normal'
        ny = z3.Int('ny')
        E.assume(ny == (m if fixed else nd))
        E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < ny), accepted(ye(i), de(i), ty(i))), patterns=[ye(i)]))
        if c == 1:
            L.oblige('as many elements', ny == n)
            return 'normal'
        J = z3.Int('J')
        E.assume(z3.And(J >= 0, J < ny))
        mention(E, el(J), de(J), ye(J), dres(el(J), an(J)))
        L.oblige('each element is equal, in order', key(ye(J)) == key(el(J)))
        return 'normal'
    return run


def rt_set(E):
    hypothesis(E)
    L = Value(E, 'set')
    n = z3.Int('n')
    el, de, mem = fn('x_el', I, V), fn('d_el', I, V), fn('y_mem', K, B)
    w = fn('witness', K, I)
    an = fn('annotation_el', I, V)
    E.assume(z3.And(n >= 0, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), con(el(i), T_)), patterns=[el(i)])))
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), de(i) == dres(el(i), an(i))), patterns=[de(i)]))
    # the result has exactly the loaded elements
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.Or(z3.And(ok(de(i), T_), mem(key(res(de(i), T_)))), z3.And(basic(key(T_)), isinst(de(i), T_), mem(key(de(i)))))), patterns=[de(i)]))
    E.assume(z3.ForAll([k], z3.Implies(mem(k), z3.And(w(k) >= 0, w(k) < n, z3.Or(z3.And(ok(de(w(k)), T_), k == key(res(de(w(k)), T_))),
             z3.And(basic(key(T_)), isinst(de(w(k)), T_), k == key(de(w(k))))))), patterns=[mem(k)]))
    if E.choose(2) == 0:
        J = z3.Int('J')
        E.assume(z3.And(J >= 0, J < n))
        mention(E, el(J), de(J), dres(el(J), an(J)))
        L.oblige('every element is in it', mem(key(el(J))))
        return 'normal'
    q = z3.Const('q', K)
    E.assume(mem(q))
    W = w(q)
    mention(E, el(W), de(W), dres(el(W), an(W)))
    L.oblige('nothing else is in it', z3.And(W >= 0, W < n, key(el(W)) == q))
    return 'normal'


def rt_dict(E):
    hypothesis(E)
    L = Value(E, 'dict')
    n = z3.Int('n')
    KT, VT = z3.Const('KT', V), z3.Const('VT', V)
    xk, xv = fn('x_key', I, V), fn('x_val', I, V)            # the entries of x
    dk = lambda q: dres(xk(q), A)
    nd, dkey, dval = z3.Int('nd'), fn('d_key', I, V), fn('d_val', I, V)       # the entries of the dump, in any order
    src, dst = fn('entry_of', I, I), fn('dumped_at', I, I)
    yhas, yget, w = fn('y_has', K, B), fn('y_get', K, V), fn('witness', K, I)
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(con(xk(i), KT), con(xv(i), VT))), patterns=[xk(i)]))
    # keys of x are distinct
    at = fn('x_at', K, I)
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), at(key(xk(i))) == i), patterns=[xk(i)]))
    # the dump: every key is there; every entry is the dump of an entry
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(dst(i) >= 0, dst(i) < nd, key(dkey(dst(i))) == key(dk(i)), src(dst(i)) == i)), patterns=[xk(i)]))
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nd), z3.And(src(i) >= 0, src(i) < n, dkey(i) == dk(src(i)), dval(i) == dres(xv(src(i)), A))), patterns=[dkey(i)]))
    loaded = lambda q, kk: z3.Or(z3.And(ok(dkey(q), KT), kk == key(res(dkey(q), KT))), z3.And(basic(key(KT)), isinst(dkey(q), KT), kk == key(dkey(q))))
    # the load
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nd), z3.Or(z3.And(ok(dkey(i), KT), yhas(key(res(dkey(i), KT)))), z3.And(basic(key(KT)), isinst(dkey(i), KT), yhas(key(dkey(i)))))), patterns=[dkey(i)]))
    E.assume(z3.ForAll([k], z3.Implies(yhas(k), z3.And(w(k) >= 0, w(k) < nd, loaded(w(k), k), accepted(yget(k), dval(w(k)), VT))), patterns=[yhas(k)]))
    c = E.choose(3)
    if c == 0:
        J = z3.Int('J')
        E.assume(z3.And(J >= 0, J < nd))
        mention(E, dkey(J), xk(src(J)), dk(src(J)), dres(xv(src(J)), A))
        E.note('round trip of dicts: the type of the keys loads into hashable values only')
        E.assume(z3.ForAll([x], z3.Implies(ok(x, KT), hashable(res(x, KT))), patterns=[res(x, KT)]))
        L.oblige('the load does not fail', z3.And(supported(key(KT)), supported(key(VT)), ok(dkey(J), KT), ok(dval(J), VT), hashable(res(dkey(J), KT))))
        return 'normal'
    if c == 1:
        J = z3.Int('J')
        E.assume(z3.And(J >= 0, J < n))
        q = dst(J)
        mention(E, xk(J), dk(J), dkey(q), dk(src(q)))
        L.oblige('every key is in it', yhas(key(xk(J))))
        return 'normal'
    q = z3.Const('q', K)
    E.assume(yhas(q))
    W = src(w(q))
    mention(E, dkey(w(q)), xk(W), dk(W), dres(xv(W), A))
    L.oblige('nothing else is in it, and each key has an equal value', z3.And(W >= 0, W < n, key(xk(W)) == q, key(yget(q)) == key(xv(W))))
    return 'normal'


def rt_object(E):
    """NamedTuple, dataclass, attrs: every init field is a field (or both are hidden and equal to the default)"""
    hypothesis(E)
    L = Value(E, 'object')
    F, N, H = fn('field', K, B), fn('necessary', K, B), fn('field_type', K, V)
    val, name = fn('value_of', K, V), fn('data_name', K, K)
    hasd, dflt = fn('has_default', K, B), fn('default_of', K, V)
    hide, fe = z3.Bool('hide'), z3.Bool('fe')
    inv = fn('field_named', K, K)
    dh, dg = fn('d_has', K, B), fn('d_get', K, V)
    an = fn('annotation_of', K, V)
    hP, gP = fn('passed', K, B), fn('passed_value', K, V)
    # fields of the class (all of them in the constructor and shown), names are distinct
    E.assume(z3.ForAll([k], z3.Implies(F(k), z3.And(con(val(k), H(k)), inv(name(k)) == k, N(k) == z3.Not(hasd(k)))), patterns=[F(k)]))
    E.assume(z3.ForAll([k], z3.Implies(N(k), F(k)), patterns=[N(k)]))
    E.note('round trip of objects: every field is a parameter of the constructor and is dumped; the constructor stores what it is given, and the defaults; the data names are the same on both sides (lemma mangled objects; obligations on the names)')
    shown = lambda q: z3.Not(z3.And(hide, hasd(q), key(dflt(q)) == key(val(q))))
    # the dump
    E.assume(z3.ForAll([k], z3.Implies(z3.And(F(k), shown(k)), dh(name(k))), patterns=[F(k)]))
    E.assume(z3.ForAll([k], z3.Implies(dh(k), z3.And(F(inv(k)), shown(inv(k)), name(inv(k)) == k, dg(k) == dres(val(inv(k)), an(inv(k))))), patterns=[dh(k)]))
    # the load (lemma mangled objects, _objloader)
    E.assume(z3.ForAll([k], z3.Implies(F(k), hP(k) == dh(name(k))), patterns=[F(k)]))
    E.assume(z3.ForAll([k], z3.Implies(z3.And(F(k), hP(k)), accepted(gP(k), dg(name(k)), H(k))), patterns=[hP(k)]))
    p = z3.Const('p', K)
    mention(E, F(p), N(p), dh(name(p)), hP(p), dres(val(p), an(p)), dres(val(inv(p)), an(inv(p))))
    c = E.choose(4)
    if c == 0:
        E.assume(N(p))
        L.oblige('no necessary field is missing', dh(name(p)))
    elif c == 1:
        E.assume(dh(p))
        L.oblige('there are no extra fields', z3.And(F(inv(p)), name(inv(p)) == p))
    elif c == 2:
        E.assume(z3.And(F(p), dh(name(p))))
        L.oblige('no field fails', ok(dg(name(p)), H(p)))
    else:
        E.assume(F(p))
        L.oblige('every field is equal, or absent and equal to the default', z3.If(hP(p), key(gP(p)) == key(val(p)), z3.And(hasd(p), key(dflt(p)) == key(val(p)))))
    return 'normal'


def rt_enum(E):
    L = Value(E, 'enum')
    X, M = z3.Const('x', V), fn('member', V, V)
    v, d, y = z3.Const('v', V), z3.Const('d', V), z3.Const('y', V)
    E.note('round trip of enums: the values are basic; a member is the one found by its value')
    E.assume(z3.And(v == attr('value', X), d == dres(v, A), d == v, M(v) == X))
    E.assume(y == M(d))
    L.oblige('the same member', y == X)
    return 'normal'


def rt_union(E):
    """the alternative that accepts the dump"""
    hypothesis(E)
    L = Value(E, 'union')
    X, W = z3.Const('x', V), z3.Const('w', V)
    d = dres(X, A)
    isarg, y, alt = fn('is_alternative', V, B), z3.Const('y', V), z3.Const('alt', V)
    E.assume(z3.And(con(X, alt), isarg(alt)))
    mention(E, con(X, alt), d)
    E.note('round trip of unions: of the alternatives only that of the value accepts its dump (the union is not ambiguous)')
    E.assume(z3.ForAll([t], z3.Implies(z3.And(isarg(t), ok(d, t)), t == alt), patterns=[isarg(t)]))
    if E.choose(2) == 0:
        # fails only if every alternative fails
        L.oblige('the load does not fail', z3.And(isarg(alt), ok(d, alt)))
        return 'normal'
    exact = z3.And(basic(key(typeof(d))), isarg(typeof(d)))
    # a value of exactly a basic type is accepted by it and returned as it is (contract of basic)
    E.assume(z3.Implies(exact, z3.And(ok(d, typeof(d)), res(d, typeof(d)) == d)))
    E.assume(z3.Or(z3.And(exact, y == d), z3.And(isarg(W), ok(d, W), y == res(d, W))))
    mention(E, isarg(typeof(d)), isarg(W))
    L.oblige('an equal value', key(y) == key(X))
    return 'normal'


def rt_simple(E):
    """basic values, None, literals, NewType"""
    X, d, y = z3.Const('x', V), z3.Const('d', V), z3.Const('y', V)
    c = E.choose(3)
    if c == 0:
        same = typeof(X) == T_
        E.assume(z3.And(same, d == X, z3.Implies(typeof(d) == T_, y == d)))
        Value(E, 'basic value').oblige('the same value', y == X)
    elif c == 1:
        isin = fn('listed', K, B)
        E.assume(z3.And(isin(key(X)), d == X, z3.Implies(isin(key(d)), y == d)))
        Value(E, 'literal').oblige('the same value', y == X)
    else:
        hypothesis(E)
        S = attr('__supertype__', T_)
        E.assume(z3.And(con(X, S), d == dres(X, A), y == res(d, S)))
        Value(E, 'newtype').oblige('an equal value', z3.And(ok(d, S), key(y) == key(X)))
    return 'normal'


def rt_text(E):
    """dates, durations, patterns, paths, addresses: the constructor inverts the dump"""
    X, y, d = z3.Const('x', V), z3.Const('y', V), z3.Const('d', V)
    to, back = fn('text', V, V), fn('built', V, V)
    E.note('round trip: fromisoformat inverts isoformat(); the constructors of dates and times invert their components; timedelta(0, seconds) inverts total_seconds(); '
           're.compile inverts .pattern; the constructors of strconstructed types invert str() (assumed of the standard library, sampled by the search)')
    E.assume(z3.And(key(back(to(X))) == key(X), d == to(X), y == back(d)))
    Value(E, 'date, duration, pattern or strconstructed value').oblige('an equal value', key(y) == key(X))
    return 'normal'


DL_ = [('dump list', 'dump of a list: as many elements'), ('dump list', 'dump of a list: the elements are dumped in order'), ('dump list', 'dump of a list: only fails if dumping a part fails')]


def it(u, w, more=()):
    return [(u, w + ': ' + q) for q in ('element j is what loading element j gives', 'fails only if an element fails',
            'fails only if the value is not a suitable container or some element fails') + tuple(more)]


USES = {
    'round trip of lists': DL_ + it('load list', 'list') + it('load vtuple', 'tuple'),
    'round trip of tuples': DL_ + [('load tuple', 'tuple: ' + q) for q in ('exactly as many elements as the type has', 'element j is what loading element j as type j gives',
            'fails only if an element fails', 'fails only for a dict, a value without length, of the wrong length, or if an element fails')],
    'round trip of sets': DL_ + [(u, w + ': ' + q) for u, w in (('load set', 'set'), ('load frozenset', 'frozenset')) for q in
            ('the loaded element j is in the result', 'the result has only loaded elements', 'fails only if an element fails')],
    'round trip of dicts': [('dump dict', 'dump of a dict: ' + q) for q in ('every key is in the dump', 'an entry is the dump of an entry of the value', 'only fails if dumping a part fails')] +
            [('load dict', 'dict: ' + q) for q in ('the loaded key j is in the result', 'the result has only loaded keys', 'the value of a key is what loading the value gives',
             'fails only if a key or a value fails', 'fails only if the value is not a mapping, or an entry fails, or a loaded key is not hashable')],
    'round trip of objects': [(u, w + ': ' + q) for u, w in (('dump namedtuple', 'dump of a namedtuple'), ('dump dataclass', 'dump of a dataclass'), ('dump attrs', 'dump of attrs')) for q in
            ('every field to be shown is in the dump, under its name', 'only fields to be shown are in the dump, under their name', 'a field is dumped as its value')] +
            [('_objloader', 'object: ' + q) for q in ('the constructor receives only fields that are in the data', 'the constructor receives every field that is in the data', 'every field is loaded as its declared type',
             'fails only if a field fails', 'fails only if a necessary field is missing, there are extra fields, or a field fails')] +
            [('lemma mangled objects', 'mangled objects: ' + q) for q in ('a field is given to the constructor exactly if its data name is in the data', 'a field is loaded from its data name',
             'with failonextra every key of the data is the data name of a field')] +
            [(u, w + ': ' + q) for u, w in (('load dataclass', 'dataclass'), ('load attrs', 'attrs')) for q in ('the mangled name of a field is in the map', 'the mangled name leads to the field', 'the map has only mangled names of fields',
             'the fields are those of the class', 'the type of a field is the declared one')] +
            [('load namedtuple', 'namedtuple: ' + q) for q in ('the fields are those of the class', 'the type of a field is the declared one', 'the necessary fields are those having no default')],
    'round trip of enums': [('dump enum', 'dump of an enum: its value is dumped'), ('dump enum', 'dump of an enum: is the dump of its value'), ('dump basic', 'dump basic: the value itself'),
            ('load enum', 'enum: the member for the value, or for the value loaded as an annotated type'), ('load enum', 'enum: a value of a member is always accepted')],
    'round trip of unions': [(u, q) for u in ('load union, first use of the discriminators', 'load union, later uses of the discriminators') for q in
            ('union: the result is what loading the value as an alternative gives', 'union: fails only if every alternative fails')] + [('load basic', 'basic: a value of exactly that type is returned unchanged')],
    'round trip of simple values': [('dump basic', 'dump basic: the value itself'), ('load basic', 'basic: a value of exactly that type is returned unchanged'), ('load basic', 'basic: a value of exactly that type is never rejected'),
            ('load none', 'none: None is accepted'), ('load literal', 'literal: every listed value is accepted'), ('load literal', 'literal: the value itself is returned'),
            ('load newtype', 'newtype: loads as its supertype')],
    'round trip of dates and texts': [('dump date', 'dump of a date: the components that rebuild it'), ('dump date', 'dump of a date: text with isodates'), ('dump date', 'dump of a date: the time zone is not dropped'),
            ('dump timedelta', 'dump of a timedelta: its total seconds'), ('dump pattern', 'dump of a pattern: the original pattern'), ('dump strconstructed', 'dump of a strconstructed value: its str()'),
            ('load datetime', 'datetime: a string loads as fromisoformat does'), ('load datetime', 'datetime: a sequence loads as the constructor does'), ('load datetime', 'datetime: fails only if the conversion fails'),
            ('load timedelta', 'timedelta: zero days and that number of seconds'), ('load timedelta', 'timedelta: fails only if the constructor does'),
            ('load pattern', 'pattern: the compiled pattern'), ('load strconstructed', 'strconstructed: what the constructor makes of the value'), ('load strconstructed', 'strconstructed: fails only if the constructor does')],
}

ALL = [
    ('round trip of lists', sequence('list', False), ('normal',)),
    ('round trip of tuples', sequence('tuple', True), ('normal',)),
    ('round trip of sets', rt_set, ('normal',)),
    ('round trip of dicts', rt_dict, ('normal',)),
    ('round trip of objects', rt_object, ('normal',)),
    ('round trip of enums', rt_enum, ('normal',)),
    ('round trip of unions', rt_union, ('normal',)),
    ('round trip of simple values', rt_simple, ('normal',)),
    ('round trip of dates and texts', rt_text, ('normal',)),
]

if __name__ == '__main__':
    main(ALL)
