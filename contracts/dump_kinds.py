"""Contracts of the dump handlers of objects and of dates, durations, patterns and strings (C07 C09 C11 C12 C13 C20)."""
import datetime
import pathlib
import re
from .dump_core import *

try:
    import attr as _attr
except ImportError:
    _attr = None

fattr = fn('field_value', V, K, V)
T_OBJ = ('C09', 'C10', 'C11')


def dyn_getattr(E, a):
    v, n = E.force(a[0]), E.force(a[1])
    if not isinstance(v, SV):
        raise Unsupported('getattr with a computed name')
    E.note('instances have all the fields of their class')
    return SV(fattr(v.t, E.keyof(n)))


def field_setup(E, sample):
    d, v, t, c, h = dstd(E, sample)
    Verifier.dyn_getattr = dyn_getattr
    return d, v, t, c, h


def check_dict_dump(E, what, kind, r, F, name, shown, val, ann, inst, inv):
    """
    r is a new dictionary: for the fields k (F(k)) that are shown, name(k) -> dump(val(k), ann(k)), nothing else
    inv(kk): the field whose name in the dump is kk
    """
    if kind == 'raise':
        of = component_error(E, what, r)
        return 'raise'
    r = E.force(r)
    if not (isinstance(r, Ref) and E.obj(r).kind == 'dict'):
        E.oblige(what + ': is a dict', False, ('C09', 'C12'))
    o = E.obj(r)
    layers = o.d['layers']
    E.oblige(what + ': a new dictionary', o.owned and o.term is None, ('C09', 'C12'))
    ch = E.choose(3)
    kk = E.fresh('k', K)
    if ch == 0:
        E.assume(z3.And(F(kk), shown(kk)))
        inst(kk)
        E.oblige(what + ': every field to be shown is in the dump, under its name', tob(E.layers_has(layers, key(name(kk)))), T_OBJ + ('C07',))
        return 'normal'
    E.assume(tob(E.layers_has(layers, kk)))
    p = E.fresh('p', K)
    E.assume(p == inv(kk))
    inst(p)
    x = E.force(E.layers_get(layers, kk))
    if ch == 1:
        E.oblige(what + ': only fields to be shown are in the dump, under their name', z3.And(F(p), shown(p), key(name(p)) == kk), T_OBJ + ('C07',))
        plain_part(E, what, x)
        return 'normal'
    xt = E.term(x)
    E.oblige(what + ': a field is dumped as its value', z3.Or(*[z3.And(dok(val(p), a), xt == dres(val(p), a)) for a in ann(p)]), ('C09', 'C10', 'C14'))
    return 'normal'


class _NT(typing.NamedTuple):
    a: int


@dataclasses.dataclass
class _DC:
    a: int


if _attr:
    @_attr.s
    class _AT:
        a = _attr.ib()


HIDE = z3.Bool('dopt_hidedefault')


def v_namedtuple(E):
    d, v, t, c, h = field_setup(E, _NT(1))
    M = fn('asdict', V, V)(v)
    E.sv_methods['_asdict'] = lambda E, t: PB.BI('_asdict', lambda E, a, k: E.new_dict((('map', fn('asdict', V, V)(t)),)))
    is_dict(E, M)
    D = attr('_field_defaults', v)
    hasd = has('_field_defaults', v)
    is_dict(E, D)
    run_cond(E, c, v)
    k = z3.Const('qk', K)
    E.assume(z3.ForAll([k], z3.Implies(mhas(M, k), isinst(mkey(M, midx(M, k)), E.const(str))), patterns=[mhas(M, k)]))
    # the other ways to see the fields: _fields, the elements, the attributes
    FS = attr('_fields', v)
    i = z3.Int('qi')
    E.note('namedtuple: _fields, the elements, the attributes and _asdict() agree')
    E.declare_seq(FS)
    E.declare_seq(v)
    E.assume(z3.And(it_n(FS) == mn(M), it_n(v) == mn(M)))
    inr = z3.And(i >= 0, i < mn(M))
    one = z3.Implies(inr, z3.And(it_el(FS, i) == mkey(M, i), it_el(v, i) == mget(M, key(mkey(M, i)))))
    E.assume(z3.ForAll([i], one, patterns=[it_el(FS, i)]))
    E.assume(z3.ForAll([i], one, patterns=[it_el(v, i)]))
    E.assume(z3.ForAll([k], z3.Implies(mhas(M, k), fattr(v, k) == mget(M, k)), patterns=[fattr(v, k)]))
    kind, r = run_function(E, h, [d, SV(v), SV(t)])
    val = lambda k: mget(M, k)

    def inst(k):
        E.inst_all(midx(M, k))
        mention(E, val(k))
    return check_dict_dump(E, 'dump of a namedtuple', kind, r, lambda k: mhas(M, k), lambda k: mkey(M, midx(M, k)),
                           lambda k: z3.Not(z3.And(HIDE, hasd, mhas(D, k), key(mget(D, k)) == key(val(k)))), val,
                           lambda k: [E.const(ANY)], inst, lambda kk: kk)


def v_dataclass(E):
    d, v, t, c, h = field_setup(E, _DC(1))
    T = typeof(v)
    E.assume(z3.And(has('__dataclass_fields__', v), has('__dataclass_fields__', T), attr('__dataclass_fields__', v) == attr('__dataclass_fields__', T)))
    DF = attr('__dataclass_fields__', v)
    is_dict(E, DF)
    E.attr_facts['metadata'] = lambda E, t, a: is_dict(E, a)
    MK = key(z3.Const('opt_mangle_key', V))
    MISSING = E.const(dataclasses.MISSING)
    FIELD = E.const(dataclasses._FIELD)
    MT = E.const(dataclasses._MISSING_TYPE)
    k, i, x = z3.Const('qk', K), z3.Int('qi'), z3.Const('qx', V)
    fo = lambda k: mget(DF, k)
    isF = lambda k: z3.And(mhas(DF, k), attr('_field_type', fo(k)) == FIELD)
    dv, df = (lambda k: attr('default', fo(k))), (lambda k: attr('default_factory', fo(k)))
    made = lambda k: fn('made', V, V)(df(k))
    hasdef = lambda k: z3.Or(dv(k) != MISSING, df(k) != MISSING)
    dflt = lambda k: z3.If(dv(k) != MISSING, dv(k), made(k))
    H = lambda k: attr('type', fo(k))
    meta = lambda k: attr('metadata', fo(k))
    nameof = lambda k: attr('name', fo(k))
    name = lambda k: z3.If(mhas(meta(k), MK), mget(meta(k), MK), nameof(k))
    inv = fn('field_of_dumpname', K, K)
    E.note('dataclass: a field has not both a default and a default_factory; MISSING is the only instance of its class')
    E.note('the names in the dump of the fields of a class are distinct and hashable')
    E.assume(z3.ForAll([x], isinst(x, MT) == (x == MISSING), patterns=[isinst(x, MT)]))
    E.assume(z3.ForAll([k], z3.And(*[has(a, fo(k)) for a in ('_field_type', 'default', 'default_factory', 'type', 'metadata', 'name')],
                                   z3.Or(dv(k) == MISSING, df(k) == MISSING), hashable(name(k)), hashable(mget(meta(k), MK)), hashable(nameof(k)),
                                   z3.Implies(key(dv(k)) == key(MISSING), dv(k) == MISSING), z3.Implies(key(df(k)) == key(MISSING), df(k) == MISSING),
                                   z3.Implies(mhas(DF, k), key(nameof(k)) == k),
                                   z3.Implies(isF(k), inv(key(name(k))) == k)), patterns=[fo(k)]))

    def fields(E, args, kwargs):
        E.oblige('dataclass fields: of the value', z3.Or(E.term(E.force(args[0])) == v, E.term(E.force(args[0])) == T), T_OBJ)
        FS = z3.Const('fields_seq', V)
        E.declare_seq(FS)
        fi = fn('fieldidx', K, I)
        E.note('dataclasses.fields() are the entries of __dataclass_fields__ other than class variables and init-only variables')
        el = it_el(FS, i)
        kn = key(attr('name', el))
        E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < it_n(FS)), z3.And(has('name', el), isF(kn), fo(kn) == el, fi(kn) == i, hashable(attr('name', el)), has('type', el), has('default', el))), patterns=[el]))
        E.assume(z3.ForAll([k], z3.Implies(isF(k), z3.And(fi(k) >= 0, fi(k) < it_n(FS), it_el(FS, fi(k)) == fo(k))), patterns=[mhas(DF, k)]))
        E.st.ghost['#fieldidx'] = fi
        return TupV([Seq(it_n(FS), lambda E, i: SV(it_el(FS, i)))])
    E.table[dataclasses.fields] = fields

    def call_factory(E, t, args, kwargs):
        if z3.is_app(t) and (t.decl().name() == 'attr_default_factory' or t.decl().name() == 'mget' and str(t.arg(0)) == 'cached_factories') and not args and not kwargs:
            E.oblige('dataclass default: a missing factory is not called', t != MISSING, T_OBJ)
            return SV(fn('made', V, V)(t))
        return SENTINEL
    E.sv_calls.append(call_factory)

    def inst(kk):
        mention(E, fo(kk))
        is_dict(E, meta(kk))
        fi = E.st.ghost.get('#fieldidx')
        for q in [midx(DF, kk)] + ([fi(kk)] if fi is not None else []):
            E.inst_all(q)
        for _, g in E.st.ghost.get('#enumidx', ()):
            mention(E, g(kk))
            E.inst_all(g(kk))

    def freeze(E, x):
        if isinstance(x, Ref):
            o = E.obj(x)
            E.st.heap[x.a] = Obj(o.kind, {**o.d, '#name': 'what the dumper knows of a class'}, o.term, False)

    def known():
        fs = E.new_set((('pred', lambda kk: isF(kk)),))
        Dm, Fm, Hm = z3.Const('cached_defaults', V), z3.Const('cached_factories', V), z3.Const('cached_hints', V)
        for m in (Dm, Fm, Hm):
            E.declare_map(m)
        E.assume(z3.ForAll([k], z3.Implies(isF(k), z3.And(mhas(Dm, k) == (dv(k) != MISSING), z3.Implies(mhas(Dm, k), key(mget(Dm, k)) == key(dv(k))))), patterns=[mhas(DF, k)]))
        E.assume(z3.ForAll([k], z3.Implies(isF(k), z3.And(mhas(Fm, k) == (df(k) != MISSING), z3.Implies(mhas(Fm, k), mget(Fm, k) == df(k)))), patterns=[mhas(DF, k)]))
        # (the entries of what is not a field are factories too)
        E.assume(z3.ForAll([k], z3.Implies(mhas(Fm, k), z3.And(mhas(DF, k), mget(Fm, k) == df(k), df(k) != MISSING)), patterns=[mget(Fm, k)]))
        E.assume(z3.ForAll([k], z3.Implies(isF(k), z3.And(mhas(Hm, k), mget(Hm, k) == H(k))), patterns=[mhas(DF, k)]))
        r = [fs, E.new_dict((('map', Dm),)), E.new_dict((('map', Fm),)), E.new_dict((('map', Hm),))]
        for q in r:
            freeze(E, q)
        return TupV.of(*r)

    def cache_look(E, c, kv, b):
        E.oblige('dump field cache: looked up by the type', E.keyof(kv) == key(T), ('C13',))

    def cache_val(E, c, kv, stored):
        return known()

    def cache_set(E, c, kk, val):
        E.oblige('dump field cache: stored by the type', E.hkey(kk) == key(T), ('C13',))
        val = E.force(val)
        items = val.concrete() if isinstance(val, TupV) else None
        need(items is not None and len(items) == 4, 'layout of the dump field cache')
        items = [E.force(q) for q in items]
        for q in items:
            freeze(E, q)
        ch = E.choose(6)
        if ch == 0:
            return
        mf, md, mfa, mh = [E.mem_fn(q)[0] for q in items]
        p = E.fresh('p', K)
        inst(p)
        if ch == 1:
            E.oblige('dump field cache: the fields of the class', tob(mf(p)) == isF(p), T_OBJ + ('C13',))
            raise PathDead()
        if ch == 2:
            E.assume(tob(mfa(p)))
            E.oblige('dump field cache: the factories are those of the class', z3.And(mhas(DF, p), df(p) != MISSING, E.term(E.force(E.dict_get(items[2], p))) == df(p)), T_OBJ + ('C13',))
            raise PathDead()
        E.assume(isF(p))
        if ch == 3:
            E.oblige('dump field cache: the fields having a default', tob(md(p)) == (dv(p) != MISSING), T_OBJ + ('C13',))
            E.assume(tob(md(p)))
            E.oblige('dump field cache: the default of a field', key(E.term(E.force(E.dict_get(items[1], p)))) == key(dv(p)), T_OBJ + ('C13',))
        elif ch == 4:
            E.oblige('dump field cache: the fields having a factory', tob(mfa(p)) == (df(p) != MISSING), T_OBJ + ('C13',))
        else:
            E.oblige('dump field cache: a field has its annotation', tob(mh(p)), ('C13', 'C09'))
            E.oblige('dump field cache: the annotation of a field', E.term(E.force(E.dict_get(items[3], p))) == H(p), ('C13', 'C09'))
        raise PathDead()
    E.put(d, _dataclasscache=cache_obj(E, '_dataclasscache', cache_look, cache_val, cache_set))
    run_cond(E, c, v)
    kind, r = run_function(E, h, [d, SV(v), SV(t)])
    val = lambda k: fattr(v, k)
    return check_dict_dump(E, 'dump of a dataclass', kind, r, isF, name,
                           lambda k: z3.Not(z3.And(HIDE, hasdef(k), key(dflt(k)) == key(val(k)))), val,
                           lambda k: [H(k), E.const(ANY)], inst, inv)


def v_attrs(E):
    d, v, t, c, h = field_setup(E, _AT(1))
    AA = attr('__attrs_attrs__', v)
    T = typeof(v)
    E.assume(z3.And(has('__attrs_attrs__', v), has('__attrs_attrs__', T), AA == attr('__attrs_attrs__', T)))
    run_cond(E, c, v)
    E.declare_seq(AA)
    E.attr_facts['metadata'] = lambda E, t, a: is_dict(E, a)
    MK = key(z3.Const('opt_mangle_key', V))
    i = z3.Int('qi')
    el = lambda j: it_el(AA, j)
    aidx = fn('attr_idx', K, I)
    didx = fn('attr_of_dumpname', K, I)
    dv = lambda j: attr('default', el(j))
    fac = lambda j: attr('factory', dv(j))
    meta = lambda j: attr('metadata', el(j))
    jname = lambda j: z3.If(mhas(meta(j), MK), mget(meta(j), MK), attr('name', el(j)))
    made = lambda j: z3.If(truthy(attr('takes_self', dv(j))), fn('afactory1', V, V, V)(fac(j), v), fn('afactory', V, V)(fac(j)))
    E.note('attrs: default factories give equal values every time; no value equals NOTHING; a default having a factory is a Factory')
    E.note('the names in the dump of the fields of a class are distinct and hashable')
    E.assume(z3.ForAll([i], z3.And(*[has(a, el(i)) for a in ('default', 'metadata', 'name', 'repr')],
                                   z3.Implies(has('factory', dv(i)), has('takes_self', dv(i))),
                                   hashable(attr('name', el(i))), hashable(mget(meta(i), MK)),
                                   z3.Implies(z3.And(i >= 0, i < it_n(AA)), z3.And(aidx(key(attr('name', el(i)))) == i, didx(key(jname(i))) == i))), patterns=[el(i)]))

    def call_factory(E, t, args, kwargs):
        if z3.is_app(t) and t.decl().name() == 'attr_factory' and not kwargs:
            o = t.arg(0)
            ts = truthy(attr('takes_self', o))
            if len(args) == 0:
                E.oblige('attrs default: a factory that takes the instance is given it', z3.Not(ts), T_OBJ)
                return SV(fn('afactory', V, V)(t))
            E.oblige('attrs default: only a factory that takes the instance is given it', z3.And(len(args) == 1, ts, E.term(E.force(args[0])) == v), T_OBJ)
            return SV(fn('afactory1', V, V, V)(t, v))
        return SENTINEL
    E.sv_calls.append(call_factory)
    kind, r = run_function(E, h, [d, SV(v), SV(t)])
    val = lambda k: fattr(v, k)
    vj = lambda j: val(key(attr('name', el(j))))
    J = aidx
    F = lambda k: z3.And(J(k) >= 0, J(k) < it_n(AA), key(attr('name', el(J(k)))) == k)
    eqd = lambda j: z3.Or(key(vj(j)) == key(dv(j)), z3.And(has('factory', dv(j)), key(vj(j)) == key(made(j))))

    def inst(k):
        mention(E, el(J(k)))
        is_dict(E, meta(J(k)))
        E.inst_all(J(k))
    return check_dict_dump(E, 'dump of attrs', kind, r, F, lambda k: jname(J(k)),
                           lambda k: z3.And(truthy(attr('repr', el(J(k)))), z3.Not(z3.And(HIDE, eqd(J(k))))), val,
                           lambda k: [E.const(ANY)], inst, lambda kk: key(attr('name', el(didx(kk)))))


def v_date(E):
    d, v, t, c, h = dstd(E, datetime.date(2000, 1, 1))
    run_cond(E, c, v)
    x = z3.Const('qx', V)
    cls = lambda c_: E.isinst_term(v, c_)
    isdt, isd, ist = cls(datetime.datetime), cls(datetime.date), cls(datetime.time)
    E.assume(z3.Implies(isdt, isd))
    E.assume(z3.Not(z3.And(isd, ist)))
    for a in ('year', 'month', 'day'):
        E.assume(has(a, v) == isd)
    for a in ('hour', 'minute', 'second', 'microsecond', 'tzinfo'):
        E.assume(has(a, v) == z3.Or(isdt, ist))
    E.assume(has('isoformat', v))
    iso = fn('isoformat', V, V)(v)
    assume_str(E, iso)
    comp = {}
    for a in ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'):
        q = attr(a, v)
        E.assume(typeof(q) == E.const(int))
        comp[a] = q

    def isom(E, t):
        def call(E, a, k):
            if a or k:
                E.oblige('dump of a date: isoformat() keeps everything', False, ('C20', 'C10'))
            return SV(fn('isoformat', V, V)(t))
        return PB.BI('isoformat', call)
    E.sv_methods['isoformat'] = isom
    kind, r = run_function(E, h, [d, SV(v), SV(t)])
    ISO = z3.Bool('dopt_isodates')
    tz = attr('tzinfo', v)
    T = ('C20', 'C10', 'C09')
    if kind == 'raise':
        E.oblige('dump of a date: only refused if it has a time zone that would be dropped', z3.And(z3.Not(ISO), z3.Or(isdt, ist), tz != E.const(None)), T)
        return 'raise'
    plain_result(E, 'dump of a date', r)
    r = E.force(r)
    if not isinstance(r, Ref):
        E.oblige('dump of a date: text with isodates', z3.And(ISO, E.is_f(r, SV(iso))), T)
        return 'normal-iso'
    E.oblige('dump of a date: list of components without isodates', z3.Not(ISO), T)
    E.oblige('dump of a date: the time zone is not dropped', z3.Implies(z3.Or(isdt, ist), tz == E.const(None)), T)
    segs = E.obj(r).d['segs']
    vals = E.concrete_segs(segs)
    need(vals is not None, 'list of components')
    vals = [E.term(E.force(q)) for q in vals]

    def same(names):
        return z3.And(*([z3.BoolVal(len(names) == len(vals))] + [a == comp[b] for a, b in zip(vals, names)]))
    D, T4 = ['year', 'month', 'day'], ['hour', 'minute', 'second', 'microsecond']
    E.oblige('dump of a date: the components that rebuild it', z3.And(z3.Implies(isdt, same(D + T4)), z3.Implies(z3.And(isd, z3.Not(isdt)), same(D)), z3.Implies(ist, same(T4))), T)
    return 'normal-list'


def v_timedelta(E):
    d, v, t, c, h = dstd(E, datetime.timedelta(1))
    run_cond(E, c, v)
    E.assume(has('total_seconds', v))
    ts = fn('total_seconds', V, V)
    E.sv_methods['total_seconds'] = lambda E, t: PB.BI('total_seconds', lambda E, a, k: SV(ts(t)))
    E.assume(typeof(ts(v)) == E.const(float))
    kind, r = run_function(E, h, [d, SV(v), SV(t)])
    E.oblige('dump of a timedelta: never fails', kind == 'normal', ('C20', 'C09'))
    E.oblige('dump of a timedelta: its total seconds', E.is_f(r, SV(ts(v))), ('C20', 'C10', 'C09'))
    plain_result(E, 'dump of a timedelta', r)
    return 'normal'


def v_pattern(E):
    d, v, t, c, h = dstd(E, re.compile('a'))
    run_cond(E, c, v)
    E.assume(has('pattern', v))
    p = attr('pattern', v)
    kind, r = run_function(E, h, [d, SV(v), SV(t)])
    E.oblige('dump of a pattern: never fails', kind == 'normal', ('C20', 'C09'))
    E.oblige('dump of a pattern: the original pattern', E.is_f(r, SV(p)), ('C20', 'C10', 'C09'))
    return 'normal'


def v_str(E):
    d, v, t, c, h = dstd(E, pathlib.PurePosixPath('a') if False else pathlib.Path('a'))
    run_cond(E, c, v)
    E.note('str() of a strconstructed value does not fail')
    E.assume(can_print(v))
    kind, r = run_function(E, h, [d, SV(v), SV(t)])
    E.oblige('dump of a strconstructed value: never fails', kind == 'normal', ('C20', 'C09'))
    s = E.force(E.py_str(SV(v)))
    E.oblige('dump of a strconstructed value: its str()', E.is_f(r, s), ('C20', 'C10', 'C09'))
    plain_result(E, 'dump of a strconstructed value', r)
    return 'normal'


ALL = [
    ('dump namedtuple', v_namedtuple, ('normal', 'raise')),
    ('dump dataclass', v_dataclass, ('normal', 'raise')),
    ('dump date', v_date, ('normal-iso', 'normal-list', 'raise')),
    ('dump timedelta', v_timedelta, ('normal',)),
    ('dump pattern', v_pattern, ('normal',)),
    ('dump strconstructed', v_str, ('normal',)),
]
if _attr:
    ALL.append(('dump attrs', v_attrs, ('normal', 'raise')))

if __name__ == '__main__':
    main(ALL)
