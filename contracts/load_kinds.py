"""Contracts of the loaders of the kinds of objects: NamedTuple, TypedDict, dataclass, attrs, and of name mangling (C05 C06 C07 C12 C13)."""
import inspect
import typing
from .base import *
from pyvc.loops import pattern_ok
from .load_containers import source_map

F_TAGS = ('C05', 'C01')


def need(c, why):
    if not c:
        raise Unsupported(why)


def bound(f, args, kwargs, names):
    """arguments by name of a call to f"""
    ps = list(inspect.signature(f).parameters)
    need(ps == names, 'the signature of %s changed' % f.__name__)
    d = dict(zip(ps, args))
    need(len(args) <= len(ps) and not (set(d) & set(kwargs)) and set(d) | set(kwargs) == set(ps), 'arguments of %s' % f.__name__)
    d.update(kwargs)
    return d


def outcome(E, name):
    """a call whose contract says nothing but: returns something or raises TypedloadException"""
    if E.branch(E.fresh(name + '_returns', B)):
        return SV(E.fresh(name))
    x = E.new_sym_exc(name + 'exc', TE, Exception)
    n = E.fresh('ntrace', I)
    E.assume(n >= 0)
    el = fn('ctrace_' + name, I, V)
    E.put(x, **{'#attrs': {'trace': lambda E, v: E.alloc('list', {'segs': (Seq(n, lambda E, i: SV(el(i)), tag=('ctrace',)),)})}})
    E.st.ghost['#exc_' + name] = x
    raise Raise(x)


def hint_get(E, h, kk):
    h = E.force(h)
    if isinstance(h, SV):
        E.declare_map(h.t)
        return SV(mget(h.t, kk))
    return E.force(E.dict_get(h, kk))


def contract_objloader(E, args, kwargs):
    """_objloader, for the functions that call it"""
    d = bound(dataloader._objloader, args, kwargs, ['l', 'fields', 'necessary_fields', 'type_hints', 'value', 'type_'])
    mf = E.mem_fn(d['fields'])[0]
    mneed = E.mem_fn(d['necessary_fields'])[0]
    mh = E.mem_fn(d['type_hints'])[0]
    need(mf and mneed and mh, 'fields of _objloader')
    st = E.st
    L = st.ghost['#loader']
    l = E.force(d['l'])
    E.oblige('_objloader is given the loader', isinstance(l, Ref) and l.a == L.a, F_TAGS)
    E.oblige('the object type is passed on', E.eq_f(d['type_'], SV(z3.Const('T', V))), F_TAGS)
    st.ghost['#objcall'] = (mf, mneed, mh, d['type_hints'], d['value'])
    r = outcome(E, 'object')
    st.ghost['#objres'] = r
    return r


def contract_mangle(E, args, kwargs):
    d = bound(dataloader._mangle_names, args, kwargs, ['namesmap', 'value', 'failonextra'])
    E.oblige('name mangling: failonextra is honoured', E.eq_f(E.force(d['failonextra']), SBool(z3.Bool('opt_failonextra'))), ('C06', 'C07'))
    E.st.ghost['#mangle'] = (d['namesmap'], E.force(d['value']), None)
    c = E.choose(4)
    if c == 0:
        r = SV(E.fresh('mangled'))
        E.st.ghost['#mangle'] = (d['namesmap'], E.force(d['value']), r)
        return r
    E.st.ghost['#mangle_failed'] = c
    E.raise_py((ValueError, AttributeError, TypeError)[c - 1], 'mangling')


def kind_setup(E, sample):
    E.contracts[('typedload.dataloader', '_objloader')] = contract_objloader
    E.contracts[('typedload.dataloader', '_mangle_names')] = contract_mangle
    need(hasattr(dataloader, '_objloader'), 'no _objloader')
    l, v, T = std(E)
    return l, v, T, handler_for(E, l, sample)


def check_fields(E, what, F, N, H, Nweak=False, maps=()):
    """the call of _objloader describes the type: F fields, N necessary ones, H(k) the type of field k"""
    oc = E.st.ghost.get('#objcall')
    need(oc, 'the object is not made by _objloader')
    mf, mneed, mh, hints, value = oc
    kk = E.fresh('k', K)
    c = E.choose(4)
    for m in maps:
        mention(E, mhas(m, kk))
        E.inst_all(midx(m, kk))
    if c == 0:
        E.oblige('%s: the fields are those of the class' % what, tob(mf(kk)) == tob(F(kk)), F_TAGS + ('C06',))
    elif c == 1:
        if Nweak:
            E.oblige('%s: a necessary field has no default' % what, z3.Implies(tob(mneed(kk)), N(kk)), F_TAGS)
        else:
            E.oblige('%s: the necessary fields are those having no default' % what, tob(mneed(kk)) == tob(N(kk)), F_TAGS)
    elif c == 2:
        E.assume(F(kk))
        E.oblige('%s: every field has a type' % what, tob(mh(kk)), F_TAGS)
        E.oblige('%s: the type of a field is the declared one' % what, E.term(hint_get(E, hints, kk)) == H(kk), F_TAGS + ('C08', 'C14'))
    else:
        E.oblige('%s: precondition of _objloader: necessary fields are fields' % what, z3.Implies(tob(mneed(kk)), tob(mf(kk))), F_TAGS)
    return value


def check_pass(E, what, kind, r):
    """the outcome of _objloader is passed on; True if _objloader was reached"""
    if kind == 'normal':
        o = E.st.ghost.get('#objres')
        need(o is not None, 'the object is not made by _objloader')
        E.oblige('%s: the object made is returned' % what, E.is_f(r, o), F_TAGS)
        return True
    x = E.st.ghost.get('#exc_object')
    if x is not None:
        E.oblige('%s: the error of a field is passed on' % what, isinstance(r, Ref) and r.a == x.a, ('C02', 'C03'))
        tr = trace_parts(E, r)[0]
        E.oblige('%s: nothing is added to the trace' % what, not tr, ('C03',))
        return True
    return False


class _NT(typing.NamedTuple):
    a: int


class _TD(typing.TypedDict):
    a: int


@dataclasses.dataclass
class _DC:
    a: int


def the_map(E, name, T):
    E.assume(has(name, T))
    A = attr(name, T)
    is_dict(E, A)
    return A


def is_dict(E, A):
    E.declare_map(A)
    E.assume(z3.And(fn('has_keys', V, B)(A), fn('has_get', V, B)(A), fn('has_items', V, B)(A)))


def hashable_values(E, A):
    k = z3.Const('qk', K)
    E.note('the types of the fields are hashable')
    E.assume(z3.ForAll([k], hashable(mget(A, k)), patterns=[mget(A, k)]))


def resolved_hints(E, T, A):
    """with pep563 the types of the fields are those that get_type_hints() finds"""
    G = z3.Const('resolved', V)

    def hints(E, args, kwargs):
        E.oblige('pep563: the annotations of the type are resolved', len(args) == 1 and not kwargs and E.is_f(args[0], SV(T)), F_TAGS + ('C15',))
        E.note('pep563: typing.get_type_hints(T) gives a hashable type for each field, without NotRequired')
        is_dict(E, G)
        k = z3.Const('qk', K)
        E.assume(z3.ForAll([k], z3.And(mhas(G, k) == mhas(A, k), hashable(mget(G, k))), patterns=[mget(G, k)]))
        E.assume(z3.ForAll([k], mhas(G, k) == mhas(A, k), patterns=[mhas(G, k)]))
        return E.new_dict((('map', G),))
    E.table[typing.get_type_hints] = hints
    f = lambda k, t: z3.If(PEP, mget(G, k), t)
    f.maps = (A, G)
    return f


def v_namedtuple(E):
    l, v, T, f = kind_setup(E, _NT)
    A = the_map(E, '__annotations__', T)
    hashable_values(E, A)
    D = attr('_field_defaults', T)
    is_dict(E, D)
    hasd = has('_field_defaults', T)
    hint = resolved_hints(E, T, A)
    kind, r = run_function(E, f, [l, SV(v), SV(T)])
    if not check_pass(E, 'namedtuple', kind, r):
        E.oblige('namedtuple: fails only if _objloader fails', False, F_TAGS)
    value = check_fields(E, 'namedtuple', lambda k: mhas(A, k), lambda k: z3.And(mhas(A, k), z3.Not(z3.And(hasd, mhas(D, k)))), lambda k: hint(k, mget(A, k)), maps=hint.maps)
    E.oblige('namedtuple: the value is what is loaded', E.is_f(value, SV(v)), F_TAGS)
    return kind


def notreq(t):
    return z3.And(has('__origin__', t), key(attr('__origin__', t)) == key(z3.Const('NotRequired', V)))


def v_typeddict(E):
    l, v, T, f = kind_setup(E, _TD)
    A = the_map(E, '__annotations__', T)
    hashable_values(E, A)
    E.note('Python is 3.9 or newer: a TypedDict has __required_keys__ and __optional_keys__, sets of keys of __annotations__')
    E.assume(z3.And(has('__required_keys__', T), has('__optional_keys__', T)))
    RK = attr('__required_keys__', T)
    d = dict(E.st.ghost.get('#setlike', {}))
    d[RK.get_id()] = RK
    E.st.ghost['#setlike'] = d
    rk = lambda k: fn('smem', V, K, B)(RK, k)
    k = z3.Const('qk', K)
    E.assume(z3.ForAll([k], z3.Implies(rk(k), mhas(A, k)), patterns=[rk(k)]))
    NR = E.const(typing.NotRequired)
    isnr = lambda t: z3.And(has('__origin__', t), key(attr('__origin__', t)) == key(NR))
    E.note('NotRequired[t] has __args__ == (t,)')
    t = z3.Const('qt', V)
    E.assume(z3.ForAll([t], z3.Implies(isnr(t), z3.And(has('__args__', t), it_n(attr('__args__', t)) == 1)), patterns=[attr('__origin__', t)]))
    hint = resolved_hints(E, T, A)
    kind, r = run_function(E, f, [l, SV(v), SV(T)])
    if not check_pass(E, 'typeddict', kind, r):
        E.oblige('typeddict: fails only if _objloader fails', False, F_TAGS)

    def H(k):
        t = hint(k, mget(A, k))
        return z3.If(isnr(t), it_el(attr('__args__', t), z3.IntVal(0)), t)
    value = check_fields(E, 'typeddict', lambda k: mhas(A, k), lambda k: z3.And(rk(k), z3.Not(isnr(hint(k, mget(A, k))))), H, maps=hint.maps)
    E.oblige('typeddict: the value is what is loaded', E.is_f(value, SV(v)), F_TAGS)
    return kind



# ----------------------------------------------------------------------
# name mangling
# ----------------------------------------------------------------------
def v_mangle(E):
    NM = z3.Const('namesmap', V)
    is_dict(E, NM)
    v = z3.Const('value', V)
    k = z3.Const('qk', K)
    inv = fn('inverse', K, K)
    # the names of the fields are distinct (precondition)
    nm = lambda d: key(mget(NM, d))
    E.assume(z3.ForAll([k], z3.Implies(mhas(NM, k), z3.And(hashable(mget(NM, k)), z3.Not(fn('tuplekey', K, B)(nm(k))), inv(nm(k)) == k)), patterns=[mget(NM, k)]))
    E.note('keys that equal the name of a field can be printed')
    E.assume(z3.ForAll([k], z3.Implies(mhas(NM, k), can_print(mget(NM, k))), patterns=[mget(NM, k)]))
    fe = z3.Bool('failonextra')
    nmd = E.new_dict((('map', NM),))
    o = E.obj(nmd)
    E.st.heap[nmd.a] = Obj(o.kind, {**o.d, '#name': 'the map of the names'}, None, False)
    f = E.wrap(dataloader._mangle_names)
    kind, r = run_function(E, f, [nmd, SV(v), SBool(fe)])
    if kind == 'normal':
        if E.branch(mn(NM) == 0):
            E.oblige('mangling: without names the value is unchanged', E.is_f(r, SV(v)), ('C07',))
            return 'same'
        E.declare_map(v)
        E.oblige('mangling: a new dict is made, the data are not changed', isinstance(r, Ref) and E.class_of(r) is dict and E.obj(r).owned, ('C07', 'C12'))
        R = E.obj(r).d['layers']
        p = E.fresh('p', K)
        # data key of p
        d = inv(p)
        inrange = z3.And(mhas(NM, d), nm(d) == p)
        src = z3.If(inrange, d, p)
        hassrc = z3.Or(inrange, z3.Not(mhas(NM, p)))
        want = z3.And(hassrc, mhas(v, src))
        mention(E, mget(NM, d), mget(NM, p), mget(v, src))
        for q in (src, p, d):
            E.inst_all(midx(v, q))
        for q in (d, p):
            E.inst_all(midx(NM, q))
        got = tob(E.layers_has(R, p))
        c = E.choose(4)
        if c == 0:
            E.oblige('mangling: a field whose name is not mangled keeps its name', z3.Implies(z3.And(z3.Not(inrange), want), got), ('C07', 'C05'))
            E.oblige('mangling: a mangled field is found under its mangled name', z3.Implies(want, got), ('C07', 'C05'))
        elif c == 1:
            E.oblige('mangling: nothing is found under the python name of a mangled field', z3.Implies(got, want), ('C07', 'C05'))
        elif c == 2:
            E.assume(got)
            x = E.force(E.layers_get(R, p))
            E.oblige('mangling: the value of a key is unchanged', E.term(x) == mget(v, src), ('C07', 'C05'))
        else:
            q = E.fresh('q', K)
            E.inst_all(midx(v, q))
            dq = inv(q)
            mention(E, mget(NM, dq))
            E.inst_all(midx(NM, dq))
            E.oblige('mangling: with failonextra the python name of a mangled field is rejected',
                     z3.Implies(z3.And(fe, mhas(v, q), mhas(NM, dq), nm(dq) == q), mhas(NM, q)), ('C06', 'C07'))
        return 'normal'
    E.oblige('mangling: raises ValueError, AttributeError or TypeError', z3.Or(*[tob(E.isinstance_f(r, PyC(q))) for q in (ValueError, AttributeError, TypeError)]), ('C02', 'C07'))
    if not E.branch(tob(E.isinstance_f(r, PyC(ValueError)))):
        E.oblige('mangling: AttributeError or TypeError only for data without items()', z3.And(mn(NM) > 0, z3.Not(dictlike(v))), ('C07', 'C02', 'C05'))
        return 'raise'
    qs = []
    for lr, J in E.st.ghost.get('#loops', ()):
        if E.known_map(v):
            q = key(mkey(v, J))
            E.inst_all(midx(NM, inv(q)))
            qs.append(z3.And(J >= 0, J < mn(v), mhas(NM, inv(q)), nm(inv(q)) == q, z3.Not(mhas(NM, q))))
    wb = [w for w in bulk_witnesses(E)]
    E.oblige('mangling: rejects only an extra field, with failonextra', z3.And(fe, z3.Or(*qs) if qs else False), ('C06', 'C07'))
    return 'raise'


def bulk_witnesses(E):
    return []


def map_same(E, what, val, M, tags):
    """the dict val is the mapping M"""
    val = E.force(val)
    kk = E.fresh('k', K)
    if isinstance(val, SV):
        E.oblige(what, val.t == M, tags)
        return
    need(isinstance(val, Ref) and E.obj(val).kind == 'dict', what)
    layers = E.obj(val).d['layers']
    for lr, J in E.st.ghost.get('#loops', ()):
        E.inst(lr, J, midx(M, kk))
    E.oblige(what + ': keys', tob(E.layers_has(layers, kk)) == mhas(M, kk), tags)
    E.assume(mhas(M, kk))
    E.oblige(what + ': values', E.term(E.force(E.layers_get(layers, kk))) == mget(M, kk), tags)


def check_names(E, what, names, F, mangled, name, pyname, inst):
    """names is a dict from the data name to the field name, for the fields having a different data name"""
    names = E.force(names)
    need(isinstance(names, Ref) and E.obj(names).kind == 'dict', 'the map of the names')
    layers = E.obj(names).d['layers']
    kk = E.fresh('k', K)
    c = E.choose(3)
    if c < 2:
        # every mangled field is there
        E.assume(z3.And(F(kk), mangled(kk)))
        d = key(name(kk))
        inst(kk)
        E.oblige('%s: the mangled name of a field is in the map' % what, tob(E.layers_has(layers, d)), ('C07', 'C05'))
        x = E.force(E.layers_get(layers, d))
        inst(E.keyof(x))
        E.oblige('%s: the mangled name leads to the field' % what, E.keyof(x) == kk, ('C07', 'C05'))
        return
    E.assume(tob(E.layers_has(layers, kk)))
    x = E.force(E.layers_get(layers, kk))
    p = E.keyof(x)
    inst(p)
    E.oblige('%s: the map has only mangled names of fields' % what, z3.And(mangled(p), key(name(p)) == kk), ('C07', 'C05'))


def check_mangle_call(E, what, v, cases):
    mg = E.st.ghost.get('#mangle')
    need(mg, 'names are not mangled by _mangle_names')
    nm, val, res_ = mg
    nsm, isns = source_map(E, v)
    if E.choose(2) == 0:
        cases(nm)
        return
    if E.branch(isns):
        map_same(E, '%s: a Namespace is loaded as the dict of its attributes' % what, val, nsm, ('C05', 'C07'))
    else:
        E.oblige('%s: the value is what is loaded' % what, E.is_f(val, SV(v)), ('C05', 'C07'))


def enum_insts(E, kk):
    """instantiate the loops at the position of the key kk in the enumerations of this path"""
    for ident, fi in E.st.ghost.get('#enumidx', ()):
        E.inst_all(fi(kk))


def v_dataclass(E):
    l, v, T, f = kind_setup(E, _DC)
    DF = the_map(E, '__dataclass_fields__', T)
    E.attr_facts['metadata'] = lambda E, t, a: is_dict(E, a)
    MK = key(z3.Const('opt_mangle_key', V))
    MISSING = E.const(dataclasses.MISSING)
    CV = E.const(dataclasses._FIELD_CLASSVAR)
    E.note('dataclass: a field has not both a default and a default_factory, and no default compares equal to MISSING')
    E.note('the types of the fields are hashable')
    E.note('the mangled names of the fields of a class are distinct strings')
    k = z3.Const('qk', K)
    fo = lambda k: mget(DF, k)
    meta = lambda k: attr('metadata', fo(k))
    isF = lambda k: z3.And(mhas(DF, k), truthy(attr('init', fo(k))), attr('_field_type', fo(k)) != CV)
    isN = lambda k: z3.And(isF(k), attr('default', fo(k)) == MISSING, attr('default_factory', fo(k)) == MISSING)
    hint = resolved_hints(E, T, DF)
    H = lambda k: hint(k, attr('type', fo(k)))
    name = lambda k: mget(meta(k), MK)
    mangled = lambda k: mhas(meta(k), MK)
    unm = fn('field_of_name', K, K)
    d, fa = attr('default', fo(k)), attr('default_factory', fo(k))
    E.assume(z3.ForAll([k], z3.And(*[has(a, fo(k)) for a in ('init', '_field_type', 'default', 'default_factory', 'type', 'metadata', 'name', 'repr', 'hash', 'compare', 'kw_only')],
                                   z3.Or(d == MISSING, fa == MISSING),
                                   z3.Implies(key(d) == key(MISSING), d == MISSING), z3.Implies(key(fa) == key(MISSING), fa == MISSING),
                                   hashable(H(k)), hashable(name(k)), name(k) != E.const(None),
                                   z3.Implies(z3.And(mhas(DF, k), isF(k), mangled(k)), unm(key(name(k))) == k),
                                   ), patterns=[fo(k)]))

    def inst(kk):
        mention(E, fo(kk))
        is_dict(E, meta(kk))
        enum_insts(E, kk)
        E.inst_all(midx(DF, kk))

    def cache_look(E, c, kv, b):
        E.oblige('field cache: looked up by the type', E.keyof(kv) == key(T), ('C13',))

    def cache_val(E, c, kv, stored):
        fs = E.new_set((('pred', lambda kk: isF(kk)),))
        ns = E.new_set((('pred', lambda kk: isN(kk)),))
        Hm, Nm = z3.Const('cached_hints', V), z3.Const('cached_names', V)
        E.declare_map(Hm)
        E.declare_map(Nm)
        E.assume(z3.ForAll([k], z3.Implies(isF(k), z3.And(mhas(Hm, k), mget(Hm, k) == H(k))), patterns=[mhas(DF, k)]))
        E.assume(z3.ForAll([k], z3.Implies(z3.And(isF(k), mangled(k)), z3.And(mhas(Nm, key(name(k))), key(mget(Nm, key(name(k)))) == k)), patterns=[name(k)]))
        p = key(mget(Nm, k))
        E.assume(z3.ForAll([k], z3.Implies(mhas(Nm, k), z3.And(isF(p), mangled(p), key(name(p)) == k)), patterns=[mget(Nm, k)]))
        hs = E.new_dict((('map', Hm),))
        tr = E.new_dict((('map', Nm),))
        for x in (fs, ns, hs, tr):
            freeze(E, x)
        return TupV.of(fs, ns, hs, tr)

    def freeze(E, x):
        if isinstance(x, Ref):
            o = E.obj(x)
            E.st.heap[x.a] = Obj(o.kind, {**o.d, '#name': 'what the cache knows of a class'}, o.term, False)

    def cache_set(E, c, kk, val):
        E.oblige('field cache: stored by the type', E.hkey(kk) == key(T), ('C13',))
        val = E.force(val)
        items = val.concrete() if isinstance(val, TupV) else None
        need(items is not None and len(items) == 4, 'layout of the field cache')
        items = [E.force(x) for x in items]
        for x in items:
            freeze(E, x)
        c = E.choose(3)
        if c == 0:
            return
        if c == 1:
            check_names(E, 'dataclass cache', items[3], isF, mangled, name, None, inst)
        else:
            check_info(E, 'dataclass cache', items)
        raise PathDead()

    def check_info(E, what, items):
        mf, mneed, mh = [E.mem_fn(x)[0] for x in items[:3]]
        need(mf and mneed and mh, 'layout of the field cache')
        kk = E.fresh('k', K)
        inst(kk)
        T_ = F_TAGS + ('C13',)
        E.oblige('%s: the fields are those of the class' % what, tob(mf(kk)) == isF(kk), T_ + ('C06',))
        E.oblige('%s: the necessary fields are those having no default' % what, tob(mneed(kk)) == isN(kk), T_)
        E.assume(isF(kk))
        E.oblige('%s: every field has a type' % what, tob(mh(kk)), T_)
        E.oblige('%s: the type of a field is the declared one' % what, E.term(hint_get(E, items[2], kk)) == H(kk), T_)
    E.put(l, _objfieldscache=cache_obj(E, '_objfieldscache', cache_look, cache_val, cache_set))
    kind, r = run_function(E, f, [l, SV(v), SV(T)])
    return object_post(E, 'dataclass', kind, r, v, T, isF, isN, H, inst, lambda nm: check_names(E, 'dataclass', nm, isF, mangled, name, None, inst))


def object_post(E, what, kind, r, v, T, isF, isN, H, inst, names, Nweak=False):
    if not check_pass(E, what, kind, r):
        need(E.st.ghost.get('#mangle'), 'names are not mangled by _mangle_names')
        c = E.st.ghost.get('#mangle_failed')
        E.oblige('%s: fails only if mangling or _objloader fails' % what, bool(c), F_TAGS)
        oblige_exc(E, r, what)
        exc_fields(E, r, what, SV(v), SV(T))
        return 'raise-mangle'
    c = E.choose(2)
    if c == 0:
        oc = E.st.ghost.get('#objcall')
        need(oc, 'the object is not made by _objloader')
        mf, mneed, mh, hints, value = oc
        kk = E.fresh('k', K)
        inst(kk)
        c = E.choose(3)
        if c == 0:
            E.oblige('%s: the fields are those of the class' % what, tob(mf(kk)) == isF(kk), F_TAGS + ('C06',))
        elif c == 1:
            if Nweak:
                E.oblige('%s: a necessary field has no default' % what, z3.Implies(tob(mneed(kk)), isN(kk)), F_TAGS)
            else:
                E.oblige('%s: the necessary fields are those having no default' % what, tob(mneed(kk)) == isN(kk), F_TAGS)
        else:
            E.assume(isF(kk))
            E.oblige('%s: every field has a type' % what, tob(mh(kk)), F_TAGS)
            E.oblige('%s: the type of a field is the declared one' % what, E.term(hint_get(E, hints, kk)) == H(kk), F_TAGS + ('C08', 'C14'))
        return kind
    mg = E.st.ghost.get('#mangle')
    need(mg, 'names are not mangled by _mangle_names')
    oc = E.st.ghost.get('#objcall')
    need(oc, 'the object is not made by _objloader')
    E.oblige('%s: the mangled data are what is loaded' % what, E.is_f(oc[4], mg[2]), F_TAGS + ('C07',))
    check_mangle_call(E, what, v, names)
    return kind


import attr as _attr


@_attr.s
class _AT:
    a = _attr.ib(type=int)


def contract_convtype(E, args, kwargs):
    d = bound(dataloader._get_attr_converter_type, args, kwargs, ['c'])
    t = fn('convtype', V, V)(E.term(E.force(d['c'])))
    E.assume(hashable(t))
    return SV(t)


def v_attrs(E):
    l, v, T, f = kind_setup(E, _AT)
    E.contracts[('typedload.dataloader', '_get_attr_converter_type')] = contract_convtype
    from attr._make import _Nothing
    NOTH = [E.const(_Nothing), E.const(_attr.NOTHING)]
    E.assume(has('__attrs_attrs__', T))
    AA = attr('__attrs_attrs__', T)
    E.declare_seq(AA)
    E.attr_facts['metadata'] = lambda E, t, a: is_dict(E, a)
    MK = key(z3.Const('opt_mangle_key', V))
    E.note('attrs is 22.2 or newer: Attribute.alias is the name of the parameter of the constructor; the aliases of a class are distinct non-empty strings')
    E.note('the names in the data of the attributes of a class are distinct')
    E.note('the types of the fields are hashable; converters are true')
    i = z3.Int('qi')
    k = z3.Const('qk', K)
    el = lambda j: it_el(AA, j)
    al = lambda j: attr('alias', el(j))
    aidx = fn('alias_idx', K, I)
    meta = lambda j: attr('metadata', el(j))
    conv = lambda j: attr('converter', el(j))
    jname = lambda j: z3.If(mhas(meta(j), MK), mget(meta(j), MK), attr('name', el(j)))
    jm = lambda j: z3.Or(mhas(meta(j), MK), key(al(j)) != key(attr('name', el(j))))
    didx = fn('dataname_idx', K, I)
    E.assume(z3.ForAll([i], z3.And(*[has(a, el(i)) for a in ('init', 'alias', 'default', 'converter', 'type', 'metadata', 'name', 'repr', 'eq', 'order', 'hash', 'kw_only', 'validator')],
                                   truthy(al(i)), hashable(al(i)), hashable(attr('name', el(i))), hashable(attr('type', el(i))), hashable(mget(meta(i), MK)),
                                   z3.Implies(z3.And(i >= 0, i < it_n(AA)), aidx(key(al(i))) == i),
                                   z3.Implies(z3.And(i >= 0, i < it_n(AA), jm(i)), didx(key(jname(i))) == i)),
                       patterns=[el(i)]))
    J = aidx
    inr = lambda k: z3.And(J(k) >= 0, J(k) < it_n(AA), key(al(J(k))) == k)
    isF = lambda k: z3.And(inr(k), truthy(attr('init', el(J(k)))))
    isN = lambda k: z3.And(isF(k), z3.Or(*[attr('default', el(J(k))) == n for n in NOTH]))
    H = lambda k: z3.If(truthy(conv(J(k))), fn('convtype', V, V)(conv(J(k))), attr('type', el(J(k))))
    name = lambda k: jname(J(k))
    mangled = lambda k: z3.And(inr(k), jm(J(k)))

    def inst(kk):
        if not pattern_ok(kk):
            k2 = E.fresh('k', K)
            E.assume(k2 == kk)
            kk = k2
        mention(E, el(J(kk)))
        is_dict(E, meta(J(kk)))
        E.inst_all(J(kk))
    kind, r = run_function(E, f, [l, SV(v), SV(T)])
    return object_post(E, 'attrs', kind, r, v, T, isF, isN, H, inst, lambda nm: check_names(E, 'attrs', nm, isF, mangled, name, None, inst), Nweak=True)


def v_convtype(E):
    c = z3.Const('converter', V)
    m = fn('hints', V, V)(c)
    hasann = z3.Bool('has_annotations')

    def hints(E, args, kwargs):
        E.oblige('converter: the annotations of the converter are used', E.is_f(args[0], SV(c)), F_TAGS)
        E.note('typing.get_type_hints(converter) returns a new dict or raises TypeError (the annotations can be resolved)')
        if not E.branch(hasann):
            E.raise_py(TypeError, 'no annotations')
        is_dict(E, m)
        return E.new_dict((('map', m),))
    E.table[typing.get_type_hints] = hints
    kind, r = run_function(E, E.wrap(dataloader._get_attr_converter_type), [SV(c)])
    E.oblige('converter: its type is always found', kind == 'normal', F_TAGS + ('C02',))
    t = E.term(r)
    ANY = E.const(typing.Any)
    RET = key(E.const('return'))
    if not E.branch(hasann):
        E.oblige('converter: without annotations anything is accepted', t == ANY, F_TAGS)
        return 'normal'
    E.declare_map(m)
    p = E.fresh('p', K)
    for _, fi in E.st.ghost.get('#enumidx', ()):
        mention(E, fi(p))
    if E.choose(2) == 0:
        k = z3.Const('qk', K)
        E.assume(z3.And(mhas(m, p), p != RET))
        E.assume(z3.ForAll([k], z3.Implies(mhas(m, k), z3.Or(k == p, k == RET)), patterns=[mhas(m, k)]))
        E.assume(mn(m) <= 2)
        E.assume(mn(m) > 0)
        E.oblige('converter: the type of its parameter', t == mget(m, p), F_TAGS)
        return 'normal'
    k = z3.Const('qk', K)
    E.assume(z3.ForAll([k], z3.Implies(mhas(m, k), k == RET), patterns=[mhas(m, k)]))
    E.oblige('converter: the type of the result is not the type of the parameter', t == ANY, F_TAGS)
    return 'normal'


def v_lemma(E):
    """
    composition of the contracts: the fields of the class are loaded from their data names
    (postconditions of _mangle_names and _objloader, with the map of the names that the loaders of dataclasses and attrs give)
    """
    k = z3.Const('qk', K)
    Fd = fn('lfield', K, B)
    isNM, NMv = fn('l_nm', K, B), fn('l_nmv', K, K)          # namesmap: data name -> field
    inv = fn('l_inv', K, K)
    hv, hR, hP = fn('l_hv', K, B), fn('l_hR', K, B), fn('l_hP', K, B)
    gv, gR = fn('l_gv', K, V), fn('l_gR', K, V)
    dn, mangled = fn('l_dn', K, K), fn('l_mangled', K, B)
    fe = z3.Bool('fe')
    # map of the names (dataclass, attrs)
    E.assume(z3.ForAll([k], z3.Implies(z3.And(Fd(k), mangled(k)), z3.And(isNM(dn(k)), NMv(dn(k)) == k)), patterns=[dn(k)]))
    E.assume(z3.ForAll([k], z3.Implies(isNM(k), z3.And(Fd(NMv(k)), mangled(NMv(k)), dn(NMv(k)) == k, inv(NMv(k)) == k)), patterns=[isNM(k)]))
    # _mangle_names
    inr = lambda p: z3.And(isNM(inv(p)), NMv(inv(p)) == p)
    src = lambda p: z3.If(inr(p), inv(p), p)
    E.assume(z3.ForAll([k], hR(k) == z3.And(z3.Or(inr(k), z3.Not(isNM(k))), hv(src(k))), patterns=[hR(k)]))
    E.assume(z3.ForAll([k], z3.Implies(hR(k), gR(k) == gv(src(k))), patterns=[gR(k)]))
    E.assume(z3.ForAll([k], z3.Implies(z3.And(fe, hv(k), inr(k)), isNM(k)), patterns=[hv(k)]))
    # _objloader
    E.assume(z3.ForAll([k], hP(k) == z3.And(hR(k), Fd(k)), patterns=[hP(k)]))
    E.assume(z3.ForAll([k], z3.Implies(z3.And(fe, hR(k)), Fd(k)), patterns=[hR(k)]))
    p = z3.Const('p', K)
    data = z3.If(mangled(p), dn(p), p)
    c = E.choose(3)
    mention(E, dn(p), isNM(inv(p)), isNM(p), isNM(dn(p)), hP(p), gR(p))
    if c == 0:
        # a field without mangled name whose name is the data name of another one is not loaded
        E.assume(z3.And(Fd(p), z3.Or(mangled(p), z3.Not(isNM(p)))))
        E.oblige('mangled objects: a field is given to the constructor exactly if its data name is in the data', hP(p) == hv(data), ('C07', 'C05'))
        return 'normal'
    if c == 1:
        E.assume(z3.And(Fd(p), hP(p)))
        E.oblige('mangled objects: a field is loaded from its data name', gR(p) == gv(data), ('C07', 'C05'))
        return 'normal'
    E.assume(z3.And(fe, hv(p)))
    mention(E, NMv(p), hR(NMv(p)), hR(p))
    q = z3.If(isNM(p), NMv(p), p)
    E.oblige('mangled objects: with failonextra every key of the data is the data name of a field', z3.And(Fd(q), z3.If(mangled(q), dn(q), q) == p), ('C07', 'C06'))
    return 'normal'


ALL = [
    ('load namedtuple', v_namedtuple, ('normal', 'raise')),
    ('load typeddict', v_typeddict, ('normal', 'raise')),
    ('load dataclass', v_dataclass, ('normal', 'raise', 'raise-mangle')),
    ('load attrs', v_attrs, ('normal', 'raise', 'raise-mangle')),
    ('_get_attr_converter_type', v_convtype, ('normal',)),
    ('lemma mangled objects', v_lemma, ('normal',)),
    ('_mangle_names', v_mangle, ('normal', 'same', 'raise')),
]

if __name__ == '__main__':
    main(ALL)
