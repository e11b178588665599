"""Contracts of the handlers of containers (C01 C02 C03 C06 C08 C12 C14 C16)."""
from .base import *

def element_facts(E, tv, tt):
    """contracts of the handlers of the element type: basic types and unions of basic types"""
    pass


def iter_kind(E, sample, cls):
    l, v, T = std(E)
    f = handler_for(E, l, sample)
    A = attr('__args__', T)
    E.declare_seq(A)
    args_facts(E, T, A)
    t = it_el(A, z3.IntVal(0))
    if cls is tuple:
        E.assume(it_n(A) == 2)
        E.assume(it_el(A, z3.IntVal(1)) == E.const(...))
    else:
        E.assume(it_n(A) == 1)
    # a union type: its alternatives are hashable types; contract of its handler for exact basic types
    UA = attr('__args__', t)
    union_contract(E, t)
    kind, r = run_function(E, f, [l, SV(v), SV(T)])
    what = cls.__name__
    if kind == 'normal':
        E.oblige('%s: result is exactly a %s' % (what, cls.__name__), E.class_of(r) is cls, ('C01', 'C16'))
        E.oblige('%s: a dict is never accepted' % what, z3.Not(E.isinst_term(v, dict)), ('C16',))
        if cls in (list, tuple):
            segs = E.as_segs(r)
            n = E.segs_len(segs)
            E.oblige('%s: as many elements as the value' % what, n == it_n(v), ('C16', 'C06'))
            j = E.skolem('j', 0, it_n(v))
            E.inst_all(j)
            x = E.segs_get(segs, j)
            e = it_el(v, j)
            union_exact(E, e, t)
            E.oblige('%s: element j is what loading element j gives' % what, acceptable_f(E, x, e, t), ('C01', 'C08', 'C14', 'C16'))
            if cls is list:
                E.oblige('%s: the result is a new object' % what, E.obj(r).owned and isinstance(r, Ref), ('C12',))
        else:
            # every element is there, and nothing else
            layers = E.obj(r).d['layers']
            j = E.skolem('j', 0, it_n(v))
            e = it_el(v, j)
            E.inst_all(j)
            union_exact(E, e, t)
            kk = E.fresh('k', K)
            side = E.choose(2)
            if side == 0:
                m1 = E.layers_has(layers, key(res(e, t)))
                m2 = E.layers_has(layers, key(e))
                E.isinst_rel(e, t)
                E.oblige('%s: the loaded element j is in the result' % what,
                         z3.Or(z3.And(ok(e, t), tob(m1)), z3.And(basic(key(t)), isinst(e, t), tob(m2))), ('C16', 'C01', 'C08'))
            else:
                m = E.layers_has(layers, kk)
                E.assume(tob(m))
                j2 = set_witness(E, layers, kk)
                if j2 is None:
                    E.oblige('%s: witness' % what, False, ('C16',))
                E.inst_all(j2)
                e2 = it_el(v, j2)
                union_exact(E, e2, t)
                E.isinst_rel(e2, t)
                E.oblige('%s: the result has only loaded elements' % what,
                         z3.And(j2 >= 0, j2 < it_n(v), z3.Or(z3.And(ok(e2, t), kk == key(res(e2, t))), z3.And(basic(key(t)), isinst(e2, t), kk == key(e2)))),
                         ('C16', 'C01', 'C08', 'C14'))
        return 'normal'
    oblige_exc(E, r, what)
    of = exc_of(E, r)
    if of is not None:
        tv, tt = of
        if E.obj(r).d.get('#unsupported'):
            return 'raise'
        def leads(av):
            i = E.intval(av)
            if i is None:
                return False
            i = i if isinstance(i, z3.ExprRef) else z3.IntVal(i)
            return z3.And(i >= 0, i < it_n(v), it_el(v, i) == tv)
        check_component_exc(E, r, SV(v), SV(T), AT.INDEX, leads, what)
        E.oblige('%s: fails only if an element fails' % what, z3.Not(ok(tv, tt)), ('C16',))
        E.oblige('%s: the element was loaded as the element type' % what, tt == t, ('C16', 'C14'))
        return 'raise-element'
    # every other failure: not a suitable container, the element type is not supported, unhashable elements
    unsuit = [z3.Not(iterable(v)), E.isinst_term(v, dict), z3.Not(supported(key(t)))]
    if cls in (set, frozenset):
        unsuit.append(z3.Bool('unhashable_element'))
        if not E.branch(z3.Or(*unsuit[:3])):
            j = last_index(E)
            E.oblige('%s: fails only if the value is not a suitable container or an element is not hashable' % what,
                     unhashable_at(E, v, t), ('C16',))
        exc_fields(E, r, what, SV(v), SV(T), t)
        return 'raise'
    E.oblige('%s: fails only if the value is not a suitable container or some element fails' % what, z3.Or(*unsuit), ('C16',))
    exc_fields(E, r, what, SV(v), SV(T), t)
    return 'raise'


def last_index(E):
    loops = E.st.ghost.get('#loops', ())
    return loops[-1][1] if loops else None


def unhashable_at(E, v, t):
    """some element, loaded, is not hashable: the exit index of the last loop is the witness"""
    loops = E.st.ghost.get('#loops', ())
    alts = []
    for lr, J in loops:
        e = it_el(v, J)
        E.isinst_rel(e, t)
        alts.append(z3.And(J >= 0, J < it_n(v), z3.Or(z3.And(ok(e, t), z3.Not(hashable(res(e, t)))),
                                                        z3.And(basic(key(t)), isinst(e, t), z3.Not(hashable(e))),
                                                        z3.And(isunion_t(t), z3.Not(hashable(e))))))
    return z3.Or(*alts) if alts else False


def set_witness(E, layers, kk):
    for l in reversed(layers):
        if l[0] == 'bulk':
            return l[2]['w'](kk)
    return None


def union_contract(E, t):
    """t may be a union: its __args__ are hashable types"""
    UA = attr('__args__', t)
    E.assume(z3.Implies(union_f(E, t), z3.And(has('__args__', t), isunion_t(t))))
    E.assume(z3.Implies(isunion_t(t), union_f(E, t)))


def union_f(E, t):
    import types as _t
    return z3.Or(z3.And(has('__origin__', t), key(attr('__origin__', t)) == key(E.const(typing.Union))),
                 key(typeof(t)) == key(E.const(_t.UnionType)))


def union_exact(E, e, t):
    """contract of the union handler: a value whose exact type is a basic alternative is returned as it is"""
    UA = attr('__args__', t)
    if E.known_seq(UA):
        f = E.inseq_f(UA, key(typeof(e)))
        E.assume(z3.Implies(z3.And(isunion_t(t), f, basic(key(typeof(e)))), z3.And(ok(e, t), res(e, t) == e)))


def v_list(E):
    return iter_kind(E, typing.List[int], list)


def v_vtuple(E):
    return iter_kind(E, typing.Tuple[int, ...], tuple)


def v_set(E):
    return iter_kind(E, typing.Set[int], set)


def v_frozenset(E):
    return iter_kind(E, typing.FrozenSet[int], frozenset)


def source_map(E, v):
    """the mapping that a dict-like value stands for"""
    nsm = fn('nsmap', V, V)(v)
    E.declare_map(nsm)
    isns = z3.And(z3.Bool('opt_dictequivalence'), has('_get_kwargs', v), kwargs_ok(v))
    return nsm, isns


def v_dict(E):
    l, v, T = std(E)
    f = handler_for(E, l, typing.Dict[int, int])
    A = attr('__args__', T)
    E.declare_seq(A)
    args_facts(E, T, A)
    E.assume(it_n(A) == 2)
    kt, vt = it_el(A, z3.IntVal(0)), it_el(A, z3.IntVal(1))
    x = z3.Const('qv', V)
    kind, r = run_function(E, f, [l, SV(v), SV(T)])
    nsm, isns = source_map(E, v)
    M = nsm if E.branch(isns) else v
    if kind == 'normal':
        E.oblige('dict: result is exactly a dict', E.class_of(r) is dict, ('C01', 'C16'))
        E.oblige('dict: the result is a new object', isinstance(r, Ref) and E.obj(r).owned, ('C12',))
        E.declare_map(M)
        layers = E.obj(r).d['layers']

        def lk(i, kk):
            k = mkey(M, i)
            E.isinst_rel(k, kt)
            return z3.Or(z3.And(ok(k, kt), kk == key(res(k, kt))), z3.And(basic(key(kt)), isinst(k, kt), kk == key(k)))
        if E.choose(2) == 0:
            j = E.skolem('j', 0, mn(M))
            E.inst_all(j)
            k = mkey(M, j)
            E.isinst_rel(k, kt)
            E.oblige('dict: the loaded key j is in the result',
                     z3.Or(z3.And(ok(k, kt), tob(E.layers_has(layers, key(res(k, kt))))),
                           z3.And(basic(key(kt)), isinst(k, kt), tob(E.layers_has(layers, key(k))))), ('C16', 'C01', 'C08', 'C14'))
            return 'normal'
        kk = E.fresh('k', K)
        E.assume(tob(E.layers_has(layers, kk)))
        j = set_witness(E, layers, kk)
        if j is None:
            E.oblige('dict: witness', False, ('C16',))
        E.inst_all(j)
        E.oblige('dict: the result has only loaded keys', z3.And(j >= 0, j < mn(M), lk(j, kk)), ('C16', 'C01', 'C08', 'C14'))
        x = E.layers_get(layers, kk)
        e = mget(M, key(mkey(M, j)))
        E.oblige('dict: the value of a key is what loading the value gives', acceptable_f(E, x, e, vt), ('C16', 'C01', 'C08', 'C14'))
        j2 = E.skolem('j2', j + 1, mn(M))
        E.inst_all(j2)
        u = z3.Or(z3.Not(ok(mkey(M, j2), kt)), kk != key(res(mkey(M, j2), kt)))
        k2 = mkey(M, j2)
        E.isinst_rel(k2, kt)
        E.oblige('dict: of the values of equal keys, the last one is kept', z3.Or(u, z3.And(basic(key(kt)), isinst(k2, kt), kk != key(k2))), ('C16',))
        return 'normal'
    oblige_exc(E, r, 'dict')
    of = exc_of(E, r)
    if of is not None:
        tv, tt = of
        if E.obj(r).d.get('#unsupported'):
            return 'raise'
        pre, rest = trace_parts(E, r)
        E.oblige('dict: one trace item per level is added', len(pre) == 1, ('C03',))
        E.oblige('dict: the trace of the inner error is kept', len(rest) == 1 and isinstance(rest[0], Seq) and bool(rest[0].tag) and rest[0].tag[0] == 'trace'
                 and rest[0].tag[1].eq(tv) and rest[0].tag[2].eq(tt), ('C03',))
        it = E.force(pre[0])
        if not (isinstance(it, TupV) and it.cls is TraceItem):
            E.oblige('dict: trace item', False, ('C03',))
        iv, ity, a = [E.force(q) for q in it.concrete()]
        E.oblige('dict: trace item holds the value and type that failed', E.f_and([E.is_f(iv, SV(tv)), E.eq_f(ity, SV(tt))]), ('C03',))
        if not (isinstance(a, TupV) and a.cls is Annotation):
            E.oblige('dict: trace item is annotated', False, ('C03',))
        at, av = [E.force(q) for q in a.concrete()]
        iskey = E.eq_f(at, PyC(AT.KEY))
        isval = E.eq_f(at, PyC(AT.VALUE))
        E.oblige('dict: the annotation holds the key or the value', E.f_and([E.f_or([iskey, isval]), E.is_f(av, SV(tv))]), ('C03',))
        E.oblige('dict: fails only if a key or a value fails', z3.Not(ok(tv, tt)), ('C16',))
        w = [J for lr, J in E.st.ghost.get('#loops', ())]
        ks = [z3.And(J >= 0, J < mn(M), tv == mkey(M, J)) for J in w]
        vs = [z3.And(J >= 0, J < mn(M), tv == mget(M, key(mkey(M, J)))) for J in w]
        E.oblige('dict: the key was loaded as the key type, the value as the value type',
                 z3.Or(z3.And(tob(iskey), tt == kt, *[z3.Or(*ks)] if ks else []), z3.And(tob(isval), tt == vt, *[z3.Or(*vs)] if vs else [])), ('C16', 'C14', 'C03'))
        return 'raise-element'
    unsuit = [z3.Not(has('items', M)), z3.Not(supported(key(kt))), z3.Not(supported(key(vt)))]
    if M is nsm:
        unsuit = unsuit[1:]
    else:
        unsuit[0] = z3.Not(fn('has_items', V, B)(v))
    unsuit.append(z3.Not(dictlike(v)))
    # a key may be loaded into something that can not be the key of a dict
    for lr, J in E.st.ghost.get('#loops', ()):
        k = mkey(M, J)
        unsuit.append(z3.And(J >= 0, J < mn(M), ok(k, kt), z3.Not(hashable(res(k, kt)))))
    E.oblige('dict: fails only if the value is not a mapping, or an entry fails, or a loaded key is not hashable', z3.Or(*unsuit), ('C16',))
    ev = E.getattr(r, 'value', SENTINEL)
    et = E.getattr(r, 'type_', SENTINEL)
    E.oblige('dict: exception.type_ is the offending type', E.f_or([E.eq_f(et, SV(T)), E.eq_f(et, SV(kt)), E.eq_f(et, SV(vt))]), ('C03',))
    if M is v:
        E.oblige('dict: exception.value is the offending value', E.is_f(ev, SV(v)), ('C03',))
    return 'raise'


def v_tuple(E):
    l, v, T = std(E)
    f = handler_for(E, l, typing.Tuple[int, int])
    A = attr('__args__', T)
    E.declare_seq(A)
    args_facts(E, T, A)
    E.assume(z3.Not(z3.And(it_n(A) == 2, key(it_el(A, z3.IntVal(1))) == key(E.const(...)))))
    E.note('values having len() have as many elements as it says')
    kind, r = run_function(E, f, [l, SV(v), SV(T)])
    n, m = it_n(v), it_n(A)
    fe = z3.Bool('opt_failonextra')
    if kind == 'normal':
        E.oblige('tuple: result is exactly a tuple', E.class_of(r) is tuple, ('C01', 'C16'))
        E.oblige('tuple: a dict is never accepted', z3.Not(E.isinst_term(v, dict)), ('C16',))
        segs = E.as_segs(r)
        E.oblige('tuple: exactly as many elements as the type has', E.segs_len(segs) == m, ('C16', 'C01'))
        E.oblige('tuple: the value was long enough', n >= m, ('C16',))
        E.oblige('tuple: with failonextra the value was not longer', z3.Or(z3.Not(fe), n == m), ('C06',))
        j = E.skolem('j', 0, m)
        E.inst_all(j)
        x = E.segs_get(segs, j)
        E.oblige('tuple: element j is what loading element j as type j gives', acceptable_f(E, x, it_el(v, j), it_el(A, j)), ('C16', 'C01', 'C08', 'C14'))
        return 'normal'
    oblige_exc(E, r, 'tuple')
    of = exc_of(E, r)
    if of is not None and not E.obj(r).d.get('#unsupported'):
        tv, tt = of

        def leads(av):
            i = E.intval(av)
            if i is None:
                return False
            i = i if isinstance(i, z3.ExprRef) else z3.IntVal(i)
            return z3.And(i >= 0, i < n, it_el(v, i) == tv, i < m, it_el(A, i) == tt)
        check_component_exc(E, r, SV(v), SV(T), AT.INDEX, leads, 'tuple')
        E.oblige('tuple: fails only if an element fails', z3.Not(ok(tv, tt)), ('C16',))
        return 'raise-element'
    un = []
    for lr, J in E.st.ghost.get('#loops', ()):
        un.append(z3.And(J >= 0, J < m, z3.Not(supported(key(it_el(A, J))))))
    for j in range(3):
        un.append(z3.And(m > j, z3.Not(supported(key(it_el(A, z3.IntVal(j)))))))
    E.oblige('tuple: fails only for a dict, a value without length, of the wrong length, or if an element fails',
             z3.Or(E.isinst_term(v, dict), z3.Not(sized(v)), z3.Not(iterable(v)), n < m, z3.And(fe, n > m), *un), ('C16', 'C06'))
    if E.branch(z3.Or(*un)):
        return 'raise'
    exc_fields(E, r, 'tuple', SV(v), SV(T), None)
    return 'raise'


ALL = [
    ('load list', v_list, ('normal', 'raise', 'raise-element')),
    ('load vtuple', v_vtuple, ('normal', 'raise', 'raise-element')),
    ('load set', v_set, ('normal', 'raise', 'raise-element')),
    ('load frozenset', v_frozenset, ('normal', 'raise', 'raise-element')),
    ('load dict', v_dict, ('normal', 'raise', 'raise-element')),
    ('load tuple', v_tuple, ('normal', 'raise', 'raise-element')),
]

if __name__ == '__main__':
    main(ALL)
