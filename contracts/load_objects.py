"""Contracts of the loaders of objects (C01 C03 C05 C06 C07 C12 C13 C16)."""
from .base import *
from .load_containers import source_map, set_witness

TAGS = ('C05', 'C01')


def v_objloader(E):
    l, v, T = std(E)
    F = fn('isfield', K, B)
    N = fn('isneeded', K, B)
    H = z3.Const('hints', V)
    E.declare_map(H)
    k = z3.Const('qk', K)
    E.assume(z3.ForAll([k], z3.And(z3.Implies(N(k), F(k)), z3.Implies(F(k), mhas(H, k))), patterns=[F(k)]))
    E.assume(z3.ForAll([k], z3.Implies(N(k), F(k)), patterns=[N(k)]))
    E.assume(z3.ForAll([k], hashable(mget(H, k)), patterns=[mget(H, k)]))
    E.note('constructors of classes raise only TypeError or ValueError')
    declare_ctor(E, T, [TypeError, ValueError])
    fields = E.new_set((('pred', lambda kk: F(kk)),))
    needed = E.new_set((('pred', lambda kk: N(kk)),))
    hints = E.new_dict((('map', H),))
    for x, nm in ((fields, 'the set of the fields'), (needed, 'the set of the necessary fields'), (hints, 'the types of the fields')):
        o = E.obj(x)
        E.st.heap[x.a] = Obj(o.kind, {**o.d, '#name': nm}, None, False)
    E.note('the names of the fields are strings')
    E.printable_containers = True
    f = E.wrap(dataloader._objloader)
    kind, r = run_function(E, f, [l, fields, needed, hints, SV(v), SV(T)])
    nsm, isns = source_map(E, v)
    fe = z3.Bool('opt_failonextra')
    haskeys = z3.And(fn('has_keys', V, B)(v), fn('callable_keys', V, B)(v))
    if not E.branch(haskeys):
        if not E.branch(isns):
            E.oblige('object: data that is not dict-like is rejected', kind == 'raise', ('C05',))
            oblige_exc(E, r, 'object from something not dict-like')
            exc_fields(E, r, 'object', SV(v), SV(T))
            return 'raise'
        M = nsm
    else:
        M = v
        E.declare_map(M)
    if kind == 'normal':
        ev = E.st.ghost.get('#ctorcall')
        E.oblige('object: is what the constructor of the type makes', bool(ev) and ev[1].eq(T) and isinst_true(E, r, T), TAGS)
        P = E.force(ev[2])
        layers = E.obj(P).d['layers']
        kk = E.fresh('k', K)
        h = tob(E.layers_has(layers, kk))
        for lr, J in E.st.ghost.get('#loops', ()):
            E.inst(lr, J, midx(M, kk))
        c = E.choose(4)
        if c == 0:
            E.oblige('object: the constructor receives only fields that are in the data', z3.Implies(h, z3.And(mhas(M, kk), F(kk))), TAGS)
            return 'normal'
        if c == 1:
            E.oblige('object: the constructor receives every field that is in the data', z3.Implies(z3.And(mhas(M, kk), F(kk)), h), TAGS + ('C16',))
            return 'normal'
        if c == 2:
            E.assume(h)
            x = E.force(E.layers_get(layers, kk))
            t = mget(H, kk)
            e = mget(M, kk)
            E.oblige('object: every field is loaded as its declared type', z3.And(ok(e, t), E.term(x) == res(e, t)), TAGS + ('C08', 'C14', 'C16'))
            return 'normal'
        E.oblige('object: every necessary field is in the data', z3.Implies(N(kk), mhas(M, kk)), TAGS)
        E.oblige('object: with failonextra every key of the data is a field', z3.Implies(z3.And(fe, mhas(M, kk)), F(kk)), ('C06',))
        return 'normal'
    oblige_exc(E, r, 'object')
    of = exc_of(E, r)
    if of is not None:
        tv, tt = of

        def leads(av):
            ka = E.keyof(av)
            return z3.And(mhas(M, ka), mget(M, ka) == tv, F(ka), mget(H, ka) == tt)
        if M is v:
            check_component_exc(E, r, SV(v), SV(T), AT.FIELD, leads, 'object')
        E.oblige('object: fails only if a field fails', z3.Not(ok(tv, tt)), TAGS)
        return 'raise-field'
    # missing fields, extra fields, unsupported type of a field, constructor
    ev = E.st.ghost.get('#ctorcall')
    if ev:
        if M is v:
            exc_fields(E, r, 'object', SV(v), SV(T))
        return 'raise-ctor'
    complete = z3.ForAll([k], z3.Implies(N(k), mhas(M, k)), patterns=[N(k)])
    noextra = z3.ForAll([k], z3.Implies(z3.And(fe, mhas(M, k)), F(k)), patterns=[mhas(M, k)])
    known = z3.ForAll([k], z3.Implies(z3.And(mhas(M, k), F(k)), supported(key(mget(H, k)))), patterns=[mhas(M, k)])
    E.oblige('object: fails only if a necessary field is missing, there are extra fields, or a field fails', z3.Not(z3.And(complete, noextra, known)), TAGS + ('C06',))
    if not E.branch(known):
        return 'raise'
    oblige_exc(E, r, 'object with wrong fields', TVE, ('C05', 'C06'))
    if M is v:
        exc_fields(E, r, 'object', SV(v), SV(T))
    return 'raise-fields'


def isinst_true(E, r, T):
    return E.proves(isinst(E.term(r), T))


ALL = [
    ('_objloader', v_objloader, ('normal', 'raise', 'raise-field', 'raise-fields', 'raise-ctor')),
]

if __name__ == '__main__':
    main(ALL)
