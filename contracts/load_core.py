"""Contracts of Loader.load and Loader.index (C01 C03 C13 C14 C15)."""
from .base import *

craises = fn('cond_raises', I, V, B)
ctrue = fn('cond_true', I, V, B)


def call_cond(E, t, args, kwargs):
    """a condition of the handler list: returns something, or raises an Exception"""
    if not (z3.is_app(t) and t.decl().name() == 'cond_at'):
        return SENTINEL
    if len(args) != 1 or kwargs:
        E.raise_py(TypeError, 'condition arguments')
    i = t.arg(0)
    tt = E.term(E.force(args[0]))
    if E.branch(craises(i, tt)):
        x = E.new_sym_exc('condexc', Exception)
        E.put(x, **{'#cond': (i, tt)})
        raise Raise(x)
    r = fn('cond_result', I, V, V)(i, tt)
    E.assume(truthy(r) == ctrue(i, tt))
    return SV(r)


def v_load(E):
    E.contracts[('typedload.dataloader', 'Loader.index')] = contract_index
    l = make_loader(E)
    v = z3.Const('value', V)
    T = z3.Const('T', V)
    E.assume(hashable(T))
    ann = z3.Const('annotation', V)
    given = E.choose(2) == 0
    kw = {'annotation': SV(ann)} if given else {}
    kind, r = run_function(E, E.class_attr(dataloader.Loader, 'load'), [l, SV(v), SV(T)], kw)
    if kind == 'normal':
        E.oblige('load: what the handler of the type returns', z3.And(supported(key(T)), ok(v, T), E.term(r) == res(v, T)), ('C01', 'C14', 'C13'))
        return 'normal'
    oblige_exc(E, r, 'load')
    of = exc_of(E, r)
    if of is None:
        E.oblige('load: a supported type is dispatched to its handler', z3.Not(supported(key(T))), ('C14',))
        oblige_exc(E, r, 'load of an unsupported type', TTE, ('C14', 'C02'))
        exc_fields(E, r, 'load', SV(v), SV(T))
        return 'raise-unsupported'
    E.oblige('load: fails as the handler does', z3.And(of[0] == v, of[1] == T, z3.Not(ok(v, T))), ('C14', 'C01'))
    pre, rest = trace_parts(E, r)
    E.oblige('load: one trace item is added', len(pre) == 1, ('C03',))
    E.oblige('load: the trace of the handler is kept', len(rest) == 1 and isinstance(rest[0], Seq) and bool(rest[0].tag) and rest[0].tag[0] == 'trace', ('C03',))
    it = E.force(pre[0])
    if not (isinstance(it, TupV) and it.cls is TraceItem):
        E.oblige('load: trace item', False, ('C03',))
    a, b, c = it.concrete()
    E.oblige('load: trace item holds value, type and annotation',
             E.f_and([E.is_f(a, SV(v)), E.is_f(b, SV(T)), E.is_f(c, SV(ann) if given else NONE)]), ('C03',))
    return 'raise'


def v_index(E):
    l = make_loader(E)
    T = z3.Const('T', V)
    E.assume(hashable(T))
    FR = z3.Const('frefs', V)
    name = attr('__name__', T)
    assume_str(E, name)
    E.declare_map(FR)
    en = E.choose(2) == 0
    d = E.new_dict((('map', FR),))
    E.put(l, frefs=d if en else NONE)
    E.sv_calls.append(call_cond)
    try:
        kind, r = run_function(E, E.class_attr(dataloader.Loader, 'index'), [l, SV(T)])
    finally:
        E.sv_calls.remove(call_cond)
    n = z3.Int('n_handlers')
    rce = z3.Bool('opt_raiseconditionerrors')
    layers = E.obj(d).d['layers']
    o = E.obj(l).d['frefs']
    if en:
        E.oblige('index: frefs stays the same dictionary', isinstance(o, Ref) and o.a == d.a, ('C15', 'C12'))
    else:
        E.oblige('index: disabled forward references stay disabled', E.is_f(o, NONE), ('C15',))
    kk = E.fresh('k', K)
    h0 = mhas(FR, kk)
    h1 = tob(E.layers_has(layers, kk))
    matched = kind == 'normal'
    E.oblige('index: known names stay known', z3.Implies(h0, h1), ('C15',))
    reg = z3.And(z3.BoolVal(en and matched), has('__name__', T), kk == key(name))
    E.oblige('index: registers the name of the type it matched, and nothing else', z3.Implies(h1, z3.Or(h0, reg)), ('C15', 'C13'))
    E.oblige('index: registers the name of the type it matched', z3.Implies(reg, h1), ('C15', 'C13'))
    if E.choose(2) == 0:
        E.assume(h1)
        x = E.term(E.force(E.layers_get(layers, kk)))
        E.oblige('index: a name that is known is never overwritten', z3.Implies(h0, x == mget(FR, kk)), ('C15',))
        E.oblige('index: the name is registered for the type itself', z3.Implies(z3.Not(h0), x == T), ('C15', 'C13'))
        raise PathDead()
    if kind == 'normal':
        i = E.intval(r)
        i = i if isinstance(i, z3.ExprRef) else z3.IntVal(i)
        E.oblige('index: is the position of a handler whose condition is true', z3.And(i >= 0, i < n, z3.Not(craises(i, T)), ctrue(i, T)), ('C14',))
        j = E.skolem('j', 0, i)
        E.inst_all(j)
        E.inst_foralls(j)
        E.oblige('index: no condition before it is true', z3.Or(craises(j, T), z3.Not(ctrue(j, T))), ('C14',))
        E.oblige('index: no condition before it raised, unless those count as false', z3.Or(z3.Not(rce), z3.Not(craises(j, T))), ('C14',))
        return 'normal'
    cnd = E.obj(r).d.get('#cond')
    if cnd is not None:
        i = cnd[0]
        E.oblige('index: the error of a condition is propagated only with raiseconditionerrors', z3.And(rce, cnd[1] == T), ('C14',))
        j = E.skolem('j', 0, i)
        E.inst_all(j)
        E.oblige('index: ... and no condition before it is true', z3.Not(z3.And(z3.Not(craises(j, T)), ctrue(j, T))), ('C14',))
        return 'raise-condition'
    oblige_exc(E, r, 'index without a match', ValueError, ('C14',))
    j = E.skolem('j', 0, n)
    E.inst_all(j)
    E.inst_foralls(j)
    E.oblige('index: ValueError only if no condition is true', z3.Or(craises(j, T), z3.Not(ctrue(j, T))), ('C14',))
    E.oblige('index: ... and none raised, unless those count as false', z3.Or(z3.Not(rce), z3.Not(craises(j, T))), ('C14',))
    return 'raise'


ALL = [
    ('Loader.load', v_load, ('normal', 'raise', 'raise-unsupported')),
    ('Loader.index', v_index, ('normal', 'raise', 'raise-condition')),
]

if __name__ == '__main__':
    main(ALL)
