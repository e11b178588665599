"""Contracts of the handlers of the types that are not containers (C01 C02 C08 C15 C17 C20)."""
from .base import *


def env_raise(E, x):
    """an exception of the environment escaped"""
    return E.obj(x).d.get('#envcls')


def done_exc(E, r, what, v, T, cls=TE):
    oblige_exc(E, r, what, cls)
    exc_fields(E, r, what, SV(v), SV(T))
    return 'raise'


def v_basic(E):
    l, v, T = std(E)
    f = handler_for(E, l, int)
    E.assume(basic(key(T)))
    E.isinst_rel(v, T)
    declare_ctor(E, T, [Exception])
    E.note('calling a basic type or a strconstructed type returns an instance of it, or raises an Exception')
    kind, r = run_function(E, f, [l, SV(v), SV(T)])
    okc, con = op_term('con1', T, v)
    same = key(typeof(v)) == key(T)
    bc = z3.Bool('opt_basiccast')
    if kind == 'normal':
        rt = E.term(r)
        E.oblige('basic: a value of exactly that type is returned unchanged', z3.Implies(same, rt == v), ('C08', 'C01'))
        E.oblige('basic: without basiccast nothing else is accepted', z3.Or(same, bc), ('C08',))
        E.oblige('basic: with basiccast the result is what the type constructs', z3.Or(same, z3.And(okc, rt == con)), ('C08',))
        E.oblige('basic: the result is an instance of the type', isinst(rt, T), ('C01', 'C08'))
        return 'normal'
    E.oblige('basic: a value of exactly that type is never rejected', z3.Not(same), ('C08', 'C16'))
    E.oblige('basic: with basiccast it is rejected only if the type does', z3.Or(z3.Not(bc), z3.Not(okc)), ('C08',))
    return done_exc(E, r, 'basic', v, T)


def v_literal(E):
    l, v, T = std(E)
    f = handler_for(E, l, typing.Literal[1, 2])
    A = attr('__args__', T)
    E.declare_seq(A)
    # comparing the value with another one can fail (a signaling NaN, an array)
    comparable = fn('comparable', K, B)(key(v))
    E.uncomparable = lambda t: t.eq(v)
    kind, r = run_function(E, f, [l, SV(v), SV(T)])
    isin = E.inseq_f(A, key(v))
    if kind == 'normal':
        E.oblige('literal: only listed values are accepted', isin, ('C17', 'C01'))
        E.oblige('literal: the value itself is returned', E.term(r) == v, ('C17',))
        return 'normal'
    E.oblige('literal: every listed value is accepted', z3.Not(z3.And(isin, comparable)), ('C17',))
    return done_exc(E, r, 'literal', v, T, TVE)


def v_none(E):
    l, v, T = std(E)
    f = handler_for(E, l, type(None))
    kind, r = run_function(E, f, [l, SV(v), SV(T)])
    isnone = v == E.const(None)
    if kind == 'normal':
        E.oblige('none: only None is accepted', isnone, ('C17', 'C01'))
        E.oblige('none: None is returned', E.is_f(r, NONE), ('C17', 'C01'))
        return 'normal'
    E.oblige('none: None is accepted', z3.Not(isnone), ('C17',))
    return done_exc(E, r, 'none', v, T, TVE)


def v_any(E):
    l, v, T = std(E)
    f = handler_for(E, l, typing.Any)
    kind, r = run_function(E, f, [l, SV(v), SV(T)])
    E.oblige('any: never fails', kind == 'normal', ('C17', 'C02'))
    E.oblige('any: the very same object is returned', E.is_f(r, SV(v)), ('C17', 'C01'))
    return 'normal'


def v_newtype(E):
    l, v, T = std(E)
    f = handler_for(E, l, typing.NewType('NT', int))
    S = attr('__supertype__', T)
    E.assume(z3.And(has('__supertype__', T), hashable(S)))
    kind, r = run_function(E, f, [l, SV(v), SV(T)])
    if kind == 'normal':
        E.oblige('newtype: loads as its supertype', z3.And(ok(v, S), E.term(r) == res(v, S)), ('C17', 'C01', 'C14'))
        return 'normal'
    oblige_exc(E, r, 'newtype')
    of = exc_of(E, r)
    if of is None:
        E.oblige('newtype: fails only as its supertype does', False, ('C17',))
    E.oblige('newtype: fails only as its supertype does', z3.And(of[0] == v, of[1] == S, z3.Or(z3.Not(ok(v, S)), z3.Not(supported(key(S))))), ('C17',))
    return 'raise'


def v_forwardref(E):
    l, v, T = std(E)
    f = handler_for(E, l, typing.ForwardRef('X'))
    name = attr('__forward_arg__', T)
    E.assume(has('__forward_arg__', T))
    assume_str(E, name)
    FR = z3.Const('frefs', V)
    E.declare_map(FR)
    kk = z3.Const('qk', K)
    E.assume(z3.ForAll([kk], hashable(mget(FR, kk)), patterns=[mget(FR, kk)]))
    en = E.choose(2) == 0
    if en:
        d = E.new_dict((('map', FR),))
        E.st.heap[d.a] = Obj('dict', {**E.obj(d).d, '#name': 'frefs'}, None, False)
        E.put(l, frefs=d)
    else:
        E.put(l, frefs=NONE)
    kind, r = run_function(E, f, [l, SV(v), SV(T)])
    known = mhas(FR, key(name))
    t = mget(FR, key(name))
    if kind == 'normal':
        E.oblige('forwardref: fails when forward references are disabled', en, ('C15',))
        E.oblige('forwardref: loads as the type known under that name', z3.And(known, ok(v, t), E.term(r) == res(v, t)), ('C15', 'C01', 'C14'))
        return 'normal'
    if not en:
        return done_exc(E, r, 'forwardref', v, T)
    of = exc_of(E, r)
    if of is not None:
        oblige_exc(E, r, 'forwardref')
        E.oblige('forwardref: fails as the type known under that name', z3.And(known, of[0] == v, of[1] == t), ('C15',))
        E.oblige('forwardref: the error is that of the type', z3.Or(z3.Not(ok(v, t)), z3.Not(supported(key(t)))), ('C15',))
        if not E.obj(r).d.get('#unsupported'):
            check_component_exc(E, r, SV(v), SV(t), AT.FORWARDREF, lambda av: E.eq_f(av, SV(name)), 'forwardref')
        return 'raise-inner'
    E.oblige('forwardref: a known name resolves', z3.Or(z3.Not(known), t == E.const(None)), ('C15',))
    return done_exc(E, r, 'forwardref', v, T, TVE)


def v_datetime(E):
    l, v, T = std(E)
    f = handler_for(E, l, datetime.datetime)
    excs = [TypeError, ValueError, OverflowError]
    E.note('date, time, datetime and timedelta constructors and fromisoformat raise only TypeError, ValueError or OverflowError')
    declare_ctor(E, T, excs)
    E.assume(has('fromisoformat', T))
    E.sv_methods['fromisoformat'] = lambda E, t: PB.BI('fromisoformat', lambda E, a, k: env_op(E, 'fromisoformat', [t, E.term(E.force(a[0]))], excs, lambda E, r: E.assume(isinst(r, t))))
    kind, r = run_function(E, f, [l, SV(v), SV(T)])
    ist = E.isinst_term(v, str)
    ok1, r1 = op_term('fromisoformat', T, v)
    ok2, r2 = op_term('starcon', T, v)
    if kind == 'normal':
        rt = E.term(r)
        E.oblige('datetime: a string loads as fromisoformat does', z3.Implies(ist, z3.And(ok1, rt == r1)), ('C20',))
        E.oblige('datetime: a sequence loads as the constructor does', z3.Implies(z3.Not(ist), z3.And(ok2, rt == r2)), ('C20',))
        E.oblige('datetime: the result is an instance', isinst(rt, T), ('C01', 'C20'))
        return 'normal'
    E.oblige('datetime: fails only if the conversion fails', z3.If(ist, z3.Not(ok1), z3.Or(z3.Not(ok2), z3.Not(iterable(v)))), ('C20',))
    return done_exc(E, r, 'datetime', v, T)


def v_timedelta(E):
    l, v, T = std(E)
    f = handler_for(E, l, datetime.timedelta)
    declare_ctor(E, T, [TypeError, ValueError, OverflowError])

    def by_position(E, args, kwargs):
        # the signature is (days=0, seconds=0, ...)
        names = ['days', 'seconds']
        if len(args) > 2 or set(kwargs) - set(names[len(args):]) or 'seconds' not in kwargs:
            return args, kwargs
        a = list(args) + [kwargs.get(q, PyC(0)) for q in names[len(args):]]
        return a, {}
    E.st.ghost['#ctorargs'] = by_position
    kind, r = run_function(E, f, [l, SV(v), SV(T)])
    okc, con = op_term('con2', T, E.const(0), v)
    if kind == 'normal':
        rt = E.term(r)
        E.oblige('timedelta: zero days and that number of seconds', z3.And(okc, rt == con), ('C20',))
        E.oblige('timedelta: the result is an instance', isinst(rt, T), ('C01', 'C20'))
        return 'normal'
    E.oblige('timedelta: fails only if the constructor does', z3.Not(okc), ('C20',))
    return done_exc(E, r, 'timedelta', v, T)


def v_strconstructed(E):
    import uuid
    l, v, T = std(E)
    f = handler_for(E, l, uuid.UUID)
    declare_ctor(E, T, [Exception])
    kind, r = run_function(E, f, [l, SV(v), SV(T)])
    okc, con = op_term('con1', T, v)
    if kind == 'normal':
        rt = E.term(r)
        E.oblige('strconstructed: what the constructor makes of the value', z3.And(okc, rt == con), ('C20',))
        E.oblige('strconstructed: the result is an instance', isinst(rt, T), ('C01', 'C20'))
        return 'normal'
    E.oblige('strconstructed: fails only if the constructor does', z3.Not(okc), ('C20',))
    return done_exc(E, r, 'strconstructed', v, T)


def v_pattern(E):
    import re
    l, v, T = std(E)
    f = handler_for(E, l, typing.Pattern)
    A = attr('__args__', T)
    E.declare_seq(A)
    E.assume(it_n(A) == 1)
    E.note('re.compile(x) returns a Pattern or raises re.error, OverflowError, RecursionError or TypeError')
    E.table[re.compile] = lambda E, a, k: env_op(E, 're_compile', [E.term(E.force(x)) for x in a], [re.error, OverflowError, RecursionError, TypeError],
                                                   lambda E, r: E.assume(isinst(r, E.const(re.Pattern))))
    kind, r = run_function(E, f, [l, SV(v), SV(T)])
    okc, con = op_term('re_compile', v)
    I0 = it_el(A, z3.IntVal(0))
    bad = z3.And(has('__args__', T), z3.Or(key(I0) == key(E.const(str)), key(I0) == key(E.const(bytes))), key(typeof(v)) != key(I0))
    if kind == 'normal':
        rt = E.term(r)
        E.oblige('pattern: the compiled pattern', z3.And(okc, rt == con), ('C20',))
        E.oblige('pattern: Pattern[str] and Pattern[bytes] accept only that type', z3.Not(bad), ('C20', 'C01'))
        E.oblige('pattern: the result is a pattern', isinst(rt, E.const(re.Pattern)), ('C01', 'C20'))
        return 'normal'
    E.oblige('pattern: fails only if it does not compile or is of the wrong type', z3.Or(z3.Not(okc), bad), ('C20',))
    return done_exc(E, r, 'pattern', v, T)


def hints_contract(E, args, kwargs):
    """typing.get_type_hints(t): a dictionary"""
    t = E.term(E.force(args[0]))
    m = fn('hints', V, V)(t)
    E.note('typing.get_type_hints() does not raise (the annotations of the supported types can be resolved)')
    E.declare_map(m)
    k = z3.Const('qk', K)
    E.assume(z3.ForAll([k], hashable(mget(m, k)), patterns=[mget(m, k)]))
    return E.new_dict((('map', m),))


def v_enum(E):
    import enum
    l, v, T = std(E)
    f = handler_for(E, l, enum.Enum('E', 'a b'))
    declare_ctor(E, T, [Exception])
    E.note('an Enum called with a value returns the member that has that value, or raises an Exception')
    E.table[typing.get_type_hints] = hints_contract
    M = attr('__members__', T)
    E.assume(has('__members__', T))
    E.declare_map(M)
    E.assume(z3.ForAll([z3.Const('qk', K)], has('value', mget(M, z3.Const('qk', K))), patterns=[mget(M, z3.Const('qk', K))]))
    for nm in ('keys', 'items', 'values'):
        E.assume(has(nm, M))
    kind, r = run_function(E, f, [l, SV(v), SV(T)])
    H = fn('hints', V, V)(T)
    okc, con = op_term('con1', T, v)

    def hint(i):
        t = mget(H, key(mkey(H, i)))
        return t, ok(v, t), op_term('con1', T, res(v, t))
    if kind == 'normal':
        rt = E.term(r)
        loops = E.st.ghost.get('#loops', ())
        alts = [z3.And(okc, rt == con)]
        for lr, J in loops:
            t, o, (o2, c2) = hint(J)
            alts.append(z3.And(z3.Not(okc), J >= 0, J < mn(H), o, o2, rt == c2))
        E.oblige('enum: the member for the value, or for the value loaded as an annotated type', z3.Or(*alts), ('C17', 'C01'))
        E.oblige('enum: the result is a member', isinst(rt, T), ('C01', 'C17'))
        return 'normal'
    E.oblige('enum: a value of a member is always accepted', z3.Not(okc), ('C17',))
    j = E.skolem('j', 0, mn(H))
    E.inst_all(j)
    E.inst_foralls(j)
    t, o, (o2, c2) = hint(j)
    E.oblige('enum: fails only if every annotated type fails', z3.Not(z3.And(o, o2)), ('C17',))
    oblige_subs(E, r, 'enum', mn(H))
    return done_exc(E, r, 'enum', v, T, TVE)


def oblige_subs(E, r, what, n):
    """.exceptions: n typedload exceptions"""
    ex = E.getattr(r, 'exceptions', SENTINEL)
    if ex is SENTINEL:
        E.oblige(what + ': has sub-exceptions', False, ('C19', 'C04'))
    segs = E.as_segs(ex)
    E.oblige(what + ': one sub-exception per alternative', E.segs_len(segs) == n, ('C19', 'C04'))
    if E.choose(2) == 0:
        return
    m = E.segs_len(segs)
    i = E.skolem('i', 0, m)
    x = E.force(E.segs_get(segs, i))
    E.inst_all(i)
    E.oblige(what + ': every sub-exception is a typedload exception',
             E.isinstance_f(x, PyC(TE)) if isinstance(x, Ref) else E.isinst_term(E.term(x), TE), ('C19', 'C04', 'C02'))
    raise PathDead()


ALL = [
    ('load basic', v_basic, ('normal', 'raise')),
    ('load literal', v_literal, ('normal', 'raise')),
    ('load none', v_none, ('normal', 'raise')),
    ('load any', v_any, ('normal',)),
    ('load newtype', v_newtype, ('normal', 'raise')),
    ('load forwardref', v_forwardref, ('normal', 'raise', 'raise-inner')),
    ('load datetime', v_datetime, ('normal', 'raise')),
    ('load timedelta', v_timedelta, ('normal', 'raise')),
    ('load strconstructed', v_strconstructed, ('normal', 'raise')),
    ('load pattern', v_pattern, ('normal', 'raise')),
    ('load enum', v_enum, ('normal', 'raise')),
]

if __name__ == '__main__':
    main(ALL)
