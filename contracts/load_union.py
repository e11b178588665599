"""Contracts of the loader of unions and of what it uses (C04 C01 C02 C03 C08 C13 C14 C19)."""
from .base import *
from .load_kinds import is_dict, need, bound

U = ('C04', 'C01')
DL = fn('DL', V, V)             # discriminatorliterals(t): field name -> set of the values of its Literal
smem = fn('smem', V, K, B)


def setlike(E, t):
    d = dict(E.st.ghost.get('#setlike', {}))
    if t.get_id() not in d:
        d[t.get_id()] = t
        E.st.ghost['#setlike'] = d


def contract_discriminatorliterals(E, args, kwargs):
    d = bound(typechecks.discriminatorliterals, args, kwargs, ['type_'])
    t = E.term(E.force(d['type_']))
    return E.new_dict((('map', DL(t)),))


def discriminators(E):
    """What discriminatorliterals returns: a dictionary of sets"""
    E.contracts[('typedload.typechecks', 'discriminatorliterals')] = contract_discriminatorliterals
    E.map_decls.add('DL')
    t, k, i, s = z3.Const('qt', V), z3.Const('qk', K), z3.Int('qi'), z3.Const('qs', V)
    m = DL(t)
    E.assume(z3.ForAll([t], z3.And(mn(m) >= 0, truthy(m) == (mn(m) > 0), fn('has_keys', V, B)(m), fn('has_get', V, B)(m), fn('has_items', V, B)(m)), patterns=[m]))
    E.assume(z3.ForAll([t, k], z3.Implies(mhas(m, k), z3.And(midx(m, k) >= 0, midx(m, k) < mn(m), key(mkey(m, midx(m, k))) == k)), patterns=[mhas(m, k)]))
    E.assume(z3.ForAll([t, i], z3.Implies(z3.And(i >= 0, i < mn(m)), z3.And(mhas(m, key(mkey(m, i))), midx(m, key(mkey(m, i))) == i,
            hashable(mkey(m, i)), isinst(mkey(m, i), E.const(str)))), patterns=[mkey(m, i)]))
    ix = fn('sidx', V, K, I)
    s = mget(m, k)
    k2 = z3.Const('qk2', K)
    E.assume(z3.ForAll([t, k], z3.And(it_n(s) >= 0, fn('iterable', V, B)(s)), patterns=[s]))
    E.assume(z3.ForAll([t, k, k2], z3.Implies(smem(s, k2), z3.And(ix(s, k2) >= 0, ix(s, k2) < it_n(s), key(it_el(s, ix(s, k2))) == k2)), patterns=[smem(s, k2)]))
    E.assume(z3.ForAll([t, k, i], z3.Implies(z3.And(i >= 0, i < it_n(s)), z3.And(smem(s, key(it_el(s, i))), hashable(it_el(s, i)))), patterns=[it_el(s, i)]))


def lit(t, f, k):
    """k is a value of the Literal of field f of t"""
    return z3.And(mhas(DL(t), f), smem(mget(DL(t), f), k))


def v_union(E, part):
    """part: which of the executions (together they are all)"""
    l, v, T = std(E)
    discriminators(E)
    f = handler_for(E, l, typing.Union[int, typing.List[int]])
    # comparing the tag with another one can fail
    E.uncomparable = lambda t: z3.is_app(t) and t.decl().name() in ('mget', 'get_res') and t.arg(0).eq(v)
    UA = attr('__args__', T)
    E.declare_seq(UA)
    args_facts(E, T, UA)
    n = it_n(UA)
    arg = lambda i: it_el(UA, i)
    i, x, t, k, k2 = z3.Int('qi'), z3.Const('qv', V), z3.Const('qt', V), z3.Const('qk', K), z3.Const('qk2', K)
    aidx = fn('argidx', K, I)
    E.note('the alternatives of a union are distinct')
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), aidx(key(arg(i))) == i), patterns=[arg(i)]))
    E.assume(n >= 1)
    E.assume(hashable(UA))
    E.assume(z3.ForAll([x, t], z3.Implies(ok(x, t), supported(key(t))), patterns=[ok(x, t)]))
    E.note('types having Literal fields are classes, which are equal only to themselves')
    isarg = lambda kk: z3.And(aidx(kk) >= 0, aidx(kk) < n, key(arg(aidx(kk))) == kk)

    def cached(F, D):
        """the invariant of the entries of the cache, for the union"""
        is_dict(E, D)
        E.st.ghost['#disc'] = (SV(F), D)
        E.assume(hashable(F))
        tk = mget(D, k)
        E.assume(z3.ForAll([k], z3.Implies(mhas(D, k), z3.And(tk == arg(aidx(key(tk))), isarg(key(tk)), lit(tk, key(F), k), truthy(tk), hashable(tk))), patterns=[mget(D, k)]))
        E.assume(z3.ForAll([i, k], z3.Implies(z3.And(i >= 0, i < n, lit(arg(i), key(F), k)), mhas(D, k)), patterns=[z3.MultiPattern(arg(i), mhas(D, k))]))

    def cache_look(E, c, kv, b):
        E.oblige('discriminator cache: looked up by the alternatives', E.keyof(kv) == key(UA), ('C13',))
        if part == 'plain' or E.branch(b) == (part == 'first'):
            raise PathDead()
        E.st.ghost['#cut'] = (E.st.pc, E.st.ghost.get('#loops', ()), E.st.ghost.get('#insts', ()))

    def cache_val(E, c, kv, stored):
        if stored:
            return E.st.ghost['#stored']
        if E.choose(2) == 0:
            return TupV.of(NONE, NONE)
        F, D = z3.Const('cached_field', V), z3.Const('cached_map', V)
        cached(F, D)
        dd = E.new_dict((('map', D),))
        o = E.obj(dd)
        E.st.heap[dd.a] = Obj(o.kind, {**o.d, '#name': 'the discriminator cache'}, None, False)
        return TupV.of(SV(F), dd)

    def cut(ref=None):
        """forget how the entry was computed: only the invariant is known from here"""
        pc, loops, insts = E.st.ghost['#cut']
        E.st.pc = pc
        E.st.ghost['#loops'] = loops
        E.st.ghost['#insts'] = insts
        E.st.ghost.pop('#reduced', None)
        if ref is not None:
            F, D = E.term(ref[0]), z3.Const('cached_map', V)
            cached(F, D)
            o = E.obj(ref[1])
            E.st.heap[ref[1].a] = Obj(o.kind, {'layers': (('map', D),), '#name': 'the discriminator cache'}, None, False)

    def cache_set(E, c, kk, val):
        E.oblige('discriminator cache: stored by the alternatives', E.hkey(kk) == key(UA), ('C13',))
        val = E.force(val)
        items = val.concrete() if isinstance(val, TupV) else None
        need(items is not None and len(items) == 2, 'layout of the discriminator cache')
        F, D = [E.force(q) for q in items]
        if isinstance(D, PyC) and D.obj is None:
            if E.choose(2) == 0:
                cut()
                E.st.ghost['#stored'] = val
                return
            sh = E.fresh('f', K)
            for R, q, kq, ff in E.st.ghost.get('#reduced', ()):
                mention(E, R(sh))
            E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), mhas(DL(arg(i)), sh)), patterns=[arg(i)]))
            E.oblige('discriminator cache: no tags only if the alternatives have no tag in common', False, ('C04', 'C13'))
        need(isinstance(D, Ref) and E.obj(D).kind == 'dict', 'layout of the discriminator cache')
        o = E.obj(D)
        layers = o.d['layers']
        ft = key(E.term(F))
        c = E.choose(4)
        if c == 0:
            cut((F, D))
            E.st.ghost['#stored'] = val
            return
        if c == 1:
            E.oblige('discriminator cache: the field is hashable', hashable(E.term(F)), ('C04', 'C13'))
            raise PathDead()
        kv = E.fresh('k', K)
        if c == 2:
            E.assume(tob(E.layers_has(layers, kv)))
            tv = E.term(E.force(E.layers_get(layers, kv)))
            mention(E, aidx(key(tv)), arg(aidx(key(tv))))
            E.inst_all(aidx(key(tv)))
            E.oblige('discriminator cache: a tag leads to an alternative having that tag', z3.And(isarg(key(tv)), tv == arg(aidx(key(tv))), hashable(tv), truthy(tv), lit(tv, ft, kv)), ('C04', 'C13'))
        else:
            j = E.skolem('j', 0, n)
            mention(E, arg(j))
            E.assume(lit(arg(j), ft, kv))
            E.inst_all(j)
            E.oblige('discriminator cache: every tag of every alternative is known', tob(E.layers_has(layers, kv)), ('C04', 'C13'))
        raise PathDead()
    E.put(l, _unionload_discriminatorcache=cache_obj(E, '_unionload_discriminatorcache', cache_look, cache_val, cache_set))
    kind, r = run_function(E, f, [l, SV(v), SV(T)])
    if part != 'plain' and '#cut' not in E.st.ghost:
        raise PathDead()
    dbg = z3.Bool('opt_uniondebugconflict')
    exact = z3.And(basic(key(typeof(v))), isarg(key(typeof(v))))
    mention(E, arg(aidx(key(typeof(v)))))
    if kind == 'normal':
        rt = E.term(r)
        if E.branch(exact):
            E.oblige('union: a value whose exact type is a basic alternative is returned as it is', rt == v, U + ('C08',))
            return 'normal-basic'
        need(z3.is_app(rt), 'result')
        if not (rt.decl().name() == 'res' and rt.arg(0).eq(v)):
            E.oblige('union: the result is what loading the value as an alternative gives', False, U, detail='RESULT %s' % rt)
        w = rt.arg(1)
        trial_inst(E, key(w), aidx)
        mention(E, arg(aidx(key(w))))
        c = E.choose(4)
        if c == 0:
            E.oblige('union: the result is what loading the value as an alternative gives', z3.And(isarg(key(w)), ok(v, w)), U + ('C14',))
            return 'normal'
        j = E.skolem('j', 0, n)
        mention(E, arg(j))
        trial_inst(E, key(arg(j)), aidx)
        if c == 1:
            E.oblige('union: with uniondebugconflict a single alternative accepts the value', z3.Implies(z3.And(dbg, ok(v, arg(j))), key(arg(j)) == key(w)), ('C04',))
            return 'normal'
        if c == 2:
            E.note('basic types have no fields')
            E.assume(z3.ForAll([t, k], z3.Implies(basic(key(t)), z3.Not(mhas(DL(t), k))), patterns=[mhas(DL(t), k)]))
            E.oblige('union: basic types are tried after the others', z3.Implies(z3.And(z3.Not(dbg), basic(key(w)), z3.Not(basic(key(arg(j))))), z3.Not(ok(v, arg(j)))), ('C04',))
            return 'normal'
        d = E.st.ghost.get('#disc')
        if d is None or not E.known_map(v):
            return 'normal'
        F = key(E.term(d[0]))
        tag = key(mget(v, F))
        E.assume(z3.And(mhas(v, F), hashable(mget(v, F)), fn('comparable', K, B)(tag), lit(arg(j), F, tag), ok(v, arg(j)), z3.Not(dbg)))
        j2 = aidx(key(w))
        E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, i != j), z3.Not(lit(arg(i), F, tag))), patterns=[arg(i)]))
        E.oblige('union: a tagged object is loaded as the alternative with that tag', key(w) == key(arg(j)), ('C04',))
        return 'normal-tag'
    oblige_exc(E, r, 'union')
    E.oblige('union: a value whose exact type is a basic alternative is accepted', z3.Not(exact), U + ('C08',))
    loops = E.st.ghost.get('#loops', ())
    need(loops, 'no loop over the alternatives')
    lr, J = loops[-1]
    if E.branch(tob(E.isinstance_f(r, PyC(TTE)))):
        cs = [c for c in lr.cells.values() if c.get('cntf') is not None and c['kind'] in ('cnt', 'app')]
        alts = []
        for c in cs:
            w1 = E.cnt_change(lr, c, J, 'w1')
            w2 = E.cnt_change(lr, c, w1, 'w2')
            for p in success(lr):
                for q in success(lr):
                    at = lambda f, x: z3.substitute(f, (lr.J, x))
                    tp, tq = at(p[1], w1), at(q[1], w2)
                    mention(E, aidx(key(tp)), aidx(key(tq)))
                    alts.append(z3.And(at(p[0], w1), at(q[0], w2), ok(v, tp), ok(v, tq), isarg(key(tp)), isarg(key(tq)), key(tp) != key(tq)))
        E.oblige('union: conflicts only with uniondebugconflict and if two alternatives accept the value', z3.And(dbg, z3.Or(*alts) if alts else False), ('C04',))
        exc_fields(E, r, 'union', SV(v), SV(T))
        return 'raise-conflict'
    E.oblige('union: raises TypedloadValueError', class_is(E, r, TVE), ('C04', 'C02'))
    exc_fields(E, r, 'union', SV(v), SV(T))
    ex = E.getattr(r, 'exceptions', SENTINEL)
    if ex is SENTINEL:
        E.oblige('union: has sub-exceptions', False, ('C19', 'C04'))
    segs = E.as_segs(ex)
    m = E.segs_len(segs)
    c = E.choose(3)
    if c == 0:
        one_each(E, v, T, segs, m, n, arg, aidx)
        return 'raise'
    if c == 1:
        j = E.skolem('j', 0, n)
        mention(E, arg(j))
        trial_inst(E, key(arg(j)), aidx)
        E.oblige('union: fails only if every alternative fails', z3.Not(ok(v, arg(j))), U)
        return 'raise'
    q = E.skolem('i', 0, m)
    e = E.force(E.segs_get(segs, q))
    if not isinstance(e, Ref):
        E.oblige('union: every sub-exception is a typedload exception', E.isinst_term(E.term(e), TE), ('C19', 'C04', 'C02'))
    E.oblige('union: every sub-exception is a typedload exception', is_typedload(E, e), ('C19', 'C04', 'C02'))

    def leads(av):
        return z3.And(isarg(E.keyof(av)), z3.Not(ok(v, E.term(av))))
    if not check_component_exc(E, e, SV(v), SV(T), AT.UNION, leads, 'union alternative'):
        pre, rest = trace_parts(E, e)
        E.oblige('union alternative: one trace item', pre is not None and len(pre) == 1 and not rest, ('C03',))
        check_trace_item(E, pre[0], SV(v), SV(T), AT.UNION, leads, 'union alternative')
    return 'raise-sub'


def one_each(E, v, T, segs, m, n, arg, aidx):
    """the sub-exceptions are about the alternatives, one each"""
    what = 'union: one sub-exception per alternative'
    tags = ('C19', 'C04')
    if E.proves(m == n):
        E.oblige(what, m == n, tags)
        return

    def alternative(q):
        e = E.force(E.segs_get(segs, q))
        if not isinstance(e, Ref):
            return None
        pre, rest = trace_parts(E, e)
        if not pre or not isinstance(pre[0], TupV):
            return None
        a = E.force(pre[0].concrete()[2])
        return E.keyof(E.force(a.concrete()[1])) if isinstance(a, TupV) and len(a.concrete()) == 2 else None
    if E.choose(2) == 0:
        j = E.skolem('j', 0, n)
        mention(E, arg(j))
        trial_inst(E, key(arg(j)), aidx)
        for q in E.positions(segs, j):
            if E.branch(z3.And(q >= 0, q < m)):
                a = alternative(q)
                need(a is not None, 'trace of a sub-exception')
                if E.branch(a == key(arg(j))):
                    E.oblige(what, True, tags)
                    return
        E.oblige(what, False, tags)
        return
    q1 = E.skolem('i', 0, m)
    q2 = E.skolem('i', 0, m)
    E.assume(q1 < q2)
    a1, a2 = alternative(q1), alternative(q2)
    need(a1 is not None and a2 is not None, 'trace of a sub-exception')
    mention(E, arg(aidx(a1)), arg(aidx(a2)))
    E.oblige(what, a1 != a2, tags)


def trial_inst(E, kk, aidx):
    """instantiate the last loop at the position of an alternative in the order of the trials"""
    loops = E.st.ghost.get('#loops', ())
    if not loops:
        return
    lr, J = loops[-1]
    cands = E.positions(lr.srcsegs, aidx(kk))
    for c in cands:
        E.inst(lr, J, c)
        E.inst_foralls(c)


def success(lr):
    """(condition, alternative) of the paths of the loop on which an alternative accepts the value"""
    out = []
    for p, o in enumerate(lr.normal):
        calls = o.st.ghost.get('#hcalls', ())
        if calls:
            out.append((lr.cond(p), calls[-1][1]))
    return out


_ALL = ('normal', 'normal-tag', 'raise', 'raise-conflict', 'raise-sub')
ALL = [
    ('load union', lambda E: v_union(E, 'plain'), ('normal', 'normal-basic', 'raise', 'raise-conflict', 'raise-sub')),
    ('load union, first use of the discriminators', lambda E: v_union(E, 'first'), _ALL),
    ('load union, later uses of the discriminators', lambda E: v_union(E, 'cached'), _ALL),
]

if __name__ == '__main__':
    main(ALL)
