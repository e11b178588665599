"""
Contracts of the dumper and of its handlers (C07 C09 C10 C11 C12 C13 C14 C20).

  dh(k)            the handler of the first condition that holds for values of the type with key k
  dsupported(k)    there is one
  dok(v, t)        dump(v, t) returns
  dres(v, t)       ... what it returns
  dbasic(k)        t in dumper.basictypes
  plain(x)         x is made only of basic values, lists and dictionaries
  newdata(x)       no list or dictionary of x existed before the dump
  conf(x, t)       x conforms to the annotation t
"""
import inspect
from enum import Enum
from .base import *
from .load_kinds import is_dict, need, bound

dok = fn('dok', V, V, B)
dres = fn('dres', V, V, V)
dh = fn('dh', K, V)
dhe = fn('dhe', K, V)               # what is kept in the cache for the type: called with three arguments
dsupported = fn('dsupported', K, B)
didx = fn('didx', K, I)
dhdl_at = fn('dhdl_at', I, V)
dcond_at = fn('dcond_at', I, V)
dbasic = fn('dbasic', K, B)
plain = fn('plain', V, B)
newdata = fn('newdata', V, B)
conf = fn('conf', V, V, B)
nparams = fn('nparams', V, I)
ANY = typing.Any


def dump_facts(E):
    x, t = z3.Const('qx', V), z3.Const('qt', V)
    E.assume(z3.ForAll([x, t], z3.Implies(dok(x, t), z3.And(plain(dres(x, t)), newdata(dres(x, t)))), patterns=[dres(x, t)]))
    E.note('dump: the contract of dump (its result is plain and newly created data) is assumed for the parts of a value: induction on the value, which is finite')
    E.assume(z3.ForAll([x, t], z3.Implies(z3.And(conf(x, t), dbasic(key(t))), z3.And(plain(x), newdata(x), isinst(x, t))), patterns=[conf(x, t)]))
    for c in (int, bool, float, str, type(None)):
        E.assume(dbasic(key(E.const(c))))
    E.assume(z3.Not(dbasic(key(E.const(ANY)))))
    E.note('typing.Any is no basic type')
    E.assume(z3.ForAll([x], z3.Implies(dbasic(key(typeof(x))), z3.And(plain(x), newdata(x))), patterns=[typeof(x)]))


def signature_hook(E, v):
    v = E.force(v)
    if isinstance(v, SV):
        n = nparams(v.t)
        return E.alloc('inst', {'#cls': inspect.Signature, 'parameters': TupV([Seq(n, lambda E, i: SV(E.fresh('param')))])})
    raise Unsupported('signature')


def dcall(E, t, args, kwargs):
    """Contract of a dump handler: f(dumper, value, annotation) or f(dumper, value)"""
    if not (z3.is_app(t) and t.decl().name() in ('dh', 'dhe', 'dhdl_at')):
        return SENTINEL
    eff = t.decl().name() == 'dhe'
    if kwargs:
        E.raise_py(TypeError, 'handler arguments')
    if eff:
        if len(args) != 3:
            E.raise_py(TypeError, 'handler arguments')
    else:
        want = 2 if E.branch(nparams(t) == 2) else 3
        if len(args) != want:
            E.raise_py(TypeError, 'handler arguments')
    d, v = E.force(args[0]), E.force(args[1])
    ty = args[2] if len(args) == 3 else PyC(ANY)
    tv, tt = E.term(v), E.term(E.force(ty))
    D = E.st.ghost['#dumper']
    E.oblige('dump handler is given the dumper', isinstance(d, Ref) and d.a == D.a, ('C14',))
    E.oblige('dump handler called is the one of the value it is given', t == (dhe if eff else dh)(key(typeof(tv))), ('C14', 'C13', 'C09'))
    return dump_outcome(E, tv, tt, handler=True)


def dump_outcome(E, tv, tt, handler=False):
    E.st.ghost['#dcalls'] = E.st.ghost.get('#dcalls', ()) + ((tv, tt, handler),)
    if E.branch(dok(tv, tt)):
        r = dres(tv, tt)
        return SV(r)
    x = E.new_sym_exc('dumpexc', Exception)
    E.put(x, **{'#of0': SV(tv), '#of1': SV(tt)})
    raise Raise(x)


def contract_dump(E, args, kwargs):
    """Dumper.dump(value, annotated_type=Any)"""
    a = dict(zip(('self', 'value', 'annotated_type'), args))
    a.update(kwargs)
    if len(args) > 3 or set(a) - {'self', 'value', 'annotated_type'} or not {'self', 'value'} <= set(a):
        E.raise_py(TypeError, 'dump() arguments')
    d = E.force(a['self'])
    D = E.st.ghost['#dumper']
    E.oblige('dump() is called on the same dumper', isinstance(d, Ref) and d.a == D.a, ('C14',))
    v = E.force(a['value'])
    t = E.force(a.get('annotated_type', PyC(ANY)))
    tv, tt = E.term(v), E.term(t)
    return dump_outcome(E, tv, tt)


def contract_dindex(E, args, kwargs):
    a = bound(datadumper.Dumper.index, args, kwargs, ['self', 'value'])
    tv = E.term(E.force(a['value']))
    kk = key(typeof(tv))
    if E.branch(dsupported(kk)):
        i = didx(kk)
        E.assume(z3.And(i >= 0, i < z3.Int('n_dhandlers'), dhdl_at(i) == dh(kk)))
        return SInt(i)
    r = E.instantiate(TVE, [E.new_str('msg')], {'value': a['value'], 'type_': SV(typeof(tv))})
    E.put(r, **{'#unsupported': True})
    raise Raise(r)


def make_dumper(E, concrete_handlers=False):
    init = E.class_attr(datadumper.Dumper, '__init__')
    d = E.alloc('inst', {'#cls': datadumper.Dumper})
    E.call(init, [d])
    E.init_dhandlers = E.obj(d).d['handlers']
    for o in ('hidedefault', 'isodates', 'raiseconditionerrors'):
        E.put(d, **{o: SBool(z3.Bool('dopt_' + o))})
    mk = z3.Const('opt_mangle_key', V)
    E.assume(z3.And(isinst(mk, E.const(str)), hashable(mk)))
    E.put(d, mangle_key=SV(mk))
    bt = E.new_set((('pred', lambda kk: dbasic(kk)),))
    E.st.heap[bt.a] = Obj('set', {**E.obj(bt).d, '#name': 'basictypes'}, None, False)
    E.put(d, basictypes=bt)
    n = z3.Int('n_dhandlers')
    E.assume(n >= 1)
    hl = E.alloc('list', {'segs': (Seq(n, lambda E, i: TupV.of(SV(dcond_at(i)), SV(dhdl_at(i)))),), '#name': 'handlers'}, owned=False)
    if not concrete_handlers:
        E.put(d, handlers=hl)

    def val(E, c, k, stored):
        kk = E.keyof(k)
        E.assume(dsupported(kk))
        return SV(dhe(kk))

    def set_(E, c, k, v):
        kk = E.hkey(k)
        v = E.force(v)
        T = ('C13', 'C14')
        if isinstance(v, SV):
            E.oblige('dump handler cache: an entry is the handler of its own type', z3.And(v.t == dh(kk), nparams(v.t) != 2), T)
            return
        if E.choose(2) == 0:
            # from here it is only known to be what the invariant says
            return
        x, t = E.fresh('anyvalue'), E.fresh('anytype')
        E.assume(key(typeof(x)) == kk)
        n0 = len(E.st.ghost.get('#dcalls', ()))
        kind, r = run_function(E, v, [d, SV(x), SV(t)])
        calls = E.st.ghost.get('#dcalls', ())[n0:]
        E.oblige('dump handler cache: an entry calls the handler once', len(calls) == 1 and calls[0][2] and calls[0][0].eq(x), T)
        if kind == 'normal':
            E.oblige('dump handler cache: an entry returns what the handler returns', E.term(r) == dres(calls[0][0], calls[0][1]), T)
        else:
            of = exc_of(E, r)
            E.oblige('dump handler cache: an entry raises what the handler raises', of is not None, T)
        raise PathDead()

    def look(E, c, k, b):
        E.assume(z3.Implies(b, dsupported(E.keyof(k))))
    E.put(d, _handlerscache=cache_obj(E, '_handlerscache', look, val, set_))
    E.note('dumper: handler list and options are not changed after first use; a condition depends only on the type of the value')
    E.st.ghost['#dumper'] = d
    o = E.obj(d)
    E.st.heap[d.a] = Obj(o.kind, o.d, z3.Const('dumper', V), True)
    Verifier.signature_hook = signature_hook
    if dcall not in E.sv_calls:
        E.sv_calls.append(dcall)
    dump_facts(E)
    return d


def dhandlers_of(E):
    return [x.concrete() for x in E.concrete_segs(E.obj(E.init_dhandlers).d['segs'])]


def dstd(E, sample=None):
    """(dumper, value, annotation, condition, handler) for the kind of the sample"""
    E.contracts[('typedload.datadumper', 'Dumper.index')] = contract_dindex
    E.contracts[('typedload.datadumper', 'Dumper.dump')] = contract_dump
    d = make_dumper(E)
    v, t = z3.Const('value', V), z3.Const('annotation', V)
    if sample is None:
        return d, v, t
    i = datadumper.Dumper().index(sample)
    c, h = dhandlers_of(E)[i]
    return d, v, t, c, h


def run_cond(E, c, v):
    """the handler is only called on values for which the condition is true"""
    kind, r = run_function(E, c, [SV(v)])
    E.oblige('the condition of the handler does not raise', kind == 'normal', ('C14',))
    if not E.branch(E.truth_f(r)):
        raise PathDead()


def plain_result(E, what, r, tags=('C09',)):
    """r is plain data, and newly created"""
    r = E.force(r)
    if isinstance(r, Ref):
        o = E.obj(r)
        E.oblige(what + ': a new list or dictionary', o.kind in ('list', 'dict') and o.owned and o.term is None, ('C09', 'C12'))
        if o.kind == 'list':
            n = E.segs_len(o.d['segs'])
            if isinstance(n, int):
                for i in range(n):
                    plain_result(E, what, E.segs_get(o.d['segs'], i))
                return
            i = E.skolem('i', 0, n)
            x = E.force(E.segs_get(o.d['segs'], i))
            return plain_part(E, what, x)
        return
    plain_part(E, what, r)


def is_plain(E, x):
    x = E.force(x)
    if isinstance(x, PyC):
        return type(x.obj) in (int, bool, float, str, type(None))
    if isinstance(x, (SInt, SBool)):
        return True
    if isinstance(x, SV):
        return z3.And(plain(x.t), newdata(x.t))
    return False


def plain_part(E, what, x):
    if isinstance(x, SV):
        E.oblige(what + ': made of plain data', plain(x.t), ('C09',))
        E.oblige(what + ': shares no list or dictionary with the value', newdata(x.t), ('C12',))
    else:
        E.oblige(what + ': made of plain data', is_plain(E, x), ('C09', 'C12'))


def component_error(E, what, r):
    of = exc_of(E, r)
    E.oblige(what + ': only fails if dumping a part fails', of is not None, ('C09',))
    E.oblige(what + ': the error of the part is passed on', z3.Not(dok(of[0], of[1])), ('C09',))
    return of


def v_dump(E):
    d, v, t = dstd(E)
    del E.contracts[('typedload.datadumper', 'Dumper.dump')]
    given = E.choose(2) == 0
    kind, r = run_function(E, E.class_attr(datadumper.Dumper, 'dump'), [d, SV(v)] + ([SV(t)] if given else []))
    calls = E.st.ghost.get('#dcalls', ())
    k = key(typeof(v))
    if not calls:
        E.oblige('dump: a value having a handler is dumped', z3.Not(dsupported(k)), ('C14', 'C09'))
        E.oblige('dump: a value having no handler is refused', kind == 'raise', ('C09', 'C14'))
        oblige_exc(E, r, 'dump of an unsupported value', TVE, ('C09',))
        exc_fields(E, r, 'dump', SV(v), SV(typeof(v)))
        return 'raise-unsupported'
    E.oblige('dump: one handler is called', len(calls) == 1 and calls[0][2], ('C14',))
    tv, tt, _ = calls[0]
    want = t if given else E.const(ANY)
    E.oblige('dump: the handler is given the value and its annotation', z3.And(tv == v, z3.Or(tt == want, nparams(dh(k)) == 2)), ('C14',))
    if kind == 'normal':
        E.oblige('dump: what the handler returns', E.term(r) == dres(tv, tt), ('C14', 'C09', 'C13'))
        return 'normal'
    of = component_error(E, 'dump', r)
    E.oblige('dump: fails as the handler does', of is not None and z3.And(of[0] == v), ('C14', 'C09'))
    return 'raise'


dcraises = fn('dcond_raises', I, V, B)
dctrue = fn('dcond_true', I, V, B)


def dcall_cond(E, t, args, kwargs):
    if not (z3.is_app(t) and t.decl().name() == 'dcond_at'):
        return SENTINEL
    if len(args) != 1 or kwargs:
        E.raise_py(TypeError, 'condition arguments')
    i = t.arg(0)
    tt = E.term(E.force(args[0]))
    if E.branch(dcraises(i, tt)):
        x = E.new_sym_exc('condexc', Exception)
        E.put(x, **{'#cond': (i, tt)})
        raise Raise(x)
    r = fn('dcond_result', I, V, V)(i, tt)
    E.assume(truthy(r) == dctrue(i, tt))
    return SV(r)


def v_index(E):
    d = make_dumper(E)
    v = z3.Const('value', V)
    E.sv_calls.append(dcall_cond)
    try:
        kind, r = run_function(E, E.class_attr(datadumper.Dumper, 'index'), [d, SV(v)])
    finally:
        E.sv_calls.remove(dcall_cond)
    n = z3.Int('n_dhandlers')
    rce = z3.Bool('dopt_raiseconditionerrors')
    if kind == 'normal':
        i = E.intval(r)
        i = i if isinstance(i, z3.ExprRef) else z3.IntVal(i)
        E.oblige('dumper index: is the position of a handler whose condition is true', z3.And(i >= 0, i < n, z3.Not(dcraises(i, v)), dctrue(i, v)), ('C14',))
        j = E.skolem('j', 0, i)
        E.inst_all(j)
        E.inst_foralls(j)
        E.oblige('dumper index: no condition before it is true', z3.Or(dcraises(j, v), z3.Not(dctrue(j, v))), ('C14',))
        E.oblige('dumper index: no condition before it raised, unless those count as false', z3.Or(z3.Not(rce), z3.Not(dcraises(j, v))), ('C14',))
        return 'normal'
    cnd = E.obj(r).d.get('#cond')
    if cnd is not None:
        i = cnd[0]
        E.oblige('dumper index: the error of a condition is propagated only with raiseconditionerrors', z3.And(rce, cnd[1] == v), ('C14',))
        j = E.skolem('j', 0, i)
        E.inst_all(j)
        E.inst_foralls(j)
        E.oblige('dumper index: ... and no condition before it is true', z3.Not(z3.And(z3.Not(dcraises(j, v)), dctrue(j, v))), ('C14',))
        return 'raise-condition'
    oblige_exc(E, r, 'dumper index without a match', TVE, ('C14', 'C09'))
    exc_fields(E, r, 'dumper index', SV(v), SV(typeof(v)))
    j = E.skolem('j', 0, n)
    E.inst_all(j)
    E.inst_foralls(j)
    E.oblige('dumper index: fails only if no condition is true', z3.Or(dcraises(j, v), z3.Not(dctrue(j, v))), ('C14',))
    E.oblige('dumper index: ... and none raised, unless those count as false', z3.Or(z3.Not(rce), z3.Not(dcraises(j, v))), ('C14',))
    return 'raise'


def v_identity(E):
    d, v, t, c, h = dstd(E, 1)
    run_cond(E, c, v)
    kind, r = run_function(E, h, [d, SV(v), SV(t)])
    E.oblige('dump basic: never fails', kind == 'normal', ('C09',))
    E.oblige('dump basic: the value itself', E.is_f(r, SV(v)), ('C09', 'C10'))
    plain_result(E, 'dump basic', r)
    return 'normal'


def v_iter(E):
    d, v, t, c, h = dstd(E, [1])
    run_cond(E, c, v)
    E.assume(z3.And(iterable(v), sized(v), it_n(v) >= 0, has('copy', v) == z3.Or(E.isinst_term(v, list), E.isinst_term(v, set), E.isinst_term(v, frozenset))))
    E.sv_methods['copy'] = lambda E, t: PB.BI('copy', lambda E, a, k: list_copy(E, t))
    E.note('dump: lists, tuples, sets and frozensets are iterable, len() is the number of elements')
    n = it_n(v)
    el = lambda j: it_el(v, j)
    i = z3.Int('qi')
    ta = attr('__args__', t)
    E.note('dump: the elements of the value conform to the parameter of the annotation, where the annotation is given')
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n, has('__args__', t), z3.Or(it_n(ta) == 1, z3.And(it_n(ta) == 2, it_el(ta, 1) == E.const(...)))),
             conf(el(i), it_el(ta, 0))), patterns=[el(i)]))
    E.assume(z3.Implies(key(it_el(ta, 1)) == key(E.const(...)), it_el(ta, 1) == E.const(...)))
    kind, r = run_function(E, h, [d, SV(v), SV(t)])
    if kind == 'raise':
        of = component_error(E, 'dump of a list', r)
        j = sidx_of(E, of[0])
        E.oblige('dump of a list: the part that fails is an element', j is not None and z3.And(j >= 0, j < n), ('C09', 'C14'))
        return 'raise'
    r = E.force(r)
    if not (isinstance(r, Ref) and E.obj(r).kind == 'list'):
        E.oblige('dump of a list: is a list', False, ('C09', 'C12'))
    segs = E.obj(r).d['segs']
    ch = E.choose(3)
    if ch == 0:
        E.oblige('dump of a list: as many elements', E.segs_len(segs) == n, ('C09', 'C10'))
        return 'normal'
    if ch == 1:
        plain_result(E, 'dump of a list', r)
        return 'normal'
    j = E.skolem('j', 0, n)
    x = E.term(E.force(E.segs_get(segs, j)))
    E.inst_all(j)
    fast = z3.And(x == el(j), plain(x), key(dhdl_at(z3.IntVal(0))) == key(E.term(E.wrap(datadumper._identitydump))))
    E.oblige('dump of a list: the elements are dumped in order', z3.Or(z3.And(dok(el(j), E.const(ANY)), x == dres(el(j), E.const(ANY))), fast), ('C09', 'C10', 'C14'))
    return 'normal'


def list_copy(E, t):
    need(E.proves(E.isinst_term(t, list)), 'copy() of something other than a list')
    return E.alloc('list', {'segs': (Seq(it_n(t), lambda E, i: SV(it_el(t, i))),)})


def sidx_of(E, t):
    if z3.is_app(t) and t.decl().name() == 'it_el':
        return t.arg(1)
    return None


def v_dict(E):
    d, v, t, c, h = dstd(E, {1: 1})
    run_cond(E, c, v)
    is_dict(E, v)
    kind, r = run_function(E, h, [d, SV(v), SV(t)])
    A = E.const(ANY)
    if kind == 'raise':
        of = exc_of(E, r)
        if of is None:
            E.note('dump of a dict: the dumps of the keys are hashable')
            E.oblige('dump of a dict: only fails if dumping a key or value fails, or on keys that are no plain keys', class_is(E, r, TypeError), ('C09',))
            return 'raise-unhashable'
        component_error(E, 'dump of a dict', r)
        return 'raise'
    r = E.force(r)
    if not (isinstance(r, Ref) and E.obj(r).kind == 'dict'):
        E.oblige('dump of a dict: is a dict', False, ('C09', 'C12'))
    o = E.obj(r)
    layers = o.d['layers']
    E.oblige('dump of a dict: a new dictionary', o.owned and o.term is None, ('C09', 'C12'))
    i = z3.Int('qi')
    dk = lambda j: dres(mkey(v, j), A)
    dinv = fn('dkey_inv', K, I)
    E.note('dump of a dict: different keys have different dumps')
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < mn(v)), dinv(key(dk(i))) == i), patterns=[dk(i)]))
    ch = E.choose(3)
    if ch == 0:
        j = E.skolem('j', 0, mn(v))
        E.inst_all(j)
        mention(E, dk(j))
        E.oblige('dump of a dict: every key is in the dump', tob(E.layers_has(layers, key(dk(j)))), ('C09', 'C10'))
        return 'normal'
    kk = E.fresh('k', K)
    E.assume(tob(E.layers_has(layers, kk)))
    if ch == 1:
        kt, vt = dict_entry(E, r, kk)
        if kt is not None:
            plain_part(E, 'dump of a dict: key', kt)
        plain_part(E, 'dump of a dict: value', vt)
        return 'normal'
    kt, vt = dict_entry(E, r, kk)
    j = dinv(kk)
    E.inst_all(j)
    mention(E, dk(j))
    k2 = mkey(v, j)
    E.oblige('dump of a dict: an entry is the dump of an entry of the value', z3.And(j >= 0, j < mn(v), kk == key(dk(j)),
             E.term(vt) == dres(mget(v, key(k2)), A), dok(k2, A), dok(mget(v, key(k2)), A)), ('C09', 'C10', 'C14'))
    return 'normal'


def dict_entry(E, r, kk):
    """(key, value) of the entry of dictionary r"""
    layers = E.obj(r).d['layers']
    return None, E.force(E.layers_get(layers, kk))


class _E(Enum):
    a = 1


def v_enum(E):
    d, v, t, c, h = dstd(E, _E.a)
    run_cond(E, c, v)
    E.assume(has('value', v))
    kind, r = run_function(E, h, [d, SV(v), SV(t)])
    calls = E.st.ghost.get('#dcalls', ())
    E.oblige('dump of an enum: its value is dumped', len(calls) == 1 and calls[0][0] == attr('value', v), ('C09', 'C10', 'C14'))
    if kind == 'raise':
        component_error(E, 'dump of an enum', r)
        return 'raise'
    E.oblige('dump of an enum: is the dump of its value', E.term(r) == dres(calls[0][0], calls[0][1]), ('C09', 'C10'))
    plain_result(E, 'dump of an enum', r)
    return 'normal'


ALL = [
    ('Dumper.dump', v_dump, ('normal', 'raise', 'raise-unsupported')),
    ('Dumper.index', v_index, ('normal', 'raise', 'raise-condition')),
    ('dump basic', v_identity, ('normal',)),
    ('dump list', v_iter, ('normal', 'raise')),
    ('dump dict', v_dict, ('normal', 'raise')),
    ('dump enum', v_enum, ('normal', 'raise')),
]

if __name__ == '__main__':
    main(ALL)
