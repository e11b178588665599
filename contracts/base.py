"""
contracts.base - the specification vocabulary and the contracts that callers use.

  supported(t)     some handler condition holds for type t
  Hdl(t)           the handler of the first condition that holds for t
  ok(v, t)         that handler, called on (loader, v, t), returns
  res(v, t)        ... what it returns
  basic(t)         t in loader.basictypes

acceptable(r, v, t): r is a correct element obtained from v for type t:
  ok(v,t) and r is res(v,t),   or   basic(t) and isinstance(v, t) and r is v.
"""
import argparse
import ctypes
import dataclasses
import datetime
import importlib
import multiprocessing
import os
import pickle
import sys
import time
import traceback
import typing
import z3

from pyvc.core import *
from pyvc.interp import SENTINEL, StarArgs
from pyvc.builtins import Engine
import pyvc.builtins as PB

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import typedload
from typedload import dataloader, datadumper, typechecks, exceptions, helpers
assert os.path.realpath(typedload.__file__).startswith(os.path.realpath(REPO)), typedload.__file__

MODULES = [dataloader, datadumper, typechecks, exceptions, helpers]
for _m in list(sys.modules.values()):
    if (getattr(_m, '__name__', '') + '.').startswith('typedload.') and _m not in MODULES and getattr(_m, '__file__', None):
        MODULES.append(_m)

TE = exceptions.TypedloadException
TVE = exceptions.TypedloadValueError
TTE = exceptions.TypedloadTypeError
TraceItem = exceptions.TraceItem
Annotation = exceptions.Annotation
AT = exceptions.AnnotationType

ok = fn('ok', V, V, B)
res = fn('res', V, V, V)
Hdl = fn('Hdl', K, V)
supported = fn('supported', K, B)
idx = fn('idx', K, I)
hdl_at = fn('hdl_at', I, V)
cond_at = fn('cond_at', I, V)
basic = fn('basic', K, B)
trn = fn('trn', V, V, I)
trel = fn('trel', V, V, I, V)
exval = fn('exval', V, V, V)
extype = fn('extype', V, V, V)
exsubs_n = fn('exsubs_n', V, V, I)
exsubs = fn('exsubs', V, V, I, V)
isunion_t = fn('isunion', V, B)


def attr(name, t):
    return fn('attr_' + name, V, V)(t)


def has(name, t):
    return fn('has_' + name, V, B)(t)


class Verifier(Engine):
    """The engine, with the contracts of typedload and what is assumed of its environment."""

    def __init__(self):
        super().__init__('typedload', MODULES)
        self.assumptions = set()
        self.setup_env()

    def note(self, text):
        self.assumptions.add(text)

    # ---- environment ---------------------------------------------------
    def setup_env(self):
        E = self
        self.attr_facts['__args__'] = args_facts
        self.seq_attrs.add('__args__')
        # data
        self.sv_methods['keys'] = data_map_method('keys')
        self.sv_methods['items'] = data_map_method('items')
        self.sv_methods['values'] = data_map_method('values')
        self.sv_methods['get'] = data_get
        self.sv_methods['_get_kwargs'] = data_get_kwargs
        self.nofork_hasattr['items'] = lambda E, t: fn('has_keys', V, B)(t)
        self.nofork_hasattr['values'] = lambda E, t: fn('has_keys', V, B)(t)
        self.nofork_hasattr['__class__'] = lambda E, t: True
        self.sv_calls.append(call_handler)
        self.sv_calls.append(call_ctor)
        self.contracts[('typedload.helpers', 'tname')] = lambda E, a, k: E.new_str('tname')

    def isinst_facts(self, t):
        for c in (TE, Exception):
            self.isinst_term(t, c)


def args_facts(E, t, a):
    # the parameters of a type are hashable types
    i = z3.Int('qi')
    E.assume(z3.ForAll([i], hashable(it_el(a, i)), patterns=[it_el(a, i)]))


def data_map_method(what):
    def h(E, t):
        def call(E, a, k):
            E.note('data having keys()/items() methods is a mapping whose keys(), items(), [] and iteration agree')
            if not E.known_map(t):
                # an attribute called items may be something else than a method
                ck, ci = fn('callable_keys', V, B)(t), fn('callable_items', V, B)(t)
                E.assume(z3.Implies(z3.And(fn('has_keys', V, B)(t), ck), ci))
                if not E.branch(ck if what == 'keys' else ci):
                    E.raise_py(TypeError, 'not callable')
            E.declare_map(t)
            return E.alloc('view', {'dict': E.new_dict((('map', t),)), 'what': what})
        return PB.BI(what, call)
    return h


PEP = z3.Bool('opt_pep563')


def dictlike(t):
    """t has the methods of a mapping"""
    return z3.And(fn('has_keys', V, B)(t), fn('callable_keys', V, B)(t), fn('callable_items', V, B)(t))


def data_get(E, t):
    def call(E, a, k):
        kk = E.hkey(a[0])
        if not E.known_map(t) and not E.branch(dictlike(t)):
            # something else that has an attribute called get
            p, r = fn('get_ok', V, K, B)(t, kk), fn('get_res', V, K, V)(t, kk)
            if not E.branch(p):
                raise Raise(E.new_sym_exc('get', Exception))
            return SV(r)
        E.declare_map(t)
        if E.branch(mhas(t, kk)):
            return SV(mget(t, kk))
        return a[1] if len(a) > 1 else NONE
    return PB.BI('get', call)


def can_print(v):
    """str() and repr() of the value do not fail"""
    return fn('printable', K, B)(key(v))


kwargs_ok = fn('callable__get_kwargs', V, B)


def data_get_kwargs(E, t):
    def call(E, a, k):
        E.note('argparse.Namespace._get_kwargs() yields (name, value) pairs with distinct names; an attribute of that name that is something else raises TypeError when called')
        if not E.branch(kwargs_ok(t)):
            # the class Namespace itself, or a Namespace with an entry of that name
            E.raise_py(TypeError, 'not a method')
        m = fn('nsmap', V, V)(t)
        E.declare_map(m)
        return TupV(E.map_view(m, 'items'))
    return PB.BI('_get_kwargs', call)


# ----------------------------------------------------------------------
# handler calls
# ----------------------------------------------------------------------
def call_handler(E, t, args, kwargs):
    """Contract of a load handler: f(loader, value, type)"""
    L = E.st.ghost.get('#loader')
    if L is None or not (z3.is_app(t) and t.decl().name() in ('Hdl', 'hdl_at')):
        return SENTINEL
    if len(args) != 3 or kwargs:
        E.raise_py(TypeError, 'handler arguments')
    l, v, ty = [E.force(x) for x in args]
    tt = E.term(ty)
    E.oblige('handler called is the one of the type it is given', t == Hdl(key(tt)), ('C01', 'C13', 'C14', 'C16'))
    E.oblige('handler is given the loader', isinstance(l, Ref) and l.a == L.a, ('C14',))
    tv = E.term(v)
    E.assume(supported(key(tt)))
    handler_facts(E, tv, tt)
    return handler_outcome(E, tv, tt, None)


def handler_facts(E, tv, tt):
    """what the contracts of the handlers of basic types and unions say of (v, t)"""
    pass


def handler_outcome(E, tv, tt, item):
    """item: TraceItem added by load(), or None"""
    E.st.ghost['#hcalls'] = E.st.ghost.get('#hcalls', ()) + ((tv, tt),)
    if E.branch(ok(tv, tt)):
        return SV(res(tv, tt))
    raise Raise(handler_exc(E, tv, tt, item))


def handler_exc(E, tv, tt, item):
    r = E.new_sym_exc('exc', TE, Exception)

    def mk_trace(E, v):
        tail = Seq(trn(tv, tt), lambda E, i: SV(trel(tv, tt, i)), tag=('trace', tv, tt))
        E.assume(trn(tv, tt) >= 0)
        segs = ((([item],) if item is not None else ()) + (tail,))
        return E.alloc('list', {'segs': segs})

    def mk_exceptions(E, v):
        E.assume(exsubs_n(tv, tt) >= 0)
        return E.alloc('list', {'segs': (Seq(exsubs_n(tv, tt), lambda E, i: SV(exsubs(tv, tt, i))),)})
    E.put(r, **{'#attrs': {'trace': mk_trace, 'exceptions': mk_exceptions,
                           'value': lambda E, v: SV(exval(tv, tt)), 'type_': lambda E, v: SV(extype(tv, tt))},
                '#of0': SV(tv), '#of1': SV(tt), 'trace': LazyVal(lambda E: NONE)})
    d = dict(E.obj(r).d)
    del d['trace']
    o = E.obj(r)
    E.st.heap[r.a] = Obj(o.kind, d, o.term, o.owned)
    return r


def exc_of(E, exc):
    """(v, t) whose loading raised exc, or None"""
    d = E.obj(exc).d
    if '#of0' in d:
        return d['#of0'].t, d['#of1'].t
    return None


# ----------------------------------------------------------------------
# constructors and other operations of the types (environment)
# ----------------------------------------------------------------------
def op_term(name, *ts):
    """(succeeds, result) of a deterministic operation of the environment"""
    return fn(name + '_ok', *([V] * len(ts)), B)(*ts), fn(name, *([V] * len(ts)), V)(*ts)


def env_op(E, name, ts, raises, facts=None):
    """an operation that returns a value or raises one of the classes"""
    okf, r = op_term(name, *ts)
    if E.branch(okf):
        if facts:
            facts(E, r)
        return SV(r)
    c = raises[E.choose(len(raises))]
    x = E.new_sym_exc('envexc', c)
    E.put(x, **{'#env': name, '#envcls': c})
    raise Raise(x)


def declare_ctor(E, t, raises, facts=None):
    """calling t constructs an instance of t or raises one of the classes"""
    d = dict(E.st.ghost.get('#ctors', {}))
    d[t.get_id()] = (t, tuple(raises), facts)
    E.st.ghost['#ctors'] = d


def call_ctor(E, t, args, kwargs):
    c = E.st.ghost.get('#ctors', {}).get(t.get_id())
    if c is None:
        return SENTINEL
    t, raises, facts = c

    def fct(E, r):
        E.assume(isinst(r, t))
        if facts:
            facts(E, r, t)
    if kwargs and E.st.ghost.get('#ctorargs'):
        args, kwargs = E.st.ghost['#ctorargs'](E, args, kwargs)
    if kwargs:
        if args or list(kwargs) != ['**']:
            raise Unsupported('constructor with mixed arguments')
        ev = ('kwctor', t, kwargs['**'])
        E.st.ghost['#ctorcall'] = ev
        a = E.fresh('kwargs')
        return env_op(E, 'kwcon', [t, a], raises, fct)
    if any(isinstance(a, StarArgs) for a in args):
        if len(args) != 1:
            raise Unsupported('constructor with mixed arguments')
        # iterating over the value can fail in any way
        return env_op(E, 'starcon', [t, E.term(E.force(args[0].orig))], tuple(raises) + (Exception,), fct)
    return env_op(E, 'con%d' % len(args), [t] + [E.term(E.force(a)) for a in args], raises, fct)


def contract_index(E, args, kwargs):
    """Loader.index(type): the position of the handler, or ValueError"""
    l, ty = args
    tt = E.term(ty)
    if E.branch(supported(key(tt))):
        i = idx(key(tt))
        E.assume(z3.And(i >= 0, i < z3.Int('n_handlers'), hdl_at(i) == Hdl(key(tt))))
        return SInt(i)
    E.raise_py(ValueError, 'No matching condition found')


def contract_load(E, args, kwargs):
    """Loader.load(value, type, annotation=...)"""
    a = list(args)
    vals = {}
    for nm, x in zip(('self', 'value', 'type_'), a):
        vals[nm] = x
    vals.update(kwargs)
    if len(a) > 3 or set(vals) - {'self', 'value', 'type_', 'annotation'} or not {'self', 'value', 'type_'} <= set(vals):
        E.raise_py(TypeError, 'load() arguments')
    L = E.st.ghost['#loader']
    l = E.force(vals['self'])
    E.oblige('load() is called on the same loader', isinstance(l, Ref) and l.a == L.a, ('C14',))
    v, ty = vals['value'], vals['type_']
    tv, tt = E.term(E.force(v)), E.term(E.force(ty))
    E.assume(z3.Implies(ok(tv, tt), supported(key(tt))))
    if not E.branch(supported(key(tt))):
        r = E.instantiate(TTE, [E.new_str('msg')], {'value': v, 'type_': ty})
        E.put(r, **{'#of0': SV(tv), '#of1': SV(tt), '#unsupported': True})
        raise Raise(r)
    item = TupV.of(v, ty, vals.get('annotation', NONE), cls=TraceItem)
    return handler_outcome(E, tv, tt, item)


# ----------------------------------------------------------------------
# the loader object
# ----------------------------------------------------------------------
def cache_obj(E, name, look, val, set_):
    """look: called with the key before it is known whether it is there; val: an entry, by the invariant; set_: the invariant is kept"""
    return E.alloc('cache', {'#look': look, '#val': val, '#set': set_, '#name': name}, owned=True)


def make_loader(E, frefs='any', concrete_handlers=False):
    init = E.class_attr(dataloader.Loader, '__init__')
    l = E.alloc('inst', {'#cls': dataloader.Loader})
    E.call(init, [l])
    E.init_handlers = E.obj(l).d['handlers']
    for o in ('basiccast', 'failonextra', 'dictequivalence', 'uniondebugconflict', 'raiseconditionerrors'):
        E.put(l, **{o: SBool(z3.Bool('opt_' + o))})
    mk = z3.Const('opt_mangle_key', V)
    E.assume(z3.And(isinst(mk, E.const(str)), hashable(mk)))
    E.put(l, mangle_key=SV(mk))
    E.put(l, pep563=SBool(PEP))
    bt = E.new_set((('pred', lambda kk: basic(kk)),))
    E.st.heap[bt.a] = Obj('set', {**E.obj(bt).d, '#name': 'basictypes'}, None, False)
    E.put(l, basictypes=bt)
    n = z3.Int('n_handlers')
    E.assume(n >= 0)
    hl = E.alloc('list', {'segs': (Seq(n, lambda E, i: TupV.of(SV(cond_at(i)), SV(hdl_at(i)))),), '#name': 'handlers'}, owned=False)
    if not concrete_handlers:
        E.put(l, handlers=hl)

    # _indexcache: data structure invariant: every entry k is Hdl(k)
    def val(E, c, k, stored):
        kk = E.keyof(k)
        E.assume(supported(kk))
        E.assume(Hdl(kk) != E.const(None))
        return SV(Hdl(kk))

    def set_(E, c, k, v):
        kk = E.hkey(k)
        E.oblige('handler cache: an entry is the handler of its own type', E.term(E.force(v)) == Hdl(kk), ('C01', 'C13', 'C14'))

    def look(E, c, k, b):
        E.assume(z3.Implies(b, supported(E.keyof(k))))
    E.put(l, _indexcache=cache_obj(E, '_indexcache', look, val, set_))
    E.note('handlers are callables; handler list and options are not changed after first use')
    E.note('user-supplied handlers follow the handler contract: they return or raise TypedloadException, and are functions of (value, type)')
    E.st.ghost['#loader'] = l
    o = E.obj(l)
    t = z3.Const('loader', V)
    E.st.heap[l.a] = Obj(o.kind, o.d, t, True)
    return l


def handlers_of(E, l):
    """[(cond, handler)] of the list built by the real __init__"""
    lst = E.concrete_segs(E.obj(E.init_handlers).d['segs'])
    return [x.concrete() for x in lst]


# ----------------------------------------------------------------------
# clauses
# ----------------------------------------------------------------------
def assume_str(E, t):
    E.isinst_term(t, str)
    E.assume(z3.And(isinst(t, E.const(str)), typeof(t) == E.const(str), hashable(t)))
    d = dict(E.st.ghost.get('#strs', {}))
    d[t.get_id()] = (t, ())
    E.st.ghost['#strs'] = d


def acceptable_f(E, r, tv, tt):
    r = E.term(E.force(r))
    cls = E.isinst_rel(tv, tt)
    return z3.Or(z3.And(ok(tv, tt), r == res(tv, tt)), z3.And(basic(key(tt)), cls, r == tv))


def isinst_rel(E, tv, tt):
    E.assume(z3.Implies(key(typeof(tv)) == key(tt), isinst(tv, tt)))
    return isinst(tv, tt)


Verifier.isinst_rel = lambda E, tv, tt: isinst_rel(E, tv, tt)


def trace_parts(E, exc):
    """(list of leading Vals, remaining segments) of exc.trace"""
    tr = E.getattr(exc, 'trace', SENTINEL)
    if tr is SENTINEL or not isinstance(tr, Ref):
        return None, None
    segs = list(E.obj(tr).d['segs'])
    pre = []
    while segs and not isinstance(segs[0], Seq):
        pre += segs.pop(0)
    return pre, segs


def is_typedload(E, exc):
    return E.isinstance_f(exc, PyC(TE))


def class_is(E, exc, cls):
    f = E.isinstance_f(exc, PyC(cls))
    return f


def oblige_exc(E, exc, what, cls=TE, tags=('C02',)):
    c = E.obj(exc).d.get('#cls')
    E.oblige('%s raises %s' % (what, cls.__name__), class_is(E, exc, cls), tags,
             detail='raised %s %s' % (c, E.obj(exc).d.get('#how', '')))


def check_trace_item(E, item, value, type_, antype, anval_f, what, tags=('C03',)):
    """item is TraceItem(value, type_, Annotation(antype, x)) with anval_f(x)"""
    if not (isinstance(item, TupV) and item.cls is TraceItem):
        E.oblige(what + ': trace item', False, tags)
    v, t, a = item.concrete()
    E.oblige(what + ': trace item holds the value', E.is_f(v, value), tags)
    E.oblige(what + ': trace item holds the type', E.eq_f(t, type_), tags)
    a = E.force(a)
    if not (isinstance(a, TupV) and a.cls is Annotation):
        E.oblige(what + ': trace item is annotated', False, tags)
    at, av = a.concrete()
    E.oblige(what + ': annotation type', E.eq_f(at, PyC(antype)), tags)
    E.oblige(what + ': annotation leads to the offending element', anval_f(E.force(av)), tags)


def check_component_exc(E, exc, value, type_, antype, anval_f, what, extra_items=0):
    """
    exc is the exception of a component (v, t): same exception, whose trace got one more
    item in front, leading from value to v
    """
    of = exc_of(E, exc)
    if of is None:
        return False
    pre, rest = trace_parts(E, exc)
    if pre is None:
        E.oblige(what + ': exception has a trace', False, ('C03',))
    n = 1 + extra_items
    E.oblige(what + ': one trace item per level is added', len(pre) == n, ('C03',), detail='items: %r' % (pre,))
    good = E.obj(exc).d.get('#unsupported') or (len(rest) == 1 and isinstance(rest[0], Seq) and rest[0].tag and rest[0].tag[0] == 'trace' and
            rest[0].tag[1].eq(of[0]) and rest[0].tag[2].eq(of[1]))
    E.oblige(what + ': the trace of the inner error is kept', bool(good), ('C03',), detail='rest: %r of: %r' % ([getattr(q, 'tag', q) for q in rest], of))
    check_trace_item(E, pre[0], value, type_, antype, anval_f, what)
    return True


def run_function(E, f, args, kwargs=None):
    try:
        return 'normal', E.force(E.call(f, args, kwargs or {}))
    except Raise as r:
        return 'raise', r.exc


class FnReport:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.kinds = {}
        self.status = 'verified'
        self.reason = ''
        self.secs = 0.0
        self.covered = {}


class Splitter:
    """Explores the paths of a unit in several processes."""

    def __init__(self, E, jobs, width=None):
        self.E = E
        self.jobs = jobs
        self.width = width or jobs * 6
        self.child = None
        self.results = []

    def fork(self, stack):
        """in the children, the source of the paths to explore; None in the parent, when all of them are done"""
        nxt = multiprocessing.get_context('fork').Value('i', 0)
        pipes = []
        for k in range(self.jobs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                ctypes.CDLL(None).prctl(1, 9)       # end with the parent
                self.child = w

                def feed():
                    with nxt.get_lock():
                        i = nxt.value
                        nxt.value += 1
                    return stack[i] if i < len(stack) else None
                return feed
            os.close(w)
            pipes.append((pid, r))
        for pid, r in pipes:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            try:
                self.results.append(pickle.loads(data))
            except Exception:
                self.results.append(None)
        return None

    def send(self, res):
        try:
            with os.fdopen(self.child, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)


def verify(E, name, thunk, expect=('normal',), deadline=120, jobs=1):
    """Explore all the paths of thunk (which runs the code and its postcondition)."""
    rep = FnReport(name)
    E.fnname = name
    t0 = time.time()
    E.deadline = t0 + deadline
    E.covered = {}
    E.loopcache = {}
    nob = len(E.obls)
    kinds = {}
    st0 = State()
    E.st = st0
    split = E.splitter = Splitter(E, jobs) if jobs > 1 else None
    done = [0]

    def th():
        if split and split.child is not None and not done[0]:
            # what the parent has already reported
            done[0] = 1
            del E.obls[nob:]
            kinds.clear()
            E.nchecks = 0
        k = thunk(E)
        kinds[k] = kinds.get(k, 0) + 1
        return k

    def finish():
        rep.kinds = kinds
        rep.secs = time.time() - t0
        rep.covered = {'%s.%s' % k: sorted(v) for k, v in E.covered.items()}
        rep.obls = E.obls[nob:]
        if split and split.child is not None:
            if not done[0]:
                rep.obls = []
                rep.kinds = {}
            split.send((sum(rep.kinds.values()), rep.kinds, rep.status, rep.reason, E.covered, [(o.fn, o.name, o.tags, o.status, o.secs, o.detail, str(o.where)) for o in rep.obls], E.assumptions, E.nchecks))
        return rep
    try:
        outs = E.explore(th, name)
        rep.paths = len(outs)
        bad = [o for o in outs if o.kind != 'normal']
        if bad:
            rep.status = 'unsupported'
            rep.reason = 'contract code left with %s' % bad[0].kind
        if split and split.child is not None:
            finish()
        if split:
            for res in split.results:
                if res is None:
                    rep.status = 'unsupported'
                    rep.reason = 'a verifier process ended'
                    continue
                paths, kk, status, reason, cov, obls, asm, nc = res
                rep.paths += paths
                for k, n in kk.items():
                    kinds[k] = kinds.get(k, 0) + n
                if status != 'verified':
                    rep.status = status
                    rep.reason = reason
                for k, ls in cov.items():
                    E.covered.setdefault(k, set()).update(ls)
                for o in obls:
                    E.obls.append(Obligation(*o))
                E.assumptions |= asm
                E.nchecks += nc
        for k in expect:
            E.obls.append(Obligation(name, 'vacuity: some path ends in "%s"' % k, ('*',),
                                     'discharged' if kinds.get(k) else 'vacuous', 0.0, '' if kinds.get(k) else 'no feasible path: %r' % kinds, ''))
    except Unsupported as e:
        rep.status = 'unsupported'
        rep.reason = str(e) + ' at ' + '/'.join(map(str, E.where[-3:]))
    except z3.Z3Exception as e:
        rep.status = 'unsupported'
        rep.reason = 'z3: %s' % e
    except RecursionError as e:
        rep.status = 'unsupported'
        rep.reason = 'recursion'
    except Exception:
        if not (split and split.child is not None):
            raise
        rep.status = 'unsupported'
        rep.reason = traceback.format_exc()[-1500:]
    E.deadline = None
    E.excstack = []
    E.fnstack = []
    E.where = []
    E.depth = 0
    E.substs = []
    E.splitter = None
    return finish()


def handler_for(E, l, sample):
    """the handler that the real loader selects for a sample type, as an engine value"""
    ld = dataloader.Loader()
    i = ld.index(sample)
    return handlers_of(E, l)[i][1]


def std(E):
    E.contracts[('typedload.dataloader', 'Loader.index')] = contract_index
    E.contracts[('typedload.dataloader', 'Loader.load')] = contract_load
    l = make_loader(E)
    v = z3.Const('value', V)
    T = z3.Const('T', V)
    E.assume(hashable(T))
    E.assume(has('__args__', T))
    return l, v, T


def exc_fields(E, r, what, v, T, t=None):
    """value and type_ of an exception about the value itself"""
    ev = E.getattr(r, 'value', SENTINEL)
    et = E.getattr(r, 'type_', SENTINEL)
    if ev is SENTINEL or et is SENTINEL:
        E.oblige(what + ': exception carries value and type_', False, ('C03', 'C19'))
    E.oblige(what + ': exception.value is the offending value', E.is_f(ev, v), ('C03',))
    fs = [E.eq_f(et, T)]
    if t is not None:
        fs.append(E.eq_f(et, SV(t)))
    E.oblige(what + ': exception.type_ is the offending type', E.f_or(fs), ('C03',))


def mention(E, *ts):
    """make the terms known to the solver, so that quantified facts are instantiated for them"""
    for t in ts:
        E.assume(fn('mention_' + t.sort().name(), t.sort(), B)(t))


def tob(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def main(units):
    verb = '-v' in sys.argv
    only = [a for a in sys.argv[1:] if not a.startswith('-')]
    for n, th, ex in units:
        if only and not any(o in n for o in only):
            continue
        E = Verifier()
        rep = verify(E, n, th, ex)
        print(n, rep.status, rep.reason, 'paths', rep.paths, rep.kinds, 'obls', len(rep.obls), '%.1fs' % rep.secs, 'checks', E.nchecks)
        if '-t' in sys.argv:
            for o in sorted(rep.obls, key=lambda o: -o.secs)[:8]:
                print('    %.2fs' % o.secs, o.name)
        seen = {}
        for o in rep.obls:
            if o.status != 'discharged':
                seen.setdefault((o.status, o.name), []).append(o)
        for (st, nm), os_ in seen.items():
            print('    %d' % len(os_), st, nm)
            if verb:
                print(os_[0].detail[:7000])
