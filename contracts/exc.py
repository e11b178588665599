"""
Contracts of the exceptions (C19 C03).

An exception is a term x with its args, trace and sub-exceptions. The contracts of the parts of the text:
  _path(trace)                 contains the text of every annotation of trace, in order, joined by dots
  _firstline()                 contains str() of every argument
  _subexceptions(trace)        contains, for every sub-exception s: its first line; 'Path: ' and the path of trace + s.trace[1:];
                               and the text of its own sub-exceptions, from there
  __str__()                    contains the first line, 'Path: ' and the path of the trace, and the sub-exceptions
The text of exceptions nested at any depth follows by induction on the nesting, which is finite.
"""
from .base import *

TE_ = exceptions.TypedloadException
TAGS = ('C19', 'C03')


def need(name):
    f = TE_.__dict__.get(name)
    if f is None:
        raise Unsupported('no method %s' % name)
    return f.__func__ if isinstance(f, staticmethod) else f


# ---- the exception object --------------------------------------------------
def nargs(x):
    return fn('exc_nargs', V, I)(x)


def earg(x, i):
    return fn('exc_arg_', V, I, V)(x, i)


def ntrace(x):
    return fn('exc_ntrace', V, I)(x)


def titem(E, x, i):
    a = fn('exc_tann', V, I, V)(x, i)

    def annotation(E):
        if E.branch(fn('exc_tannotated', V, I, B)(x, i)):
            k = E.branch(fn('exc_tint', V, I, B)(x, i))
            v = fn('exc_tannv', V, I, V)(x, i)
            if not k:
                E.assume(z3.Not(E.isinst_term(v, int)))
                return TupV.of(SV(fn('exc_tannt', V, I, V)(x, i)), SV(v), cls=Annotation)
            E.assume(E.isinst_term(v, int))
            return TupV.of(SV(fn('exc_tannt', V, I, V)(x, i)), SV(v), cls=Annotation)
        return NONE
    return TupV.of(SV(fn('exc_tvalue', V, I, V)(x, i)), SV(fn('exc_ttype', V, I, V)(x, i)), LazyVal(annotation), cls=TraceItem)


def trace_of(E, x):
    E.assume(ntrace(x) >= 0)
    return Seq(ntrace(x), lambda E, i: titem(E, x, i), tag=('etrace', x))


def nsubs(x):
    return fn('exc_nsubs', V, I)(x)


def sub(x, i):
    return fn('exc_sub', V, I, V)(x, i)


def exc_object(E, x):
    E.assume(z3.And(nargs(x) >= 0, nsubs(x) >= 0))
    tr = trace_of(E, x)

    def lz(f):
        return LazyVal(f)
    return E.alloc('exc', {'#cls': TE_, '#id': SV(x), 'args': TupV([Seq(nargs(x), lambda E, i: SV(earg(x, i)))]),
                           'trace': lz(lambda E: E.alloc('list', {'segs': (tr,)}, owned=False)),
                           'value': SV(fn('exc_value', V, V)(x)), 'type_': SV(fn('exc_type_', V, V)(x)),
                           'exceptions': lz(lambda E: E.alloc('list', {'segs': (Seq(nsubs(x), lambda E, i: exc_object(E, sub(x, i))),)}, owned=False))}, term=x, owned=False)


def exc_id(E, v):
    v = E.force(v)
    if isinstance(v, Ref) and isinstance(E.obj(v).d.get('#id'), SV):
        return E.obj(v).d['#id'].t
    raise Unsupported('an unknown exception')


# ---- the text --------------------------------------------------------------
GAP = ('gap',)


class Text:
    """the pieces of a text, at chosen iterations of the loops that built it"""

    def __init__(self, E, v, pos):
        self.E = E
        self.pos = pos
        self.atoms = []
        self.value(E.force(v))

    def value(self, v):
        E = self.E
        if isinstance(v, PyC):
            self.add(str(v.obj))
            return
        if not isinstance(v, SV):
            raise Unsupported('text made of %r' % (v,))
        q = E.str_parts(v)
        if q:
            self.parts(q)
        else:
            self.add(('t', v.t))

    def add(self, a):
        if isinstance(a, str) and self.atoms and isinstance(self.atoms[-1], str):
            self.atoms[-1] += a
        else:
            self.atoms.append(a)

    def parts(self, ps):
        E = self.E
        for p in ps:
            if isinstance(p, str):
                self.add(p)
            elif p[0] == 't':
                q = p[2] if len(p) > 2 else ()
                if q:
                    self.parts(q)
                else:
                    self.add(('t', p[1]))
            elif p[0] == 's':
                self.value(E.force(p[1]))
            elif p[0] == 'strip':
                if p[2]:
                    self.parts(p[2])
                else:
                    self.add(('t', p[1]))
                self.add(('stripped',))
            elif p[0] == 'acc':
                self.loop(p[1], p[2])
            elif p[0] == 'join':
                self.join(p[1], p[2])
            elif p[0] in ('path', 'first', 'subs'):
                self.add(p)
            else:
                raise Unsupported('text: ' + str(p[0]))

    def loop(self, lr, c):
        E = self.E
        self.value(c['v0'])
        idx = self.pos
        st = [J for l, J in E.st.ghost.get('#loops', ()) if l is lr]
        if idx is None or not st:
            self.add(GAP)
            return
        J = st[-1]
        self.add(GAP)
        E.inst(lr, J, idx)
        E.assume(idx >= 0)
        if E.branch(idx < J):
            p = E.choose(len(lr.normal))
            E.assume(z3.substitute(lr.cond(p), (lr.J, idx)))
            if E.check() == z3.unsat:
                raise PathDead()
            self.parts(E.import_parts(c['added'][p], lr.J, idx, lr.normal[p].st, c['base'], {}))
        self.add(GAP)

    def join(self, sep, segs):
        E = self.E
        pos = self.pos
        n = E.segs_len(segs)
        c = E.concrete_segs(segs)
        if c is not None:
            for i, x in enumerate(c):
                if i:
                    self.value(E.force(sep))
                self.value(E.force(x))
            return
        self.add(GAP)
        if pos is not None and E.branch(z3.And(pos >= 0, pos < n)):
            self.value(E.force(E.segs_get(list(segs), pos)))
        self.add(GAP)

    def has(self, want):
        """the pieces one after the other; the first may be the end of a literal, the last the beginning of one"""
        for s in range(len(self.atoms) - len(want) + 1):
            if all(self.match(self.atoms[s + k], w, k == 0, k == len(want) - 1) for k, w in enumerate(want)):
                return True
        return False

    def match(self, a, w, first, last):
        if isinstance(w, str) or isinstance(a, str):
            if not (isinstance(w, str) and isinstance(a, str)):
                return False
            return w in a if first and last else a.endswith(w) if first else a.startswith(w) if last else a == w
        if a[0] != w[0]:
            return False
        if a[0] == 'path':
            return same_trace(self.E, a[1], w[1])
        return (a[1].eq(w[1]) or self.E.proves(a[1] == w[1])) and (len(w) < 3 or same_trace(self.E, a[2], w[2]))


def same_trace(E, a, b):
    """the same items in the same order"""
    na, nb = E.segs_len(a), E.segs_len(b)
    if not E.proves(z3.IntVal(0) + na == nb if isinstance(na, z3.ExprRef) or isinstance(nb, z3.ExprRef) else z3.BoolVal(na == nb)):
        return False
    m = E.fresh('m', I)
    E.assume(m >= 0)
    if not E.branch(m < na):
        return True
    x, y = E.force(E.segs_get(list(a), m)), E.force(E.segs_get(list(b), m))
    if not (isinstance(x, TupV) and isinstance(y, TupV) and x.cls is TraceItem and y.cls is TraceItem):
        raise Unsupported('trace of unknown items')
    cx, cy = x.concrete(), y.concrete()
    return E.proves(z3.And(E.force(cx[0]).t == E.force(cy[0]).t, E.force(cx[1]).t == E.force(cy[1]).t))


# ---- the contracts that callers use -----------------------------------------
def list_segs(E, v):
    v = E.force(v)
    if isinstance(v, Ref) and E.obj(v).kind == 'list':
        return tuple(E.obj(v).d['segs'])
    raise Unsupported('a trace that is no list')


def c_path(E, a, k):
    if len(a) != 1 or k:
        raise Unsupported('call of _path')
    return E.new_str('path', (('path', list_segs(E, a[0])),))


def c_firstline(E, a, k):
    if len(a) + len(k) > 2:
        raise Unsupported('call of _firstline')
    return E.new_str('first', (('first', exc_id(E, a[0])),))


def c_subexceptions(E, a, k):
    tr = k.get('trace', a[2] if len(a) > 2 else None)
    if tr is None or len(a) + len(k) != 3:
        raise Unsupported('call of _subexceptions')
    return E.new_str('subs', (('subs', exc_id(E, a[0]), list_segs(E, tr)),))


def setup(E, *names):
    E.note('exceptions: subclasses of TypedloadException do not change how it is printed; sub-exceptions are nested finitely')
    for n, c in (('_path', c_path), ('_firstline', c_firstline), ('_subexceptions', c_subexceptions)):
        if n in names:
            need(n)
            E.contracts[('typedload.exceptions', 'TypedloadException.' + n)] = c
    x = z3.Const('self', V)
    return x, exc_object(E, x)


def has(E, what, r, want, pos=None):
    t = Text(E, r, pos)
    E.oblige(what, t.has(want), TAGS, detail='pieces: %r' % (t.atoms,))


# ---- the functions ------------------------------------------------------------
def v_str(E):
    x, o = setup(E, '_path', '_firstline', '_subexceptions')
    f = need('__str__')
    kind, r = run_function(E, E.wrap(f), [o])
    E.oblige('str() of an exception does not raise', kind == 'normal', TAGS)
    E.oblige('str() of an exception returns a str', E.is_str(r), TAGS)
    has(E, 'str() of an exception has its description', r, [('first', x)])
    has(E, 'str() of an exception has its path', r, ['Path: ', ('path', (trace_of(E, x),))])
    if E.branch(nsubs(x) > 0):
        has(E, 'str() of an exception has its sub-exceptions', r, [('subs', x, (trace_of(E, x),))])
        return 'subs'
    return 'normal'


def v_firstline(E):
    x, o = setup(E)
    f = need('_firstline')
    ind = z3.Int('indent')
    E.assume(ind >= 0)
    E.note('exceptions: the arguments of exceptions (their descriptions) can be printed')
    i = z3.Int('qi')
    E.assume(z3.ForAll([i], can_print(earg(x, i)), patterns=[earg(x, i)]))
    kind, r = run_function(E, E.wrap(f), [o, SInt(ind)])
    E.oblige('the first line of an exception can be computed', kind == 'normal', TAGS)
    E.oblige('the first line of an exception is a str', E.is_str(r), TAGS)
    k = E.skolem('k', 0, nargs(x))
    E.assume(can_print(earg(x, k)))
    has(E, 'the first line of an exception has each of its arguments', r, [('t', E.py_str(SV(earg(x, k))).t)], k)
    return 'normal'


def v_subexceptions(E):
    x, o = setup(E, '_path', '_firstline', '_subexceptions')
    f = need('_subexceptions')
    ind = z3.Int('indent')
    E.assume(ind >= 0)
    y = z3.Const('outer', V)
    tr = E.alloc('list', {'segs': (trace_of(E, y),)}, owned=False)
    # the body is executed; its calls of itself follow the contract
    kind, r = 'normal', None
    try:
        r = E.force(E.exec_func(E.wrap(f), [o, SInt(ind), tr], {}))
    except Raise:
        kind = 'raise'
    E.oblige('the text of the sub-exceptions can be computed', kind == 'normal', TAGS)
    E.oblige('the text of the sub-exceptions is a str', E.is_str(r), TAGS)
    k = E.skolem('k', 0, nsubs(x))
    s = sub(x, k)
    exc_object(E, s)
    path = (trace_of(E, y),) + tuple(E.obj(E.get_slice(E.alloc('list', {'segs': (trace_of(E, s),)}), PyC(1), None, None)).d['segs'])
    has(E, 'sub-exceptions: the description of each', r, [('first', s)], k)
    has(E, 'sub-exceptions: the path of each, from the root', r, ['Path: ', ('path', path)], k)
    if E.branch(nsubs(s) > 0):
        has(E, 'sub-exceptions: the sub-exceptions of each', r, [('subs', s, path)], k)
        return 'subs'
    return 'normal'


def ann(E, x, i):
    """(annotated, its value is an int, the value) of item i of the trace of x"""
    return fn('exc_tannotated', V, I, B)(x, i), fn('exc_tint', V, I, B)(x, i), fn('exc_tannv', V, I, V)(x, i)


def v_path(E):
    x, o = setup(E)
    f = need('_path')
    tr = E.alloc('list', {'segs': (trace_of(E, x),)}, owned=False)
    none = E.const('None')
    E.assume(fn('str_first', K, I)(key(none)) == ord('N'))
    E.assume(fn('str_first', K, I)(key(E.const(''))) == -1)
    kind, r = run_function(E, E.wrap(f), [tr])
    E.oblige('the path of any trace can be computed', kind == 'normal', TAGS)
    E.oblige('the path of a trace is a str', E.is_str(r), TAGS)
    if E.branch(ntrace(x) == 0):
        return 'empty'
    E.note('exceptions: the value of an annotation is not shown as "None"')
    k = E.skolem('k', 0, ntrace(x))
    a, isint, v = ann(E, x, k)
    if not E.branch(a):
        return 'normal'
    # something else is shown of what can not be printed
    E.assume(can_print(v))
    st = E.py_str(SV(v)).t
    E.assume(key(st) != key(none))
    isi = E.branch(isint)
    # where the loop that collects the pieces put this one
    pos = None
    ls = [(lr, J) for lr, J in E.st.ghost.get('#loops', ())]
    for lr, J in ls:
        E.inst(lr, J, k)
    want = ['[', ('t', st), ']'] if isi else [('t', st)]
    for lr, J in ls:
        for c in lr.cells.values():
            if c['kind'] == 'app' and pos is None:
                pos = k
                if c.get('cntf') is not None:
                    pos = c['cntf'](k)
    if pos is None:
        raise Unsupported('path that is not made of a list')
    t = Text(E, r, pos)
    for lr, J in ls:
        for c in lr.cells.values():
            if c['kind'] == 'app' and c.get('src') is not None:
                E.inst(lr, J, c['src'](pos))
                E.inst(lr, J, c['src'](z3.IntVal(0)))
    E.oblige('the path of a trace shows the annotation of every item', t.has(want), TAGS, detail='pieces: %r' % (t.atoms,))
    return 'annotated'


def v_init(E):
    classes = [TE_, exceptions.TypedloadValueError, exceptions.TypedloadTypeError, exceptions.TypedloadAttributeError]
    b = E.choose(4)
    cls = classes[b]
    base = [Exception, ValueError, TypeError, AttributeError][b]
    E.oblige('the exceptions of typedload have the documented base classes', issubclass(cls, base) and issubclass(cls, TE_), ('C19', 'C02'))
    desc, v, t = SV(z3.Const('description', V)), SV(z3.Const('value', V)), SV(z3.Const('type_', V))
    x = z3.Const('x', V)
    E.assume(nsubs(x) >= 0)
    lists = {}

    def lst(nm, seq):
        k = E.choose(3)
        if k == 0:
            return NONE
        if k == 1:
            return SENTINEL
        lists[nm] = E.alloc('list', {'segs': (seq,)}, owned=False)
        return lists[nm]
    tr = lst('trace', trace_of(E, x))
    ex = lst('exceptions', Seq(nsubs(x), lambda E, i: SV(sub(x, i))))
    if E.choose(2) and SENTINEL not in (tr, ex):
        args, kw = [desc, tr, v, t, ex], {}
    else:
        args, kw = [desc], {k: q for k, q in (('trace', tr), ('value', v), ('type_', t), ('exceptions', ex)) if q is not SENTINEL}
    try:
        r = E.instantiate(cls, args, kw)
        kind = 'normal'
    except Raise:
        kind = 'raise'
    E.oblige('an exception can be made', kind == 'normal', ('C19',))
    a = E.getattr(r, 'args').concrete()
    E.oblige('an exception keeps its description', a is not None and len(a) == 1 and E.is_f(a[0], desc), ('C19',))
    E.oblige('an exception keeps its value', E.is_f(E.getattr(r, 'value'), v), TAGS)
    E.oblige('an exception keeps its type', E.is_f(E.getattr(r, 'type_'), t), TAGS)
    for nm in ('trace', 'exceptions'):
        q = E.force(E.getattr(r, nm))
        E.oblige('an exception has a list of %s' % nm, isinstance(q, Ref) and E.obj(q).kind == 'list', TAGS)
        n = E.segs_len(E.obj(q).d['segs'])
        if nm in lists:
            given = E.obj(lists[nm]).d['segs']
            if q.a != lists[nm].a:
                E.oblige('an exception keeps its %s: as many' % nm, n == E.segs_len(given), TAGS)
                m = E.fresh('m', I)
                E.assume(m >= 0)
                if E.branch(m < n):
                    g, h = E.segs_get(list(given), m), E.segs_get(list(E.obj(q).d['segs']), m)
                    E.oblige('an exception keeps its %s: the same' % nm, E.is_f(g, h) if nm == 'exceptions' else E.is_f(g.concrete()[0], h.concrete()[0]), TAGS)
        else:
            E.oblige('an exception without %s has an empty list' % nm, n == 0, TAGS)
    return 'normal'


ALL = [('exception init', v_init, ('normal',)), ('exception path', v_path, ('normal', 'annotated', 'empty')), ('exception str', v_str, ('normal', 'subs')), ('exception first line', v_firstline, ('normal',)), ('exception sub-exceptions', v_subexceptions, ('normal', 'subs'))]

if __name__ == '__main__':
    main(ALL)
