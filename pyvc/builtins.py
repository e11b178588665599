"""
pyvc.builtins - contracts of the Python operations and library functions that
the code uses (trusted, cross-checked against CPython by tests/).
"""
import ast
import builtins as pybuiltins
import functools
import inspect
import itertools
import operator
import re
import typing
import z3

from .core import *
from .interp import StarArgs, SENTINEL
from .loops import Loops, collect_patterns


class LayerErr(Exception):
    pass


class Engine(Loops):

    def __init__(self, package, modules):
        super().__init__(package, modules)
        self.sv_methods = {}        # attribute name -> host function(E, term) -> Val
        self.attr_facts = {}        # attribute name -> host function(E, objterm, attrterm)
        self.sv_calls = []          # host functions(E, term, args, kwargs) -> Val or SENTINEL
        self.seq_attrs = set()      # attributes known to be tuples
        self.table = build_table()
        self.nofork_hasattr = {}

    # ==================================================================
    # sequences
    # ==================================================================
    def segs_len(self, segs):
        n = 0
        for s in segs:
            n = n + (s.n if isinstance(s, Seq) else len(s))
        if isinstance(n, z3.ExprRef):
            n = z3.simplify(n)
            if z3.is_int_value(n):
                return n.as_long()
        return n

    def seq_len(self, v):
        return self.segs_len(v.segs)

    def segs_get(self, segs, i):
        """the element at index i (in range)"""
        off = 0
        for k, s in enumerate(segs):
            last = k == len(segs) - 1
            if isinstance(s, Seq):
                end = off + s.n
                if last or self.branch(i < end if isinstance(i, z3.ExprRef) or isinstance(end, z3.ExprRef) else i < end):
                    d = i - off
                    if isinstance(d, int):
                        d = z3.IntVal(d)
                    else:
                        d = z3.simplify(d)
                    return s.el(self, d)
                off = end
            else:
                for j, x in enumerate(s):
                    e = (i == off + j)
                    lastx = last and j == len(s) - 1
                    if lastx or self.branch(e if not isinstance(e, bool) else e):
                        return x
                off = off + len(s)
        raise PathDead()

    def as_segs(self, v):
        """the elements that iterating v once yields"""
        v = self.force(v)
        if isinstance(v, TupV):
            return list(v.segs)
        if isinstance(v, PyC):
            if isinstance(v.obj, (tuple, list, str, range, bytes)):
                return [[self.wrap(x) for x in v.obj]]
            if isinstance(v.obj, (dict, set, frozenset)) or hasattr(v.obj, '__iter__'):
                return [[self.wrap(x) for x in v.obj]]
            self.raise_py(TypeError, 'not iterable')
        if isinstance(v, SV):
            return self.sv_segs(v.t)
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == 'list':
                return list(o.d['segs'])
            if o.kind == 'dict':
                return self.dict_view(v, 'keys')
            if o.kind == 'set':
                return self.set_enum(v)
            if o.kind == 'view':
                return self.dict_view(o.d['dict'], o.d['what'])
            if o.kind == 'it':
                acc = self.alloc('list', {'segs': ()})
                self.consume(v, lambda x: self.list_append(acc, x))
                return list(self.obj(acc).d['segs'])
            if o.kind == 'inst':
                m = self.getattr(v, '__iter__', SENTINEL)
                if m is not SENTINEL:
                    return self.as_segs(self.call(m, []))
            self.raise_py(TypeError, 'not iterable')
        self.raise_py(TypeError, 'not iterable')

    as_segs_call = as_segs

    def sv_segs(self, t):
        if not self.known_seq(t):
            if not self.branch(iterable(t)):
                self.raise_py(TypeError, 'object is not iterable')
        n = it_n(t)
        self.assume(n >= 0)
        return [Seq(n, lambda E, i, t=t: SV(it_el(E.sub(t) if E.substs else t, i)))]

    def known_seq(self, t):
        return t.get_id() in self.st.ghost.get('#seqs', {})

    def declare_seq(self, t, n=None):
        """t is a tuple"""
        d = dict(self.st.ghost.get('#seqs', {}))
        d[t.get_id()] = t
        self.st.ghost['#seqs'] = d
        self.assume(it_n(t) >= 0)
        self.assume(z3.And(iterable(t), sized(t), isinst(t, self.const(tuple)), typeof(t) == self.const(tuple)))
        if n is not None:
            self.assume(it_n(t) == n)

    def list_append(self, ref, v):
        segs = self.obj(ref).d['segs']
        self.frame_write(ref, 'append')
        self.put(ref, segs=tuple(segs) + ([v],))

    def list_extend(self, ref, v):
        segs = tuple(self.obj(ref).d['segs'])
        new = self.as_segs(v)
        self.put(ref, segs=tuple(self.obj(ref).d['segs']) + tuple(s for s in new if isinstance(s, Seq) or s))

    def norm_index(self, i, n):
        """Python index -> offset, or raise IndexError"""
        if isinstance(i, int) and isinstance(n, int):
            if i < 0:
                i += n
            if not 0 <= i < n:
                self.raise_py(IndexError, 'index out of range')
            return i
        if isinstance(i, int) and i < 0:
            j = n + i
            if not self.branch(j >= 0):
                self.raise_py(IndexError, 'index out of range')
            return j
        if isinstance(i, int):
            if not self.branch(n > i):
                self.raise_py(IndexError, 'index out of range')
            return i
        if self.branch(i >= 0):
            if not self.branch(i < n):
                self.raise_py(IndexError, 'index out of range')
            return i
        if not self.branch(n + i >= 0):
            self.raise_py(IndexError, 'index out of range')
        return n + i

    def getitem(self, v, k):
        v = self.force(v)
        k = self.force(k)
        if isinstance(v, PyC):
            if isinstance(k, PyC):
                try:
                    return self.wrap(v.obj[k.obj])
                except Exception as e:
                    self.raise_py(type(e), str(e))
            if isinstance(v.obj, (tuple, list)):
                v = TupV.of(*[self.wrap(x) for x in v.obj])
            else:
                raise Unsupported('subscript of a constant')
        segs = None
        if isinstance(v, TupV):
            segs = v.segs
        elif isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == 'list':
                segs = o.d['segs']
            elif o.kind == 'dict':
                return self.dict_getitem(v, k)
            elif o.kind == 'cache':
                x = self.cache_lookup(v, k)
                if x is None:
                    self.raise_py(KeyError, 'missing key')
                return x
            elif o.kind == 'inst':
                m = self.getattr(v, '__getitem__', SENTINEL)
                if m is not SENTINEL:
                    return self.call(m, [k])
                self.raise_py(TypeError, 'not subscriptable')
            else:
                self.raise_py(TypeError, 'not subscriptable')
        elif isinstance(v, SV):
            return self.sv_getitem(v.t, k)
        if segs is None:
            self.raise_py(TypeError, 'not subscriptable')
        i = self.intval(k)
        if i is None:
            if isinstance(k, SV):
                raise Unsupported('sequence index of unknown type')
            self.raise_py(TypeError, 'indices must be integers')
        return self.segs_get(segs, self.norm_index(i, self.segs_len(segs)))

    def sv_getitem(self, t, k):
        i = self.intval(k) if not isinstance(k, SBool) else None
        if self.known_seq(t):
            if i is None:
                self.raise_py(TypeError, 'indices must be integers')
            i = self.norm_index(i, it_n(t))
            return SV(it_el(t, i if isinstance(i, z3.ExprRef) else z3.IntVal(i)))
        if self.known_map(t):
            kk = self.keyof(k)
            if not self.branch(mhas(t, kk)):
                self.raise_py(KeyError, 'missing key')
            return SV(mget(t, kk))
        # arbitrary data
        if not self.branch(fn('subscriptable', V, B)(t)):
            self.raise_py(TypeError, 'not subscriptable')
        if self.branch(fn('getitem_ok', V, V, B)(t, self.term(k))):
            if i is not None:
                # sequences agree with their iteration
                ii = i if isinstance(i, z3.ExprRef) else z3.IntVal(i)
                if self.branch(isinst(t, self.const(dict))):
                    return SV(mget(t, self.keyof(k)))
                self.assume(z3.And(ii < it_n(t), ii >= -it_n(t)))
                return SV(it_el(t, z3.If(ii >= 0, ii, it_n(t) + ii)))
            return SV(mget(t, self.keyof(k)))
        c = self.choose(3)
        self.raise_py((KeyError, IndexError, TypeError)[c], 'subscript')

    def known_map(self, t):
        return t.get_id() in self.st.ghost.get('#maps', {}) or (z3.is_app(t) and t.decl().name() in self.map_decls)

    def declare_map(self, t):
        """t is a mapping: keys, items, [] and get agree with each other"""
        if self.known_map(t):
            return
        d = dict(self.st.ghost.get('#maps', {}))
        d[t.get_id()] = t
        self.st.ghost['#maps'] = d
        self.map_facts(t)

    def map_facts(self, t):
        k = z3.Const('qk', K)
        i = z3.Int('qi')
        self.assume(mn(t) >= 0)
        self.assume(z3.ForAll([k], z3.Implies(mhas(t, k), z3.And(midx(t, k) >= 0, midx(t, k) < mn(t),
                    key(mkey(t, midx(t, k))) == k)), patterns=[mhas(t, k)]))
        self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < mn(t)), z3.And(mhas(t, key(mkey(t, i))),
                    midx(t, key(mkey(t, i))) == i, hashable(mkey(t, i)))), patterns=[mkey(t, i)]))
        self.assume(truthy(t) == (mn(t) > 0))

    def get_slice(self, v, lo, hi, step):
        v = self.force(v)
        if step is not None and not (isinstance(step, PyC) and step.obj in (None, 1)):
            raise Unsupported('slice step')
        lo = None if lo is None or (isinstance(lo, PyC) and lo.obj is None) else self.intval(self.force(lo))
        hi = None if hi is None or (isinstance(hi, PyC) and hi.obj is None) else self.intval(self.force(hi))
        if isinstance(v, PyC):
            return self.wrap(v.obj[lo:hi])
        if isinstance(v, TupV):
            segs = v.segs
        elif isinstance(v, Ref) and self.obj(v).kind == 'list':
            segs = self.obj(v).d['segs']
        elif isinstance(v, SV) and self.known_seq(v.t):
            segs = self.sv_segs(v.t)
        else:
            raise Unsupported('slice of %r' % (v,))
        n = self.segs_len(segs)
        c = self.concrete_segs(segs)
        if c is not None and (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
            new = (c[lo:hi],)
        elif hi is None and isinstance(lo, int) and lo >= 0:
            new = self.drop(segs, lo)
        elif lo is None and isinstance(hi, int) and hi >= 0:
            m = z3.If(n < hi, n, z3.IntVal(hi)) if not isinstance(n, int) else min(n, hi)
            new = (Seq(m, lambda E, i, segs=segs: E.segs_get(segs, i)),)
        elif lo is None and isinstance(hi, z3.ExprRef):
            if not self.branch(hi >= 0):
                raise Unsupported('negative slice')
            m = z3.If(n < hi, n, hi)
            new = (Seq(m, lambda E, i, segs=segs: E.segs_get(segs, i)),)
        elif hi is None and isinstance(lo, z3.ExprRef):
            if not self.branch(lo >= 0):
                raise Unsupported('negative slice')
            m = z3.If(n < lo, z3.IntVal(0), n - lo)
            new = (Seq(m, lambda E, i, segs=segs, lo=lo: E.segs_get(segs, i + lo)),)
        else:
            raise Unsupported('slice')
        if isinstance(v, TupV):
            return TupV(new, tuple)
        return self.alloc('list', {'segs': tuple(new)})

    def drop(self, segs, k):
        segs = list(segs)
        while k and segs:
            s = segs[0]
            if isinstance(s, Seq):
                m = z3.If(s.n < k, z3.IntVal(0), s.n - k)
                if len(segs) > 1:
                    raise Unsupported('slice across segments')
                return (Seq(m, lambda E, i, s=s, k=k: s.el(E, i + k)),)
            if len(s) <= k:
                k -= len(s)
                segs.pop(0)
            else:
                segs[0] = s[k:]
                k = 0
        return tuple(segs)

    def setitem(self, v, k, x):
        v = self.force(v)
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == 'dict':
                self.frame_write(v, 'item assignment')
                self.dict_set(v, k, x)
                return
            if o.kind == 'list':
                self.frame_write(v, 'item assignment')
                c = self.concrete_segs(o.d['segs'])
                i = self.intval(self.force(k))
                if c is not None and isinstance(i, int):
                    i = self.norm_index(i, len(c))
                    self.put(v, segs=(c[:i] + [x] + c[i + 1:],))
                    return
                if isinstance(i, int) and 0 <= i <= 3 and c is None:
                    segs = o.d['segs']
                    n = self.segs_len(segs)
                    if not self.branch(n > i):
                        self.raise_py(IndexError, 'list assignment index out of range')
                    head = [self.segs_get(segs, j) for j in range(i)]
                    rest = Seq(n - (i + 1), lambda E, j, segs=tuple(segs), i=i: E.segs_get(segs, j + (i + 1)))
                    self.put(v, segs=(head + [x], rest))
                    return
            if o.kind == 'cache':
                self.cache_set(v, k, x)
                return
            raise Unsupported('item assignment')
        if isinstance(v, (SV, PyC)):
            self.oblige('frame: no item of an input is set', False, self.frame_tags)
        self.raise_py(TypeError, 'item assignment')

    def delitem(self, v, k):
        v = self.force(v)
        if isinstance(v, Ref) and self.obj(v).kind == 'dict':
            self.frame_write(v, 'del item')
            kk = self.hkey(k)
            if not self.branch(self.dict_has_f(v, kk)):
                self.raise_py(KeyError, 'del')
            self.put(v, layers=self.obj(v).d['layers'] + (('del', kk),))
            return
        if isinstance(v, (SV, PyC)):
            self.oblige('frame: no item of an input is deleted', False, self.frame_tags)
        raise Unsupported('del item')

    # ==================================================================
    # iterators
    # ==================================================================
    def iter(self, v):
        v = self.force(v)
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == 'it':
                return v
            if o.kind == 'cache':
                raise Unsupported('iteration over a cache')
        if isinstance(v, PyC) and not isinstance(v.obj, (tuple, list, str, bytes, dict, set, frozenset, range)) and hasattr(v.obj, '__next__'):
            raise Unsupported('iteration over a constant iterator')
        segs = self.as_segs(v)
        return self.alloc('it', {'k': 'seq', 'segs': tuple(segs), 'pos': PyC(0)})

    def concrete_int(self, n):
        if isinstance(n, int):
            return n
        n = z3.simplify(self.sub(n))
        if z3.is_int_value(n):
            return n.as_long()
        # a length fixed by the path condition
        ck = (n.get_id(), len(self.st.pc) and id(self.st.pc))
        c = self._cint.get(ck) if hasattr(self, '_cint') else None
        if not hasattr(self, '_cint'):
            self._cint = {}
        if c is None:
            m = self.mctr
            c = None
            for v in range(0, 4):
                if self.proves(n == v):
                    c = v
                    break
            c = self._cint[ck] = (n, self.st.pc, c, self.mctr - m)
        else:
            self.mctr += c[3]       # replayed paths count the same checks
        return c[2]

    def itlen(self, it):
        """the number of elements left, when concrete"""
        o = self.obj(it)
        k = o.d['k']
        if k == 'seq':
            pos = self.intval(o.d['pos'])
            n = self.segs_len(o.d['segs'])
            if isinstance(pos, int):
                n = self.concrete_int(n)
                return None if n is None else n - pos
            return None
        if k in ('count', 'repeat'):
            if k == 'repeat' and o.d.get('times') is not None:
                return self.concrete_int(self.intval(o.d['times']))
            return None
        if k in ('zip', 'map', 'compress'):
            ls = [self.itlen(x) for x in o.d['its'].concrete()]
            ls = [x for x in ls if x is not None]
            return min(ls) if ls else None
        if k in ('enumerate', 'islice', 'takewhile', 'starmap'):
            return self.itlen(o.d['src'])
        if k == 'genexp':
            if len(o.d['node'].generators) == 1:
                return self.itlen(o.d['src'])
            return None
        return None

    def next(self, it):
        """the next element; StopIter (host) at the end"""
        o = self.obj(it)
        k = o.d['k']
        if k == 'seq':
            pos = self.intval(o.d['pos'])
            n = self.segs_len(o.d['segs'])
            more = pos < n
            if not (more if isinstance(more, bool) else self.branch(more)):
                raise StopIter()
            v = self.segs_get(o.d['segs'], pos)
            self.put(it, pos=self.ival(pos + 1))
            return v
        if k == 'count':
            cur = self.intval(o.d['cur'])
            self.put(it, cur=self.ival(cur + o.d['step']))
            return self.ival(cur)
        if k == 'repeat':
            if o.d.get('times') is not None:
                t = self.intval(o.d['times'])
                if not self.branch(t > 0):
                    raise StopIter()
                self.put(it, times=self.ival(t - 1))
            return o.d['obj']
        if k == 'zip':
            vals = []
            for i, x in enumerate(o.d['its'].concrete()):
                try:
                    vals.append(self.next(x))
                except StopIter:
                    if o.d.get('strict'):
                        raise Unsupported('zip(strict)')
                    raise
            return TupV.of(*vals)
        if k == 'map':
            vals = [self.next(x) for x in o.d['its'].concrete()]
            return self.call(o.d['f'], vals)
        if k == 'starmap':
            x = self.next(o.d['src'])
            return self.call(o.d['f'], self.concrete_segs(self.as_segs(x)))
        if k == 'compress':
            for _ in range(64):
                d, s = o.d['its'].concrete()
                dv = self.next(d)
                sv = self.next(s)
                f = self.truth_f(sv)
                if f is True or (f is not False and self.branch(f)):
                    return dv
                if f is not False and self.itlen(it) is None:
                    raise Unsupported('compress with unknown selectors')
            raise Unsupported('compress')
        if k == 'enumerate':
            v = self.next(o.d['src'])
            cur = self.intval(o.d['cur'])
            self.put(it, cur=self.ival(cur + 1))
            return TupV.of(self.ival(cur), v)
        if k == 'genexp':
            n = o.d['node']
            if len(n.generators) != 1:
                raise Unsupported('nested generator expression pulled element by element')
            for _ in range(64):
                x = self.next(o.d['src'])
                g = n.generators[0]
                env = o.d['env']
                self.assign(g.target, x, env)
                ok = True
                for c in g.ifs:
                    if not self.truth(self.ev(c, env)):
                        ok = False
                        break
                if ok:
                    return self.ev(n.elt, env)
                if self.itlen(it) is None:
                    raise Unsupported('filtering generator pulled element by element')
            raise Unsupported('generator')
        if k == 'filter':
            for _ in range(64):
                x = self.next(o.d['src'])
                f = o.d['f']
                t = self.truth(x) if isinstance(f, PyC) and f.obj is None else self.truth(self.call(f, [x]))
                if t:
                    return x
                if self.itlen(o.d['src']) is None:
                    raise Unsupported('filter pulled element by element')
            raise Unsupported('filter')
        if k == 'takewhile':
            x = self.next(o.d['src'])
            if not self.truth(self.call(o.d['f'], [x])):
                raise StopIter()
            return x
        if k == 'chain':
            its = o.d['its'].concrete()
            while its:
                try:
                    return self.next(its[0])
                except StopIter:
                    its = its[1:]
                    self.put(it, its=TupV.of(*its))
            raise StopIter()
        raise Unsupported('next() of %s' % k)

    def consume(self, v, sink):
        """for x in v: sink(x)"""
        v = self.force(v)
        it = v if isinstance(v, Ref) and self.obj(v).kind == 'it' else self.iter(v)
        o = self.obj(it)
        k = o.d['k']
        if k == 'genexp' and (o.d['node'].generators[0].ifs or len(o.d['node'].generators) > 1):
            n = o.d['node']
            env = o.d['env']
            self.comp_levels(n, 0, o.d['src'], env, lambda e: sink(self.ev(n.elt, e)))
            return
        if k == 'genfn':
            if o.d['started']:
                raise Unsupported('generator resumed')
            self.put(it, started=True)
            env = o.d['env']
            self.st.heap[env] = self.st.heap[env].put(**{'#sink': sink})
            f = o.d['f']
            self.fnstack.append((f.mod.name, f.qual))
            try:
                self.body(o.d['node'].body, env)
            except ReturnSig:
                pass
            finally:
                self.fnstack.pop()
            return
        if k == 'filter':
            f = o.d['f']

            def s2(x):
                t = self.truth(x) if isinstance(f, PyC) and f.obj is None else self.truth(self.call(f, [x]))
                if t:
                    sink(x)
            return self.consume(o.d['src'], s2)
        if k == 'chain':
            for x in o.d['its'].concrete():
                self.consume(x, sink)
            return
        if k == 'enumerate' and self.obj(o.d['src']).d['k'] in ('genexp', 'filter', 'genfn', 'chain'):
            def s3(x):
                cur = self.intval(self.obj(it).d['cur'])
                self.put(it, cur=self.ival(cur + 1))
                sink(TupV.of(self.ival(cur), x))
            return self.consume(o.d['src'], s3)
        if k == 'map' and len(o.d['its'].concrete()) == 1 and self.obj(o.d['its'].concrete()[0]).d['k'] in ('genexp', 'filter', 'genfn', 'chain'):
            return self.consume(o.d['its'].concrete()[0], lambda x: sink(self.call(o.d['f'], [x])))
        self.run_loop(lambda: sink(self.next(it)), it)

    # ==================================================================
    # dictionaries
    # ==================================================================
    def new_dict(self, layers=(('empty',),)):
        return self.alloc('dict', {'layers': tuple(layers)})

    def keyof(self, v):
        v = self.force(v)
        return key(self.term(v))

    def hkey(self, v):
        """key of a value used as a dict key or set element: must be hashable"""
        v = self.force(v)
        self.need_hashable(v)
        self.comparing(v)
        return key(self.term(v))

    def need_hashable(self, v):
        if isinstance(v, PyC):
            try:
                hash(v.obj)
            except TypeError:
                self.raise_py(TypeError, 'unhashable')
            return
        if isinstance(v, (SInt, SBool, Func, Bound, BI)):
            return
        if isinstance(v, TupV):
            c = v.concrete()
            if c is not None:
                for x in c:
                    self.need_hashable(self.force(x))
                return
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind in ('list', 'dict') or (o.kind == 'set' and not o.d.get('frozen')):
                self.raise_py(TypeError, 'unhashable')
            return
        t = self.term(v)
        if not self.branch(hashable(t)):
            self.raise_py(TypeError, 'unhashable')

    def dict_set(self, d, k, v):
        kk = self.hkey(k)
        o = self.obj(d)
        if o.kind == 'cache':
            return self.cache_set(d, k, v)
        self.put(d, layers=o.d['layers'] + (('upd', kk, self.force(k), v),))

    # a cache: a dictionary of which only an invariant of the entries is known; entries are never removed
    def cache_hit_f(self, c, k):
        """the key is in the cache"""
        kk = self.hkey(k)
        recs = self.st.ghost.get('#cachest', ())
        old = [b for a, q, b in recs if a == c.a and q.eq(kk)]
        if True in old:
            return True
        b = self.fresh('hit', B)
        # it was there: it still is. Other functions may have added it
        for o in old:
            self.assume(z3.Implies(o, b))
        look = self.obj(c).d.get('#look')
        if look:
            look(self, c, k, b)
        self.st.ghost['#cachest'] = recs + ((c.a, kk, b),)
        return b

    def cache_lookup(self, c, k):
        """the entry, or None"""
        b = self.cache_hit_f(c, k)
        if b is True:
            return self.obj(c).d['#val'](self, c, k, True)
        if self.branch(b):
            return self.obj(c).d['#val'](self, c, k, False)
        return None

    def cache_set(self, c, k, v):
        kk = self.hkey(k)
        self.obj(c).d['#set'](self, c, k, v)
        self.st.ghost['#cachest'] = self.st.ghost.get('#cachest', ()) + ((c.a, kk, True),)

    def dict_has_f(self, d, kk):
        return self.layers_has(self.obj(d).d['layers'], kk)

    def layers_has(self, layers, kk):
        f = False
        for l in layers:
            if l[0] == 'empty':
                f = False
            elif l[0] == 'map':
                f = mhas(l[1], kk)
            elif l[0] == 'pred':
                f = l[1](kk)
            elif l[0] == 'upd':
                e = z3.simplify(l[1] == kk)
                f = self.f_or([f, True if z3.is_true(e) else False if z3.is_false(e) else e])
            elif l[0] == 'del':
                f = self.f_and([f, l[1] != kk])
            elif l[0] == 'bulk':
                lr, c = l[1], l[2]
                if not lr.ready:
                    raise Unsupported('a container filled by the loop is read inside the loop')
                w = c['w']
                if any(x[0] == 'del' for ls in c['writes'] for x in ls):
                    J = lr.J
                    alts = []
                    for p, ls in enumerate(c['writes']):
                        for x in ls:
                            if x[0] == 'upd':
                                alts.append(z3.substitute(z3.And(lr.cond(p), x[1] == z3.Const('kk!!', K)), (J, w(kk)), (z3.Const('kk!!', K), kk)))
                    f = z3.If(w(kk) >= 0, z3.Or(*alts) if alts else z3.BoolVal(False), z3.BoolVal(f) if isinstance(f, bool) else f)
                else:
                    f = self.f_or([f, w(kk) >= 0])
            else:
                raise Unsupported('layer')
        return f

    def dict_get(self, d, kk):
        """value of a key that is present"""
        return self.layers_get(self.obj(d).d['layers'], kk)

    def layers_get(self, layers, kk):
        for n in range(len(layers) - 1, -1, -1):
            l = layers[n]
            if l[0] == 'upd':
                if self.branch(l[1] == kk):
                    return l[3]
            elif l[0] == 'del':
                if self.branch(l[1] == kk):
                    raise PathDead()
            elif l[0] == 'bulk':
                lr, c = l[1], l[2]
                if not lr.ready:
                    raise Unsupported('a container filled by the loop is read inside the loop')
                w = c['w']
                if not self.branch(w(kk) >= 0):
                    continue
                J = lr.J
                idx = w(kk)
                ps = [p for p, ls in enumerate(c['writes']) if ls]
                if not ps:
                    raise PathDead()
                p = ps[self.choose(len(ps))]
                self.assume(z3.substitute(lr.cond(p), (J, idx)))
                for x in reversed(c['writes'][p]):
                    if x[0] == 'bulk':
                        r = self.inner_bulk_get(x, kk, J, idx, c)
                        if r is not None:
                            return r
                        continue
                    if self.branch(z3.substitute(x[1], (J, idx)) == kk):
                        if x[0] == 'del':
                            raise PathDead()
                        self.inst_foralls(idx)
                        return self.import_val(x[3], J, idx, lr.normal[p].st, c['base'])
                raise PathDead()
            elif l[0] == 'map':
                self.assume(mhas(l[1], kk))
                return SV(mget(l[1], kk))
            elif l[0] == 'empty':
                raise PathDead()
            else:
                raise Unsupported('layer')
        raise PathDead()

    def inner_bulk_get(self, x, kk, J, idx, outer):
        """value that an inner loop, in iteration idx of the outer one, wrote for kk"""
        lr2, c2 = x[1], x[2]
        wt = z3.substitute(c2['w'](kk), (J, idx))
        if not self.branch(wt >= 0):
            return None
        ps = [p for p, ls in enumerate(c2['writes']) if ls]
        if not ps:
            raise PathDead()
        p = ps[self.choose(len(ps))]
        two = lambda f: z3.substitute(z3.substitute(f, (J, idx)), (lr2.J, wt))
        self.assume(two(lr2.cond(p)))
        for y in reversed(c2['writes'][p]):
            if y[0] == 'bulk':
                raise Unsupported('three nested loops fill the same container')
            if self.branch(two(y[1]) == kk):
                if y[0] == 'del':
                    raise PathDead()
                v = self.import_val(y[3], lr2.J, wt, lr2.normal[p].st, c2['base'])
                return self.import_val(v, J, idx, self.st, outer['base'])
        raise PathDead()

    def dict_getitem(self, d, k):
        kk = self.hkey(k)
        if not self.branch(self.dict_has_f(d, kk)):
            self.raise_py(KeyError, 'key')
        return self.dict_get(d, kk)

    def dict_concrete_items(self, v):
        """[(str, Val)] when the dictionary has a fixed list of constant keys"""
        if isinstance(v, PyC) and isinstance(v.obj, dict):
            return [(k, self.wrap(x)) for k, x in v.obj.items()]
        if isinstance(v, Ref) and self.obj(v).kind == 'dict':
            c = self.concrete_layers(self.obj(v).d['layers'])
            if c is not None and all(isinstance(k, PyC) for k, _ in c):
                return [(k.obj, x) for k, x in c]
        return None

    def concrete_layers(self, layers):
        out = []
        for l in layers:
            if l[0] == 'empty':
                continue
            if l[0] == 'del' and len(l) > 2 and isinstance(l[2], PyC):
                out = [q for q in out if q[0].obj != l[2].obj]
                continue
            if l[0] != 'upd' or not isinstance(l[2], PyC):
                return None
            for i, (k, x) in enumerate(out):
                if k.obj == l[2].obj:
                    out[i] = (k, l[3])
                    break
            else:
                out.append((l[2], l[3]))
        return out

    def dict_view(self, v, what):
        o = self.obj(v)
        if o.kind == 'cache':
            raise Unsupported('iteration over a cache')
        layers = o.d['layers']
        pick = {'keys': lambda k, x: k, 'values': lambda k, x: x, 'items': lambda k, x: TupV.of(k, x)}[what]
        c = self.concrete_layers(layers)
        if c is not None:
            return [[pick(k, x) for k, x in c]]
        if len(layers) == 1 and layers[0][0] == 'map':
            t = layers[0][1]
            return self.map_view(t, what)
        ob = self.ordered_bulk(layers)
        if ob is not None:
            n, item = ob

            def oel(E, i):
                kx, x = item(E, i)
                return pick(kx, x)
            return [Seq(n, oel)]
        n, ekey = self.enum_of(('d', layers), lambda kk: self.layers_has(layers, kk))

        def el(E, i):
            kt = ekey(i)
            E.assume(E.layers_has(layers, key(kt)))
            if what == 'keys':
                return SV(kt)
            x = E.layers_get(layers, key(kt))
            return x if what == 'values' else TupV.of(SV(kt), x)
        return [Seq(n, el)]

    def ordered_bulk(self, layers):
        """a dict filled by a loop with one new key per iteration is iterated in the order of the loop"""
        if len(layers) != 2 or layers[0][0] != 'empty' or layers[1][0] != 'bulk':
            return None
        lr, c = layers[1][1], layers[1][2]
        if not lr.ready or not all(len(ls) == 1 and ls[0][0] == 'upd' for ls in c['writes']) or not lr.normal:
            return None
        J = lr.J
        cache = self.st.ghost.get('#ordered', ())
        known = [r for l, r in cache if l is layers[1]]
        if known:
            good = known[0]
        else:
            i, j = self.fresh('oi', I), self.fresh('oj', I)
            hyp = [i >= 0, i < j, j < self.sub(J), self.n_formula(lr, i), self.n_formula(lr, j)]
            good = True
            for p, ls in enumerate(c['writes']):
                for q, ms in enumerate(c['writes']):
                    f = z3.Implies(z3.And(*hyp, z3.substitute(lr.cond(p), (J, i)), z3.substitute(lr.cond(q), (J, j))),
                                   z3.substitute(ls[0][1], (J, i)) != z3.substitute(ms[0][1], (J, j)))
                    if good and not self.proves(f, timeout=2000000):
                        good = False
            self.st.ghost['#ordered'] = cache + ((layers[1], good),)
        if not good:
            return None

        def item(E, i):
            i = i if isinstance(i, z3.ExprRef) else z3.IntVal(i)
            p = E.choose(len(c['writes']))
            E.assume(z3.substitute(lr.cond(p), (J, i)))
            l = c['writes'][p][0]
            E.assume(c['w'](z3.substitute(l[1], (J, i))) == i)
            E.inst_foralls(i)
            src = lr.normal[p].st
            return E.import_val(l[2], J, i, src, c['base']), E.import_val(l[3], J, i, src, c['base'])
        return J, item

    def map_view(self, t, what):
        self.declare_map(t)

        def el(E, i):
            tt = E.sub(t) if E.substs else t
            kt = mkey(tt, i)
            vt = mget(tt, key(kt))
            return SV(kt) if what == 'keys' else SV(vt) if what == 'values' else TupV.of(SV(kt), SV(vt))
        return [Seq(mn(t), el)]

    def enum_of(self, ident, mem):
        """enumeration, in an unknown order, of a finite set of keys"""
        cache = self.st.ghost.get('#enums', ())
        for i2, r in cache:
            if i2[0] == ident[0] and len(i2[1]) == len(ident[1]) and all(x is y for x, y in zip(i2[1], ident[1])):
                return r
        self.st.ctr += 1
        j = self.st.jctx
        sfx = '!%d.%d' % (self.cur_explore, self.st.ctr)
        n = z3.Function('enn' + sfx, *([I] * len(j)), I)(*j) if j else z3.Const('enn' + sfx, I)
        fk = z3.Function('en!' + sfx, *([I] * len(j)), I, V)
        fi = z3.Function('eni!' + sfx, *([I] * len(j)), K, I)
        fk2 = lambda i: fk(*j, i)
        fi2 = lambda k: fi(*j, k)
        i = z3.Int('qe')
        k = z3.Const('qk', K)
        m = mem(key(fk2(i)))
        m = z3.BoolVal(m) if isinstance(m, bool) else m
        self.assume(n >= 0)
        self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(m, fi2(key(fk2(i))) == i, hashable(fk2(i)))), patterns=[fk2(i)]))
        m = mem(k)
        m = z3.BoolVal(m) if isinstance(m, bool) else m
        body = z3.Implies(m, z3.And(fi2(k) >= 0, fi2(k) < n, key(fk2(fi2(k))) == k))
        self.assume(z3.ForAll([k], body, patterns=[fi2(k)]))
        pats = collect_patterns(m, k)
        if pats:
            self.assume(z3.ForAll([k], body, patterns=pats))
        r = (n, fk2, fi2)
        self.st.ghost['#enums'] = cache + ((ident, r[:2]),)
        self.st.ghost['#enumidx'] = self.st.ghost.get('#enumidx', ()) + ((ident, fi2),)
        return r[:2]

    def dict_update(self, d, other):
        self.frame_write(d, 'update')
        other = self.force(other)
        c = self.dict_concrete_items(other)
        if c is not None:
            for k, x in c:
                self.dict_set(d, self.wrap(k), x)
            return
        o = self.obj(d)
        if isinstance(other, Ref) and self.obj(other).kind == 'dict':
            if self.concrete_layers(o.d['layers']) == []:
                self.put(d, layers=self.obj(other).d['layers'])
                return
            ol = self.obj(other).d['layers']
            if ol[0][0] == 'empty':
                self.put(d, layers=o.d['layers'] + ol[1:])
                return
        if isinstance(other, SV):
            self.need_mapping(other.t)
            if self.concrete_layers(o.d['layers']) == []:
                self.put(d, layers=(('map', other.t),))
                return
        self.consume(self.items_iter(other), lambda kv: self.dict_set(d, kv.concrete()[0], kv.concrete()[1]))

    def items_iter(self, v):
        v = self.force(v)
        if isinstance(v, Ref) and self.obj(v).kind == 'dict':
            segs = self.dict_view(v, 'items')
        elif isinstance(v, SV):
            self.need_mapping(v.t)
            segs = self.map_view(v.t, 'items')
        elif isinstance(v, PyC) and isinstance(v.obj, dict):
            segs = [[TupV.of(self.wrap(a), self.wrap(b)) for a, b in v.obj.items()]]
        else:
            raise Unsupported('items of %r' % (v,))
        return self.alloc('it', {'k': 'seq', 'segs': tuple(segs), 'pos': PyC(0)})

    def need_mapping(self, t):
        if self.known_map(t):
            return
        if not self.branch(maplike(t)):
            self.raise_py(TypeError, 'not a mapping')
        self.declare_map(t)

    def dict_nonempty_f(self, d):
        layers = self.obj(d).d['layers']
        c = self.concrete_layers(layers)
        if c is not None:
            return len(c) > 0
        if len(layers) == 1 and layers[0][0] == 'map':
            return mn(layers[0][1]) > 0
        return self.nonempty(('dn', layers), lambda kk: self.layers_has(layers, kk))

    def nonempty(self, ident, mem):
        cache = self.st.ghost.get('#ne', ())
        for i2, r in cache:
            if i2[0] == ident[0] and len(i2[1]) == len(ident[1]) and all(x is y for x, y in zip(i2[1], ident[1])):
                return r
        b = self.fresh('ne', B)
        sk = self.fresh('nek', K)
        k = z3.Const('qk', K)
        m = mem(sk)
        self.assume(z3.Implies(b, m if not isinstance(m, bool) else z3.BoolVal(m)))
        m = mem(k)
        m = z3.BoolVal(m) if isinstance(m, bool) else m
        pats = collect_patterns(m, k)
        self.assume(z3.Implies(z3.Not(b), z3.ForAll([k], z3.Not(m), patterns=pats) if pats else z3.ForAll([k], z3.Not(m))))
        self.st.ghost['#ne'] = cache + ((ident, b),)
        self.st.ghost['#nel'] = self.st.ghost.get('#nel', ()) + ((ident, b, sk, mem),)
        return b

    # ==================================================================
    # sets
    # ==================================================================
    def new_set(self, layers=(('empty',),), frozen=False):
        return self.alloc('set', {'layers': tuple(layers), 'frozen': frozen})

    def set_add(self, s, v):
        kk = self.hkey(v)
        self.frame_write(s, 'add')
        self.put(s, layers=self.obj(s).d['layers'] + (('upd', kk, self.force(v), TRUE),))

    def mem_fn(self, v):
        """host predicate: formula of membership of a key, for a set-like Val"""
        v = self.force(v)
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind in ('set', 'dict'):
                layers = o.d['layers']
                return lambda kk: self.layers_has(layers, kk), ('L', layers)
            if o.kind == 'view' and o.d['what'] == 'keys':
                return self.mem_fn(o.d['dict'])
        if isinstance(v, PyC) and isinstance(v.obj, (set, frozenset, dict)):
            ks = [key(self.const(x)) for x in v.obj]
            return lambda kk: self.f_or([kk == x for x in ks]), ('L', tuple(('upd', x, None, None) for x in ks))
        if isinstance(v, SV):
            t = v.t
            if self.known_map(t):
                return lambda kk: mhas(t, kk), ('L', (('map', t),))
        return None, None

    def set_of(self, v, frozen=False):
        """set(v)"""
        v = self.force(v)
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind in ('set', 'dict'):
                return self.new_set(o.d['layers'], frozen)
            if o.kind == 'view' and o.d['what'] == 'keys':
                return self.set_of(o.d['dict'], frozen)
        if isinstance(v, SV) and self.known_map(v.t):
            return self.new_set((('map', v.t),), frozen)
        if isinstance(v, SV) and not self.const_objs.get(v.t.get_id()):
            fs = self.st.ghost.get('#setlike', {})
            if v.t.get_id() in fs:
                return self.new_set((('pred', lambda kk, t=v.t: fn('smem', V, K, B)(t, kk)),), frozen)
        acc = self.new_set()
        self.consume(self.iter(v), lambda x: self.set_add(acc, x))
        if frozen:
            self.put(acc, frozen=True)
        return acc

    def set_enum(self, v):
        layers = self.obj(v).d['layers']
        c = self.concrete_layers(layers)
        if c is not None:
            return [[k for k, _ in c]]
        if all(l[0] in ('empty', 'upd') for l in layers):
            # a few symbolic elements: pairwise comparison
            out = []
            for l in layers:
                if l[0] == 'upd':
                    if not any(self.branch(l[1] == x[0]) for x in out):
                        out.append((l[1], l[2]))
            return [[x for _, x in out]]
        if len(layers) == 1 and layers[0][0] == 'map':
            return self.map_view(layers[0][1], 'keys')
        n, ekey = self.enum_of(('s', layers), lambda kk: self.layers_has(layers, kk))

        def el(E, i):
            kt = ekey(i)
            m = E.layers_has(layers, key(kt))
            E.assume(m if not isinstance(m, bool) else z3.BoolVal(m))
            return SV(kt)
        return [Seq(n, el)]

    def set_nonempty_f(self, s):
        layers = self.obj(s).d['layers']
        c = self.concrete_layers(layers)
        if c is not None:
            return len(c) > 0
        return self.nonempty(('L', layers), lambda kk: self.layers_has(layers, kk))

    def forall_mem(self, m_if, m_then):
        """(b, facts): b <=> forall k. m_if(k) => m_then(k)"""
        b = self.fresh('sub', B)
        sk = self.fresh('subk', K)
        k = z3.Const('qk', K)
        tob = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x
        self.assume(z3.Implies(z3.Not(b), z3.And(tob(m_if(sk)), z3.Not(tob(m_then(sk))))))
        body = z3.Implies(tob(m_if(k)), tob(m_then(k)))
        pats = collect_patterns(body, k)
        self.assume(z3.Implies(b, z3.ForAll([k], body, patterns=pats) if pats else z3.ForAll([k], body)))
        self.st.ghost['#subs'] = self.st.ghost.get('#subs', ()) + ((b, sk, m_if, m_then),)
        return b

    def set_eq_f(self, a, b):
        ma, _ = self.mem_fn(a)
        mb, _ = self.mem_fn(b)
        return z3.And(self.forall_mem(ma, mb), self.forall_mem(mb, ma))

    def set_op(self, op, a, b):
        ma, ia = self.mem_fn(a)
        mb, ib = self.mem_fn(b)
        if mb is None:
            b = self.set_of(b)
            mb, ib = self.mem_fn(b)
        if op == 'and':
            f = lambda kk: self.f_and([ma(kk), mb(kk)])
        elif op == 'or':
            f = lambda kk: self.f_or([ma(kk), mb(kk)])
        elif op == 'sub':
            f = lambda kk: self.f_and([ma(kk), self.f_not(mb(kk))])
        elif op == 'xor':
            f = lambda kk: z3.Xor(ma(kk), mb(kk))
        r = self.new_set((('pred', f),))
        self.put(r, parts=(op, (ia, ma), (ib, mb)))
        return r

    def same_ident(self, x, y):
        return x[0] == y[0] and len(x[1]) == len(y[1]) and all(p is q for p, q in zip(x[1], y[1]))

    def set_len(self, s):
        o = self.obj(s)
        layers = o.d['layers']
        c = self.concrete_layers(layers)
        if c is not None:
            return PyC(len(c))
        ne = self.set_nonempty_f(s) if o.kind == 'set' else self.dict_nonempty_f(s)
        return SInt(self.card(('L', layers), ne, o.d.get('parts')))

    def card(self, ident, ne=None, parts=None):
        """cardinality; with the facts |A|=0 <=> A empty, A&B = A <=> |A&B| = |A|, ..."""
        cards = self.st.ghost.get('#cards', ())
        for i2, n, p in cards:
            if self.same_ident(i2, ident):
                return n
        n = self.fresh('card', I)
        self.assume(n >= 0)
        if ne is not None:
            ne = z3.BoolVal(ne) if isinstance(ne, bool) else ne
            self.assume(ne == (n > 0))
        if len(ident[1]) == 1 and ident[1][0][0] == 'map':
            self.assume(n == mn(ident[1][0][1]))
        self.st.ghost['#cards'] = self.st.ghost.get('#cards', ()) + ((ident, n, parts),)
        # relate with the other cardinalities of this path
        for i2, n2, p2 in self.st.ghost['#cards']:
            for (pi, pn, pp), (qi, qn) in (((ident, n, parts), (i2, n2)), ((i2, n2, p2), (ident, n))):
                if pp is None:
                    continue
                op, (ia, ma), (ib, mb) = pp
                for (x, mx), (y, my) in (((ia, ma), (ib, mb)), ((ib, mb), (ia, ma))):
                    if not self.same_ident(x, qi):
                        continue
                    if op == 'and':
                        self.assume(pn <= qn)
                        self.assume((pn == qn) == self.forall_mem(mx, my))
                    elif op == 'or':
                        self.assume(pn >= qn)
                        self.assume((pn == qn) == self.forall_mem(my, mx))
                    elif op == 'sub' and x is ia:
                        self.assume(pn <= qn)
        return n

    # ==================================================================
    # containment, operators
    # ==================================================================
    uncomparable = None     # set by a contract: comparing these values with others can fail

    def comparing(self, x):
        if self.uncomparable is not None and isinstance(x, SV) and self.uncomparable(x.t):
            if not self.branch(fn('comparable', K, B)(key(x.t))):
                raise Raise(self.new_sym_exc('uncomparable', Exception))

    def contains_f(self, c, x):
        c = self.force(c)
        x = self.force(x)
        self.comparing(x)
        if isinstance(c, PyC):
            if isinstance(c.obj, (set, frozenset, dict)):
                if isinstance(x, PyC):
                    try:
                        return x.obj in c.obj
                    except TypeError:
                        self.raise_py(TypeError, 'unhashable')
                kk = self.hkey(x)
                return self.f_or([kk == key(self.const(y)) for y in c.obj])
            if isinstance(c.obj, (tuple, list)):
                return self.f_or([self.eq_f(x, self.wrap(y)) for y in c.obj])
            if isinstance(x, PyC):
                try:
                    return x.obj in c.obj
                except Exception as e:
                    self.raise_py(type(e), str(e))
            raise Unsupported('in')
        segs = None
        if isinstance(c, TupV):
            segs = c.segs
        elif isinstance(c, Ref):
            o = self.obj(c)
            if o.kind in ('set', 'dict'):
                kk = self.hkey(x)
                return self.layers_has(o.d['layers'], kk)
            if o.kind == 'view':
                if o.d['what'] == 'keys':
                    return self.contains_f(o.d['dict'], x)
            if o.kind == 'cache':
                return self.cache_hit_f(c, x)
            if o.kind == 'list':
                segs = o.d['segs']
            if o.kind == 'dirof':
                if isinstance(x, PyC) and isinstance(x.obj, str):
                    return self.hasattr_f(o.d['obj'], x.obj)
        elif isinstance(c, SV):
            if self.known_seq(c.t):
                return self.inseq_f(c.t, self.keyof(x))
            if self.known_map(c.t):
                kk = self.hkey(x)
                return mhas(c.t, kk)
            f = self.sv_contains(c.t, x)
            if f is not None:
                return f
        if segs is not None:
            out = []
            for s in segs:
                if isinstance(s, Seq):
                    raise Unsupported('in a symbolic sequence')
                out += [self.eq_f(x, y) for y in s]
            return self.f_or(out)
        raise Unsupported('in %r' % (c,))

    def sv_contains(self, t, x):
        if t.get_id() in self.st.ghost.get('#setlike', {}):
            return fn('smem', V, K, B)(t, self.hkey(x))
        return None

    def inseq_f(self, t, kk):
        """kk is the key of an element of the sequence t"""
        f = fn('inseq', V, K, B)
        ix = fn('sidx', V, K, I)
        done = self.st.ghost.get('#inseq', ())
        if not any(x.eq(t) for x in done):
            self.st.ghost['#inseq'] = done + (t,)
            k = z3.Const('qk', K)
            i = z3.Int('qi')
            self.assume(z3.ForAll([k], z3.Implies(f(t, k), z3.And(ix(t, k) >= 0, ix(t, k) < it_n(t), key(it_el(t, ix(t, k))) == k)),
                                  patterns=[f(t, k)]))
            self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < it_n(t)), f(t, key(it_el(t, i)))), patterns=[it_el(t, i)]))
            n = self.concrete_int(it_n(t))
            if n is not None:
                self.assume(z3.ForAll([k], f(t, k) == (z3.Or(*[k == key(it_el(t, z3.IntVal(j))) for j in range(n)]) if n else z3.BoolVal(False)),
                                      patterns=[f(t, k)]))
        return f(t, kk)

    def binop_ext(self, on, a, b):
        kinds = []
        for x in (a, b):
            kinds.append(self.obj(x).kind if isinstance(x, Ref) else 'tup' if isinstance(x, TupV) else None)
        setlike = lambda x, k: k in ('set',) or (k == 'view') or (isinstance(x, PyC) and isinstance(x.obj, (set, frozenset)))
        if setlike(a, kinds[0]) and setlike(b, kinds[1]):
            op = {'BitAnd': 'and', 'BitOr': 'or', 'Sub': 'sub', 'BitXor': 'xor'}.get(on)
            if op:
                return self.set_op(op, a, b)
        if on == 'Add':
            if kinds[0] == 'list' and kinds[1] == 'list':
                return self.alloc('list', {'segs': tuple(self.obj(a).d['segs']) + tuple(self.obj(b).d['segs'])})
            if kinds[0] == 'tup' and kinds[1] == 'tup':
                return TupV(list(a.segs) + list(b.segs))
            sa, sb = self.is_str(a), self.is_str(b)
            if sa and sb:
                return self.str_build([self.strpart(a), self.strpart(b)])
            if (kinds[0] == 'list') != (kinds[1] == 'list') and not isinstance(a, SV) and not isinstance(b, SV):
                self.raise_py(TypeError, 'concatenation')
            if sa != sb and not (isinstance(a, SV) and isinstance(b, SV)):
                o = b if sa else a
                if isinstance(o, (TupV, Ref, PyC, SInt)):
                    self.raise_py(TypeError, 'str concatenation')
                if isinstance(o, SV):
                    if self.branch(isinst(o.t, self.const(str))):
                        return self.str_build([self.strpart(a), self.strpart(b)])
                    self.raise_py(TypeError, 'str concatenation')
        if on == 'Mult':
            for x, y in ((a, b), (b, a)):
                if isinstance(x, PyC) and isinstance(x.obj, str) and (isinstance(y, SInt)):
                    return self.str_build([('s', self.new_str('pad'))])
        if on == 'BitOr' and kinds[0] == 'dict':
            d = self.new_dict(self.obj(a).d['layers'])
            self.dict_update(d, b)
            return d
        return None

    def compare_ext(self, on, a, b):
        kinds = []
        for x in (a, b):
            kinds.append(self.obj(x).kind if isinstance(x, Ref) else None)
        setlike = lambda x, k: k in ('set', 'view') or (isinstance(x, PyC) and isinstance(x.obj, (set, frozenset)))
        if setlike(a, kinds[0]) and setlike(b, kinds[1]):
            ma, _ = self.mem_fn(a)
            mb, _ = self.mem_fn(b)
            if on == 'LtE':
                return self.forall_mem(ma, mb)
            if on == 'GtE':
                return self.forall_mem(mb, ma)
            if on == 'Lt':
                return z3.And(self.forall_mem(ma, mb), z3.Not(self.forall_mem(mb, ma)))
            if on == 'Gt':
                return z3.And(self.forall_mem(mb, ma), z3.Not(self.forall_mem(ma, mb)))
        return None

    # ==================================================================
    # strings: only their being strings and the pieces they contain are tracked
    # ==================================================================
    def is_str(self, v):
        v = self.force(v)
        if isinstance(v, PyC):
            return isinstance(v.obj, str)
        if isinstance(v, SV):
            return v.t.get_id() in self.st.ghost.get('#strs', {})
        return False

    def new_str(self, name='str', parts=()):
        t = self.fresh(name)
        self.assume(z3.And(isinst(t, self.const(str)), typeof(t) == self.const(str), hashable(t)))
        d = dict(self.st.ghost.get('#strs', {}))
        d[t.get_id()] = (t, tuple(parts))
        self.st.ghost['#strs'] = d
        if parts and isinstance(parts[0], str) and parts[0]:
            # its first character: it is no other string that is known to begin in another way
            self.assume(fn('str_first', K, I)(key(t)) == ord(parts[0][0]))
        return SV(t)

    def str_parts(self, v):
        """the pieces that v was built from, or None"""
        v = self.force(v)
        if isinstance(v, PyC) and isinstance(v.obj, str):
            return (v.obj,)
        if isinstance(v, SV):
            q = self.st.ghost.get('#strs', {}).get(v.t.get_id())
            return None if q is None else q[1]
        return None

    def str_method(self, v, name):
        h = STR_METHODS[name] if name in ('join', 'format') else sym_strip
        return BI(name, lambda E, a, k: h(E, v, a, k))

    def strpart(self, v):
        v = self.force(v)
        if isinstance(v, PyC):
            return v.obj if isinstance(v.obj, str) else ('s', v)
        return ('s', v)

    def str_build(self, parts):
        """the concatenation of literal strings and of str() of values"""
        flat = []
        for p in parts:
            if isinstance(p, str):
                if p:
                    flat.append(p)
            else:
                x = self.force(p[1])
                if isinstance(x, PyC) and isinstance(x.obj, (str, int, type(None), type)):
                    s = str(x.obj)
                    if s:
                        flat.append(s)
                    continue
                if isinstance(x, SV) and x.t.get_id() in self.st.ghost.get('#strs', {}):
                    sub = self.st.ghost['#strs'][x.t.get_id()][1]
                    flat.append(('t', x.t, sub))
                    continue
                flat.append(('t', self.py_str(x).t, ()))
        if all(isinstance(x, str) for x in flat):
            return PyC(''.join(flat))
        if len(flat) == 1 and not isinstance(flat[0], str):
            return SV(flat[0][1])
        return self.new_str('cat', flat)

    def py_str(self, v):
        """str(v)"""
        v = self.force(v)
        if isinstance(v, PyC) and isinstance(v.obj, (str, int, float, type(None), type)):
            return PyC(str(v.obj))
        if self.is_str(v):
            return v
        if isinstance(v, Ref) and self.obj(v).kind in ('exc', 'inst') and self.obj(v).d.get('#cls') is not None:
            m = self.class_attr(self.obj(v).d['#cls'], '__str__')
            if isinstance(m, Func):
                return self.call(m, [v])
        if isinstance(v, SV):
            self.printable(v)
            t = fn('str_of', V, V)(v.t)
            self.assume(z3.And(isinst(t, self.const(str)), typeof(t) == self.const(str), hashable(t)))
            self.assume(z3.Implies(typeof(v.t) == self.const(str), t == v.t))
            d = dict(self.st.ghost.get('#strs', {}))
            d[t.get_id()] = (t, ())
            self.st.ghost['#strs'] = d
            return SV(t)
        self.printable(v)
        return self.new_str('str')

    def py_repr(self, v):
        v = self.force(v)
        if not self.is_str(v) and not isinstance(v, PyC):
            self.printable(v)
        return self.new_str('repr')

    def printable(self, v):
        """str() and repr() of a value may fail: integers can be huge, data too nested"""
        if isinstance(v, SV):
            p = fn('printable', K, B)(key(v.t))
            self.assume(z3.Implies(self.isinst_term(v.t, str), p))
            if not self.branch(p):
                raise Raise(self.new_sym_exc('unprintable', Exception))
        elif isinstance(v, (Ref, TupV)) and not self.printable_containers:
            if isinstance(v, Ref) and self.obj(v).kind not in ('list', 'dict', 'set', 'frozenset', 'tuple', 'view'):
                return
            if not self.branch(self.fresh('printable', B)):
                raise Raise(self.new_sym_exc('unprintable', Exception))

    printable_containers = False    # set by a contract, where the containers that are printed are known to hold names

    FMT = re.compile(r'%(?:\([^)]*\))?[#0\- +]*(?:\*|\d+)?(?:\.(?:\*|\d+))?([a-zA-Z%])')

    def str_mod(self, fmt, arg):
        """fmt % arg"""
        specs = [m for m in self.FMT.finditer(fmt) if m.group(1) != '%']
        arg = self.force(arg)
        if isinstance(arg, TupV):
            vals = arg.concrete()
            if vals is None:
                if not self.branch(self.seq_len(arg) == len(specs)):
                    self.raise_py(TypeError, 'format arguments')
                vals = [self.segs_get(arg.segs, i) for i in range(len(specs))]
        elif isinstance(arg, PyC) and isinstance(arg.obj, tuple):
            vals = [self.wrap(x) for x in arg.obj]
        elif isinstance(arg, SV):
            # what equals a tuple is a tuple
            self.assume(self.isinst_term(arg.t, tuple) == fn('tuplekey', K, B)(key(arg.t)))
            if not self.is_str(arg) and self.branch(self.isinst_term(arg.t, tuple)):
                if not self.branch(it_n(arg.t) == len(specs)):
                    self.raise_py(TypeError, 'not all arguments converted')
                vals = [SV(it_el(arg.t, z3.IntVal(i))) for i in range(len(specs))]
            else:
                vals = [arg]
        else:
            vals = [arg]
        if len(vals) != len(specs):
            self.raise_py(TypeError, 'format arguments')
        parts = []
        pos = 0
        j = 0
        for m in self.FMT.finditer(fmt):
            parts.append(fmt[pos:m.start()])
            pos = m.end()
            if m.group(1) == '%':
                parts.append('%')
                continue
            x = self.force(vals[j])
            j += 1
            if m.group(1) in 'diuxXofFeEgGc':
                if self.intval(x) is None:
                    if isinstance(x, PyC) and isinstance(x.obj, (int, float)):
                        pass
                    elif isinstance(x, SV):
                        if not self.branch(z3.Or(self.isinst_term(x.t, int), self.isinst_term(x.t, float))):
                            self.raise_py(TypeError, 'a number is required')
                    else:
                        self.raise_py(TypeError, 'a number is required')
                if isinstance(x, SV):
                    self.printable(x)
                parts.append(('s', x))
            elif m.group(1) == 's':
                parts.append(('s', x))
            else:
                parts.append(('s', self.py_repr(x)))
        parts.append(fmt[pos:])
        return self.str_build(parts)

    def str_join(self, sep, it):
        acc = self.alloc('list', {'segs': ()})

        def each(x):
            x = self.force(x)
            if not self.is_str(x):
                if isinstance(x, SV):
                    if not self.branch(self.isinst_term(x.t, str)):
                        self.raise_py(TypeError, 'expected str instance')
                else:
                    self.raise_py(TypeError, 'expected str instance')
            self.list_append(acc, x)
        self.consume(it, each)
        segs = self.obj(acc).d['segs']
        c = self.concrete_segs(segs)
        if c is not None:
            parts = []
            for i, x in enumerate(c):
                if i:
                    parts.append(('s', sep))
                parts.append(('s', x))
            return self.str_build(parts) if parts else PyC('')
        return self.new_str('join', [('join', sep, tuple(segs))])

    # ==================================================================
    # attributes of unknown objects
    # ==================================================================
    def hasattr_sv(self, t, name):
        f = self.nofork_hasattr.get(name)
        if f is not None:
            r = f(self, t)
            if r is not None:
                return r
        return fn('has_' + name, V, B)(t)

    def getattr_sv(self, t, name, default=None):
        if name == '__class__':
            return SV(typeof(t))
        h = self.hasattr_sv(t, name)
        if not (h if isinstance(h, bool) else self.branch(h)):
            if default is not None:
                return default
            self.raise_py(AttributeError, name)
        m = self.sv_methods.get(name)
        if m is not None:
            r = m(self, t)
            if r is not None:
                return r
        a = fn('attr_' + name, V, V)(t)
        if name in self.seq_attrs and not self.known_seq(a):
            self.declare_seq(a)
        f = self.attr_facts.get(name)
        if f is not None:
            f(self, t, a)
        return SV(a)

    def call_sv(self, t, args, kwargs):
        for h in self.sv_calls:
            r = h(self, t, args, kwargs)
            if r is not SENTINEL:
                return r
        raise Unsupported('call of an unknown object %s' % t)

    def sym_exc_attr(self, v, name, default):
        o = self.obj(v)
        mk = o.d.get('#attrs')
        if mk and name in mk:
            x = mk[name](self, v)
            self.put(v, **{name: x})
            return x
        if name == 'args':
            x = TupV([Seq(self.nat('nargs'), lambda E, i, t=o.term: SV(fn('exc_arg', V, I, V)(t, i)))])
            self.put(v, args=x)
            return x
        if name == '__class__':
            return SV(typeof(o.term))
        raise Unsupported('attribute %s of an unknown exception' % name)

    def nat(self, name):
        n = self.fresh(name, I)
        self.assume(n >= 0)
        return n

    # ==================================================================
    # methods of builtin types
    # ==================================================================
    def builtin_method(self, v, o, name):
        if isinstance(v, PyC):
            if isinstance(v.obj, str):
                h = STR_METHODS.get(name)
            elif isinstance(v.obj, dict):
                h = PYDICT_METHODS.get(name)
            elif isinstance(v.obj, type) and name in ('fromisoformat', 'isoformat'):
                return None
            else:
                h = None
        elif isinstance(v, TupV):
            h = TUPLE_METHODS.get(name)
        elif o.kind == 'super':
            return self.super_method(v, o, name)
        elif o.kind == 'view':
            h = {'isdisjoint': None}.get(name)
        elif o.kind == 'cache':
            h = CACHE_METHODS.get(name)
        elif o.kind == 'exc':
            if name == 'with_traceback':
                return BI('with_traceback', lambda E, a, k: v)
            if name == 'add_note':
                return BI('add_note', lambda E, a, k: NONE)
            return None
        else:
            h = METHODS.get((o.kind, name))
        if h is None:
            return None
        return BI(name, lambda E, a, k: h(E, v, a, k))

    def super_method(self, v, o, name):
        selfv, cls = o.d['self'], o.d['cls']
        real = self.obj(selfv).d['#cls']
        m = self.class_attr(real, name, after=cls)
        if isinstance(m, Func):
            return Bound(m, selfv)
        if name == '__init__':
            def init(E, a, k):
                if E.obj(selfv).kind == 'exc':
                    if k:
                        E.raise_py(TypeError, 'no keyword arguments')
                    E.put(selfv, args=TupV.of(*a))
                return NONE
            return BI('super().__init__', init)
        if name == '__str__':
            def st(E, a, k):
                c = E.getattr(selfv, 'args').concrete()
                if c is not None and len(c) == 1:
                    return E.py_str(c[0])
                return E.new_str('excstr')
            return BI('super().__str__', st)
        raise Unsupported('super().%s' % name)

    # ==================================================================
    # calls of concrete callables
    # ==================================================================
    def call_pyc(self, f, args, kwargs):
        try:
            h = self.table.get(f)
        except TypeError:
            h = None
        if h is not None:
            self.trusted_used[getattr(f, '__qualname__', repr(f))] = self.trusted_used.get(getattr(f, '__qualname__', repr(f)), 0) + 1
            return h(self, args, kwargs)
        if self.is_repo_class(f):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, type) and issubclass(f, BaseException):
            d = {'#cls': f, 'args': TupV.of(*args)}
            return self.alloc('exc', d)
        h = self.call_ext(f, args, kwargs)
        if h is not SENTINEL:
            return h
        # a pure function of constants
        if all(isinstance(a, PyC) for a in args) and all(isinstance(a, PyC) for a in kwargs.values()) and self.pure(f):
            try:
                return self.wrap(f(*[a.obj for a in args], **{k: a.obj for k, a in kwargs.items()}))
            except Exception as e:
                self.raise_py(type(e), str(e))
        raise Unsupported('call of %r' % (f,))

    def call_ext(self, f, args, kwargs):
        return SENTINEL

    def pure(self, f):
        m = getattr(f, '__module__', None)
        return m in ('builtins', 'typing', 'operator', 'functools', 're') or isinstance(f, type(len))


# ----------------------------------------------------------------------
# functions
# ----------------------------------------------------------------------
def b_isinstance(E, a, k):
    c = E.force(a[1])
    if isinstance(c, TupV) and c.concrete() is None:
        # a tuple of unknown length: one after the other
        def sink(x):
            x = E.force(x)
            if isinstance(x, SV) and not E.branch(isinst(x.t, E.const(type))):
                E.raise_py(TypeError, 'isinstance() arg 2 must be a class')
            if E.branch(E.isinstance_f(a[0], x)):
                raise BreakSig(('sc',), 'sc')
        try:
            E.consume(E.iter(c), sink)
        except BreakSig as b:
            if b.owner != 'sc':
                raise
            return TRUE
        return FALSE
    return E.bval(E.isinstance_f(a[0], a[1]))


def b_issubclass(E, a, k):
    x, c = E.force(a[0]), E.force(a[1])
    if isinstance(x, PyC) and isinstance(c, PyC):
        try:
            return PyC(issubclass(x.obj, c.obj))
        except TypeError:
            E.raise_py(TypeError, 'issubclass')
    if isinstance(x, SV):
        if not E.branch(isinst(x.t, E.const(type))):
            E.raise_py(TypeError, 'issubclass() arg 1 must be a class')
        return E.bval(fn('issub', V, V, B)(x.t, E.term(c)))
    E.raise_py(TypeError, 'issubclass')


def b_type(E, a, k):
    if len(a) != 1:
        raise Unsupported('type() with 3 arguments')
    v = E.force(a[0])
    c = E.class_of(v)
    if c is not None:
        return PyC(c)
    t = E.term(v)
    E.assume(hashable(typeof(t)))
    return SV(typeof(t))


def b_len(E, a, k):
    v = E.force(a[0])
    if isinstance(v, PyC):
        try:
            return PyC(len(v.obj))
        except TypeError:
            E.raise_py(TypeError, 'len')
    if isinstance(v, TupV):
        return E.ival(E.seq_len(v))
    if isinstance(v, Ref):
        o = E.obj(v)
        if o.kind == 'list':
            return E.ival(E.segs_len(o.d['segs']))
        if o.kind in ('set', 'dict'):
            return E.set_len(v)
        if o.kind == 'view':
            return E.set_len(o.d['dict'])
        E.raise_py(TypeError, 'len')
    if isinstance(v, SV):
        if E.known_map(v.t):
            return SInt(mn(v.t))
        if not E.known_seq(v.t):
            if not E.branch(sized(v.t)):
                E.raise_py(TypeError, 'object has no len()')
        E.assume(it_n(v.t) >= 0)
        return SInt(it_n(v.t))
    E.raise_py(TypeError, 'len')


def b_getattr(E, a, k):
    n = E.force(a[1])
    if not isinstance(n, PyC):
        return E.dyn_getattr(a)
    if len(a) == 3:
        r = E.getattr(a[0], n.obj, SENTINEL)
        return a[2] if r is SENTINEL else r
    return E.getattr(a[0], n.obj)


def b_hasattr(E, a, k):
    n = E.force(a[1])
    if not isinstance(n, PyC):
        raise Unsupported('hasattr with a computed name')
    return E.bval(E.hasattr_f(a[0], n.obj))


def b_setattr(E, a, k):
    n = E.force(a[1])
    if not isinstance(n, PyC):
        raise Unsupported('setattr with a computed name')
    E.setattr(a[0], n.obj, a[2])
    return NONE


def b_list(E, a, k):
    if not a:
        return E.alloc('list', {'segs': ()})
    v = E.force(a[0])
    if isinstance(v, Ref) and E.obj(v).kind == 'it':
        acc = E.alloc('list', {'segs': ()})
        E.consume(v, lambda x: E.list_append(acc, x))
        return acc
    return E.alloc('list', {'segs': tuple(E.as_segs(v))})


def b_tuple(E, a, k):
    if not a:
        return TupV.of()
    v = E.force(a[0])
    if isinstance(v, TupV) and v.cls is tuple:
        return v
    return TupV(E.obj(b_list(E, a, k)).d['segs'])


def b_set(E, a, k):
    return E.set_of(a[0]) if a else E.new_set()


def b_frozenset(E, a, k):
    return E.set_of(a[0], True) if a else E.new_set(frozen=True)


def b_dict(E, a, k):
    d = E.new_dict()
    if a:
        v = E.force(a[0])
        if isinstance(v, SV) and (E.known_map(v.t) or True) and not E.known_seq(v.t):
            if E.known_map(v.t) or E.branch(maplike(v.t)):
                E.declare_map(v.t)
                E.put(d, layers=(('map', v.t),))
            else:
                raise Unsupported('dict() of unknown data')
        elif isinstance(v, Ref) and E.obj(v).kind == 'dict':
            E.put(d, layers=E.obj(v).d['layers'])
        elif isinstance(v, PyC) and isinstance(v.obj, dict):
            E.dict_update(d, v)
        else:
            def each(kv):
                x = E.unpack_n(kv, 2, None)
                E.dict_set(d, x[0], x[1])
            E.consume(E.iter(v), each)
    for kk, x in k.items():
        if kk == '**':
            E.dict_update(d, x)
        else:
            E.dict_set(d, PyC(kk), x)
    return d


def b_iter(E, a, k):
    if len(a) == 2:
        raise Unsupported('iter(f, sentinel)')
    return E.iter(a[0])


def b_next(E, a, k):
    v = E.force(a[0])
    if not (isinstance(v, Ref) and E.obj(v).kind == 'it'):
        E.raise_py(TypeError, 'not an iterator')
    try:
        o = E.obj(v)
        if E.itlen(v) is None and o.d['k'] in ('genexp', 'filter') and (o.d['k'] == 'filter' or o.d['node'].generators[0].ifs):
            # first element that passes
            class Found(Exception):
                pass
            mark = object()
            try:
                def sink(x):
                    raise BreakSig(x, mark)
                E.consume(v, sink)
            except BreakSig as b:
                if b.owner is not mark and b.payload is None:
                    raise
                return b.payload
            raise StopIter()
        return E.next(v)
    except StopIter:
        if len(a) == 2:
            return a[1]
        E.raise_py(StopIteration, '')


def b_zip(E, a, k):
    its = [E.iter(x) for x in a]
    st = 'strict' in k and E.truth(k['strict'])
    return E.alloc('it', {'k': 'zip', 'its': TupV.of(*its), 'strict': st})


def b_map(E, a, k):
    return E.alloc('it', {'k': 'map', 'f': a[0], 'its': TupV.of(*[E.iter(x) for x in a[1:]])})


def b_filter(E, a, k):
    return E.alloc('it', {'k': 'filter', 'f': a[0], 'src': E.iter(a[1])})


def b_compress(E, a, k):
    return E.alloc('it', {'k': 'compress', 'its': TupV.of(E.iter(a[0]), E.iter(a[1]))})


def b_count(E, a, k):
    a = list(a)
    if 'start' in k:
        a = [k['start']] + a
    start = a[0] if a else PyC(0)
    if E.intval(E.force(start)) is None:
        raise Unsupported('count')
    return E.alloc('it', {'k': 'count', 'cur': start, 'step': 1 if len(a) < 2 else E.intval(a[1])})


def b_repeat(E, a, k):
    return E.alloc('it', {'k': 'repeat', 'obj': a[0], 'times': a[1] if len(a) > 1 else k.get('times')})


def b_enumerate(E, a, k):
    start = a[1] if len(a) > 1 else k.get('start', PyC(0))
    return E.alloc('it', {'k': 'enumerate', 'src': E.iter(a[0]), 'cur': start})


def b_chain(E, a, k):
    return E.alloc('it', {'k': 'chain', 'its': TupV.of(*[E.iter(x) for x in a])})


def b_starmap(E, a, k):
    return E.alloc('it', {'k': 'starmap', 'f': a[0], 'src': E.iter(a[1])})


def b_takewhile(E, a, k):
    return E.alloc('it', {'k': 'takewhile', 'f': a[0], 'src': E.iter(a[1])})


def short_circuit(E, a, stop_on):
    it = a[0]
    mark = object()

    def sink(x):
        if E.truth(x) == stop_on:
            raise BreakSig(('sc',), 'sc')
    try:
        E.consume(E.iter(it), sink)
    except BreakSig as b:
        if b.owner != 'sc':
            raise
        return PyC(stop_on)
    return PyC(not stop_on)


def b_any(E, a, k):
    return short_circuit(E, a, True)


def b_all(E, a, k):
    return short_circuit(E, a, False)


def b_bool(E, a, k):
    return E.bval(E.truth_f(a[0])) if a else FALSE


def b_str(E, a, k):
    return E.py_str(a[0]) if a else PyC('')


def b_repr(E, a, k):
    return E.py_repr(a[0])


def b_default_repr(E, a, k):
    # the default representation does not look at the contents
    return E.new_str('repr')


def b_callable(E, a, k):
    v = E.force(a[0])
    if isinstance(v, (Func, Bound, BI)):
        return TRUE
    if isinstance(v, PyC):
        return PyC(callable(v.obj))
    raise Unsupported('callable')


def b_reduce(E, a, k):
    items = E.alloc('list', {'segs': ()})
    E.consume(E.iter(a[1]), lambda x: E.list_append(items, x))
    segs = E.obj(items).d['segs']
    c = E.concrete_segs(segs)
    if c is None:
        return reduce_sets(E, a, segs)
    c = list(c)
    if len(a) > 2:
        x = a[2]
    elif c:
        x = c.pop(0)
    else:
        E.raise_py(TypeError, 'reduce() of empty iterable')
    for y in c:
        x = E.call(a[0], [x, y])
    return E.force(x)


def reduce_sets(E, a, segs):
    """reduce() of a symbolic number of sets by intersection or union"""
    pa, pb = E.fresh_fn('redA', K, B), E.fresh_fn('redB', K, B)
    base = E.st.copy()

    def two():
        x, y = [E.new_set((('pred', p),)) for p in (pa, pb)]
        for q in (x, y):
            o = E.obj(q)
            E.st.heap[q.a] = Obj(o.kind, o.d, o.term, False)
        r = E.force(E.call(a[0], [x, y]))
        m = E.mem_fn(r)[0]
        if m is None:
            raise Unsupported('reduce()')
        kk = E.fresh('k', K)
        for op, g in (('and', z3.And), ('or', z3.Or)):
            mm = m(kk)
            mm = z3.BoolVal(mm) if isinstance(mm, bool) else mm
            if E.proves(mm == g(pa(kk), pb(kk))):
                return op
        raise Unsupported('reduce()')
    outs = E.explore(two, 'reduce')
    E.st = base
    if any(o.kind != 'normal' for o in outs) or len({o.payload for o in outs}) != 1:
        raise Unsupported('reduce()')
    op = outs[0].payload
    n = E.segs_len(segs)
    n = n if isinstance(n, z3.ExprRef) else z3.IntVal(n)
    init = None
    if len(a) > 2:
        init = E.mem_fn(E.force(a[2]))[0]
        if init is None:
            raise Unsupported('reduce()')
    elif E.branch(n <= 0):
        E.raise_py(TypeError, 'reduce() of empty iterable')
    i = E.fresh('ri', I)
    k = z3.Const('qk', K)
    base = E.st.copy()

    def one():
        E.assume(z3.And(i >= 0, i < n))
        x = E.force(E.segs_get(segs, i))
        m = E.mem_fn(x)[0]
        if m is None:
            raise Unsupported('reduce()')
        m = m(k)
        return z3.BoolVal(m) if isinstance(m, bool) else m
    E.st.jctx = E.st.jctx + (i,)
    outs = E.explore(one, 'reduce element')
    E.st = base
    if any(o.kind != 'normal' for o in outs):
        raise Unsupported('reduce()')
    R = E.fresh_fn('red', K, B)
    W = E.fresh_fn('redw', K, I)
    at = lambda idx, neg: z3.substitute(z3.Or(*[z3.And(*(o.npc + [z3.Not(o.payload) if neg else o.payload])) for o in outs]), (i, idx))
    q = z3.Int('qr!')
    inr = z3.And(W(k) >= 0, W(k) < n)
    ini = init(k) if init else (op == 'and')
    ini = z3.BoolVal(ini) if isinstance(ini, bool) else ini
    if op == 'and':
        E.assume(z3.ForAll([k], z3.Implies(z3.Not(R(k)), z3.Or(z3.Not(ini), z3.And(inr, at(W(k), True)))), patterns=[R(k)]))
        E.assume(z3.ForAll([k], z3.Implies(R(k), ini), patterns=[R(k)]))
        f = z3.Implies(z3.And(R(k), q >= 0, q < n), at(q, False))
    else:
        E.assume(z3.ForAll([k], z3.Implies(R(k), z3.Or(ini, z3.And(inr, at(W(k), False)))), patterns=[R(k)]))
        E.assume(z3.ForAll([k], z3.Implies(ini, R(k)), patterns=[R(k)]))
        f = z3.Implies(z3.And(z3.Not(R(k)), q >= 0, q < n), at(q, True))
    E.st.ghost['#reduced'] = E.st.ghost.get('#reduced', ()) + ((R, q, k, f),)
    pats = [p for p in collect_patterns(f, q) if p.num_args()]
    if pats:
        E.assume(z3.ForAll([q, k], f, patterns=[z3.MultiPattern(p, R(k)) for p in pats]))
    return E.new_set((('pred', lambda kk: R(kk)),))


def b_dir(E, a, k):
    return E.alloc('dirof', {'obj': a[0]})


def b_vars(E, a, k):
    raise Unsupported('vars()')


def b_id(E, a, k):
    return SInt(E.fresh('id', I))


def b_hash(E, a, k):
    E.need_hashable(E.force(a[0]))
    return SInt(fn('hashof', K, I)(E.keyof(a[0])))


def b_range(E, a, k):
    v = [E.intval(E.force(x)) for x in a]
    if any(x is None for x in v):
        E.raise_py(TypeError, 'range')
    lo, hi = (0, v[0]) if len(v) == 1 else (v[0], v[1])
    if len(v) == 3 and not (isinstance(v[2], int) and v[2] == 1):
        raise Unsupported('range step')
    if isinstance(lo, int) and isinstance(hi, int):
        return PyC(range(lo, hi))
    n = z3.If(hi - lo > 0, hi - lo, z3.IntVal(0))
    return TupV([Seq(n, lambda E, i, lo=lo: E.ival(i + lo))])


def b_cast(E, a, k):
    return a[1]


def b_sorted(E, a, k):
    r = b_list(E, [a[0]], {})
    list_sort(E, r, [], k)
    return r


def b_reversed(E, a, k):
    segs = E.as_segs(a[0])
    return E.alloc('it', {'k': 'seq', 'segs': tuple(rev_segs(segs)), 'pos': PyC(0)})


def rev_segs(segs):
    out = []
    for s in reversed(list(segs)):
        if isinstance(s, Seq):
            out.append(Seq(s.n, lambda E, i, s=s: s.el(E, s.n - 1 - i)))
        else:
            out.append(list(reversed(s)))
    return out


def b_sum(E, a, k):
    cell = E.alloc('inst', {'#cls': object, 'x': a[1] if len(a) > 1 else k.get('start', PyC(0))})

    def each(x):
        E.put(cell, x=E.binop(ast.Add(), E.obj(cell).d['x'], x))
    E.consume(E.iter(a[0]), each)
    return E.force(E.obj(cell).d['x'])


def b_minmax(which):
    def h(E, a, k):
        if k:
            raise Unsupported('min/max with key')
        if len(a) == 1:
            c = E.concrete_segs(E.as_segs(a[0]))
            if c is None:
                raise Unsupported('min/max of a symbolic sequence')
            a = c
        vals = [E.intval(E.force(x)) for x in a]
        if not vals or any(v is None for v in vals):
            raise Unsupported('min/max')
        r = vals[0]
        for v in vals[1:]:
            if isinstance(r, int) and isinstance(v, int):
                r = which(r, v)
            elif which is min:
                r = z3.If(v < r, v, r)
            else:
                r = z3.If(v > r, v, r)
        return E.ival(r)
    return h


def b_print(E, a, k):
    return NONE


def b_warn(E, a, k):
    return NONE


def b_int(E, a, k):
    if not a:
        return PyC(0)
    v = E.force(a[0])
    i = E.intval(v)
    if i is not None:
        return E.ival(i)
    raise Unsupported('int()')


def b_object(E, a, k):
    return E.alloc('inst', {'#cls': object})


def b_op(opname):
    def h(E, a, k):
        if opname == 'itemgetter':
            ks = a
            return BI('itemgetter', lambda E, b, kk: E.getitem(b[0], ks[0]) if len(ks) == 1 else TupV.of(*[E.getitem(b[0], x) for x in ks]))
        if opname == 'attrgetter':
            n = a[0].obj
            return BI('attrgetter', lambda E, b, kk: E.getattr(b[0], n))
        if opname == 'contains':
            return E.bval(E.contains_f(a[0], a[1]))
        if opname == 'getitem':
            return E.getitem(a[0], a[1])
        if opname == 'eq':
            return E.bval(E.eq_f(a[0], a[1]))
        if opname == 'is_':
            return E.bval(E.is_f(a[0], a[1]))
        if opname == 'not_':
            return E.bval(E.f_not(E.truth_f(a[0])))
        raise Unsupported('operator.' + opname)
    return h


def b_partial(E, a, k):
    f, pre, kw = a[0], list(a[1:]), dict(k)
    return BI('partial', lambda E, b, kk: E.call(f, pre + list(b), {**kw, **kk}))


def b_signature(E, a, k):
    v = E.force(a[0])
    if isinstance(v, Func):
        n = len(v.node.args.args) + len(v.node.args.posonlyargs)
        return E.alloc('inst', {'#cls': object, 'parameters': TupV.of(*[NONE] * n)})
    return E.signature_hook(v)


def build_table():
    t = {
        isinstance: b_isinstance, issubclass: b_issubclass, type: b_type, len: b_len, getattr: b_getattr,
        hasattr: b_hasattr, setattr: b_setattr, list: b_list, tuple: b_tuple, set: b_set, frozenset: b_frozenset,
        dict: b_dict, iter: b_iter, next: b_next, zip: b_zip, map: b_map, filter: b_filter,
        itertools.compress: b_compress, itertools.count: b_count, itertools.repeat: b_repeat,
        enumerate: b_enumerate, itertools.chain: b_chain, itertools.starmap: b_starmap,
        itertools.takewhile: b_takewhile, any: b_any, all: b_all, bool: b_bool, str: b_str, repr: b_repr, object.__repr__: b_default_repr,
        callable: b_callable, functools.reduce: b_reduce, dir: b_dir, vars: b_vars, id: b_id, hash: b_hash,
        range: b_range, typing.cast: b_cast, sorted: b_sorted, reversed: b_reversed, sum: b_sum,
        min: b_minmax(min), max: b_minmax(max), print: b_print, int: b_int, object: b_object,
        functools.partial: b_partial, inspect.signature: b_signature, format: b_repr,
    }
    for n in ('itemgetter', 'attrgetter', 'contains', 'getitem', 'eq', 'is_', 'not_'):
        t[getattr(operator, n)] = b_op(n)
    import warnings
    t[warnings.warn] = b_warn
    return t


# ----------------------------------------------------------------------
# methods
# ----------------------------------------------------------------------
def list_insert(E, v, a, k):
    E.frame_write(v, 'insert')
    segs = E.obj(v).d['segs']
    i = E.intval(E.force(a[0]))
    if isinstance(i, int) and i == 0:
        E.put(v, segs=([a[1]],) + tuple(segs))
        return NONE
    c = E.concrete_segs(segs)
    if c is not None and isinstance(i, int):
        c = list(c)
        c.insert(i, a[1])
        E.put(v, segs=(c,))
        return NONE
    raise Unsupported('list.insert')


def list_append(E, v, a, k):
    E.list_append(v, a[0])
    return NONE


def list_extend(E, v, a, k):
    E.frame_write(v, 'extend')
    x = E.force(a[0])
    if isinstance(x, Ref) and E.obj(x).kind == 'it':
        E.consume(x, lambda y: E.list_append(v, y))
    else:
        E.list_extend(v, x)
    return NONE


def list_copy(E, v, a, k):
    return E.alloc('list', {'segs': E.obj(v).d['segs']})


def list_remove(E, v, a, k):
    E.frame_write(v, 'remove')
    segs = E.obj(v).d['segs']
    c = E.concrete_segs(segs)
    if c is not None:
        for i, x in enumerate(c):
            if E.branch(E.eq_f(x, a[0])):
                E.put(v, segs=(c[:i] + c[i + 1:],))
                return NONE
        E.raise_py(ValueError, 'list.remove(x): x not in list')
    s, r = find_in(E, segs, a[0], 'list.remove(x): x not in list')
    E.put(v, segs=(without(s, r),))
    return NONE


def joined(E, segs):
    if len(segs) == 1 and isinstance(segs[0], Seq):
        return segs[0]
    segs = tuple(segs)
    return Seq(E.segs_len(segs), lambda E, i: E.segs_get(segs, i), tag=('joined', segs))


def find_in(E, segs, x, msg):
    """the first index whose element equals x"""
    s = joined(E, segs)
    x = E.force(x)
    present = E.seq_contains(s, x)
    if not E.branch(present):
        E.raise_py(ValueError, msg)
    r = E.fresh('rm', I)
    E.assume(z3.And(r >= 0, r < s.n))
    el = s.el(E, r)
    E.assume(E.eq_f(el, x))
    return s, r


def without(s, r):
    return Seq(s.n - 1, lambda E, i: s.el(E, z3.If(i < r, i, i + 1)), tag=('removed', s, r))


def list_sort(E, v, a, k):
    E.frame_write(v, 'sort')
    segs = E.obj(v).d['segs']
    keyf = k.get('key')
    rev = 'reverse' in k and E.truth(k['reverse'])
    c = E.concrete_segs(segs)
    if keyf is not None and isinstance(E.force(keyf), PyC) and E.force(keyf).obj is None:
        keyf = None
    if c is not None:
        if len(c) <= 1:
            if c and keyf is not None:
                E.call(keyf, [c[0]])
            return NONE
        ks = [E.force(E.call(keyf, [x])) if keyf is not None else E.force(x) for x in c]
        # stable insertion sort, splitting on the comparisons
        out = []
        for x, kx in zip(c, ks):
            j = len(out)
            while j > 0:
                kj = out[j - 1][1]
                lt = E.lt_f(kx, kj) if not rev else E.lt_f(kj, kx)
                if E.branch(lt):
                    j -= 1
                else:
                    break
            out.insert(j, (x, kx))
        E.put(v, segs=([x for x, _ in out],))
        return NONE
    s = joined(E, segs)
    if keyf is None:
        raise Unsupported('sort without key of a symbolic list')
    # a stable permutation: new[i] = old[perm(i)]
    perm = E.fresh_fn('perm', I, I)
    inv = E.fresh_fn('pinv', I, I)
    i = z3.Int('qp')
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.n), z3.And(perm(i) >= 0, perm(i) < s.n, inv(perm(i)) == i)), patterns=[perm(i)]))
    E.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < s.n), z3.And(inv(i) >= 0, inv(i) < s.n, perm(inv(i)) == i)), patterns=[inv(i)]))
    E.st.ghost['#perms'] = E.st.ghost.get('#perms', ()) + ((perm, inv),)
    # the keys: evaluated for a generic element, as a truth value
    J = E.fresh('sj', I)
    saved = E.st
    base = E.st.copy()

    def one():
        E.assume(z3.And(J >= 0, J < s.n))
        x = s.el(E, J)
        r = E.force(E.call(keyf, [x]))
        return r
    E.st = base.copy()
    E.st.jctx = E.st.jctx + (J,)
    outs = E.explore(one, 'sort key')
    E.st = saved
    bad = [o for o in outs if o.kind != 'normal']
    kf = None
    if not bad:
        cases = []
        for o in outs:
            b = o.payload
            ii = E.intval(b) if not isinstance(b, SBool) else z3.If(b.t, 1, 0)
            if ii is None:
                cases = None
                break
            cases.append((z3.And(*o.npc) if o.npc else z3.BoolVal(True), ii))
        if cases:
            kt = cases[-1][1]
            for cnd, ii in reversed(cases[:-1]):
                kt = z3.If(cnd, ii, kt)
            kt = kt if isinstance(kt, z3.ExprRef) else z3.IntVal(kt)

            def kf(idx):
                return z3.substitute(kt, (J, idx))
    if bad:
        kk = E.choose(2)
        if kk == 1:
            o = bad[E.choose(len(bad))]
            E.st = o.st.copy()
            E.st.jctx = base.jctx
            if o.kind == 'raise':
                raise Raise(o.payload)
            raise Unsupported('sort key exit')
        raise Unsupported('sort key that can raise')
    if kf is not None:
        i2 = z3.Int('qp2')
        cmpf = kf(perm(i)) <= kf(perm(i2)) if not rev else kf(perm(i)) >= kf(perm(i2))
        same = z3.Implies(kf(perm(i)) == kf(perm(i2)), perm(i) < perm(i2))
        E.assume(z3.ForAll([i, i2], z3.Implies(z3.And(i >= 0, i < i2, i2 < s.n), z3.And(cmpf, same)),
                           patterns=[z3.MultiPattern(perm(i), perm(i2))]))
    new = Seq(s.n, lambda E, i, s=s: s.el(E, perm(i)), tag=('perm', s, inv))
    E.put(v, segs=(new,))
    return NONE


def list_index(E, v, a, k):
    if len(a) != 1:
        raise Unsupported('list.index with bounds')
    segs = E.obj(v).d['segs']
    c = E.concrete_segs(segs)
    if c is not None:
        for i, x in enumerate(c):
            if E.branch(E.eq_f(x, a[0])):
                return PyC(i)
        E.raise_py(ValueError, 'not in list')
    return SInt(find_in(E, segs, a[0], 'not in list')[1])


def list_pop(E, v, a, k):
    E.frame_write(v, 'pop')
    segs = E.obj(v).d['segs']
    c = E.concrete_segs(segs)
    i = E.intval(E.force(a[0])) if a else -1
    if c is None:
        s = joined(E, segs)
        if isinstance(i, int):
            i = z3.IntVal(i) if i >= 0 else s.n + i
        if not E.proves(z3.And(i >= 0, i < s.n)):
            raise Unsupported('pop from a symbolic list')
        x = s.el(E, i)
        E.put(v, segs=(without(s, i),))
        return x
    if not c or not isinstance(i, int) or not -len(c) <= i < len(c):
        E.raise_py(IndexError, 'pop')
    c = list(c)
    x = c.pop(i)
    E.put(v, segs=(c,))
    return x


def list_reverse(E, v, a, k):
    E.frame_write(v, 'reverse')
    E.put(v, segs=tuple(rev_segs(E.obj(v).d['segs'])))
    return NONE


def list_clear(E, v, a, k):
    E.frame_write(v, 'clear')
    E.put(v, segs=())
    return NONE


def m_view(what):
    def h(E, v, a, k):
        return E.alloc('view', {'dict': v, 'what': what})
    return h


def dict_getm(E, v, a, k):
    kk = E.hkey(a[0])
    dflt = a[1] if len(a) > 1 else NONE
    if E.branch(E.dict_has_f(v, kk)):
        return E.dict_get(v, kk)
    return dflt


def dict_pop(E, v, a, k):
    E.frame_write(v, 'pop')
    kk = E.hkey(a[0])
    if E.branch(E.dict_has_f(v, kk)):
        x = E.dict_get(v, kk)
        E.put(v, layers=E.obj(v).d['layers'] + (('del', kk, E.force(a[0])),))
        return x
    if len(a) > 1:
        return a[1]
    E.raise_py(KeyError, 'pop')


def dict_setdefault(E, v, a, k):
    E.frame_write(v, 'setdefault')
    kk = E.hkey(a[0])
    if E.branch(E.dict_has_f(v, kk)):
        return E.dict_get(v, kk)
    x = a[1] if len(a) > 1 else NONE
    E.dict_set(v, a[0], x)
    return x


def dict_updatem(E, v, a, k):
    if a:
        E.dict_update(v, a[0])
    for kk, x in k.items():
        E.dict_set(v, PyC(kk), x)
    return NONE


def dict_copy(E, v, a, k):
    return E.new_dict(E.obj(v).d['layers'])


def set_m(op):
    def h(E, v, a, k):
        r = v
        for x in a:
            x = E.force(x)
            if isinstance(x, Ref) and E.obj(x).kind == 'it' or E.mem_fn(x)[0] is None:
                x = E.set_of(x)
            r = E.set_op(op, r, x)
        if r is v:
            r = E.new_set(E.obj(v).d['layers'])
        return r
    return h


def set_addm(E, v, a, k):
    E.set_add(v, a[0])
    return NONE


def set_discard(E, v, a, k):
    E.frame_write(v, 'discard')
    kk = E.hkey(a[0])
    E.put(v, layers=E.obj(v).d['layers'] + (('del', kk),))
    return NONE


def set_remove(E, v, a, k):
    E.frame_write(v, 'remove')
    kk = E.hkey(a[0])
    if not E.branch(E.layers_has(E.obj(v).d['layers'], kk)):
        E.raise_py(KeyError, 'remove')
    E.put(v, layers=E.obj(v).d['layers'] + (('del', kk),))
    return NONE


def set_pop(E, v, a, k):
    E.frame_write(v, 'pop')
    layers = E.obj(v).d['layers']
    if not E.branch(E.set_nonempty_f(v)):
        E.raise_py(KeyError, 'pop from an empty set')
    t = E.fresh('popped')
    m = E.layers_has(layers, key(t))
    E.assume(z3.BoolVal(m) if isinstance(m, bool) else m)
    E.assume(hashable(t))
    E.put(v, layers=layers + (('del', key(t)),))
    return SV(t)


def set_issubset(E, v, a, k):
    x = E.force(a[0])
    if E.mem_fn(x)[0] is None:
        x = E.set_of(x)
    return E.bval(E.forall_mem(E.mem_fn(v)[0], E.mem_fn(x)[0]))


def set_issuperset(E, v, a, k):
    x = E.force(a[0])
    if E.mem_fn(x)[0] is None:
        x = E.set_of(x)
    return E.bval(E.forall_mem(E.mem_fn(x)[0], E.mem_fn(v)[0]))


def set_updatem(E, v, a, k):
    E.frame_write(v, 'update')
    for x in a:
        x = E.force(x)
        m, _ = E.mem_fn(x)
        if m is not None:
            r = E.set_op('or', v, x)
            E.put(v, layers=E.obj(r).d['layers'])
        else:
            E.consume(E.iter(x), lambda y: E.set_add(v, y))
    return NONE


def set_dupdate(op):
    def h(E, v, a, k):
        E.frame_write(v, op)
        r = set_m(op)(E, v, a, k)
        E.put(v, layers=E.obj(r).d['layers'])
        return NONE
    return h


def set_copy(E, v, a, k):
    return E.new_set(E.obj(v).d['layers'])


METHODS = {
    ('list', 'append'): list_append, ('list', 'insert'): list_insert, ('list', 'extend'): list_extend,
    ('list', 'copy'): list_copy, ('list', 'remove'): list_remove, ('list', 'sort'): list_sort,
    ('list', 'index'): list_index, ('list', 'pop'): list_pop, ('list', 'reverse'): list_reverse,
    ('list', 'clear'): list_clear,
    ('dict', 'keys'): m_view('keys'), ('dict', 'values'): m_view('values'), ('dict', 'items'): m_view('items'),
    ('dict', 'get'): dict_getm, ('dict', 'pop'): dict_pop, ('dict', 'setdefault'): dict_setdefault,
    ('dict', 'update'): dict_updatem, ('dict', 'copy'): dict_copy,
    ('set', 'add'): set_addm, ('set', 'discard'): set_discard, ('set', 'remove'): set_remove, ('set', 'pop'): set_pop,
    ('set', 'intersection'): set_m('and'), ('set', 'union'): set_m('or'), ('set', 'difference'): set_m('sub'),
    ('set', 'symmetric_difference'): set_m('xor'),
    ('set', 'issubset'): set_issubset, ('set', 'issuperset'): set_issuperset, ('set', 'update'): set_updatem,
    ('set', 'difference_update'): set_dupdate('sub'), ('set', 'intersection_update'): set_dupdate('and'),
    ('set', 'copy'): set_copy,
}


def cache_get(E, v, a, k):
    x = E.cache_lookup(v, a[0])
    return x if x is not None else a[1] if len(a) > 1 else NONE


def cache_setdefault(E, v, a, k):
    x = E.cache_lookup(v, a[0])
    if x is not None:
        return x
    x = a[1] if len(a) > 1 else NONE
    E.cache_set(v, a[0], x)
    return x


CACHE_METHODS = {'get': cache_get, 'setdefault': cache_setdefault}
TUPLE_METHODS = {}


def str_join(E, v, a, k):
    return E.str_join(v, a[0])


def str_pure(name):
    def h(E, v, a, k):
        args = [E.force(x) for x in a]
        if all(isinstance(x, PyC) for x in args):
            try:
                return E.wrap(getattr(v.obj, name)(*[x.obj for x in args]))
            except Exception as e:
                E.raise_py(type(e), str(e))
        raise Unsupported('str.' + name)
    return h


def sym_strip(E, v, a, k):
    """rstrip() and such, of a string that was built here"""
    if isinstance(v, PyC):
        return str_pure('rstrip')(E, v, a, k)
    return E.new_str('strip', (('strip', v.t, E.str_parts(v)),))


def str_format(E, v, a, k):
    return E.new_str('fmt', [('s', x) for x in a])


STR_METHODS = {'join': str_join, 'format': str_format, '__mod__': lambda E, v, a, k: E.str_mod(v.obj, a[0])}
for _n in ('startswith', 'endswith', 'lstrip', 'rstrip', 'strip', 'lower', 'upper', 'split', 'replace', 'isidentifier'):
    STR_METHODS[_n] = str_pure(_n)


def pd_get(E, v, a, k):
    x = E.force(a[0])
    d = v.obj
    dflt = a[1] if len(a) > 1 else NONE
    if isinstance(x, PyC):
        try:
            return E.wrap(d[x.obj]) if x.obj in d else dflt
        except TypeError:
            E.raise_py(TypeError, 'unhashable')
    kk = E.hkey(x)
    for y, z in d.items():
        if E.branch(kk == key(E.const(y))):
            return E.wrap(z)
    return dflt


def pd_view(what):
    def h(E, v, a, k):
        d = v.obj
        if what == 'keys':
            return TupV.of(*[E.wrap(x) for x in d])
        if what == 'values':
            return TupV.of(*[E.wrap(x) for x in d.values()])
        return TupV.of(*[TupV.of(E.wrap(x), E.wrap(y)) for x, y in d.items()])
    return h


PYDICT_METHODS = {'get': pd_get, 'keys': pd_view('keys'), 'values': pd_view('values'), 'items': pd_view('items')}


def _engine_extra():
    def lt_f(self, a, b):
        def num(x):
            if isinstance(x, SBool):
                return z3.If(x.t, 1, 0)
            if isinstance(x, PyC) and isinstance(x.obj, bool):
                return int(x.obj)
            return self.intval(x)
        x, y = num(a), num(b)
        if x is not None and y is not None:
            return x < y
        raise Unsupported('order of unknown values')

    def seq_contains(self, s, x):
        """x is an element of the sequence"""
        kk = self.keyof(x)
        while s.tag and s.tag[0] == 'perm':
            s = s.tag[1]
        if s.tag and s.tag[0] == 'joined':
            return self.f_or([self.seq_contains(q, x) if isinstance(q, Seq) else self.f_or([self.eq_f(y, x) for y in q]) for q in s.tag[1]])
        if s.tag and s.tag[0] == 'loop':
            lr, c = s.tag[1:]
            vals = [(p, v[0]) for p, v in enumerate(c['vals']) if v]
            b = self.fresh('inlist', B)
            if all(isinstance(v, (SV, PyC)) for p, v in vals):
                for l2, upto in self.st.ghost.get('#loops', ()):
                    if l2 is lr:
                        no = z3.And(*[z3.Implies(lr.cond(p), self.keyof(v) != kk) for p, v in vals])
                        i = z3.Int('qc!%d' % lr.J.get_id())
                        pats = collect_patterns(no, lr.J)
                        if pats:
                            self.assume(z3.Implies(z3.Not(b), z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < upto), z3.substitute(no, (lr.J, i))),
                                                                          patterns=[z3.substitute(q, (lr.J, i)) for q in pats])))
            return b
        # el(i) must be it_el of a sequence term
        probe = s.el(self, z3.Int('probe!!'))
        if isinstance(probe, SV) and z3.is_app(probe.t) and probe.t.decl().name() == 'it_el':
            return self.inseq_f(probe.t.arg(0), kk)
        b = self.fresh('inlist', B)
        return b

    def reduce_hook(self, a, it, cell):
        return None

    def signature_hook(self, v):
        raise Unsupported('signature')

    def dyn_getattr(self, a):
        raise Unsupported('getattr with a computed name')
    Engine.lt_f = lt_f
    Engine.seq_contains = seq_contains
    Engine.reduce_hook = reduce_hook
    Engine.signature_hook = signature_hook
    Engine.dyn_getattr = dyn_getattr


_engine_extra()
