"""
pyvc.interp - the semantics of the Python statements and expressions.

The AST of the real functions is executed directly.  Control flow of the
interpreted program is host control flow (Raise, ReturnSig, BreakSig, ...);
all mutable state lives in E.st (heap of immutable records), so that paths can
be re-executed and states compared.
"""
import ast
import builtins
import inspect
import sys
import types
import z3

from .core import *
from .core import Explorer

SENTINEL = object()


class ModInfo:
    def __init__(self, mod):
        self.mod = mod
        self.name = mod.__name__
        with open(mod.__file__) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.funcs = {}
        self.classes = {}
        self._scan(self.tree, '')

    def _scan(self, node, prefix):
        for ch in ast.iter_child_nodes(node):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([ch.lineno] + [d.lineno for d in ch.decorator_list])
                self.funcs[(ch.name, line)] = (ch, prefix + ch.name)
                self._scan(ch, prefix + ch.name + '.<locals>.')
            elif isinstance(ch, ast.ClassDef):
                self.classes[prefix + ch.name] = ch
                self._scan(ch, prefix + ch.name + '.')
            elif isinstance(ch, ast.Lambda):
                self.funcs.setdefault(('<lambda>', ch.lineno), (ch, prefix + '<lambda>'))
                self._scan(ch, prefix)
            else:
                self._scan(ch, prefix)


_locals_cache = {}


def scope_info(node):
    """(locals, globals, nonlocals) of a function/lambda/comprehension node"""
    r = _locals_cache.get(node)
    if r is not None:
        return r
    loc, glob, nonl = set(), set(), set()

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus targets inside a comprehension belong to the function
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    loc.add(sub.target.id)
            walk(n.generators[0].iter)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            loc.add(n.id)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            loc.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)

    if isinstance(node, (ast.FunctionDef, ast.Lambda)):
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            loc.add(x.arg)
        if a.vararg:
            loc.add(a.vararg.arg)
        if a.kwarg:
            loc.add(a.kwarg.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            walk(s)
    loc -= glob | nonl
    r = _locals_cache[node] = (frozenset(loc), frozenset(glob), frozenset(nonl))
    return r


_isgen = {}


def is_generator(node):
    r = _isgen.get(node)
    if r is None:
        r = False
        if isinstance(node, ast.FunctionDef):
            todo = list(node.body)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp,
                                  ast.ListComp, ast.SetComp, ast.DictComp)):
                    continue
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                todo.extend(ast.iter_child_nodes(n))
        _isgen[node] = r
    return r


class Interp(Explorer):
    """Engine without the builtins (builtins.py) and loops (loops.py)."""

    def __init__(self, package, modules):
        super().__init__()
        self.package = package
        self.mods = {m.__name__: ModInfo(m) for m in modules}
        self.byfile = {m.mod.__file__: m for m in self.mods.values()}
        self.contracts = {}          # (module, qualname) -> host function(E, args, kwargs)
        self.depth = 0
        self.covered = {}            # functions whose body was executed -> set of lines
        self.fnstack = []
        self.trusted_used = {}
        self.excstack = []

    # ------------------------------------------------------------------
    # heap
    # ------------------------------------------------------------------
    def alloc(self, kind, d, term=None, owned=True):
        a = ('a', self.cur_explore, self.st.next_a)
        self.st.next_a += 1
        self.st.heap[a] = Obj(kind, d, term, owned)
        return Ref(a)

    def obj(self, ref):
        return self.st.heap[ref.a]

    def put(self, ref, /, **kw):
        a = ref.a if isinstance(ref, Ref) else ref
        self.st.heap[a] = self.st.heap[a].put(**kw)

    def frame_write(self, ref, what):
        """Called before any mutation of a heap object: frame condition."""
        o = self.obj(ref)
        if not o.owned:
            self.oblige('frame: does not modify %s (%s)' % (o.d.get('#name', 'its input'), what), False, self.frame_tags)

    frame_tags = ('C12',)

    # ------------------------------------------------------------------
    # conversions
    # ------------------------------------------------------------------
    def wrap(self, obj):
        """a concrete Python object as a Val"""
        if isinstance(obj, types.FunctionType):
            mi = self.byfile.get(obj.__code__.co_filename)
            if mi is not None:
                return self.func_of(obj, mi)
        if isinstance(obj, types.MethodType):
            mi = self.byfile.get(obj.__func__.__code__.co_filename) if isinstance(obj.__func__, types.FunctionType) else None
            if mi is not None:
                return Bound(self.func_of(obj.__func__, mi), self.wrap(obj.__self__))
        return PyC(obj)

    def func_of(self, f, mi=None):
        mi = mi or self.byfile[f.__code__.co_filename]
        e = mi.funcs.get((f.__name__, f.__code__.co_firstlineno))
        if e is None:
            raise Unsupported('no source for %r' % f)
        node, qual = e
        return Func(node, None, mi, qual, defaults=[self.wrap(x) for x in (f.__defaults__ or ())],
                    kwdefaults={k: self.wrap(v) for k, v in (f.__kwdefaults__ or {}).items()}, real=f)

    def const(self, obj):
        """The term of a concrete object."""
        try:
            k = ('h', type(obj).__name__, obj)
            hash(k)
        except Exception:
            k = ('i', id(obj))
        t = self.const_terms.get(k)
        if t is None:
            n = len(self.const_terms) + 1
            nm = getattr(obj, '__name__', None) if isinstance(obj, type) else None
            t = z3.Const('c%d<%s>' % (n, (nm or repr(obj))[:30]), V)
            self.const_terms[k] = t
            self.const_objs[t.get_id()] = obj
            self._keep = getattr(self, '_keep', []) + [obj]
            ax = [cid(t) == n]
            try:
                hash(obj)
                h = True
            except Exception:
                h = False
            if h:
                # the class of ==-equal constants
                rep = n
                for k2, t2 in self.const_terms.items():
                    if t2 is t or k2[0] != 'h':
                        continue
                    try:
                        same = bool(k2[2] == obj)
                    except Exception:
                        same = False
                    if same:
                        ax.append(key(t) == key(t2))
                        rep = None
                        break
                if rep is not None:
                    ax.append(kid(key(t)) == n)
                ax.append(hashable(t))
            try:
                ax.append(truthy(t) == bool(obj))
            except Exception:
                pass
            try:
                if not isinstance(obj, type):
                    tt = self.const(type(obj))
                    ax.append(typeof(t) == tt)
            except Exception:
                pass
            if isinstance(obj, int) and not isinstance(obj, bool):
                ax.append(int2v(z3.IntVal(obj)) == t)
            if isinstance(obj, bool):
                ax.append(bool2v(z3.BoolVal(obj)) == t)
            if isinstance(obj, (str, bytes)):
                ax.append(it_n(t) == len(obj))
            self.add_global(*ax)
        return t

    def add_global(self, *fs):
        # global axioms hold on every path
        self.sync_pop_all()
        for f in fs:
            self.solver.add(f)
            self.axioms.append(f)

    axioms = None

    def sync_pop_all(self):
        if self.axioms is None:
            self.axioms = []
        if self.sstack:
            self.solver.pop(len(self.sstack))
            self.sstack = []

    def term(self, v):
        """A term denoting the Val."""
        if isinstance(v, SV):
            return v.t
        if isinstance(v, PyC):
            return self.const(v.obj)
        if isinstance(v, SInt):
            return int2v(v.t)
        if isinstance(v, SBool):
            return bool2v(v.t)
        if isinstance(v, LazyVal):
            return self.term(self.force(v))
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.term is None:
                t = self.fresh('obj')
                self.st.heap[v.a] = Obj(o.kind, o.d, t, o.owned)
                cls = self.class_of(v)
                if cls is not None:
                    self.assume(typeof(t) == self.const(cls))
                    self.assume(isinst(t, self.const(cls)))
                    for c in cls.__mro__[1:]:
                        if c in self.known_classes:
                            self.assume(isinst(t, self.const(c)))
                    for c in self.known_classes:
                        if not issubclass(cls, c):
                            self.assume(z3.Not(isinst(t, self.const(c))))
                if o.kind in ('list', 'dict', 'set', 'bytearray'):
                    if not (o.kind == 'set' and o.d.get('frozen')):
                        self.assume(z3.Not(hashable(t)))
                return t
            return o.term
        if isinstance(v, TupV):
            c = v.concrete()
            if c is not None:
                ts = [self.term(x) for x in c]
                f = fn('tup%d_%s' % (len(ts), v.cls.__name__), *([V] * (len(ts) + 1)))
                t = f(*ts) if ts else z3.Const('tup0_%s' % v.cls.__name__, V)
                self.assume(typeof(t) == self.const(v.cls))
                self.assume(z3.Not(isinst(t, self.const(dict))))
                return t
            t = self.fresh('tup')
            self.assume(typeof(t) == self.const(v.cls))
            return t
        if isinstance(v, (Func, Bound, BI)):
            ident = self.func_identity(v)
            k = ('f', ident)
            t = self.const_terms.get(k)
            if t is None:
                n = len(self.const_terms) + 1
                t = z3.Const('f%d<%s>' % (n, getattr(v, 'qual', getattr(v, 'name', 'bound'))), V)
                self.const_terms[k] = t
                self.const_objs[t.get_id()] = v
                self.add_global(cid(t) == n, kid(key(t)) == n, truthy(t), hashable(t), z3.Not(isinst(t, self.const(dict))))
            return t
        raise Unsupported('no term for %r' % (v,))

    def func_identity(self, v):
        if isinstance(v, Func):
            return ('F', id(v.node), v.env)
        if isinstance(v, Bound):
            return ('B', self.func_identity(v.f), id(v.self) if not isinstance(v.self, Ref) else v.self.a)
        return ('H', id(v.h))

    known_classes = (dict, list, tuple, set, frozenset, str, int, bool, float, bytes)

    def class_of(self, v):
        """the concrete class of a Val, or None"""
        if isinstance(v, PyC):
            return type(v.obj)
        if isinstance(v, SInt):
            return int
        if isinstance(v, SBool):
            return bool
        if isinstance(v, TupV):
            return v.cls
        if isinstance(v, (Func,)):
            return types.FunctionType
        if isinstance(v, Bound):
            return types.MethodType
        if isinstance(v, BI):
            return types.BuiltinFunctionType
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == 'list':
                return list
            if o.kind == 'dict':
                return dict
            if o.kind == 'set':
                return frozenset if o.d.get('frozen') else set
            if o.kind in ('inst', 'exc'):
                return o.d.get('#cls')
            if o.kind == 'it':
                return types.GeneratorType
            return None
        return None

    def force(self, v):
        while isinstance(v, LazyVal):
            v = v.force(self)
        if isinstance(v, Havoc):
            raise Unsupported('read of a loop-carried value of unknown shape: %s' % v.why)
        if isinstance(v, SV):
            o = self.const_objs.get(v.t.get_id())
            if o is not None:
                return o if isinstance(o, Val) else self.wrap(o)
        return v

    # ------------------------------------------------------------------
    # exceptions
    # ------------------------------------------------------------------
    def raise_py(self, cls, msg='', **attrs):
        d = {'#cls': cls, '#how': msg, 'args': TupV.of(SV(self.fresh('msg')))}
        d.update(attrs)
        raise Raise(self.alloc('exc', d))

    def new_sym_exc(self, name, *bases):
        """An exception of unknown class, known to be an instance of bases"""
        t = self.fresh(name)
        r = self.alloc('exc', {'#cls': None, '#sym': True}, term=t)
        for b in bases:
            self.assume(isinst(t, self.const(b)))
        self.isinst_facts(t)
        return r

    def isinst_facts(self, t):
        pass

    def exc_match(self, exc, clsval):
        """isinstance(exc, clsval), for an except clause"""
        return self.branch(self.isinstance_f(exc, clsval))

    def isinstance_f(self, v, c):
        """formula (or bool) for isinstance(v, c)"""
        v = self.force(v)
        c = self.force(c)
        if isinstance(c, TupV):
            cs = c.concrete()
            if cs is None:
                raise Unsupported('isinstance with a symbolic tuple')
            fs = [self.isinstance_f(v, x) for x in cs]
            return self.f_or(fs)
        if isinstance(c, PyC):
            import typing
            cobj = c.obj
            if isinstance(cobj, tuple):
                return self.f_or([self.isinstance_f(v, PyC(x)) for x in cobj])
            og = getattr(cobj, '__origin__', None)
            if not isinstance(cobj, type) and isinstance(og, type):
                cobj = og      # typing.Dict and the like
            cls = self.class_of(v)
            if isinstance(v, PyC):
                return isinstance(v.obj, cobj)
            if cls is not None:
                return issubclass(cls, cobj)
            t = self.term(v)
            return self.isinst_term(t, cobj)
        if isinstance(c, SV):
            if isinstance(v, Ref):
                pass
            return isinst(self.term(v), c.t)
        self.raise_py(TypeError, 'isinstance arg 2')

    def isinst_term(self, t, cls):
        """isinst(t, cls), recording the relations with the other classes asked about"""
        ct = self.const(cls)
        asked = self.st.ghost.get('#asked', ())
        k = (t.get_id(), cls)
        if not any(x[0] == k for x in asked):
            self.st.ghost['#asked'] = asked + ((k, t),)
            b = isinst(t, ct)
            for (tid, other), _ in asked:
                if tid != t.get_id():
                    continue
                o = isinst(t, self.const(other))
                if issubclass(cls, other):
                    self.assume(z3.Implies(b, o))
                elif issubclass(other, cls):
                    self.assume(z3.Implies(o, b))
                elif self.disjoint(cls, other):
                    self.assume(z3.Not(z3.And(b, o)))
        return isinst(t, ct)

    def disjoint(self, a, b):
        solid = (dict, list, tuple, set, frozenset, str, int, float, bytes, type(None))
        sa = [s for s in solid if issubclass(a, s)]
        sb = [s for s in solid if issubclass(b, s)]
        return bool(sa and sb and sa != sb and not (set(sa) & set(sb)))

    @staticmethod
    def f_or(fs):
        out = []
        for f in fs:
            if f is True:
                return True
            if f is False:
                continue
            out.append(f)
        if not out:
            return False
        return z3.Or(*out) if len(out) > 1 else out[0]

    @staticmethod
    def f_and(fs):
        out = []
        for f in fs:
            if f is False:
                return False
            if f is True:
                continue
            out.append(f)
        if not out:
            return True
        return z3.And(*out) if len(out) > 1 else out[0]

    @staticmethod
    def f_not(f):
        if isinstance(f, bool):
            return not f
        return z3.Not(f)

    # ------------------------------------------------------------------
    # truth, equality, identity
    # ------------------------------------------------------------------
    def truth_f(self, v):
        v = self.force(v)
        if isinstance(v, PyC):
            return bool(v.obj)
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            return v.t != 0
        if isinstance(v, SV):
            return truthy(v.t)
        if isinstance(v, TupV):
            return self.seq_len(v) > 0 if v.concrete() is None else len(v.concrete()) > 0
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind == 'list':
                n = self.segs_len(o.d['segs'])
                return n > 0 if not isinstance(n, int) else n > 0
            if o.kind == 'dict':
                return self.dict_nonempty_f(v)
            if o.kind == 'set':
                return self.set_nonempty_f(v)
            return True
        return True

    def truth(self, v):
        return self.branch(self.truth_f(v))

    def intval(self, v):
        """z3 Int (or int) of an integer Val, else None"""
        if isinstance(v, PyC) and isinstance(v.obj, int):
            return int(v.obj)
        if isinstance(v, SInt):
            return v.t
        if isinstance(v, SBool):
            return z3.If(v.t, 1, 0)
        return None

    def eq_f(self, a, b):
        a = self.force(a)
        b = self.force(b)
        if isinstance(a, PyC) and isinstance(b, PyC):
            return bool(a.obj == b.obj)
        self.comparing(a)
        self.comparing(b)
        ia, ib = self.intval(a), self.intval(b)
        if ia is not None and ib is not None:
            r = ia == ib
            return r if isinstance(r, bool) else z3.simplify(r)
        if isinstance(a, SBool) and isinstance(b, SBool):
            return a.t == b.t
        if isinstance(a, TupV) and isinstance(b, TupV):
            ca, cb = a.concrete(), b.concrete()
            if ca is not None and cb is not None:
                if len(ca) != len(cb):
                    return False
                return self.f_and([self.eq_f(x, y) for x, y in zip(ca, cb)])
        if isinstance(a, Ref) and isinstance(b, Ref) and a.a == b.a:
            return True
        if isinstance(a, PyC) and isinstance(a.obj, tuple) and isinstance(b, TupV):
            return self.eq_f(TupV.of(*[self.wrap(x) for x in a.obj]), b)
        if isinstance(b, PyC) and isinstance(b.obj, tuple) and isinstance(a, TupV):
            return self.eq_f(b, a)
        ca, cb = self.class_of(a), self.class_of(b)
        if ca is not None and cb is not None and isinstance(a, (Func, Bound, BI, Ref)) != isinstance(b, (Func, Bound, BI, Ref)):
            return False
        if isinstance(a, (Func, Bound, BI)) and isinstance(b, (Func, Bound, BI)):
            return self.func_identity(a) == self.func_identity(b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            oa, ob = self.obj(a), self.obj(b)
            if oa.kind == 'list' and ob.kind == 'list':
                xa, xb = self.concrete_segs(oa.d['segs']), self.concrete_segs(ob.d['segs'])
                if xa is not None and xb is not None:
                    if len(xa) != len(xb):
                        return False
                    return self.f_and([self.eq_f(x, y) for x, y in zip(xa, xb)])
            if oa.kind == 'set' and ob.kind == 'set':
                return self.set_eq_f(a, b)
        return key(self.term(a)) == key(self.term(b))

    def concrete_segs(self, segs):
        out = []
        for s in segs:
            if isinstance(s, Seq):
                return None
            out.extend(s)
        return out

    def is_f(self, a, b):
        a = self.force(a)
        b = self.force(b)
        if isinstance(a, PyC) and isinstance(b, PyC):
            return a.obj is b.obj or (type(a.obj) is type(b.obj) and isinstance(a.obj, (int, str)) and a.obj == b.obj)
        if isinstance(a, Ref) or isinstance(b, Ref):
            if isinstance(a, Ref) and isinstance(b, Ref):
                return a.a == b.a
            r, o = (a, b) if isinstance(a, Ref) else (b, a)
            if isinstance(o, (PyC, SInt, SBool, TupV, Func, Bound, BI)):
                return False
            if self.obj(r).owned and self.obj(r).kind != 'exc':
                return False
            return self.term(r) == self.term(o)
        if isinstance(a, TupV) or isinstance(b, TupV):
            if isinstance(a, TupV) and isinstance(b, TupV) and a is b:
                return True
            if isinstance(a, PyC) or isinstance(b, PyC):
                return False
        ta, tb = self.term(a), self.term(b)
        if any(z3.is_app(x) and x.decl().name() == 'typeof' for x in (ta, tb)):
            # a class is equal to itself only
            self.assume((key(ta) == key(tb)) == (ta == tb))
        return ta == tb

    # ------------------------------------------------------------------
    # names
    # ------------------------------------------------------------------
    def new_env(self, parent, mi, node):
        return self.alloc('env', {'#parent': parent, '#mod': mi, '#node': node}).a

    def lookup(self, name, env):
        e = env
        mi = None
        while e is not None:
            o = self.st.heap[e]
            mi = o.d['#mod']
            if name in o.d:
                v = o.d[name]
                if isinstance(v, LazyVal):
                    v = self.force(v)
                    self.st.heap[e] = self.st.heap[e].put(**{name: v})
                if isinstance(v, Havoc):
                    raise Unsupported('read of loop-carried variable %s' % name)
                return v
            node = o.d['#node']
            if node is not None and isinstance(node, (ast.FunctionDef, ast.Lambda)) and name in scope_info(node)[0]:
                self.raise_py(UnboundLocalError, name)
            e = o.d['#parent']
        g = mi.mod.__dict__ if mi else {}
        if name in g:
            return self.wrap(g[name])
        if hasattr(builtins, name):
            return PyC(getattr(builtins, name))
        self.raise_py(NameError, name)

    def store_name(self, name, v, env):
        e = env
        while e is not None:
            o = self.st.heap[e]
            node = o.d['#node']
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                loc, glob, nonl = scope_info(node)
                if name in glob:
                    raise Unsupported('assignment to a global')
                if name in nonl:
                    e = o.d['#parent']
                    continue
            self.st.heap[e] = o.put(**{name: v})
            return
        raise Unsupported('store %s' % name)

    # ------------------------------------------------------------------
    # calls
    # ------------------------------------------------------------------
    def bind(self, f, args, kwargs):
        a = f.node.args
        vals = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        for i, nm in enumerate(pos):
            if i < len(args):
                vals[nm] = args[i]
        if len(args) > len(pos):
            if a.vararg:
                vals[a.vararg.arg] = TupV.of(*args[len(pos):])
            else:
                self.raise_py(TypeError, 'too many arguments')
        elif a.vararg:
            vals[a.vararg.arg] = TupV.of()
        nd = len(f.defaults)
        for i, nm in enumerate(pos):
            if nm in kwargs:
                if nm in vals:
                    self.raise_py(TypeError, 'multiple values for %s' % nm)
                vals[nm] = kwargs.pop(nm)
            elif nm not in vals:
                j = i - (len(pos) - nd)
                if j >= 0:
                    vals[nm] = f.defaults[j]
                else:
                    self.raise_py(TypeError, 'missing argument %s' % nm)
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                vals[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults:
                vals[x.arg] = f.kwdefaults[x.arg]
            else:
                self.raise_py(TypeError, 'missing keyword argument %s' % x.arg)
        if a.kwarg:
            d = self.new_dict()
            for k, v in kwargs.items():
                self.dict_set(d, PyC(k), v)
            vals[a.kwarg.arg] = d
        elif kwargs:
            self.raise_py(TypeError, 'unexpected keyword arguments')
        return vals

    def call_func(self, f, args, kwargs):
        c = self.contracts.get((f.mod.name, f.qual))
        if c is not None:
            return c(self, args, kwargs)
        return self.exec_func(f, args, kwargs)

    def exec_func(self, f, args, kwargs):
        if self.depth > 40:
            raise Unsupported('recursion too deep in %s' % f.qual)
        vals = self.bind(f, args, kwargs)
        if is_generator(f.node):
            env = self.new_env(f.env, f.mod, f.node)
            self.st.heap[env] = self.st.heap[env].put(**vals)
            return self.alloc('it', {'k': 'genfn', 'env': env, 'node': f.node, 'f': f, 'started': False})
        env = self.new_env(f.env, f.mod, f.node)
        self.st.heap[env] = self.st.heap[env].put(**vals)
        self.depth += 1
        self.fnstack.append((f.mod.name, f.qual))
        self.covered.setdefault((f.mod.name, f.qual), set())
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            try:
                self.body(f.node.body, env)
            except ReturnSig as r:
                return r.val
            return NONE
        finally:
            self.depth -= 1
            self.fnstack.pop()

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        f = self.force(f)
        args = [self.force(a) if isinstance(a, LazyVal) else a for a in args]
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.f, [f.self] + args, kwargs)
        if isinstance(f, BI):
            return f.h(self, args, kwargs)
        if isinstance(f, PyC):
            return self.call_pyc(f.obj, args, kwargs)
        if isinstance(f, SV):
            return self.call_sv(f.t, args, kwargs)
        if isinstance(f, Ref):
            o = self.obj(f)
            if o.kind == 'inst':
                m = self.getattr(f, '__call__', SENTINEL)
                if m is not SENTINEL:
                    return self.call(m, args, kwargs)
        self.raise_py(TypeError, 'not callable')

    def call_sv(self, t, args, kwargs):
        raise Unsupported('call of an unknown object %s' % t)

    def is_repo_class(self, c):
        return isinstance(c, type) and c.__module__ in self.mods

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, tuple) and hasattr(cls, '_fields'):
            fields = cls._fields
            vals = list(args)
            if len(vals) > len(fields):
                self.raise_py(TypeError, 'too many arguments')
            kw = dict(kwargs)
            for nm in fields[len(vals):]:
                if nm in kw:
                    vals.append(kw.pop(nm))
                elif nm in cls._field_defaults:
                    vals.append(self.wrap(cls._field_defaults[nm]))
                else:
                    self.raise_py(TypeError, 'missing %s' % nm)
            if kw:
                self.raise_py(TypeError, 'unexpected keyword')
            return TupV([vals], cls)
        kind = 'exc' if issubclass(cls, BaseException) else 'inst'
        r = self.alloc(kind, {'#cls': cls})
        if kind == 'exc':
            # BaseException.__new__ stores the positional arguments
            self.put(r, args=TupV.of(*args))
        init = self.class_attr(cls, '__init__')
        if isinstance(init, Func):
            self.call(init, [r] + list(args), kwargs)
        elif kind == 'exc' and kwargs:
            self.raise_py(TypeError, '%s() takes no keyword arguments' % cls.__name__)
        return r

    def class_attr(self, cls, name, after=None):
        mro = list(cls.__mro__)
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if name in c.__dict__:
                x = c.__dict__[name]
                if isinstance(x, (staticmethod, classmethod)):
                    w = self.wrap(x.__func__)
                    return (w, type(x)) if False else (BI(name, lambda E, a, k, w=w: E.call(w, a[1:], k)) if isinstance(x, staticmethod) else w)
                return self.wrap(x)
        return None

    # ------------------------------------------------------------------
    # attributes
    # ------------------------------------------------------------------
    def getattr(self, v, name, default=None):
        """default: host value returned instead of raising AttributeError (None = raise)"""
        v = self.force(v)
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind in ('inst', 'exc'):
                if name in o.d and not name.startswith('#'):
                    x = o.d[name]
                    if isinstance(x, LazyVal):
                        x = self.force(x)
                        self.put(v, **{name: x})
                    if isinstance(x, Havoc):
                        raise Unsupported('read of loop-carried attribute %s' % name)
                    return x
                if o.d.get('#sym'):
                    return self.sym_exc_attr(v, name, default)
                cls = o.d['#cls']
                if name == '__class__':
                    return PyC(cls)
                if name == '__dict__':
                    raise Unsupported('__dict__ of an instance')
                for c in cls.__mro__:
                    if name in c.__dict__:
                        x = c.__dict__[name]
                        if isinstance(x, staticmethod):
                            return self.wrap(x.__func__)
                        if isinstance(x, classmethod):
                            return Bound(self.wrap(x.__func__), PyC(cls))
                        if isinstance(x, property):
                            return self.call(self.wrap(x.fget), [v])
                        w = self.wrap(x)
                        if isinstance(w, Func):
                            return Bound(w, v)
                        m = self.builtin_method(v, o, name)
                        if m is not None:
                            return m
                        return w
                if default is not None:
                    return default
                self.raise_py(AttributeError, name)
            m = self.builtin_method(v, o, name)
            if m is not None:
                return m
            if default is not None:
                return default
            cls = self.class_of(v)
            if cls is not None and hasattr(cls, name):
                raise Unsupported('method %s.%s' % (cls.__name__, name))
            self.raise_py(AttributeError, name)
        if isinstance(v, TupV):
            if hasattr(v.cls, '_fields') and name in v.cls._fields:
                return v.concrete()[v.cls._fields.index(name)]
            m = self.builtin_method(v, None, name)
            if m is not None:
                return m
            if default is not None and not hasattr(v.cls, name):
                return default
            if not hasattr(v.cls, name):
                self.raise_py(AttributeError, name)
            raise Unsupported('tuple attribute %s' % name)
        if isinstance(v, PyC):
            m = self.builtin_method(v, None, name)
            if m is not None:
                return m
            try:
                x = getattr(v.obj, name)
            except AttributeError:
                if default is not None:
                    return default
                self.raise_py(AttributeError, name)
            return self.wrap(x)
        if isinstance(v, SV):
            if name in ('rstrip', 'lstrip', 'strip', 'join', 'format') and self.is_str(v):
                return self.str_method(v, name)
            return self.getattr_sv(v.t, name, default)
        if isinstance(v, (SInt, SBool)):
            if hasattr(int, name):
                raise Unsupported('int.%s' % name)
            if default is not None:
                return default
            self.raise_py(AttributeError, name)
        if isinstance(v, Func) and v.real is not None:
            try:
                return self.wrap(getattr(v.real, name))
            except AttributeError:
                pass
        if isinstance(v, (Func, Bound, BI)):
            if isinstance(v, BI) and name in v.attrs:
                return v.attrs[name]
            if hasattr(types.FunctionType, name):
                raise Unsupported('attribute %s of a function' % name)
            if default is not None:
                return default
            self.raise_py(AttributeError, name)
        raise Unsupported('getattr %s on %r' % (name, v))

    def hasattr_f(self, v, name):
        v = self.force(v)
        if isinstance(v, SV):
            return self.hasattr_sv(v.t, name)
        if isinstance(v, Ref) and self.obj(v).d.get('#sym'):
            raise Unsupported('hasattr on an unknown exception')
        if isinstance(v, Ref) and self.obj(v).kind in ('list', 'dict', 'set'):
            return hasattr(self.class_of(v), name)
        if isinstance(v, TupV):
            return hasattr(v.cls, name)
        return self.getattr(v, name, SENTINEL) is not SENTINEL

    def setattr(self, v, name, val):
        v = self.force(v)
        if isinstance(v, Ref):
            o = self.obj(v)
            if o.kind in ('inst', 'exc'):
                self.frame_write(v, 'attribute ' + name)
                if o.kind == 'inst' and not o.d.get('#open', True):
                    raise Unsupported('write of attribute %s' % name)
                self.on_setattr(v, name, val)
                self.put(v, **{name: val})
                return
        if isinstance(v, SV):
            self.oblige('frame: no attribute of an input is set (%s)' % name, False, self.frame_tags)
        raise Unsupported('setattr %s on %r' % (name, v))

    def on_setattr(self, ref, name, val):
        pass

    # ------------------------------------------------------------------
    # expressions
    # ------------------------------------------------------------------
    def ev(self, n, env):
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, env)

    def ev_Constant(self, n, env):
        return PyC(n.value)

    def ev_Name(self, n, env):
        return self.lookup(n.id, env)

    def ev_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr)

    def ev_Tuple(self, n, env):
        return TupV(self.ev_elts(n.elts, env))

    def ev_List(self, n, env):
        return self.alloc('list', {'segs': tuple(self.ev_elts(n.elts, env))})

    def ev_elts(self, elts, env):
        segs = [[]]
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, env)
                for s in self.as_segs(v):
                    if isinstance(s, Seq):
                        segs.append(s)
                        segs.append([])
                    else:
                        segs[-1].extend(s)
            else:
                segs[-1].append(self.ev(e, env))
        return [s for s in segs if isinstance(s, Seq) or s] or [[]]

    def ev_Set(self, n, env):
        s = self.new_set()
        for e in n.elts:
            if isinstance(e, ast.Starred):
                self.consume(self.ev(e.value, env), lambda x: self.set_add(s, x))
            else:
                self.set_add(s, self.ev(e, env))
        return s

    def ev_Dict(self, n, env):
        d = self.new_dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.dict_update(d, self.ev(v, env))
            else:
                kv = self.ev(k, env)
                self.dict_set(d, kv, self.ev(v, env))
        return d

    def ev_Lambda(self, n, env):
        return self.make_func(n, env, '<lambda>')

    def make_func(self, n, env, name):
        mi = self.st.heap[env].d['#mod']
        a = n.args
        return Func(n, env, mi, name, defaults=[self.ev(x, env) for x in a.defaults],
                    kwdefaults={x.arg: self.ev(dv, env) for x, dv in zip(a.kwonlyargs, a.kw_defaults) if dv is not None})

    def ev_IfExp(self, n, env):
        if self.truth(self.ev(n.test, env)):
            return self.ev(n.body, env)
        return self.ev(n.orelse, env)

    def ev_BoolOp(self, n, env):
        isand = isinstance(n.op, ast.And)
        v = None
        for i, e in enumerate(n.values):
            v = self.ev(e, env)
            if i == len(n.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return FALSE if isinstance(v, SBool) else v
            if not isand and t:
                return TRUE if isinstance(v, SBool) else v
        return v

    def ev_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            f = self.truth_f(v)
            return self.bval(self.f_not(f))
        i = self.intval(self.force(v))
        if i is not None:
            if isinstance(n.op, ast.USub):
                return self.ival(-i)
            if isinstance(n.op, ast.UAdd):
                return self.ival(i)
        v = self.force(v)
        if isinstance(v, PyC):
            if isinstance(n.op, ast.USub):
                return PyC(-v.obj)
        raise Unsupported('unary operator')

    def bval(self, f):
        if isinstance(f, bool):
            return PyC(f)
        f = z3.simplify(f)
        if z3.is_true(f):
            return TRUE
        if z3.is_false(f):
            return FALSE
        return SBool(f)

    def ival(self, i):
        if isinstance(i, int):
            return PyC(i)
        i = z3.simplify(i)
        if z3.is_int_value(i):
            return PyC(i.as_long())
        return SInt(i)

    def ev_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        a = self.force(a)
        b = self.force(b)
        on = type(op).__name__
        if isinstance(a, PyC) and isinstance(a.obj, str) and on == 'Mod':
            return self.str_mod(a.obj, b)
        if isinstance(a, PyC) and isinstance(b, PyC):
            import operator
            f = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul, 'Mod': operator.mod,
                 'FloorDiv': operator.floordiv, 'BitOr': operator.or_, 'BitAnd': operator.and_,
                 'Div': operator.truediv, 'BitXor': operator.xor}.get(on)
            if f is None:
                raise Unsupported('operator ' + on)
            try:
                return self.wrap(f(a.obj, b.obj))
            except Exception as e:
                self.raise_py(type(e), str(e))
        ia, ib = self.intval(a), self.intval(b)
        if ia is not None and ib is not None:
            if on == 'Add':
                return self.ival(ia + ib)
            if on == 'Sub':
                return self.ival(ia - ib)
            if on == 'Mult' and (isinstance(ia, int) or isinstance(ib, int)):
                return self.ival(ia * ib)
            if on in ('BitOr', 'BitAnd') and isinstance(a, (SBool, PyC)) and isinstance(b, (SBool, PyC)):
                fa, fb = self.truth_f(a), self.truth_f(b)
                return self.bval(self.f_or([fa, fb]) if on == 'BitOr' else self.f_and([fa, fb]))
        r = self.binop_ext(on, a, b)
        if r is None:
            raise Unsupported('operator %s on %r, %r' % (on, a, b))
        return r

    def ev_Compare(self, n, env):
        left = self.ev(n.left, env)
        for i, (op, rhs) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(rhs, env)
            f = self.compare(op, left, right)
            if i == len(n.ops) - 1:
                return self.bval(f)
            if not self.branch(f):
                return FALSE
            left = right

    def compare(self, op, a, b):
        on = type(op).__name__
        if on == 'Eq':
            return self.eq_f(a, b)
        if on == 'NotEq':
            return self.f_not(self.eq_f(a, b))
        if on == 'Is':
            return self.is_f(a, b)
        if on == 'IsNot':
            return self.f_not(self.is_f(a, b))
        if on == 'In':
            return self.contains_f(b, a)
        if on == 'NotIn':
            return self.f_not(self.contains_f(b, a))
        a = self.force(a)
        b = self.force(b)
        ia, ib = self.intval(a), self.intval(b)
        if ia is not None and ib is not None:
            return {'Lt': lambda: ia < ib, 'LtE': lambda: ia <= ib, 'Gt': lambda: ia > ib, 'GtE': lambda: ia >= ib}[on]()
        if isinstance(a, PyC) and isinstance(b, PyC):
            import operator
            f = {'Lt': operator.lt, 'LtE': operator.le, 'Gt': operator.gt, 'GtE': operator.ge}[on]
            try:
                return bool(f(a.obj, b.obj))
            except TypeError as e:
                self.raise_py(TypeError, str(e))
        r = self.compare_ext(on, a, b)
        if r is None:
            raise Unsupported('comparison %s on %r, %r' % (on, a, b))
        return r

    def ev_Call(self, n, env):
        # super() needs the frame
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return self.make_super(env)
        f = self.ev(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                segs = self.as_segs_call(v)
                c = self.concrete_segs(segs)
                if c is None:
                    # an unknown number of arguments
                    args.append(StarArgs(segs, v))
                else:
                    args.extend(c)
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        star = None
        for k in n.keywords:
            if k.arg is None:
                v = self.force(self.ev(k.value, env))
                items = self.dict_concrete_items(v)
                if items is None:
                    if star is not None:
                        raise Unsupported('two ** arguments')
                    star = v
                else:
                    for kk, vv in items:
                        kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        if star is not None:
            kwargs['**'] = star
        self.where.append('%s:%d' % (self.fnstack[-1][1] if self.fnstack else '?', n.lineno))
        try:
            return self.call(f, args, kwargs)
        finally:
            self.where.pop()

    def make_super(self, env):
        e = env
        while e is not None:
            o = self.st.heap[e]
            node = o.d['#node']
            if isinstance(node, ast.FunctionDef) and node.args.args:
                selfv = o.d[node.args.args[0].arg]
                mi = o.d['#mod']
                # the class that lexically contains node
                for q, c in mi.classes.items():
                    if node in ast.walk(c):
                        cls = getattr(mi.mod, q)
                        return self.alloc('super', {'self': selfv, 'cls': cls})
            e = o.d['#parent']
        raise Unsupported('super()')

    def ev_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        e = env
        while True:
            node = self.st.heap[e].d['#node']
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                break
            e = self.st.heap[e].d['#parent']
        self.store_name(n.target.id, v, e)
        return v

    def ev_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value, env)
                if v.conversion == 114:
                    x = self.py_repr(x)
                elif v.format_spec is not None:
                    x = self.py_repr(x)
                parts.append(x)
        return self.str_build([p if isinstance(p, str) else ('s', p) for p in parts])

    def ev_Subscript(self, n, env):
        v = self.ev(n.value, env)
        if isinstance(n.slice, ast.Slice):
            g = lambda x: self.ev(x, env) if x is not None else None
            return self.get_slice(v, g(n.slice.lower), g(n.slice.upper), g(n.slice.step))
        return self.getitem(v, self.ev(n.slice, env))

    def ev_Starred(self, n, env):
        raise Unsupported('starred expression')

    # comprehensions
    def ev_GeneratorExp(self, n, env):
        it = self.iter(self.ev(n.generators[0].iter, env))
        mi = self.st.heap[env].d['#mod']
        cenv = self.new_env(env, mi, None)
        return self.alloc('it', {'k': 'genexp', 'src': it, 'env': cenv, 'node': n})

    def ev_ListComp(self, n, env):
        acc = self.alloc('list', {'segs': ()})
        self.comp_consume(n, env, lambda e: self.list_append(acc, self.ev(n.elt, e)))
        return acc

    def ev_SetComp(self, n, env):
        acc = self.new_set()
        self.comp_consume(n, env, lambda e: self.set_add(acc, self.ev(n.elt, e)))
        return acc

    def ev_DictComp(self, n, env):
        acc = self.new_dict()

        def sink(e):
            k = self.ev(n.key, e)
            v = self.ev(n.value, e)
            self.dict_set(acc, k, v)
        self.comp_consume(n, env, sink)
        return acc

    def comp_consume(self, n, env, sink):
        it = self.iter(self.ev(n.generators[0].iter, env))
        mi = self.st.heap[env].d['#mod']
        cenv = self.new_env(env, mi, None)
        self.comp_levels(n, 0, it, cenv, sink)

    def comp_levels(self, n, level, it, cenv, sink):
        g = n.generators[level]

        def each(x):
            self.assign(g.target, x, cenv)
            for c in g.ifs:
                if not self.truth(self.ev(c, cenv)):
                    return
            if level + 1 < len(n.generators):
                self.comp_levels(n, level + 1, self.iter(self.ev(n.generators[level + 1].iter, cenv)), cenv, sink)
            else:
                sink(cenv)
        self.consume(it, each)

    # ------------------------------------------------------------------
    # statements
    # ------------------------------------------------------------------
    def body(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, n, env):
        if self.fnstack:
            self.covered.setdefault(self.fnstack[-1], set()).add(n.lineno)
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(n).__name__)
        m(n, env)

    def st_Expr(self, n, env):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Yield):
            self.do_yield(n.value, env)
            return
        if isinstance(n.value, ast.YieldFrom):
            v = self.ev(n.value.value, env)
            self.consume(v, lambda x: self.yield_sink(env)(x))
            return
        self.ev(n.value, env)

    def yield_sink(self, env):
        e = env
        while e is not None:
            o = self.st.heap[e]
            if '#sink' in o.d:
                return o.d['#sink']
            e = o.d['#parent']
        raise Unsupported('yield outside a consumed generator')

    def do_yield(self, n, env):
        v = self.ev(n.value, env) if n.value is not None else NONE
        self.yield_sink(env)(v)

    def st_Pass(self, n, env):
        pass

    def st_Return(self, n, env):
        raise ReturnSig(self.ev(n.value, env) if n.value is not None else NONE)

    def st_Assign(self, n, env):
        v = self.ev(n.value, env)
        for t in n.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, n, env):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, env), env)

    def st_AugAssign(self, n, env):
        t = n.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            old = self.getattr(o, t.attr)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            old = self.getitem(o, k)
        v = self.ev(n.value, env)
        new = self.inplace(n.op, old, v)
        if isinstance(t, ast.Name):
            self.store_name(t.id, new, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, new)
        else:
            self.setitem(o, k, new)

    def inplace(self, op, old, v):
        old = self.force(old)
        if isinstance(old, Ref):
            o = self.obj(old)
            on = type(op).__name__
            if o.kind == 'list' and on == 'Add':
                self.frame_write(old, '+=')
                self.list_extend(old, v)
                return old
            if o.kind == 'set' and on == 'BitOr':
                self.consume(self.iter(v), lambda x: self.set_add(old, x))
                return old
            if o.kind == 'set' and on in ('Sub', 'BitAnd'):
                self.frame_write(old, on)
                r = self.binop(op, old, v)
                self.put(old, layers=self.obj(r).d['layers'])
                return old
            if o.kind == 'dict' and on == 'BitOr':
                self.dict_update(old, v)
                return old
        return self.binop(op, old, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            if isinstance(t.slice, ast.Slice):
                self.set_slice(o, t.slice, v, env)
            else:
                self.setitem(o, self.ev(t.slice, env), v)
        else:
            raise Unsupported('assignment target')

    def set_slice(self, o, sl, v, env):
        o = self.force(o)
        if isinstance(o, Ref) and self.obj(o).kind == 'list' and sl.lower is None and sl.upper is None and sl.step is None:
            self.frame_write(o, 'slice assignment')
            segs = tuple(self.as_segs(v))
            self.put(o, segs=segs)
            return
        if isinstance(o, Ref) and self.obj(o).kind == 'list' and sl.step is None and sl.upper is not None:
            lo = 0 if sl.lower is None else self.intval(self.force(self.ev(sl.lower, env)))
            hi = self.intval(self.force(self.ev(sl.upper, env)))
            if isinstance(lo, int) and lo == 0 and isinstance(hi, int) and hi == 0:
                # put before the others
                segs = tuple(self.as_segs(v))
                self.frame_write(o, 'slice assignment')
                self.put(o, segs=segs + tuple(self.obj(o).d['segs']))
                return
        raise Unsupported('slice assignment')

    def unpack(self, elts, v, env):
        stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        vals = self.unpack_n(v, len(elts), stars[0] if stars else None)
        for e, x in zip(elts, vals):
            self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)

    def unpack_n(self, v, n, star):
        v = self.force(v)
        segs = self.as_segs(v)
        c = self.concrete_segs(segs)
        if c is None:
            ln = self.segs_len(segs)
            if star is None:
                if not self.branch(ln == n):
                    self.raise_py(ValueError, 'unpack')
                return [self.segs_get(segs, i) for i in range(n)]
            if not self.branch(ln >= n - 1):
                self.raise_py(ValueError, 'unpack')
            tail = n - 1 - star
            mid = self.alloc('list', {'segs': (Seq(ln - (n - 1), lambda E, i, segs=segs: E.segs_get(segs, i + star)),)})
            return [self.segs_get(segs, i) for i in range(star)] + [mid] + [self.segs_get(segs, ln - tail + j) for j in range(tail)]
        if star is None:
            if len(c) != n:
                self.raise_py(ValueError, 'unpack')
            return c
        if len(c) < n - 1:
            self.raise_py(ValueError, 'unpack')
        tail = n - 1 - star
        mid = self.alloc('list', {'segs': (c[star:len(c) - tail],)})
        return c[:star] + [mid] + (c[len(c) - tail:] if tail else [])

    def st_If(self, n, env):
        if self.truth(self.ev(n.test, env)):
            self.body(n.body, env)
        else:
            self.body(n.orelse, env)

    def st_Assert(self, n, env):
        if not self.truth(self.ev(n.test, env)):
            self.raise_py(AssertionError, 'assertion failed')

    def st_Delete(self, n, env):
        for t in n.targets:
            if isinstance(t, ast.Name):
                o = self.st.heap[env]
                if t.id in o.d:
                    d = dict(o.d)
                    del d[t.id]
                    self.st.heap[env] = Obj(o.kind, d, o.term, o.owned)
                else:
                    self.raise_py(UnboundLocalError, t.id)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, env), self.ev(t.slice, env))
            elif isinstance(t, ast.Attribute):
                raise Unsupported('del attribute')

    def st_Raise(self, n, env):
        if n.exc is None:
            if not self.excstack:
                self.raise_py(RuntimeError, 'no active exception')
            raise Raise(self.excstack[-1])
        v = self.force(self.ev(n.exc, env))
        if isinstance(v, PyC) and isinstance(v.obj, type) and issubclass(v.obj, BaseException):
            v = self.force(self.call(v, [], {}))
        if n.cause is not None:
            self.ev(n.cause, env)
        if isinstance(v, Ref) and self.obj(v).kind == 'exc':
            raise Raise(v)
        if isinstance(v, PyC) and isinstance(v.obj, BaseException):
            self.raise_py(type(v.obj), str(v.obj))
        self.raise_py(TypeError, 'exceptions must derive from BaseException')

    def st_Try(self, n, env):
        def main():
            try:
                self.body(n.body, env)
            except Raise as r:
                for h in n.handlers:
                    if h.type is None or self.exc_match(r.exc, self.ev(h.type, env)):
                        if h.name:
                            self.store_name(h.name, r.exc, env)
                        self.excstack.append(r.exc)
                        try:
                            self.body(h.body, env)
                        finally:
                            self.excstack.pop()
                            if h.name and h.name in self.st.heap.get(env, Obj('', {})).d:
                                o = self.st.heap[env]
                                d = dict(o.d)
                                del d[h.name]
                                self.st.heap[env] = Obj(o.kind, d, o.term, o.owned)
                        return
                raise
            else:
                self.body(n.orelse, env)
        if not n.finalbody:
            return main()
        try:
            main()
        except (Raise, ReturnSig, BreakSig, ContinueSig):
            self.body(n.finalbody, env)
            raise
        self.body(n.finalbody, env)

    def st_For(self, n, env):
        it = self.iter(self.ev(n.iter, env))
        owner = object()

        def each(x):
            self.assign(n.target, x, env)
            try:
                self.body(n.body, env)
            except ContinueSig:
                pass
            except BreakSig as b:
                if b.owner is None:
                    b.owner = n
                raise
        try:
            self.consume(it, each)
        except BreakSig as b:
            if b.owner is not n:
                raise
            return
        self.body(n.orelse, env)

    def st_While(self, n, env):
        def step():
            if not self.truth(self.ev(n.test, env)):
                raise StopIter()
            try:
                self.body(n.body, env)
            except ContinueSig:
                pass
            except BreakSig as b:
                if b.owner is None:
                    b.owner = n
                raise
        try:
            self.run_loop(step, None)
        except BreakSig as b:
            if b.owner is not n:
                raise
            return
        self.body(n.orelse, env)

    def st_Break(self, n, env):
        raise BreakSig()

    def st_Continue(self, n, env):
        raise ContinueSig()

    def st_FunctionDef(self, n, env):
        if n.decorator_list:
            raise Unsupported('decorator')
        self.store_name(n.name, self.make_func(n, env, n.name), env)

    def st_Import(self, n, env):
        import importlib
        for a in n.names:
            try:
                m = importlib.import_module(a.name)
            except ImportError:
                self.raise_py(ImportError, a.name)
            if a.asname:
                self.store_name(a.asname, PyC(m), env)
            else:
                self.store_name(a.name.split('.')[0], PyC(sys.modules[a.name.split('.')[0]]), env)

    def st_ImportFrom(self, n, env):
        import importlib
        mi = self.st.heap[env].d['#mod']
        name = ('.' * n.level) + (n.module or '')
        try:
            m = importlib.import_module(name, mi.mod.__package__)
        except ImportError:
            self.raise_py(ImportError, name)
        for a in n.names:
            if not hasattr(m, a.name):
                self.raise_py(ImportError, a.name)
            self.store_name(a.asname or a.name, self.wrap(getattr(m, a.name)), env)

    def st_Global(self, n, env):
        raise Unsupported('global')

    def st_Nonlocal(self, n, env):
        pass

    def st_With(self, n, env):
        if len(n.items) == 1:
            import contextlib
            c = n.items[0].context_expr
            if isinstance(c, ast.Call):
                f = self.ev(c.func, env)
                if isinstance(f, PyC) and f.obj is contextlib.suppress:
                    classes = [self.ev(a, env) for a in c.args]
                    try:
                        self.body(n.body, env)
                    except Raise as r:
                        if not self.exc_match(r.exc, TupV.of(*classes)):
                            raise
                    return
        raise Unsupported('with statement')


class StarArgs(Val):
    """*args of unknown length in a call"""
    __slots__ = ('segs', 'orig')

    def __init__(self, segs, orig):
        self.segs = segs
        self.orig = orig
