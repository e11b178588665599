"""
pyvc.core - values, SMT vocabulary, states and path exploration.

pyvc is a verification-condition generator for Python: it executes the AST of
the real functions on symbolic values, path by path, splitting on every
condition that is not decided by the path condition, cutting every loop whose
trip count is not fixed with an inferred loop summary (loops.py), and using a
contract instead of a body for the calls that have one.  Everything that has to
hold (postconditions, preconditions of callees, frame conditions, ...) becomes
an obligation "path condition => formula", discharged by z3.
"""
import os
import time
import z3

# --------------------------------------------------------------------------
# SMT vocabulary
# --------------------------------------------------------------------------
V = z3.DeclareSort('V')      # Python objects
K = z3.DeclareSort('K')      # equivalence classes of ==   (key(a)=key(b) <=> a==b)
I = z3.IntSort()
B = z3.BoolSort()

_fn = {}


def fn(name, *sorts):
    k = (name,) + tuple(s.name() for s in sorts)
    f = _fn.get(k)
    if f is None:
        f = _fn[k] = z3.Function(name, *sorts)
    return f


key = fn('key', V, K)
unkey = fn('unkey', K, V)
typeof = fn('typeof', V, V)
isinst = fn('isinstance', V, V, B)
hashable = fn('hashable', V, B)
truthy = fn('truthy', V, B)
int2v = fn('int2v', I, V)
v2int = fn('v2int', V, I)
bool2v = fn('bool2v', B, V)
cid = fn('cid', V, I)
kid = fn('kid', K, I)
# iteration / mapping view of an object
it_n = fn('it_n', V, I)            # number of elements its iteration yields
it_el = fn('it_el', V, I, V)       # j-th element
iterable = fn('iterable', V, B)
sized = fn('sized', V, B)
maplike = fn('maplike', V, B)      # has keys()/items()/__getitem__ consistent with each other
mhas = fn('mhas', V, K, B)
mget = fn('mget', V, K, V)
mkey = fn('mkey', V, I, V)         # j-th key in iteration order
mn = fn('mn', V, I)
midx = fn('midx', V, K, I)         # position of a key


class Unsupported(Exception):
    """The code is outside the fragment pyvc handles: no verdict."""


class PathDead(Exception):
    """The current path is infeasible or is deliberately cut."""


# --------------------------------------------------------------------------
# Values
# --------------------------------------------------------------------------
class Val:
    __slots__ = ()


class PyC(Val):
    """A concrete Python object."""
    __slots__ = ('obj',)

    def __init__(self, obj):
        self.obj = obj

    def __repr__(self):
        return 'PyC(%r)' % (self.obj,)


class SV(Val):
    """An opaque object, denoted by an SMT term of sort V."""
    __slots__ = ('t',)

    def __init__(self, t):
        assert t.sort() == V, t
        self.t = t

    def __repr__(self):
        return 'SV(%s)' % self.t


class SInt(Val):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t if isinstance(t, z3.ExprRef) else z3.IntVal(t)

    def __repr__(self):
        return 'SInt(%s)' % self.t


class SBool(Val):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SBool(%s)' % self.t


class Seq:
    """
    A sequence of symbolic length: n elements, el(E, i) gives the i-th Val.
    el may add assumptions to the current path (facts about that element) and
    may split the path.
    """
    __slots__ = ('n', 'el', 'tag')

    def __init__(self, n, el, tag=None):
        self.n = n if isinstance(n, z3.ExprRef) else z3.IntVal(n)
        self.el = el
        self.tag = tag


class TupV(Val):
    """An immutable sequence: segs is a tuple of list-of-Val or Seq. cls is tuple or a NamedTuple class."""
    __slots__ = ('segs', 'cls')

    def __init__(self, segs, cls=tuple):
        self.segs = tuple(segs)
        self.cls = cls

    @staticmethod
    def of(*vals, cls=tuple):
        return TupV([list(vals)], cls)

    def concrete(self):
        out = []
        for s in self.segs:
            if isinstance(s, Seq):
                return None
            out.extend(s)
        return out

    def __repr__(self):
        return 'TupV(%r,%s)' % (self.segs, self.cls.__name__)


class Ref(Val):
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def __repr__(self):
        return 'Ref(%d)' % self.a


class Func(Val):
    """A function whose AST is available."""
    __slots__ = ('node', 'env', 'mod', 'qual', 'cls', 'defaults', 'kwdefaults', 'real')

    def __init__(self, node, env, mod, qual, cls=None, defaults=(), kwdefaults=None, real=None):
        self.node = node
        self.env = env
        self.mod = mod
        self.qual = qual
        self.cls = cls
        self.defaults = tuple(defaults)
        self.kwdefaults = dict(kwdefaults or {})
        self.real = real

    def __repr__(self):
        return 'Func(%s)' % self.qual


class Bound(Val):
    __slots__ = ('f', 'self')

    def __init__(self, f, self_):
        self.f = f
        self.self = self_

    def __repr__(self):
        return 'Bound(%r)' % (self.f,)


class BI(Val):
    """An operation with a contract, implemented by the host function h(E, args, kwargs)."""
    __slots__ = ('name', 'h', 'attrs')

    def __init__(self, name, h, attrs=None):
        self.name = name
        self.h = h
        self.attrs = attrs or {}

    def __repr__(self):
        return 'BI(%s)' % self.name


class Havoc(Val):
    """A loop-carried variable of unknown shape: may be overwritten, not read."""
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why


class LazyVal(Val):
    """A value computed (splitting the path) when first read."""
    __slots__ = ('force',)

    def __init__(self, force):
        self.force = force


NONE = PyC(None)
TRUE = PyC(True)
FALSE = PyC(False)


# --------------------------------------------------------------------------
# Heap objects: immutable records, replaced on write
# --------------------------------------------------------------------------
class Obj:
    __slots__ = ('kind', 'd', 'term', 'owned')

    def __init__(self, kind, d, term=None, owned=True):
        self.kind = kind
        self.d = d
        self.term = term
        self.owned = owned      # allocated by the code under verification

    def put(self, /, **kw):
        d = dict(self.d)
        d.update(kw)
        return Obj(self.kind, d, self.term, self.owned)


class State:
    __slots__ = ('pc', 'heap', 'ctr', 'events', 'jctx', 'next_a', 'ghost', 'quiet')

    def __init__(self):
        self.pc = ()
        self.heap = {}
        self.ctr = 0
        self.events = ()
        self.jctx = ()
        self.next_a = 1
        self.ghost = {}
        self.quiet = 0

    def copy(self):
        s = State.__new__(State)
        s.pc = self.pc
        s.heap = dict(self.heap)
        s.ctr = self.ctr
        s.events = self.events
        s.jctx = self.jctx
        s.next_a = self.next_a
        s.ghost = dict(self.ghost)
        s.quiet = self.quiet
        return s


# control flow of the interpreted program
class Raise(Exception):
    def __init__(self, exc):
        self.exc = exc


class BreakSig(Exception):
    def __init__(self, payload=None, owner=None):
        self.payload = payload
        self.owner = owner


class ContinueSig(Exception):
    pass


class ReturnSig(Exception):
    def __init__(self, val):
        self.val = val


class StopIter(Exception):
    """an iterator is exhausted (host level)"""


class Out:
    """One outcome of an exploration"""
    __slots__ = ('kind', 'payload', 'st', 'npc')

    def __init__(self, kind, payload, st, npc):
        self.kind = kind
        self.payload = payload
        self.st = st
        self.npc = npc          # the part of the path condition added by the exploration


def pc_list(pc, stop=None):
    """pc is a linked list (prev, formula) with () as the empty list; newest last"""
    out = []
    while pc is not stop and pc != ():
        out.append(pc[1])
        pc = pc[0]
    out.reverse()
    return out


MAX_PATHS = 3000


def gave_up(reason):
    return any(w in reason for w in ('timeout', 'cancel', 'resource', 'memout', 'memory', 'interrupt'))


# limits of the solver in its own steps (the same on every machine), about 0.5 s and 10 s
FEAS_TIMEOUT = 600000
OBL_TIMEOUT = 12000000


class Obligation:
    __slots__ = ('fn', 'name', 'tags', 'status', 'secs', 'detail', 'where')

    def __init__(self, fn, name, tags, status, secs, detail, where):
        self.fn = fn
        self.name = name
        self.tags = tags
        self.status = status
        self.secs = secs
        self.detail = detail
        self.where = where


class Explorer:
    """Path exploration by re-execution with a decision list; solver handling."""

    def __init__(self):
        self.st = State()
        self.dec = []
        self.di = 0
        self.pending = None
        self.loopcache = {}
        self.explore_id = 0
        self.cur_explore = 0
        self.obls = []
        self.where = []
        self.npaths = 0
        self.nchecks = 0
        self.solver_secs = 0.0
        self.fnname = '?'
        self.solver = z3.Solver()
        self._setopts(self.solver)
        self.sstack = []            # formulas asserted, one push each
        self.const_terms = {}
        self.const_objs = {}
        self.global_ax = []
        self.deadline = None
        self.unsup = []
        self.cache_obl = {}
        self.assumed = {}
        self.substs = []            # pending substitutions of loop indices
        self.addr_j = {}
        self.memo = {}              # results of the checks done on the common prefix of paths
        self.map_decls = set()      # functions whose results are all mappings (axioms in the contracts)
        self.mctr = 0
        self.memo_hit = False
        self.splitter = None        # parallel exploration of the paths (contracts/base.py)

    @staticmethod
    def _setopts(s):
        s.set('smt.mbqi', False)
        s.set('auto_config', False)
        s.set('rlimit', FEAS_TIMEOUT)
        s.set('timeout', 60000)

    # ---- path condition -------------------------------------------------
    def sub(self, f):
        """Apply the pending loop index substitutions, innermost first."""
        if self.substs and isinstance(f, z3.ExprRef):
            for s in reversed(self.substs):
                f = z3.substitute(f, s)
        return f

    def assume(self, f):
        f = self.sub(f)
        if f is True or z3.is_true(f):
            return
        if f is False or z3.is_false(f):
            raise PathDead()
        self.st.pc = (self.st.pc, f)

    def pcs(self):
        return pc_list(self.st.pc)

    def sync(self):
        want = self.pcs()
        n = 0
        while n < len(self.sstack) and n < len(want) and self.sstack[n] is want[n]:
            n += 1
        extra = len(self.sstack) - n
        if extra:
            self.solver.pop(extra)
            del self.sstack[n:]
        for f in want[n:]:
            self.solver.push()
            self.solver.add(f)
            self.sstack.append(f)

    def check(self, *extra, timeout=FEAS_TIMEOUT):
        self.mctr += 1
        mk = (tuple(self.dec[:self.di]), self.mctr)
        r = self.memo.get(mk)
        self.memo_hit = r is not None
        if r is not None:
            return r
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        t0 = time.time()
        self.sync()
        self.solver.set('rlimit', timeout)
        fs = list(extra) + self.global_ax
        r = self._check_push(fs)
        self.solver_secs += time.time() - t0
        self.nchecks += 1
        self.memo[mk] = r
        return r

    def _check_push(self, fs):
        self.solver.push()
        try:
            for f in fs:
                self.solver.add(f)
            return self.solver.check()
        finally:
            self.solver.pop()

    def feasible(self, f):
        return self.check(f) != z3.unsat

    def proves(self, f, timeout=FEAS_TIMEOUT):
        f = z3.simplify(self.sub(f))
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return self.check() == z3.unsat
        return self.check(z3.Not(f), timeout=timeout) == z3.unsat

    # ---- decisions ------------------------------------------------------
    def branch(self, cond):
        """Split the path on a formula; returns the truth value on this path."""
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(self.sub(cond))
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        ft = self.feasible(cond)
        ff = self.feasible(z3.Not(cond))
        if ft and ff:
            r = self.choose(2, None) == 0
        elif ft:
            r = True
        elif ff:
            r = False
        else:
            raise PathDead()
        self.st.pc = (self.st.pc, cond if r else z3.Not(cond))
        return r

    def choose(self, n, what=None):
        if n == 1:
            return 0
        if self.di < len(self.dec):
            r = self.dec[self.di]
        else:
            r = 0
            self.dec.append(0)
            for alt in range(n - 1, 0, -1):
                self.pending.append(self.dec[:-1] + [alt])
        self.di += 1
        return r

    def explore(self, thunk, label=''):
        """
        All the paths of thunk() from the current state.
        The state after the call is unspecified: callers set self.st.
        """
        base = self.st
        saved = (self.dec, self.di, self.pending, self.cur_explore, self.memo, self.mctr)
        self.memo = {}
        self.explore_id += 1
        self.cur_explore = self.explore_id
        outs = []
        stack = [[]]
        count = 0
        split = self.splitter
        self.splitter = None
        try:
            feed = None
            while stack or feed:
                if split and len(stack) >= split.width:
                    feed = split.fork(stack)
                    stack = []
                    split = None
                    if feed is None:        # the children have done the rest
                        break
                if feed and not stack:
                    nxt = feed()
                    if nxt is None:
                        break
                    stack = [nxt]
                count += 1
                self.npaths += 1
                if count > MAX_PATHS:
                    raise Unsupported('too many paths in %s' % label)
                self.dec = stack.pop(0 if split else -1)
                self.di = 0
                self.mctr = 0
                self.pending = []
                self.st = base.copy()
                try:
                    r = thunk()
                    o = ('normal', r)
                except PathDead:
                    o = None
                except Raise as e:
                    o = ('raise', e.exc)
                except BreakSig as e:
                    o = ('break', e)
                except ContinueSig:
                    o = ('continue', None)
                except ReturnSig as e:
                    o = ('return', e.val)
                except StopIter:
                    o = ('stop', None)
                stack.extend(self.pending)
                if o is not None:
                    outs.append(Out(o[0], o[1], self.st, pc_list(self.st.pc, base.pc)))
        finally:
            self.dec, self.di, self.pending, self.cur_explore, self.memo, self.mctr = saved
            self.st = base
        return outs

    # ---- fresh symbols --------------------------------------------------
    def fresh(self, name, sort=V):
        """A fresh constant; inside a summarised loop, a fresh function of the loop indices."""
        self.st.ctr += 1
        nm = '%s!%d.%d' % (name, self.cur_explore, self.st.ctr)
        j = self.st.jctx
        if not j:
            return z3.Const(nm, sort)
        return z3.Function(nm, *([I] * len(j)), sort)(*j)

    def fresh_fn(self, name, *sorts):
        """A fresh function (of the loop indices too)."""
        self.st.ctr += 1
        nm = '%s!%d.%d' % (name, self.cur_explore, self.st.ctr)
        j = self.st.jctx
        f = z3.Function(nm, *([I] * len(j)), *sorts)
        if not j:
            return f
        return lambda *a: f(*j, *a)

    # ---- obligations ----------------------------------------------------
    def oblige(self, name, formula, tags=(), detail=''):
        """The formula has to follow from the path condition."""
        if self.st.quiet:
            if formula is True or formula is False:
                if formula is False:
                    raise PathDead()
                return
            self.assume(formula)
            return
        t0 = time.time()
        extra = ''
        if formula is True:
            status = 'discharged'
        else:
            f = z3.BoolVal(False) if formula is False else self.sub(formula)
            r = self.check(z3.Not(f), timeout=OBL_TIMEOUT)
            if self.memo_hit:
                # the same obligation, on the common prefix of another path
                if formula is False:
                    raise PathDead()
                self.assume(formula)
                return
            if r == z3.unsat:
                status = 'discharged'
            elif r == z3.sat:
                status = 'refuted'
            else:
                reason = self.solver.reason_unknown()
                status = 'timeout' if gave_up(reason) else 'not-proved'
                extra = reason
                # other chances, on fresh solvers: what was learned before does not count
                for opts in ({}, {'smt.qi.lazy_threshold': 1000.0, 'smt.qi.eager_threshold': 100.0}, {'smt.relevancy': 0}):
                    s = z3.Solver()
                    self._setopts(s)
                    for k, v in opts.items():
                        s.set(k, v)
                    s.set('rlimit', OBL_TIMEOUT * 2)
                    for g in self.pcs() + self.global_ax:
                        s.add(g)
                    s.add(z3.Not(f))
                    r = s.check()
                    if r == z3.unsat:
                        status = 'discharged'
                        if os.environ.get('PYVC_RETRIES'):
                            with open(os.environ['PYVC_RETRIES'], 'a') as fl:
                                fl.write('%s: %s: %s\n' % (self.fnname, name, opts))
                        break
                    if r == z3.sat:
                        status = 'refuted'
                        break
                    if status == 'timeout' and gave_up(s.reason_unknown()):
                        break
                    if not gave_up(s.reason_unknown()):
                        status = 'not-proved'
                        extra = s.reason_unknown()
        if status == 'discharged':
            det = ''
        else:
            det = (detail + '\nsolver: ' + status + ' ' + extra + '\ngoal: ' + str(formula)[:2000] +
                   '\npath condition:\n  ' + '\n  '.join(str(x)[:600] for x in self.pcs()[-60:]))
        self.obls.append(Obligation(self.fnname, name, tuple(tags), status, time.time() - t0, det,
                                    '/'.join(map(str, self.where[-2:]))))
        if formula is False:
            raise PathDead()
        if formula is not True:
            self.assume(formula)

    def skolem(self, name, lo, hi):
        j = self.fresh(name, I)
        self.assume(j >= lo)
        self.assume(j < hi)
        return j
