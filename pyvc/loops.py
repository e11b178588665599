"""
pyvc.loops - the loop rule.

A loop whose number of iterations is not fixed is cut by a summary: its body is
executed once, at a generic iteration J, from a state in which everything that
the body modifies has been replaced by its value "after J iterations":

  integers changed by a constant       v0 + c*J               (inductive, checked)
  integers changed on some paths       cnt(J), a fresh function with its recurrence
  lists that are only appended to      prefix ++ Seq          (elements: by path)
  dicts / sets                         base + 'bulk' layer    (last writer function)
  anything else                        Havoc: may be overwritten, not read

Each path p of the body has a condition c_p(J).  The loop continues at i iff
some normal path has c_p(i); it leaves through one of the other paths (the
iterator is exhausted, break, return, raise) at the exit index J, with
c_p(i) for some normal p for every i < J.
"""
import z3

from .core import *
from .interp import Interp


class LoopRec:
    def __init__(self, J):
        self.J = J
        self.normal = []
        self.exits = []
        self.cells = {}
        self.ready = False
        self.srcsegs = None     # what it iterates over

    def cond(self, p):
        return z3.And(*self.normal[p].npc) if self.normal[p].npc else z3.BoolVal(True)


def collect_patterns(f, var, limit=6):
    """uninterpreted applications in f having var as a direct argument, that are not fresh loop symbols"""
    out = []
    seen = set()
    todo = [f]
    while todo and len(out) < limit:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(a.eq(var) for a in x.children()):
                if not pattern_ok(x):
                    pass
                elif '!' not in x.decl().name() or x.decl().name().startswith('w!') or x.decl().name().startswith('en!') or x.decl().name().startswith('T!'):
                    out.append(x)
            todo.extend(x.children())
    return out


def pattern_ok(x):
    todo = [x]
    while todo:
        y = todo.pop()
        if not z3.is_app(y) or (y.sort() == z3.BoolSort() and y.decl().kind() != z3.Z3_OP_UNINTERPRETED) or y.decl().kind() == z3.Z3_OP_ITE:
            return False
        todo.extend(y.children())
    return True


class Loops(Interp):

    def with_sub(self, J, idx, src, base_heap, thunk):
        """run thunk with J := idx, and import its result from state src"""
        self.substs.append((J, idx))
        try:
            r = thunk()
        finally:
            self.substs.pop()
        return r

    # ---- substitution in values ----------------------------------------
    def import_val(self, v, J, idx, src, base_heap, memo=None):
        """v, a value in state src of loop path, at iteration idx, in the current state"""
        memo = {} if memo is None else memo
        if isinstance(v, SV):
            t = z3.substitute(v.t, (J, idx))
            for st in (src, self.st):
                q = st.ghost.get('#strs', {}).get(v.t.get_id())
                if q is not None:
                    d = self.st.ghost.get('#strs', {})
                    if t.get_id() not in d:
                        d = dict(d)
                        d[t.get_id()] = (t, self.import_parts(q[1], J, idx, src, base_heap, memo))
                        self.st.ghost['#strs'] = d
                    break
            return SV(t)
        if isinstance(v, SInt):
            return self.ival(z3.substitute(v.t, (J, idx)))
        if isinstance(v, SBool):
            return self.bval(z3.substitute(v.t, (J, idx)))
        if isinstance(v, TupV):
            return TupV([self.import_seg(s, J, idx, src, base_heap, memo) for s in v.segs], v.cls)
        if isinstance(v, Ref):
            if v.a in base_heap:
                return v
            if v.a in memo:
                return memo[v.a]
            o = src.heap[v.a]
            r = self.alloc(o.kind, {}, None if o.term is None else z3.substitute(o.term, (J, idx)), o.owned)
            memo[v.a] = r
            d = {}
            for k, x in o.d.items():
                if k == 'segs':
                    d[k] = tuple(self.import_seg(s, J, idx, src, base_heap, memo) for s in x)
                elif k == 'layers':
                    d[k] = tuple(self.import_layer(l, J, idx, src, base_heap, memo) for l in x)
                elif k == '#parent':
                    d[k] = x if x is None or x in base_heap else self.import_val(Ref(x), J, idx, src, base_heap, memo).a
                elif isinstance(x, Val):
                    d[k] = self.import_val(x, J, idx, src, base_heap, memo)
                else:
                    d[k] = x
            self.st.heap[r.a] = Obj(o.kind, d, self.st.heap[r.a].term, o.owned)
            return r
        if isinstance(v, Func):
            if v.env is None or v.env in base_heap:
                return v
            e = self.import_val(Ref(v.env), J, idx, src, base_heap, memo).a
            return Func(v.node, e, v.mod, v.qual, v.cls, v.defaults, v.kwdefaults, v.real)
        if isinstance(v, Bound):
            return Bound(self.import_val(v.f, J, idx, src, base_heap, memo), self.import_val(v.self, J, idx, src, base_heap, memo))
        if isinstance(v, LazyVal):
            def force(E, v=v):
                x = self.with_sub(J, idx, src, base_heap, lambda: v.force(E))
                return self.import_val(x, J, idx, src, base_heap, {})
            return LazyVal(force)
        return v

    def import_parts(self, x, J, idx, src, base_heap, memo):
        """the pieces of a string"""
        if isinstance(x, z3.ExprRef):
            return z3.substitute(x, (J, idx))
        if isinstance(x, Val):
            return self.import_val(x, J, idx, src, base_heap, memo)
        if isinstance(x, Seq):
            return self.import_seg(x, J, idx, src, base_heap, memo)
        if isinstance(x, tuple):
            if x and x[0] == 'acc':
                return ('opaque',)
            return tuple(self.import_parts(y, J, idx, src, base_heap, memo) for y in x)
        if isinstance(x, list):
            return [self.import_parts(y, J, idx, src, base_heap, memo) for y in x]
        return x

    # ---- strings that a loop adds to --------------------------------------
    @staticmethod
    def str_in(st, v):
        """the pieces of a string, in state st, or None"""
        if isinstance(v, PyC) and isinstance(v.obj, str):
            return (v.obj,)
        if isinstance(v, SV):
            q = st.ghost.get('#strs', {}).get(v.t.get_id())
            return None if q is None else q[1]
        return None

    def str_added(self, st, v, g):
        """the pieces that were added to g to get v, or None"""
        if isinstance(v, SV) and v.t.eq(g.t):
            return ()
        ps = self.str_in(st, v)
        if not ps or not (isinstance(ps[0], tuple) and ps[0][0] == 't'):
            return None
        a = self.str_added(st, SV(ps[0][1]), g)
        return None if a is None else a + tuple(ps[1:])

    def import_seg(self, s, J, idx, src, base_heap, memo):
        if isinstance(s, Seq):
            n = z3.substitute(s.n, (J, idx))

            def el(E, i, s=s):
                x = E.with_sub(J, idx, src, base_heap, lambda: s.el(E, i))
                # the element may have been imported in the current state already
                return E.import_val(x, J, idx, E.st, E.st.heap, {})
            return Seq(n, el, s.tag and tuple(z3.substitute(x, (J, idx)) if isinstance(x, z3.ExprRef) else x for x in s.tag))
        return [self.import_val(x, J, idx, src, base_heap, memo) for x in s]

    def import_layer(self, l, J, idx, src, base_heap, memo):
        if l[0] == 'empty':
            return l
        if l[0] == 'upd':
            return ('upd', z3.substitute(l[1], (J, idx)), self.import_val(l[2], J, idx, src, base_heap, memo),
                    self.import_val(l[3], J, idx, src, base_heap, memo))
        if l[0] == 'del':
            return ('del', z3.substitute(l[1], (J, idx)))
        if l[0] == 'map':
            return ('map', z3.substitute(l[1], (J, idx)))
        if l[0] == 'pred':
            f = l[1]
            return ('pred', lambda k: z3.substitute(f(k), (J, idx)))
        raise Unsupported('a container built by a nested loop (%s) escapes the outer loop' % l[0])

    # ---- the rule --------------------------------------------------------
    def run_loop(self, step, it):
        if it is not None:
            n = self.itlen(it)
            if n is not None and n <= 64:
                while True:
                    try:
                        step()
                    except StopIter:
                        return
        k = (self.cur_explore, tuple(self.dec[:self.di]), self.st.ctr, self.st.next_a)
        lr = self.loopcache.get(k)
        if lr is None:
            mctr = self.mctr
            lr = self.analyze(step)
            lr.srcsegs = self.iterated(it)
            self.mctr = mctr
            self.loopcache[k] = lr
        if not lr.exits:
            raise PathDead()
        o = lr.exits[self.choose(len(lr.exits))]
        self.adopt(lr, o)
        if o.kind == 'stop':
            return
        if o.kind == 'raise':
            raise Raise(o.payload)
        if o.kind == 'return':
            raise ReturnSig(o.payload)
        if o.kind == 'break':
            b = BreakSig(o.payload.payload, o.payload.owner)
            raise b
        raise Unsupported('loop exit %s' % o.kind)

    def adopt(self, lr, o):
        outer_j = self.st.jctx
        st = o.st.copy()
        st.jctx = outer_j
        st.quiet = self.st.quiet
        self.st = st
        J = lr.J
        # what held for the iteration before
        if lr.normal:
            self.assume(z3.Or(J == 0, self.n_formula(lr, J - 1)))
            self.quantify(lr, J)
        else:
            self.assume(J == 0)
        for (a, f), c in lr.cells.items():
            ob = st.heap.get(a)
            if ob is None:
                continue
            cur = ob.d.get(f)
            if c['kind'] == 'over' and cur is c['g']:
                st.heap[a] = ob.put(**{f: self.last_writer(lr, a, f, c)})
            elif c['kind'] == 'cnt':
                self.cnt_facts(lr, a, f, c)
            elif c['kind'] == 'bulk':
                self.bulk_facts(lr, a, f, c)
            elif c['kind'] == 'app' and c.get('cnt') is not None:
                self.cnt_facts(lr, a, f, c)
                # element number cntf(i) was appended by iteration i
                ws = [lr.cond(p) for p, v in enumerate(c['vals']) if v]
                if ws:
                    i = z3.Int('qs!%d' % J.get_id())
                    at = z3.substitute(z3.Or(*ws), (J, i))
                    self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < J, at), c['srcf'](c['cntf'](i)) == i), patterns=[c['cntf'](i)]))
        self.cnt_relations(lr)
        loops = st.ghost.get('#loops', ())
        st.ghost['#loops'] = loops + ((lr, J),)

    def iterated(self, it):
        if it is None:
            return None
        o = self.obj(it)
        if o.d['k'] == 'seq':
            pos = self.intval(o.d['pos'])
            return tuple(o.d['segs']) if isinstance(pos, int) and pos == 0 else None
        if o.d['k'] in ('enumerate', 'genexp'):
            return self.iterated(o.d['src'])
        return None

    def positions(self, segs, j):
        """the positions at which the element that is at j in the original sequence may be found"""
        out = []
        off = 0
        for s in segs or ():
            if isinstance(s, Seq):
                out += [off + q for q in self.seq_positions(s, j)]
                off = off + s.n
            else:
                out += [z3.IntVal(off + q) if isinstance(off, int) else off + q for q in range(len(s))]
                off = off + len(s)
        return [z3.simplify(q) if isinstance(q, z3.ExprRef) else z3.IntVal(q) for q in out]

    def seq_positions(self, s, j):
        tag = s.tag or ('',)
        if tag[0] == 'perm':
            out = [tag[2](q) for q in self.seq_positions(tag[1], j)]
            for q in out:
                self.assume(z3.Function('mention_Int', I, B)(q))
            return out
        if tag[0] == 'removed':
            return [x for q in self.seq_positions(tag[1], j) for x in (q, q - 1)]
        if tag[0] == 'joined':
            return self.positions(tag[1], j)
        if tag[0] == 'loop' and tag[1].srcsegs is not None:
            lr, c = tag[1], tag[2]
            out = []
            for l2, upto in self.st.ghost.get('#loops', ()):
                if l2 is lr:
                    for q in self.positions(lr.srcsegs, j):
                        self.inst(lr, upto, q)
                        self.inst_foralls(q)
                        out.append(q if c.get('cntf') is None else c['cntf'](q))
            return out
        return [j]

    def n_formula(self, lr, idx):
        """iteration idx completed normally"""
        J = lr.J
        ds = []
        for p, o in enumerate(lr.normal):
            fs = list(o.npc)
            for (a, f), c in lr.cells.items():
                if c.get('cntf') is not None:
                    fs.append(c['cntf'](J + 1) == c['cntf'](J) + c['delta'][p])
            ds.append(z3.And(*fs) if fs else z3.BoolVal(True))
        return z3.substitute(z3.Or(*ds) if len(ds) > 1 else ds[0], (J, idx))

    def inst(self, lr, upto, idx):
        """instance of: every iteration before upto completed normally"""
        if not lr.normal:
            return
        fs = [self.n_formula(lr, idx)]
        for (a, f), c in lr.cells.items():
            if c.get('cntf') is not None and all(d >= 0 for d in c['delta']):
                g = c['cntf']
                fs += [g(z3.IntVal(0)) <= g(idx), g(idx + 1) <= g(upto)]
                # monotonic, among the indexes considered so far
                for l2, i2 in self.st.ghost.get('#insts', ()):
                    if l2 is lr:
                        fs.append(z3.Implies(z3.And(i2 >= 0, i2 < idx), g(i2 + 1) <= g(idx)))
                        fs.append(z3.Implies(z3.And(i2 < upto, idx < i2), g(idx + 1) <= g(i2)))
        self.st.ghost['#insts'] = self.st.ghost.get('#insts', ()) + ((lr, idx),)
        self.assume(z3.Implies(z3.And(idx >= 0, idx < upto), z3.And(*fs)))

    def inst_all(self, idx):
        """instantiate the facts of all the loops of this path at idx"""
        for lr, upto in self.st.ghost.get('#loops', ()):
            self.inst(lr, upto, idx)

    def quantify(self, lr, upto):
        f = self.n_formula(lr, lr.J)
        i = z3.Int('qi!%d' % lr.J.get_id())
        pats = [p for p in collect_patterns(f, lr.J)]
        if not pats:
            return
        body = z3.substitute(z3.Implies(z3.And(lr.J >= 0, lr.J < z3.Int('upto!!')), f), (lr.J, i))
        body = z3.substitute(body, (z3.Int('upto!!'), upto))
        pats = [z3.substitute(p, (lr.J, i)) for p in pats]
        self.assume(z3.ForAll([i], body, patterns=pats))

    def cnt_relations(self, lr):
        """counters whose sum or difference changes by the same amount on every path"""
        cs = [c for c in lr.cells.values() if c.get('cntf') is not None and c.get('delta')]
        J = lr.J
        for x in range(len(cs)):
            for y in range(x):
                c, d = cs[x], cs[y]
                for sg in (1, -1):
                    ss = {p + sg * q for p, q in zip(c['delta'], d['delta'])}
                    if len(ss) == 1:
                        e = ss.pop()
                        self.assume(c['cntf'](J) + sg * d['cntf'](J) == c['v0i'] + sg * d['v0i'] + e * J)

    def cnt_change(self, lr, c, idx, name='cw'):
        """for a counter that never decreases: if it changed before idx, the last iteration that changed it"""
        g = c['cntf']
        if min(c['delta']) < 0:
            raise Unsupported('counter')
        li = self.fresh(name, I)
        self.point(lr, li)
        ws = [z3.And(z3.And(*(o.npc + [z3.BoolVal(True)])), g(lr.J + 1) == g(lr.J) + d) for o, d in zip(lr.normal, c['delta']) if d != 0]
        w = z3.substitute(z3.Or(*ws), (lr.J, li)) if ws else z3.BoolVal(False)
        self.assume(z3.Implies(z3.And(idx >= 0, idx <= lr.J),
                               z3.Or(g(idx) == c['v0i'], z3.And(li >= 0, li < idx, w, g(li + 1) == g(idx), g(li) >= c['v0i']))))
        return li

    def cnt_facts(self, lr, a, f, c):
        g, J = c['cntf'], lr.J
        ds = c['delta']
        v0 = c['v0i']
        self.assume(g(z3.IntVal(0)) == v0)
        self.assume(z3.And(g(J) >= v0 + min(ds) * J, g(J) <= v0 + max(ds) * J))
        # a changed counter was changed by some iteration
        li = self.fresh('li', I)
        ch = [z3.And(*o.npc) if o.npc else z3.BoolVal(True) for o, d in zip(lr.normal, ds) if d != 0]
        if ch:
            w = z3.substitute(z3.Or(*ch), (J, li))
            self.point(lr, li)
            self.assume(z3.Or(g(J) == v0, z3.And(li >= 0, li < J, w,
                        z3.Or(*[z3.And(z3.substitute(z3.And(*(o.npc + [z3.BoolVal(True)])), (J, li)), g(li + 1) == g(li) + d) for o, d in zip(lr.normal, ds) if d != 0]),
                        *([g(li + 1) <= g(J), g(li) >= v0] if min(ds) >= 0 else []))))
        else:
            self.assume(g(J) == v0)

    def last_writer(self, lr, a, f, c):
        J = lr.J
        v0 = c['v0']
        writers = [(p, v) for p, v in enumerate(c['v1']) if v is not c['g']]
        base = c['base']

        def force(E):
            if len(writers) == len(lr.normal):
                if E.branch(J == 0):
                    if v0 is None:
                        E.raise_py(UnboundLocalError, str(f))
                    return E.force(v0)
                p, v = writers[E.choose(len(writers))]
                idx = J - 1
            else:
                k = E.choose(len(writers) + 1)
                nonw = [z3.And(*o.npc) if o.npc else z3.BoolVal(True) for p, o in enumerate(lr.normal) if p not in [w for w, _ in writers]]
                if k == len(writers):
                    E.forall_fact(lr, z3.Or(*nonw), 0, J)
                    if v0 is None:
                        E.raise_py(UnboundLocalError, str(f))
                    return E.force(v0)
                p, v = writers[k]
                idx = E.fresh('lw', I)
                E.assume(z3.And(idx >= 0, idx < J))
                E.point(lr, idx)
                E.forall_fact(lr, z3.Or(*nonw), idx + 1, J)
            E.assume(z3.substitute(lr.cond(p), (J, idx)))
            if E.check() == z3.unsat:
                raise PathDead()
            if v is None:
                E.raise_py(UnboundLocalError, str(f))
            x = E.import_val(v, J, idx, lr.normal[p].st, base)
            return E.force(x)
        return LazyVal(force)

    def forall_fact(self, lr, f, lo, hi):
        """for all lo <= i < hi: f(i)   (f in terms of lr.J)"""
        rec = (lr.J, f, lo, hi)
        for l2, i2 in self.st.ghost.get('#points', ()):
            if l2 is lr:
                self.assume(z3.Implies(z3.And(i2 >= lo, i2 < hi), z3.substitute(f, (lr.J, i2))))
        self.st.ghost['#foralls'] = self.st.ghost.get('#foralls', ()) + (rec,)
        pats = collect_patterns(f, lr.J)
        if pats:
            i = z3.Int('qf!%d' % lr.J.get_id())
            self.assume(z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), z3.substitute(f, (lr.J, i))),
                                  patterns=[z3.substitute(p, (lr.J, i)) for p in pats]))
        # the last one, when there is one
        self.assume(z3.Or(hi <= lo, z3.substitute(f, (lr.J, hi - 1 if isinstance(hi, z3.ExprRef) else z3.IntVal(hi - 1)))))

    def point(self, lr, idx):
        """an iteration of interest: the facts on ranges of iterations are instantiated there"""
        self.st.ghost['#points'] = self.st.ghost.get('#points', ()) + ((lr, idx),)
        for J, f, lo, hi in self.st.ghost.get('#foralls', ()):
            if J is lr.J:
                self.assume(z3.Implies(z3.And(idx >= lo, idx < hi), z3.substitute(f, (J, idx))))

    def inst_foralls(self, idx):
        for J, f, lo, hi in self.st.ghost.get('#foralls', ()):
            self.assume(z3.Implies(z3.And(idx >= lo, idx < hi), z3.substitute(f, (J, idx))))

    # ---- analysis --------------------------------------------------------
    def analyze(self, step):
        S0 = self.st
        base_heap = dict(S0.heap)
        saved_st = S0.copy()
        kinds = {}          # (addr, field) -> kind
        nobl = len(self.obls)
        for attempt in range(8):
            self.st = saved_st.copy()
            J = self.fresh('J', I)
            lr = LoopRec(J)
            del self.obls[nobl:]
            G = self.st
            self.assume(J >= 0)
            if attempt == 0:
                self.assume(J == 0)
            G.jctx = G.jctx + (J,)
            cells = {}
            for (a, f), kd in kinds.items():
                cells[(a, f)] = self.generic_cell(lr, G, a, f, kd)
            lr.cells = cells
            gheap = dict(G.heap)
            if attempt == 0:
                G.quiet += 1
            outs = self.explore(step, 'loop')
            self.st = saved_st
            normal = [o for o in outs if o.kind == 'normal']
            again = False
            newkinds = dict(kinds)
            for o in normal:
                for (a, f), (g, v1) in self.diff(gheap, o.st.heap, base_heap).items():
                    if (a, f) not in kinds:
                        newkinds[(a, f)] = self.classify(gheap, a, f, g, [v1])
                        again = True
            # consistency of the guesses
            for (a, f), kd in list(newkinds.items()):
                if (a, f) in cells:
                    k2 = self.recheck(cells[(a, f)], gheap, a, f, kd, normal)
                    if k2 != kd:
                        newkinds[(a, f)] = k2
                        again = True
                else:
                    vs = [self.field(o.st.heap[a], f) for o in normal]
                    newkinds[(a, f)] = self.classify(gheap, a, f, self.field(gheap[a], f), vs)
            kinds = newkinds
            if attempt == 0:
                again = True
            if not again:
                lr.normal = normal
                lr.exits = [o for o in outs if o.kind != 'normal']
                lr.base = base_heap
                for (a, f), c in cells.items():
                    c['v1'] = [self.field(o.st.heap[a], f) for o in normal]
                    c['base'] = base_heap
                    self.finish_cell(lr, a, f, c, gheap)
                lr.ready = True
                self.st = saved_st.copy()
                return lr
        raise Unsupported('no loop summary')

    @staticmethod
    def field(o, f):
        return o.d.get(f)

    def diff(self, h0, h1, base):
        out = {}
        for a in base:
            o0, o1 = h0[a], h1[a]
            if o0 is o1 or o0.d is o1.d:
                continue
            for f in set(o0.d) | set(o1.d):
                if f in ('#sink',):
                    continue
                x, y = o0.d.get(f), o1.d.get(f)
                if x is not y and not self.same_val(x, y):
                    out[(a, f)] = (x, y)
        return out

    def same_val(self, x, y):
        if isinstance(x, PyC) and isinstance(y, PyC):
            return x.obj is y.obj
        if isinstance(x, SV) and isinstance(y, SV):
            return x.t.eq(y.t)
        if isinstance(x, SInt) and isinstance(y, SInt):
            return x.t.eq(y.t)
        if isinstance(x, Ref) and isinstance(y, Ref):
            return x.a == y.a
        return False

    def int_like(self, v):
        if isinstance(v, PyC):
            return type(v.obj) is int
        return isinstance(v, SInt)

    def classify(self, h, a, f, g, v1s):
        kind = h[a].kind
        if f == 'segs' and kind == 'list':
            return 'app'
        if f == 'layers':
            return 'bulk'
        if g is not None and self.int_like(g) and all(v is None or self.int_like(v) for v in v1s) and all(v is not None for v in v1s):
            ds = [self.delta(g, v) for v in v1s]
            if all(d is not None for d in ds):
                return 'lin' if len(set(ds)) == 1 else 'cnt'
        if g is not None and self.str_in(self.st, g) is not None and all(isinstance(v, (PyC, SV)) for v in v1s):
            return 'str'
        return 'over'

    def delta(self, g, v):
        a, b = self.intval(g), self.intval(v)
        d = b - a
        if not isinstance(d, int):
            d = z3.simplify(d)
            if not z3.is_int_value(d):
                return None
            d = d.as_long()
        return d

    def generic_cell(self, lr, G, a, f, kd):
        J = lr.J
        o = G.heap[a]
        v0 = o.d.get(f)
        c = {'kind': kd if isinstance(kd, str) else kd[0], 'v0': v0}
        kind = c['kind']
        if kind == 'lin':
            i0 = self.intval(v0)
            c['c'] = kd[1] if not isinstance(kd, str) else 1
            g = self.ival(i0 + c['c'] * J)
        elif kind == 'cnt':
            c['v0i'] = self.intval(v0)
            c['cntf'] = self.fresh_int_fn('cnt')
            g = SInt(c['cntf'](J))
            lo, hi = kd[1] if not isinstance(kd, str) else (None, None)
            if lo is not None:
                self.assume(z3.And(g.t >= c['v0i'] + lo * J, g.t <= c['v0i'] + hi * J))
        elif kind == 'app':
            cell = c
            if not isinstance(kd, str) and kd[1] == 'one':
                n = J
            else:
                c['cntf'] = self.fresh_int_fn('len')
                c['srcf'] = self.fresh_int_fn('src')
                c['v0i'] = 0
                n = c['cntf'](J)
                self.assume(n >= 0)
                if not isinstance(kd, str):
                    self.assume(n <= kd[2] * J)
            seq = Seq(n, lambda E, i: E.app_el(lr, cell, i), tag=('loop', lr, cell))
            c['seq'] = seq
            g = tuple(v0) + (seq,)
        elif kind == 'bulk':
            c['w'] = self.fresh_w()
            rec = ('bulk', lr, c)
            c['rec'] = rec
            g = tuple(v0) + (rec,)
        elif kind == 'str':
            g = self.new_str('acc', (('acc', lr, c),))
        else:
            g = Havoc('%s' % (f,))
        c['g'] = g
        G.heap[a] = Obj(o.kind, {**o.d, f: g}, o.term, o.owned)
        return c

    def fresh_int_fn(self, name):
        self.st.ctr += 1
        j = self.st.jctx[:-1]
        f = z3.Function('%s!%d.%d' % (name, self.cur_explore, self.st.ctr), *([I] * len(j)), I, I)
        return lambda x: f(*j, x)

    def fresh_w(self):
        self.st.ctr += 1
        j = self.st.jctx[:-1]
        f = z3.Function('w!%d.%d' % (self.cur_explore, self.st.ctr), *([I] * len(j)), K, I)
        return lambda x: f(*j, x)

    def recheck(self, c, gheap, a, f, kd, normal):
        kind = c['kind']
        g = c['g']
        vs = [self.field(o.st.heap[a], f) for o in normal]
        if kind in ('lin', 'cnt'):
            if any(v is None or not self.int_like(v) for v in vs):
                return 'over'
            ds = [self.delta(g, v) for v in vs]
            if any(d is None for d in ds):
                return 'over'
            if kind == 'lin':
                if not ds or all(d == c['c'] for d in ds):
                    return kd if not isinstance(kd, str) or c['c'] == 1 and kd == 'lin' else ('lin', c['c'])
                if len(set(ds)) == 1:
                    return ('lin', ds[0])
                return 'cnt'
            if kd == 'cnt' and ds:
                return ('cnt', (min(ds), max(ds)))
            return kd
        if kind == 'str':
            return kd if all(self.str_added(o.st, v, g) is not None for o, v in zip(normal, vs)) else 'over'
        if kind == 'app':
            ns = []
            for v in vs:
                if v[:len(g)] != g:
                    # identity of the prefix
                    if len(v) >= len(g) and all(x is y for x, y in zip(v, g)):
                        pass
                    else:
                        raise Unsupported('list changed other than by append in a loop')
                m = 0
                for s in v[len(g):]:
                    if isinstance(s, Seq):
                        raise Unsupported('list extended by an unknown number of elements in a loop')
                    m += len(s)
                ns.append(m)
            if ns and all(x == 1 for x in ns):
                return ('app', 'one', 1)
            if any(x > 1 for x in ns):
                raise Unsupported('several appends per iteration')
            return ('app', 'some', max(ns) if ns else 1)
        if kind == 'bulk':
            for v in vs:
                if not (len(v) >= len(g) and all(x is y for x, y in zip(v, g))):
                    raise Unsupported('container changed other than by updates in a loop')
            return kd
        return kd

    def finish_cell(self, lr, a, f, c, gheap):
        if c['kind'] == 'cnt':
            c['delta'] = [self.delta(c['g'], v) for v in c['v1']]
        elif c['kind'] == 'str':
            c['added'] = [self.str_added(o.st, v, c['g']) for o, v in zip(lr.normal, c['v1'])]
        elif c['kind'] == 'app':
            vals = []
            for v in c['v1']:
                flat = []
                for s in v[len(c['g']):]:
                    flat.extend(s)
                vals.append(flat)
            c['vals'] = vals
            if c.get('cntf') is not None:
                c['delta'] = [len(x) for x in vals]
                c['cnt'] = True
        elif c['kind'] == 'bulk':
            c['writes'] = [v[len(c['g']):] for v in c['v1']]

    def app_el(self, lr, c, i):
        """the i-th element appended by the loop"""
        if not lr.ready:
            raise Unsupported('a list built by the loop is read inside the loop')
        J = lr.J
        if not isinstance(i, z3.ExprRef):
            i = z3.IntVal(i)
        ps = [p for p, v in enumerate(c['vals']) if v]
        if not ps:
            raise PathDead()
        if c.get('cntf') is None:
            idx = i
        else:
            # index of the iteration that appended element i
            idx = c['srcf'](i)
            self.assume(z3.And(idx >= 0, idx < self.sub(J)))
            self.assume(c['cntf'](idx) == i)
        p = ps[self.choose(len(ps))]
        self.assume(z3.substitute(lr.cond(p), (J, idx)))
        return self.import_val(c['vals'][p][0], J, idx, lr.normal[p].st, c['base'])

    # ---- dictionaries and sets filled by a loop ---------------------------
    def bulk_facts(self, lr, a, f, c):
        """w(k): the last iteration that wrote key k, or -1"""
        J, w = lr.J, c['w']
        k = z3.Const('qk', K)
        ws = c['writes']
        alts = []
        i = z3.Int('qb!%d' % J.get_id())
        groups = []
        for p, layers in enumerate(ws):
            for l in layers:
                if l[0] == 'bulk':
                    # an inner loop fills the container
                    w2 = l[2]['w']
                    cp = lr.cond(p)
                    f1 = z3.Implies(z3.And(J >= 0, J < z3.Int('upto!!'), cp, w2(k) >= 0), w(k) >= J)
                    pat = z3.substitute(w2(k), (J, i))
                    f1 = z3.substitute(z3.substitute(f1, (J, i)), (z3.Int('upto!!'), J))
                    if pat.eq(w2(k)):
                        raise Unsupported('inner loop does not depend on the outer one')
                    self.assume(z3.ForAll([i, k], f1, patterns=[pat]))
                    alts.append(z3.And(cp, w2(k) >= 0))
                    continue
                if l[0] not in ('upd', 'del'):
                    raise Unsupported('nested loop fills the same container')
                for g in groups:
                    if g[0].eq(l[1]):
                        if p not in g[1]:
                            g[1].append(p)
                        break
                else:
                    groups.append((l[1], [p]))
        for kt, ps in groups:
            if len(ps) == len(lr.normal):
                cp = z3.BoolVal(True)
                full = self.n_formula(lr, J)
            else:
                cp = full = z3.Or(*[lr.cond(p) for p in ps])
            f1 = z3.Implies(z3.And(J >= 0, J < z3.Int('upto!!'), cp), w(kt) >= J)
            pats = collect_patterns(z3.And(cp, kt == kt), J)
            f1 = z3.substitute(z3.substitute(f1, (J, i)), (z3.Int('upto!!'), J))
            if pats:
                self.assume(z3.ForAll([i], f1, patterns=[z3.substitute(x, (J, i)) for x in pats]))
            alts.append(z3.And(full, kt == k))
        wk = w(k)
        if alts:
            body = z3.And(wk >= -1, z3.Implies(wk >= 0, z3.And(wk < z3.Int('upto!!'), z3.Or(*alts))))
            body = z3.substitute(z3.substitute(body, (J, z3.Int('wk!!'))), (z3.Int('upto!!'), J), (z3.Int('wk!!'), wk))
        else:
            body = wk == -1
        self.assume(z3.ForAll([k], body, patterns=[wk]))

    def bulk_inst(self, lr, c, idx):
        """ground instance at iteration idx"""
        J, w = lr.J, c['w']
        for p, layers in enumerate(c['writes']):
            for l in layers:
                f1 = z3.Implies(z3.And(z3.Int('ii!!') >= 0, z3.Int('ii!!') < J, z3.substitute(lr.cond(p), (J, z3.Int('ii!!')))),
                                w(z3.substitute(l[1], (J, z3.Int('ii!!')))) >= z3.Int('ii!!'))
                self.assume(z3.substitute(f1, (z3.Int('ii!!'), idx)))
