"""C15 lazy sequence operations: every enumerator steps through exactly the sequence its operation describes."""
import re, z3
from vir.spec import *
from vir.runner import Property
from specs.pointers import dyncast
from vir.lcontract import ListAt, ListContracts, list_offsets

C15 = Property('C15'); C16 = Property('C16')
PROPERTIES = [C15, C16]
for p in PROPERTIES:
    p.driver = 'linq'
C15.assumptions = ['sources behave as IEnumerator documents: Next moves to the next element and tells whether there is one (false ever after the last), Index is the position, -1 before the first Next and after Reset, Current refers to the element, Clone gives an independent enumerator at the same position',
                   'lengths at most 2^40', 'selectors and predicates are functions of their argument; they do not change the containers enumerated', '== of the keys given to GroupBy agrees with their <=>', 'operator new succeeds']

C15.always_bounded = 'chains of operations (beyond the single operations, which are proved): native driver, up to 3 operations over a list of up to 6 elements'

selF = z3.Function('select', INT, INT); prdF = z3.Function('predicate', INT, BOOL)

class Src:
    """abstract sequence behind an abstract enumerator"""
    def __init__(self, X, T, name):
        c = X.c; self.X = X; self.T = T; self.name = name
        self.n = c.int(name + '.length', 0, BIG); self.S = S = z3.Function(name + '.item', INT, INT)
        r = c.eng.new_array(c.st, name + '.elements', 8, self.n, heap='param')
        r.lanes[(0, 'live')] = base_lane(lambda k: TRUE); r.lanes[(0, 'v')] = base_lane(lambda k: S(zi(k)))
        self.rid = r.rid; r.meta['ro'] = True
        X.srcs[name] = self
    def enum(self, pos):
        """a source enumerator at the given position"""
        c = self.X.c
        p = c.helper('api_abs%s_new' % self.T)
        self.X.put_abs(c.st, p, self.name, pos)
        return p

class LC:
    def __init__(self, track, opts=None, contracts=None):
        ex = {'__dynamic_cast': dyncast}
        for T in 'EF':
            m = '_ZN3AbsI1%sE' % T; k = '_ZNK3AbsI1%sE' % T
            ex[m + '4NextEv'] = self.x_next; ex[m + '5ResetEv'] = self.x_reset; ex[k + '5IndexEv'] = self.x_index
            ex[k + '7CurrentEv'] = self.x_current; ex[k + '5CloneEv'] = (lambda T: lambda eng, st, a: self.x_clone(eng, st, a, T))(T)
            ex[k + '9EvaluatedEv'] = self.x_eval
        ex['_ZNK3SELclE1E'] = self.x_sel; ex['_ZNK3PRDclE1E'] = self.x_prd
        self.srcs = {}
        self.c = track(Ctx('linq', externs=ex, opts=opts or {}, contracts=contracts))
        self.evs = {}
    def evof(self, name):
        return self.evs.setdefault(name, z3.Bool('%s evaluated' % name))
    @property
    def ev(self):
        return z3.And(*[self.evof(n) for n in self.srcs])
    # ---- contracts of the abstract source
    def put_abs(self, st, p, name, pos):
        r = st.mut(p.rid); r.meta = dict(r.meta); r.meta['abs'] = name
        r.fields[(0, 'pos')] = (1, zi(pos))
    def absof(self, eng, st, p):
        r = st.regions[p.rid]
        eng.require(st, z3.BoolVal(r.alive), 'source enumerator is alive')
        if not r.alive:
            raise PathEnd()
        if 'abs' not in r.meta:
            raise Unsupported('source enumerator of unknown origin')
        return self.srcs[r.meta['abs']], r.fields[(0, 'pos')][1]
    def x_next(self, eng, st, a):
        s, p = self.absof(eng, st, a[0])
        out = []
        for more in (True, False):
            t = st.copy(); t.add(p + 1 < s.n if more else p + 1 >= s.n)
            if eng.feasible(t):
                t.mut(a[0].rid).fields[(0, 'pos')] = (1, zi(norm(p + 1)) if more else s.n)
                out.append(Outcome(t, 'ret', TRUE if more else FALSE))
        return out
    def x_reset(self, eng, st, a):
        self.absof(eng, st, a[0])
        st.mut(a[0].rid).fields[(0, 'pos')] = (1, I(-1))
        return R(st)
    def x_index(self, eng, st, a):
        s, p = self.absof(eng, st, a[0])
        x = z3.FreshConst(INT, 'index_at_end')
        st.add(z3.And(x >= -1, x <= ARG))
        return R(st, z3.If(p < s.n, p, x))
    def x_current(self, eng, st, a):
        s, p = self.absof(eng, st, a[0])
        eng.require(st, z3.And(p >= 0, p < s.n), 'Current of the source is read at an element only')
        return R(st, Ptr(s.rid, norm(8 * p)))
    def x_eval(self, eng, st, a):
        return R(st, self.evof(self.absof(eng, st, a[0])[0].name))
    def x_clone(self, eng, st, a, T):
        s, p = self.absof(eng, st, a[0])
        eng.mute += 1
        try:
            o = eng.call_function(st, 'api_abs%s_new' % T, [])
        finally:
            eng.mute -= 1
        st = o[0].st
        self.put_abs(st, o[0].val, s.name, p)
        return R(st, o[0].val)
    # ---- callables
    def x_sel(self, eng, st, a):
        r, l = eng.elem(st, a[2], 'argument'); eng.require(st, eng.elem_get(st, r, l, 'live'), 'argument of the selector is alive')
        v = eng.elem_get(st, r, l, 'v')
        self.functor(eng, st, a[1])
        d, dl = eng.elem(st, a[0], 'result')
        eng.elem_set(st, d, dl, 'live', TRUE); eng.elem_set(st, d, dl, 'v', selF(v))
        return R(st)
    def x_prd(self, eng, st, a):
        r, l = eng.elem(st, a[1], 'argument'); eng.require(st, eng.elem_get(st, r, l, 'live'), 'argument of the predicate is alive')
        self.functor(eng, st, a[0])
        return R(st, prdF(eng.elem_get(st, r, l, 'v')))
    def functor(self, eng, st, p):
        r, l = eng.elem(st, p, 'callable')
        eng.require(st, z3.And(eng.elem_get(st, r, l, 'live'), eng.elem_get(st, r, l, 'v') == z3.Int('callable.state')), 'the callable given is called')
    def func(self, id, fo):
        c = self.c
        f = c.eng.new_struct(c.st, fo, const_of(c.helper('sz_' + fo)), heap='param'); f.fields[(0, 'live')] = (1, TRUE); f.fields[(0, 'v')] = (1, z3.Int('callable.state'))
        o = c.eng.new_struct(c.st, id, const_of(c.helper('sz_' + id)), heap='param')
        c.helper('api_%s_mk' % id, Ptr(o.rid, 0), Ptr(f.rid, 0))
        return Ptr(o.rid, 0)
    # ---- object fields
    def fget(self, st, op, f, t, width=8):
        q = self.c.helper('fld_%s_%s' % (op, f), Ptr(t.rid, 0))
        v = st.regions[t.rid].fields.get(q.off if isinstance(q.off, int) else const_of(q.off))
        if v is None:
            raise Unsupported('field %s is not set' % f)
        return v[1]
    def fset(self, op, f, t, v, width=8):
        q = self.c.helper('fld_%s_%s' % (op, f), Ptr(t.rid, 0))
        self.c.st.mut(t.rid).fields[q.off if isinstance(q.off, int) else const_of(q.off)] = (width, v)
    def pos(self, st, p):
        return self.absof(self.c.eng, st, p)[1]

def own(st, e, name):
    """e is a live enumerator of the named source; an enumerator of another kind is outside this form of argument"""
    if not isinstance(e, Ptr) or e.rid is None or not st.regions[e.rid].alive:
        return False
    if 'abs' not in st.regions[e.rid].meta:
        raise Unsupported('the source is wrapped in another enumerator')
    return st.regions[e.rid].meta['abs'] == name
# ------------------------------------------------------------------ one operation: how its enumerator represents a position of its sequence
# pose(which): an enumerator in any state that represents the start, an element, or the end.
# rep(st, t, k): conditions under which enumerator t represents position k; end(st, t): represents the end.
class Op:
    """explicit form: the result has length N and element out(k)"""
    I = 'IE'; key = None; inner = ('enumerator',); ints = (); eval_lazy = True
    def __init__(self, track, **kw):
        self.X = LC(track, **kw); self.c = self.X.c
        self.a = Src(self.X, 'E', 'a')
        self.t = self.make()
        self.h0 = set(self.c.st.ghost.get('heap', ()))
        self.in0 = {f: self.X.fget(self.c.st, self.key, f, self.t) for f in self.inner}
    def get(self, st, f, t=None):
        return self.X.fget(st, self.key, f, t or self.t)
    def set(self, f, v, width=8):
        self.X.fset(self.key, f, self.t, v, width)
    def p(self, st, f, t=None):
        return self.X.pos(st, self.get(st, f, t))
    def setpos(self, f, v):
        self.X.put_abs(self.c.st, self.in0[f], self.c.st.regions[self.in0[f].rid].meta['abs'], v)
    def pose(self, which):
        c = self.c
        if which == 'start':
            k = I(-1)
        elif which == 'element':
            k = c.int('k', 0, ARG); c.st.add(k < self.N)
        else:
            k = self.N
        self.state(which, k)
        if not c.eng.feasible(c.st):
            raise Unsupported('pose is contradictory')
        return k
    def step(self, o, which, k, more):
        """after Next from the pose"""
        c = self.c
        if more:
            c.ensure(o.st, k + 1 < self.N, 'Next: true only if there is another element')
            self.at(o.st, self.t, norm(k + 1), 'Next')
        else:
            c.ensure(o.st, k + 1 >= self.N, 'Next: false only after the last element')
            self.atend(o.st, self.t, 'Next')
    def same(self, st, t, which, k, what):
        if which == 'end':
            self.atend(st, t, what)
        elif which == 'start':
            self.start(st, t, what)
        else:
            self.at(st, t, k, what)
    def ens(self, st, conds, what):
        for g, n in conds:
            self.c.ensure(st, g, what + ': ' + n)
    def start(self, st, t, what):
        self.ens(st, self.rep(st, t, I(-1)), what)
        self.conf(st, t, what)
        self.index(st, t, I(-1), what)
    def at(self, st, t, k, what):
        self.ens(st, self.rep(st, t, k), what)
        self.conf(st, t, what)
        self.current(st, t, self.out(k), what)
        self.index(st, t, k, what)
    def atend(self, st, t, what):
        self.ens(st, self.end(st, t), what)
        self.conf(st, t, what)
    def conf(self, st, t, what):
        """parameters of the operation unchanged, own source enumerators"""
        for g, n in self.params(st, t):
            self.c.ensure(st, g, what + ': ' + n)
        for f in self.inner:
            p = self.get(st, f, t)
            ok = own(st, p, self.c.st.regions[self.in0[f].rid].meta['abs'])
            self.c.ensure(st, z3.BoolVal(ok), what + ': reads its own source')
    def params(self, st, t):
        return []
    def follow(self, st, name, args, what):
        r = []
        for o in self.c.eng.call_function(st.copy(), name, args):
            if self.c.eng.feasible(o.st):
                if o.kind == 'ret':
                    r.append(o)
                else:
                    self.c.ensure(o.st, FALSE, what + ': does not raise')
        return r
    def current(self, st, t, v, what):
        for o in self.follow(st, 'api_%s_Current' % self.I, [t], what):
            self.value(o.st, o.val, v, what)
    def value(self, st, p, v, what):
        r, l = self.c.eng.elem(st, p, 'Current')
        self.c.ensure(st, self.c.eng.elem_get(st, r, l, 'live'), what + ': Current refers to a live object')
        self.c.ensure(st, self.c.eng.elem_get(st, r, l, 'v') == v, what + ': Current is the element')
    def index(self, st, t, k, what):
        for o in self.follow(st, 'api_%s_Index' % self.I, [t], what):
            self.c.ensure(o.st, o.val == k, what + ': Index is the position')
    def owned(self, st, t):
        return [self.get(st, f, t).rid for f in self.inner]
    def ret(self, outs, what):
        r = []
        for o in outs:
            if o.kind == 'ret':
                r.append(o)
            else:
                self.c.ensure(o.st, FALSE, what + ': does not raise')
        return r
    def gone(self, st, rid, what):
        r = st.regions[rid]
        self.c.ensure(st, z3.Or(z3.BoolVal(not r.alive), zi(r.count) == 0) if r.kind == 'array' else z3.BoolVal(not r.alive), what)
    def released(self, st, rids, what):
        for rid in rids:
            self.gone(st, rid, what + ': storage released')
        for rid in st.ghost.get('heap', ()):
            self.c.ensure(st, z3.BoolVal(not st.regions[rid].alive), what + ': no storage leaked')

EV = {}
def run_next(cls, which):
    def f(track):
        x = cls(track); k = x.pose(which); c = x.c
        for o in x.ret(c.run('api_%s_Next' % x.I, [x.t]), 'Next'):
            for more in (True, False):
                s = o.st.copy(); s.add(B(o.val) if more else z3.Not(B(o.val)))
                if not c.eng.feasible(s):
                    continue
                o2 = Outcome(s, 'ret', o.val)
                if which == 'end':
                    c.ensure(s, z3.BoolVal(not more), 'Next: false ever after the last element')
                    if not more:
                        x.atend(s, x.t, 'Next')
                else:
                    x.step(o2, which, k, more)
    return f
def run_reset(cls, which):
    def f(track):
        x = cls(track); k = x.pose(which); c = x.c
        for o in x.ret(c.run('api_%s_Reset' % x.I, [x.t]), 'Reset'):
            x.start(o.st, x.t, 'Reset')
    return f
def run_clone(cls, which):
    def f(track):
        x = cls(track); k = x.pose(which); c = x.c
        for o in x.ret(c.run('api_%s_Clone' % x.I, [x.t]), 'Clone'):
            t2 = o.val
            c.ensure(o.st, z3.BoolVal(isinstance(t2, Ptr) and t2.rid != x.t.rid), 'Clone: another object')
            x.same(o.st, t2, which, k, 'Clone')
            x.same(o.st, x.t, which, k, 'cloned enumerator')
            mine = set(x.owned(o.st, x.t)); its = set(x.owned(o.st, t2))
            c.ensure(o.st, z3.BoolVal(not (mine & its)), 'Clone: source enumerators are not shared')
            for q in x.follow(o.st, 'api_%s_delete' % x.I, [t2], 'Clone'):
                for rid in its | {t2.rid}:
                    x.gone(q.st, rid, 'Clone: deleting the clone releases it')
                x.same(q.st, x.t, which, k, 'after deletion of the clone')
                for z in x.follow(q.st, 'api_%s_delete' % x.I, [x.t], 'Clone'):
                    x.released(z.st, mine | {x.t.rid}, 'deletion')
            for q in x.follow(o.st, 'api_%s_delete' % x.I, [x.t], 'Clone'):
                x.same(q.st, t2, which, k, 'after deletion of the original')
    return f
def run_misc(cls):
    def f(track):
        x = cls(track); k = x.pose('element' if cls.N_maybe else 'start'); c = x.c
        for o in x.ret(c.run('api_%s_Evaluated' % x.I, [x.t]), 'Evaluated'):
            if x.inner:
                c.ensure(o.st, z3.Implies(B(o.val), x.X.ev), 'Evaluated: only if the sources are evaluated')
        x = cls(track); x.pose('start'); c = x.c
        rids = x.owned(c.st, x.t)
        for o in x.ret(c.run('api_%s_delete' % x.I, [x.t]), 'deletion'):
            x.released(o.st, rids + [x.t.rid], 'deletion')
        x = cls(track)
        c = x.c; c.entry = 'construction'
        x.start(c.st, x.t, 'a new enumerator')
    return f
Op.N_maybe = True

class Take(Op):
    key = 'tak'
    def make(self):
        c = self.c; self.cnt = c.int('count', -ARG, ARG)
        self.N = z3.If(self.cnt < 0, I(0), z3.If(self.cnt < self.a.n, self.cnt, self.a.n)); self.out = lambda k: self.a.S(k)
        return c.helper('api_tak_new', self.a.enum(I(-1)), self.cnt)
    def state(self, which, k):
        if which == 'end':
            p = self.c.int('p', -1, BIG); self.c.st.add(z3.And(p <= self.a.n, z3.Or(p == self.a.n, p + 1 >= self.cnt)))
        else:
            p = k
        self.setpos('enumerator', p)
    def rep(self, st, t, k):
        return [(self.p(st, 'enumerator', t) == k, 'source is at the same position')]
    def end(self, st, t):
        p = self.p(st, 'enumerator', t)
        return [(z3.Or(p == self.a.n, p + 1 >= self.cnt), 'source is exhausted or the count is reached')]
    def params(self, st, t):
        return [(self.get(st, 'count', t) == self.cnt, 'count is kept')]

class Skip(Op):
    key = 'ski'; neg = False
    def make(self):
        c = self.c; n = c.int('count', -ARG if self.neg else 0, -1 if self.neg else ARG); self.cnt = I(0) if self.neg else n
        self.N = z3.If(self.a.n > self.cnt, self.a.n - self.cnt, I(0)); self.out = lambda k: self.a.S(k + self.cnt)
        return c.helper('api_ski_new', self.a.enum(I(-1)), n)
    def state(self, which, k):
        self.set('skipped', FALSE if which == 'start' else TRUE, 1)
        self.setpos('enumerator', I(-1) if which == 'start' else self.a.n if which == 'end' else norm(k + self.cnt))
    def rep(self, st, t, k):
        start = const_of(k) == -1
        return [(self.p(st, 'enumerator', t) == (I(-1) if start else k + self.cnt), 'source is at the corresponding position'),
                (B(self.get(st, 'skipped', t)) == z3.BoolVal(not start), 'leading elements are skipped')]
    def end(self, st, t):
        return [(z3.And(self.p(st, 'enumerator', t) == self.a.n, B(self.get(st, 'skipped', t))), 'source is exhausted')]

class SkipNeg(Skip):
    neg = True

class Concat(Op):
    key = 'con'; inner = ('enumerator1', 'enumerator2')
    def make(self):
        self.b = Src(self.X, 'E', 'b')
        self.N = self.a.n + self.b.n; self.out = lambda k: z3.If(k < self.a.n, self.a.S(k), self.b.S(k - self.a.n))
        return self.c.helper('api_con_new', self.a.enum(I(-1)), self.b.enum(I(-1)))
    def state(self, which, k):
        if which == 'element':
            self.first = z3.Bool('in the first sequence'); self.c.st.add(self.first == (k < self.a.n))
            self.set('turned', z3.Not(self.first), 1)
            self.setpos('enumerator1', z3.If(self.first, k, self.a.n)); self.setpos('enumerator2', z3.If(self.first, I(-1), k - self.a.n))
            self.set('index', k)
        else:
            self.set('turned', z3.BoolVal(which == 'end'), 1)
            self.setpos('enumerator1', I(-1) if which == 'start' else self.c.int('p', -1, BIG)); self.setpos('enumerator2', I(-1) if which == 'start' else self.b.n)
            self.set('index', I(-1) if which == 'start' else self.c.int('index', -1, ARG))
    def rep(self, st, t, k):
        p1, p2, tu = self.p(st, 'enumerator1', t), self.p(st, 'enumerator2', t), B(self.get(st, 'turned', t))
        return [(z3.If(k < self.a.n, z3.And(z3.Not(tu), p1 == k, p2 == -1), z3.And(tu, p2 == k - self.a.n)), 'sources are at the corresponding positions')]
    def end(self, st, t):
        return [(z3.And(B(self.get(st, 'turned', t)), self.p(st, 'enumerator2', t) == self.b.n), 'both sources are exhausted')]

class Select(Op):
    key = 'sel'; I = 'IF'
    def make(self):
        self.N = self.a.n; self.out = lambda k: selF(self.a.S(k))
        self.f = self.X.func('FS', 'SEL')
        t = self.c.helper('api_sel_new', self.a.enum(I(-1)), self.f)
        self.c.helper('api_FS_dtor', self.f)
        return t
    def state(self, which, k):
        self.setpos('enumerator', k)
        if which == 'element':
            q, v = self.c.elem('selected'); self.c.st.add(v == self.out(k)); self.c.helper('api_sel_pose', self.t, q)
    def rep(self, st, t, k):
        return [(self.p(st, 'enumerator', t) == k, 'source is at the same position')]
    def end(self, st, t):
        return [(self.p(st, 'enumerator', t) == self.a.n, 'source is exhausted')]
class SelectStale(Select):
    """start and end with a value left over"""
    def state(self, which, k):
        self.setpos('enumerator', k)
        q, v = self.c.elem('stale'); self.c.helper('api_sel_pose', self.t, q)

class Pairwise(Op):
    key = 'pai'; I = 'IP'; inner = ('enumerator1', 'enumerator2'); stale = False
    def make(self):
        self.b = Src(self.X, 'F', 'b')
        self.N = z3.If(self.a.n < self.b.n, self.a.n, self.b.n); self.out = lambda k: (self.a.S(k), self.b.S(k))
        return self.c.helper('api_pai_new', self.a.enum(I(-1)), self.b.enum(I(-1)))
    def state(self, which, k):
        c = self.c
        if which == 'end':
            p = c.int('p', -1, BIG); q = c.int('q', -1, BIG); c.st.add(z3.And(p <= self.a.n, q <= self.b.n, z3.Or(p == self.a.n, q == self.b.n)))
        else:
            p = q = k
        self.setpos('enumerator1', p); self.setpos('enumerator2', q)
        if which == 'element' or self.stale:
            x, v = c.elem('first'); y, w = c.elem('second'); c.helper('api_pai_pose', self.t, x, y)
            if which == 'element':
                c.st.add(z3.And(v == self.a.S(k), w == self.b.S(k)))
    def rep(self, st, t, k):
        return [(z3.And(self.p(st, 'enumerator1', t) == k, self.p(st, 'enumerator2', t) == k), 'sources are at the same position')]
    def end(self, st, t):
        return [(z3.Or(self.p(st, 'enumerator1', t) == self.a.n, self.p(st, 'enumerator2', t) == self.b.n), 'a source is exhausted')]
    def value(self, st, p, v, what):
        for f, x in (('key', v[0]), ('value', v[1])):
            q = self.c.helper('fld_PEF_' + f, p)
            Op.value(self, st, q, x, what)
class PairwiseStale(Pairwise):
    stale = True

class Empty(Op):
    key = 'emp'; inner = (); N_maybe = False
    def make(self):
        self.N = I(0); return self.c.helper('api_emp_new')
    def state(self, which, k):
        pass
    def rep(self, st, t, k):
        return []
    end = lambda self, st, t: []
class RangeOp(Op):
    key = 'ran'; I = 'IL'; inner = ()
    def make(self):
        c = self.c; self.s = c.int('start', -ARG // 2, ARG // 2); self.n = c.int('count', -ARG // 2, ARG // 2)
        self.N = z3.If(self.n < 0, I(0), self.n); self.out = lambda k: self.s + k
        return c.helper('api_ran_new', self.s, self.n)
    def state(self, which, k):
        self.set('current', self.c.int('stop', -ARG, ARG) if which == 'end' else norm(self.s + k))
        if which == 'end':
            self.c.st.add(z3.Int('stop') == z3.If(self.n <= 0, self.s - 1, self.s + self.n - 1))
    def rep(self, st, t, k):
        return [(self.get(st, 'current', t) == self.s + k, 'current value')]
    def end(self, st, t):
        return [(self.get(st, 'current', t) >= z3.If(self.n <= 0, self.s - 1, self.s + self.n - 1), 'end of the range')]
    def value(self, st, p, v, what):
        self.c.ensure(st, self.c.eng.load(st, ('int', 64), p) == v, what + ': Current is the element')

class Where(Op):
    """step form: an enumerator at source position p with index i moves to the next position whose element satisfies the predicate"""
    key = 'whe'
    def make(self):
        self.f = self.X.func('FP', 'PRD')
        t = self.c.helper('api_whe_new', self.a.enum(I(-1)), self.f)
        self.c.helper('api_FP_dtor', self.f)
        return t
    def sat(self, v):
        return prdF(v)
    def pose(self, which):
        c = self.c
        self.i = I(-1) if which == 'start' else c.int('index', 0 if which == 'element' else -1, ARG)
        self.q = I(-1) if which == 'start' else self.a.n if which == 'end' else c.int('p', 0, BIG)
        if which == 'element':
            c.st.add(z3.And(self.q < self.a.n, self.sat(self.a.S(self.q))))
        self.setpos('enumerator', self.q); self.set('index', self.i)
        return self.i
    def step(self, o, which, k, more):
        c = self.c; q2 = self.p(o.st, 'enumerator', self.t)
        none = lambda hi: c.ensure_forall(o.st, lambda r: z3.Not(self.sat(self.a.S(r))), 'Next: passes over elements that do not qualify only', lambda r: z3.And(r > self.q, r < hi))
        if more:
            c.ensure(o.st, z3.And(q2 > self.q, q2 < self.a.n), 'Next: moves forward to an element')
            c.ensure(o.st, self.sat(self.a.S(q2)), 'Next: the element qualifies')
            none(q2)
            self.conf(o.st, self.t, 'Next')
            self.current(o.st, self.t, self.a.S(q2), 'Next'); self.index(o.st, self.t, norm(self.i + 1), 'Next')
        else:
            none(self.a.n)
            self.atend(o.st, self.t, 'Next')
    def start(self, st, t, what):
        self.c.ensure(st, self.p(st, 'enumerator', t) == -1, what + ': source is at the start')
        self.conf(st, t, what); self.index(st, t, I(-1), what)
    def at(self, st, t, k, what):
        self.c.ensure(st, self.p(st, 'enumerator', t) == self.q, what + ': source is at the same position')
        self.conf(st, t, what); self.index(st, t, self.i, what); self.current(st, t, self.a.S(self.q), what)
    def end(self, st, t):
        return [(self.p(st, 'enumerator', t) == self.a.n, 'source is exhausted')]

class Repeat(Op):
    """step form: (round, position) -> next position, or start of the next round"""
    key = 'rep'; nonempty = True; opts = dict(unroll=3)
    def make(self):
        c = self.c; self.cnt = c.int('count', -ARG, ARG)
        c.st.add(self.a.n > 0 if self.nonempty else self.a.n == 0)
        return c.helper('api_rep_new', self.a.enum(I(-1)), self.cnt)
    def __init__(self, track):
        Op.__init__(self, track, opts=self.opts)
    def pose(self, which):
        c = self.c
        if which == 'start':
            self.r, self.q, self.i = I(0), I(-1), I(-1)
        elif which == 'element':
            self.r, self.q, self.i = c.int('round', 0, ARG), c.int('p', 0, BIG), c.int('index', 0, ARG)
            c.st.add(z3.And(self.r < self.cnt, self.q < self.a.n))
        else:
            self.r, self.q, self.i = c.int('round', 0, ARG), c.int('p', -1, BIG), c.int('index', -1, ARG)
            c.st.add(z3.And(self.r >= self.cnt, self.q <= self.a.n))
        self.setpos('enumerator', self.q); self.set('repeatedCount', self.r); self.set('index', self.i)
        return self.i
    def step(self, o, which, k, more):
        c = self.c; q2, r2 = self.p(o.st, 'enumerator', self.t), self.get(o.st, 'repeatedCount', self.t); n = self.a.n
        if more:
            c.ensure(o.st, z3.If(self.q + 1 < n, z3.And(q2 == self.q + 1, r2 == self.r), z3.And(q2 == 0, r2 == self.r + 1)), 'Next: moves to the next element, or to the first one of the next round')
            c.ensure(o.st, z3.And(r2 < self.cnt, q2 < n), 'Next: within the given number of rounds')
            self.conf(o.st, self.t, 'Next')
            self.current(o.st, self.t, self.a.S(q2), 'Next'); self.index(o.st, self.t, norm(self.i + 1), 'Next')
        else:
            c.ensure(o.st, z3.Or(n == 0, self.cnt <= 0, z3.And(self.r + 1 >= self.cnt, self.q + 1 >= n)), 'Next: false only after the last round')
            self.atend(o.st, self.t, 'Next')
    def start(self, st, t, what):
        self.c.ensure(st, z3.And(self.p(st, 'enumerator', t) == -1, self.get(st, 'repeatedCount', t) == 0), what + ': at the start of the first round')
        self.conf(st, t, what); self.index(st, t, I(-1), what)
    def at(self, st, t, k, what):
        self.c.ensure(st, z3.And(self.p(st, 'enumerator', t) == self.q, self.get(st, 'repeatedCount', t) == self.r), what + ': same position and round')
        self.conf(st, t, what); self.index(st, t, self.i, what); self.current(st, t, self.a.S(self.q), what)
    def params(self, st, t):
        return [(self.get(st, 'count', t) == self.cnt, 'count is kept')]
    def end(self, st, t):
        return [(self.get(st, 'repeatedCount', t) >= self.cnt, 'all rounds are done')]
class RepeatEmpty(Repeat):
    nonempty = False; opts = {}; N_maybe = False


# ------------------------------------------------------------------ SortedList used as a set: contracts proved against its code in C02, C03 (operations) and C23 (CopyFrom)
member = z3.Function('member', INT, INT, BOOL); card = z3.Function('number_of_elements', INT, INT)
SL = 'vl::collections::SortedList<E>::'; CFA = 'vl::collections::copyfrom_internal::CopyFromAlgorithm<'
class SetC:
    def __init__(self, X):
        self.X = X; eng = X.c.eng; C = eng.contracts
        C[SL + 'SortedList()'] = self.ctor; C[SL + '~SortedList()'] = self.dtor
        C[SL + 'Contains(E const&) const'] = self.contains; C[SL + 'Add(E const&)'] = self.add
        C['vl::collections::ArrayBase<E>::Count() const'] = self.count; C['vl::collections::ListBase<E>::Clear()'] = self.clear
        for d in X.c.u.bydem:
            if d in C:
                continue
            if re.search(r'\bCopyFrom<vl::collections::SortedList<E>, vl::collections::SortedList<E>>\(', d):
                C[d] = self.copyset
            elif re.search(r'\bCopyFrom<vl::collections::SortedList<E>, vl::collections::IEnumerable<E>>\(', d):
                C[d] = self.copyenum
            elif re.search(r'\b(SortedList<E>|ListBase<E>|ArrayBase<E>|ListStore<E[^>]*>)::', d):
                C[d] = self.other
    def off(self, p):
        return p.off if isinstance(p.off, int) else const_of(p.off)
    def id(self, eng, st, p):
        if not isinstance(p, Ptr) or p.rid is None:
            return None
        f = st.regions[p.rid].fields.get((self.off(p), 'set')) if st.regions[p.rid].kind == 'struct' else None
        if f is None:
            return None
        eng.require(st, z3.And(z3.BoolVal(st.regions[p.rid].alive), st.regions[p.rid].fields[(self.off(p), 'setlive')][1]), 'set is alive when used')
        return f[1]
    def new(self, eng, st, fn, n):
        s = eng.fresh(st, INT, 'set'); k = z3.Int('k!set')
        st.add(z3.ForAll([k], member(s, k) == fn(k), patterns=[member(s, k)])); st.add(z3.And(card(s) == n, card(s) >= 0, card(s) <= BIG))
        return s
    def put(self, st, p, s):
        st.mut(p.rid).fields[(self.off(p), 'set')] = (1, s)
    def ctor(self, eng, st, a):
        if a[0].rid is None or st.regions[a[0].rid].kind != 'struct':
            raise Unsupported('set constructed elsewhere')
        self.put(st, a[0], self.new(eng, st, lambda k: FALSE, I(0)))
        st.mut(a[0].rid).fields[(self.off(a[0]), 'setlive')] = (1, TRUE)
        return R(st)
    def dtor(self, eng, st, a):
        if self.id(eng, st, a[0]) is None:
            raise Unsupported('destructor of a list that is not a set')
        st.mut(a[0].rid).fields[(self.off(a[0]), 'setlive')] = (1, FALSE)
        return R(st)
    def key(self, eng, st, x, what):
        r, l = eng.elem(st, x, what); eng.require(st, eng.elem_get(st, r, l, 'live'), what + ' argument is a live object')
        return keyE(eng.elem_get(st, r, l, 'v'))
    def need(self, eng, st, p):
        s = self.id(eng, st, p)
        if s is None:
            raise Unsupported('operation on a list that is not a set')
        return s
    def contains(self, eng, st, a):
        return R(st, member(self.need(eng, st, a[0]), self.key(eng, st, a[1], 'Contains')))
    def add(self, eng, st, a):
        s = self.need(eng, st, a[0]); x = self.key(eng, st, a[1], 'Add')
        st.add(card(s) < BIG)
        self.put(st, a[0], self.new(eng, st, lambda k: z3.Or(member(s, k), k == x), card(s) + 1))
        i = eng.fresh(st, INT, 'added_at'); st.add(z3.And(i >= 0, i <= card(s)))
        return R(st, i)
    def count(self, eng, st, a):
        return R(st, card(self.need(eng, st, a[0])))
    def clear(self, eng, st, a):
        self.need(eng, st, a[0]); self.put(st, a[0], self.new(eng, st, lambda k: FALSE, I(0)))
        return R(st, TRUE)
    def copyset(self, eng, st, a):
        d, s = self.need(eng, st, a[0]), self.need(eng, st, a[1])
        if z3.is_false(z3.simplify(B(a[2]))):
            self.put(st, a[0], s); return R(st)
        raise Unsupported('CopyFrom with append')
    def copyenum(self, eng, st, a):
        d = self.need(eng, st, a[0]); b = self.X.srcs['b']
        if not z3.is_false(z3.simplify(B(a[2]))) or a[1].rid != self.X.bsrc.rid:
            raise Unsupported('CopyFrom with append')
        s = eng.fresh(st, INT, 'set'); k = z3.Int('k!set')
        st.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < b.n), member(s, keyE(b.S(k)))), patterns=[b.S(k)]))
        st.add(z3.ForAll([k], z3.Implies(member(s, k), inw(k)), patterns=[member(s, k)]))
        st.add(card(s) == b.n)
        self.put(st, a[0], s); self.made = s
        return R(st)
    def other(self, eng, st, a):
        if a and isinstance(a[0], Ptr) and a[0].rid is not None and self.id(eng, st, a[0]) is not None:
            raise Unsupported('operation of the set outside its contracts')
        return None
inw = z3.Function('key occurs in the second sequence', INT, BOOL)

class Distinct(Where):
    key = 'dis'; stale = False
    def make(self):
        self.sets = SetC(self.X)
        return self.c.helper('api_dis_new', self.a.enum(I(-1)))
    def sf(self, t):
        q = self.c.helper('fld_%s_%s' % (self.key, self.setfield), Ptr(t.rid, 0)); return (self.sets.off(q), 'set')
    setfield = 'distinct'
    def set_(self, st, t):
        return st.regions[t.rid].fields[self.sf(t)][1]
    def sat(self, v):
        return z3.Not(member(self.s0, keyE(v)))
    def pose(self, which):
        c = self.c
        if which == 'start':
            self.s0 = self.set_(c.st, self.t)
        else:
            self.s0 = z3.Int('seen')
            c.st.add(z3.And(card(self.s0) >= (1 if which == 'element' else 0), card(self.s0) < BIG))
            c.st.mut(self.t.rid).fields[self.sf(self.t)] = (1, self.s0)
        self.i = I(-1) if which == 'start' else card(self.s0) - 1
        self.q = I(-1) if which == 'start' else self.a.n if which == 'end' else c.int('p', 0, BIG)
        if which == 'element':
            c.st.add(self.q < self.a.n)
        self.setpos('enumerator', self.q)
        if which == 'element' or self.stale:
            x, v = c.elem('last'); c.helper('api_dis_pose', self.t, x); self.v = v
        return self.i
    def setis(self, st, t, fn, what):
        s2 = self.set_(st, t)
        self.c.ensure_forall(st, lambda k: member(s2, k) == fn(k), what + ': the set of values seen', lambda k: TRUE)
    def step(self, o, which, k, more):
        Where.step(self, o, which, k, more)
        if more:
            q2 = self.p(o.st, 'enumerator', self.t)
            self.setis(o.st, self.t, lambda k: z3.Or(member(self.s0, k), k == keyE(self.a.S(q2))), 'Next')
    def start(self, st, t, what):
        Where.start(self, st, t, what); self.setis(st, t, lambda k: FALSE, what)
    def at(self, st, t, k, what):
        self.c.ensure(st, self.p(st, 'enumerator', t) == self.q, what + ': source is at the same position')
        self.conf(st, t, what); self.index(st, t, self.i, what); self.current(st, t, self.v, what)
        self.setis(st, t, lambda k: member(self.s0, k), what)
    def atend(self, st, t, what):
        Where.atend(self, st, t, what); self.setis(st, t, lambda k: member(self.s0, k), what)
    def released(self, st, rids, what):
        Op.released(self, st, rids, what)
        for rid, r in st.regions.items():
            for k, v in r.fields.items() if r.kind == 'struct' else ():
                if isinstance(k, tuple) and k[1] == 'setlive':
                    self.c.ensure(st, z3.Not(v[1]), what + ': set is destroyed')
class DistinctStale(Distinct):
    stale = True
class Intersect(Where):
    key = 'int'; want = True; setfield = 'reference'
    sf = Distinct.sf; set_ = Distinct.set_; released = Distinct.released
    def make(self):
        self.sets = SetC(self.X); self.b = Src(self.X, 'E', 'b')
        self.X.bsrc = self.c.obj('SrcE')
        return self.c.helper('api_%s_new' % self.key, self.a.enum(I(-1)), self.X.bsrc)
    def sat(self, v):
        m = member(self.sets.made, keyE(v)); return m if self.want else z3.Not(m)
    def conf(self, st, t, what):
        Op.conf(self, st, t, what)
        s = self.set_(st, t)
        self.c.ensure_forall(st, lambda k: member(s, k) == member(self.sets.made, k), what + ': the set of values of the second sequence', lambda k: TRUE)
class Except(Intersect):
    key = 'exc'; want = False


class ListHolder:
    """an enumerator that owns or shares a List<E>"""
    def lc(self):
        c = self.c; x = list_offsets(c, 'LE'); self.L = ListContracts(x)
        C = c.eng.contracts
        for d in c.u.bydem:
            if re.search(r'\bCopyFrom<vl::collections::List<E>, vl::collections::(List|IEnumerable|LazyList)<E>>\(', d):
                C[d] = self.copyfrom
    def copyfrom(self, eng, st, a):
        if not z3.is_false(z3.simplify(B(a[2]))):
            raise Unsupported('CopyFrom with append')
        v = self.L.pre(eng, st, a[0], 'CopyFrom')
        if v is None:
            raise Unsupported('CopyFrom into an unknown list')
        if getattr(self, 'src', None) is not None and a[1].rid == self.src.rid:
            self.L.install(eng, st, a[0], self.a.n, lambda k: self.a.S(zi(k)), v[2])
        else:
            w = self.L.pre(eng, st, a[1], 'CopyFrom source')
            if w is None or a[0].rid == a[1].rid and self.off(a[0]) == self.off(a[1]):
                raise Unsupported('CopyFrom from an unknown list')
            self.L.install(eng, st, a[0], w[0], w[1], v[2])
        return R(st)
    off = SetC.off
    def holds(self, st, p, what):
        """the list at p holds exactly the source sequence"""
        v = self.L.view(self.c.eng, st, p)
        buf, n, cap, o = v; c = self.c
        c.ensure(st, z3.And(zi(n) == self.a.n, zi(n) <= cap), what + ': number of cached elements')
        if buf.rid is not None:
            c.ensure(st, z3.And(z3.BoolVal(st.regions[buf.rid].alive), z3.Or(buf.null, zi(buf.off) == 0)), what + ': storage of the elements is alive')
            K = Opaque
            c.ensure_forall(st, lambda k: z3.And(K.live(c.eng, st, buf.rid, k), K.val(c.eng, st, buf.rid, k) == self.a.S(k)), what + ': cached elements', lambda k: z3.And(k >= 0, k < self.a.n))
        else:
            c.ensure(st, self.a.n == 0, what + ': cached elements')
class Reverse(Op, ListHolder):
    key = 'rev'; inner = ()
    def make(self):
        self.lc(); self.src = self.c.obj('SrcE')
        self.N = self.a.n; self.out = lambda k: self.a.S(self.a.n - 1 - k)
        return self.c.helper('api_rev_new', self.src)
    def state(self, which, k):
        if which == 'end':
            k = self.c.int('index', 0, ARG); self.c.st.add(k >= self.a.n)
        self.set('index', k)
    def rep(self, st, t, k):
        return []
    def conf(self, st, t, what):
        self.holds(st, self.c.helper('fld_rev_cache', Ptr(t.rid, 0)), what)
    def end(self, st, t):
        return [(self.get(st, 'index', t) >= self.a.n, 'past the last element')]
    def buf(self, st, t):
        return self.L.view(self.c.eng, st, self.c.helper('fld_rev_cache', Ptr(t.rid, 0)))[0]
    def owned(self, st, t):
        b = self.buf(st, t); return [b.rid] if b.rid is not None else []
    def released(self, st, rids, what):
        for rid in rids:
            self.gone(st, rid, what + ': storage released')
class Container(Op, ListHolder):
    key = 'ctn'; inner = ()
    def make(self):
        self.lc(); c = self.c
        l = c.helper('api_LE_new'); self.l = l
        lo = ListAt(c, l, self.L.offs, Opaque, 'container'); self.lo = lo
        self.N = lo.n0; self.out = lambda k: lo.fn(k)
        return c.helper('api_ctn_new', l)
    def state(self, which, k):
        if which == 'end':
            k = self.c.int('index', 0, ARG); self.c.st.add(k >= self.N)
        self.set('index', k)
    def rep(self, st, t, k):
        return []
    def conf(self, st, t, what):
        self.c.ensure(st, z3.BoolVal(st.regions[self.l.rid].alive), what + ': container is alive')
    def end(self, st, t):
        return [(self.get(st, 'index', t) >= self.N, 'past the last element')]
    def owned(self, st, t):
        return []
    def released(self, st, rids, what):
        for rid in rids + [self.l.rid, self.lo.buf0] if isinstance(rids, list) else set(rids) | {self.l.rid, self.lo.buf0}:
            if rid == self.lo.buf0 and st.regions[rid].alive:
                self.c.ensure(st, self.lo.cap0 == 0, what + ': elements released')
            else:
                self.c.ensure(st, z3.BoolVal(not st.regions[rid].alive), what + ': storage released')
class FromPtr(Op):
    key = 'fip'; inner = ()
    def make(self):
        c = self.c; self.N = self.a.n; self.out = lambda k: self.a.S(k)
        return c.helper('api_fip_new', Ptr(self.a.rid, 0), Ptr(self.a.rid, norm(8 * self.a.n)))
    def state(self, which, k):
        if which == 'end':
            k = self.c.int('index', 0, BIG); self.c.st.add(k >= self.a.n)
        self.set('current', Ptr(self.a.rid, norm(8 * k)))
    def rep(self, st, t, k):
        return []
    def end(self, st, t):
        p = self.get(st, 'current', t)
        return [(z3.And(z3.BoolVal(p.rid == self.a.rid), zi(p.off) >= 8 * self.a.n), 'past the last element')]

for cls, nm in ((Take, 'Take'), (Skip, 'Skip'), (SkipNeg, 'Skip (negative count)'), (Concat, 'Concat'), (Select, 'Select'), (SelectStale, 'Select (value left over)'), (Pairwise, 'Pairwise'), (PairwiseStale, 'Pairwise (value left over)'), (Empty, 'Empty'), (RangeOp, 'Range'), (Where, 'Where'), (Repeat, 'Repeat'), (RepeatEmpty, 'Repeat (empty source)'),
                (Distinct, 'Distinct'), (DistinctStale, 'Distinct (value left over)'), (Intersect, 'Intersect'), (Except, 'Except'), (Reverse, 'Reverse'), (Container, 'From(Ptr<container>)'), (FromPtr, 'From(begin, end)')):
    for which in ('start', 'element', 'end'):
        if which == 'element' and (not cls.N_maybe or cls in (SelectStale, PairwiseStale, DistinctStale)):
            continue
        C15.case('%s: Next from %s' % (nm, which), 'linq')(run_next(cls, which))
        C15.case('%s: Reset from %s' % (nm, which), 'linq')(run_reset(cls, which))
        C15.case('%s: Clone at %s' % (nm, which), 'linq')(run_clone(cls, which))
    if cls not in (SelectStale, PairwiseStale, DistinctStale):
        C15.case('%s: Evaluated, deletion, construction' % nm, 'linq')(run_misc(cls))

# ------------------------------------------------------------------ LazyList: each operation yields the enumerator of that operation, at the start, over a clone of the source
def create_contract(X):
    """CreateEnumerator of an abstract source: a new enumerator before its first element"""
    def mk(T):
        def f(eng, st, a):
            name = getattr(X, 'enumerable', {}).get(a[0].rid)
            if name is None:
                raise Unsupported('source of unknown origin')
            eng.mute += 1
            try:
                o = eng.call_function(st, 'api_abs%s_new' % T, [])
            finally:
                eng.mute -= 1
            X.put_abs(o[0].st, o[0].val, name, I(-1))
            return R(o[0].st, o[0].val)
        return f
    X.c.eng.contracts['AbsSrc::CreateEnumerator() const'] = mk('E'); X.c.eng.contracts['AbsSrcF::CreateEnumerator() const'] = mk('F')
def enumerable(X, name, T='E'):
    if not hasattr(X, 'enumerable'):
        X.enumerable = {}; create_contract(X)
    p = X.c.obj('Src' + T); X.enumerable[p.rid] = name
    return p
def raw(c, id):
    r = c.eng.new_struct(c.st, id, const_of(c.helper('sz_' + id)), heap='param'); return Ptr(r.rid, 0)
def lazy(X, src, id='LZ'):
    c = X.c; p = raw(c, id)
    c.helper('api_%s_src' % id, p, src.enum(I(-1)))
    return p
def vptr(st, t):
    return st.regions[t.rid].fields.get(0, (8, None))[1]
def same_class(st, t, t0st, t0):
    x, y = vptr(st, t), vptr(t0st, t0)
    if not (isinstance(t, Ptr) and isinstance(x, Ptr) and isinstance(y, Ptr) and x.rid == y.rid and z3.is_true(z3.simplify(zi(x.off) == zi(y.off))) and st.regions[t.rid].size == t0st.regions[t0.rid].size):
        raise Unsupported('the operation uses another enumerator class')

def lz_check(x, outs, rid, lists, what, chk=None, alive0=None):
    """x: reference instance of the enumerator class; every result list enumerates from the start; all storage is released with the lists"""
    c = x.c
    for o in x.ret(outs, what):
        for q in x.follow(o.st, 'api_%s_enum' % rid, [lists[0][1]], what):
            t = q.val
            if chk is None:
                same_class(q.st, t, c.st, x.t); x.start(q.st, t, what)
            else:
                chk(q.st, t)
            for order in (lists, lists[::-1]):
                sts = [q.st.copy()]
                for id, p in order:
                    sts = [z.st for s in sts for z in x.follow(s, 'api_%s_dtor' % id, [p], what)]
                for s in sts:
                    if chk is None:
                        x.start(s, t, what + ': enumerator survives the list')
                    for z in x.follow(s, 'api_%s_delete' % x.I, [t], what):
                        for r in z.st.ghost.get('heap', ()):
                            if z.st.regions[r].alive and r not in x.h0:
                                x.gone(z.st, r, what + ': storage is released')

def lz_case(name, f):
    C15.case('LazyList::' + name, 'linq')(f)
def fobj(X, fo):
    c = X.c
    f = c.eng.new_struct(c.st, fo, const_of(c.helper('sz_' + fo)), heap='param'); f.fields[(0, 'live')] = (1, TRUE); f.fields[(0, 'v')] = (1, z3.Int('callable.state'))
    return Ptr(f.rid, 0)
def lz_simple(cls, op, rid, args):
    def f(track):
        x = cls(track); c = x.c; lz = lazy(x.X, x.a); r = raw(c, rid); a = args(x)
        lz_check(x, c.run('api_LZ_' + op, [r, lz] + a), rid, [(rid, r), ('LZ', lz)], op)
    lz_case(op if cls not in (SkipNeg, RepeatEmpty) else op + ' [%s]' % cls.__name__, f)
lz_simple(Take, 'Take', 'LZ', lambda x: [x.cnt])
lz_simple(Skip, 'Skip', 'LZ', lambda x: [x.cnt])
lz_simple(SkipNeg, 'Skip', 'LZ', lambda x: [z3.Int('count')])
lz_simple(Repeat, 'Repeat', 'LZ', lambda x: [x.cnt])
lz_simple(RepeatEmpty, 'Repeat', 'LZ', lambda x: [x.cnt])
lz_simple(Concat, 'Concat', 'LZ', lambda x: [enumerable(x.X, 'b')])
lz_simple(Pairwise, 'Pairwise', 'LZP', lambda x: [enumerable(x.X, 'b', 'F')])
lz_simple(Select, 'Select', 'LZF', lambda x: [fobj(x.X, 'SEL')])
lz_simple(Where, 'Where', 'LZ', lambda x: [fobj(x.X, 'PRD')])
lz_simple(Distinct, 'Distinct', 'LZ', lambda x: [])
def f(track):
    x = Reverse(track); c = x.c; lz = lazy(x.X, x.a); r = raw(c, 'LZ'); x.src = lz
    lz_check(x, c.run('api_LZ_Reverse', [r, lz]), 'LZ', [('LZ', r), ('LZ', lz)], 'Reverse')
lz_case('Reverse', f)
def f(track):
    x = RangeOp(track); c = x.c; r = raw(c, 'LZL')
    lz_check(x, c.run('api_LZ_Range', [r, x.s, x.n]), 'LZL', [('LZL', r)], 'Range')
C15.case('Range(start, count)', 'linq')(f)
def f(track):
    x = FromPtr(track); c = x.c; r = raw(c, 'LZ')
    lz_check(x, c.run('api_LZ_FromPtr', [r, Ptr(x.a.rid, 0), Ptr(x.a.rid, norm(8 * x.a.n))]), 'LZ', [('LZ', r)], 'From(begin, end)')
C15.case('From(begin, end)', 'linq')(f)
def f(track):
    x = Container(track); c = x.c; r = raw(c, 'LZ')
    l = c.helper('api_LE_new'); x.l = l; x.lo = ListAt(c, l, x.L.offs, Opaque, 'container')
    lz_check(x, c.run('api_LZ_FromCtn', [r, l]), 'LZ', [('LZ', r)], 'LazyList(Ptr<container>)')
lz_case('LazyList(Ptr<container>)', f)

class Plain(Op):
    """the enumerator is the source's own"""
    key = 'abs'; inner = ()
    def make(self):
        return self.a.enum(I(-1))
    def start(self, st, t, what):
        ok = own(st, t, 'a')
        self.c.ensure(st, z3.BoolVal(ok), what + ': enumerates the source')
        if ok:
            self.c.ensure(st, self.X.pos(st, t) == -1, what + ': before the first element')
def f(track):
    for op in ('enumerable', 'From'):
        x = Plain(track); c = x.c; r = raw(c, 'LZ'); s = enumerable(x.X, 'a')
        lz_check(x, c.run('api_LZ_' + op, [r, s]), 'LZ', [('LZ', r)], op)
lz_case('LazyList(IEnumerable), From(IEnumerable)', f)
for op in ('cctor', 'mctor', 'FromLazy', 'cassign', 'massign', 'cassign onto itself'):
    def f(track, op=op):
        for full in (True, False):
            for dst in (('none',) if 'assign' not in op else ('self',) if 'itself' in op else ('list', 'empty')):
                x = Plain(track); c = x.c; lz = lazy(x.X, x.a) if full else c.obj('LZ')
                r = raw(c, 'LZ') if dst == 'none' else lz if dst == 'self' else lazy(x.X, Src(x.X, 'E', 'b')) if dst == 'list' else c.obj('LZ')
                e = Op.__new__(Empty); e.X = x.X; e.c = c; e.t = c.helper('api_emp_new'); x.h0.add(e.t.rid); e.h0 = x.h0; e.in0 = {}; e.N = I(0)
                y = x if full else e
                lists = [('LZ', r)] + ([('LZ', lz)] if r is not lz else [])
                for o in x.ret(c.run('api_LZ_' + op.split()[0], [r, lz]), op):
                    lz_check(y, [o], 'LZ', lists, op)
                    if op[0] != 'm' and r is not lz:
                        lz_check(y, [o], 'LZ', lists[::-1], op + ' (original)')
    lz_case({'cctor': 'copy construction', 'mctor': 'move construction', 'FromLazy': 'From(LazyList)', 'cassign': 'copy assignment', 'massign': 'move assignment'}.get(op, op), f)

def distinct_of(x, inner):
    """t is Distinct at its start over an enumerator checked by inner"""
    def chk(st, t):
        c = x.c; d = Distinct.__new__(Distinct); d.X = x.X; d.c = c; d.sets = x.sets
        e0 = x.a.enum(I(-1)); t0 = c.helper('api_dis_new', e0)
        same_class(st, t, c.st, t0)
        d.in0 = {}; d.inner = ()
        c.ensure_forall(st, lambda k: z3.Not(member(d.set_(st, t), k)), 'no value seen yet', lambda k: TRUE)
        d.index(st, t, I(-1), 'new enumerator')
        e = x.X.fget(st, 'dis', 'enumerator', t)
        inner(st, e)
    return chk
for cls, op in ((Intersect, 'Intersect'), (Except, 'Except'), (Concat, 'Union')):
    def f(track, cls=cls, op=op):
        x = cls(track); c = x.c; lz = lazy(x.X, x.a); r = raw(c, 'LZ'); s = enumerable(x.X, 'b')
        if cls is Concat:
            x.sets = SetC(x.X)
        else:
            x.X.bsrc = s
        def inner(st, e):
            same_class(st, e, c.st, x.t)
            if cls is not Concat:
                x.sets.made = x.set_(st, e)
            x.start(st, e, op)
        lz_check(x, c.run('api_LZ_' + op, [r, lz, s]), 'LZ', [('LZ', r), ('LZ', lz)], op, chk=distinct_of(x, inner))
    lz_case(op, f)
sekF = z3.Function('group key', INT, INT)
def f(track):
    """the groups: the distinct keys of the elements, each with the elements of that key"""
    x = Where(track); c = x.c; X = x.X; x.sets = SetC(X); lz = lazy(X, x.a); r = raw(c, 'LZG'); fo = fobj(X, 'SEK')
    def x_sek(eng, st, a):
        q, l = eng.elem(st, a[2], 'argument'); eng.require(st, eng.elem_get(st, q, l, 'live'), 'argument of the key function is alive')
        v = eng.elem_get(st, q, l, 'v'); X.functor(eng, st, a[1])
        d, dl = eng.elem(st, a[0], 'result')
        eng.elem_set(st, d, dl, 'live', TRUE); eng.elem_set(st, d, dl, 'v', sekF(v))
        return R(st)
    c.eng.externs['_ZNK3SEKclE1E'] = x_sek
    ko, kv = c.elem('key'); eo, ev = c.elem('element'); res = c.rawcell('key of the element'); pg = raw(c, 'PG')
    for u, v in ((kv, sekF(ev)), (sekF(ev), kv)):
        c.st.add(eqE(u, v) == (keyE(u) == keyE(v)))
    refk = c.helper('api_gks_new', x.a.enum(I(-1))); refg = c.helper('api_grp_new', x.a.enum(I(-1)))
    x.h0 |= set(c.st.ghost.get('heap', ()))
    def src(st, key, t, what):
        e = X.fget(st, key, 'enumerator', t)
        ok = own(st, e, 'a')
        c.ensure(st, z3.BoolVal(ok), what + ': over the elements of the sequence')
        if ok:
            c.ensure(st, X.pos(st, e) == -1, what + ': before the first element')
    def inner(st, e):
        same_class(st, e, c.st, refk); src(st, 'gks', e, 'keys')
        for o in x.follow(st, 'api_gks_call', [e, eo, res[0]], 'keys'):
            x.value(o.st, res[0], sekF(ev), 'keys: of each element, by the function given')
    def chk(st, t):
        same_class(st, t, c.st, refg)
        for o in x.follow(st, 'api_IG_Index', [t], 'groups'):
            c.ensure(o.st, o.val == -1, 'groups: Index before the first')
        distinct_of(x, inner)(st, X.fget(st, 'grp', 'enumerator', t))
        for o in x.follow(st, 'api_grp_call', [t, ko, pg], 'group'):
            x.value(o.st, c.helper('fld_PG_key', pg), kv, 'group: its key')
            for q in x.follow(o.st, 'api_LZ_enum', [c.helper('fld_PG_value', pg)], 'group'):
                w = q.val
                same_class(q.st, w, c.st, x.t); src(q.st, 'whe', w, 'elements of the group')
                for z in x.follow(q.st, 'api_whe_call', [w, eo], 'elements of the group'):
                    c.ensure(z.st, B(z.val) == (keyE(kv) == keyE(sekF(ev))), 'elements of the group: exactly those of its key')
                for z in x.follow(q.st, 'api_IE_delete', [w], 'group'):
                    for y in x.follow(z.st, 'dtor_PG', [pg], 'group'):
                        for i in y.st.ghost.get('heap', ()):
                            if y.st.regions[i].alive and i not in st.ghost.get('heap', ()):
                                x.gone(y.st, i, 'group: storage is released')
    x.I = 'IG'
    lz_check(x, c.run('api_LZ_GroupBy', [r, lz, fo]), 'LZG', [('LZG', r), ('LZ', lz)], 'GroupBy', chk=chk)
lz_case('GroupBy', f)
def f(track):
    """SelectMany: the lists the function gives for the elements, joined in order. Aggregate appears by its contract (C16): the fold of the elements from the
    initial value; here the sequence folded is Select of the function, the initial value an empty list, and the step joins two lists."""
    x = Plain(track); c = x.c; X = x.X; lz = lazy(X, x.a); r = raw(c, 'LZ'); fo = fobj(X, 'SEM')
    srcs = {n: Src(X, 'E', n) for n in 'mpqs'}
    ref = {'con': c.helper('api_con_new', x.a.enum(I(-1)), x.a.enum(I(-1))), 'smy': c.helper('api_smy_new', x.a.enum(I(-1))), 'emp': c.helper('api_emp_new')}
    eo, ev = c.elem('element'); out = raw(c, 'LZ'); P = lazy(X, srcs['p']); Q = lazy(X, srcs['q']); qe = c.helper('LZ_up', Q)
    x.h0 |= set(c.st.ghost.get('heap', ()))
    ref0 = c.st
    def fill(eng, st, p, name):
        """a new LazyList over the named sequence at p"""
        eng.mute += 1
        try:
            o = eng.call_function(st, 'api_absE_new', []); st = o[0].st; X.put_abs(st, o[0].val, name, I(-1))
            return eng.call_function(st, 'api_LZ_src', [p, o[0].val])[0].st
        finally:
            eng.mute -= 1
    called = []
    def x_sem(eng, st, a):
        q, l = eng.elem(st, a[2], 'argument'); eng.require(st, z3.And(eng.elem_get(st, q, l, 'live'), eng.elem_get(st, q, l, 'v') == ev), 'the function is called with the element')
        X.functor(eng, st, a[1])
        return R(fill(eng, st, a[0], 'm'))
    c.eng.externs['_ZNK3SEMclE1E'] = x_sem
    def src(st, e, name, what):
        ok = own(st, e, name)
        c.ensure(st, z3.BoolVal(ok), what)
        if ok:
            c.ensure(st, X.pos(st, e) == -1, what + ': before the first element')
    agg = [d for d in c.u.bydem if re.search(r'LazyList<vl::collections::LazyList<E>>::Aggregate<.*SelectMany<SEM const&>', d) and d.rstrip().endswith(') const')]
    lam = [d for d in c.u.bydem if re.search(r"SelectMany<SEM const&>\(.*'lambda'.*::operator\(\)\(", d)]
    if len(agg) != 1 or len(lam) != 1:
        raise Unsupported('SelectMany is not an aggregation of lists')
    def fold(eng, st, a):
        what = 'SelectMany'
        if called:
            raise Unsupported('more than one aggregation')
        called.append(1)
        for o in x.follow(st, 'api_LZZ_enum', [a[1]], what):
            t = o.val; same_class(o.st, t, ref0, ref['smy']); src(o.st, X.fget(o.st, 'smy', 'enumerator', t), 'a', what + ': over the elements of the sequence')
            for q in x.follow(o.st, 'api_smy_call', [t, eo, out], what):
                for z in x.follow(q.st, 'api_LZ_enum', [out], what):
                    src(z.st, z.val, 'm', what + ': the list given by the function for an element')
        for o in x.follow(st, 'api_LZ_enum', [a[2]], what):
            same_class(o.st, o.val, ref0, ref['emp'])
        for o in x.follow(st, c.u.bydem[lam[0]], [out, a[3], P, qe], what):
            for z in x.follow(o.st, 'api_LZ_enum', [out], what):
                same_class(z.st, z.val, ref0, ref['con'])
                src(z.st, X.fget(z.st, 'con', 'enumerator1', z.val), 'p', what + ': first the lists before'); src(z.st, X.fget(z.st, 'con', 'enumerator2', z.val), 'q', what + ': then the list of the element')
                for y in x.follow(z.st, 'api_IE_Index', [z.val], what):
                    c.ensure(y.st, y.val == -1, what + ': joined from the start')
                for y in x.follow(z.st, 'api_IE_delete', [z.val], what):
                    for u in x.follow(y.st, 'api_LZ_dtor', [out], what):
                        for i in u.st.ghost.get('heap', ()):
                            if u.st.regions[i].alive and i not in st.ghost.get('heap', ()):
                                x.gone(u.st, i, what + ': storage is released')
        return R(fill(eng, st, a[0], 's'))
    c.eng.contracts[agg[0]] = fold
    outs = c.run('api_LZ_SelectMany', [r, lz, fo])
    c.ensure(c.st, z3.BoolVal(len(called) == 1), 'SelectMany: the lists are joined')
    lz_check(x, outs, 'LZ', [('LZ', r), ('LZ', lz)], 'SelectMany', chk=lambda st, t: src(st, t, 's', 'SelectMany: the joined list is the result'))
lz_case('SelectMany', f)
class PtrSrc(Op):
    """a sequence of pointers; only its enumerator at the start is looked at"""
    key = 'abs'; inner = (); I = 'IPD'
    def make(self):
        self.a = Src(self.X, 'B', 'a'); return self.a.enum(I(-1))
for op in ('Cast', 'FindType'):
    def f(track, op=op):
        for kind in ('object of the class', 'object of another class', 'empty pointer'):
            x = PtrSrc(track); c = x.c; X = x.X; lz = lazy(X, x.a, 'LZB'); r = raw(c, 'LZD')
            c.eng.externs['_ZNK3AbsIN2vl3PtrI2CBEEE5CloneEv'] = lambda eng, st, a: X.x_clone(eng, st, a, 'B')
            c.eng.externs['_ZNK3AbsIN2vl3PtrI2CBEEE5IndexEv'] = X.x_index
            b = raw(c, 'PCB'); d = raw(c, 'PCD'); ob = None
            if kind == 'empty pointer':
                c.helper('mk_PCB', b)
            else:
                ob = c.helper('new_' + ('CD' if 'another' not in kind else 'CB'))
                c.st.mut(ob.rid).meta['dyn'] = {'2CB': 0, **({'2CD': 0} if 'another' not in kind else {})}
                c.helper('api_PCB_set', b, ob)
            refs = c.helper('api_cas_new', x.a.enum(I(-1))); reff = c.helper('api_fnd_new', c.helper('api_cas_new', x.a.enum(I(-1))))
            x.h0 |= set(c.st.ghost.get('heap', ()))
            def cast(st, t, what, then=None):
                same_class(st, t, c.st, refs)
                for o in x.follow(st, 'api_IPD_Index', [t], what):
                    c.ensure(o.st, o.val == -1, what + ': Index before the first')
                e = X.fget(st, 'cas', 'enumerator', t)
                ok = own(st, e, 'a')
                c.ensure(st, z3.BoolVal(ok), what + ': over the elements of the sequence')
                if ok:
                    c.ensure(st, X.pos(st, e) == -1, what + ': before the first element')
                for o in x.follow(st, 'api_cas_call', [t, b, d], what):
                    for q in x.follow(o.st, 'api_PCD_get', [d], what):
                        p = q.val
                        same = isinstance(p, Ptr) and p.rid == (ob.rid if kind == 'object of the class' else None)
                        c.ensure(q.st, z3.And(z3.BoolVal(same), z3.Not(p.null) if kind == 'object of the class' else TRUE, zi(p.off) == 0) if same else FALSE, what + ': the same object if it is of the class, otherwise empty')
                        if then:
                            then(q.st)
                        for z in x.follow(q.st, 'dtor_PCD', [d], what):
                            if ob is not None:
                                c.ensure(z.st, z3.BoolVal(z.st.regions[ob.rid].alive), what + ': the object stays alive')
                            for y in x.follow(z.st, 'dtor_PCB', [b], what):
                                if ob is not None:
                                    x.gone(y.st, ob.rid, what + ': the object is released with its last pointer')
            def chk(st, t):
                if op == 'Cast':
                    return cast(st, t, 'Cast')
                same_class(st, t, c.st, reff)
                def then(s):
                    for o in x.follow(s, 'api_fnd_call', [t, d], 'FindType'):
                        c.ensure(o.st, B(o.val) == z3.BoolVal(kind == 'object of the class'), 'FindType: exactly the objects of the class')
                cast(st, X.fget(st, 'fnd', 'enumerator', t), 'FindType', then)
            lz_check(x, c.run('api_LZ_' + op, [r, lz]), 'LZD', [('LZD', r), ('LZB', lz)], op, chk=chk)
    lz_case(op, f)
for force in (True, False):
    def f(track, force=force):
        x = Container(track); c = x.c; lz = lazy(x.X, x.a); r = raw(c, 'LZ'); x.src = lz
        n0, out = x.a.n, x.a.S
        def chk(st, t):
            if st.regions[t.rid].meta.get('abs') == 'a':
                c.ensure(st, x.X.pos(st, t) == -1, 'Evaluate: before the first element')
                c.ensure(st, z3.And(x.X.evof('a'), z3.BoolVal(not force)), 'Evaluate: the source itself only if it is evaluated')
                return
            same_class(st, t, c.st, x.t)
            x.index(st, t, I(-1), 'Evaluate')
            p = x.X.fget(st, 'ctn', 'container', t)
            l = st.regions[t.rid].fields
            q = [v for k, (w, v) in l.items() if isinstance(v, Ptr) and v.rid is not None and st.regions[v.rid].kind == 'struct' and x.L.view(c.eng, st, v) is not None and st.regions[v.rid].size == st.regions[x.l.rid].size]
            if len({(v.rid, x.off(v)) for v in q}) != 1:
                raise Unsupported('container of the evaluated list')
            x.holds(st, q[0], 'Evaluate')
            for z in x.follow(st, 'api_IE_Evaluated', [t], 'Evaluate'):
                c.ensure(z.st, B(z.val), 'Evaluate: the result is evaluated')
        lz_check(x, c.run('api_LZ_Evaluate', [r, lz, z3.BoolVal(force)]), 'LZ', [('LZ', r), ('LZ', lz)], 'Evaluate', chk=chk)
    lz_case('Evaluate(%s)' % force, f)

# ------------------------------------------------------------------ C16: folds over a sequence
C16.assumptions = C15.assumptions + ['aggregating functions are functions of their arguments']
aggF = z3.Function('aggregate', INT, INT, INT); agiF = z3.Function('aggregate_init', INT, INT, INT)
def setup16(track, fold=None, externs=True):
    X = LC(track, opts=dict(elem_structs=True)); c = X.c; a = Src(X, 'E', 'a'); lz = lazy(X, a); create_contract(X); X.enumerable = {}
    X.a = a; X.lz = lz
    c.eng.inv_templates.append(('position is before the end', lambda eng, st, p: p < a.n, 1))
    def agg(fn, kinds):
        def f(eng, st, x):
            d = x[0]; X.functor(eng, st, x[1]); vs = []
            for p in x[2:]:
                r, l = eng.elem(st, p, 'argument'); eng.require(st, eng.elem_get(st, r, l, 'live'), 'argument of the aggregating function is alive')
                vs.append(eng.elem_get(st, r, l, 'v'))
            r, l = eng.elem(st, d, 'result'); eng.elem_set(st, r, l, 'live', TRUE); eng.elem_set(st, r, l, 'v', fn(*vs))
            return R(st)
        return f
    c.eng.externs['_ZNK3AGGclE1ES0_'] = agg(aggF, 'EE'); c.eng.externs['_ZNK3AGIclE1F1E'] = agg(agiF, 'FE')
    return X
def folding(X, name, base, step, sort=INT):
    """fold(i): value after elements 0..i; fold(-1) = base when given"""
    F = z3.Function(name, INT, sort); a = X.a; i = z3.Int('i!fold'); st = X.c.st
    if base is not None:
        st.add(F(I(-1)) == base)
        st.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.n), F(i) == step(F(i - 1), a.S(i))), patterns=[a.S(i)]))
    else:
        st.add(F(I(0)) == a.S(I(0)))
        st.add(z3.ForAll([i], z3.Implies(z3.And(i >= 1, i < a.n), F(i) == step(F(i - 1), a.S(i))), patterns=[a.S(i)]))
    X.c.eng.inv_templates.append(('value is the fold of the elements so far', lambda eng, st, p, v: z3.Implies(z3.And(p >= (-1 if base is not None else 0), p < a.n), v == F(p)), 2))
    if base is not None:
        X.c.eng.inv_templates.append(('value is the fold of the elements before', lambda eng, st, p, v: z3.Implies(z3.And(p >= 0, p < a.n), v == F(p - 1)), 2))
    return F
def cell(c, name='result'):
    r = c.eng.new_struct(c.st, name, 8, heap='param'); r.fields[(0, 'live')] = (1, FALSE); r.fields[(0, 'v')] = (1, z3.Int('garbage'))
    return Ptr(r.rid, 0)
def finish16(X, o, what):
    c = X.c; st = o.st
    p = [r for r in X.c.st.ghost.get('heap', ())]
    for r in st.ghost.get('heap', ()):
        if r not in p:
            c.ensure(st, z3.BoolVal(not st.regions[r].alive), what + ': enumerators are released')
    for rid, r in X.c.st.regions.items():
        if r.meta.get('abs'):
            c.ensure(st, st.regions[rid].fields[(0, 'pos')][1] == r.fields[(0, 'pos')][1], what + ': the list itself is not iterated')
def got(c, st, d, v, what):
    r, l = c.eng.elem(st, d, 'result'); c.ensure(st, c.eng.elem_get(st, r, l, 'live'), what + ': result exists'); c.ensure(st, c.eng.elem_get(st, r, l, 'v') == v, what + ': value of the result')
def run16(X, api, args, what, empty_error, post):
    c = X.c
    for o in c.run(api, args):
        if o.kind == 'ret':
            if empty_error:
                c.ensure(o.st, X.a.n > 0, what + ': raises Error on an empty sequence')
            post(o)
        else:
            c.ensure(o.st, z3.And(z3.BoolVal(c.is_error(o) and empty_error), X.a.n == 0), what + ': raises Error on an empty sequence only')
        finish16(X, o, what)
def f(track):
    X = setup16(track); c = X.c
    run16(X, 'api_LZ_Count', [X.lz], 'Count', False, lambda o: c.ensure(o.st, o.val == X.a.n, 'Count: number of elements'))
C16.case('LazyList::Count', 'linq')(f)
def f(track):
    X = setup16(track); c = X.c
    run16(X, 'api_LZ_IsEmpty', [X.lz], 'IsEmpty', False, lambda o: c.ensure(o.st, B(o.val) == (X.a.n == 0), 'IsEmpty: no element'))
C16.case('LazyList::IsEmpty', 'linq')(f)
for op in ('First', 'Last'):
    def f(track, op=op):
        X = setup16(track); c = X.c; d = cell(c); w = (lambda: X.a.S(I(0))) if op == 'First' else (lambda: X.a.S(X.a.n - 1))
        if op == 'Last':
            c.eng.inv_templates.append(('value is the element at the position', lambda eng, st, p, v: z3.Implies(z3.And(p >= 0, p < X.a.n), v == X.a.S(p)), 2))
        run16(X, 'api_LZ_' + op, [d, X.lz], op, True, lambda o: got(c, o.st, d, w(), op))
        X = setup16(track); c = X.c; d = cell(c); e, v = c.elem('default')
        if op == 'Last':
            c.eng.inv_templates.append(('value is the element at the position', lambda eng, st, p, u: u == z3.If(p >= 0, X.a.S(p), v), 2))
        run16(X, 'api_LZ_%sD' % op, [d, X.lz, e], op, False, lambda o: got(c, o.st, d, z3.If(X.a.n == 0, v, w()), op))
    C16.case('LazyList::%s()' % op, 'linq')(f)
def f(track):
    X = setup16(track); c = X.c; d = cell(c); F = folding(X, 'fold', None, lambda x, y: aggF(x, y))
    run16(X, 'api_LZ_Agg', [d, X.lz, fobj(X, 'AGG')], 'Aggregate', True, lambda o: got(c, o.st, d, F(X.a.n - 1), 'Aggregate'))
C16.case('LazyList::Aggregate(f)', 'linq')(f)
def f(track):
    X = setup16(track); c = X.c; d = cell(c); e, v = c.elem('init'); F = folding(X, 'fold', v, lambda x, y: agiF(x, y))
    run16(X, 'api_LZ_Agi', [d, X.lz, e, fobj(X, 'AGI')], 'Aggregate', False, lambda o: got(c, o.st, d, F(X.a.n - 1), 'Aggregate'))
C16.case('LazyList::Aggregate(init, f)', 'linq')(f)
for op in ('Max', 'Min'):
    def f(track, op=op):
        X = setup16(track); c = X.c; d = cell(c)
        a = X.a
        ge = (lambda x, y: keyE(x) >= keyE(y)) if op == 'Max' else (lambda x, y: keyE(x) <= keyE(y))
        el = z3.Function('is_an_element', INT, BOOL)
        q = z3.Int('q!m')
        c.eng.inv_templates.append(('bound of the elements so far', lambda eng, st, p, v: z3.And(p < a.n, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q <= p, q < a.n), ge(v, a.S(q))), patterns=[a.S(q)])), 2))
        c.st.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < a.n), el(a.S(q))), patterns=[a.S(q)]))
        c.eng.inv_templates.append(('value is one of the elements', lambda eng, st, v: el(v), 1))
        def post(o):
            r, l = c.eng.elem(o.st, d, 'result'); v = c.eng.elem_get(o.st, r, l, 'v')
            c.ensure(o.st, c.eng.elem_get(o.st, r, l, 'live'), op + ': result exists')
            c.ensure_forall(o.st, lambda k: ge(v, a.S(k)), op + ': no element beyond the result', lambda k: z3.And(k >= 0, k < a.n))
            c.ensure(o.st, el(v), op + ': the result is one of the elements')
        run16(X, 'api_LZ_' + op, [d, X.lz], op, True, post)
    C16.case('LazyList::%s' % op, 'linq')(f)

def cmp16(track):
    X = LC(track, opts=dict(elem_structs=True)); c = X.c; a = Src(X, 'E', 'a'); b = Src(X, 'E', 'b')
    p, q = enumerable(X, 'a'), enumerable(X, 'b')
    q_ = z3.Int('q!cmp')
    c.eng.inv_templates.append(('same positions', lambda eng, st, u, v: u == v, 2))
    c.eng.inv_templates.append(('elements so far are equal', lambda eng, st, u: z3.And(u < a.n, u < b.n, z3.ForAll([q_], z3.Implies(z3.And(q_ >= 0, q_ <= u), keyE(a.S(q_)) == keyE(b.S(q_))), patterns=[a.S(q_)])), 1))
    ka, kb = (lambda k: keyE(a.S(k))), (lambda k: keyE(b.S(k)))
    for o in c.run('api_compare', [p, q]):
        st = o.st
        if o.kind != 'ret':
            c.ensure(st, FALSE, 'CompareEnumerable: does not raise'); continue
        for r in st.ghost.get('heap', ()):
            c.ensure(st, z3.BoolVal(not st.regions[r].alive), 'CompareEnumerable: enumerators are released')
        for v in (-1, 0, 1):
            s = st.copy(); s.add(o.val == v)
            if not c.eng.feasible(s):
                continue
            if v == 0:
                c.ensure(s, a.n == b.n, 'CompareEnumerable: equal sequences have equal length')
                c.ensure_forall(s, lambda k: ka(k) == kb(k), 'CompareEnumerable: equal sequences have equal elements', lambda k: z3.And(k >= 0, k < a.n))
            else:
                lt = (lambda x, y: x < y) if v < 0 else (lambda x, y: x > y)
                short_, n1, n2 = (a, a.n, b.n) if v < 0 else (b, b.n, a.n)
                def pred(m):
                    return [m >= 0, z3.Or(z3.And(m < a.n, m < b.n, lt(ka(m), kb(m))), z3.And(m == n1, n1 < n2)), (lambda k: z3.And(k >= 0, k < m), lambda k: ka(k) == kb(k))]
                witness(c, s, pred, 'CompareEnumerable: decided by the first difference, or by length when one is a prefix', extra=[n1])
        c.ensure(st, z3.And(o.val >= -1, o.val <= 1), 'CompareEnumerable: an ordering')
C16.case('CompareEnumerable', 'linq')(cmp16)
for op in ('All', 'Any'):
    def f(track, op=op):
        X = setup16(track); c = X.c; F = z3.Function('fold', INT, BOOL)
        a = X.a; q = z3.Int('q!all')
        hold = (lambda v: prdF(v)) if op == 'All' else (lambda v: z3.Not(prdF(v)))
        tv = (lambda x: x != 0) if op == 'All' else (lambda x: x == 0)
        c.eng.inv_templates.append(('all so far', lambda eng, st, p, v: z3.Implies(z3.And(p >= 0, p < a.n), tv(v) == fa(p)), 2))
        fa = z3.Function('holds_before', INT, BOOL); i = z3.Int('i!fa')
        c.st.add(fa(I(0))); c.st.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.n), fa(i + 1) == z3.And(fa(i), hold(a.S(i)))), patterns=[a.S(i)]))
        c.st.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < a.n), fa(i + 1) == z3.And(fa(i), hold(a.S(i)))), patterns=[fa(i)]))
        def post(o):
            c.ensure(o.st, (B(o.val) if op == 'All' else z3.Not(B(o.val))) == fa(a.n), op + ': conjunction over all elements')
        run16(X, 'api_LZ_' + op, [X.lz, fobj(X, 'PRD')], op, False, post)
    C16.case('LazyList::' + op, 'linq')(f)
