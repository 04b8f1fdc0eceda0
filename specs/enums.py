"""C24 enumerating a container: enumerators of Array/List/SortedList/Dictionary/Group step through exactly the contents, range-based for visits every element once."""
import z3
from vir.spec import *
from vir.runner import Property
from specs.pointers import dyncast
from specs.linq import LC, Src
from specs.maps import MC, GC, slen, sat

C24 = Property('C24'); PROPERTIES = [C24]
C24.driver = 'maps'
C24.assumptions = ['counts and the total number of values of a Group at most 2^40; operator new succeeds', 'the container is not changed while it is enumerated',
                   'Current is read at an element only', 'value lists of a Group and enumerable sources of range-based for appear by contract (C01, C15)']

def ext(x):
    ex = {'__dynamic_cast': dyncast}
    m = '_ZN3AbsI1EE'; k = '_ZNK3AbsI1EE'
    ex[m + '4NextEv'] = x.x_next; ex[m + '5ResetEv'] = x.x_reset; ex[k + '5IndexEv'] = x.x_index
    ex[k + '7CurrentEv'] = x.x_current; ex[k + '5CloneEv'] = lambda eng, st, a: x.x_clone(eng, st, a, 'E'); ex[k + '9EvaluatedEv'] = x.x_eval
    return ex
class DC(MC):
    def ctx(self):
        return Ctx('enum', externs={'__dynamic_cast': dyncast})
class GD(GC):
    def ctx(self):
        return Ctx('enum', externs={'__dynamic_cast': dyncast}, opts=dict(cand_div=8))
    def get(self, eng, st, a):
        """ArrayBase<F>::Get of a value list"""
        if not self.mine(a[0]):
            return None
        loc, s = self.at(eng, st, a[0], 'value list Get')
        eng.require(st, z3.And(zi(a[1]) >= 0, zi(a[1]) < slen(s)), 'value list Get: index in range')
        return R(st, self.cell(eng, st, loc[1], a[1], s))
    def cell(self, eng, st, slot, i, s):
        r = eng.new_struct(st, 'value', 8, heap='param'); r.meta['ref'] = (zi(slot), zi(i))
        r.fields[(0, 'live')] = (1, TRUE); r.fields[(0, 'v')] = (1, sat(s, zi(i)))
        return Ptr(r.rid, 0)

class En:
    """a container with one of its enumerators"""
    def off(self, f):
        q = self.c.helper('fld_%s_%s' % (self.key, f), Ptr(self.t.rid, 0))
        return q.off if isinstance(q.off, int) else const_of(q.off)
    def set(self, f, v):
        o = self.off(f); self.c.st.mut(self.t.rid).fields[o] = (8, v)
    def get(self, st, f, t):
        v = st.regions[t.rid].fields.get(self.offs[f])
        if v is None:
            raise Unsupported('field %s is not set' % f)
        return v[1]
    def begin(self, key, ints):
        self.key = key; self.heap0 = set(self.c.st.ghost.get('heap', ()))
        self.t = self.c.helper('api_%s_enum' % self.id, self.p)
        self.offs = {f: self.off(f) for f in ('container',) + ints}
    def own(self, st, t, what):
        v = self.get(st, 'container', t)
        self.c.ensure(st, z3.BoolVal(isinstance(v, Ptr) and v.rid == self.p.rid and v.off == self.cont0.off), what + ': enumerates the same container')
    def follow(self, st, name, args, what):
        r = []
        for o in self.c.eng.call_function(st.copy(), name, args):
            if self.c.eng.feasible(o.st):
                if o.kind == 'ret':
                    r.append(o)
                else:
                    self.c.ensure(o.st, FALSE, what + ': does not raise')
        return r
    def index(self, st, t, k, what):
        for o in self.follow(st, 'api_%s_Index' % self.I, [t], what):
            self.c.ensure(o.st, o.val == k, what + ': Index is the position')
    def gone(self, st, rid, what):
        self.c.ensure(st, z3.BoolVal(not st.regions[rid].alive), what)

class Arr(En):
    I = 'IE'
    def __init__(self, track, id, cap):
        self.id = id; self.X = self.c = None
        self.c = c = track(Ctx('enum', externs={'__dynamic_cast': dyncast}))
        self.L = ListObj(c, id, Opaque, 'list', has_cap=cap); self.p = self.L.p
        self.begin('arr', ('index',)); self.cont0 = self.get(c.st, 'container', self.t)
    def same_container(self, o, what, keep=()):
        self.L.check(o, self.L.pre, what + ': container unchanged', keep_heap=tuple(keep) + (self.t.rid,))
    def pose(self, which, stale):
        c = self.c; n = self.L.n0
        k = {'start': lambda: I(-1), 'element': lambda: c.int('k', 0, BIG), 'end': lambda: c.int('k', 0, ARG)}[which]()
        c.st.add({'start': TRUE, 'element': k < n, 'end': k >= n}[which]); self.set('index', k)
        return k
    def at(self, st, t, which, k, what):
        c = self.c; self.own(st, t, what); i = self.get(st, 'index', t)
        if which == 'end':
            c.ensure(st, i >= self.L.n0, what + ': at the end'); return
        c.ensure(st, i == k, what + ': position'); self.index(st, t, k, what)
        if which == 'element':
            for o in self.follow(st, 'api_IE_Current', [t], what):
                self.c.ensure(o.st, z3.And(z3.BoolVal(isinstance(o.val, Ptr) and o.val.rid == self.L.buf0), zi(o.val.off) == 8 * k), what + ': Current is the element')
    def next(self, st, which, k, more):
        n = self.L.n0
        if which == 'end':
            self.c.ensure(st, z3.BoolVal(not more), 'Next: false ever after the last element')
        else:
            self.c.ensure(st, (k + 1 < n) if more else k + 1 >= n, 'Next: tells whether there is another element')
        self.at(st, self.t, 'element' if more else 'end', norm(k + 1), 'Next')

class Dic(En):
    I = 'IK'; id = 'DI'
    def __init__(self, track):
        self.X = DC(track, ('d',), 'DI'); self.c = self.X.c; self.d = self.X.d; self.p = self.d.p
        self.begin('den', ('index',)); self.cont0 = self.get(self.c.st, 'container', self.t)
    def same_container(self, o, what, keep=()):
        class N: pass
        o2 = Outcome(o.st.copy(), o.kind, o.val); o2.st.ghost['keep'] = tuple(keep) + (self.t.rid,)
        self.X.check(o2, self.d, self.d.pre, what + ': container unchanged')
    def pose(self, which, stale):
        c = self.c; n = self.d.k.n0; d = self.d
        k = {'start': lambda: I(-1), 'element': lambda: c.int('k', 0, BIG), 'end': lambda: c.int('k', 0, ARG)}[which]()
        c.st.add({'start': TRUE, 'element': k < n, 'end': k >= n}[which])
        j = k if which == 'element' else None
        if stale and j is None:
            j = c.int('old', 0, BIG); c.st.add(j < n)
        if j is not None:
            c.helper('api_den_pose', Ptr(self.t.rid, 0), Ptr(d.k.buf0, norm(8 * j)), Ptr(d.v.buf0, norm(8 * j)))
        self.set('index', k)
        return k
    def at(self, st, t, which, k, what):
        c = self.c; self.own(st, t, what); i = self.get(st, 'index', t); d = self.d
        if which == 'end':
            c.ensure(st, i >= d.k.n0, what + ': at the end'); return
        c.ensure(st, i == k, what + ': position'); self.index(st, t, k, what)
        if which == 'element':
            for o in self.follow(st, 'api_IK_Current', [t], what):
                for nm, b in (('key', d.k.buf0), ('value', d.v.buf0)):
                    for q in self.follow(o.st, 'api_KV_' + nm, [o.val], what):
                        c.ensure(q.st, z3.And(z3.BoolVal(isinstance(q.val, Ptr) and q.val.rid == b), zi(q.val.off) == 8 * k), what + ': Current is the entry (%s)' % nm)
    def next(self, st, which, k, more):
        n = self.d.k.n0
        if which == 'end':
            self.c.ensure(st, z3.BoolVal(not more), 'Next: false ever after the last element')
        else:
            self.c.ensure(st, (k + 1 < n) if more else k + 1 >= n, 'Next: tells whether there is another element')
        self.at(st, self.t, 'element' if more else 'end', norm(k + 1), 'Next')

class Grp(En):
    I = 'IK'; id = 'GR'
    def __init__(self, track):
        self.X = X = GD(track, ('g',), 'GR'); X.seal(); self.c = c = X.c; self.d = X.d; self.p = self.d.p; d = self.d
        c.eng.contracts['vl::collections::ArrayBase<F>::Get(long) const'] = X.get
        self.begin('gen', ('keyIndex', 'valueIndex')); self.cont0 = self.get(c.st, 'container', self.t)
        self.sum = S = z3.Function('values_before', INT, INT); i = z3.Int('i!sum'); n = d.k.n0
        self.len = L = lambda k: slen(X.seq0(zi(k)))
        c.st.add(S(I(0)) == 0)
        if const_of(d.base) != 0:
            raise Unsupported('first slot')
        c.st.add(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(S(i + 1) == S(i) + L(i), S(i) >= 0, S(i + 1) <= BIG)), patterns=[X.seq0(i)]))
        c.eng.inv_templates += [('values before key i', lambda eng, st, i, u: z3.And(i >= 0, i <= n, u == S(i)), 2)]
        def rest(add):
            def f(eng, st, i, u):
                a, b = (self.get(st, x, self.t) for x in ('keyIndex', 'valueIndex'))
                return z3.And(i >= -1, i < a, u == S(a) - S(i + 1) + (b if add else I(0)))
            return f
        c.eng.inv_templates += [('values from key i on', rest(False), 2), ('values from key i on and position', rest(True), 2)]
    def same_container(self, o, what, keep=()):
        o2 = Outcome(o.st.copy(), o.kind, o.val); o2.st.ghost['keep'] = tuple(keep) + (self.t.rid,)
        self.X.check(o2, self.d, (self.d.k.pre, self.d.v.pre), what + ': container unchanged')
        self.X.slots(o2, self.X.base_alloc(), lambda k: self.X.seq0(k), what + ': container unchanged')
    def refs(self, a, b):
        c = self.c; d = self.d
        return Ptr(d.k.buf0, norm(8 * a)), self.X.cell(c.eng, c.st, norm(d.base + a), b, self.X.seq0(norm(d.base + a)))
    def pose(self, which, stale):
        c = self.c; n = self.d.k.n0; d = self.d
        if which == 'element':
            a, b = c.int('i', 0, BIG), c.int('j', 0, BIG); c.st.add(z3.And(a < n, b < self.len(a)))
        else:
            a, b = (I(-1) if which == 'start' else n), I(-1)
        x = (a, b) if which == 'element' else None
        if stale and x is None:
            i, j = c.int('old', 0, BIG), c.int('oldvalue', 0, BIG); c.st.add(z3.And(i < n, j < self.len(i))); x = (i, j)
        if x is not None:
            c.helper('api_gen_pose', Ptr(self.t.rid, 0), *self.refs(*x))
        self.set('keyIndex', a); self.set('valueIndex', b)
        S = self.sum
        c.st.add(S(a) == S(a))
        c.eng.inv_templates += [('at the old position or before the first value of the next key', lambda eng, st, u, v: z3.Or(z3.And(u == z3.If(a == -1, I(0), a), v == b), z3.And(u == a + 1, v == -1, b + 1 >= self.len(a))), 2)]
        return (a, b)
    def at(self, st, t, which, k, what):
        c = self.c; self.own(st, t, what); a, b = self.get(st, 'keyIndex', t), self.get(st, 'valueIndex', t); d = self.d
        if which == 'end':
            c.ensure(st, z3.And(a == d.k.n0, b == -1), what + ': at the end'); return
        c.ensure(st, z3.And(a == k[0], b == k[1]), what + ': position')
        if which == 'start':
            self.index(st, t, I(-1), what)
        else:
            self.index(st, t, norm(self.sum(k[0]) + k[1]), what)
            for o in self.follow(st, 'api_IK_Current', [t], what):
                for q in self.follow(o.st, 'api_KV_key', [o.val], what):
                    c.ensure(q.st, z3.And(z3.BoolVal(isinstance(q.val, Ptr) and q.val.rid == d.k.buf0), zi(q.val.off) == 8 * k[0]), what + ': Current is the entry (key)')
                for q in self.follow(o.st, 'api_KV_value', [o.val], what):
                    r = q.st.regions.get(q.val.rid) if isinstance(q.val, Ptr) else None
                    ref = r and r.meta.get('ref')
                    c.ensure(q.st, z3.And(ref[0] == d.base + k[0], ref[1] == k[1]) if ref else FALSE, what + ': Current is the entry (value)')
    def next(self, st, which, k, more):
        c = self.c; n = self.d.k.n0
        if which == 'end':
            c.ensure(st, z3.BoolVal(not more), 'Next: false ever after the last element')
            self.at(st, self.t, 'end', None, 'Next'); return
        a, b = k
        last = n == 0 if which == 'start' else z3.And(a + 1 == n, b + 1 == self.len(a))
        c.ensure(st, z3.Not(last) if more else last, 'Next: tells whether there is another element')
        if not more:
            self.at(st, self.t, 'end', None, 'Next'); return
        if which == 'start':
            self.at(st, self.t, 'element', (I(0), I(0)), 'Next'); return
        for inner in (True, False):
            s = st.copy(); s.add(b + 1 < self.len(a) if inner else b + 1 >= self.len(a))
            if c.eng.feasible(s):
                self.at(s, self.t, 'element', (a, norm(b + 1)) if inner else (norm(a + 1), I(0)), 'Next')

def rets(x, outs, what):
    r = []
    for o in outs:
        if o.kind == 'ret':
            r.append(o)
        else:
            x.c.ensure(o.st, FALSE, what + ': does not raise')
    return r
def add(name, mk, stales=(False,)):
    for which in ('start', 'element', 'end'):
        def f(track, which=which):
            for stale in (stales if which != 'element' else (False,)):
                x = mk(track); k = x.pose(which, stale); c = x.c
                for o in rets(x, c.run('api_%s_Next' % x.I, [x.t]), 'Next'):
                    x.same_container(o, 'Next')
                    for more in (True, False):
                        s = o.st.copy(); s.add(B(o.val) if more else z3.Not(B(o.val)))
                        if c.eng.feasible(s):
                            x.next(s, which, k, more)
        C24.case('%s enumerator: Next, %s' % (name, which), 'enum')(f)
        def f(track, which=which):
            for stale in (stales if which != 'element' else (False,)):
                x = mk(track); k = x.pose(which, stale); c = x.c
                for o in rets(x, c.run('api_%s_Reset' % x.I, [x.t]), 'Reset'):
                    x.same_container(o, 'Reset'); x.at(o.st, x.t, 'start', (I(-1), I(-1)) if isinstance(x, Grp) else I(-1), 'Reset')
                x = mk(track); k = x.pose(which, stale); c = x.c
                for o in rets(x, c.run('api_%s_Clone' % x.I, [x.t]), 'Clone'):
                    t2 = o.val
                    ok = isinstance(t2, Ptr) and t2.rid is not None and t2.rid != x.t.rid and t2.rid not in c.st.regions
                    c.ensure(o.st, z3.BoolVal(ok), 'Clone: another object')
                    if not ok:
                        continue
                    x.same_container(o, 'Clone', (t2.rid,)); x.at(o.st, t2, which, k, 'Clone'); x.at(o.st, x.t, which, k, 'cloned enumerator')
                    for a, b in ((t2, x.t), (x.t, t2)):
                        for q in x.follow(o.st, 'api_%s_delete' % x.I, [a], 'Clone'):
                            x.gone(q.st, a.rid, 'deletion: storage released'); x.at(q.st, b, which, k, 'after deletion of the other enumerator')
                for o in rets(x, c.run('api_%s_delete' % x.I, [x.t]), 'deletion'):
                    x.gone(o.st, x.t.rid, 'deletion: storage released'); x.same_container(o, 'deletion')
        C24.case('%s enumerator: Reset, Clone, deletion, %s' % (name, which), 'enum')(f)
    def f(track):
        x = mk(track); c = x.c
        c.st.mut(x.t.rid).alive = False
        h = set(c.st.ghost.get('heap', ())); c.st.ghost['heap'] = tuple(r for r in c.st.ghost.get('heap', ()) if r != x.t.rid)
        for o in rets(x, c.run('api_%s_enum' % x.id, [x.p]), 'CreateEnumerator'):
            ok = isinstance(o.val, Ptr) and o.val.rid is not None and o.val.rid not in c.st.regions
            c.ensure(o.st, z3.BoolVal(ok), 'CreateEnumerator: a new object')
            if ok:
                x.at(o.st, o.val, 'start', (I(-1), I(-1)) if isinstance(x, Grp) else I(-1), 'CreateEnumerator'); x.same_container(o, 'CreateEnumerator', (o.val.rid,))
    C24.case('%s: CreateEnumerator' % name, 'enum')(f)
for id, nm, cap in (('AE', 'Array', False), ('LE', 'List', True), ('KL', 'SortedList', True)):
    add(nm, lambda track, id=id, cap=cap: Arr(track, id, cap))
add('Dictionary', Dic, (False, True))
add('Group', Grp, (False, True))

# ------------------------------------------------------------------ range-based for
class RC(LC):
    def __init__(self, track):
        ex = ext(self); ex.update({'sink': self.sink, 'sink_indexed': self.sink, 'stop': self.stop})
        self.srcs = {}; self.evs = {}
        self.c = c = track(Ctx('enum', externs=ex))
        self.a = Src(self, 'E', 'a'); self.src = c.obj('SrcE')
        g = c.eng.new_struct(c.st, 'visits', 8, heap='param'); self.g = g.rid
        g.fields[(0, 'n')] = (1, I(0)); g.fields[(0, 'stopped')] = (1, FALSE)
        c.eng.contracts['AbsSrcE::CreateEnumerator() const'] = self.create
    def create(self, eng, st, a):
        eng.mute += 1
        try:
            o = eng.call_function(st, 'api_absE_new', [])
        finally:
            eng.mute -= 1
        self.put_abs(o[0].st, o[0].val, 'a', I(-1))
        return R(o[0].st, o[0].val)
    def sink(self, eng, st, a):
        r = st.mut(self.g); n = r.fields[(0, 'n')][1]
        eng.require(st, z3.Not(B(r.fields[(0, 'stopped')][1])), 'for: nothing is visited after a break')
        ok = isinstance(a[0], Ptr) and a[0].rid == self.a.rid
        eng.require(st, z3.And(zi(a[0].off) == 8 * n, n < self.a.n) if ok else FALSE, 'for: visits the elements in order')
        if len(a) > 1:
            eng.require(st, zi(a[1]) == n, 'for: index of the element')
        r.fields[(0, 'n')] = (1, norm(n + 1))
        return R(st)
    def stop(self, eng, st, a):
        b = eng.fresh(st, BOOL, 'stop'); r = st.mut(self.g)
        r.fields[(0, 'stopped')] = (1, z3.Or(B(r.fields[(0, 'stopped')][1]), b))
        return R(st, b)
for op, nm in (('for', 'for (x : sequence)'), ('for_indexed', 'for ([x, i] : indexed(sequence))')):
    for br in ('', '_break'):
        def f(track, op=op, br=br):
            X = RC(track); c = X.c
            for o in rets(X, c.run('api_' + op + br, [X.src]), 'for'):
                r = o.st.regions[X.g]; n, s = r.fields[(0, 'n')][1], B(r.fields[(0, 'stopped')][1])
                c.ensure(o.st, z3.Or(n == X.a.n, s) if br else n == X.a.n, 'for: visits every element')
                for rid in o.st.ghost.get('heap', ()):
                    if rid not in c.st.regions:
                        c.ensure(o.st, z3.BoolVal(not o.st.regions[rid].alive), 'for: the enumerator is released')
        C24.case(nm + (' with break' if br else ''), 'enum')(f)

# ------------------------------------------------------------------ GroupInnerJoin
class JC(GC):
    def ctx(self):
        return Ctx('enum', externs={'__dynamic_cast': dyncast, 'onFirst': lambda e, s, a: self.seen(e, s, a, (0,)), 'onSecond': lambda e, s, a: self.seen(e, s, a, (1,)), 'onBoth': lambda e, s, a: self.seen(e, s, a, (0, 1))}, opts=dict(cand_div=8))
    def seen(self, eng, st, a, which):
        r, l = eng.elem(st, a[0], 'key'); eng.require(st, eng.elem_get(st, r, l, 'live'), 'GroupInnerJoin: key passed is alive')
        k = keyE(eng.elem_get(st, r, l, 'v')); g = st.mut(self.g)
        for w, p in zip(which, a[1:]):
            d = self.ds[w]; n = g.fields[(0, 'n%d' % w)][1]
            eng.require(st, z3.And(n < d.k.n0, k == keyE(d.k.fn(n))), 'GroupInnerJoin: every key is visited once, in order')
            eng.require(st, z3.BoolVal(self.mine(p)) if not self.mine(p) else zi(p.off) == self.size * (d.base + n), 'GroupInnerJoin: the values of the key')
            g.fields[(0, 'n%d' % w)] = (1, norm(n + 1))
        for w in (0, 1):
            if w not in which:
                d = self.ds[w]
                eng.require_forall(st, lambda q: keyE(d.k.fn(q)) != k, 'GroupInnerJoin: a key is discarded only if the other group does not have it', lambda q: z3.And(q >= 0, q < d.k.n0))
        return R(st)
def f(track):
    X = JC(track, ('a', 'b'), 'GR'); X.seal(); c = X.c; d, e = X.ds
    g = c.eng.new_struct(c.st, 'visits', 8, heap='param'); X.g = g.rid
    g.fields[(0, 'n0')] = (1, I(0)); g.fields[(0, 'n1')] = (1, I(0))
    A = lambda i: keyE(d.k.fn(i)); B_ = lambda i: keyE(e.k.fn(i))
    c.eng.inv_templates += [('keys passed by are smaller', lambda eng, st, u, v: z3.And(u >= 0, v >= 0, u <= d.k.n0, v <= e.k.n0, z3.Implies(z3.And(u < d.k.n0, v > 0), B_(v - 1) < A(u)), z3.Implies(z3.And(v < e.k.n0, u > 0), A(u - 1) < B_(v))), 2)]
    for o in rets(X, c.run('api_join', [d.p, e.p]), 'GroupInnerJoin'):
        r = o.st.regions[X.g]
        for w in (0, 1):
            c.ensure(o.st, r.fields[(0, 'n%d' % w)][1] == X.ds[w].k.n0, 'GroupInnerJoin: every key is visited')
            X.check(o, X.ds[w], (X.ds[w].k.pre, X.ds[w].v.pre), 'GroupInnerJoin: groups unchanged', more=[X.ds[1 - w]])
        X.slots(o, X.base_alloc(), lambda k: X.seq0(k), 'GroupInnerJoin: groups unchanged')
C24.case('GroupInnerJoin', 'enum')(f)
