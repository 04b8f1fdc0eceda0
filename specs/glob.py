"""C20 global storages: initialised at first use, finalised once, all reached by FinalizeGlobalStorage."""
import z3
from vir.spec import *
from vir.runner import Property

C20 = Property('C20'); PROPERTIES = [C20]
C20.driver = 'glob'
C20.assumptions = ['the resource functions written by the user return and do not register or destroy storages', 'accesses to one storage do not race with each other (the accessor initialises without a lock)']

class GC:
    def __init__(self, track):
        self.calls = []
        ex = {'user_initialize': self.user('init'), 'user_finalize': self.user('fin'),
              '__cxa_guard_acquire': self.acquire, '__cxa_guard_release': self.release, '__cxa_guard_abort': lambda e, s, a: R(s), '__cxa_atexit': lambda e, s, a: R(s, I(0))}
        self.c = c = track(Ctx('global', externs=ex))
        self.fam = None
        self.first = c.helper('first_ptr'); self.last = c.helper('last_ptr')
        for p in (self.first, self.last):
            c.eng.global_region(c.st, c.st.regions[p.rid].meta['global'])
    def user(self, what):
        def f(eng, st, a):
            p = a[0]
            if not isinstance(p, Ptr) or p.rid is None:
                raise Unsupported('storage')
            if self.fam is not None and p.rid == self.fam:
                r, loc = eng.resolve(st, p, 'user function')
                eng.require(st, z3.BoolVal(loc[2] == 0), 'user function called on the storage')
                k = loc[1]; r = st.mut(r.rid)
                eng.require(st, (r.lanes[(self.oi, 'raw')](k) != 0) == z3.BoolVal(what == 'init'), 'storage already marked when the user function runs')
                r.lanes[(0, what)] = r.lanes[(0, what)].write(k, r.lanes[(0, what)](k) + 1)
            else:
                st.ghost[what] = st.ghost.get(what, ()) + ((p.rid, p.off),)
                v = B(eng.load(st, ('int', 8), Ptr(p.rid, p.off + self.c.field('S', 'initialized', Ptr(p.rid, 0)) if p.off == 0 else None), 'initialized'))
                eng.require(st, v == z3.BoolVal(what == 'init'), 'storage already marked when the user function runs')
            return R(st)
        return f
    def acquire(self, eng, st, a):
        g = eng.load(st, ('int', 8), a[0], 'guard'); s0, s1 = st.copy(), st
        s0.add(g != 0); s1.add(g == 0)
        return [Outcome(s, 'ret', I(x)) for s, x in ((s0, 0), (s1, 1)) if eng.feasible(s)]
    def release(self, eng, st, a):
        eng.store(st, ('int', 8), I(1), a[0]); return R(st)
    def storage(self, state=None):
        """a constructed storage in the given (or any) state"""
        c = self.c; p = c.obj('S')
        o = c.field('S', 'initialized', p); v = z3.Bool('initialized') if state is None else z3.BoolVal(state)
        c.st.mut(p.rid).fields[o] = (1, z3.If(v, I(1), I(0)))
        return p, v
    def flag(self, st, p):
        return B(self.c.eng.load(st, ('int', 8), Ptr(p.rid, self.c.field('S', 'initialized', p)), 'initialized'))
    def counts(self, o, p, i, f, what):
        c = self.c
        for k, n in (('init', i), ('fin', f)):
            g = o.st.ghost.get(k, ())
            c.ensure(o.st, z3.And(z3.BoolVal(all(x == (p.rid, 0) for x in g)), n == I(len(g))), '%s: number of %s' % (what, {'init': 'initialisations', 'fin': 'finalisations'}[k]))
def case(nm, f):
    C20.case(nm, 'global')(f)
ONE, ZERO = I(1), I(0)
for op, post in (('init', True), ('fin', False)):
    def f(track, op=op, post=post):
        X = GC(track); c = X.c; p, v = X.storage()
        for o in c.run('api_' + op, [p]):
            c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'returns')
            X.counts(o, p, z3.If(v, ZERO, ONE) if post else ZERO, ZERO if post else z3.If(v, ONE, ZERO), op)
            c.ensure(o.st, X.flag(o.st, p) == z3.BoolVal(post), op + ': state afterwards')
    case({'init': 'EnsureInitialized', 'fin': 'EnsureFinalized'}[op], f)
def f(track):
    X = GC(track); c = X.c; p, v = X.storage()
    for o in c.run('api_is', [p]):
        c.ensure(o.st, B(o.val) == v, 'IsInitialized'); X.counts(o, p, ZERO, ZERO, 'IsInitialized')
case('IsInitialized', f)
def f(track):
    X = GC(track); c = X.c; p, v = X.storage()
    for o in c.run('api_drop', [p]):
        c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'returns')
        X.counts(o, p, ZERO, z3.If(v, ONE, ZERO), 'destructor')
case('destructor of a storage', f)
for empty in (True, False):
    def f(track, empty=empty):
        X = GC(track); c = X.c; eng = c.eng
        od = c.field('D', 'next', c.obj('D', construct=False)); og = c.field('D', 'globalStorage', c.obj('D', construct=False))
        L = eng.new_struct(c.st, 'last descriptor', 16, heap='param'); other = eng.new_struct(c.st, 'first storage', 24, heap='param'); s = c.st
        L.fields[od] = (8, NULL); L.fields[og] = (8, Ptr(other.rid, 0))
        if empty:
            s.mut(X.first.rid).fields[X.first.off] = (8, NULL); s.mut(X.last.rid).fields[X.last.off] = (8, X.first)
        else:
            s.mut(X.first.rid).fields[X.first.off] = (8, Ptr(other.rid, 16)); s.mut(X.last.rid).fields[X.last.off] = (8, Ptr(L.rid, od))
        p = c.obj('S', construct=False)
        for o in c.run('api_make', [p]):
            c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'returns')
            d = Ptr(p.rid, c.field('S', 'next', p) - od)
            ld = lambda q: eng.load(o.st, ('ptr',), q, 'link')
            same = lambda a, b: z3.BoolVal(isinstance(a, Ptr) and a.rid == b.rid and const_of(a.off) == const_of(b.off) and z3.is_false(z3.simplify(a.null)))
            link = ld(X.first) if empty else ld(Ptr(L.rid, od))
            c.ensure(o.st, same(link, d), 'registration: the new storage follows the last one')
            nx = ld(Ptr(d.rid, d.off + od))
            c.ensure(o.st, z3.BoolVal(isinstance(nx, Ptr) and nx.rid is None), 'registration: the new storage is the last one')
            c.ensure(o.st, same(ld(X.last), Ptr(d.rid, d.off + od)), 'registration: the next one will follow')
            c.ensure(o.st, same(ld(Ptr(d.rid, d.off + og)), Ptr(p.rid, 0)), 'registration: the descriptor names the storage')
            if not empty:
                c.ensure(o.st, same(ld(X.first), Ptr(other.rid, 16)), 'registration: earlier storages stay registered')
                c.ensure(o.st, same(ld(Ptr(L.rid, og)), Ptr(other.rid, 0)), 'registration: earlier storages stay registered')
            X.counts(o, p, ZERO, ZERO, 'constructor'); c.ensure(o.st, z3.Not(X.flag(o.st, p)), 'constructor: not initialised')
    case('constructor of a storage [%s]' % ('first one' if empty else 'after others'), f)
def f(track):
    X = GC(track); c = X.c; eng = c.eng
    p = c.obj('S'); S = c.st.regions[p.rid]
    X.oi = c.field('S', 'initialized', p); d0 = c.obj('D', construct=False); od = c.field('D', 'next', d0); og = c.field('D', 'globalStorage', d0)
    n = z3.Int('storages'); st = c.st; st.add(z3.And(n >= 0, n <= BIG)); ini = z3.Function('was.initialized', INT, BOOL)
    fam = eng.new_array(st, 'storages', S.size, n, heap='param'); X.fam = fam.rid
    fam.lanes[(X.oi, 'raw')] = base_lane(lambda k: z3.If(ini(zi(k)), I(1), I(0)), 1)
    fam.lanes[(0, 'live')] = base_lane(lambda k: TRUE); fam.lanes[(0, 'init')] = base_lane(lambda k: I(0)); fam.lanes[(0, 'fin')] = base_lane(lambda k: I(0))
    fam.meta[('vptr', 0)] = S.fields[0][1]
    ds = eng.new_array(st, 'descriptors', 16, n, heap='param')
    ds.lanes[(od, 'raw')] = base_lane(lambda k: zi(k) + 1, 8); ds.lanes[(og, 'raw')] = base_lane(lambda k: zi(k), 8)
    dr, fr, sz = ds.rid, fam.rid, S.size
    ds.meta[('dec', od)] = lambda eng, st, v: Ptr(dr, norm(16 * v), z3.simplify(nullat(zi(norm(16 * v)))))
    ds.meta[('dec', og)] = lambda eng, st, v: Ptr(fr, norm(sz * v))
    nullat = lambda off: off == 16 * n
    ds.meta['nullat'] = nullat
    st.add(z3.Int('base!%d' % dr) > 0)
    st.mut(X.first.rid).fields[X.first.off] = (8, Ptr(dr, 0, z3.simplify(nullat(I(0)))))
    for o in c.run('api_finall', []):
        c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'returns')
        r = o.st.regions[fr]; inn = lambda k: z3.And(k >= 0, k < n)
        c.ensure_forall(o.st, lambda k: r.lanes[(0, 'fin')](k) == z3.If(ini(k), I(1), I(0)), 'FinalizeGlobalStorage: every initialised storage is finalised once, no other', inn)
        c.ensure_forall(o.st, lambda k: r.lanes[(0, 'init')](k) == 0, 'FinalizeGlobalStorage: nothing is initialised', inn)
        c.ensure_forall(o.st, lambda k: r.lanes[(X.oi, 'raw')](k) == 0, 'FinalizeGlobalStorage: no storage stays initialised', inn)
case('FinalizeGlobalStorage', f)
def f(track):
    X = GC(track); c = X.c; eng = c.eng
    for o in c.run('api_get', []):
        c.ensure(o.st, z3.BoolVal(o.kind == 'ret' and isinstance(o.val, Ptr) and o.val.rid is not None and z3.is_false(z3.simplify(o.val.null))), 'accessor: gives a storage')
        p = o.val
        X.counts(o, p, ONE, ZERO, 'first access'); c.ensure(o.st, X.flag(o.st, p), 'first access: initialised')
        for again in (True, False):
            s = o.st.copy(); s.ghost.pop('init', None)
            s.mut(p.rid).fields[c.field('S', 'initialized', p)] = (1, I(1 if again else 0))
            for q in c.run('api_get', [], st=s):
                c.ensure(q.st, z3.BoolVal(q.kind == 'ret' and isinstance(q.val, Ptr) and (q.val.rid, q.val.off) == (p.rid, p.off)), 'accessor: always the same storage')
                X.counts(q, p, ZERO if again else ONE, ZERO, 'later access'); c.ensure(q.st, X.flag(q.st, p), 'later access: initialised')
                l = eng.load(q.st, ('ptr',), X.last, 'link')
                c.ensure(q.st, z3.BoolVal(isinstance(l, Ptr) and l.rid == p.rid), 'later access: registered once')
case('accessor', f)
