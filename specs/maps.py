"""C04 Dictionary is a sorted map, C05 Group is a multimap."""
import z3
from vir.spec import *
from vir.spec import _live
from vir.lcontract import *
from vir.runner import Property
from specs.sorted import C03
from specs.lists import C01

C04 = Property('C04')
PROPERTIES = [C04]
C04.driver = 'maps'
C04.assumptions = ['counts at most 2^40; malloc succeeds; <=> of the key type is a total preorder (documented requirement); keys equal under <=> are the same key',
                   'element operations do not throw and do not touch the container; one opaque key and one opaque value type stand for all',
                   'List and SortedList operations are used by contract; the contracts are the ones discharged against their bodies, which this check runs again (cases of C01/C03)']
NS = 'vl::collections::'

class MC:
    def ctx(self):
        return Ctx('map')
    def __init__(self, track, names=('d',), id='DI', alias=False):
        c = self.c = track(self.ctx())
        self.id = id
        self.offs = list_offsets(c, 'KL')
        if list_offsets(c, 'VL') != self.offs:
            raise Unsupported('list layouts differ')
        lc = self.lc = ListContracts(self.offs)
        E, F = '<E>::', '<F>::'
        c.eng.contracts.update({
            NS + 'SortedList<E>::IndexOf(E const&) const': lc.sorted_indexof(),
            NS + 'SortedList<E>::Add(E const&)': lc.sorted_add(False), NS + 'SortedList<E>::Add(E&&)': lc.sorted_add(True),
            NS + 'List<F>::Insert(long, F const&)': lc.insert(False), NS + 'List<F>::Insert(long, F&&)': lc.insert(True),
            NS + 'ListBase<E>::RemoveAt(long)': lc.removeat(), NS + 'ListBase<F>::RemoveAt(long)': lc.removeat(),
            NS + 'ListBase<E>::Clear()': lc.clear(), NS + 'ListBase<F>::Clear()': lc.clear()})
        self.ds = []
        for nm in names:
            self.ds.append(self.dict(nm))
        self.d = self.ds[0]
    def dict(self, nm):
        c = self.c
        class D: pass
        d = D(); d.name = nm
        d.p = c.obj(self.id)
        ok = c.field(self.id, 'keys', d.p); ov = c.field(self.id, 'values', d.p)
        d.k = ListAt(c, Ptr(d.p.rid, d.p.off + ok), self.offs, Opaque, nm + '.keys')
        d.v = ListAt(c, Ptr(d.p.rid, d.p.off + ov), self.offs, Opaque, nm + '.values')
        c.st.add(d.k.n0 == d.v.n0)
        i, j = z3.Ints('i! j!')
        f = d.k.fn
        c.st.add(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < d.k.n0), keyE(f(i)) < keyE(f(j))), patterns=[z3.MultiPattern(f(i), f(j))]))
        d.pre = (d.k.pre, d.v.pre)
        return d
    def check(self, o, d, want, what, more=(), strict=True):
        """d holds want = (keys, values); keys strictly ascending"""
        c = self.c; st = o.st
        keep = [x.rep(st)[0].rid for e in [d] + list(more) for x in (e.k, e.v)]
        d.k.check(o, want[0], what + ' (keys)', keep_heap=keep)
        d.v.check(o, want[1], what + ' (values)', keep_heap=keep)
        if strict:
            n = d.k.rep(st)[1]; buf = d.k.rep(st)[0]
            if buf.rid is not None:
                i = z3.FreshConst(INT, 'i'); s = st.copy(); s.add(z3.And(i >= 0, i + 1 < n))
                c.ensure(s, keyE(Opaque.val(c.eng, s, buf.rid, i)) < keyE(Opaque.val(c.eng, s, buf.rid, i + 1)), what + ': keys strictly ascending')
    def ins(self, d, i, kv, vv):
        f, g = d.k.fn, d.v.fn; n = d.k.n0
        I_ = lambda h, x: Seq(n + 1, lambda k: z3.If(k < i, h(zi(k)), z3.If(k == i, x, h(zi(k) - 1))))
        return I_(f, kv), I_(g, vv)
    def rem(self, d, i):
        f, g = d.k.fn, d.v.fn; n = d.k.n0
        R_ = lambda h: Seq(n - 1, lambda k: z3.If(k < i, h(zi(k)), h(zi(k) + 1)))
        return R_(f), R_(g)
    def upd(self, d, i, vv):
        g = d.v.fn
        return d.k.pre, Seq(d.k.n0, lambda k: z3.If(k == i, vv, g(zi(k))))
    def present(self, o, d, kv):
        """index term of kv on this path, or None when absent"""
        return self.find(o, d.k.fn, d.k.n0, kv)
    def find(self, o, f, n, kv):
        eng = self.c.eng; st = o.st
        hit = lambda w, rl=None: eng.valid(st, z3.And(w >= 0, w < n, keyE(f(w)) == keyE(kv)), rl)
        for w in reversed(st.ghost.get('found', ())):
            if hit(w, 2_000_000):
                return w
        q = z3.FreshConst(INT, 'q')
        s = st.copy(); s.add(z3.And(q >= 0, q < n))
        if eng.valid(s, keyE(f(q)) != keyE(kv)):
            return None
        for w in int_terms(st.pc):
            if hit(w, 2_000_000):
                return w
        raise Unsupported('presence of the key is not decided on this path')

def case(name, f, P=None):
    for p in P or (C04,):
        p.case(name, 'map')(f)

def obs(X, outs, d, what, f):
    for o in outs:
        X.check(o, d, d.pre, what + ': unchanged')
        f(o)

def ret_only(X, outs, what):
    r = []
    for o in outs:
        if o.kind == 'ret':
            r.append(o)
        else:
            X.c.ensure(o.st, FALSE, what + ': does not raise')
    return r

D_ = 'Dictionary<E, F>::'
def f(track):
    X = MC(track); d = X.d
    obs(X, ret_only(X, X.c.run('api_DI_Count', [d.p]), 'Count'), d, 'Count', lambda o: X.c.ensure(o.st, o.val == d.k.n0, 'Count: number of keys'))
    for nm, l in (('Keys', d.k), ('Values', d.v)):
        obs(X, ret_only(X, X.c.run('api_DI_' + nm, [d.p]), nm), d, nm, lambda o: X.c.ensure(o.st, z3.BoolVal(isinstance(o.val, Ptr) and o.val.rid == l.p.rid and o.val.off == l.p.off), nm + ': the container'))
case(D_ + 'Count, Keys, Values', f)
for op in ('Get', 'at'):
    def f(track, op=op):
        X = MC(track); d = X.d; c = X.c
        k, kv = c.elem('key')
        for o in c.run('api_DI_' + op, [d.p, k]):
            X.check(o, d, d.pre, 'lookup: unchanged')
            w = X.present(o, d, kv)
            if o.kind == 'throw':
                c.ensure(o.st, z3.BoolVal(c.is_error(o) and w is None), 'lookup: raises Error only for an absent key')
            else:
                c.ensure(o.st, z3.BoolVal(w is not None), 'lookup: returns only for a present key')
                v = o.val
                if w is not None:
                    c.ensure(o.st, z3.And(z3.BoolVal(isinstance(v, Ptr) and v.rid == d.v.buf0), zi(v.off) == 8 * w), 'lookup: the value stored for the key')
    case(D_ + ('Get(key)' if op == 'Get' else 'operator[](key)'), f)
for op in ('Set', 'Add'):
    for m in ('cc', 'cm', 'mc', 'mm', 'pc', 'pm'):
        if op == 'Set' and m[0] == 'p':
            continue
        def f(track, op=op, m=m):
            X = MC(track); d = X.d; c = X.c
            if m[0] == 'p':
                sz = const_of(c.helper('sz_PR')); r = c.eng.new_struct(c.st, 'pair', sz, heap='param')
                pp = Ptr(r.rid, 0); o1, o2 = c.field('PR', 'key', pp), c.field('PR', 'value', pp)
                kv, vv = z3.Int('pair.key'), z3.Int('pair.value')
                r = c.st.mut(r.rid)
                for of, x in ((o1, kv), (o2, vv)):
                    r.fields[(of, 'live')] = (1, TRUE); r.fields[(of, 'v')] = (1, x)
                k, v = Ptr(r.rid, o1), Ptr(r.rid, o2)
                args = [d.p, pp]; mk = mv = m[1] == 'm'
            else:
                k, kv = c.elem('key'); v, vv = c.elem('value')
                args = [d.p, k, v]; mk, mv = m[0] == 'm', m[1] == 'm'
            def val(o, p):
                r, loc = c.eng.elem(o.st, p, 'argument')
                return c.eng.elem_get(o.st, r, loc, 'v')
            for o in c.run('api_DI_%s_%s' % (op, m), args):
                w = X.present(o, d, kv)
                if o.kind == 'throw':
                    c.ensure(o.st, z3.BoolVal(c.is_error(o) and op == 'Add' and w is not None), op + ': raises Error only for Add of a present key')
                    X.check(o, d, d.pre, op + ': unchanged after Error')
                    c.ensure(o.st, z3.And(val(o, k) == kv, val(o, v) == vv), op + ': arguments unchanged after Error')
                    continue
                c.ensure(o.st, B(o.val), op + ': returns true')
                if w is not None:
                    c.ensure(o.st, z3.BoolVal(op == 'Set'), op + ': Add refuses a present key')
                    if op == 'Set':
                        X.check(o, d, X.upd(d, w, vv), 'Set of a present key replaces its value')
                else:
                    X.found = None
                    n2 = d.k.rep(o.st)[1]
                    i = place(X, o, d.k, kv)
                    X.check(o, d, X.ins(d, i, kv, vv), op + ' of a new key')
                if not mk:
                    c.ensure(o.st, val(o, k) == kv, op + ': key argument not changed')
                if not mv:
                    c.ensure(o.st, val(o, v) == vv, op + ': value argument not changed')
        case(D_ + '%s [%s]' % (op, {'cc': 'const key, const value', 'cm': 'const key, moved value', 'mc': 'moved key, const value', 'mm': 'moved key, moved value', 'pc': 'const pair', 'pm': 'moved pair'}[m]), f)
def place(X, o, L, kv):
    """index where kv is stored in the post state"""
    st = o.st; eng = X.c.eng
    buf, n, cap = L.rep(st)
    if buf.rid is None:
        raise Unsupported('no key storage')
    for w in [I(0)] + int_terms(st.pc):
        if eng.valid(st, z3.And(w >= 0, w < n, Opaque.val(eng, st, buf.rid, w) == kv)):
            return w
    X.c.ensure(st, FALSE, 'new key is stored')
    raise Unsupported('new key not found')
# value argument is one of the own values
for op in ('Set', 'Add'):
    def f(track, op=op):
        X = MC(track); d = X.d; c = X.c
        k, kv = c.elem('key'); j = c.int('j'); c.st.add(z3.And(j >= 0, j < d.k.n0))
        for o in c.run('api_DI_%s_cc' % op, [d.p, k, Ptr(d.v.buf0, norm(8 * j))]):
            w = X.present(o, d, kv)
            if o.kind == 'throw':
                c.ensure(o.st, z3.BoolVal(c.is_error(o) and op == 'Add' and w is not None), op + ': raises Error only for Add of a present key')
                X.check(o, d, d.pre, op + ': unchanged after Error'); continue
            if w is not None:
                c.ensure(o.st, z3.BoolVal(op == 'Set'), op + ': Add refuses a present key')
                X.check(o, d, X.upd(d, w, d.v.fn(j)), 'Set of a present key to an own value')
            else:
                X.check(o, d, X.ins(d, place(X, o, d.k, kv), kv, d.v.fn(j)), op + ' of a new key with an own value')
    case(D_ + op + ' [value stored in the dictionary itself]', f)
def f(track):
    X = MC(track); d = X.d; c = X.c
    k, kv = c.elem('key')
    for o in ret_only(X, c.run('api_DI_Remove', [d.p, k]), 'Remove'):
        w = X.present(o, d, kv)
        c.ensure(o.st, B(o.val) == z3.BoolVal(w is not None), 'Remove: true exactly for a present key')
        X.check(o, d, d.pre if w is None else X.rem(d, w), 'Remove')
case(D_ + 'Remove(key)', f)
def f(track):
    X = MC(track); d = X.d; c = X.c
    j = c.int('j'); c.st.add(z3.And(j >= 0, j < d.k.n0))
    for o in ret_only(X, c.run('api_DI_Remove', [d.p, Ptr(d.k.buf0, norm(8 * j))]), 'Remove'):
        c.ensure(o.st, B(o.val), 'Remove: true for a present key')
        X.check(o, d, X.rem(d, j), 'Remove of an own key')
case(D_ + 'Remove [key stored in the dictionary itself]', f)
def f(track):
    X = MC(track); d = X.d; c = X.c
    for o in ret_only(X, c.run('api_DI_Clear', [d.p]), 'Clear'):
        c.ensure(o.st, B(o.val), 'Clear: returns true')
        X.check(o, d, (Seq(I(0), d.k.fn), Seq(I(0), d.v.fn)), 'Clear')
case(D_ + 'Clear()', f)
def f(track):
    X = MC(track); d = X.d; c = X.c
    for o in ret_only(X, c.run('api_DI_dtor', [d.p]), 'destructor'):
        for rid, cap in ((d.k.buf0, d.k.cap0), (d.v.buf0, d.v.cap0)):
            if o.st.regions[rid].alive:
                c.ensure(o.st, cap == 0, 'destructor: storage released')
        for rid in o.st.ghost.get('heap', ()):
            c.ensure(o.st, z3.BoolVal(not o.st.regions[rid].alive), 'destructor: no storage leaked')
case(D_ + '~Dictionary()', f)
def moved_into(X, o, d, src, what):
    """d now holds what src held"""
    c = X.c; st = o.st
    for a, b, nm in ((d.k, src.k, 'keys'), (d.v, src.v, 'values')):
        buf, n, cap = a.rep(st)
        c.ensure(st, n == b.n0, what + ': number of ' + nm)
        if buf.rid is None:
            c.ensure(st, b.n0 == 0, what + ': ' + nm)
        else:
            c.ensure(st, z3.BoolVal(st.regions[buf.rid].alive), what + ': storage of %s not released' % nm)
            c.ensure_forall(st, lambda k: z3.And(Opaque.live(c.eng, st, buf.rid, k), Opaque.val(c.eng, st, buf.rid, k) == b.fn(zi(k))), what + ': ' + nm, lambda k: z3.And(k >= 0, k < n))
        sb, sn, sc = b.rep(st)
        c.ensure(st, z3.And(zi(sn) == 0), what + ': source is empty')
        if sb.rid is not None:
            c.ensure(st, z3.Or(sb.null, z3.BoolVal(sb.rid != buf.rid)), what + ': source does not share storage')
def f(track):
    X = MC(track, ('s',)); s = X.d; c = X.c
    class D: pass
    r = c.eng.new_struct(c.st, 'target', const_of(c.helper('sz_DI')), heap='param')
    d = X.dict('t')
    # construct over raw storage with the same layout
    raw = Ptr(r.rid, 0)
    for o in ret_only(X, c.run('api_DI_mctor', [raw, s.p]), 'move construction'):
        for l in (d.k, d.v):
            pass
        dk = _at(d.k, d.p, raw); dv = _at(d.v, d.p, raw)
        e = D(); e.k, e.v = dk, dv
        moved_into(X, o, e, s, 'move construction')
def _at(l, p, q):
    class V(ListAt):
        def __init__(self): pass
    v = V(); v.__dict__.update(l.__dict__); d = q.off - p.off
    v.p = Ptr(q.rid, l.p.off + d); v.ob, v.oc, v.ocap = l.ob + d, l.oc + d, l.ocap + d
    return v
case(D_ + 'Dictionary(Dictionary&&)', f)
def f(track):
    X = MC(track, ('d', 's')); d, s = X.ds; c = X.c
    for o in ret_only(X, c.run('api_DI_massign', [d.p, s.p]), 'move assignment'):
        moved_into(X, o, d, s, 'move assignment')
        for l in (d.k, d.v):
            if o.st.regions[l.buf0].alive:
                c.ensure(o.st, l.cap0 == 0, 'move assignment: old storage released')
case(D_ + 'operator=(Dictionary&&)', f)
OWNCASES = list(C04.cases)
for p in (C03, C01):
    for cs in p.cases:
        if 'Array<' not in cs.name and 'long>' not in cs.name:
            C04.cases.append(cs)

# ------------------------------------------------------------------ Group
C05 = Property('C05')
PROPERTIES.append(C05)
C05.driver = 'maps'
C05.assumptions = C04.assumptions + ['the value lists are used through their contracts (sequences); no other reference into a value list exists during a call that changes it',
                                     'List<List<V>*> behaves as List<long> (trivially copyable 8-byte elements, discharged in C01)']
slen = z3.Function('seq.length', INT, INT); sat = z3.Function('seq.at', INT, INT, INT)
EMPTYSEQ = z3.Const('seq.empty', INT)

class Handle:
    """elements are pointers to value lists: slot numbers of the list family"""
    name = 'ptr'; stride = 8; ptr = True
    @staticmethod
    def fill(eng, st, r, vfn, livefn, off=0):
        r.lanes[(off, 'raw')] = base_lane(vfn, 8)
        r.lanes[(off, 'init')] = base_lane(livefn)
    val = Raw64.val; live = Raw64.live

class PtrListContracts(ListContracts):
    def __init__(self, offs, fam, size):
        ListContracts.__init__(self, offs, Handle); self.fam = fam; self.size = size
    def enc(self, eng, st, v):
        if not isinstance(v, Ptr) or v.rid != self.fam:
            raise Unsupported('pointer of another family')
        i, rem = split(v.off, self.size)
        if rem:
            raise Unsupported('pointer into a list object')
        return zi(i)

class GC(MC):
    def dict(self, nm):
        c = self.c; st = c.st; eng = c.eng
        class D: pass
        d = D(); d.name = nm
        d.p = c.obj(self.id)
        ok = c.field(self.id, 'keys', d.p); ov = c.field(self.id, 'values', d.p)
        d.k = ListAt(c, Ptr(d.p.rid, d.p.off + ok), self.offs, Opaque, nm + '.keys')
        d.v = ListAt(c, Ptr(d.p.rid, d.p.off + ov), self.offs, Handle, nm + '.lists')
        c.st.add(d.k.n0 == d.v.n0)
        n = d.k.n0
        size = self.size = const_of(c.helper('sz_VL'))
        if not hasattr(self, 'fam'):
            vt = c.obj('VL')                      # gives the vtable pointers of a list object
            self.vptrs = {o: v for o, v in c.st.regions[vt.rid].fields.items() if isinstance(o, int) and v[0] == 8 and isinstance(v[1], Ptr) and v[1].rid is not None}
            self.F = z3.Int('family.size')
            r = eng.new_array(c.st, 'value lists', size, self.F + 1, heap='family')
            self.fam = r.rid; self.base = I(0)
            self.seq0 = z3.Function('list.value', INT, INT)
            r = c.st.mut(self.fam)
            r.lanes[(0, 'alloc')] = base_lane(lambda k: z3.And(zi(k) >= 0, zi(k) < self.F))
            r.lanes[(0, 'live')] = base_lane(lambda k: z3.And(zi(k) >= 0, zi(k) < self.F))
            r.lanes[(0, 'v')] = base_lane(lambda k: self.seq0(zi(k)))
            r.meta['family'] = self
            self.next = self.F
            for o, v in self.vptrs.items():
                r.meta[('vptr', o)] = v[1]
            lc = self.plc = PtrListContracts(self.offs, self.fam, size)
            q = z3.Int('q!seq')
            c.st.add(z3.ForAll([q], z3.And(slen(self.seq0(q)) >= 1, slen(self.seq0(q)) <= BIG), patterns=[self.seq0(q)]))
            c.st.add(slen(EMPTYSEQ) == 0)
            self.total = I(0)
            L = NS + 'List<%s>' % (NS + 'List<F>*')
            LB = NS + 'ListBase<%s>' % (NS + 'List<F>*')
            eng.contracts.update({
                L + '::Insert(long, %sList<F>* const&)' % NS: lc.insert(False), L + '::Insert(long, %sList<F>*&&)' % NS: lc.insert(True),
                LB + '::RemoveAt(long)': lc.removeat(), LB + '::Clear()': lc.clear(),
                NS + 'List<F>::List()': self.v_ctor, NS + 'List<F>::~List()': self.v_dtor, '_ZN2vl11collections4ListI1FED0Ev': self.v_delete,
                NS + 'List<F>::Add(F const&)': self.v_add(False), NS + 'List<F>::Add(F&&)': self.v_add(True),
                NS + 'List<F>::IndexOf(F const&) const': self.v_indexof, NS + 'List<F>::Remove(F const&)': self.v_remove,
                NS + 'List<F>::Contains(F const&) const': self.v_contains,
                NS + 'ArrayBase<F>::Count() const': self.v_count, NS + 'ListBase<F>::Clear()': self.v_clear, NS + 'ListBase<F>::RemoveAt(long)': self.v_removeat,
                NS + 'List<F>::Insert(long, F const&)': self.v_insert(False), NS + 'List<F>::Insert(long, F&&)': self.v_insert(True)})
            eng.opts['alloc_hook'] = self.alloc
            eng.opts['release_hook'] = self.release
        # WLOG the list of key i of this group lives in slot base + i
        base = self.total
        c.st.add(self.F >= base + n)
        d.base = base
        self.total = base + n
        r = c.st.mut(d.v.buf0)
        r.lanes[(0, 'raw')] = base_lane(lambda k: base + zi(k), 8)
        fam, sz = self.fam, size
        r.meta[('dec', 0)] = lambda eng, st, v: Ptr(fam, norm(sz * v))
        r.meta[('enc', 0)] = lambda eng, st, p: self.plc.enc(eng, st, p)
        d.v.fn = lambda k: base + zi(k)
        d.v.pre = Seq(n, d.v.fn)
        i, j = z3.Ints('i! j!')
        f = d.k.fn
        c.st.add(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < d.k.n0), keyE(f(i)) < keyE(f(j))), patterns=[z3.MultiPattern(f(i), f(j))]))
        return d
    def seal(self):
        self.c.st.add(self.F == self.total)
    # ---- allocation of list objects
    def alloc(self, eng, st, size, how):
        if how != 'new' or const_of(size) != self.size:
            return None
        if st.ghost.get('newlist'):
            raise Unsupported('second list allocation')
        st.ghost['newlist'] = True
        r = st.mut(self.fam)
        r.lanes[(0, 'alloc')] = r.lanes[(0, 'alloc')].write(self.F, TRUE)
        return Ptr(self.fam, norm(self.size * self.F))
    def release(self, eng, st, p, how):
        if not isinstance(p, Ptr) or p.rid != self.fam:
            return False
        i, rem = split(p.off, self.size)
        r = st.regions[self.fam]
        eng.require(st, zi(p.off) == self.size * zi(i), 'release: pointer is the start of the allocation')
        eng.require(st, r.lanes[(0, 'alloc')](i), 'release: no double release (value list)')
        eng.require(st, z3.Not(r.lanes[(0, 'live')](i)), 'release: every element was destroyed')
        r = st.mut(self.fam)
        r.lanes[(0, 'alloc')] = r.lanes[(0, 'alloc')].write(i, FALSE)
        return True
    def mine(self, p):
        return isinstance(p, Ptr) and p.rid == self.fam
    def at(self, eng, st, p, what, live=True):
        r, loc = eng.resolve(st, p, what)
        if loc[0] != 'a' or loc[2] != 0:
            raise Unsupported('pointer into a list object')
        eng.require(st, r.lanes[(0, 'alloc')](loc[1]), what + ': allocated value list')
        l = r.lanes[(0, 'live')](loc[1])
        eng.require(st, l if live else z3.Not(l), what + (' on a live object' if live else ' on raw storage'))
        return loc, r.lanes[(0, 'v')](loc[1])
    def put(self, eng, st, loc, v=None, live=None):
        r = st.mut(self.fam)
        if v is not None:
            r.lanes[(0, 'v')] = r.lanes[(0, 'v')].write(loc[1], v)
        if live is not None:
            r.lanes[(0, 'live')] = r.lanes[(0, 'live')].write(loc[1], live)
    def v_ctor(self, eng, st, a):
        if not self.mine(a[0]):
            return None
        loc, _ = self.at(eng, st, a[0], 'value list constructor', False)
        self.put(eng, st, loc, EMPTYSEQ, TRUE)
        return R(st)
    def v_dtor(self, eng, st, a):
        if not self.mine(a[0]):
            return None
        loc, _ = self.at(eng, st, a[0], 'value list destructor')
        self.put(eng, st, loc, None, FALSE)
        return R(st)
    def v_delete(self, eng, st, a):
        if not self.mine(a[0]):
            return None
        self.v_dtor(eng, st, a)
        self.release(eng, st, a[0], 'new')
        return R(st)
    def newseq(self, eng, st, n, fn):
        s = eng.fresh(st, INT, 'seq')
        st.add(z3.And(slen(s) == n, n <= BIG))
        q = z3.Int('q!ns')
        st.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), sat(s, q) == fn(q)), patterns=[sat(s, q)]))
        return s
    def v_add(self, move):
        def f(eng, st, a):
            if not self.mine(a[0]):
                return None
            loc, s = self.at(eng, st, a[0], 'value list Add')
            r, l = _live(eng, st, a[1], 'Add argument')
            x = eng.elem_get(st, r, l, 'v')
            n = slen(s)
            t = self.newseq(eng, st, n + 1, lambda k: z3.If(k == n, x, sat(s, k)))
            self.put(eng, st, loc, t)
            if move:
                eng.elem_set(st, r, l, 'v', mvE(x))
            return R(st, n)
        return f
    def v_insert(self, move):
        def f(eng, st, a):
            if not self.mine(a[0]):
                return None
            loc, s = self.at(eng, st, a[0], 'value list Insert')
            r, l = _live(eng, st, a[2], 'Insert argument')
            x = eng.elem_get(st, r, l, 'v'); i = a[1]
            n = slen(s)
            eng.require(st, z3.And(zi(i) >= 0, zi(i) <= n), 'value list Insert: index in range')
            t = self.newseq(eng, st, n + 1, lambda k: z3.If(k < i, sat(s, k), z3.If(k == i, x, sat(s, k - 1))))
            self.put(eng, st, loc, t)
            if move:
                eng.elem_set(st, r, l, 'v', mvE(x))
            return R(st, i)
        return f
    def split_find(self, eng, st, s, x):
        """-> (state with first occurrence, index, state without occurrence)"""
        n = slen(s); q = z3.Int('q!vf')
        a = st.copy(); b = st
        i = eng.fresh(a, INT, 'first_value')
        a.add(z3.And(i >= 0, i < n, eqE(sat(s, i), x)))
        a.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < i), z3.Not(eqE(sat(s, q), x))), patterns=[sat(s, q)]))
        b.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.Not(eqE(sat(s, q), x))), patterns=[sat(s, q)]))
        a.ghost['vfound'] = (s, i, x); b.ghost['vfound'] = (s, None, x)
        return a, i, b
    def v_indexof(self, eng, st, a):
        if not self.mine(a[0]):
            return None
        loc, s = self.at(eng, st, a[0], 'value list IndexOf')
        r, l = _live(eng, st, a[1], 'IndexOf argument')
        y, i, z = self.split_find(eng, st, s, eng.elem_get(st, r, l, 'v'))
        return [Outcome(y, 'ret', i), Outcome(z, 'ret', I(-1))]
    def v_contains(self, eng, st, a):
        o = self.v_indexof(eng, st, a)
        return o and [Outcome(x.st, 'ret', z3.BoolVal(k == 0)) for k, x in enumerate(o)]
    def v_remove(self, eng, st, a):
        if not self.mine(a[0]):
            return None
        loc, s = self.at(eng, st, a[0], 'value list Remove')
        r, l = _live(eng, st, a[1], 'Remove argument')
        y, i, z = self.split_find(eng, st, s, eng.elem_get(st, r, l, 'v'))
        t = self.newseq(eng, y, slen(s) - 1, lambda k: z3.If(k < i, sat(s, k), sat(s, k + 1)))
        self.put(eng, y, loc, t)
        return [Outcome(y, 'ret', TRUE), Outcome(z, 'ret', FALSE)]
    def v_removeat(self, eng, st, a):
        if not self.mine(a[0]):
            return None
        loc, s = self.at(eng, st, a[0], 'value list RemoveAt'); i = a[1]
        eng.require(st, z3.And(zi(i) >= 0, zi(i) < slen(s)), 'value list RemoveAt: index in range')
        t = self.newseq(eng, st, slen(s) - 1, lambda k: z3.If(k < i, sat(s, k), sat(s, k + 1)))
        self.put(eng, st, loc, t)
        return R(st, TRUE)
    def v_count(self, eng, st, a):
        if not self.mine(a[0]):
            return None
        loc, s = self.at(eng, st, a[0], 'value list Count')
        st.add(slen(s) >= 0)
        return R(st, slen(s))
    def v_clear(self, eng, st, a):
        if not self.mine(a[0]):
            return None
        loc, s = self.at(eng, st, a[0], 'value list Clear')
        self.put(eng, st, loc, EMPTYSEQ)
        return R(st, TRUE)
    # ---- post-state
    def slots(self, o, want_alloc, want_seq, what):
        """exactly the slots satisfying want_alloc hold a list, each with the sequence given by want_seq"""
        c = self.c; st = o.st; r = st.regions[self.fam]
        al, lv, v = r.lanes[(0, 'alloc')], r.lanes[(0, 'live')], r.lanes[(0, 'v')]
        G = lambda k: z3.And(k >= 0, k <= self.F)
        c.ensure_forall(st, lambda k: al(k) == want_alloc(k), what + ': value lists neither leaked nor released too early', G)
        c.ensure_forall(st, lambda k: lv(k) == want_alloc(k), what + ': value lists neither leaked nor destroyed too early', G)
        if want_seq:
            c.ensure_forall(st, lambda k: v(k) == want_seq(k), what + ': values of every other key unchanged', lambda k: z3.And(G(k), want_alloc(k)))
    def base_alloc(self):
        return lambda k: z3.And(k >= 0, k < self.F)

def G1(track, names=('g',)):
    X = GC(track, names, 'GR'); X.seal()
    return X

def seq_is(X, st, s, n, fn, what):
    X.c.ensure(st, slen(s) == n, what + ': number of values')
    X.c.ensure_forall(st, lambda k: sat(s, k) == fn(k), what + ': values in order of addition', lambda k: z3.And(k >= 0, k < n))
def unchanged(X, o, d, what):
    X.check(o, d, (d.k.pre, d.v.pre), what)
    X.slots(o, X.base_alloc(), lambda k: X.seq0(k), what)
def gcase(name, f):
    C05.case('Group<E, F>::' + name, 'map')(f)
def f(track):
    X = G1(track); d = X.d; c = X.c
    for o in ret_only(X, c.run('api_GR_Count', [d.p]), 'Count'):
        c.ensure(o.st, o.val == d.k.n0, 'Count: number of keys'); unchanged(X, o, d, 'Count')
    for o in ret_only(X, c.run('api_GR_Keys', [d.p]), 'Keys'):
        c.ensure(o.st, z3.BoolVal(isinstance(o.val, Ptr) and o.val.rid == d.k.p.rid and o.val.off == d.k.p.off), 'Keys: the keys'); unchanged(X, o, d, 'Keys')
    i = c.int('index')
    for o in c.run('api_GR_GetByIndex', [d.p, i]):
        unchanged(X, o, d, 'GetByIndex'); ok = z3.And(i >= 0, i < d.k.n0)
        if o.kind == 'throw':
            c.ensure(o.st, z3.And(z3.BoolVal(c.is_error(o)), z3.Not(ok)), 'GetByIndex: raises Error only for an index out of range')
        else:
            c.ensure(o.st, z3.And(ok, z3.BoolVal(o.val.rid == X.fam), zi(o.val.off) == X.size * i), 'GetByIndex: the values of that key')
gcase('Count, Keys, GetByIndex', f)
for op in ('Get', 'at'):
    def f(track, op=op):
        X = G1(track); d = X.d; c = X.c
        k, kv = c.elem('key')
        for o in c.run('api_GR_' + op, [d.p, k]):
            unchanged(X, o, d, 'lookup'); w = X.present(o, d, kv)
            if o.kind == 'throw':
                c.ensure(o.st, z3.BoolVal(c.is_error(o) and w is None), 'lookup: raises Error only for an absent key')
            else:
                c.ensure(o.st, z3.BoolVal(w is not None), 'lookup: returns only for a present key')
                if w is not None:
                    c.ensure(o.st, z3.And(z3.BoolVal(o.val.rid == X.fam), zi(o.val.off) == X.size * w), 'lookup: the values of the key')
    gcase('Get(key)' if op == 'Get' else 'operator[](key)', f)
def f(track):
    X = G1(track); d = X.d; c = X.c
    k, kv = c.elem('key')
    for o in ret_only(X, c.run('api_GR_Contains', [d.p, k]), 'Contains'):
        unchanged(X, o, d, 'Contains'); w = X.present(o, d, kv)
        c.ensure(o.st, B(o.val) == z3.BoolVal(w is not None), 'Contains: true exactly for a present key')
gcase('Contains(key)', f)
def vstate(X, o, s, xv):
    """index of the first value equal to xv in sequence s on this path, or None"""
    eng = X.c.eng; st = o.st
    hits = [i for (_, i, _) in [st.ghost['vfound']] if i is not None] if 'vfound' in st.ghost else []
    def hit(w):
        if eng.valid(st, z3.And(w >= 0, w < slen(s), eqE(sat(s, w), xv)), 2_000_000):
            q = z3.FreshConst(INT, 'q'); t = st.copy(); t.add(z3.And(q >= 0, q < w))
            return eng.valid(t, z3.Not(eqE(sat(s, q), xv)), 2_000_000)
    for w in hits:
        if hit(w):
            return w
    q = z3.FreshConst(INT, 'q'); t = st.copy(); t.add(z3.And(q >= 0, q < slen(s)))
    if eng.valid(t, z3.Not(eqE(sat(s, q), xv))):
        return None
    for w in int_terms(st.pc):
        if hit(w):
            return w
    raise Unsupported('presence of the value is not decided on this path')
def f(track):
    X = G1(track); d = X.d; c = X.c
    k, kv = c.elem('key'); v, vv = c.elem('value')
    for o in ret_only(X, c.run('api_GR_Contains2', [d.p, k, v]), 'Contains'):
        unchanged(X, o, d, 'Contains'); w = X.present(o, d, kv)
        if w is None:
            c.ensure(o.st, z3.Not(B(o.val)), 'Contains: false for an absent key')
        else:
            c.ensure(o.st, B(o.val) == z3.BoolVal(vstate(X, o, X.seq0(w), vv) is not None), 'Contains: true exactly for a value of the key')
gcase('Contains(key, value)', f)
for m in ('cc', 'cm', 'mc', 'mm', 'pc', 'pm'):
    def f(track, m=m):
        X = G1(track); d = X.d; c = X.c
        if m[0] == 'p':
            sz = const_of(c.helper('sz_PR')); r = c.eng.new_struct(c.st, 'pair', sz, heap='param')
            pp = Ptr(r.rid, 0); o1, o2 = c.field('PR', 'key', pp), c.field('PR', 'value', pp)
            kv, vv = z3.Int('pair.key'), z3.Int('pair.value')
            r = c.st.mut(r.rid)
            for of, x in ((o1, kv), (o2, vv)):
                r.fields[(of, 'live')] = (1, TRUE); r.fields[(of, 'v')] = (1, x)
            k, v = Ptr(r.rid, o1), Ptr(r.rid, o2)
            args = [d.p, pp]; mk = mv = m[1] == 'm'
        else:
            k, kv = c.elem('key'); v, vv = c.elem('value')
            args = [d.p, k, v]; mk, mv = m[0] == 'm', m[1] == 'm'
        def val(o, p):
            r, loc = c.eng.elem(o.st, p, 'argument')
            return c.eng.elem_get(o.st, r, loc, 'v')
        for o in ret_only(X, c.run('api_GR_Add_' + m, args), 'Add'):
            w = X.present(o, d, kv)
            c.ensure(o.st, B(o.val), 'Add: returns true')
            sv = o.st.regions[X.fam].lanes[(0, 'v')]
            if w is not None:
                X.check(o, d, (d.k.pre, d.v.pre), 'Add to a present key')
                X.slots(o, X.base_alloc(), None, 'Add to a present key')
                c.ensure_forall(o.st, lambda q: sv(q) == X.seq0(q), 'Add: values of every other key unchanged', lambda q: z3.And(q >= 0, q < X.F, q != w))
                s0 = X.seq0(w)
                seq_is(X, o.st, sv(w), slen(s0) + 1, lambda q: z3.If(q == slen(s0), vv, sat(s0, q)), 'Add appends to the values of the key')
            else:
                i = place(X, o, d.k, kv)
                hf = Seq(d.k.n0 + 1, lambda q: z3.If(q < i, zi(q), z3.If(q == i, X.F, zi(q) - 1)))
                X.check(o, d, (X.ins(d, i, kv, I(0))[0], hf), 'Add of a new key')
                X.slots(o, lambda q: z3.And(q >= 0, q <= X.F), None, 'Add of a new key')
                c.ensure_forall(o.st, lambda q: sv(q) == X.seq0(q), 'Add: values of every other key unchanged', lambda q: z3.And(q >= 0, q < X.F))
                seq_is(X, o.st, sv(X.F), I(1), lambda q: vv, 'Add of a new key')
            if not mk:
                c.ensure(o.st, val(o, k) == kv, 'Add: key argument not changed')
            if not mv:
                c.ensure(o.st, val(o, v) == vv, 'Add: value argument not changed')
    gcase('Add [%s]' % {'cc': 'const key, const value', 'cm': 'const key, moved value', 'mc': 'moved key, const value', 'mm': 'moved key, moved value', 'pc': 'const pair', 'pm': 'moved pair'}[m], f)
def removed_key(X, o, d, w, what):
    X.check(o, d, X.rem(d, w), what)
    X.slots(o, lambda q: z3.And(q >= 0, q < X.F, q != w), lambda q: X.seq0(q), what)
for own in (False, True):
    def f(track, own=own):
        X = G1(track); d = X.d; c = X.c
        if own:
            j = c.int('j'); c.st.add(z3.And(j >= 0, j < d.k.n0)); k, kv = Ptr(d.k.buf0, norm(8 * j)), d.k.fn(j)
        else:
            k, kv = c.elem('key')
        for o in ret_only(X, c.run('api_GR_Remove', [d.p, k]), 'Remove'):
            w = X.present(o, d, kv)
            c.ensure(o.st, B(o.val) == z3.BoolVal(w is not None), 'Remove: true exactly for a present key')
            if w is None:
                unchanged(X, o, d, 'Remove of an absent key')
            else:
                removed_key(X, o, d, w, 'Remove')
    gcase('Remove(key)' + (' [key stored in the group itself]' if own else ''), f)
def f(track):
    X = G1(track); d = X.d; c = X.c
    k, kv = c.elem('key'); v, vv = c.elem('value')
    for o in ret_only(X, c.run('api_GR_Remove2', [d.p, k, v]), 'Remove'):
        w = X.present(o, d, kv)
        if w is None:
            c.ensure(o.st, z3.Not(B(o.val)), 'Remove: false for an absent key'); unchanged(X, o, d, 'Remove of an absent key'); continue
        s0 = X.seq0(w)
        i = vstate(X, o, s0, vv)
        if i is None:
            c.ensure(o.st, z3.Not(B(o.val)), 'Remove: false for an absent value'); unchanged(X, o, d, 'Remove of an absent value'); continue
        c.ensure(o.st, B(o.val), 'Remove: true when the value is removed')
        if c.eng.valid(o.st, slen(s0) == 1):
            removed_key(X, o, d, w, 'Remove of the last value of a key')
        else:
            c.ensure(o.st, slen(s0) > 1, 'Remove: a key without values is removed')
            X.check(o, d, (d.k.pre, d.v.pre), 'Remove of one value')
            X.slots(o, X.base_alloc(), None, 'Remove of one value')
            sv = o.st.regions[X.fam].lanes[(0, 'v')]
            c.ensure_forall(o.st, lambda q: sv(q) == X.seq0(q), 'Remove: values of every other key unchanged', lambda q: z3.And(q >= 0, q < X.F, q != w))
            seq_is(X, o.st, sv(w), slen(s0) - 1, lambda q: z3.If(q < i, sat(s0, q), sat(s0, q + 1)), 'Remove of one value')
gcase('Remove(key, value)', f)
def f(track):
    X = G1(track); d = X.d; c = X.c
    for o in ret_only(X, c.run('api_GR_Clear', [d.p]), 'Clear'):
        c.ensure(o.st, B(o.val), 'Clear: returns true')
        X.check(o, d, (Seq(I(0), d.k.fn), Seq(I(0), d.v.fn)), 'Clear')
        X.slots(o, lambda q: FALSE, None, 'Clear')
gcase('Clear()', f)
def f(track):
    X = G1(track); d = X.d; c = X.c
    for o in ret_only(X, c.run('api_GR_dtor', [d.p]), 'destructor'):
        for rid, cap in ((d.k.buf0, d.k.cap0), (d.v.buf0, d.v.cap0)):
            if o.st.regions[rid].alive:
                c.ensure(o.st, cap == 0, 'destructor: storage released')
        for rid in o.st.ghost.get('heap', ()):
            if o.st.regions[rid].alive:
                c.ensure(o.st, zi(o.st.regions[rid].count) == 0, 'destructor: no storage leaked')
        X.slots(o, lambda q: FALSE, None, 'destructor')
gcase('~Group()', f)
def gmoved(X, o, d, src, what):
    c = X.c; st = o.st
    for a, b, K, nm in ((d.k, src.k, Opaque, 'keys'), (d.v, src.v, Handle, 'value lists')):
        buf, n, cap = a.rep(st)
        c.ensure(st, n == b.n0, what + ': number of ' + nm)
        if buf.rid is None:
            c.ensure(st, b.n0 == 0, what + ': ' + nm)
        else:
            c.ensure(st, z3.BoolVal(st.regions[buf.rid].alive), what + ': storage of %s not released' % nm)
            c.ensure_forall(st, lambda k: z3.And(K.live(c.eng, st, buf.rid, k), K.val(c.eng, st, buf.rid, k) == b.fn(zi(k))), what + ': ' + nm, lambda k: z3.And(k >= 0, k < n))
        sb, sn, sc = b.rep(st)
        c.ensure(st, z3.And(zi(sn) == 0), what + ': source is empty')
        if sb.rid is not None:
            c.ensure(st, z3.Or(sb.null, z3.BoolVal(sb.rid != buf.rid)), what + ': source does not share storage')
def f(track):
    X = GC(track, ('s', 't'), 'GR'); X.seal(); s, d = X.ds; c = X.c
    r = c.eng.new_struct(c.st, 'target', const_of(c.helper('sz_GR')), heap='param')
    raw = Ptr(r.rid, 0)
    for o in ret_only(X, c.run('api_GR_mctor', [raw, s.p]), 'move construction'):
        class D: pass
        e = D(); e.k, e.v = _at(d.k, d.p, raw), _at(d.v, d.p, raw)
        gmoved(X, o, e, s, 'move construction')
        X.slots(o, X.base_alloc(), lambda k: X.seq0(k), 'move construction')
gcase('Group(Group&&)', f)
def f(track):
    X = GC(track, ('d', 's'), 'GR'); X.seal(); d, s = X.ds; c = X.c
    for o in ret_only(X, c.run('api_GR_massign', [d.p, s.p]), 'move assignment'):
        gmoved(X, o, d, s, 'move assignment')
        for l in (d.k, d.v):
            if o.st.regions[l.buf0].alive:
                c.ensure(o.st, l.cap0 == 0, 'move assignment: old storage released')
        X.slots(o, lambda k: z3.And(k >= d.k.n0, k < X.F), lambda k: X.seq0(k), 'move assignment')
gcase('operator=(Group&&)', f)
for p in (C03, C01):
    for cs in p.cases:
        if 'Array<' not in cs.name and ('long>' not in cs.name or p is C01):
            C05.cases.append(cs)
