"""C22 ByteObjectMap and PushOnlyAllocator: a map over all 256 keys, stable distinct objects."""
import z3
from vir.spec import *
from vir.lcontract import *
from vir.runner import Property
from specs.maps import Handle, PtrListContracts
NS = 'vl::collections::'
C22 = Property('C22'); PROPERTIES = [C22]
C22.driver = 'bom'
C22.always_bounded = 'PushOnlyAllocator of elements with constructors and destructors: native driver, up to 600 objects in blocks of 1 to 300'
C22.assumptions = ['operator new succeeds; counts at most 2^40; block sizes 1 .. 2^31',
                   'pointers stored in a map are abstract values: the code compares them only with null',
                   'the allocators are instantiated with a trivial element type (other element types: native driver)',
                   'List<T*> is used by the contracts proved under C01']
UNIT = 'bom'

# ------------------------------------------------------------------ ByteObjectMap: tree of nodes of one allocator
OWN = z3.Function('node.owner', INT, INT); LV = z3.Function('node.level', INT, INT); PFX = z3.Function('node.prefix', INT, INT); CELL = z3.Function('node.cell', INT, INT)
class BM:
    def __init__(self, track):
        self.c = c = track(Ctx(UNIT)); eng = c.eng; st = c.st
        self.maps = []
        self.N = z3.Int('nodes'); st.add(z3.And(self.N >= 0, self.N <= BIG))
        r = eng.new_array(st, 'tree nodes', 8, 4 * (self.N + 4), heap='param'); self.fam = r.rid
        r.lanes[(0, 'raw')] = base_lane(lambda k: CELL(zi(k)), 8)
        N = self.N
        r.lanes[(0, 'init')] = base_lane(lambda k: z3.And(zi(k) >= 0, zi(k) < 4 * N))
        r.meta[('dec', 0)] = lambda eng, st, v: Ptr(self.fam, norm(32 * (v - 1)), z3.simplify(v == 0))
        r.meta[('enc', 0)] = lambda eng, st, p: self.code(p)
        st.add(z3.Int('base!%d' % r.rid) > 0)
        for m in (0, 1):
            p = c.obj('BM'); o = c.field('BM', 'root', p); v = z3.Int('root%d' % m)
            c.st.mut(p.rid).fields[o] = (8, Ptr(self.fam, norm(32 * (v - 1)), v == 0))
            self.maps.append((p, o, v))
        self.al = c.obj('NA')
        def lazy(eng, st, r, off, t):
            raise Unsupported('the map looks into its allocator')
        a = c.st.mut(self.al.rid); a.fields = {o: v for o, v in a.fields.items() if o == 0}; a.meta['lazy'] = lazy
        st = c.st
        for m, (_, _, v) in enumerate(self.maps):
            st.add(self.rootok(v, m, N, OWN, LV, PFX))
        eng.contracts['%sPushOnlyAllocator<%sbom_helper::TreeNode>::Create()' % (NS, NS)] = self.create
        st.ghost['made'] = 0
    # well formed: nodes of a map form a tree of depth 4 below its root; PFX is the path to a node.  Used by
    # instances (the facts are assumed for all nodes, so any instance may be taken)
    def rootok(self, v, m, N, own, lv, pfx):
        return z3.And(v >= 0, v <= N, z3.Implies(v != 0, z3.And(own(v - 1) == m, lv(v - 1) == 4, pfx(v - 1) == 0)))
    def nodeok(self, cell, k, f, N, own, lv, pfx):
        x = cell(4 * k + f)
        return z3.Implies(z3.And(k >= 0, k < N, f >= 0, f < 4, lv(k) > 1, x != 0), z3.And(x >= 1, x <= N, own(x - 1) == own(k), lv(x - 1) == lv(k) - 1, pfx(x - 1) == 4 * pfx(k) + f))
    def key(self, st, j, nm):
        """digits of a key 0..255"""
        d = [z3.Int('%s.%d' % (nm, l)) for l in range(4)]
        st.add(z3.And(j == 64 * d[3] + 16 * d[2] + 4 * d[1] + d[0], *[z3.And(x >= 0, x < 4) for x in d]))
        return d
    def path(self, st, m, d):
        v = self.maps[m][2]
        for l in (3, 2, 1):
            st.add(self.nodeok(lambda k: CELL(k), v - 1, d[l], self.N, OWN, LV, PFX))
            st.add(z3.Implies(v == 0, CELL(4 * (v - 1) + d[l]) == 0)); v = CELL(4 * (v - 1) + d[l])
    def code(self, p):
        if isinstance(p, AddrPtr):
            return p.addr
        if p.rid is None:
            return I(0)
        if p.rid != self.fam:
            raise Unsupported('pointer of another family')
        i, rem = split(p.off, 32)
        if rem:
            raise Unsupported('pointer into a node')
        return zi(i) + 1 if z3.is_false(p.null) else z3.If(p.null, I(0), zi(i) + 1)
    def create(self, eng, st, a):
        eng.require(st, z3.BoolVal(isinstance(a[0], Ptr) and a[0].rid == self.al.rid), 'Create: called on the given allocator')
        n = st.ghost['made']
        if n >= 4:
            raise Unsupported('more than 4 nodes')
        st.ghost['made'] = n + 1
        return R(st, Ptr(self.fam, norm(32 * (self.N + n))))
    def root(self, st, m):
        p, o, v = self.maps[m]
        return self.code(st.regions[p.rid].fields[o][1])
    @staticmethod
    def lookup(cell, root, d):
        v = root
        for l in (3, 2, 1, 0):
            v = z3.If(v == 0, I(0), cell(4 * (v - 1) + d[l]))
        return v
def f(track):
    X = BM(track); c = X.c; i = z3.Int('index'); c.st.add(z3.And(i >= -128, i < 128)); u = z3.If(i < 0, i + 256, i); d = X.key(c.st, u, 'digit'); X.path(c.st, 0, d)
    p = X.maps[0][0]
    for o in c.run('api_BM_Get', [p, i]):
        c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'Get: returns')
        c.ensure(o.st, X.code(o.val) == X.lookup(CELL, X.maps[0][2], d), 'Get: the object of that key, or null')
        c.ensure(o.st, X.root(o.st, 0) == X.maps[0][2], 'Get: changes nothing')
        c.ensure_forall(o.st, lambda k: o.st.regions[X.fam].lanes[(0, 'raw')](k) == CELL(k), 'Get: changes nothing', lambda k: z3.And(k >= 0, k < 4 * X.N))
        c.ensure(o.st, z3.BoolVal(o.st.ghost['made'] == 0), 'Get: allocates nothing')
C22.case('ByteObjectMap::Get', UNIT)(f)
def f(track):
    X = BM(track); c = X.c; i = z3.Int('index'); c.st.add(z3.And(i >= -128, i < 128)); u = z3.If(i < 0, i + 256, i); d = X.key(c.st, u, 'digit'); X.path(c.st, 0, d)
    p = X.maps[0][0]; x = z3.Int('value'); c.st.add(z3.And(x >= 0, x < (1 << 62)))
    for o in c.run('api_BM_Set', [p, i, AddrPtr(x), X.al]):
        c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'Set: returns')
        st = o.st; cell = st.regions[X.fam].lanes[(0, 'raw')]; n = st.ghost['made']
        r0, r1 = X.root(st, 0), X.root(st, 1)
        j = z3.Int('any key'); s = st.copy(); e = X.key(s, j, 'digit.any'); X.path(s, 0, e); X.path(s, 1, e)
        c.ensure(s, X.lookup(cell, r0, e) == z3.If(j == u, x, X.lookup(CELL, X.maps[0][2], e)), 'Set: the given key gets the object, every other key keeps its own')
        c.ensure(st, r1 == X.maps[1][2], 'Set: other maps of the allocator keep their objects')
        c.ensure(s, X.lookup(cell, r1, e) == X.lookup(CELL, X.maps[1][2], e), 'Set: other maps of the allocator keep their objects')
        # the new nodes, in order of creation, are the ones on the path of the key
        own, lv, pfx = OWN, LV, PFX
        for q in range(n):
            l = n - q; g = X.N + q
            own = (lambda k, own=own, g=g: z3.If(k == g, I(0), own(k))); lv = (lambda k, lv=lv, g=g, l=l: z3.If(k == g, I(l), lv(k)))
            pfx = (lambda k, pfx=pfx, g=g, l=l: z3.If(k == g, sum((4 ** (t - l) * d[t] for t in range(l, 4)), I(0)), pfx(k)))
        M = X.N + n
        k, f = z3.FreshConst(INT, 'k'), z3.FreshConst(INT, 'f')
        for m, w in enumerate((r0, r1)):
            c.ensure(st, X.rootok(w, m, M, own, lv, pfx), 'Set: the tree stays well formed (root)')
        s = st.copy(); s.add(z3.And(k >= 0, k < M, f >= 0, f < 4))
        c.ensure(s, st.regions[X.fam].lanes[(0, 'init')](4 * k + f), 'Set: every node is initialised')
        s.add(X.nodeok(lambda q: CELL(q), k, f, X.N, OWN, LV, PFX))
        c.ensure(s, X.nodeok(cell, k, f, M, own, lv, pfx), 'Set: the tree stays well formed (children)')
C22.case('ByteObjectMap::Set', UNIT)(f)
def f(track):
    X = BM(track); c = X.c; p = c.obj('BM', construct=False)
    for o in c.run('api_BM_mk', [p]):
        c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'constructor: returns')
        v = o.st.regions[p.rid].fields[X.maps[0][1]][1]
        c.ensure(o.st, X.code(v) == 0, 'constructor: no key has an object')
    p = X.maps[0][0]
    for o in c.run('api_BM_dtor', [p]):
        c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'destructor: returns')
        c.ensure_forall(o.st, lambda k: o.st.regions[X.fam].lanes[(0, 'raw')](k) == CELL(k), 'destructor: nodes belong to the allocator', lambda k: z3.And(k >= 0, k < 4 * X.N))
C22.case('ByteObjectMap constructor, destructor', UNIT)(f)

# ------------------------------------------------------------------ PushOnlyAllocator
class PA:
    """block number k holds the slots k * (blockSize + 1) .. + blockSize - 1 (a gap after each block: running over the end of a block reaches no other)"""
    def __init__(self, track, new=False):
        self.c = c = track(Ctx(UNIT)); eng = c.eng
        offs = list_offsets(c, 'PL')
        self.p = c.obj('PA'); r = c.st.regions[self.p.rid]
        self.obs, self.oas, self.obl = (c.field('PA', x, self.p) for x in ('blockSize', 'allocatedSize', 'blocks'))
        self.bs = z3.Int('blockSize'); self.a = z3.Int('allocated')
        st = c.st; st.add(z3.And(self.bs >= 1, self.bs <= (1 << 31), self.a >= 0, self.a <= BIG))
        self.l = ListAt(c, Ptr(self.p.rid, self.obl), offs, Handle, 'blocks'); n = self.n = self.l.n0
        st.add(self.a <= n * self.bs)
        f = st.mut(self.p.rid).fields; f[self.obs] = (8, self.bs); f[self.oas] = (8, self.a)
        r = eng.new_array(st, 'blocks', 8, (n + 1) * (self.bs + 1), heap='family'); self.fam = r.rid
        VAL = z3.Function('slot.value', INT, INT); self.VAL = VAL
        r.lanes[(0, 'raw')] = base_lane(lambda k: VAL(zi(k)), 8)
        r.lanes[(0, 'alloc')] = base_lane(lambda k: z3.And(zi(k) >= 0, zi(k) < n))
        st.add(z3.Int('base!%d' % r.rid) > 0)
        b = st.mut(self.l.buf0)
        b.lanes[(0, 'raw')] = base_lane(lambda k: zi(k), 8)
        self.l.fn = lambda k: zi(k); self.l.pre = Seq(n, self.l.fn)
        self.known = {}
        b.meta[('dec', 0)] = self.dec; b.meta[('enc', 0)] = lambda eng, st, p: self.enc(eng, st, p)
        lc = self.lc = PtrListContracts(offs, self.fam, 8)
        lc.enc = self.enc
        L = NS + 'List<Val*>'
        eng.contracts.update({L + '::Insert(long, Val* const&)': lc.insert(False), L + '::Insert(long, Val*&&)': lc.insert(True)})
        eng.opts['alloc_hook'] = self.alloc; eng.opts['release_hook'] = self.release
        st.ghost['newblock'] = 0
    def dec(self, eng, st, v):
        off = norm(8 * self.first(v)); self.known[zi(off).sexpr()] = zi(v)
        return Ptr(self.fam, off)
    def first(self, k):
        return zi(k) * (self.bs + 1)
    def slot(self, i):
        """slot number of the i-th object"""
        return self.first(i / self.bs) + i % self.bs
    def enc(self, eng, st, p):
        """block number of a pointer to the start of a block"""
        if not isinstance(p, Ptr) or p.rid != self.fam:
            raise Unsupported('pointer of another family')
        key = zi(p.off).sexpr()
        if key in self.known:
            return self.known[key]
        i, rem = split(p.off, 8)
        for k in [I(0), self.n] + [x for x in int_terms(st.pc) if not z3.is_int_value(x)]:
            if z3.is_true(z3.simplify(zi(i) == self.first(k))) or eng.valid(st, zi(i) == self.first(k), 1_000_000):
                return k
        raise Unsupported('pointer is not the start of a block')
    def alloc(self, eng, st, size, how):
        if how != 'new[]':
            return None
        if st.ghost['newblock']:
            raise Unsupported('second block')
        st.ghost['newblock'] = 1
        eng.require(st, zi(size) >= 8 * self.bs, 'new block: room for blockSize objects')
        r = st.mut(self.fam)
        r.lanes[(0, 'alloc')] = r.lanes[(0, 'alloc')].write(self.n, TRUE)
        return self.dec(eng, st, self.n)
    def release(self, eng, st, p, how):
        if not isinstance(p, Ptr) or p.rid != self.fam:
            return False
        eng.require(st, z3.BoolVal(how in ('new[]', 'delete[]')), 'release: with delete[]')
        k = self.enc(eng, st, p)
        eng.require(st, st.regions[self.fam].lanes[(0, 'alloc')](k), 'release: no double release (block)')
        r = st.mut(self.fam); r.lanes[(0, 'alloc')] = r.lanes[(0, 'alloc')].write(k, FALSE)
        return True
    def state(self, st):
        f = st.regions[self.p.rid].fields
        return f[self.obs][1], f[self.oas][1], self.l.rep(st)
    def unchanged(self, o, what, n, a):
        c = self.c; st = o.st; bs, al, (buf, cnt, cap) = self.state(st)
        c.ensure(st, z3.And(bs == self.bs, al == a, cnt == n), what + ': bookkeeping')
        r = st.regions[self.fam]
        c.ensure_forall(st, lambda k: r.lanes[(0, 'raw')](k) == self.VAL(k), what + ': objects keep their content', lambda k: z3.And(k >= 0, k < self.n * (self.bs + 1)))
        c.ensure_forall(st, lambda k: z3.And(self.l.K.val(c.eng, st, buf.rid, k) == k, r.lanes[(0, 'alloc')](k)), what + ': blocks stay', lambda k: z3.And(k >= 0, k < n))
def f(track):
    X = PA(track); c = X.c; i = z3.Int('index'); c.st.add(z3.And(i >= 0, i < ARG))
    for o in c.run('api_PA_Get', [X.p, i]):
        c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'Get: returns')
        if o.kind != 'ret': continue
        v = o.val
        if v.rid is None:
            c.ensure(o.st, i >= X.a, 'Get: null only beyond the allocated objects')
        else:
            c.ensure(o.st, z3.And(i < X.a, z3.Not(v.null), z3.BoolVal(v.rid == X.fam)), 'Get: an object for an allocated index')
            c.ensure(o.st, zi(v.off) == 8 * X.slot(i), 'Get: the object of that index')
        X.unchanged(o, 'Get', X.n, X.a)
C22.case('PushOnlyAllocator::Get', UNIT)(f)
def f(track):
    X = PA(track); c = X.c
    for o in c.run('api_PA_Create', [X.p]):
        c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'Create: returns')
        if o.kind != 'ret': continue
        v = o.val
        n = X.n + o.st.ghost['newblock']
        c.ensure(o.st, z3.And(z3.Not(v.null), z3.BoolVal(v.rid == X.fam)), 'Create: an object')
        c.ensure(o.st, zi(v.off) == 8 * X.slot(X.a), 'Create: the next object')
        c.ensure(o.st, X.a + 1 <= n * X.bs, 'Create: the object lies in a block')
        X.unchanged(o, 'Create', n, X.a + 1)
C22.case('PushOnlyAllocator::Create', UNIT)(f)
def f(track):
    X = PA(track); c = X.c; i, j = z3.Ints('i j'); s = c.st.copy()
    for o in c.run('api_PA_Get', [X.p, I(0)]):
        pass
    # lemma: the slots of different objects are different and lie in blocks that exist
    s.add(z3.And(i >= 0, i < j, j < X.a, i / X.bs >= 0, i % X.bs >= 0, i % X.bs < X.bs, j % X.bs >= 0, j % X.bs < X.bs))
    x, y = i / X.bs, j / X.bs
    s.add(z3.And(i == x * X.bs + i % X.bs, j == y * X.bs + j % X.bs))
    for t in (x < y, x == y, x > y):
        s2 = s.copy(); s2.add(t)
        if t.decl().kind() == z3.Z3_OP_LT: s2.add((y - x - 1) * (X.bs + 1) >= 0)
        if t.decl().kind() == z3.Z3_OP_GT: s2.add((x - y - 1) * X.bs >= 0)
        c.ensure(s2, X.slot(i) != X.slot(j), 'lemma: different objects never overlap')
C22.case('PushOnlyAllocator: objects are distinct', UNIT)(f)
def f(track):
    X = PA(track); c = X.c; eng = c.eng
    r = lambda st: st.regions[X.fam].lanes[(0, 'alloc')]
    k = z3.Int('k!')
    for nm, g in (('released below', lambda e, st, v: z3.ForAll([k], r(st)(k) == z3.And(k >= v, k < X.n))), ('released above', lambda e, st, v: z3.ForAll([k], r(st)(k) == z3.And(k >= 0, k <= v)))):
        eng.inv_templates.append((nm, g, 1))
    for o in c.run('api_PA_dtor', [X.p]):
        c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'destructor: returns')
        c.ensure_forall(o.st, lambda k: z3.Not(r(o.st)(k)), 'destructor: every block is released', lambda k: TRUE)
        b = o.st.regions[X.l.buf0]
        if b.alive:
            c.ensure(o.st, X.l.cap0 == 0, 'destructor: no storage leaked')
C22.case('PushOnlyAllocator destructor', UNIT)(f)
def f(track):
    X = PA(track); c = X.c; n = z3.Int('n'); c.st.add(z3.And(n >= 1, n <= (1 << 31)))
    for fn, args, want in (('mk', [n], n), ('mkd', [], I(65536))):
        p = c.obj('PA', construct=False)
        for o in c.run('api_PA_' + fn, [p] + args):
            c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'constructor: returns')
            f_ = o.st.regions[p.rid].fields
            c.ensure(o.st, z3.And(f_[X.obs][1] == want, f_[X.oas][1] == 0, f_[X.obl + X.lc.offs[1]][1] == 0), 'constructor: no objects, given block size')
C22.case('PushOnlyAllocator constructors', UNIT)(f)
