"""C01 sequence semantics and C02 element lifetime / storage of Array, List; C03 SortedList."""
import re
import z3
from vir.spec import *
from vir.runner import Property

C01 = Property('C01'); C02 = Property('C02')
PROPERTIES = [C01, C02]
NS = 'vl::collections::'
UNIT = 'list'

LIFE = r'constructor on raw storage|on a live object|released storage|double release|matching allocator|start of the allocation|was destroyed|leaked|constructed|holds no object|old buffer|live storage|heap storage|uninitialised|initialised storage|in bounds|overlap|not null|null dereference|invalid pointer|capacity|buffer only|allocation|moved-from|storage|abnormal|unreachable|write to constant'
C02.relevant = LIFE
C01.relevant = r'^(?!.*(?:%s))' % LIFE.replace('|capacity|', '|')
for p in (C01, C02):
    p.driver = 'lists'
    p.driver_arg = p.id
    p.assumptions = ['counts and capacities at most 2^40, integer arguments: all 64-bit values; machine arithmetic is exact, every signed operation carries a no-overflow obligation',
                     'malloc/operator new succeed', 'element operations do not throw and do not touch the container; operator== is an arbitrary relation, <=> an arbitrary weak order',
                     'element type instantiations: one opaque non-trivial type and one trivially copyable type (long) stand for all element types']

def tname(K):
    return 'E' if K is Opaque else 'long'
def oid(cls, K):
    return cls + ('E' if K is Opaque else 'V')

def setup(track, cls, K, name='list'):
    c = track(Ctx(UNIT))
    return c, ListObj(c, oid(cls, K), K, name, has_cap=(cls != 'Array'))

def item(c, K, name='item'):
    return c.elem(name) if K is Opaque else c.rawcell(name)

def expect(c, L, outs, ok, ret, want, what, extra=None):
    """the contract: Error exactly when not ok (container unchanged), otherwise returns ret and holds want"""
    seen = set()
    for o in outs:
        if o.kind == 'throw':
            seen.add('throw')
            c.ensure(o.st, z3.BoolVal(c.is_error(o)), what + ': raises Error')
            c.ensure(o.st, z3.Not(ok), what + ': raises only for an invalid argument')
            L.check(o, L.pre, what + ': unchanged after Error')
        else:
            seen.add('ret')
            c.ensure(o.st, ok, what + ': accepts only valid arguments')
            if ret is not None:
                c.ensure(o.st, ret(o), what + ': result')
            L.check(o, want(o) if callable(want) else want, what)
        if extra:
            extra(o)
    if c.eng.feasible(c.st, ok) and 'ret' not in seen:
        raise Unsupported('no returning path')

def deco(name, **kw):
    def d(f):
        for p in (C01, C02):
            p.case(name, UNIT, **kw)(f)
        return f
    return d

def api(fn):
    """public operation -> entry point of the translation unit"""
    m = re.match(r'vl::collections::(\w+)<(\w+)>::(.*)$', fn)
    cls, T, op = m.groups()
    id = cls + ('E' if T == 'E' else 'V')
    if op.startswith('operator[]'):
        s = 'at_c' if op.endswith('const') else 'at'
    elif op.startswith('operator='):
        s = 'massign'
    elif op.startswith(cls + '('):
        s = 'mctor' if '&&' in op else 'ctorp' if '*' in op else 'ctor'
    else:
        s = op[:op.index('(')]
        if s in ('Set', 'Insert', 'Add'):
            s += '_m' if '&&' in op else '_c'
    return 'api_%s_%s' % (id, s)

def kinds(cls):
    for K in (Opaque, Raw64):
        yield K, tname(K), NS + cls + '<' + tname(K) + '>'

# ------------------------------------------------------------------ const observers
def get_case(cls, fn, K):
    def f(track):
        c, L = setup(track, cls, K)
        i = c.int('index')
        outs = c.run(api(fn), [L.p, i])
        ok = z3.And(i >= 0, i < L.n0)
        def ret(o):
            if not isinstance(o.val, Ptr) or o.val.rid != L.buf0:
                return FALSE
            return zi(o.val.off) == L.K.stride * i
        expect(c, L, outs, ok, ret, L.pre, 'element access')
    deco(fn)(f)
def count_case(cls, fn, K):
    def f(track):
        c, L = setup(track, cls, K)
        outs = c.run(api(fn), [L.p])
        expect(c, L, outs, TRUE, lambda o: o.val == L.n0, L.pre, 'Count')
    deco(fn)(f)

def eqK(K):
    return eqE if K is Opaque else (lambda a, b: a == b)

def indexof_case(cls, fn, K, contains=False):
    def f(track):
        c, L = setup(track, cls, K)
        x, xv = item(c, K)
        outs = c.run(api(fn), [L.p, x])
        eq = eqK(K)
        for o in outs:
            c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'search never raises')
            if contains:
                r = B(o.val)
                j = z3.FreshConst(INT, 'j')
                s = o.st.copy(); s.add(z3.And(j >= 0, j < L.n0)); s.add(z3.Not(r))
                c.ensure(s, z3.Not(eq(L.fn(j), xv)), 'Contains: false only if no element equals the argument')
                q = z3.Int('q')
                s = o.st.copy(); s.add(r)
                s.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < L.n0), z3.Not(eq(L.fn(q), xv))), patterns=[L.fn(q)]))
                c.ensure(s, FALSE, 'Contains: true only if an element equals the argument')
            else:
                r = o.val
                c.ensure(o.st, z3.Or(r == -1, z3.And(r >= 0, r < L.n0, eq(L.fn(r), xv))), 'IndexOf: result is -1 or an equal element')
                j = z3.FreshConst(INT, 'j')
                s = o.st.copy(); s.add(z3.And(j >= 0, j < z3.If(r == -1, L.n0, r)))
                c.ensure(s, z3.Not(eq(L.fn(j), xv)), 'IndexOf: no earlier equal element')
            L.check(o, L.pre, 'search: container unchanged')
    deco(fn)(f)

for cls in ('Array', 'List'):
    for K, T, C in kinds(cls):
        get_case(cls, C + '::Get(long) const', K)
        get_case(cls, C + '::operator[](long) const', K)
        get_case(cls, C + '::operator[](long)', K)
        count_case(cls, C + '::Count() const', K)
        indexof_case(cls, C + '::IndexOf(%s const&) const' % T, K)
        indexof_case(cls, C + '::Contains(%s const&) const' % T, K, True)

# ------------------------------------------------------------------ mutators
def post_item(c, o, K, x, xv, moved):
    if K is Opaque:
        r = o.st.regions[x.rid]
        c.ensure(o.st, K.live(c.eng, o.st, x.rid, I(0)), 'argument object still constructed')
        if not moved:
            c.ensure(o.st, K.val(c.eng, o.st, x.rid, I(0)) == xv, 'argument unchanged')
    else:
        c.ensure(o.st, K.val(c.eng, o.st, x.rid, I(0)) == xv, 'argument unchanged')

def set_case(cls, fn, K, moved):
    def f(track):
        c, L = setup(track, cls, K)
        i = c.int('index'); x, xv = item(c, K)
        outs = c.run(api(fn), [L.p, i, x])
        expect(c, L, outs, z3.And(i >= 0, i < L.n0), lambda o: B(o.val), Seq(L.n0, lambda k: z3.If(k == i, xv, L.fn(k))), 'Set',
               lambda o: post_item(c, o, K, x, xv, moved))
    deco(fn)(f)

def inserted(L, i, xv, mv=None):
    fn = L.fn if mv is None else lambda k: z3.If(k == mv, mvE(L.fn(k)), L.fn(k))
    return Seq(L.n0 + 1, lambda k: z3.If(k < i, fn(k), z3.If(k == i, xv, fn(k - 1))))

def insert_case(fn, K, moved, add):
    def f(track):
        c, L = setup(track, 'List', K)
        i = L.n0 if add else c.int('index')
        x, xv = item(c, K)
        outs = c.run(api(fn), [L.p, x] if add else [L.p, i, x])
        expect(c, L, outs, z3.And(i >= 0, i <= L.n0), lambda o: o.val == i, inserted(L, i, xv), 'Add' if add else 'Insert',
               lambda o: post_item(c, o, K, x, xv, moved))
    deco(fn)(f)

def insert_alias_case(fn, K, add, moved=False):
    """the argument is an element of the same list"""
    def f(track):
        c, L = setup(track, 'List', K)
        i = L.n0 if add else c.int('index')
        j = c.int('j')
        c.st.add(z3.And(j >= 0, j < L.n0))
        x = Ptr(L.buf0, norm(L.K.stride * j))
        outs = c.run(api(fn), [L.p, x] if add else [L.p, i, x])
        expect(c, L, outs, z3.And(i >= 0, i <= L.n0), lambda o: o.val == i, inserted(L, i, L.fn(j), j if moved and K is Opaque else None), ('Add' if add else 'Insert') + ' of an element of the list itself')
    deco(fn + ' [argument aliases an element]')(f)

def removed(L, i, m):
    return Seq(L.n0 - m, lambda k: z3.If(k < i, L.fn(k), L.fn(k + m)))

def removeat_case(fn, K):
    def f(track):
        c, L = setup(track, 'List', K)
        i = c.int('index')
        outs = c.run(api(fn), [L.p, i])
        expect(c, L, outs, z3.And(i >= 0, i < L.n0), lambda o: B(o.val), removed(L, i, 1), 'RemoveAt')
    deco(fn)(f)
def removerange_case(fn, K):
    def f(track):
        c, L = setup(track, 'List', K)
        i = c.int('index'); m = c.int('count')
        outs = c.run(api(fn), [L.p, i, m])
        expect(c, L, outs, z3.And(i >= 0, m >= 0, i + m <= L.n0), lambda o: B(o.val), removed(L, i, m), 'RemoveRange')
    deco(fn)(f)
def clear_case(fn, K):
    def f(track):
        c, L = setup(track, 'List', K)
        outs = c.run(api(fn), [L.p])
        expect(c, L, outs, TRUE, lambda o: B(o.val), Seq(I(0), lambda k: I(0)), 'Clear')
    deco(fn)(f)
def remove_case(fn, K):
    def f(track):
        c, L = setup(track, 'List', K)
        x, xv = item(c, K)
        outs = c.run(api(fn), [L.p, x])
        eq = eqK(K)
        for o in outs:
            c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'Remove never raises')
            r = B(o.val)
            n1 = L.rep(o.st)[1]
            if c.eng.valid(o.st, z3.Not(r)):
                j = z3.FreshConst(INT, 'j')
                s = o.st.copy(); s.add(z3.And(j >= 0, j < L.n0))
                c.ensure(s, z3.Not(eq(L.fn(j), xv)), 'Remove: false only if absent')
                L.check(o, L.pre, 'Remove: unchanged when absent')
            else:
                c.ensure(o.st, r, 'Remove: result decided')
                # first occurrence p (skolem, exists because IndexOf found it): p is determined by the facts
                p = z3.FreshConst(INT, 'first')
                s = o.st.copy()
                q = z3.Int('q')
                s.add(z3.And(p >= 0, p < L.n0, eq(L.fn(p), xv)))
                s.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < p), z3.Not(eq(L.fn(q), xv))), patterns=[L.fn(q)]))
                o2 = Outcome(s, 'ret', o.val)
                L.check(o2, removed(L, p, 1), 'Remove: first equal element')
                s = o.st.copy()
                s.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < L.n0), z3.Not(eq(L.fn(q), xv))), patterns=[L.fn(q)]))
                c.ensure(s, FALSE, 'Remove: true only if present')
    deco(fn)(f)

for cls in ('Array', 'List'):
    for K, T, C in kinds(cls):
        set_case(cls, C + '::Set(long, %s const&)' % T, K, False)
        set_case(cls, C + '::Set(long, %s&&)' % T, K, True)
for K, T, C in kinds('List'):
    insert_case(C + '::Insert(long, %s const&)' % T, K, False, False)
    insert_case(C + '::Insert(long, %s&&)' % T, K, True, False)
    insert_case(C + '::Add(%s const&)' % T, K, False, True)
    insert_case(C + '::Add(%s&&)' % T, K, True, True)
    insert_alias_case(C + '::Insert(long, %s const&)' % T, K, False)
    insert_alias_case(C + '::Add(%s const&)' % T, K, True)
    insert_alias_case(C + '::Insert(long, %s&&)' % T, K, False, True)
    insert_alias_case(C + '::Add(%s&&)' % T, K, True, True)
    LB = C
    removeat_case(LB + '::RemoveAt(long)', K)
    removerange_case(LB + '::RemoveRange(long, long)', K)
    clear_case(LB + '::Clear()', K)
    remove_case(C + '::Remove(%s const&)' % T, K)

# ------------------------------------------------------------------ construction, destruction, move
def array_ctor(fn, K, src):
    def f(track):
        c = track(Ctx(UNIT))
        L = ListObj(c, oid('Array', K), K, 'list', has_cap=False)
        # raw storage for the new object
        n = c.int('size')
        c.st.add(n <= BIG)
        c.st.add(L.n0 == 0)
        r = c.st.mut(L.p.rid); r.fields = {}
        args = [L.p]
        sf = z3.Function('src', INT, INT)
        if src:
            sr = c.eng.new_array(c.st, 'source', K.stride, z3.If(n > 0, n, I(0)), heap='param')
            K.fill(c.eng, c.st, sr, lambda k: sf(zi(k)), lambda k: z3.And(zi(k) >= 0, zi(k) < n))
            sr.meta['ro'] = True
            args.append(Ptr(sr.rid, 0, n == 0))
        args.append(n)
        outs = c.run(api(fn), args)
        for o in outs:
            if o.kind == 'throw':
                c.ensure(o.st, n < 0, 'constructor raises only for a negative size')
                L.no_leak(o, 'constructor')
            else:
                c.ensure(o.st, n >= 0, 'constructor accepts only sizes >= 0')
                if src:
                    L.check(o, Seq(n, lambda k: sf(k)), 'constructor')
                elif K is Opaque:
                    L.check(o, Seq(n, lambda k: dfE), 'constructor')
                else:
                    c.ensure(o.st, L.rep(o.st)[1] == n, 'constructor: element count')
                    L.check(o, None, 'constructor', lifetime=False)
    deco(fn)(f)
def resize_case(fn, K):
    def f(track):
        c, L = setup(track, 'Array', K)
        n = c.int('size'); c.st.add(n <= BIG)
        outs = c.run(api(fn), [L.p, n])
        for o in outs:
            if o.kind == 'throw':
                c.ensure(o.st, n < 0, 'Resize raises only for a negative size')
                L.check(o, L.pre, 'Resize: unchanged after Error')
            else:
                c.ensure(o.st, n >= 0, 'Resize accepts only sizes >= 0')
                if K is Opaque:
                    L.check(o, Seq(n, lambda k: z3.If(k < L.n0, L.fn(k), dfE)), 'Resize')
                else:
                    c.ensure(o.st, L.rep(o.st)[1] == n, 'Resize: element count')
                    L.check(o, None, 'Resize', lifetime=False)
                    b = L.rep(o.st)[0]
                    if b.rid is not None:
                        c.ensure_forall(o.st, lambda k: K.val(c.eng, o.st, b.rid, k) == L.fn(k), 'Resize: kept elements', lambda k: z3.And(k >= 0, k < n, k < L.n0))
    deco(fn)(f)

def dtor_case(cls, K):
    def f(track):
        c, L = setup(track, cls, K)
        outs = c.run('api_%s_dtor' % oid(cls, K), [L.p])
        c.entry = NS + cls + '<' + tname(K) + '>::~' + cls + '()'
        for o in outs:
            c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'destructor never raises')
            b0 = o.st.regions[L.buf0]
            if b0.alive:
                c.ensure(o.st, L.cap0 == 0, 'destructor: storage released')
            L.no_leak(o, 'destructor')
    deco(NS + cls + '<' + tname(K) + '>::~' + cls + '()')(f)

def move_case(cls, fn, K, assign):
    def f(track):
        c = track(Ctx(UNIT))
        A = ListObj(c, oid(cls, K), K, 'target', has_cap=(cls != 'Array'))
        S = ListObj(c, oid(cls, K), K, 'source', has_cap=(cls != 'Array'))
        if not assign:
            c.st.mut(A.p.rid).fields = {}
            c.st.add(A.cap0 == 0)
        outs = c.run(api(fn), [A.p, S.p])
        for o in outs:
            c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'move never raises')
            # the storage is handed over: check the target as if its old buffer were the source's
            keep = (S.buf0, A.buf0)
            if assign and o.st.regions[A.buf0].alive:
                c.ensure(o.st, A.cap0 == 0, 'move assignment: old buffer of the target released')
            A2 = A.__class__.__new__(A.__class__); A2.__dict__ = dict(A.__dict__); A2.buf0 = S.buf0; A2.cap0 = S.cap0
            A2.check(o, S.pre, 'move: target receives the elements', keep)
            bs, ns, caps = S.rep(o.st)
            c.ensure(o.st, ns == 0, 'move: source left empty')
            c.ensure(o.st, caps == 0, 'move: source capacity 0')
            c.ensure(o.st, bs.null if bs.rid is not None else TRUE, 'move: source owns no storage')
            c.ensure(o.st, z3.BoolVal(o.st.regions[S.buf0].alive), 'move: storage kept alive (live storage)')
    deco(fn)(f)

for K, T, C in kinds('Array'):
    array_ctor(C + '::Array(long)', K, False)
    array_ctor(C + '::Array(%s const*, long)' % T, K, True)
    resize_case(C + '::Resize(long)', K)
for cls in ('Array', 'List'):
    for K, T, C in kinds(cls):
        dtor_case(cls, K)
        move_case(cls, C + '::%s(%s&&)' % (cls, C), K, False)
        move_case(cls, C + '::operator=(%s&&)' % C, K, True)
