"""C06 string content, C07 comparison, C08 sharing and storage of ObjectString."""
import z3
from vir.spec import *
from vir.runner import Property

C06 = Property('C06'); C07 = Property('C07'); C08 = Property('C08')
PROPERTIES = [C06, C07, C08]
OWN = r'reference|released|release|leaked|in bounds|frame|write to|not null|null dereference|invalid pointer|uninitialised|initialised|allocation|overlap|owns|terminat|abnormal|shared|storage'
C08.relevant = OWN
C06.relevant = C07.relevant = r'^(?!.*(?:%s))' % OWN
for p in PROPERTIES:
    p.driver = 'strings'
    p.assumptions = ['string lengths at most 2^40; integer arguments: all 64-bit values; every signed operation carries a no-overflow obligation', 'operator new succeeds',
                     'const T* arguments point to zero-terminated text that outlives the call (for Unmanaged: the string)',
                     'other threads change a shared reference count only by taking a reference while holding one, or giving up their own; single strings are not used by two threads at once',
                     'character types char, char16_t, wchar_t (and char32_t in part) stand for all instantiations of the template']
KIND = {'A': Raw8, 'H': Raw16, 'W': Raw32, 'D': Raw32}
TN = {'A': 'char', 'H': 'char16_t', 'W': 'wchar_t', 'D': 'char32_t'}
UNS = {'H', 'D'}

class Str:
    pass

class StrCtx:
    def __init__(self, track, id):
        self.id = id; self.K = KIND[id]
        self.c = track(Ctx('str', opts=dict(array_allocas=True, alloc_const_array=True, stride=self.K.stride)))
        self.objs = []       # string objects alive before the call
        self.rcs = []        # shared counters of the pre-state
        self.off = None
    def raw(self, name='result'):
        sz = const_of(self.c.helper('sz_' + self.id))
        r = self.c.eng.new_struct(self.c.st, name, sz, heap='param')
        return Ptr(r.rid, 0)
    def offsets(self, p):
        if self.off is None:
            self.off = {f: self.c.field(self.id, f, p) for f in ('buffer', 'counter', 'start', 'length', 'realLength')}
        return self.off
    def text(self, name, maybe_null=False, heap=None):
        """zero-terminated text of length z"""
        c = self.c; K = self.K
        z = z3.Int(name + '.len'); f = z3.Function(name + '.ch', INT, INT)
        cnt = z3.Int(name + '.size')
        c.st.add(z3.And(z >= 0, z <= BIG, cnt > z, cnt <= BIG + 1, f(z) == 0))
        q = z3.Int('q!' + name)
        c.st.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < z), f(q) != 0), patterns=[f(q)]))
        c.st.add(z3.ForAll([q], c.eng.dom.range(8 * K.stride, f(q)), patterns=[f(q)]))
        r = c.eng.new_array(c.st, name, K.stride, cnt, heap=heap or 'param')
        K.fill(c.eng, c.st, r, lambda k: f(zi(k)), lambda k: z3.And(zi(k) >= 0, zi(k) < cnt))
        if not heap:
            r.meta['ro'] = True
        c.st.add(z3.Int('base!%d' % r.rid) > 0)
        null = z3.Bool(name + '.null') if maybe_null else FALSE
        return Ptr(r.rid, 0, null), Seq(z, lambda k: f(zi(k))), f
    def string(self, name, managed=True, share=None):
        c = self.c; K = self.K
        s = Str(); s.name = name
        p = c.obj(self.id); s.p = p
        off = self.offsets(p)
        st = c.st
        s.start = z3.Int(name + '.start'); s.len = z3.Int(name + '.length')
        if share is None:
            s.real = z3.Int(name + '.realLength'); s.fn = z3.Function(name + '.ch', INT, INT)
            cnt = z3.Int(name + '.size')
            st.add(z3.And(s.real >= 0, s.real <= BIG, cnt > s.real, cnt <= BIG + 1, s.fn(s.real) == 0))
            b = c.eng.new_array(st, name + '.buffer', K.stride, cnt, heap='new[]' if managed else 'param')
            K.fill(c.eng, st, b, lambda k: s.fn(zi(k)), lambda k: z3.And(zi(k) >= 0, zi(k) < cnt))
            b.meta['ro'] = True
            b.meta['shared'] = True
            s.buf = b.rid
            st.add(z3.Int('base!%d' % b.rid) > 0)
            q = z3.Int('q!' + name)
            st.add(z3.ForAll([q], c.eng.dom.range(8 * K.stride, s.fn(q)), patterns=[s.fn(q)]))
            s.cnt = None
            if managed:
                r = c.eng.new_struct(st, name + '.counter', 8, heap='new')
                r.fields[0] = (8, z3.Int(name + '.rc'))
                r.meta['rc'] = (0, (b.rid,))
                st.ghost[('units', r.rid)] = 1
                s.cnt = r.rid
                self.rcs.append((r.rid, b.rid))
        else:
            s.real = share.real; s.fn = share.fn; s.buf = share.buf; s.cnt = share.cnt
            if s.cnt is not None:
                st.ghost[('units', s.cnt)] += 1
        st.add(z3.And(s.start >= 0, s.len >= 0, s.start + s.len <= s.real))
        r = st.mut(p.rid)
        r.fields[off['buffer']] = (8, Ptr(s.buf, 0))
        r.fields[off['counter']] = (8, Ptr(s.cnt, 0) if s.cnt is not None else Ptr(None, 0))
        r.fields[off['start']] = (8, s.start); r.fields[off['length']] = (8, s.len); r.fields[off['realLength']] = (8, s.real)
        s.seq = Seq(s.len, lambda k: s.fn(s.start + zi(k)))
        self.objs.append(s)
        return s
    # ---------------------------------------------------------------- post-state
    def fields(self, st, p):
        r = st.regions[p.rid]; off = self.off
        return [r.fields[off[f]][1] for f in ('buffer', 'counter', 'start', 'length', 'realLength')]
    def chk(self, o, p, want, what):
        """valid string object at p holding want"""
        c = self.c; st = o.st; eng = c.eng; K = self.K
        buf, cnt, start, length, real = self.fields(st, p)
        c.ensure(st, length == want.n, what + ': length')
        if not isinstance(buf, Ptr) or buf.rid is None or not isinstance(cnt, Ptr):
            raise Unsupported('string buffer shape')
        b = st.regions[buf.rid]
        c.ensure(st, z3.BoolVal(b.alive), what + ': storage of the text is not released')
        c.ensure(st, z3.And(start >= 0, length >= 0, start + length <= real), what + ': view inside of the storage')
        if b.kind == 'struct':
            # the shared empty string
            c.ensure(st, z3.And(length == 0, real == 0, start == 0), what + ': only empty text without own storage')
            return buf.rid, (cnt.rid if not z3.is_true(cnt.null) else None)
        bi, rem = split(buf.off, K.stride)
        if rem:
            raise Unsupported('misaligned text')
        c.ensure(st, z3.And(zi(bi) >= 0, bi + real < zi(b.count)), what + ': terminated storage in bounds')
        c.ensure(st, K.val(eng, st, buf.rid, bi + real) == 0, what + ': storage is zero-terminated')
        c.ensure(st, K.live(eng, st, buf.rid, bi + real), what + ': terminator initialised')
        c.ensure_forall(st, lambda k: K.live(eng, st, buf.rid, bi + start + k), what + ': text initialised', lambda k: z3.And(k >= 0, k < length))
        c.ensure_forall(st, lambda k: K.val(eng, st, buf.rid, bi + start + k) == want.at(k), what + ': characters', lambda k: z3.And(k >= 0, k < length))
        return buf.rid, cnt.rid
    def finish(self, o, strings, what, taken=()):
        """strings: [(p, want)] all string objects alive now; reference counts match, nothing leaked"""
        c = self.c; st = o.st
        refs = {}
        bufs = {}
        for p, want, nm in strings:
            b, k = self.chk(o, p, want, what + ' (%s)' % nm)
            if k is not None:
                refs[k] = refs.get(k, 0) + 1
                bufs.setdefault(k, set()).add(b)
            else:
                r = st.regions[b]
                c.ensure(st, z3.BoolVal(r.heap not in ('new', 'new[]', 'malloc')), what + ' (%s): text without counter owns no heap storage' % nm)
        for k, bs in bufs.items():
            c.ensure(st, z3.BoolVal(len(bs) == 1), what + ': one storage per counter, shared correctly')
        for rid, brid in self.rcs:
            r = st.regions[rid]; b = st.regions[brid]
            u = st.ghost[('units', rid)]
            c.ensure(st, z3.BoolVal(u == refs.get(rid, 0)), what + ': one reference per string sharing the text')
            if rid in bufs:
                c.ensure(st, z3.BoolVal(bufs[rid] == {brid}), what + ': counter belongs to its storage')
            if u == 0:
                lost = r.meta.get('lost', FALSE)
                if r.alive or b.alive:
                    c.ensure(st, lost, what + ': last owner releases text and counter')
                c.ensure(st, z3.BoolVal(r.alive == b.alive), what + ': text and counter released together')
            else:
                c.ensure(st, z3.BoolVal(r.alive and b.alive), what + ': referenced text is not released')
        keep = set(taken)
        for k in refs:
            keep.add(k); keep |= bufs[k]
            r = st.regions[k]
            if 'rc' not in r.meta:
                c.ensure(st, z3.BoolVal(r.alive and r.heap == 'new'), what + ': counter storage is live heap storage')
                v = r.fields.get(0)
                if v is None:
                    c.ensure(st, FALSE, what + ': counter initialised')
                else:
                    c.ensure(st, v[1] == refs[k], what + ': new reference count equals the number of references')
                for b in bufs[k]:
                    br = st.regions[b]
                    c.ensure(st, z3.BoolVal(br.heap == 'new[]' and br.alive and zi(0) is not None), what + ': counted text owns heap storage')
        for rid in st.ghost.get('heap', ()):
            if st.regions[rid].alive and rid not in keep:
                c.ensure(st, FALSE, what + ': no storage leaked')
    def inputs(self, *skip):
        return [(s.p, s.seq, s.name) for s in self.objs if s not in skip]

def cat(a, b):
    return Seq(a.n + b.n, lambda k: z3.If(k < a.n, a.at(k), b.at(k - a.n)))
def sub(a, i, n):
    return Seq(n, lambda k: a.at(i + k))
def repl(a, i, n, b):
    return Seq(a.n - n + b.n, lambda k: z3.If(k < i, a.at(k), z3.If(k < i + b.n, b.at(k - i), a.at(k - b.n + n))))
EMPTY = Seq(I(0), lambda k: I(0))

def case(name, f, ids=('W', 'A', 'H'), props=(C06, C08), tag=''):
    for id in ids:
        def g(track, id=id):
            X = StrCtx(track, id)
            f(X)
        for p in props:
            p.case('vl::ObjectString<%s>::%s%s' % (TN[id], name, tag), 'str')(g)

def run(X, op, args):
    return X.c.run('api_%s_%s' % (X.id, op), args)

def judge(X, outs, ok, result, what, mutated=(), extra=None, taken=(), taken_on_error=None):
    """result: list of (ptr, Seq, name) beyond unchanged inputs"""
    c = X.c
    seen = False
    for o in outs:
        if o.kind == 'throw':
            c.ensure(o.st, z3.BoolVal(c.is_error(o)), what + ': raises Error')
            c.ensure(o.st, z3.Not(ok), what + ': raises only for an invalid argument')
            X.finish(o, X.inputs(), what + ' after Error', taken=taken)
        else:
            seen = True
            c.ensure(o.st, ok, what + ': accepts only valid arguments')
            X.finish(o, X.inputs(*mutated) + list(result), what)
            if extra:
                extra(o)
    if not seen and c.eng.feasible(c.st, ok):
        raise Unsupported('no returning path')

MODES = [(' [counted text]', True), (' [text without counter]', False)]
for tag, m in MODES:
    def f(X, m=m):
        s = X.string('s', m); o = X.raw()
        judge(X, run(X, 'cctor', [o, s.p]), TRUE, [(o, s.seq, 'copy')], 'copy construction')
    case('ObjectString(const ObjectString&)', f, tag=tag)
    def f(X, m=m):
        s = X.string('s', m); o = X.raw()
        judge(X, run(X, 'mctor', [o, s.p]), TRUE, [(o, s.seq, 'moved'), (s.p, EMPTY, 'source')], 'move construction', [s])
    case('ObjectString(ObjectString&&)', f, tag=tag)
    def f(X, m=m):
        s = X.string('s', m)
        judge(X, run(X, 'dtor', [s.p]), TRUE, [], 'destruction', [s])
    case('~ObjectString()', f, tag=tag)
    def f(X, m=m):
        s = X.string('s', m)
        def extra(o):
            v = o.val
            if not isinstance(v, Ptr) or v.rid is None:
                raise Unsupported('result pointer')
            c = X.c; K = X.K; r = o.st.regions[v.rid]
            if r.kind == 'struct':
                c.ensure(o.st, s.len == 0, 'Buffer: shared empty text only for an empty string'); return
            b, rem = split(v.off, K.stride)
            c.ensure(o.st, z3.BoolVal(r.alive), 'Buffer: result points to live storage')
            c.ensure(o.st, z3.And(zi(b) >= 0, b + s.len < zi(r.count)), 'Buffer: result in bounds')
            c.ensure(o.st, K.val(c.eng, o.st, v.rid, b + s.len) == 0, 'Buffer: zero after the last character')
            c.ensure_forall(o.st, lambda k: K.val(c.eng, o.st, v.rid, b + k) == s.seq.at(k), 'Buffer: the characters of the string', lambda k: z3.And(k >= 0, k < s.len))
            bf = X.fields(o.st, s.p)[0]
            c.ensure(o.st, z3.BoolVal(bf.rid == v.rid), 'Buffer: result stays owned by the string')
        judge(X, run(X, 'Buffer', [s.p]), TRUE, [(s.p, s.seq, 's')], 'Buffer', [s], extra)
    case('Buffer()', f, tag=tag)
    def f(X, m=m):
        s = X.string('s', m); i = X.c.int('index')
        def extra(o):
            X.c.ensure(o.st, o.val == s.seq.at(i), 'operator[]: character')
        judge(X, run(X, 'at', [s.p, i]), z3.And(i >= 0, i < s.len), [], 'operator[]', (), extra)
    case('operator[](vint)', f, tag=tag)
    def f(X, m=m):
        s = X.string('s', m)
        judge(X, run(X, 'Length', [s.p]), TRUE, [], 'Length', (), lambda o: X.c.ensure(o.st, o.val == s.len, 'Length: result'))
    case('Length()', f, tag=tag)
    def f(X, m=m):
        s = X.string('s', m); ch = X.c.eng.dom.var(8 * X.K.stride, 'ch'); X.c.st.add(X.c.eng.dom.range(8 * X.K.stride, ch))
        def extra(o):
            r = o.val
            j = z3.FreshConst(INT, 'j')
            X.c.ensure(o.st, z3.Or(r == -1, z3.And(r >= 0, r < s.len, s.seq.at(r) == ch)), 'IndexOf: result is -1 or a position of the character')
            t = o.st.copy(); t.add(z3.And(j >= 0, j < z3.If(r == -1, s.len, r)))
            X.c.ensure(t, s.seq.at(j) != ch, 'IndexOf: no earlier occurrence')
        judge(X, run(X, 'IndexOf', [s.p, ch]), TRUE, [], 'IndexOf', (), extra)
    case('IndexOf(T)', f, tag=tag)
    def f(X, m=m):
        s = X.string('s', m); n = X.c.int('count'); o = X.raw()
        judge(X, run(X, 'Left', [o, s.p, n]), z3.And(n >= 0, n <= s.len), [(o, sub(s.seq, I(0), n), 'result')], 'Left')
    case('Left(vint)', f, tag=tag)
    def f(X, m=m):
        s = X.string('s', m); n = X.c.int('count'); o = X.raw()
        judge(X, run(X, 'Right', [o, s.p, n]), z3.And(n >= 0, n <= s.len), [(o, sub(s.seq, s.len - n, n), 'result')], 'Right')
    case('Right(vint)', f, tag=tag)
    def f(X, m=m):
        s = X.string('s', m); i = X.c.int('index'); n = X.c.int('count'); o = X.raw()
        judge(X, run(X, 'Sub', [o, s.p, i, n]), z3.And(i >= 0, n >= 0, i + n <= s.len), [(o, sub(s.seq, i, n), 'result')], 'Sub')
    case('Sub(vint, vint)', f, tag=tag)
    def f(X, m=m):
        s = X.string('s', m); i = X.c.int('index'); n = X.c.int('count'); o = X.raw()
        judge(X, run(X, 'Remove', [o, s.p, i, n]), z3.And(i >= 0, i < s.len, n >= 0, i + n <= s.len), [(o, repl(s.seq, i, n, EMPTY), 'result')], 'Remove')
    case('Remove(vint, vint)', f, tag=tag)

BIN = [(' [two texts]', True, None), (' [second text without counter]', False, None), (' [both views of one text]', True, 'share'), (' [same object]', True, 'same')]
def two(X, managed, how):
    a = X.string('a', True)
    if how == 'same':
        return a, a
    if how == 'share':
        return a, X.string('b', True, share=a)
    return a, X.string('b', managed)
for tag, m, how in BIN:
    def f(X, m=m, how=how):
        a, b = two(X, m, how)
        judge(X, run(X, 'cassign', [a.p, b.p]), TRUE, [(a.p, b.seq, 'target')], 'copy assignment', [a])
    case('operator=(const ObjectString&)', f, tag=tag)
    if how != 'same':
        def f(X, m=m, how=how):
            a, b = two(X, m, how)
            judge(X, run(X, 'massign', [a.p, b.p]), TRUE, [(a.p, b.seq, 'target'), (b.p, EMPTY, 'source')], 'move assignment', [a, b])
        case('operator=(ObjectString&&)', f, tag=tag)
    def f(X, m=m, how=how):
        a, b = two(X, m, how)
        judge(X, run(X, 'append', [a.p, b.p]), TRUE, [(a.p, cat(a.seq, b.seq), 'target')], 'operator+=', [a])
    case('operator+=(const ObjectString&)', f, tag=tag)
    def f(X, m=m, how=how):
        a, b = two(X, m, how); o = X.raw()
        judge(X, run(X, 'add', [o, a.p, b.p]), TRUE, [(o, cat(a.seq, b.seq), 'result')], 'operator+')
    case('operator+(const ObjectString&)', f, tag=tag)
    def f(X, m=m, how=how):
        a, b = two(X, m, how); o = X.raw(); i = X.c.int('index')
        judge(X, run(X, 'Insert', [o, a.p, i, b.p]), z3.And(i >= 0, i <= a.len), [(o, repl(a.seq, i, I(0), b.seq), 'result')], 'Insert')
    case('Insert(vint, const ObjectString&)', f, tag=tag)

def f(X):
    o = X.raw(); X.string('other')
    judge(X, run(X, 'ctor', [o]), TRUE, [(o, EMPTY, 'result')], 'default construction')
case('ObjectString()', f)
def f(X):
    t, seq, _ = X.text('text', True); o = X.raw(); X.string('other')
    judge(X, run(X, 'pctor', [o, t]), z3.Not(t.null), [(o, seq, 'result')], 'construction from text')
case('ObjectString(const T*)', f)
def f(X):
    t, seq, _ = X.text('text', True); o = X.raw(); X.string('other')
    def extra(oo):
        X.c.ensure(oo.st, z3.BoolVal(X.fields(oo.st, o)[0].rid == t.rid), 'Unmanaged: refers to the given text')
    judge(X, run(X, 'Unmanaged', [o, t]), z3.Not(t.null), [(o, seq, 'result')], 'Unmanaged', (), extra)
case('Unmanaged(const T*)', f)
def f(X):
    c = X.c
    n = c.int('length'); c.st.add(n <= BIG)
    fn = z3.Function('buf.ch', INT, INT); cnt = z3.Int('buf.size')
    c.st.add(z3.And(cnt > n, cnt >= 1, cnt <= BIG + 2))
    r = c.eng.new_array(c.st, 'buf', X.K.stride, cnt, heap='new[]')
    X.K.fill(c.eng, c.st, r, lambda k: fn(zi(k)), lambda k: z3.And(zi(k) >= 0, zi(k) < cnt))
    q = z3.Int('q!buf'); c.st.add(z3.ForAll([q], c.eng.dom.range(8 * X.K.stride, fn(q)), patterns=[fn(q)]))
    o = X.raw(); X.string('other')
    def extra(oo):
        c.ensure(oo.st, z3.BoolVal(X.fields(oo.st, o)[0].rid == r.rid), 'TakeOver: the string owns the given storage')
    judge(X, run(X, 'TakeOver', [o, Ptr(r.rid, 0), n]), z3.And(n >= 0, fn(n) == 0), [(o, Seq(n, lambda k: fn(k)), 'result')], 'TakeOver', (), extra)
case('TakeOver(T*, vint)', f)
def f(X):
    c = X.c
    n = c.int('length'); c.st.add(n <= BIG)
    fn = z3.Function('buf.ch', INT, INT); cnt = z3.Int('buf.size')
    c.st.add(z3.And(cnt >= n, cnt >= 0, cnt <= BIG + 2))
    r = c.eng.new_array(c.st, 'buf', X.K.stride, cnt, heap='param')
    X.K.fill(c.eng, c.st, r, lambda k: fn(zi(k)), lambda k: z3.And(zi(k) >= 0, zi(k) < cnt)); r.meta['ro'] = True
    o = X.raw(); X.string('other')
    judge(X, run(X, 'CopyFrom', [o, Ptr(r.rid, 0), n]), n >= 0, [(o, Seq(n, lambda k: fn(k)), 'result')], 'CopyFrom')
case('CopyFrom(const T*, vint)', f)
def f(X):
    ch = X.c.eng.dom.var(8 * X.K.stride, 'ch'); X.c.st.add(X.c.eng.dom.range(8 * X.K.stride, ch))
    o = X.raw(); X.string('other')
    judge(X, run(X, 'FromChar', [o, ch]), TRUE, [(o, Seq(z3.If(ch == 0, I(0), I(1)), lambda k: ch), 'result')], 'FromChar')
case('FromChar(T)', f)
def f(X):
    a = X.string('a'); t, seq, _ = X.text('text')
    judge(X, run(X, 'appendp', [a.p, t]), TRUE, [(a.p, cat(a.seq, seq), 'target')], 'operator+=(text)', [a])
case('operator+=(const T*)', f)
def f(X):
    a = X.string('a'); t, seq, _ = X.text('text'); o = X.raw()
    judge(X, run(X, 'addp', [o, a.p, t]), TRUE, [(o, cat(a.seq, seq), 'result')], 'operator+(text)')
case('operator+(const T*)', f)
def f(X):
    a = X.string('a'); t, seq, _ = X.text('text'); o = X.raw()
    judge(X, run(X, 'padd', [o, t, a.p]), TRUE, [(o, cat(seq, a.seq), 'result')], 'text + string')
case('operator+(const T*, const ObjectString&)', f)

# ------------------------------------------------------------------ comparison
def ordering(X, a, b):
    """expected three-way result of two sequences"""
    c = X.c; st = c.st
    d = z3.Int('first_difference')
    m = z3.If(a.n < b.n, a.n, b.n)
    q = z3.Int('q')
    st.add(z3.And(d >= 0, d <= m))
    st.add(z3.Or(d == m, a.at(d) != b.at(d)))
    pa, pb = a.at(q), b.at(q)
    st.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < d), pa == pb), patterns=[pa, pb] if not pa.eq(pb) else [pa]))
    u = (lambda v: c.eng.dom.uns(8 * X.K.stride, v)) if X.id in UNS else (lambda v: v)
    x, y = u(a.at(d)), u(b.at(d))
    return z3.If(d == m, z3.If(a.n < b.n, I(-1), z3.If(a.n > b.n, I(1), I(0))), z3.If(x < y, I(-1), I(1)))
def cmp_case(name, op, mk, eq, tag=''):
    def f(X):
        pa, a, pb, b = mk(X)
        want = ordering(X, a, b)
        def extra(o):
            if eq:
                X.c.ensure(o.st, B(o.val) == (want == 0), 'equal exactly when the same characters')
            else:
                X.c.ensure(o.st, o.val == want, 'lexicographic order')
        judge(X, run(X, op, [pa, pb]), TRUE, [], 'comparison', (), extra)
    case(name, f, props=(C07, C08), tag=tag)
for tag, m, how in BIN:
    def mk(X, m=m, how=how):
        a, b = two(X, m, how)
        return a.p, a.seq, b.p, b.seq
    cmp_case('operator<=>(const ObjectString&)', 'cmp', mk, False, tag)
    cmp_case('operator==(const ObjectString&)', 'eq', mk, True, tag)
def mk(X):
    a = X.string('a'); t, seq, _ = X.text('text')
    return a.p, a.seq, t, seq
cmp_case('operator<=>(const T*)', 'cmpp', mk, False); cmp_case('operator==(const T*)', 'eqp', mk, True)
def mk(X):
    a = X.string('a'); t, seq, _ = X.text('text')
    return t, seq, a.p, a.seq
cmp_case('operator<=>(const T*, const ObjectString&)', 'pcmp', mk, False); cmp_case('operator==(const T*, const ObjectString&)', 'peq', mk, True)

# UnsafeCastFrom: same text under another character type of the same size
def f(X):
    s = X.string('s', True); o = X.raw()
    judge(X, X.c.run('api_W_cast', [o, s.p]), TRUE, [(o, s.seq, 'result')], 'UnsafeCastFrom')
case('UnsafeCastFrom(const ObjectString<char32_t>&)', f, ids=('W',))
