"""C09 code points <-> UTF-8 / UTF-16 / UTF-16BE / wide, C10 conversion of texts."""
import z3
from vir.spec import *
from vir.engine import BVDom
from vir.runner import Property

C09 = Property('C09'); C10 = Property('C10')
PROPERTIES = [C09, C10]
for p in PROPERTIES:
    p.driver = 'utf'
bv = z3.BitVecVal

# ------------------------------------------------------------------ C09 (bit vectors)
def enc8(c):
    """[(condition, units)] of the encoding of c (32 bit)"""
    def cont(sh):
        return bv(0x80, 8) | z3.Extract(7, 0, z3.LShR(c, sh) & 0x3F)
    out = [(z3.ULE(c, 0x7F), [z3.Extract(7, 0, c)])]
    lo = 0x7F
    for n, hi, lead, in ((2, 0x7FF, 0xC0), (3, 0xFFFF, 0xE0), (4, 0x1FFFFF, 0xF0), (5, 0x3FFFFFF, 0xF8), (6, 0x7FFFFFFF, 0xFC)):
        g = z3.And(z3.UGT(c, lo), z3.ULE(c, hi))
        if n == 3:
            g = z3.And(g, z3.Or(z3.ULT(c, 0xD800), z3.UGT(c, 0xDFFF)))
        out.append((g, [z3.Extract(7, 0, z3.LShR(c, 6 * (n - 1))) | bv(lead, 8)] + [cont(6 * k) for k in range(n - 2, -1, -1)]))
        lo = hi
    return out
def enc16(c, swap=False):
    f = (lambda x: z3.Concat(z3.Extract(7, 0, x), z3.Extract(15, 8, x))) if swap else (lambda x: x)
    d = c - 0x10000
    return [(z3.And(z3.ULE(c, 0xFFFF), z3.Or(z3.ULT(c, 0xD800), z3.UGT(c, 0xDFFF))), [f(z3.Extract(15, 0, c))]),
            (z3.And(z3.ULE(0x10000, c), z3.ULE(c, 0x10FFFF)), [f(bv(0xD800, 16) | z3.Extract(15, 0, z3.LShR(d, 10))), f(bv(0xDC00, 16) | (z3.Extract(15, 0, d) & 0x3FF))])]
ENC = {'u8': (enc8, 1, 6, 'UTF-8'), 'u16': (enc16, 2, 2, 'UTF-16'), 'be': (lambda c: enc16(c, True), 2, 2, 'UTF-16 big endian'), 'w': (lambda c: [(TRUE, [c])], 4, 1, 'wide')}
C09.assumptions = ['the source passed to To32 has sourceLength readable units']

def ctx9(track):
    return track(Ctx('utf', dom=BVDom(), opts=dict(unroll=8)))
def buf(c, name, w, n, init=True):
    r = c.eng.new_struct(c.st, name, w * max(n, 1), heap='param')
    us = [z3.BitVec('%s%d' % (name, k), 8 * w) for k in range(n)]
    if init:
        for k, u in enumerate(us):
            r.fields[k * w] = (w, u)
    return Ptr(r.rid, 0), us
for id in ENC:
    def f(track, id=id):
        enc, w, N, _ = ENC[id]
        c = ctx9(track); cp = z3.BitVec('code', 32)
        d, _ = buf(c, 'dest', w, N, False)
        for o in c.run('api_%s_from' % id, [cp, d]):
            if o.kind != 'ret':
                c.ensure(o.st, FALSE, 'does not raise'); continue
            alts = enc(cp)
            for g, us in alts:
                s = o.st.copy(); s.add(g)
                if not c.eng.feasible(s):
                    continue
                c.ensure(s, o.val == len(us), 'number of units')
                for k, u in enumerate(us):
                    x = s.regions[d.rid].fields.get(k * w)
                    c.ensure(s, x[1] == u if x is not None and x[0] == w else FALSE, 'unit %d of the encoding' % k)
            c.ensure(o.st, z3.Implies(z3.Not(z3.Or([g for g, _ in alts])), o.val == -1), 'a value that is not a code point is refused')
    C09.case('UtfConversion<%s>::From32' % id, 'utf')(f)
    def f(track, id=id, L=None):
        enc, w, N, _ = ENC[id]
        for L in list(range(0, N + 1)) + ['more', 'negative']:
            c = ctx9(track)
            n = N if L == 'more' else 0 if L == 'negative' else L
            s, us = buf(c, 'source', w, n)
            for k, u in enumerate(us):
                c.st.mut(s.rid)
            Lv = z3.BitVec('sourceLength', 64)
            c.st.add(z3.And(Lv > N) if L == 'more' else Lv < 0 if L == 'negative' else Lv == L)
            Lx = Lv if isinstance(L, str) else bv(L, 64)
            d, _ = buf(c, 'code', 4, 1, False)
            cp = z3.BitVec('anycode', 32)
            for o in c.run('api_%s_to' % id, [s, Lx, d]):
                if o.kind != 'ret':
                    c.ensure(o.st, FALSE, 'does not raise'); continue
                x = o.st.regions[d.rid].fields.get(0)
                for k, u in enumerate(us):
                    c.ensure(o.st, o.st.regions[s.rid].fields[k * w][1] == u, 'source unchanged')
                # accepted: exactly the encoding of the code point reported
                acc = []
                if x is not None:
                    for g, e in enc(x[1]):
                        if len(e) <= n:
                            acc.append(z3.And(g, o.val == len(e), *[us[k] == e[k] for k in range(len(e))]))
                c.ensure(o.st, z3.Or(o.val == -1, *acc), 'accepts only a well-formed sequence, reports its code point and length')
                # every encoding is accepted
                for g, e in enc(cp):
                    if len(e) <= n:
                        t = o.st.copy(); t.add(g)
                        for k in range(len(e)):
                            t.add(us[k] == e[k])
                        if c.eng.feasible(t):
                            c.ensure(t, z3.And(o.val == len(e), x[1] == cp if x is not None else FALSE), 'decodes the encoding of every code point (%d units)' % len(e))
    C09.case('UtfConversion<%s>::To32' % id, 'utf')(f)

# ------------------------------------------------------------------ C10
UT = {'8': ('char8_t', 1, 6, 'Du'), '16': ('char16_t', 2, 2, 'Ds'), 'BE': ('vl::char16be_t', 2, 2, 'N2vl10char16be_tE'), 'W': ('wchar_t', 4, 1, 'w'), '32': ('char32_t', 4, 1, 'Di')}
C10.assumptions = ['text lengths at most 2^40', 'the text given to UtfString... readers and _utftoutf is zero-terminated, or the range is valid',
                   'UtfConversion::From32/To32 appear by the contracts discharged for C09; a composite reader appears by the contracts of its two halves',
                   'conversion to and from char: wcstombs and mbstowcs behave as documented by ISO C',
                   'operator new succeeds']

class RC10:
    """a reader object over an abstract source of n units S(0..n)"""
    def __init__(self, track, id, src, code):
        self.c = c = track(Ctx('utf', opts=dict(unroll=8)))
        self.id = id
        self.n = n = z3.Int('source.length'); self.S = S = z3.Function('source', INT, INT)
        c.st.add(z3.And(n >= 0, n <= BIG))
        q = z3.Int('q')
        T, w, N, mang = UT[src]
        c.st.add(z3.ForAll([q], z3.And(c.eng.dom.range(8 * w, S(q)), z3.Implies(z3.And(q >= 0, q < n), S(q) != 0)), patterns=[S(q)]))
        def consume(eng, st, a):
            p = Ptr(a[0].rid, a[0].off + self.osrc)
            at = eng.load(st, ('int', 64), p)
            out = []
            for more in (True, False):
                s = st.copy(); s.add(at < n if more else at >= n)
                if eng.feasible(s):
                    if more:
                        eng.store(s, ('int', 64), at + 1, p)
                    out.append(Outcome(s, 'ret', S(at) if more else I(0)))
            return out
        c.eng.externs['_ZN3SrcI%sE7ConsumeEv' % mang] = consume
    def obj(self):
        c = self.c
        self.p = c.obj(self.id)
        return self.p
    def offs(self, *fs):
        return [self.c.field(self.id, f, self.p) for f in fs]
    def put(self, off, v, w=8):
        self.c.st.mut(self.p.rid).fields[self.p.off + off] = (w, v)
    def get(self, st, off, w=8):
        x = st.regions[self.p.rid].fields.get(self.p.off + off)
        if x is None or x[0] != w:
            raise Unsupported('field layout')
        return x[1]
    def view(self, o, idx, ci, cs, what, src=None):
        """what ReadingIndex and SourceCluster report"""
        c = self.c; st = o.st.copy()
        for x in c.eng.call_function(st.copy(), 'api_%s_idx' % self.id, [self.p]):
            c.ensure(x.st, x.val == idx, what + ': ReadingIndex')
        r = c.eng.new_struct(st, 'cluster', 16, heap='param')
        for x in c.eng.call_function(st, 'api_%s_cluster' % self.id, [self.p, Ptr(r.rid, 0)]):
            f = x.st.regions[r.rid].fields
            c.ensure(x.st, z3.And(f[0][1] == ci, f[8][1] == cs), what + ': SourceCluster')

def to_reader(src):
    id = 'T' + src; T, w, N, mang = UT[src]
    for a0 in list(range(N)) + [-1]:
        def f(track, a0=a0):
            X = RC10(track, id, src, None); c = X.c; p = X.obj()
            osrc, oav, obuf, osc, orc = X.offs('at', 'available', 'buffer', 'sourceCluster', 'readCounter'); X.osrc = osrc
            ci, cs, rc = c.int('cluster.index', 0, BIG), c.int('cluster.size', 0, 6), c.int('readCounter', -1, BIG)
            pos = ci + cs
            X.put(oav, I(a0)); X.put(osc, ci); X.put(osc + 8, cs); X.put(orc, rc)
            q0 = pos + a0 if a0 >= 0 else c.int('at', 0, BIG)
            X.put(osrc, q0)
            if a0 >= 0:
                c.st.add(q0 <= X.n)
                for j in range(a0):
                    X.put(obuf + w * j, X.S(pos + j), w)
            dl = z3.Function('decoded_length', INT, INT); dv = z3.Function('decoded', INT, INT)
            def to32(eng, st, a):
                L = const_of(a[1])
                if L is None:
                    raise Unsupported('To32 with an unknown length')
                eng.require(st, z3.And(pos + L <= X.n, z3.BoolVal(True) if L == N else pos + L == X.n), 'To32 is given the next units of the source, as many as there are up to the longest sequence')
                for j in range(L):
                    eng.require(st, eng.load(st, ('int', 8 * w), Ptr(a[0].rid, a[0].off + w * j)) == X.S(pos + j), 'To32 is given the units of the source in order')
                out = []
                for r in [-1] + list(range(1, L + 1)):
                    s = st.copy(); s.add(dl(pos) == r)
                    if r > 0:
                        s.add(z3.And(dv(pos) != 0, eng.dom.range(32, dv(pos))))
                        eng.store(s, ('int', 32), dv(pos), a[2])
                    out.append(Outcome(s, 'ret', I(r)))
                return out
            c.eng.contracts['vl::encoding::UtfConversion<%s>::To32(%s const*, long, char32_t&)' % (T, T)] = to32
            for o in c.run('api_%s_Read' % id, [p]):
                if o.kind != 'ret':
                    c.ensure(o.st, FALSE, 'Read: does not raise'); continue
                st = o.st
                av = X.get(st, oav); n_ = X.n
                if a0 == -1:
                    c.ensure(st, z3.And(o.val == 0, av == -1), 'Read after the end: zero'); X.view(o, rc, ci, cs, 'Read after the end'); continue
                end = st.copy(); end.add(pos == n_)
                if c.eng.feasible(end):
                    c.ensure(end, z3.And(o.val == 0, av == -1), 'Read at the end: zero')
                    X.view(Outcome(end, 'ret', None), rc + 1, n_, I(0), 'Read at the end')
                bad = st.copy(); bad.add(z3.And(pos < n_, dl(pos) == -1))
                if c.eng.feasible(bad):
                    c.ensure(bad, z3.And(o.val == 0, av == -1), 'Read of a malformed sequence: zero, and no more characters')
                ok = st.copy(); ok.add(z3.And(pos < n_, dl(pos) > 0))
                if c.eng.feasible(ok):
                    avc = const_of(av)
                    if avc is None:
                        raise Unsupported('buffered units')
                    c.ensure(ok, o.val == dv(pos), 'Read: the decoded character')
                    X.view(Outcome(ok, 'ret', None), rc + 1, pos, dl(pos), 'Read')
                    c.ensure(ok, z3.And(X.get(ok, osrc) == pos + dl(pos) + av, av >= 0, av < N, X.get(ok, osrc) <= n_, X.get(ok, osc) == pos, X.get(ok, osc + 8) == dl(pos)), 'Read: buffered units are those that follow the character')
                    for j in range(max(avc, 0)):
                        c.ensure(ok, X.get(ok, obuf + w * j, w) == X.S(pos + dl(pos) + j), 'Read: buffered units are those that follow the character')
        C10.case('UtfTo32ReaderBase<%s>::Read [%s]' % (T, 'ended' if a0 < 0 else '%d units buffered' % a0), 'utf')(f)
for src in ('8', '16', 'BE', 'W'):
    to_reader(src)

def from_reader(dst, id, internal=None):
    T, w, N, mang = UT[dst]
    states = [('start', 0, 0)] + [('read %d of %d units' % (r, a), r, a) for a in range(1, N + 1) for r in range(1, a + 1)] + [('ended', 0, -1)]
    for nm, rd, av0 in states:
        def f(track, rd=rd, av0=av0):
            X = RC10(track, id, '32', None); c = X.c; p = X.obj()
            if internal:
                ord_, oav, obuf, osc, orc = [x for x in X.offs('read', 'available', 'buffer', 'sourceCluster', 'readCounter')]
                oint, = X.offs('internalReader')
            else:
                osrc, ord_, oav, obuf, osc, orc = X.offs('at', 'read', 'available', 'buffer', 'sourceCluster', 'readCounter'); X.osrc = osrc
            ci, cs, rc = c.int('cluster.index', 0, BIG), c.int('cluster.size', 0, 1), c.int('readCounter', -1, BIG)
            X.put(ord_, I(rd)); X.put(oav, I(av0)); X.put(osc, ci); X.put(osc + 8, cs); X.put(orc, rc)
            if av0 == 0:
                c.st.add(z3.And(ci == 0, cs == 0))
            if av0 > 0:
                c.st.add(cs == 1)
            pos = ci + cs
            e = z3.Function('unit', INT, INT, INT); el = z3.Function('units', INT, INT)
            q = z3.Int('q'); r_ = z3.Int('r')
            c.st.add(z3.ForAll([q, r_], z3.And(c.eng.dom.range(8 * w, e(q, r_)), e(q, r_) != 0), patterns=[e(q, r_)]))
            cur = X.S(ci)
            for j in range(max(av0, 0)):
                X.put(obuf + w * j, e(cur, j), w)
            if internal:
                k0 = c.int('characters read', 0, BIG)
                c.st.add(k0 == pos)
                c.st.mut(p.rid).fields[(oint, 'k')] = (1, k0)
                def iread(eng, st, a):
                    eng.require(st, z3.BoolVal(a[0].rid == p.rid and a[0].off == oint), 'reads from the inner reader')
                    out = []
                    k = st.regions[p.rid].fields[(oint, 'k')][1]
                    for more in (True, False):
                        s = st.copy(); s.add(k < X.n if more else k >= X.n)
                        if more:
                            s.mut(p.rid).fields[(oint, 'k')] = (1, k + 1)
                        if eng.feasible(s):
                            out.append(Outcome(s, 'ret', X.S(k) if more else I(0)))
                    return out
                c.eng.contracts['vl::encoding::UtfTo32ReaderBase<%s, Src<%s>>::Read()' % (UT[internal][0], UT[internal][0])] = iread
                at = lambda st: st.regions[p.rid].fields[(oint, 'k')][1]
            else:
                X.put(osrc, pos if av0 >= 0 else c.int('at', 0, BIG))
                at = lambda st: X.get(st, osrc)
            c.st.add(pos <= X.n)
            def from32(eng, st, a):
                out = []
                for r in [-1] + list(range(1, N + 1)):
                    s = st.copy(); s.add(el(a[0]) == r)
                    for j in range(r):
                        eng.store(s, ('int', 8 * w), e(a[0], j), Ptr(a[1].rid, a[1].off + w * j))
                    out.append(Outcome(s, 'ret', I(r)))
                return out
            c.eng.contracts['vl::encoding::UtfConversion<%s>::From32(char32_t, %s (&) [%d])' % (T, T, N)] = from32
            uns = lambda v: c.eng.dom.uns(8 * w, v) if w < 4 else v
            def inv(st, k, r, what):
                c.ensure(st, z3.And(X.get(st, ord_) == r, X.get(st, oav) == el(X.S(k)), at(st) == k + 1), what + ': next unit')
                a = const_of(X.get(st, oav))
                if a is None:
                    raise Unsupported('buffered units')
                for j in range(max(a, 0)):
                    c.ensure(st, X.get(st, obuf + w * j, w) == e(X.S(k), j), what + ': units of the current character')
                if not internal:
                    X.view(Outcome(st, 'ret', None), rc + 1, k, I(1), what)
                else:
                    c.ensure(st, z3.And(X.get(st, osc) == k, X.get(st, osc + 8) == 1, X.get(st, orc) == rc + 1), what + ': position')
            if av0 > 0:
                c.st.add(el(cur) == av0)
            for o in c.run('api_%s_Read' % id.rstrip('_'), [p]):
                if o.kind != 'ret':
                    c.ensure(o.st, FALSE, 'Read: does not raise'); continue
                st = o.st
                if av0 == -1:
                    c.ensure(st, z3.And(o.val == 0, X.get(st, oav) == -1), 'Read after the end: zero'); continue
                if rd < av0:
                    c.ensure(st, o.val == uns(e(cur, rd)), 'Read: next unit of the current character'); inv(st, ci, rd + 1, 'Read'); continue
                end = st.copy(); end.add(pos >= X.n)
                if c.eng.feasible(end):
                    c.ensure(end, z3.And(o.val == 0, X.get(end, oav) == -1), 'Read at the end: zero')
                    if not internal:
                        X.view(Outcome(end, 'ret', None), rc + 1, X.n, I(0), 'Read at the end')
                bad = st.copy(); bad.add(z3.And(pos < X.n, el(X.S(pos)) == -1))
                if c.eng.feasible(bad):
                    c.ensure(bad, z3.And(o.val == 0, X.get(bad, oav) == -1), 'Read of a value that is not a character: zero, and no more units')
                ok = st.copy(); ok.add(z3.And(pos < X.n, el(X.S(pos)) > 0))
                if c.eng.feasible(ok):
                    c.ensure(ok, o.val == uns(e(X.S(pos), 0)), 'Read: first unit of the next character')
                    inv(ok, pos, 1, 'Read')
        C10.case('%s<%s>::Read [%s]' % ('UtfToUtfReader' if internal else 'UtfFrom32ReaderBase', T if not internal else UT[internal][0] + ', ' + T, nm), 'utf')(f)
for dst in ('8', '16', 'BE', 'W'):
    from_reader(dst, 'F' + dst)
from_reader('16', 'X816_', '8'); from_reader('8', 'X168_', '16')

# direct readers
for src, id in (('32', 'D32'), ('W', 'DW')):
    for ended in (False, True):
        def f(track, src=src, id=id, ended=ended):
            X = RC10(track, id, src, None); c = X.c; p = X.obj()
            osrc, oend, orc = X.offs('at', 'ended', 'readCounter'); X.osrc = osrc
            rc = c.int('readCounter', -1, BIG)
            at = z3.If(rc < 0, I(0), rc) if ended else rc + 1
            c.st.add(rc == X.n if ended else rc < X.n)
            X.put(oend, I(1 if ended else 0), 1); X.put(orc, rc); X.put(osrc, rc if ended else rc + 1)
            for o in c.run('api_%s_Read' % id, [p]):
                st = o.st
                k = rc if ended else rc + 1
                more = st.copy(); more.add(k < X.n)
                if c.eng.feasible(more):
                    c.ensure(more, z3.And(o.val == X.S(k), X.get(more, oend, 1) == 0, X.get(more, osrc) == k + 1, X.get(more, orc) == k), 'Read: next character')
                    X.view(Outcome(more, 'ret', None), k, k, I(1), 'Read')
                end = st.copy(); end.add(k >= X.n)
                if c.eng.feasible(end):
                    c.ensure(end, z3.And(o.val == 0, X.get(end, oend, 1) != 0, X.get(end, osrc) == X.n, X.get(end, orc) == X.n), 'Read at the end: zero')
                    X.view(Outcome(end, 'ret', None), X.n, X.n, I(0), 'Read at the end')
        C10.case('Utf32DirectReaderBase<%s>::Read [%s]' % (UT[src][0], 'ended' if ended else 'not ended'), 'utf')(f)

# consumers over real storage
def text10(c, name, w, terminated, heap='param'):
    z = z3.Int(name + '.length'); S = z3.Function(name, INT, INT); q = z3.Int('q!' + name)
    c.st.add(z3.And(z >= 0, z <= BIG))
    c.st.add(z3.ForAll([q], z3.And(c.eng.dom.range(8 * w, S(q)), z3.Implies(z3.And(q >= 0, q < z), S(q) != 0)), patterns=[S(q)]))
    cnt = z + 1 if terminated else z
    if terminated:
        c.st.add(S(z) == 0)
    r = c.eng.new_array(c.st, name, w, cnt, heap=heap)
    r.lanes[(0, 'raw')] = base_lane(lambda k: S(zi(k)), w); r.lanes[(0, 'init')] = base_lane(lambda k: TRUE)
    r.meta['ro'] = True
    c.st.add(z3.Int('base!%d' % r.rid) > 0)
    return r, z, S
for t in ('8', '16', 'BE', '32', 'W'):
    def f(track, t=t):
        T, w, N, mang = UT[t]
        uns = lambda c, v: c.eng.dom.uns(8 * w, v) if w < 4 else v
        c = track(Ctx('utf')); r, z, S = text10(c, 'text', w, True)
        s = c.eng.new_struct(c.st, 'consumer', const_of(c.helper('sz_SC' + t)), heap='param'); p = Ptr(s.rid, 0)
        for o in c.run('api_SC%s_ctor' % t, [p, Ptr(r.rid, 0)]):
            c.st = o.st
        of = c.field('SC' + t, 'consuming', p)
        at = c.int('position', 0, BIG); c.st.add(at <= z)
        x = c.st.regions[p.rid].fields[of][1]
        c.ensure(c.st, z3.BoolVal(isinstance(x, Ptr) and x.rid == r.rid and x.off == 0), 'begins with the first unit')
        c.st.mut(p.rid).fields[of] = (8, Ptr(r.rid, norm(w * at)))
        for o in c.run('api_SC%s_Consume' % t, [p]):
            x = o.st.regions[p.rid].fields[of][1]
            c.ensure(o.st, o.val == z3.If(at < z, uns(c, S(at)), I(0)), 'Consume: next unit, zero at the end')
            c.ensure(o.st, zi(x.off) == w * z3.If(at < z, at + 1, at) if isinstance(x, Ptr) and x.rid == r.rid else FALSE, 'Consume: advances by the unit read, stays at the end')
    C10.case('UtfStringConsumer<%s>' % UT[t][0], 'utf')(f)
    def f(track, t=t):
        T, w, N, mang = UT[t]
        uns = lambda c, v: c.eng.dom.uns(8 * w, v) if w < 4 else v
        for ct in ('ctor', 'ctorn'):
            c = track(Ctx('utf')); r, z, S = text10(c, 'text', w, False)
            s = c.eng.new_struct(c.st, 'consumer', const_of(c.helper('sz_RC' + t)), heap='param'); p = Ptr(s.rid, 0)
            for o in c.run('api_RC%s_%s' % (t, ct), [p, Ptr(r.rid, 0), Ptr(r.rid, norm(w * z)) if ct == 'ctor' else z]):
                c.st = o.st
            of = c.field('RC' + t, 'consuming', p); oe = c.field('RC' + t, 'ending', p)
            x = c.st.regions[p.rid].fields[of][1]; y = c.st.regions[p.rid].fields[oe][1]
            c.ensure(c.st, z3.BoolVal(isinstance(x, Ptr) and x.rid == r.rid and x.off == 0), 'begins with the first unit')
            c.ensure(c.st, zi(y.off) == w * z if isinstance(y, Ptr) and y.rid == r.rid else FALSE, 'ends after the last unit')
            at = c.int('position', 0, BIG); c.st.add(at <= z)
            c.st.mut(p.rid).fields[of] = (8, Ptr(r.rid, norm(w * at)))
            for o in c.run('api_RC%s_Consume' % t, [p]):
                x = o.st.regions[p.rid].fields[of][1]
                c.ensure(o.st, o.val == z3.If(at < z, uns(c, S(at)), I(0)), 'Consume: next unit, zero at the end')
                c.ensure(o.st, zi(x.off) == w * z3.If(at < z, at + 1, at) if isinstance(x, Ptr) and x.rid == r.rid else FALSE, 'Consume: advances by the unit read, stays at the end')
    C10.case('UtfStringRangeConsumer<%s>' % UT[t][0], 'utf')(f)

# whole buffers
PAIRS = [('w_8', 'W', '8'), ('w_16', 'W', '16'), ('8_w', '8', 'W'), ('8_16', '8', '16'), ('16_w', '16', 'W'), ('16_8', '16', '8'),
         ('32_8', '32', '8'), ('32_16', '32', '16'), ('32_w', '32', 'W'), ('8_32', '8', '32'), ('16_32', '16', '32'), ('w_32', 'W', '32')]
def output(c, w):
    """the units a reader over the text gives: N nonzero units, zero ever after"""
    N = z3.Int('output.length'); R_ = z3.Function('output', INT, INT); q = z3.Int('q!out')
    c.st.add(z3.And(N >= 0, N <= BIG))
    c.st.add(z3.ForAll([q], z3.And(c.eng.dom.range(8 * w, R_(q)), z3.Implies(z3.And(q >= 0, q < N), R_(q) != 0), z3.Implies(q >= N, R_(q) == 0)), patterns=[R_(q)]))
    return N, R_
for id, a, b in PAIRS:
    for mode in ('count', 'write'):
        def f(track, id=id, a=a, b=b, mode=mode):
            c = track(Ctx('utf', opts=dict(array_allocas=False))); eng = c.eng
            wa, wb = UT[a][1], UT[b][1]
            r, z, S = text10(c, 'text', wa, True)
            N, R_ = output(c, wb)
            A, B_ = UT[a][0], UT[b][0]
            def ctor(eng, st, args):
                eng.require(st, z3.BoolVal(isinstance(args[1], Ptr) and args[1].rid == r.rid and args[1].off == 0), 'the reader is given the source text')
                st.mut(args[0].rid).fields[(args[0].off, 'reads')] = (1, I(0))
                return [Outcome(st, 'ret', None)]
            def read(eng, st, args):
                k = st.regions[args[0].rid].fields[(args[0].off, 'reads')][1]
                st.mut(args[0].rid).fields[(args[0].off, 'reads')] = (1, k + 1)
                return [Outcome(st, 'ret', R_(k))]
            found = 0
            for d in c.u.bydem:
                if d == 'vl::encoding::UtfStringToStringReader<%s, %s>::UtfStringToStringReader(%s const*)' % (A, B_, A):
                    eng.contracts[d] = ctor; found |= 1
                if d.startswith('vl::encoding::Utf') and d.endswith('::Read()') and ('UtfStringConsumer<%s>' % A) in d and 'Range' not in d:
                    eng.contracts[d] = read; found |= 2
            if found != 3:
                raise U.ExtractionError('reader not found')
            chars = c.int('chars', 0, BIG)
            if mode == 'count':
                outs = c.run('api_buf_' + id, [Ptr(r.rid, 0), NULL, chars])
                for o in outs:
                    c.ensure(o.st, o.val == N + 1, 'units needed including the terminator')
            else:
                d = eng.new_array(c.st, 'dest', wb, chars, heap='param')
                g = z3.Function('garbage', INT, INT)
                d.lanes[(0, 'raw')] = base_lane(lambda k: g(zi(k)), wb); d.lanes[(0, 'init')] = base_lane(lambda k: FALSE)
                c.st.add(z3.Int('base!%d' % d.rid) > 0)
                outs = c.run('api_buf_' + id, [Ptr(r.rid, 0), Ptr(d.rid, 0), chars])
                for o in outs:
                    m = z3.If(chars < N + 1, chars, N + 1)
                    c.ensure(o.st, o.val == m, 'number of units written')
                    K = {1: Raw8, 2: Raw16, 4: Raw32}[wb]
                    c.ensure_forall(o.st, lambda k: z3.And(K.live(eng, o.st, d.rid, k), K.val(eng, o.st, d.rid, k) == R_(k)), 'units written in order, with the terminator', lambda k: z3.And(k >= 0, k < m))
        C10.case('_utftoutf<%s, %s> [%s]' % (UT[a][0], UT[b][0], mode), 'utf')(f)

for id, a, b in PAIRS:
    def f(track, id=id, a=a, b=b):
        for cls, ct in (('SS', 'ctor'), ('RR', 'ctor'), ('RR', 'ctorn')):
            c = track(Ctx('utf')); wa = UT[a][1]
            r, z, S = text10(c, 'text', wa, cls == 'SS')
            x = c.eng.new_struct(c.st, 'reader', const_of(c.helper('sz_%s_%s' % (cls, id))), heap='param'); p = Ptr(x.rid, 0)
            args = [p, Ptr(r.rid, 0)] + ([] if cls == 'SS' else [Ptr(r.rid, norm(wa * z))] if ct == 'ctor' else [z])
            for o in c.run('api_%s_%s_%s' % (cls, id, ct), args):
                for y in c.eng.call_function(o.st.copy(), 'api_%s_%s_fresh' % (cls, id), [p]):
                    c.ensure(y.st, B(y.val), 'a new reader has read nothing')
                for y in c.eng.call_function(o.st.copy(), 'api_%s_%s_at' % (cls, id), [p]):
                    c.ensure(y.st, z3.BoolVal(isinstance(y.val, Ptr) and y.val.rid == r.rid and y.val.off == 0), 'a new reader begins with the first unit')
                if cls == 'RR':
                    for y in c.eng.call_function(o.st.copy(), 'api_%s_%s_end' % (cls, id), [p]):
                        c.ensure(y.st, zi(y.val.off) == wa * z if isinstance(y.val, Ptr) and y.val.rid == r.rid else FALSE, 'a new reader ends after the last unit')
    C10.case('UtfStringToStringReader, UtfStringRangeToStringRangeReader <%s, %s> construction' % (UT[a][0], UT[b][0]), 'utf')(f)

# strings
from specs import strings as ST
ST.KIND['B'] = Raw8; ST.TN['B'] = 'char8_t'
SID = {'8': 'B', '16': 'H', '32': 'D', 'W': 'W', 'A': 'A'}
class SC(ST.StrCtx):
    def __init__(self, c, id):
        self.id = id; self.K = ST.KIND[id]; self.c = c; self.objs = []; self.rcs = []; self.off = None
CONV = [('u8tou32', '8', '32'), ('u32tou8', '32', '8'), ('u16tou32', '16', '32'), ('u32tou16', '32', '16'), ('wtou8', 'W', '8'), ('u8tow', '8', 'W'), ('wtou16', 'W', '16'), ('u16tow', '16', 'W'),
        ('u8tou16', '8', '16'), ('u16tou8', '16', '8'), ('wtou32', 'W', '32'), ('u32tow', '32', 'W'), ('wtoa', 'W', 'A'), ('atow', 'A', 'W')]
UT['A'] = ('char', 1, 1, 'c')
for fn, a, b in CONV:
    for managed in (True, False):
        def f(track, fn=fn, a=a, b=b, managed=managed):
            wa, wb = UT[a][1], UT[b][1]
            direct = fn in ('wtou32', 'u32tow')
            c = track(Ctx('utf', opts=dict(array_allocas=True, alloc_const_array=True))); eng = c.eng
            X = SC(c, SID[a]); Y = SC(c, SID[b])
            s = X.string('source', managed)
            out = Y.raw('result'); Y.offsets(out)
            N, R_ = output(c, wb)
            bad = z3.Bool('not convertible')
            fits = z3.And(s.len <= BIG)
            def convert(eng, st, args):
                src, d, chars = args
                if not isinstance(src, Ptr) or src.rid is None:
                    raise Unsupported('source pointer')
                rr = st.regions[src.rid]
                if rr.kind == 'struct':
                    eng.require(st, s.len == 0, 'the conversion is given the characters of the string')
                else:
                    bi, rem = split(src.off, wa)
                    bi = zi(bi)
                    eng.require(st, z3.And(bi >= 0, bi + s.len < zi(rr.count)), 'the text given to the conversion is terminated')
                    eng.require_forall(st, lambda k: X.K.val(eng, st, src.rid, bi + k) == s.seq.at(k), 'the conversion is given the characters of the string', lambda k: z3.And(k >= 0, k < s.len))
                    eng.require(st, X.K.val(eng, st, src.rid, bi + s.len) == 0, 'the text given to the conversion is terminated')
                isnull = isinstance(d, Ptr) and (d.rid is None or z3.is_true(d.null))
                if isnull:
                    if fn in ('wtoa', 'atow'):
                        t = st.copy(); t.add(bad); st.add(z3.Not(bad))
                        return [Outcome(t, 'ret', I(-1)), Outcome(st, 'ret', N)]
                    return [Outcome(st, 'ret', N + 1)]
                lim = chars
                m = z3.If(lim < N + 1, lim, N + 1)
                dr = st.regions[d.rid]
                eng.require(st, z3.And(z3.BoolVal(d.off == 0 and dr.alive), lim >= 0, m <= zi(dr.count)), 'the conversion writes in bounds')
                dr = st.mut(d.rid)
                old = dr.lanes.get((0, 'raw')); oi = dr.lanes.get((0, 'init'))
                g = z3.Function('garbage!', INT, INT)
                inn = lambda k: z3.And(zi(k) >= 0, zi(k) < m)
                dr.lanes[(0, 'raw')] = base_lane(lambda k: z3.If(inn(k), R_(zi(k)), old(k) if old else g(zi(k))), wb)
                dr.lanes[(0, 'init')] = base_lane(lambda k: z3.Or(inn(k), oi(k) if oi else FALSE))
                if fn in ('wtoa', 'atow'):
                    return [Outcome(st, 'ret', z3.If(lim < N + 1, lim, N))]
                return [Outcome(st, 'ret', m)]
            if fn == 'wtoa':
                eng.externs['wcstombs'] = lambda eng, st, x: convert(eng, st, [x[1], x[0], x[2]])
            elif fn == 'atow':
                eng.externs['mbstowcs'] = lambda eng, st, x: convert(eng, st, [x[1], x[0], x[2]])
            elif not direct:
                eng.contracts['long vl::_utftoutf<%s, %s>(%s const*, %s*, long)' % (UT[a][0], UT[b][0], UT[a][0], UT[b][0])] = convert
            for o in c.run('api_' + fn, [out, s.p]):
                if o.kind != 'ret':
                    c.ensure(o.st, FALSE, 'does not raise'); continue
                if direct:
                    Y.chk(o, out, s.seq, 'result'); X.chk(o, s.p, s.seq, 'source'); continue
                want = Seq(z3.If(bad, I(0), N), R_) if fn in ('wtoa', 'atow') else Seq(N, R_)
                Y.chk(o, out, want, 'result')
                X.chk(o, s.p, s.seq, 'source')
        C10.case('%s [%s source]' % (fn, 'shared' if managed else 'unmanaged'), 'utf')(f)
