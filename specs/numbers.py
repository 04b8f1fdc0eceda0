"""C21 numbers and letter case: text of a number, number of a text, lower and upper case."""
import z3
from vir.spec import *
from vir.runner import Property
from specs.strings import StrCtx, KIND

C21 = Property('C21'); PROPERTIES = [C21]
C21.driver = 'numbers'
C21.assumptions = ['sprintf, swprintf, strtol, strtoll, strtoul, strtoull, their wide forms, tolower, toupper, towlower and towupper behave as ISO C documents (decimal text of a number; value and end of the longest numeral read, saturated when out of range)',
                   'texts given to the case functions hold no zero character; string lengths at most 2^40', 'strings appear with the bodies of their constructors and comparison (also under contract in C06 to C08)']
decl = z3.Function('decimal.length', INT, INT); decd = z3.Function('decimal.digit', INT, INT, INT)    # canonical decimal text of an integer
dif = z3.Function('decimal.difference', INT, INT, INT)
CASEF = {n: z3.Function(n, INT, INT) for n in ('tolower', 'toupper', 'towlower', 'towupper')}

class NC(StrCtx):
    def __init__(self, track, id, parse=None):
        self.id = id; self.K = K = KIND[id]; self.parse = parse
        ex = {}
        for p in ('', '__isoc23_'):
            for w in ('str', 'wcs'):
                for f in ('tol', 'toll'):
                    ex[p + w + f] = self.strto(True, w == 'wcs')
                for f in ('toul', 'toull'):
                    ex[p + w + f] = self.strto(False, w == 'wcs')
        ex['sprintf'] = lambda eng, st, a: self.printf(eng, st, a[0], None, a[1], a[2:], 1)
        ex['snprintf'] = lambda eng, st, a: self.printf(eng, st, a[0], a[1], a[2], a[3:], 1)
        ex['swprintf'] = lambda eng, st, a: self.printf(eng, st, a[0], a[1], a[2], a[3:], 4)
        for n in CASEF:
            ex[n] = self.letter(n)
        self.c = track(Ctx('num', externs=ex, opts=dict(array_allocas=True, alloc_const_array=True, stride=K.stride)))
        self.objs = []; self.rcs = []; self.off = None; self.known = None
    # ---- the decimal text
    def facts(self, eng, st, v):
        """properties of the decimal text of v"""
        k = z3.Int('k!dec'); w = 8 * self.K.stride
        st.add(z3.And(decl(v) >= 1, z3.Implies(z3.And(v > -(1 << 63) - 1, v < 1 << 64), decl(v) <= 20), z3.Implies(v < 0, decl(v) >= 2), decl(v) <= BIG))
        st.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < decl(v)), z3.And(decd(v, k) >= 45, decd(v, k) <= 57)), patterns=[decd(v, k)]))
    # ---- C library
    def where(self, eng, st, p, stride):
        r = st.regions[p.rid] if isinstance(p, Ptr) and p.rid is not None else None
        if r is None or r.kind != 'array' or r.stride != stride:
            raise Unsupported('text argument')
        i, rem = split(p.off, stride)
        if rem:
            raise Unsupported('misaligned text')
        return r, zi(i)
    def strto(self, signed, wide):
        def f(eng, st, a):
            stride = 4 if wide else 1
            if stride != self.K.stride:
                raise Unsupported('other kind of text')
            r, i = self.where(eng, st, a[0], stride)
            if const_of(a[2]) != 10:
                raise Unsupported('base')
            eng.require(st, z3.BoolVal(r.alive), 'text read is live storage')
            L, V = self.known
            n, at = L.n, L.at
            rid = r.rid; K = self.K
            eng.require(st, z3.And(i >= 0, i + n < zi(r.count), K.val(eng, st, rid, i + n) == 0), 'number read from zero-terminated text')
            k = z3.FreshConst(INT, 'k'); s = st.copy(); s.add(z3.And(k >= 0, k < n))
            same = eng.valid(s, K.val(eng, s, rid, norm(i + k)) == at(k))
            v = eng.fresh(st, INT, 'number_read'); e = eng.fresh(st, INT, 'end_of_number')
            lo, hi = (-(1 << 63), (1 << 63) - 1) if signed else (0, (1 << 64) - 1)
            st.add(z3.And(v >= lo, v <= hi, e >= 0, e <= n))
            if same and V is not None:
                st.add(e == n)
                if signed:
                    st.add(v == z3.If(V < lo, I(lo), z3.If(V > hi, I(hi), V)))
                else:
                    st.add(v == z3.If(z3.Or(V < -hi, V > hi), I(hi), z3.If(V < 0, V + (1 << 64), V)))
            if not (isinstance(a[1], Ptr) and z3.is_true(z3.simplify(a[1].null))):
                eng.store(st, ('ptr',), Ptr(rid, norm(zi(a[0].off) + stride * e)), a[1])
            return R(st, v if signed else z3.If(v >= (1 << 63), v - (1 << 64), v))
        return f
    def const_text(self, st, p, stride):
        r, i = self.where(None, st, p, stride)
        if r.heap != 'global' or const_of(i) is None or not r.meta.get('const'):
            raise Unsupported('format')
        out = ''
        for k in range(const_of(i), const_of(r.count)):
            x = const_of(self.K.val(self.c.eng, st, r.rid, I(k)))
            if x is None:
                raise Unsupported('format')
            if x == 0:
                return out
            out += chr(x & 0xff)
        raise Unsupported('format')
    def printf(self, eng, st, buf, size, fmt, rest, stride):
        if stride != self.K.stride:
            raise Unsupported('other kind of text')
        f = self.const_text(st, fmt, stride)
        w = {'%d': (32, True), '%i': (32, True), '%ld': (64, True), '%lld': (64, True), '%u': (32, False), '%lu': (64, False), '%llu': (64, False)}.get(f)
        if w is None or len(rest) != 1:
            raise Unsupported('format %s' % f)
        x = rest[0]
        x = eng.dom.wrap(w[0], x) if w[0] == 32 else x
        v = x if w[1] else eng.dom.uns(w[0], x)
        v2 = eng.fresh(st, INT, 'number_written'); st.add(v2 == v)
        self.facts(eng, st, v2)
        r, i = self.where(eng, st, buf, stride)
        n = decl(v2)
        room = zi(r.count) - i
        if size is not None:
            eng.require(st, z3.And(zi(size) >= 0, zi(size) <= room), 'number written inside of the buffer')
            eng.require(st, n + 1 <= zi(size), 'number written completely')
        else:
            eng.require(st, n + 1 <= room, 'number written inside of the buffer')
        eng.require(st, z3.BoolVal(r.alive and not r.meta.get('ro')), 'number written to own storage')
        rr = st.mut(r.rid)
        old = rr.lanes.get((0, 'raw')) or base_lane(lambda k: I(0), stride); live = rr.lanes.get((0, 'init')) or base_lane(lambda k: FALSE)
        rr.lanes[(0, 'raw')] = old.range(i, i + n + 1, lambda k: z3.If(zi(k) - i < n, decd(v2, zi(k) - i), I(0)))
        rr.lanes[(0, 'init')] = live.range(i, i + n + 1, lambda k: TRUE)
        return R(st, n)
    def letter(self, nm):
        def f(eng, st, a):
            c = a[0]; F = CASEF[nm]
            if nm.startswith('tow'):
                u = c
            else:
                eng.require(st, z3.And(zi(c) >= -1, zi(c) <= 255), nm + ': argument is a character')
                u = c
            st.add(z3.Implies(u != 0, F(u) != 0))
            st.add(eng.dom.range(32, F(u)) if nm.startswith('tow') else z3.And(F(u) >= -1, F(u) <= 255, z3.Implies(u >= 0, F(u) >= 0)))
            return R(st, F(u))
        return f

PARSERS = [('atoi', 'A', True, 32), ('atoi64', 'A', True, 64), ('atou', 'A', False, 32), ('atou64', 'A', False, 64), ('wtoi', 'W', True, 32), ('wtoi64', 'W', True, 64), ('wtou', 'W', False, 32), ('wtou64', 'W', False, 64)]
for fn, id, signed, bits in PARSERS:
    for test in (True, False):
        for num in (True, False):
            for managed in (True, False):
                def f(track, fn=fn, id=id, signed=signed, bits=bits, test=test, num=num, managed=managed):
                    X = NC(track, id); c = X.c; s = X.string('s', managed); st = c.st
                    u, k = z3.Ints('u!dec k!t')
                    if num:
                        V = z3.Int('number'); X.facts(c.eng, st, V)
                        st.add(s.len == decl(V)); st.add(z3.ForAll([k], z3.Implies(z3.And(k >= s.start, k < s.start + s.len), s.fn(k) == decd(V, k - s.start)), patterns=[s.fn(k)]))
                        st.add(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < s.len), s.fn(s.start + k) == decd(V, k)), patterns=[decd(V, k)]))
                        d = dif(u, V)
                        st.add(z3.ForAll([u], z3.Implies(u != V, z3.Or(decl(u) != decl(V), z3.And(d >= 0, d < decl(V), decd(u, d) != decd(V, d)))), patterns=[decl(u)]))
                        X.known = (s.seq, V)
                        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
                        good = z3.And(V >= lo, V <= hi)
                    else:
                        d = dif(u, I(0))
                        st.add(z3.ForAll([u], z3.Or(decl(u) != s.len, z3.And(d >= 0, d < s.len, decd(u, d) != s.seq.at(d))), patterns=[decl(u)]))
                        X.known = (s.seq, None); V = None; good = FALSE
                    args = [s.p]
                    if test:
                        ok, _ = c.rawcell('success', 1); args.append(ok)
                    for o in c.run('api_' + fn + ('_test' if test else ''), args):
                        if o.kind != 'ret':
                            c.ensure(o.st, FALSE, fn + ': does not raise'); continue
                        r = o.val if signed else c.eng.dom.uns(64, o.val)
                        if test:
                            b = Raw8.val(c.eng, o.st, ok.rid, I(0)) != 0
                            c.ensure(o.st, b == good, fn + ': succeeds exactly for the decimal text of a number in range')
                            if num:
                                c.ensure(o.st, z3.Implies(b, r == V), fn + ': the number')
                        else:
                            c.ensure(o.st, z3.If(good, r == V, r == 0) if num else r == 0, fn + ': the number, or zero for another text')
                        X.finish(o, X.inputs(), fn)
                C21.case('%s%s [%s%s]' % (fn, '_test' if test else '', 'decimal text' if num else 'any other text', '' if managed else ', text without counter'), 'num')(f)
for fn, id, signed in (('itoa', 'A', True), ('i64toa', 'A', True), ('utoa', 'A', False), ('u64toa', 'A', False), ('itow', 'W', True), ('i64tow', 'W', True), ('utow', 'W', False), ('u64tow', 'W', False)):
    def f(track, fn=fn, id=id, signed=signed):
        X = NC(track, id); c = X.c; X.offsets(c.obj(id)); o_ = X.raw(); v = c.int('number'); V = v if signed else c.eng.dom.uns(64, v)
        N = z3.Int('value'); c.st.add(N == V); X.facts(c.eng, c.st, N)
        for o in c.run('api_' + fn, [o_, v]):
            if o.kind != 'ret':
                c.ensure(o.st, FALSE, fn + ': does not raise'); continue
            X.finish(o, [(o_, Seq(decl(N), lambda k: decd(N, zi(k))), 'result')], fn + ': decimal text of the number')
    C21.case(fn, 'num')(f)
for fn, id, F in (('alower', 'A', 'tolower'), ('aupper', 'A', 'toupper'), ('wlower', 'W', 'towlower'), ('wupper', 'W', 'towupper')):
    for managed in (True, False):
        def f(track, fn=fn, id=id, F=F, managed=managed):
            X = NC(track, id); c = X.c; s = X.string('s', managed); o_ = X.raw(); k = z3.Int('k!z')
            c.st.add(z3.ForAll([k], z3.Implies(z3.And(k >= s.start, k < s.start + s.len), s.fn(k) != 0), patterns=[s.fn(k)]))
            g = CASEF[F]
            want = (lambda x: g(x)) if id == 'W' else (lambda x: c.eng.dom.wrap(8, g(z3.If(x < 0, x + 256, x))))
            for o in c.run('api_' + fn, [o_, s.p]):
                if o.kind != 'ret':
                    c.ensure(o.st, FALSE, fn + ': does not raise'); continue
                X.finish(o, X.inputs() + [(o_, Seq(s.len, lambda k: want(s.seq.at(k))), 'result')], fn)
        C21.case(fn + ('' if managed else ' [text without counter]'), 'num')(f)
