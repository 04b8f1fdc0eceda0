"""C23 CopyFrom between containers: the target receives exactly the elements of the source, in order.
Containers appear by contract (List/Array C01, SortedList C03, Dictionary C04, Group C05, ObjectString C06), sources of unknown kind as abstract enumerators (C15)."""
import re, z3
from vir.spec import *
from vir.engine import ExnVal
from vir.runner import Property
from specs.pointers import dyncast
from specs.linq import LC

C23 = Property('C23'); PROPERTIES = [C23]
C23.driver = 'linq'
C23.assumptions = ['lengths at most 2^40; operator new succeeds', 'source and target are different objects, except for appending a container to itself',
                   'sources enumerated behave as IEnumerator documents', 'Array, List, SortedList, Dictionary, Group and ObjectString operations appear by the contracts discharged in C01, C03, C04, C05, C06; their values are abstract sequences, multisets and maps here, so invalidated references into a target are not tracked']

seqF = z3.Function('seq', INT, INT, INT); seqG = z3.Function('seq2', INT, INT, INT)      # element k of sequence id (second component for pairs)
mulF = z3.Function('multiplicity', INT, INT, INT)
hasF = z3.Function('has_key', INT, INT, BOOL); valF = z3.Function('value_of', INT, INT, INT)
KINDS = {'E': ('E', '1E', 8), 'V': ('long', 'l', 8), 'P': ('vl::collections::Pair<E, F>', 'N2vl11collections4PairI1E1FEE', 16), 'W': ('wchar_t', 'w', 4)}

class Src:
    def __init__(self, X, T, name):
        c = X.c; self.X = X; self.T = T; self.name = name; self.stride = KINDS[T][2]
        self.n = c.int(name + '.length', 0, BIG); self.S = S = z3.Function(name + '.item', INT, INT); self.S2 = S2 = z3.Function(name + '.item2', INT, INT)
        r = c.eng.new_array(c.st, name + '.elements', self.stride, self.n, heap='param')
        if T in 'EP':
            r.lanes[(0, 'live')] = base_lane(lambda k: TRUE); r.lanes[(0, 'v')] = base_lane(lambda k: S(zi(k)))
            if T == 'P':
                r.lanes[(8, 'live')] = base_lane(lambda k: TRUE); r.lanes[(8, 'v')] = base_lane(lambda k: S2(zi(k)))
        else:
            r.lanes[(0, 'raw')] = base_lane(lambda k: S(zi(k)), self.stride); r.lanes[(0, 'init')] = base_lane(lambda k: TRUE)
            q = z3.Int('q!' + name); c.st.add(z3.ForAll([q], c.eng.dom.range(8 * self.stride, S(q)), patterns=[S(q)]))
        self.rid = r.rid; r.meta['ro'] = True
        X.srcs[name] = self
    def enum(self, pos):
        p = self.X.c.helper('api_abs%s_new' % self.T)
        self.X.put_abs(self.X.c.st, p, self.name, pos)
        return p

class CX(LC):
    def __init__(self, track):
        ex = {'__dynamic_cast': dyncast}
        for T, (d, m_, w) in KINDS.items():
            m = '_ZN3AbsI%sE' % m_; k = '_ZNK3AbsI%sE' % m_
            ex[m + '4NextEv'] = self.x_next; ex[m + '5ResetEv'] = self.x_reset; ex[k + '5IndexEv'] = self.x_index
            ex[k + '7CurrentEv'] = self.x_current; ex[k + '5CloneEv'] = (lambda T: lambda eng, st, a: self.x_clone(eng, st, a, T))(T)
            ex[k + '9EvaluatedEv'] = self.x_eval
        self.srcs = {}; self.evs = {}; self.enumerable = {}
        self.c = c = track(Ctx('copy', externs=ex, opts=dict(elem_structs=True)))
        C = c.eng.contracts
        for T in KINDS:
            C['AbsSrc%s::CreateEnumerator() const' % T] = (lambda T: lambda eng, st, a: self.create(eng, st, a, T))(T)
        for d in set(c.u.dem.values()):
            m = re.match(r'(?:[\w:*&]+ )?vl::collections::(Array|List|SortedList|ArrayBase|ListBase|ListStore|Dictionary|Group)<(E|F|long|wchar_t|E, F)>::(~?\w+|operator\[\]|operator=)(<[^()]*>)?\((.*)\)( const)?$', d)
            if m:
                C[d] = (lambda m: lambda eng, st, a: self.call(eng, st, a, m))((m.group(1), m.group(3), m.group(5)))
            m = re.match(r'(?:[\w:*&]+ )?vl::ObjectString<wchar_t>::(~?\w+|operator=|operator\S+)\((.*)\)( const)?$', d)
            if m:
                C[d] = (lambda m: lambda eng, st, a: self.str(eng, st, a, m))((m.group(1), m.group(2)))
        self.tmp = 0
    def x_current(self, eng, st, a):
        s, p = self.absof(eng, st, a[0])
        eng.require(st, z3.And(p >= 0, p < s.n), 'Current of the source is read at an element only')
        return R(st, Ptr(s.rid, norm(s.stride * p)))
    def create(self, eng, st, a, T):
        name = self.enumerable.get(a[0].rid)
        if name is None:
            raise Unsupported('source of unknown origin')
        eng.mute += 1
        try:
            o = eng.call_function(st, 'api_abs%s_new' % T, [])
        finally:
            eng.mute -= 1
        self.put_abs(o[0].st, o[0].val, name, I(-1))
        return R(o[0].st, o[0].val)
    # ---- abstract containers: ghost fields of the object
    def new(self, id, name, what, T):
        """an abstract container in any state"""
        c = self.c
        p = c.obj(id)
        n = c.int(name + '.count', 0, BIG); s = z3.Int(name + '.contents')
        r = c.st.mut(p.rid); r.meta = dict(r.meta); r.meta['kind'] = what; r.meta['T'] = T
        r.fields = {(0, 'n'): (1, n), (0, 'id'): (1, s), (0, 'alive'): (1, TRUE)}
        if T in 'VW':
            q = z3.Int('q!' + name); c.st.add(z3.ForAll([q], c.eng.dom.range(8 * KINDS[T][2], seqF(s, q)), patterns=[seqF(s, q)]))
        return p, n, s
    def at(self, eng, st, p):
        if not isinstance(p, Ptr) or p.rid is None or st.regions[p.rid].kind != 'struct':
            return None
        r = st.regions[p.rid]
        o = p.off if isinstance(p.off, int) else const_of(p.off)
        if 'kind' not in r.meta:
            return None
        if o != 0:
            raise Unsupported('part of an abstract container')
        k, T = r.meta['kind'], r.meta['T']
        if k == 'keysof':
            r = st.regions[r.meta['parent']]
        eng.require(st, z3.And(z3.BoolVal(r.alive), r.fields[(0, 'alive')][1]), 'container is alive when used')
        return k, T, r.fields[(0, 'n')][1], r.fields[(0, 'id')][1]
    def put(self, st, p, n, s):
        r = st.mut(p.rid); r.fields[(0, 'n')] = (1, n); r.fields[(0, 'id')] = (1, s)
    def val(self, eng, st, T, x, what):
        """value(s) of the element referred to by x"""
        if T in 'EP':
            out = []
            for d in ((0,) if T == 'E' else (0, 8)):
                r, l = eng.elem(st, Ptr(x.rid, norm(x.off + d), x.null), what)
                eng.require(st, eng.elem_get(st, r, l, 'live'), what + ' argument is a live object')
                out.append(eng.elem_get(st, r, l, 'v'))
            return out
        return [eng.load(st, ('int', 8 * KINDS[T][2]), x)]
    def fresh(self, eng, st, T, f, g=None):
        """a sequence with element k = f(k)"""
        s = eng.fresh(st, INT, 'contents'); k = z3.Int('k!seq')
        st.add(z3.ForAll([k], seqF(s, k) == f(k), patterns=[seqF(s, k)]))
        if g is not None:
            st.add(z3.ForAll([k], seqG(s, k) == g(k), patterns=[seqG(s, k)]))
        if T in 'VW':
            st.add(z3.ForAll([k], eng.dom.range(8 * KINDS[T][2], seqF(s, k)), patterns=[seqF(s, k)]))
        return s
    def error(self, eng, st, bad):
        if eng.feasible(st, bad):
            s = st.copy(); s.add(bad)
            out = [Outcome(s, 'throw', ExnVal(ERROR, Ptr(None, 0)))]
        else:
            out = []
        st.add(z3.Not(bad))
        return out, eng.feasible(st)
    def cell(self, eng, st, T, vs, ref=None):
        """reference to an element: a cell holding its value"""
        r = eng.new_struct(st, 'element', KINDS[T][2], heap='param')
        r.meta['ro'] = True; r.meta['ref'] = ref
        if T in 'EP':
            for d, v in zip((0, 8), vs):
                r.fields[(d, 'live')] = (1, TRUE); r.fields[(d, 'v')] = (1, v)
        else:
            r.fields[0] = (KINDS[T][2], vs[0])
        return Ptr(r.rid, 0)
    def call(self, eng, st, a, m):
        cls, op, params = m
        if a and isinstance(a[0], Ptr) and a[0].rid is not None and op == cls and st.regions[a[0].rid].kind == 'struct' and self.local(eng, st, a, m):
            return R(st)
        v = self.at(eng, st, a[0]) if a else None
        if v is None:
            return None
        kind, T, n, s = v
        p = a[0]
        if op == 'Count':
            return R(st, n)
        if kind == 'keysof' and op in ('Contains', 'IndexOf'):
            k = keyE(self.val(eng, st, 'E', a[1], op)[0])
            if op == 'Contains':
                return R(st, hasF(s, k))
            i = eng.fresh(st, INT, 'index_of_key'); st.add(z3.If(hasF(s, k), z3.And(i >= 0, i < n), i == -1))
            return R(st, i)
        if op in ('Get', 'operator[]') and kind == 'seq' or op == 'Get' and kind == 'sorted':
            out, ok = self.error(eng, st, z3.Not(z3.And(zi(a[1]) >= 0, zi(a[1]) < n)))
            if not ok:
                return out
            return out + R(st, self.cell(eng, st, T, [seqF(s, a[1]), seqG(s, a[1])], (s, a[1])))
        if op == 'Clear':
            if kind == 'sorted':
                s2 = eng.fresh(st, INT, 'contents'); k = z3.Int('k!m'); st.add(z3.ForAll([k], mulF(s2, k) == 0, patterns=[mulF(s2, k)]))
            elif kind == 'map':
                s2 = eng.fresh(st, INT, 'contents'); k = z3.Int('k!m'); st.add(z3.ForAll([k], z3.Not(hasF(s2, k)), patterns=[hasF(s2, k)]))
            else:
                s2 = eng.fresh(st, INT, 'contents')
            self.put(st, p, I(0), s2)
            return R(st, TRUE)
        if kind == 'seq' and (op == 'Insert' or op == 'Add' and T != 'P' and ',' not in params):
            i, x = (a[1], a[2]) if op == 'Insert' else (n, a[1])
            xs = self.val(eng, st, T, x, op)
            if '&&' in params and T == 'E':
                r, l = eng.elem(st, x, op); eng.elem_set(st, r, l, 'v', mvE(xs[0]))
            out, ok = self.error(eng, st, z3.Not(z3.And(zi(i) >= 0, zi(i) <= n)))
            if not ok:
                return out
            st.add(n < BIG)
            sh = lambda f, x: (lambda k: z3.If(k < i, f(s, k), z3.If(k == i, x, f(s, k - 1))))
            self.put(st, p, norm(n + 1), self.fresh(eng, st, T, sh(seqF, xs[0]) if op == 'Insert' else (lambda k: z3.If(k == n, xs[0], seqF(s, k)))))
            return out + R(st, i)
        if kind == 'sorted' and op == 'Add':
            x = self.val(eng, st, T, a[1], op)[0]
            s2 = eng.fresh(st, INT, 'contents'); k = z3.Int('k!m'); st.add(n < BIG)
            st.add(z3.ForAll([k], mulF(s2, k) == mulF(s, k) + z3.If(k == x, I(1), I(0)), patterns=[mulF(s2, k)]))
            self.put(st, p, norm(n + 1), s2)
            i = eng.fresh(st, INT, 'added_at'); st.add(z3.And(i >= 0, i <= n))
            return R(st, i)
        if op == 'Resize' and kind == 'seq':
            eng.require(st, zi(a[1]) >= 0, 'Resize: count is not negative')
            g = z3.Function(str(z3.FreshConst(INT, 'resized')), INT, INT)
            self.put(st, p, a[1], self.fresh(eng, st, T, lambda k: z3.If(k < n, seqF(s, k), g(k))))
            return R(st)
        if op == 'Set' and kind == 'seq':
            xs = self.val(eng, st, T, a[2], op)
            if '&&' in params and T == 'E':
                r, l = eng.elem(st, a[2], op); eng.elem_set(st, r, l, 'v', mvE(xs[0]))
            out, ok = self.error(eng, st, z3.Not(z3.And(zi(a[1]) >= 0, zi(a[1]) < n)))
            if not ok:
                return out
            i = a[1]
            self.put(st, p, n, self.fresh(eng, st, T, lambda k: z3.If(k == i, xs[0], seqF(s, k))))
            return out + R(st, TRUE)
        if op.startswith('~'):
            st.mut(p.rid).fields[(0, 'alive')] = (1, FALSE)
            return R(st)
        if cls == 'Dictionary':
            if op in ('Keys', 'Values') and 'parts' in st.regions[p.rid].meta:
                return R(st, st.regions[p.rid].meta['parts'][op])
            if op == 'Keys':
                r = eng.new_struct(st, 'keys', 8, heap='param'); r.meta['kind'] = 'keysof'; r.meta['T'] = 'E'; r.meta['parent'] = p.rid
                return R(st, Ptr(r.rid, 0))
            if op == 'Set' and ',' in params and len(a) == 3:
                kk = keyE(self.val(eng, st, 'E', a[1], op)[0]); vv = self.val(eng, st, 'E', a[2], op)[0]
                for x, t in zip(a[1:], params.split(',')):
                    if '&&' in t:
                        raise Unsupported('moved arguments')
                s2 = eng.fresh(st, INT, 'contents'); k = z3.Int('k!m')
                st.add(z3.ForAll([k], hasF(s2, k) == z3.Or(hasF(s, k), k == kk), patterns=[hasF(s2, k)]))
                st.add(z3.ForAll([k], valF(s2, k) == z3.If(k == kk, vv, valF(s, k)), patterns=[valF(s2, k)]))
                n2 = eng.fresh(st, INT, 'count'); st.add(z3.And(n2 >= n, n2 <= n + 1))
                self.put(st, p, n2, s2)
                return R(st, TRUE)
            if op in ('SetInternal', 'Set'):
                return None
        if cls == 'Group':
            if op in ('Add', 'AddInternal') and len(a) == 3:
                x, y = self.val(eng, st, 'E', a[1], op)[0], self.val(eng, st, 'E', a[2], op)[0]
                st.add(n < BIG)
                self.put(st, p, norm(n + 1), self.fresh(eng, st, 'P', lambda k: z3.If(k == n, x, seqF(s, k)), lambda k: z3.If(k == n, y, seqG(s, k))))
                return R(st, TRUE)
            if op == 'Add':
                return None
        raise Unsupported('%s::%s of an abstract container' % (cls, op))
    def local(self, eng, st, a, m):
        """construction of a container inside the function"""
        cls, op, params = m
        if not re.match(r'wchar_t const\*, long$', params) or cls != 'Array':
            return False
        p = a[0]; n = a[2]
        if p.off != 0 and const_of(p.off) != 0:
            raise Unsupported('container constructed inside an object')
        s = self.text(eng, st, a[1], n)
        r = st.mut(p.rid); r.meta = dict(r.meta); r.meta['kind'] = 'seq'; r.meta['T'] = 'W'
        r.fields[(0, 'alive')] = (1, TRUE)
        self.put(st, p, n, s)
        return True
    def text(self, eng, st, b, n):
        """the n units at b as a sequence"""
        r = st.regions[b.rid]
        if r.meta.get('ref') is not None:
            s, i = r.meta['ref']
            g = lambda k: seqF(s, i + k)
            k = z3.FreshConst(INT, 'k')
        else:
            if r.kind != 'array':
                raise Unsupported('text')
            i = norm(zi(b.off)) if isinstance(b.off, int) and b.off == 0 else None
            if i is None:
                raise Unsupported('text in the middle')
            ln = r.lanes[(0, 'raw')]
            eng.require(st, z3.And(zi(n) >= 0, zi(n) <= r.count), 'text read stays inside')
            g = lambda k: ln(zi(k))
        return self.fresh(eng, st, 'W', g)
    def str(self, eng, st, a, m):
        op, params = m
        def mk(p, n, s):
            if p.rid is None or st.regions[p.rid].kind != 'struct' or (p.off != 0 and const_of(p.off) != 0):
                raise Unsupported('string elsewhere')
            r = st.mut(p.rid); r.meta = dict(r.meta); r.meta['kind'] = 'str'; r.meta['T'] = 'W'
            r.fields = {(0, 'alive'): (1, TRUE), (0, 'n'): (1, n), (0, 'id'): (1, s)}
        if op == 'ObjectString' and not params:
            if getattr(self, 'setup', True):
                return None
            mk(a[0], I(0), eng.fresh(st, INT, 'contents')); return R(st)
        if op == 'CopyFrom' and params == 'wchar_t const*, long':
            eng.require(st, zi(a[2]) >= 0, 'length is not negative')
            mk(a[0], a[2], self.text(eng, st, a[1], a[2])); return R(st)
        if op == 'ObjectString' and params.startswith('vl::ObjectString<wchar_t>'):
            v = self.at(eng, st, a[1])
            if v is None:
                return None
            mk(a[0], v[2], v[3]); return R(st)
        v = self.at(eng, st, a[0]) if a else None
        if v is None:
            return None
        kind, T, n, s = v
        if op == 'Length':
            return R(st, n)
        if op == 'Buffer':
            r = eng.new_array(st, 'text', 4, norm(n + 1), heap='param'); r.meta['ro'] = True
            r.lanes[(0, 'raw')] = base_lane(lambda k: z3.If(zi(k) < n, seqF(s, zi(k)), I(0)), 4); r.lanes[(0, 'init')] = base_lane(lambda k: TRUE)
            return R(st, Ptr(r.rid, 0))
        if op == 'operator=':
            w = self.at(eng, st, a[1])
            if w is None:
                raise Unsupported('string of unknown origin')
            self.put(st, a[0], w[2], w[3]); return R(st, a[0])
        if op.startswith('~'):
            st.mut(a[0].rid).fields[(0, 'alive')] = (1, FALSE); return R(st)
        raise Unsupported('ObjectString::%s' % op)

def occurrences(c, name, S, n):
    """occ(i, v): how often v occurs among S(0..i-1)"""
    occ = z3.Function(name, INT, INT, INT); i, v = z3.Ints('i!occ v!occ'); st = c.st
    st.add(z3.ForAll([v], occ(I(0), v) == 0, patterns=[occ(I(0), v)]))
    st.add(z3.ForAll([i, v], z3.Implies(z3.And(i >= 0, i < n), occ(i + 1, v) == occ(i, v) + z3.If(S(i) == v, I(1), I(0))), patterns=[z3.MultiPattern(S(i), occ(i, v))]))
    st.add(z3.ForAll([i, v], z3.Implies(z3.And(i >= 0, i < n), occ(i + 1, v) == occ(i, v) + z3.If(S(i) == v, I(1), I(0))), patterns=[z3.MultiPattern(S(i), occ(i + 1, v))]))
    return occ

def seq_post(X, what, d, n0, s0, base, N, want, want2=None):
    """templates and postcondition for a target sequence"""
    c = X.c; k = z3.Int('k!t')
    def upto(st, u, s):
        a = [z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < u), seqF(s, k) == want(k)), patterns=[seqF(s, k)])]
        if want2 is not None:
            a.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < u), seqG(s, k) == want2(k)), patterns=[seqG(s, k)]))
        return z3.And(u <= N, *a)
    c.eng.inv_templates += [('target holds the first u elements', lambda eng, st, u, s: upto(st, u, s), 2), ('target holds the first base + u elements', lambda eng, st, u, s: upto(st, norm(base + u), s), 2),
                            ('target holds the elements up to position u', lambda eng, st, u, s: upto(st, norm(base + u + 1), s), 2),
                            ('counts the elements up to position p', lambda eng, st, u, p: z3.Or(p >= N - base - 1, u == base + p + 1), 2)]
    def post(st):
        r = st.regions[d.rid]
        c.ensure(st, r.fields[(0, 'n')][1] == N, what + ': number of elements')
        s = r.fields[(0, 'id')][1]
        c.ensure_forall(st, lambda k: seqF(s, k) == want(k), what + ': elements', lambda k: z3.And(k >= 0, k < N))
        if want2 is not None:
            c.ensure_forall(st, lambda k: seqG(s, k) == want2(k), what + ': elements', lambda k: z3.And(k >= 0, k < N))
    return post
def sorted_post(X, what, d, n0, s0, append, S, m):
    c = X.c; occ = occurrences(c, 'occurrences', S, m); k = z3.Int('k!t')
    b = (lambda v: mulF(s0, v)) if append else (lambda v: I(0))
    def upto(u, s):
        return z3.And(u >= 0, u <= m, z3.ForAll([k], mulF(s, k) == b(k) + occ(u, k), patterns=[mulF(s, k)]))
    n = n0 if append else I(0)
    c.eng.inv_templates += [('target holds what it held and the first u elements', lambda eng, st, u, s: upto(u, s), 2), ('target holds what it held and the elements up to position u', lambda eng, st, u, s: upto(norm(u + 1), s), 2),
                            ('counted elements', lambda eng, st, u, s: upto(norm(u - n), s), 2)]
    def post(st):
        r = st.regions[d.rid]
        c.ensure(st, r.fields[(0, 'n')][1] == (n0 if append else I(0)) + m, what + ': number of elements')
        s = r.fields[(0, 'id')][1]
        c.ensure_forall(st, lambda v: mulF(s, v) == b(v) + occ(m, v), what + ': elements', lambda v: TRUE)
    return post
def map_post(X, what, d, s0, append, K, V, m):
    c = X.c; st = c.st; H = z3.Function('keys_set', INT, INT, BOOL); G = z3.Function('values_set', INT, INT, INT); i, k = z3.Ints('i!h k!h')
    st.add(z3.ForAll([k], H(I(0), k) == (hasF(s0, k) if append else FALSE), patterns=[H(I(0), k)])); st.add(z3.ForAll([k], G(I(0), k) == valF(s0, k), patterns=[G(I(0), k)]))
    for pat in ((lambda F: F(i, k)), (lambda F: F(i + 1, k))):
        st.add(z3.ForAll([i, k], z3.Implies(z3.And(i >= 0, i < m), H(i + 1, k) == z3.Or(H(i, k), keyE(K(i)) == k)), patterns=[z3.MultiPattern(K(i), pat(H))]))
        st.add(z3.ForAll([i, k], z3.Implies(z3.And(i >= 0, i < m), G(i + 1, k) == z3.If(keyE(K(i)) == k, V(i), G(i, k))), patterns=[z3.MultiPattern(K(i), pat(G))]))
    def upto(u, s):
        return z3.And(u >= 0, u <= m, z3.ForAll([k], hasF(s, k) == H(u, k), patterns=[hasF(s, k)]), z3.ForAll([k], z3.Implies(H(u, k), valF(s, k) == G(u, k)), patterns=[valF(s, k)]))
    c.eng.inv_templates += [('target holds the first u entries', lambda eng, st, u, s: upto(u, s), 2), ('target holds the entries up to position u', lambda eng, st, u, s: upto(norm(u + 1), s), 2)]
    def post(st):
        s = st.regions[d.rid].fields[(0, 'id')][1]
        c.ensure_forall(st, lambda v: hasF(s, v) == H(m, v), what + ': keys', lambda v: TRUE)
        c.ensure_forall(st, lambda v: z3.Implies(H(m, v), valF(s, v) == G(m, v)), what + ': the last value given for a key', lambda v: TRUE)
    return post

def copy_case(name, dk, sk, T, how='copy'):
    """target kind dk, source kind sk, element T"""
    def f(track):
        for append in (True, False, None):
            X = CX(track); c = X.c; X.setup = True
            did = {'Dic': 'Dic', 'Grp': 'Grp', 'Str': 'Str'}.get(dk, dk + T)
            d, n0, s0 = X.new(did, 'target', {'Array': 'seq', 'List': 'seq', 'Sorted': 'sorted', 'Dic': 'map', 'Grp': 'seq', 'Str': 'str'}[dk], 'P' if dk in ('Dic', 'Grp') else T)
            S2 = None; frozen = []
            if sk in ('Array', 'List', 'Sorted', 'Str'):
                p, m, s = X.new(sk + T if sk != 'Str' else 'Str', 'source', {'Sorted': 'sorted', 'Str': 'str'}.get(sk, 'seq'), T); frozen.append(p)
                S = lambda k: seqF(s, k)
                args = [p]
            elif sk == 'self':
                p, m, s = d, n0, s0; S = lambda k: seqF(s, k); args = [d]
                if not append:
                    continue
            elif sk == 'Dic':
                p, m, s = X.new('Dic', 'source', 'map', 'P'); frozen.append(p)
                a, na, sa = X.new('SortedE', 'source.keys', 'sorted', 'E'); b, nb, sb = X.new('ListE', 'source.values', 'seq', 'E'); frozen += [a, b]
                c.st.add(z3.And(na == m, nb == m))
                c.st.mut(p.rid).meta['parts'] = dict(Keys=a, Values=b)
                S = lambda k: seqF(sa, k); S2 = lambda k: seqF(sb, k); args = [p]
            else:
                a = Src(X, T, 'a'); m = a.n; S = a.S; S2 = a.S2
                if sk == 'Src':
                    p = c.obj('Src' + T); X.enumerable[p.rid] = 'a'; args = [p]
                elif sk == 'Lazy':
                    e = a.enum(c.int('position', -1, -1))
                    r = c.eng.new_struct(c.st, 'lazy list', const_of(c.helper('sz_Lazy' + T)), heap='param')
                    p = Ptr(r.rid, 0); c.helper('api_Lazy%s_src' % T, p, e); args = [p]
                else:
                    p = Ptr(a.rid, 0); args = [p, m] if how == 'copyn' else [p, Ptr(a.rid, norm(a.stride * m))]
            c.st.add(n0 + m <= BIG)
            base = n0 if append else I(0); N = norm(base + m)
            old = {p.rid: dict(c.st.regions[p.rid].fields) for p in frozen}
            heap0 = set(c.st.ghost.get('heap', ()))
            if dk in ('Array', 'List', 'Str'):
                post = seq_post(X, 'CopyFrom', d, n0, s0, base, N, (lambda k: z3.If(k < n0, seqF(s0, k), S(k - n0))) if append else S)
            elif dk == 'Sorted':
                post = sorted_post(X, 'CopyFrom', d, n0, s0, append, S, m)
            elif dk == 'Dic':
                post = map_post(X, 'CopyFrom', d, s0, append, S, S2, m)
            else:
                post = seq_post(X, 'CopyFrom', d, n0, s0, base, N, (lambda k: z3.If(k < n0, seqF(s0, k), S(k - n0))) if append else S, (lambda k: z3.If(k < n0, seqG(s0, k), S2(k - n0))) if append else S2)
            api = 'api_%s_%s' % (how, did) + ('' if how != 'copy' else '_' + {'Str': 'Str', 'Dic': 'Dic', 'self': dk + T}.get(sk, sk + T))
            X.setup = False
            for o in c.run(api + ('_def' if append is None else ''), [d] + args + ([] if append is None else [TRUE if append else FALSE])):
                if o.kind != 'ret':
                    c.ensure(o.st, FALSE, 'CopyFrom: does not raise'); continue
                post(o.st)
                for rid, fs in old.items():
                    for k, (w, v) in fs.items():
                        c.ensure(o.st, o.st.regions[rid].fields[k][1] == v, 'CopyFrom: source unchanged')
                for rid in o.st.ghost.get('heap', ()):
                    if rid not in heap0:
                        c.ensure(o.st, z3.BoolVal(not o.st.regions[rid].alive), 'CopyFrom: enumerators are released')
                if sk == 'Lazy':
                    for rid in heap0:
                        r = o.st.regions[rid]
                        if r.meta.get('abs'):
                            c.ensure(o.st, z3.And(z3.BoolVal(r.alive), r.fields[(0, 'pos')][1] == -1), 'CopyFrom: the list itself is not iterated')
                r = o.st.regions[d.rid]
                c.ensure(o.st, r.fields[(0, 'alive')][1], 'CopyFrom: target is alive')
                for rid, r in o.st.regions.items():
                    if rid not in c.st.regions and r.kind == 'struct' and 'kind' in r.meta and 'parent' not in r.meta:
                        c.ensure(o.st, z3.Not(r.fields[(0, 'alive')][1]), 'CopyFrom: temporary containers are destroyed')
    C23.case(name, 'copy')(f)

TN = {'E': 'opaque elements', 'V': 'plain elements'}
for T in 'EV':
    for dk in ('Array', 'List', 'Sorted'):
        for sk in ('Array', 'List', 'Sorted', 'Src', 'Lazy'):
            copy_case('CopyFrom(%s, %s), %s' % (dk, {'Src': 'IEnumerable', 'Lazy': 'LazyList'}.get(sk, sk), TN[T]), dk, sk, T)
        copy_case('CopyFrom(%s, pointer, count), %s' % (dk, TN[T]), dk, 'ptr', T, 'copyn')
        copy_case('CopyFrom(%s, begin, end), %s' % (dk, TN[T]), dk, 'ptr', T, 'copyr')
    for dk in ('Array', 'List'):
        copy_case('CopyFrom(%s, itself, append), %s' % (dk, TN[T]), dk, 'self', T)
copy_case('CopyFrom(Dictionary, Dictionary)', 'Dic', 'Dic', 'E')
copy_case('CopyFrom(Dictionary, IEnumerable)', 'Dic', 'Src', 'P')
copy_case('CopyFrom(Group, IEnumerable)', 'Grp', 'Src', 'P')
copy_case('CopyFrom(List, ObjectString)', 'List', 'Str', 'W'); copy_case('CopyFrom(Array, ObjectString)', 'Array', 'Str', 'W')
for sk in ('Array', 'List', 'Src'):
    copy_case('CopyFrom(ObjectString, %s)' % sk, 'Str', sk, 'W')
