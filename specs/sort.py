"""C17 Sort / SortLambda: a sorted permutation of the given elements; OrderBy over LazyList."""
import operator, random, z3
from vir.spec import *
from vir.runner import Property
from vir.engine import ExnVal, Agg
from specs.linq import Container, lazy, raw, fobj, same_class, lz_check, selF

C17 = Property('C17')
PROPERTIES = [C17]
C17.driver = 'linq'
C17.assumptions = ['the comparer is a total preorder of the elements (the documented requirement), or partial: then Error may be raised', 'lengths at most 2^40',
                   'element operations do not throw; elements are distinguished by identity: a sequence of pairwise different identities out of n, n long, is a permutation (pigeonhole)',
                   'SortLambda is proved for three comparer types (weak order, partial order, own order of the elements); its other instantiations are the same template and appear by that contract']
UNIT = 'sort'
SORT = r'^void vl::collections::SortLambda<E, %s>\('

def key(v):
    return keyE(v)

unord = z3.Function('unordered', INT, INT, BOOL)
def c3(x, y):
    return z3.If(x < y, I(-1), z3.If(x > y, I(1), I(0)))

class SC:
    def __init__(self, track, F, fo, partial=False, concrete=None):
        self.F = F; self.partial = partial; self.conc = concrete
        ex = {'_ZNK4ORDWclERK1ES2_': self.order, '_ZNK4ORDPclERK1ES2_': self.order}
        opts = dict(fast_discovery=True, no_default=True, no_trace=True)
        if concrete is not None:
            opts = dict(unroll=64, trace=self.trace)
            ex['_ZNK1EssERKS_'] = lambda eng, st, a: self.order(eng, st, [None] + list(a))
        self.c = c = (track or (lambda x: x))(Ctx(UNIT, externs=ex, opts=opts))
        self.n = c.int('length', 0, BIG) if concrete is None else I(len(concrete))
        r = c.eng.new_array(c.st, 'items', 8, self.n, heap='param')
        r.lanes[(0, 'live')] = base_lane(lambda k: TRUE); r.lanes[(0, 'v')] = base_lane(lambda k: zi(k))
        self.arr = r.rid
        self.p = Ptr(r.rid, 0)
        self.f = None
        if fo:
            f = c.eng.new_struct(c.st, fo, const_of(c.helper('sz_' + fo)), heap='param'); f.fields[(0, 'live')] = (1, TRUE); f.fields[(0, 'v')] = (1, z3.Int('callable.state'))
            self.f = Ptr(f.rid, 0)
        else:
            f = c.eng.new_struct(c.st, 'orderer', 1, heap='param'); self.f = Ptr(f.rid, 0)
        self.fo = fo
        self.states = {}
    def order(self, eng, st, a):
        if a[0] is not None:
            r, l = eng.elem(st, a[0], 'callable')
            eng.require(st, z3.And(eng.elem_get(st, r, l, 'live'), eng.elem_get(st, r, l, 'v') == z3.Int('callable.state')), 'the comparer given is called')
        vs = []
        for p in a[1:]:
            r, l = eng.elem(st, p, 'argument of the comparer'); eng.require(st, eng.elem_get(st, r, l, 'live'), 'argument of the comparer on a live object')
            vs.append(eng.elem_get(st, r, l, 'v'))
        if self.conc is not None:
            x, y = (self.conc[const_of(z3.simplify(v))] for v in vs)
            return R(st, I((x > y) - (x < y)))
        x, y = key(vs[0]), key(vs[1])
        return R(st, z3.If(unord(vs[0], vs[1]), I(2), c3(x, y)) if self.partial else c3(x, y))
    # ---- concrete samples of the states at the loop heads, to pick candidate invariants
    def trace(self, f, H, st, env):
        d = {}
        for k, v in self.scalars(self.c.eng, f, st, env):
            x = const_of(z3.simplify(zi(v)))
            if x is None:
                return
            d[k] = x
        ln = st.regions[self.arr].lanes[(0, 'v')]
        a = [const_of(z3.simplify(ln(I(i)))) for i in range(len(self.conc))]
        self.states.setdefault((f.name, H), []).append((d, a, self.conc))
    def scalars(self, eng, f, st, env):
        names = self.names(f)
        out = []
        for k in names:
            v = env.get(k)
            if isinstance(v, Ptr) and v.rid == self.arr:
                out.append((('p', k), z3.simplify(split8(v.off))))
            elif v is not None and not isinstance(v, Ptr) and z3.is_expr(v) and z3.is_int(v):
                out.append((('i' if names[k] != 8 else 'b', k), v))
        for rid, r in st.regions.items():
            if r.heap == 'stack' and r.kind == 'struct' and r.alive and 0 in r.fields and r.fields[0][0] == 8 and z3.is_expr(r.fields[0][1]) and z3.is_int(r.fields[0][1]):
                out.append((('i', '@' + r.name), r.fields[0][1]))
        return out
    def names(self, f):
        """parameters and loop variables of the function, with their width"""
        d = {}
        for (t, n, _) in f.params:
            d[n] = width(t)
        for H in f.loops:
            for ins in f.blocks[H]:
                if ins.op != 'phi':
                    break
                d[ins.res] = width(ins.a['t'])
        return d
def width(t):
    return t[1] if isinstance(t, tuple) and t[0] == 'int' else 0
def split8(off):
    if isinstance(off, int):
        return I(off // 8)
    q = z3.simplify(off / 8) if not isinstance(off, int) else off
    i, rem = split(norm(off), 8)
    return zi(i)

RELS = {'<': operator.lt, '<=': operator.le, '==': operator.eq, '>=': operator.ge, '>': operator.gt}

def candidates(X, samples, strict=True):
    """candidate invariants of the loops: what held in every sampled state; each is then proved inductive or dropped"""
    cache = {}
    def gen(eng, S):
        fk = (S.f.name, S.H)
        ss = samples.get(fk)
        if ss is None:
            ss = next((v for (n, h), v in samples.items() if h == S.H and eng.dem.get(n, n).split('<')[0] == eng.dem.get(fk[0], fk[0]).split('<')[0]), None)
        if not ss:
            return []
        if fk not in cache:
            cache[fk] = select(ss, strict)
        out = []
        for c in cache[fk]:
            out.append((str(c), (lambda c: lambda st, env: instance(X, eng, S.f, c, st, env))(c)))
        return out
    return gen

def terms(ss):
    """position terms relative to base b and length m"""
    d0 = ss[0][0]
    ks = [k for k in d0 if all(k in d for d, _, _ in ss)]
    return [k for k in ks if k[0] == 'p'], [k for k in ks if k[0] == 'i'], [k for k in ks if k[0] == 'b']

def ev(t, g):
    """position expression (kind, var, offset) over getter g; m is the length variable"""
    k, v, o, m = t
    return g(v) + o if k == '+' else g(m) - g(v) + o if k == '-' else o if k == '0' else g(m)

def holds(c, d, a, K):
    g = lambda v: d[v]
    key_ = lambda k: K[a[k]]
    if c[0] == 'perm':
        return sorted(a) == list(range(len(a)))
    if c[0] == 'out':
        b, m = g(c[1]), g(c[2])
        if not (0 <= b and m >= 0 and b + m <= len(a)):
            return False
        inn = lambda i: b <= i < b + m
        return all(inn(i) and inn(j) or key_(i) <= key_(j) for i in range(len(a)) for j in range(i + 1, len(a)))
    if c[0] == 'rng':
        _, b, lo, hi, rel, w = c
        lo, hi, w = g(b) + ev(lo, g), g(b) + ev(hi, g), g(b) + g(w)
        if not 0 <= w < len(a) or any(not 0 <= k < len(a) for k in range(lo, hi)):
            return False
        return all(RELS[rel](key_(k), key_(w)) for k in range(lo, hi))
    if c[0] == 'lin':
        _, b, bv, x, y = c
        return b is not None and g(b) != bv or g(x) == ev(y, g)
    if c[0] == 'ord':
        _, x, y = c
        return ev(x, g) <= ev(y, g)
    if c[0] == 'sum':
        _, x, y, o, m = c
        return g(x) + g(y) + o <= g(m)
    if c[0] == 'rngb':
        return g(c[1]) in (0, 1)

def select(ss, strict=True):
    P, N, Bs = terms(ss)
    # (base, length) pairs of the active range
    out = [('perm',)]
    acts = [(p, m) for p in P for m in N if all(holds(('out', p, m), d, a, K) for d, a, K in ss)]
    acts.sort(key=lambda c: sum(d[c[1]] for d, _, _ in ss))
    acts = acts[:1]
    # variables that always differ by the same constant: one stands for the other
    eqs = []; rep = []
    for v in sorted(N, key=lambda v: not v[1].startswith('@')):
        if acts and v == acts[0][1]:
            continue
        if len({d[v] for d, _, _ in ss}) == 1 and len(ss) > 8:
            continue
        for u in rep:
            o = {d[v] - d[u] for d, _, _ in ss}
            if len(o) == 1:
                eqs.append(('lin', None, 0, v, ('+', u, o.pop(), acts[0][1] if acts else u))); break
        else:
            rep.append(v)
    out += eqs
    N = rep
    cands = []
    for p, m in acts:
        cands.append(('out', p, m))
        vs = [v for v in N if all(-1 <= d[v] <= d[m] for d, _, _ in ss)]
        ws = [w for w in vs if all(0 <= d[w] < d[m] for d, _, _ in ss)]
        for v in vs:
            for o in (-1, 0, 1):
                cands.append(('ord', ('0', None, o, m), ('+', v, 0, m))); cands.append(('ord', ('+', v, o, m), ('m', None, 0, m)))
            for y in vs:
                if y != v:
                    for o in (-1, 0, 1):
                        cands.append(('lin', None, 0, v, ('+', y, o, m))); cands.append(('lin', None, 0, v, ('-', y, o, m)))
                        cands.append(('ord', ('+', v, o, m), ('+', y, 0, m)))
                        cands.append(('ord', ('+', v, o, m), ('-', y, 0, m)))
                        for b in Bs:
                            for bv in (0, 1):
                                cands.append(('lin', b, bv, v, ('+', y, o, m))); cands.append(('lin', b, bv, v, ('-', y, o, m)))
        for b in Bs:
            cands.append(('rngb', b))
        pos = [('+', v, o, m) for v in vs for o in (0, 1)] + [('-', v, 0, m) for v in vs]
        for w in ws:
            for x in pos:
                for rel in ('<', '<='):
                    cands.append(('rng', p, ('0', None, 0, m), x, rel, w))
                for rel in ('>', '>='):
                    cands.append(('rng', p, x, ('m', None, 0, m), rel, w))
                for y in pos:
                    if y[1] != x[1] and not (x[0] == '-' and y[0] == '-'):
                        for rel in ('<', '==', '>'):
                            cands.append(('rng', p, x, y, rel, w))
    for c in cands:
        if c in out:
            continue
        if not all(holds(c, d, a, K) for d, a, K in ss):
            continue
        if c[0] == 'rng' and not any(c_span(c, d) > 0 for d, a, K in ss):
            continue
        if c[0] == 'lin' and c[1] is not None and (('lin', None, 0) + c[3:] in out or not any(d[c[1]] == c[2] for d, _, _ in ss)):
            continue
        out.append(c)
    # drop candidates implied by a stronger one (ranges compared over the samples)
    imp = {'<': ('<', '<='), '==': ('==', '<=', '>='), '>': ('>', '>='), '<=': ('<=',), '>=': ('>=',)}
    if not strict:
        imp = {k: (k,) for k in imp}
    span = {c: [(ev(c[2], d.__getitem__), ev(c[3], d.__getitem__)) for d, _, _ in ss] for c in out if c[0] == 'rng'}
    order = {c: ev_all(c, ss) for c in out if c[0] == 'ord'}
    res = []
    for n, c in enumerate(out):
        dom = False
        for n2, e in enumerate(out):
            if n2 == n or e[0] != c[0]:
                continue
            if c[0] == 'rng' and c[1] == e[1] and c[5] == e[5] and c[4] in imp[e[4]]:
                if all(x[0] >= x[1] or (y[0] <= x[0] and x[1] <= y[1]) for x, y in zip(span[c], span[e])):
                    back = e[4] in imp[c[4]] and all(y[0] >= y[1] or (x[0] <= y[0] and y[1] <= x[1]) for x, y in zip(span[c], span[e]))
                    dom = dom or not back or n2 < n
            if c[0] == 'ord' and c[1][:2] == e[1][:2] and c[2][:2] == e[2][:2] and c[1][2] < e[1][2]:
                dom = True
        if not dom:
            res.append(c)
    return res
def ev_all(c, ss):
    return None
def c_span(c, d):
    g = lambda v: d[v]
    return ev(c[3], g) - ev(c[2], g)

def instance(X, eng, f, c, st, env):
    vals = dict(X.scalars(eng, f, st, env))
    try:
        g = lambda v: vals[v]
        ln = st.regions[X.arr].lanes[(0, 'v')]; n = X.n
        i, j = z3.Ints('i!s j!s')
        if c[0] == 'perm':
            fi, fj = ln(i), ln(j)
            return [z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(fi >= 0, fi < n)), **pat(fi)),
                    z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), fi != fj), **pat(fi, fj))]
        if c[0] == 'out':
            b, m = g(c[1]), g(c[2])
            inn = lambda q: z3.And(b <= q, q < b + m)
            fi, fj = ln(i), ln(j)
            return [z3.And(b >= 0, m >= 0, b + m <= n), z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n, z3.Not(z3.And(inn(i), inn(j)))), key(fi) <= key(fj)), **pat(fi, fj))]
        if c[0] == 'rng':
            _, b, lo, hi, rel, w = c
            b_ = g(b); lo, hi, w = b_ + ev(lo, g), b_ + ev(hi, g), b_ + g(w)
            fi = ln(i)
            return [z3.ForAll([i], z3.Implies(z3.And(i >= lo, i < hi), RELS[rel](key(fi), key(ln(w)))), **pat(fi))]
        if c[0] == 'lin':
            _, b, bv, x, y = c
            e = g(x) == ev(y, g)
            return [e if b is None else z3.Implies(g(b) == bv, e)]
        if c[0] == 'ord':
            return [ev(c[1], g) <= ev(c[2], g)]
        if c[0] == 'sum':
            return [g(c[1]) + g(c[2]) + c[3] <= g(c[4])]
        if c[0] == 'rngb':
            return [z3.Or(g(c[1]) == 0, g(c[1]) == 1)]
    except KeyError:
        raise Unsupported('variable not in scope')
def pat(*fs):
    if all(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 for x in fs):
        return dict(patterns=[z3.MultiPattern(*fs)] if len(fs) > 1 else [fs[0]])
    return {}

_samples = {}
def samples(F, fo):
    if F in _samples:
        return _samples[F]
    rnd = random.Random(7)
    out = {}
    arrs = [[0], [1, 0], [0, 1], [1, 1, 1], [2, 0, 1, 1], [1, 2, 1, 0, 1], [3, 1, 2, 0], [0, 2, 1, 2, 1, 1]] + [[rnd.randint(0, 4) for _ in range(9)] for _ in range(10)]
    for a in arrs:
        X = SC(None, F, fo, concrete=a)
        X.c.eng.mute += 1
        fn = X.c.find(F)
        def rec(eng, st, a, X=X):
            r = st.mut(X.arr); old = r.lanes[(0, 'v')]
            lo, m = const_of(split8(a[0].off)), const_of(z3.simplify(zi(a[1])))
            vs = [const_of(z3.simplify(old(I(i)))) for i in range(len(X.conc))]
            vs[lo:lo + m] = sorted(vs[lo:lo + m], key=lambda v: X.conc[v])
            def at(k):
                k = z3.simplify(zi(k))
                e = I(vs[0])
                for q in range(1, len(vs)):
                    e = z3.If(k == q, I(vs[q]), e)
                return z3.simplify(e)
            r.lanes[(0, 'v')] = base_lane(at, old.size)
            return R(st)
        for d in [d for d in X.c.u.bydem if 'SortLambda<' in d]:
            X.c.eng.contracts[d] = rec
        X.c.run(fn, [X.p, X.n, X.f])
        for k, v in X.states.items():
            out.setdefault(k, []).extend(v)
    _samples[F] = out
    return out

def sort_contract(X, measure=None):
    """SortLambda(items + lo, m): the elements of the range are permuted into ascending order, nothing else changes"""
    def f(eng, st, a):
        p, m = a[0], zi(a[1])
        if not isinstance(p, Ptr) or p.rid != X.arr:
            return None
        lo = split8(p.off)
        eng.require(st, z3.And(m >= 0, lo >= 0, lo + m <= X.n), 'call SortLambda: range inside of the array')
        if measure is not None:
            eng.require(st, m < measure, 'call SortLambda: a smaller range (the recursion ends)')
        X.same_functor(eng, st, a[2])
        st0 = st.copy()
        r = st.mut(X.arr)
        old = r.lanes[(0, 'v')]
        ctx = [t for _, t in st.loopctx]
        eng.nsort = getattr(eng, 'nsort', 0) + 1
        pi_ = z3.Function('perm!%d' % eng.nsort, *([INT] * (len(ctx) + 1)), INT); rho_ = z3.Function('mrep!%d' % eng.nsort, *([INT] * (len(ctx) + 1)), INT)
        pi = lambda k: pi_(*ctx, k); rho = lambda k: rho_(*ctx, k)
        i, j = z3.Ints('i!p j!p')
        inn = lambda q: z3.And(q >= lo, q < lo + m)
        st.add(z3.ForAll([i], z3.Implies(inn(i), z3.And(inn(pi(i)), rho(pi(i)) == i)), patterns=[pi(i)]))
        st.add(z3.ForAll([i, j], z3.Implies(z3.And(inn(i), inn(j), i <= j), key(old(pi(i))) <= key(old(pi(j)))), patterns=[z3.MultiPattern(pi(i), pi(j))]))
        r.lanes[(0, 'v')] = base_lane(lambda k: z3.If(inn(zi(k)), old(pi(zi(k))), old(k)), old.size)
        outs = R(st)
        if X.partial:
            t = st0; r = t.mut(X.arr)
            t.add(z3.ForAll([i], z3.Implies(inn(i), z3.And(inn(pi(i)), rho(pi(i)) == i)), patterns=[pi(i)]))
            r.lanes[(0, 'v')] = base_lane(lambda k: z3.If(inn(zi(k)), old(pi(zi(k))), old(k)), old.size)
            outs.append(Outcome(t, 'throw', ExnVal(ERROR, Ptr(None, 0))))
        return outs
    return f

def functor(X):
    def f(eng, st, p):
        if X.fo:
            eng.require(st, z3.BoolVal(isinstance(p, Ptr) and p.rid == X.f.rid), 'call SortLambda: with the comparer given')
    X.same_functor = f

def install(X, measure):
    functor(X)
    for d in [d for d in X.c.u.bydem if 'SortLambda<' in d]:
        X.c.eng.contracts[d] = sort_contract(X, measure)
def outcomes(X, outs, what):
    c = X.c
    for o in outs:
        if o.kind != 'ret':
            c.ensure(o.st, z3.BoolVal(X.partial and c.is_error(o)), what + ': raises nothing but Error, and only for a partial order')
        post(X, o.st, what, o.kind == 'ret')
def sort_case(F, fo, name, partial=False):
    def f(track):
        S = samples(F, fo)
        X = SC(track, F, fo, partial); c = X.c
        install(X, X.n)
        fn = c.find(F)
        c.eng.inv_templates.append(('sort', candidates(X, S, not partial), 'gen'))
        outcomes(X, c.run(fn, [X.p, X.n, X.f]), 'Sort')
    C17.case(name, UNIT, budget=240)(f)
def wrap_case(api, fo, name, partial=False):
    def f(track):
        X = SC(track, None, fo, partial); install(X, None)
        outcomes(X, X.c.run(api, [X.p, X.n] + ([X.f] if fo else [])), name)
    C17.case(name, UNIT)(f)

def post(X, st, what, sorted_=True):
    c = X.c; eng = c.eng
    r = st.regions[X.arr]; ln = r.lanes[(0, 'v')]; n = X.n
    i = z3.FreshConst(INT, 'i'); j = z3.FreshConst(INT, 'j')
    s = st.copy(); s.add(z3.And(i >= 0, i < j, j < n))
    if sorted_:
        c.ensure(s, key(ln(i)) <= key(ln(j)), what + ': elements are in ascending order')
    c.ensure(s, ln(i) != ln(j), what + ': no element is duplicated')
    s = st.copy(); s.add(z3.And(i >= 0, i < n))
    c.ensure(s, z3.And(ln(i) >= 0, ln(i) < n), what + ': every element is one of the given ones')
    c.ensure_forall(st, lambda k: eng.elem_get(st, r, ('a', k, 0), 'live'), what + ': every element is alive', lambda k: z3.And(k >= 0, k < n))

sort_case(SORT % 'ORDW const&', 'ORDW', 'SortLambda<E, weak order>')
sort_case(SORT % 'ORDP const&', 'ORDP', 'SortLambda<E, partial order>', True)
LAM = r"void vl::collections::Sort<E>\(E\*, long\)::'lambda'\(E const&, E const&\)"
sort_case(SORT % (LAM + '&'), None, 'SortLambda<E, own order>, recursive')
wrap_case('api_SortSelf', None, 'Sort(items, length)')
wrap_case('api_SortW', 'ORDW', 'Sort(items, length, weak order)')
wrap_case('api_SortP', 'ORDP', 'Sort(items, length, partial order)', True)

# ------------------------------------------------------------------ LazyList::OrderBy, OrderByKey, OrderBySelf
ordK = z3.Function('order_key', INT, INT)
KEYS = {'OrderBy': lambda v: ordK(v), 'OrderByKey': lambda v: keyE(selF(v)), 'OrderBySelf': lambda v: keyE(v)}
class Ordered(Container):
    """SortLambda on the buffer of the evaluated list appears by its contract"""
    def sort(self, K, name):
        def f(eng, st, a):
            p, m, fo = a
            r = st.regions.get(p.rid) if isinstance(p, Ptr) and p.rid is not None else None
            if r is None or r.kind != 'array':
                raise Unsupported('SortLambda on unknown storage')
            c = self.c
            eng.require(st, z3.And(z3.BoolVal(r.alive), zi(p.off) == 0, zi(m) >= 0, zi(m) <= zi(r.count)), 'call SortLambda: range inside of the list')
            rid = p.rid
            eng.require_forall(st, lambda k: Opaque.live(eng, st, rid, k), 'call SortLambda: elements are constructed', lambda k: z3.And(k >= 0, k < zi(m)))
            # the comparer orders by the documented key
            fn = c.u.m.funcs[c.u.bydem[name]]; fn.ensure()
            ops = {i.a.get('callee') for b in fn.blocks.values() for i in b if i.op in ('call', 'invoke')}
            ops = {o[1] if isinstance(o, tuple) else o for o in ops}
            ops = [o for o in ops if isinstance(o, str) and c.u.dem.get(o.lstrip('@'), '').endswith('operator()(E const&, E const&) const')]
            if len(ops) != 1:
                raise Unsupported('comparer of SortLambda')
            s = st.copy(); xs = []
            for n_ in 'xy':
                e = eng.new_array(s, n_, 8, I(1), heap='param'); v = z3.Int('sample.' + n_)
                e.lanes[(0, 'live')] = base_lane(lambda k: TRUE); e.lanes[(0, 'v')] = base_lane((lambda v: lambda k: v)(v)); xs.append((Ptr(e.rid, 0), v))
            for o in eng.call_function(s, ops[0].lstrip('@'), [fo, xs[0][0], xs[1][0]]):
                x, y = K(xs[0][1]), K(xs[1][1])
                eng.require(o.st, z3.BoolVal(o.kind == 'ret'), 'the comparer does not raise')
                if o.kind == 'ret':
                    v = o.val
                    v = v.vals[0] if isinstance(v, Agg) else v
                    eng.require(o.st, z3.And((v < 0) == (x < y), (v > 0) == (x > y)) if z3.is_int(v) else FALSE, 'elements are compared as documented')
            old = r.lanes[(0, 'v')]; m = zi(m)
            pi = z3.Function('perm', INT, INT); rho = z3.Function('mrep', INT, INT); i, j = z3.Ints('i!p j!p')
            inn = lambda q: z3.And(q >= 0, q < m)
            st.add(z3.ForAll([i], z3.Implies(inn(i), z3.And(inn(pi(i)), rho(pi(i)) == i)), patterns=[pi(i)]))
            st.add(z3.ForAll([i, j], z3.Implies(z3.And(inn(i), inn(j), i <= j), K(old(pi(i))) <= K(old(pi(j)))), patterns=[z3.MultiPattern(pi(i), pi(j))]))
            r = st.mut(rid); r.lanes[(0, 'v')] = base_lane(lambda k: z3.If(inn(zi(k)), old(pi(zi(k))), old(k)), old.size)
            return R(st)
        return f
for op in ('OrderBy', 'OrderByKey', 'OrderBySelf'):
    def f(track, op=op):
        x = Ordered(track); c = x.c; lz = lazy(x.X, x.a); r = raw(c, 'LZ'); x.src = lz; K = KEYS[op]; a = x.a
        for d in c.u.bydem:
            if 'SortLambda<E' in d:
                c.eng.contracts[d] = x.sort(K, d)
        def ordw(eng, st, b):
            x.X.functor(eng, st, b[0]); vs = []
            for p in b[1:]:
                r_, l = eng.elem(st, p, 'argument of the comparer'); eng.require(st, eng.elem_get(st, r_, l, 'live'), 'argument of the comparer on a live object'); vs.append(eng.elem_get(st, r_, l, 'v'))
            return R(st, c3(ordK(vs[0]), ordK(vs[1])))
        c.eng.externs['_ZNK4ORDWclERK1ES2_'] = ordw
        # elements are known by identity: position in the source
        idf = z3.Function('position', INT, INT); q = z3.Int('q!id')
        c.st.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < a.n), idf(a.S(q)) == q), patterns=[a.S(q)]))
        def chk(st, t):
            same_class(st, t, c.st, x.t)
            x.index(st, t, I(-1), op)
            qs = [v for k, (w, v) in st.regions[t.rid].fields.items() if isinstance(v, Ptr) and v.rid is not None and st.regions[v.rid].kind == 'struct' and x.L.view(c.eng, st, v) is not None and st.regions[v.rid].size == st.regions[x.l.rid].size]
            if len({(v.rid, x.off(v)) for v in qs}) != 1:
                raise Unsupported('container of the sorted list')
            buf, n, cap, _ = x.L.view(c.eng, st, qs[0])
            c.ensure(st, zi(n) == a.n, op + ': number of elements')
            if buf.rid is None:
                c.ensure(st, a.n == 0, op + ': elements'); return
            val = lambda k: Opaque.val(c.eng, st, buf.rid, k)
            c.ensure_forall(st, lambda k: Opaque.live(c.eng, st, buf.rid, k), op + ': every element is alive', lambda k: z3.And(k >= 0, k < a.n))
            c.ensure_forall(st, lambda k: z3.And(idf(val(k)) >= 0, idf(val(k)) < a.n, val(k) == a.S(idf(val(k)))), op + ': every element is one of the source', lambda k: z3.And(k >= 0, k < a.n))
            i = z3.FreshConst(INT, 'i'); j = z3.FreshConst(INT, 'j')
            s = st.copy(); s.add(z3.And(i >= 0, i < j, j < a.n))
            c.ensure(s, K(val(i)) <= K(val(j)), op + ': ascending order')
            c.ensure(s, val(i) != val(j), op + ': no element is duplicated')
        args = {'OrderBy': lambda: [fobj(x.X, 'ORDW')], 'OrderByKey': lambda: [fobj(x.X, 'SEL')], 'OrderBySelf': lambda: []}[op]()
        lz_check(x, c.run('api_LZ_' + op, [r, lz] + args), 'LZ', [('LZ', r), ('LZ', lz)], op, chk=chk)
    C17.case('LazyList::' + op, 'linq')(f)
