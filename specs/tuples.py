"""C13 Pair and Tuple: independent components, lexicographic order."""
import z3
from vir.spec import *
from vir.runner import Property
from specs.variant import typed

C13 = Property('C13')
PROPERTIES = [C13]
C13.driver = 'values'
C13.assumptions = ['instances: Pair<E, F>, Pair<E, long>, Tuple<E, F, long>, pairs and tuples of partially ordered Q and conversions from Pair<E, int>, Tuple<E, F, int>, with opaque E and F (the code is generic in the component types)',
                   'component operations do not throw and do not touch the aggregate']
KIND = {'PR': (0, 1), 'PL': (0, 2), 'PI': (0, 4), 'T3': (0, 1, 2), 'T3i': (0, 1, 4), 'PQ': (5, 0), 'PE': (0, 5), 'TQ': (5, 0), 'TE': (0, 5), 'TQQ': (5, 5, 2)}     # 0 E, 1 F, 2 long, 4 int, 5 Q (partially ordered)

eqQ = z3.Function('eqQ', INT, INT, z3.BoolSort()); cmpQ = z3.Function('cmpQ', INT, INT, INT)
def q_eq(eng, st, a):
    return R(st, eqQ(eng.load(st, ('int', 64), a[0]), eng.load(st, ('int', 64), a[1])))
def q_cmp(eng, st, a):
    v = cmpQ(eng.load(st, ('int', 64), a[0]), eng.load(st, ('int', 64), a[1]))
    st.add(z3.And(v >= -1, v <= 2))        # less, equivalent, greater, unordered
    return R(st, v)

class TC:
    def __init__(self, track):
        self.c = track(Ctx('tuple', externs=dict(typed(), _ZNK1QeqERKS_=q_eq, _ZNK1QssERKS_=q_cmp)))
    def raw(self, id):
        c = self.c
        r = c.eng.new_struct(c.st, id, const_of(c.helper('sz_' + id)), heap='param')
        p = Ptr(r.rid, 0)
        return p
    def offs(self, id, p):
        return [self.c.helper('slot_%s_%d' % (id, k), p).off - p.off for k in range(len(KIND[id]))]
    def put(self, p, off, kind, v):
        r = self.c.st.mut(p.rid); o = p.off + off
        if kind in (2, 5):
            r.fields[o] = (8, v)
        elif kind == 4:
            r.fields[o] = (4, v)
        else:
            r.fields[(o, 'live')] = (1, TRUE); r.fields[(o, 'v')] = (1, v); r.fields[(o, 'ty')] = (1, I(kind))
    def agg(self, id, name):
        p = self.raw(id); vs = []
        for k, off in enumerate(self.offs(id, p)):
            w = 31 if KIND[id][k] == 4 else 63
            v = self.c.int('%s.%d' % (name, k), -(1 << w), (1 << w) - 1)
            self.put(p, off, KIND[id][k], v); vs.append(v)
        return p, vs
    def cell(self, name, kind):
        r = self.c.eng.new_struct(self.c.st, name, 8, heap='param'); v = self.c.int(name)
        self.put(Ptr(r.rid, 0), 0, kind, v)
        return Ptr(r.rid, 0), v
    def holds(self, o, id, p, vs, what, moved=False, offs=None):
        c = self.c; st = o.st; r = st.regions[p.rid]
        for k, off in enumerate(self.offs(id, p) if offs is None else offs):
            kind = KIND[id][k]; q = p.off + off
            if kind in (2, 4, 5):
                x = r.fields.get(q)
                c.ensure(st, (x[1] == vs[k]) if x is not None else FALSE, '%s: component %d' % (what, k))
            else:
                c.ensure(st, r.fields.get((q, 'live'), (1, FALSE))[1], '%s: component %d is alive' % (what, k))
                if not moved:
                    c.ensure(st, r.fields[(q, 'v')][1] == vs[k] if (q, 'v') in r.fields else FALSE, '%s: component %d' % (what, k))
    def ret(self, name, args, what):
        out = []
        for o in self.c.run(name, args):
            if o.kind != 'ret':
                self.c.ensure(o.st, FALSE, what + ': does not raise')
            else:
                out.append(o)
        return out
    def isptr(self, o, v, p, off, what):
        self.c.ensure(o.st, z3.BoolVal(isinstance(v, Ptr) and v.rid == p.rid and v.off == p.off + off), what)

NM = {'PR': 'Pair<E, F>', 'PL': 'Pair<E, long>', 'PI': 'Pair<E, int>', 'T3': 'Tuple<E, F, long>', 'T3i': 'Tuple<E, F, int>', 'PQ': 'Pair<Q, E>', 'PE': 'Pair<E, Q>', 'TQ': 'Tuple<Q, E>', 'TE': 'Tuple<E, Q>', 'TQQ': 'Tuple<Q, Q, long>'}
def case(name, f):
    C13.case(name, 'tuple')(f)
def key(kind, v):
    return keyE(v) if kind in (0, 1) else v
def eq(kind, a, b):
    if kind == 5:
        return eqQ(a, b)
    return eqE(a, b) if kind in (0, 1) else a == b
def lex(ks, xs, ys):
    r = I(0)
    for k, x, y in reversed(list(zip(ks, xs, ys))):
        if k == 5:
            r = z3.If(cmpQ(x, y) == 0, r, cmpQ(x, y)); continue
        r = z3.If(key(k, x) < key(k, y), I(-1), z3.If(key(k, x) > key(k, y), I(1), r))
    return r
def alleq(ks, xs, ys):
    return z3.And([eq(k, x, y) for k, x, y in zip(ks, xs, ys)])
for id in ('PR', 'PL', 'T3'):
    def f(track, id=id):
        X = TC(track); p = X.raw(id); of = X.offs(id, p)
        for o in X.ret('api_%s_ctor' % id, [p], 'default construction'):
            for k, off in enumerate(of):
                if KIND[id][k] < 2:
                    X.c.ensure(o.st, z3.And(o.st.regions[p.rid].fields.get((off, 'live'), (1, FALSE))[1], o.st.regions[p.rid].fields[(off, 'v')][1] == dfE), 'default construction: component %d' % k)
        for op in ('cctor', 'mctor'):
            X = TC(track); s, vs = X.agg(id, 'source'); p = X.raw(id); of = X.offs(id, p)
            for o in X.ret('api_%s_%s' % (id, op), [p, s], op):
                X.holds(o, id, p, vs, op, offs=of); X.holds(o, id, s, vs, op + ' (source)', op == 'mctor', offs=of)
        X = TC(track); s, vs = X.agg(id, 'self'); of = X.offs(id, s)
        for o in X.ret('api_%s_dtor' % id, [s], 'destruction'):
            for k, off in enumerate(of):
                if KIND[id][k] < 2:
                    X.c.ensure(o.st, z3.Not(o.st.regions[s.rid].fields[(off, 'live')][1]), 'destruction: component %d destroyed' % k)
    case(NM[id] + ': construction, copy, move, destruction', f)
    def f(track, id=id):
        for op in ('cassign', 'massign'):
            X = TC(track); d, _ = X.agg(id, 'target'); s, vs = X.agg(id, 'source'); of = X.offs(id, d)
            for o in X.ret('api_%s_%s' % (id, op), [d, s], op):
                X.holds(o, id, d, vs, op, offs=of); X.holds(o, id, s, vs, op + ' (source)', op == 'massign', offs=of)
                X.isptr(o, o.val, d, 0, op + ': returns the target')
    case(NM[id] + ': assignment', f)
    def f(track, id=id):
        ks = KIND[id]
        for op in ('cmp', 'lt', 'ge', 'eq', 'ne'):
            X = TC(track); a, xs = X.agg(id, 'left'); b, ys = X.agg(id, 'right'); of = X.offs(id, a)
            for o in X.ret('api_%s_%s' % (id, op), [a, b], 'comparison'):
                X.holds(o, id, a, xs, 'comparison', offs=of); X.holds(o, id, b, ys, 'comparison', offs=of)
                r = lex(ks, xs, ys); e = alleq(ks, xs, ys)
                want = {'cmp': lambda: o.val == r, 'lt': lambda: B(o.val) == (r < 0), 'ge': lambda: B(o.val) == (r >= 0), 'eq': lambda: B(o.val) == e, 'ne': lambda: B(o.val) == z3.Not(e)}[op]()
                X.c.ensure(o.st, want, {'cmp': '<=>', 'lt': '<', 'ge': '>=', 'eq': '==', 'ne': '!='}[op] + (': every component equal' if op in ('eq', 'ne') else ': lexicographic order of the components'))
    case(NM[id] + ': comparison', f)
for id in ('PQ', 'PE', 'TQ', 'TE', 'TQQ'):
    def f(track, id=id):
        ks = KIND[id]
        for op in ('cmp', 'lt', 'ge', 'eq', 'ne'):
            X = TC(track); a, xs = X.agg(id, 'left'); b, ys = X.agg(id, 'right'); of = X.offs(id, a)
            for k, x, y in zip(ks, xs, ys):
                if k == 5:
                    X.c.st.add(z3.And(cmpQ(x, y) >= -1, cmpQ(x, y) <= 2))
            for o in X.ret('api_%s_%s' % (id, op), [a, b], 'comparison'):
                X.holds(o, id, a, xs, 'comparison', offs=of); X.holds(o, id, b, ys, 'comparison', offs=of)
                r = lex(ks, xs, ys); e = alleq(ks, xs, ys)
                want = {'cmp': lambda: o.val == r, 'lt': lambda: B(o.val) == (r == -1), 'ge': lambda: B(o.val) == z3.Or(r == 0, r == 1), 'eq': lambda: B(o.val) == e, 'ne': lambda: B(o.val) == z3.Not(e)}[op]()
                X.c.ensure(o.st, want, {'cmp': '<=>', 'lt': '<', 'ge': '>=', 'eq': '==', 'ne': '!='}[op] + (': every component equal' if op in ('eq', 'ne') else ': decided by the first components that are not equivalent'))
    case(NM[id] + ': comparison with partially ordered components', f)
for id, src in (('PL', 'PI'), ('T3', 'T3i')):
    def f(track, id=id, src=src):
        for op in ('cvc', 'cvm') + (('xcassign', 'xmassign') if id == 'T3' else ()):
            X = TC(track); s, vs = X.agg(src, 'source')
            if op[0] == 'x':
                p, _ = X.agg(id, 'target')
            else:
                p = X.raw(id)
            of = X.offs(id, p); os_ = X.offs(src, s)
            for o in X.ret('api_%s_%s' % (id, op), [p, s], 'conversion'):
                X.holds(o, id, p, vs, 'conversion', offs=of); X.holds(o, src, s, vs, 'conversion (source)', 'm' in op, offs=os_)
        ks = KIND[id]
        for op in ('xcmp', 'xeq'):
            X = TC(track); a, xs = X.agg(id, 'left'); b, ys = X.agg(src, 'right')
            for o in X.ret('api_%s_%s' % (id, op), [a, b], 'comparison'):
                X.c.ensure(o.st, o.val == lex(ks, xs, ys) if op == 'xcmp' else B(o.val) == alleq(ks, xs, ys), 'comparison with other component types')
    case('%s from and with %s' % (NM[id], NM[src]), f)
for id in ('PR', 'T3'):
    def f(track, id=id):
        for mv in 'cm':
            X = TC(track); cells = [X.cell('argument%d' % k, kd) for k, kd in enumerate(KIND[id])]; p = X.raw(id); of = X.offs(id, p)
            for o in X.ret('api_%s_%s' % (id, mv), [p] + [x[0] for x in cells], 'construction from components'):
                X.holds(o, id, p, [x[1] for x in cells], 'construction from components', offs=of)
                if mv == 'c':
                    for k, (q, v) in enumerate(cells):
                        if KIND[id][k] < 2:
                            X.c.ensure(o.st, o.st.regions[q.rid].fields[(0, 'v')][1] == v, 'construction from components: argument unchanged')
        X = TC(track); p, vs = X.agg(id, 'self'); of = X.offs(id, p)
        for k in range(len(KIND[id])):
            for g in ('get', 'cget') + (('fget', 'fcget') if id == 'T3' else ()):
                for o in X.ret('api_%s_%s%d' % (id, g, k), [p], g):
                    X.isptr(o, o.val, p, of[k], 'get<%d>: that component' % k)
                    X.holds(o, id, p, vs, g, offs=of)
        if len(set(of)) != len(of):
            X.c.ensure(X.c.st, FALSE, 'components have storage of their own')
        out = X.c.eng.new_struct(X.c.st, 'out', 32, heap='param')
        for o in X.ret('api_%s_bind' % id, [p, Ptr(out.rid, 0)], 'structured binding'):
            for k in range(len(KIND[id])):
                v = X.c.eng.load(o.st, ('ptr',), Ptr(out.rid, 8 * k))
                X.isptr(o, v, p, of[k], 'structured binding: component %d' % k)
    case(NM[id] + ': construction from components, get, structured binding', f)
def f(track):
    X = TC(track); cells = [X.cell('argument%d' % k, kd) for k, kd in enumerate((0, 1, 2))]
    out = X.c.eng.new_struct(X.c.st, 'out', 32, heap='param')
    for o in X.ret('api_T3r_refs', [x[0] for x in cells] + [Ptr(out.rid, 0)], 'tuple of references'):
        for k in range(3):
            X.isptr(o, X.c.eng.load(o.st, ('ptr',), Ptr(out.rid, 8 * k)), cells[k][0], 0, 'tuple of references: component %d is the object given' % k)
    X = TC(track); a = [X.cell('left%d' % k, kd) for k, kd in enumerate((0, 1, 2))]; b = [X.cell('right%d' % k, kd) for k, kd in enumerate((0, 1, 2))]
    for o in X.ret('api_T3r_eq', [x[0] for x in a + b], 'tuple of references'):
        X.c.ensure(o.st, B(o.val) == alleq((0, 1, 2), [x[1] for x in a], [x[1] for x in b]), 'tuple of references: == compares the objects')
case('Tuple<E&, F&, long&>', f)
