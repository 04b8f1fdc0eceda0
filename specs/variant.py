"""C12 Nullable and Variant hold exactly the value last given to them and manage its lifetime."""
import z3
from vir.spec import *
from vir.runner import Property

C12 = Property('C12')
PROPERTIES = [C12]
C12.driver = 'values'
C12.assumptions = ['Variant instance: two opaque class types and one trivially copyable type (the code is generic in the element list; every index and transition between indices is covered)',
                   'Nullable instances: assignable opaque type, trivially copyable type, opaque type without assignment',
                   'element operations do not throw and do not touch the container']
TY = {'E': 0, 'F': 1, 'N': 3}

def typed():
    """opaque operations that also demand the right dynamic type"""
    d = {}
    for n in TY:
        base = opaque_externs(n)
        for k, f in base.items():
            isctor = 'C1E' in k or 'C2E' in k
            def g(eng, st, a, f=f, n=n, isctor=isctor):
                t = I(TY[n])
                ops = [a[1]] if isctor and len(a) > 1 else [] if isctor else a
                for p in ops:
                    r, loc = eng.elem(st, p, 'object')
                    eng.require(st, eng.elem_get(st, r, loc, 'ty') == t, 'operation of class %s is applied to an object of that class' % n)
                o = f(eng, st, a)
                if isctor:
                    r, loc = eng.elem(st, a[0], 'object')
                    eng.elem_set(st, r, loc, 'ty', t)
                return o
            d[k] = g
    for k, kind in (('_ZNK2CBclER1E', 0), ('_ZNK2CBclER1F', 1), ('_ZNK2CBclERl', 2), ('_ZNK2CCclERK1E', 0), ('_ZNK2CCclERK1F', 1), ('_ZNK2CCclERKl', 2), ('_ZNK2CFclER1F', 1), ('_ZNK3CFCclERK1F', 1)):
        def cb(eng, st, a, kind=kind):
            p = a[1]
            if kind < 2:
                r, loc = eng.elem(st, p, 'callback argument')
                eng.require(st, z3.And(eng.elem_get(st, r, loc, 'live'), eng.elem_get(st, r, loc, 'ty') == kind), 'callback argument is a live object of its class')
            else:
                eng.load(st, ('int', 64), p)
            st.ghost['calls'] = st.ghost.get('calls', ()) + ((kind, p),)
            return R(st)
        d[k] = cb
    return d

class VC:
    def __init__(self, track):
        self.c = track(Ctx('variant', externs=typed()))
    def raw(self, id):
        c = self.c
        r = c.eng.new_struct(c.st, id, const_of(c.helper('sz_' + id)), heap='param')
        return Ptr(r.rid, 0)
    def put(self, p, off, kind, v):
        r = self.c.st.mut(p.rid); o = p.off + off
        if kind == 2:
            r.fields[o] = (8, v)
        else:
            r.fields[(o, 'live')] = (1, TRUE); r.fields[(o, 'v')] = (1, v); r.fields[(o, 'ty')] = (1, I(kind))
    def cell(self, name, kind):
        """argument object of the kind; -> pointer, value"""
        c = self.c
        r = c.eng.new_struct(c.st, name, 8, heap='param'); v = c.int(name + '.value')
        self.put(Ptr(r.rid, 0), 0, kind, v)
        return Ptr(r.rid, 0), v
    def content(self, o, p, off, kind, v, what, moved=False):
        """p+off holds exactly a value of the kind (kind None: no object)"""
        c = self.c; st = o.st; q = p.off + off; r = st.regions[p.rid]
        live = r.fields.get((q, 'live'), (1, FALSE))[1]
        if kind is None or kind == 2:
            c.ensure(st, z3.Not(live), what + ': no object of a class is left')
            if kind == 2:
                x = r.fields.get(q)
                c.ensure(st, z3.BoolVal(x is not None) if x is None else (x[1] == v), what + ': value')
            return
        c.ensure(st, live, what + ': the object is alive')
        c.ensure(st, r.fields[(q, 'ty')][1] == kind, what + ': class of the object')
        if moved:
            return
        c.ensure(st, r.fields[(q, 'v')][1] == v, what + ': value')
    def clean(self, o, what):
        for rid in o.st.ghost.get('heap', ()):
            self.c.ensure(o.st, z3.BoolVal(not o.st.regions[rid].alive), what + ': nothing leaked')
    def ret(self, name, args, what):
        out = []
        for o in self.c.run(name, args):
            if o.kind != 'ret':
                self.c.ensure(o.st, FALSE, what + ': does not raise')
            else:
                self.clean(o, what); out.append(o)
        return out
    # ---- Variant
    def va(self, name, k):
        p = self.raw('VA'); c = self.c
        self.oi, self.ob = c.field('VA', 'index', p), c.field('VA', 'buffer', p)
        v = c.int(name + '.value')
        c.st.mut(p.rid).fields[p.off + self.oi] = (8, I(k))
        self.put(p, self.ob, k, v)
        return p, v
    def rawva(self):
        p = self.raw('VA'); self.oi, self.ob = self.c.field('VA', 'index', p), self.c.field('VA', 'buffer', p)
        return p
    def isva(self, o, p, k, v, what, moved=False):
        r = o.st.regions[p.rid]
        x = r.fields.get(p.off + self.oi)
        self.c.ensure(o.st, zi(x[1]) == k if x is not None else FALSE, what + ': Index')
        self.content(o, p, self.ob, k, v, what, moved)
    def arg_kept(self, o, s, kind, v, what, moved):
        self.content(o, s, 0, kind, v, what + ' (argument)', moved)

NAMES = {0: 'E', 1: 'F', 2: 'long'}
def case(name, f):
    C12.case(name, 'variant')(f)

def f(track):
    X = VC(track); p = X.rawva()
    for o in X.ret('api_VA_ctor', [p], 'Variant()'):
        X.isva(o, p, 0, dfE, 'Variant()')
case('Variant::Variant()', f)
for k in range(3):
    for op, mv in (('cctor', 0), ('mctor', 1)):
        def f(track, k=k, op=op, mv=mv):
            X = VC(track); s, v = X.va('source', k); p = X.rawva()
            w = 'Variant copied' if not mv else 'Variant moved'
            for o in X.ret('api_VA_' + op, [p, s], w):
                X.isva(o, p, k, v, w); X.isva(o, s, k, v, w + ' (source)', mv)
        case('Variant::Variant(%s) [holding %s]' % ('const Variant&' if not mv else 'Variant&&', NAMES[k]), f)
    def f(track, k=k):
        X = VC(track); s, v = X.va('self', k)
        for o in X.ret('api_VA_dtor', [s], '~Variant'):
            X.content(o, s, X.ob, None, None, '~Variant')
    case('Variant::~Variant() [holding %s]' % NAMES[k], f)
    for op in ('c', 'm', 'ci', 'mi'):
        def f(track, k=k, op=op):
            X = VC(track); a, v = X.cell('argument', k); p = X.rawva()
            for o in X.ret('api_VA_%s%d' % (op, k), [p, a], 'construction from a value'):
                X.isva(o, p, k, v, 'construction from a value'); X.arg_kept(o, a, k, v, 'construction from a value', op[0] == 'm')
        case('Variant::Variant(%s%s)' % ({'c': 'const T&', 'm': 'T&&', 'ci': 'VariantIndex, const T&', 'mi': 'VariantIndex, T&&'}[op], ' = ' + NAMES[k]), f)
    for j in range(3):
        for op, mv in (('cassign', 0), ('massign', 1)):
            def f(track, k=k, j=j, op=op, mv=mv):
                X = VC(track); d, dv = X.va('target', j); s, v = X.va('source', k)
                for o in X.ret('api_VA_' + op, [d, s], 'assignment'):
                    X.isva(o, d, k, v, 'assignment'); X.isva(o, s, k, v, 'assignment (source)', mv)
                    X.c.ensure(o.st, z3.BoolVal(isinstance(o.val, Ptr) and o.val.rid == d.rid and o.val.off == d.off), 'assignment: returns the target')
            case('Variant::operator=(%s) [%s := %s]' % ('Variant&&' if mv else 'const Variant&', NAMES[j], NAMES[k]), f)
        for op in ('ac', 'am', 'sc', 'sm'):
            def f(track, k=k, j=j, op=op):
                X = VC(track); d, dv = X.va('target', j); a, v = X.cell('argument', k)
                for o in X.ret('api_VA_%s%d' % (op, k), [d, a], 'assignment of a value'):
                    X.isva(o, d, k, v, 'assignment of a value'); X.arg_kept(o, a, k, v, 'assignment of a value', op[1] == 'm')
                    X.c.ensure(o.st, z3.BoolVal(isinstance(o.val, Ptr) and o.val.rid == d.rid and o.val.off == d.off), 'assignment: returns the target')
            case('Variant::%s [%s := %s]' % ({'ac': 'operator=(const T&)', 'am': 'operator=(T&&)', 'sc': 'Set(const T&)', 'sm': 'Set(T&&)'}[op], NAMES[j], NAMES[k]), f)
        def f(track, k=k, j=j):
            for op in ('get', 'getm', 'getc', 'try', 'tryc'):
                X = VC(track); d, dv = X.va('self', j)
                for o in X.c.run('api_VA_%s%d' % (op, k), [d]):
                    X.isva(o, d, j, dv, 'access'); X.clean(o, 'access')
                    if o.kind == 'throw':
                        X.c.ensure(o.st, z3.BoolVal(X.c.is_error(o) and j != k and op[0] == 'g'), 'Get: raises Error only for another type')
                    elif op[0] == 't' and j != k:
                        X.c.ensure(o.st, z3.BoolVal(isinstance(o.val, Ptr) and (o.val.rid is None or z3.is_true(z3.simplify(o.val.null)))), 'TryGet: null for another type')
                    else:
                        X.c.ensure(o.st, z3.BoolVal(j == k and isinstance(o.val, Ptr) and o.val.rid == d.rid and o.val.off == d.off + X.ob), 'Get: the value held')
        case('Variant::Get<%s>, TryGet<%s> [holding %s]' % (NAMES[k], NAMES[k], NAMES[j]), f)
    for op in (('cassign', 'massign'), ('ac', 'sc')):
        def f(track, k=k, op=op):
            for x in op:
                X = VC(track); d, v = X.va('self', k)
                args = [d, d] if len(x) > 2 else [d, Ptr(d.rid, d.off + X.ob)]
                for o in X.ret('api_VA_' + (x if len(x) > 2 else x + str(k)), args, 'self assignment'):
                    X.isva(o, d, k, v, 'self assignment')
        case('Variant self assignment %s [holding %s]' % ('/'.join(op), NAMES[k]), f)
    def f(track, k=k):
        X = VC(track); d, v = X.va('self', k); cb = X.raw('VA')
        for o in X.ret('api_VA_Index', [d], 'Index'):
            X.c.ensure(o.st, o.val == k, 'Index'); X.isva(o, d, k, v, 'Index')
        for op in ('Apply', 'ApplyC', 'TryApply', 'TryApplyC'):
            for o in X.ret('api_VA_' + op, [d, cb], op):
                X.isva(o, d, k, v, op)
                calls = o.st.ghost.get('calls', ())
                want = 1 if k == 1 or op[0] == 'A' else 0
                ok = len(calls) == want and all(c_[0] == k and c_[1].rid == d.rid and c_[1].off == d.off + X.ob for c_ in calls)
                X.c.ensure(o.st, z3.BoolVal(ok), op + ': the callback is called exactly once with the value held')
                if op[0] == 'T':
                    X.c.ensure(o.st, B(o.val) == z3.BoolVal(k == 1), op + ': result')
    case('Variant::Index, Apply, TryApply [holding %s]' % NAMES[k], f)

# ------------------------------------------------------------------ Nullable
def nu(X, id, name, init, kind):
    p = X.raw(id); c = X.c
    X.oo, X.on = c.field(id, 'object', p), c.field(id, 'initialized', p)
    v = c.int(name + '.value')
    if init is None:
        return p, v
    c.st.mut(p.rid).fields[p.off + X.on] = (1, I(1 if init else 0))
    if init:
        X.put(p, X.oo, kind, v)
    return p, v
def isnu(X, o, p, init, kind, v, what, moved=False):
    x = o.st.regions[p.rid].fields.get(p.off + X.on)
    ok = FALSE if x is None else (B(x[1]) == z3.BoolVal(bool(init)))
    X.c.ensure(o.st, ok, what + ': null or not')
    if init:
        X.content(o, p, X.oo, kind, v, what, moved)
    elif kind != 2:
        X.content(o, p, X.oo, None, None, what)
for id, kind in (('NE', 0), ('NL', 2), ('NN', 3)):
    T = {'NE': 'E', 'NL': 'long', 'NN': 'N (not assignable)'}[id]
    def f(track, id=id, kind=kind):
        X = VC(track); p, _ = nu(X, id, 'self', None, kind)
        for o in X.ret('api_%s_ctor' % id, [p], 'Nullable()'):
            isnu(X, o, p, False, kind, None, 'Nullable()')
        for op in 'cm':
            X = VC(track); p, _ = nu(X, id, 'self', None, kind); a, v = X.cell('argument', kind)
            for o in X.ret('api_%s_%s' % (id, op), [p, a], 'Nullable(value)'):
                isnu(X, o, p, True, kind, v, 'Nullable(value)'); X.arg_kept(o, a, kind, v, 'Nullable(value)', op == 'm')
    case('Nullable<%s> construction from nothing and from a value' % T, f)
    for s in (False, True):
        def f(track, id=id, kind=kind, s=s):
            for op in ('cctor', 'mctor'):
                X = VC(track); p, _ = nu(X, id, 'self', None, kind); q, v = nu(X, id, 'source', s, kind)
                w = 'copy construction' if op[0] == 'c' else 'move construction'
                for o in X.ret('api_%s_%s' % (id, op), [p, q], w):
                    isnu(X, o, p, s, kind, v, w)
                    isnu(X, o, q, s if op[0] == 'c' else False, kind, v, w + ' (source)')
            for op in ('dtor', 'Reset'):
                X = VC(track); p, v = nu(X, id, 'self', s, kind)
                for o in X.ret('api_%s_%s' % (id, op), [p], op):
                    if op == 'Reset':
                        isnu(X, o, p, False, kind, None, op)
                    elif kind != 2:
                        X.content(o, p, X.oo, None, None, op)
            X = VC(track); p, v = nu(X, id, 'self', s, kind)
            for o in X.ret('api_%s_bool' % id, [p], 'operator bool'):
                X.c.ensure(o.st, B(o.val) == z3.BoolVal(s), 'operator bool'); isnu(X, o, p, s, kind, v, 'operator bool')
            for o in X.c.run('api_%s_Value' % id, [p]):
                isnu(X, o, p, s, kind, v, 'Value')
                if o.kind == 'throw':
                    X.c.ensure(o.st, z3.BoolVal(X.c.is_error(o) and not s), 'Value: raises Error only when null')
                else:
                    X.c.ensure(o.st, z3.BoolVal(s and isinstance(o.val, Ptr) and o.val.rid == p.rid and o.val.off == p.off + X.oo), 'Value: the value held')
            for op in ('ac', 'am'):
                X = VC(track); p, _ = nu(X, id, 'self', s, kind); a, v = X.cell('argument', kind)
                for o in X.ret('api_%s_%s' % (id, op), [p, a], 'assignment of a value'):
                    isnu(X, o, p, True, kind, v, 'assignment of a value'); X.arg_kept(o, a, kind, v, 'assignment of a value', op == 'am')
            for op in ('ac', 'cassign', 'massign'):
                if op == 'ac' and not s:
                    continue
                X = VC(track); p, v = nu(X, id, 'self', s, kind)
                for o in X.ret('api_%s_%s' % (id, op), [p, p if op != 'ac' else Ptr(p.rid, p.off + X.oo)], 'assignment of itself'):
                    isnu(X, o, p, s, kind, v, 'assignment of itself')
            for t in (False, True):
                for op in ('cassign', 'massign'):
                    X = VC(track); p, _ = nu(X, id, 'target', t, kind); q, v = nu(X, id, 'source', s, kind)
                    w = 'copy assignment' if op[0] == 'c' else 'move assignment'
                    for o in X.ret('api_%s_%s' % (id, op), [p, q], w):
                        isnu(X, o, p, s, kind, v, w); isnu(X, o, q, s if op[0] == 'c' else False, kind, v, w + ' (source)')
                        X.c.ensure(o.st, z3.BoolVal(isinstance(o.val, Ptr) and o.val.rid == p.rid and o.val.off == p.off), w + ': returns the target')
        case('Nullable<%s> operations [source %s]' % (T, 'holding a value' if s else 'null'), f)
        if id == 'NN':
            continue
        for t in (False, True):
            def f(track, id=id, kind=kind, s=s, t=t):
                for op in ('cmp', 'eq', 'lt'):
                    X = VC(track); p, v = nu(X, id, 'left', s, kind); q, w = nu(X, id, 'right', t, kind)
                    key = (lambda x: keyE(x)) if kind == 0 else (lambda x: x)
                    for o in X.ret('api_%s_%s' % (id, op), [p, q], 'comparison'):
                        isnu(X, o, p, s, kind, v, 'comparison'); isnu(X, o, q, t, kind, w, 'comparison')
                        r = z3.If(key(v) < key(w), I(-1), z3.If(key(v) > key(w), I(1), I(0))) if s and t else I(1 if s else -1 if t else 0)
                        if op == 'cmp':
                            X.c.ensure(o.st, o.val == r, '<=>: null is less than every value, otherwise the order of the values')
                        elif op == 'lt':
                            X.c.ensure(o.st, B(o.val) == (r < 0), '<: null is less than every value, otherwise the order of the values')
                        else:
                            e = (eqE(v, w) if kind == 0 else v == w) if s and t else z3.BoolVal(s == t)
                            X.c.ensure(o.st, B(o.val) == e, '==: both null or equal values')
            case('Nullable<%s> comparison [%s, %s]' % (T, 'value' if s else 'null', 'value' if t else 'null'), f)
