"""C11 ownership of objects by Ptr and ComPtr."""
import z3
from vir.spec import *
from vir.runner import Property

C11 = Property('C11')
PROPERTIES = [C11]
C11.driver = 'pointers'
C11.assumptions = ['operator new succeeds; a raw object is given to exactly one owning pointer (documented precondition)',
                   'other threads change a shared reference count only by taking a reference while holding one, or giving up their own; one Ptr object is not used by two threads at once',
                   'the object types of the translation unit (virtual destructor, base class at offset 0 and at a positive offset, an opaque member and a pointer member) stand for all object types; DescriptableObject-style counters (specialised ReferenceCounterOperator) are not in this repository',
                   '__dynamic_cast follows the Itanium ABI']
# typeinfo -> offset of that subobject per dynamic type
DYN = {'Derived': ('_ZTI7Derived', '_ZTI4Base', 'up'), 'Derived2': ('_ZTI8Derived2', '_ZTI5Base2', 'up2')}

def dyncast(eng, st, a):
    p, src, dst = a[0], a[1], a[2]
    if not isinstance(p, Ptr) or p.rid is None:
        raise Unsupported('dynamic_cast of unknown pointer')
    r = st.regions[p.rid]
    eng.require(st, z3.BoolVal(r.alive), 'dynamic_cast of a live object')
    if 'lost' in r.meta:
        eng.require(st, z3.Not(r.meta['lost']), 'dynamic_cast of a live object')
    to = st.regions[dst.rid].name if isinstance(dst, Ptr) else None
    offs = r.meta.get('dyn', {})
    for k, o in offs.items():
        if to and k in to:
            return R(st, Ptr(p.rid, o))
    return R(st, Ptr(None, 0))

def com_release(eng, st, a):
    p = a[0]
    if not isinstance(p, Ptr) or p.rid is None:
        raise Unsupported('Release on unknown pointer')
    r = st.regions[p.rid]
    ok = r.alive and not r.meta.get('released')
    eng.require(st, z3.BoolVal(bool(ok)), 'Release called on an object that is not released yet')
    if not ok:
        return []
    if 'rc' in r.meta or 'shared' in r.meta:
        eng.require(st, z3.Not(r.meta['lost']) if 'lost' in r.meta else FALSE, 'Release called only by the last owner')
    st.mut(p.rid).meta['released'] = True
    # the object goes away: its own members are destroyed
    return eng.call_function(st, 'com_delete', [p])

class PC:
    def __init__(self, track):
        self.c = track(Ctx('ptr', externs={'__dynamic_cast': dyncast, '_ZN3Com7ReleaseEv': com_release}))
        self.rcs = []      # (counter rid, object rid)
        self.objs = []     # objects of the pre-state
        self.raws = []     # raw objects given to a pointer by the call
        self.off = None
    def new(self, T):
        c = self.c
        p = c.helper('new_' + T)
        st = c.st
        st.ghost['heap'] = tuple(x for x in st.ghost.get('heap', ()) if x != p.rid)
        r = st.mut(p.rid)
        if T in DYN:
            d, b, up = DYN[T]
            self.off = c.helper(up, p).off
            c.st.mut(p.rid).meta['dyn'] = {d: 0, b: self.off}
        self.objs.append(p.rid)
        return p
    def raw(self, id):
        sz = const_of(self.c.helper('sz_' + id))
        r = self.c.eng.new_struct(self.c.st, 'result', sz, heap='param')
        return Ptr(r.rid, 0)
    def cell(self, id):
        return self.raw(id)
    def own(self, id, obj, at=None):
        """pointer object owning obj together with an unknown number of other owners"""
        c = self.c
        p = at or self.raw(id)
        before = set(c.st.ghost.get('heap', ()))
        c.helper('api_%s_pctor' % id, p, obj)
        st = c.st
        new = [x for x in st.ghost.get('heap', ()) if x not in before]
        if len(new) != 1:
            raise Unsupported('counter allocation shape')
        k = new[0]
        st.ghost['heap'] = tuple(x for x in st.ghost['heap'] if x != k)
        r = st.mut(k); r.meta['rc'] = (0, (obj.rid,)); st.mut(obj.rid).meta['shared'] = True
        st.ghost[('units', k)] = 1
        self.rcs.append((k, obj.rid))
        return p
    def null(self, id, at=None):
        p = at or self.raw(id)
        self.c.helper('api_%s_ctor' % id, p)
        return p
    def dup(self, id, q, op='cctor'):
        p = self.raw(id)
        self.c.helper('api_%s_%s' % (id, op), p, q)
        return p
    def end(self, o, ptrs, what, owned=(), counter_may_stay=False):
        """ptrs: [(class id, pointer object, expected object pointer or None)] all alive pointers.
        Each one points to the expected object; destroying them all gives up every reference, destroys each object exactly once by its last owner"""
        c = self.c; eng = c.eng
        st = o.st
        def ens(s, g, n):
            c.ensure(s, g, what + ': ' + n)
        for id, p, e in ptrs:
            outs = eng.call_function(st, 'api_%s_Obj' % id, [p])
            if len(outs) != 1 or outs[0].kind != 'ret':
                ens(st, FALSE, 'Obj returns'); return
            st = outs[0].st; v = outs[0].val
            if not isinstance(v, Ptr):
                raise Unsupported('Obj result')
            if e is None:
                ens(st, z3.BoolVal(v.rid is None) if v.rid is None else v.null, 'pointer is empty')
            else:
                ens(st, z3.And(z3.BoolVal(v.rid == e.rid), zi(v.off) == zi(e.off)) if v.rid is not None else FALSE, 'pointer refers to the expected object')
                ens(st, z3.BoolVal(st.regions[e.rid].alive and not st.regions[e.rid].meta.get('released')), 'referenced object is alive')
                if 'lost' in st.regions[e.rid].meta:
                    ens(st, FALSE, 'referenced object is held by a reference')
        states = [st]
        for id, p, e in ptrs:
            nxt = []
            for s in states:
                for q in eng.call_function(s, 'api_%s_dtor' % id, [p]):
                    if not eng.feasible(q.st):
                        continue
                    if q.kind != 'ret':
                        ens(q.st, FALSE, 'destructor returns'); continue
                    nxt.append(q.st)
            states = nxt
        for s in states:
            for k, ob in self.rcs:
                u = s.ghost[('units', k)]
                ens(s, z3.BoolVal(u == 0), 'every reference is given up exactly once')
                r = s.regions[k]; b = s.regions[ob]
                lost = r.meta.get('lost', FALSE)
                if ob in owned:
                    ens(s, z3.BoolVal(b.alive and not b.meta.get('released')), 'detached object is not destroyed')
                    continue
                if b.alive:
                    ens(s, lost, 'last owner destroys the object')
                if r.alive:
                    ens(s, lost, 'last owner releases the counter')
                ens(s, z3.BoolVal(r.alive == b.alive), 'object and counter released together')
            for ob in self.raws:
                ens(s, z3.BoolVal((not s.regions[ob].alive) != (ob in owned)), 'object taken over is destroyed by its last owner')
            for rid in s.ghost.get('heap', ()):
                if s.regions[rid].alive:
                    ens(s, FALSE, 'nothing leaked')

def case(name, f):
    @C11.case(name, 'ptr')
    def g(track):
        f(PC(track))

NAMES = {'B': ('Ptr<Base>', 'Base'), 'D': ('Ptr<Derived>', 'Derived'), 'G': ('Ptr<Base2>', 'Base2'), 'K': ('Ptr<Derived2>', 'Derived2'), 'C': ('ComPtr<Com>', 'Com')}
def val_is(X, o, e, what):
    v = o.val
    if isinstance(v, Ptr):
        if e is None:
            X.c.ensure(o.st, TRUE if v.rid is None else v.null, what)
        else:
            X.c.ensure(o.st, FALSE if v.rid is None else z3.And(z3.BoolVal(v.rid == e.rid), zi(v.off) == zi(e.off)), what)
    else:
        raise Unsupported('pointer result')
def all_ret(X, outs, what):
    r = []
    for o in outs:
        if o.kind == 'ret':
            r.append(o)
        else:
            X.c.ensure(o.st, FALSE, what + ': does not raise')
    return r

for id in 'BDGKC':
    N, T = NAMES[id]
    for null in (False, True):
        tag = ' [empty]' if null else ' [shared object]'
        def start(X, id=id, T=T, null=null):
            if null:
                return X.null(id), None
            ob = X.new(T)
            return X.own(id, ob), ob
        def f(X, id=id, start=start):
            p, e = start(X); o = X.raw(id)
            for r in all_ret(X, X.c.run('api_%s_cctor' % id, [o, p]), 'copy'):
                X.end(r, [(id, o, e), (id, p, e)], 'copy construction')
        case(N + '::copy constructor' + tag, f)
        def f(X, id=id, start=start):
            p, e = start(X); o = X.raw(id)
            for r in all_ret(X, X.c.run('api_%s_mctor' % id, [o, p]), 'move'):
                X.end(r, [(id, p, None), (id, o, e)], 'move construction')
        case(N + '::move constructor' + tag, f)
        def f(X, id=id, start=start):
            p, e = start(X)
            for r in all_ret(X, X.c.run('api_%s_dtor' % id, [p]), 'destructor'):
                X.c.ensure(r.st, TRUE, 'destruction: returns')
                X.end(r, [], 'destruction')
        case(N + '::destructor' + tag, f)
        def f(X, id=id, start=start):
            p, e = start(X)
            for r in all_ret(X, X.c.run('api_%s_nassign' % id, [p]), 'nullptr'):
                X.end(r, [(id, p, None)], 'assignment of nullptr')
        case(N + '::operator=(nullptr)' + tag, f)
        def f(X, id=id, start=start):
            p, e = start(X)
            for op in ('Obj', 'arrow', 'key'):
                for r in all_ret(X, X.c.run('api_%s_%s' % (id, op), [p]), op):
                    val_is(X, r, e, op + ': the object')
            for r in all_ret(X, X.c.run('api_%s_bool' % id, [p]), 'bool'):
                X.c.ensure(r.st, B(r.val) == z3.BoolVal(e is not None), 'bool: true exactly for a non-empty pointer')
                X.end(r, [(id, p, e)], 'observation')
        case(N + '::Obj, operator->, bool, GetKeyValue' + tag, f)
        if id != 'C':
            def f(X, id=id, start=start):
                p, e = start(X)
                for r in all_ret(X, X.c.run('api_%s_Detach' % id, [p]), 'Detach'):
                    val_is(X, r, e, 'Detach: the object')
                    X.end(r, [(id, p, None)], 'Detach', owned=(e.rid,) if e else ())
            case(N + '::Detach' + tag, f)
            def f(X, id=id, start=start):
                # another pointer shares the object
                p, e = start(X); q = X.dup(id, p)
                for r in all_ret(X, X.c.run('api_%s_Detach' % id, [p]), 'Detach'):
                    val_is(X, r, e, 'Detach: the object')
                    X.end(r, [(id, p, None), (id, q, e)], 'Detach with another owner')
            case(N + '::Detach with another owner' + tag, f)
        def f(X, id=id, start=start):
            p, e = start(X)
            for r in all_ret(X, X.c.run('api_%s_cassign' % id, [p, p]), 'self assignment'):
                X.end(r, [(id, p, e)], 'self assignment')
            for r in all_ret(X, X.c.run('api_%s_massign' % id, [p, p]), 'self assignment'):
                X.end(r, [(id, p, e)], 'self move assignment')
        case(N + '::operator= of itself' + tag, f)
        for null2 in (False, True, 'share'):
            if null2 == 'share' and null:
                continue
            tag2 = tag + {False: ' <- shared object', True: ' <- empty', 'share': ' <- same object'}[null2]
            def two(X, id=id, T=T, start=start, null2=null2):
                p, e = start(X)
                if null2 == 'share':
                    return p, e, X.dup(id, p), e
                if null2:
                    return p, e, X.null(id), None
                ob = X.new(T)
                return p, e, X.own(id, ob), ob
            def f(X, id=id, two=two):
                p, e, q, d = two(X)
                for r in all_ret(X, X.c.run('api_%s_cassign' % id, [p, q]), 'assignment'):
                    X.end(r, [(id, p, d), (id, q, d)], 'copy assignment')
            case(N + '::operator=(const&)' + tag2, f)
            def f(X, id=id, two=two):
                p, e, q, d = two(X)
                for r in all_ret(X, X.c.run('api_%s_massign' % id, [p, q]), 'assignment'):
                    X.end(r, [(id, q, None), (id, p, d)], 'move assignment')
            case(N + '::operator=(&&)' + tag2, f)
            def f(X, id=id, two=two):
                p, e, q, d = two(X); c = X.c
                for op, y in (('', q), ('p', d if d else Ptr(None, 0))):
                    a = I(0) if e is None else c.eng.addr(c.st, e); b = I(0) if d is None else c.eng.addr(c.st, d)
                    for r in all_ret(X, c.run('api_%s_eq%s' % (id, op), [p, y]), 'comparison'):
                        c.ensure(r.st, B(r.val) == (z3.BoolVal(e is d) if e is None or d is None or e is d else FALSE), 'equal exactly for the same object')
                    for r in all_ret(X, c.run('api_%s_cmp%s' % (id, op), [p, y]), 'comparison'):
                        if e is d:
                            c.ensure(r.st, r.val == 0, 'order: equal pointers')
                        else:
                            c.ensure(r.st, r.val != 0, 'order: different pointers')
                            c.ensure(r.st, (r.val < 0) == (a < b), 'order by address')
                        X.end(r, [(id, p, e), (id, q, d)], 'comparison')
            case(N + '::operator<=>, ==' + tag2, f)
    def f(X, id=id, T=T):
        o = X.raw(id)
        for op in ('ctor', 'nctor'):
            for r in all_ret(X, X.c.run('api_%s_%s' % (id, op), [o]), 'construction'):
                X.end(r, [(id, o, None)], 'empty construction')
        for r in all_ret(X, X.c.run('api_%s_pctor' % id, [o, Ptr(None, 0)]), 'construction'):
            X.end(r, [(id, o, None)], 'construction from null')
    case(N + '::empty constructors', f)
    def f(X, id=id, T=T):
        ob = X.new(T); o = X.raw(id); X.raws.append(ob.rid)
        for r in all_ret(X, X.c.run('api_%s_pctor' % id, [o, ob]), 'construction'):
            X.end(r, [(id, o, ob)], 'construction from an object')
    case(N + '::constructor from an object', f)
    # assignment from a pointer stored in the released object
    if id in 'BC':
        for op in ('cassign', 'massign'):
            for nn in (False, True):
                def f(X, id=id, T=T, op=op, nn=nn):
                    ob = X.new(T); q = X.c.helper('next_' + T, ob)
                    d = None
                    if not nn:
                        d = X.new(T); X.own(id, d, at=q)
                    p = X.own(id, ob)
                    for r in all_ret(X, X.c.run('api_%s_%s' % (id, op), [p, q]), 'assignment'):
                        if r.st.regions[ob.rid].alive:
                            # another owner keeps the first object: it, not this scope, owns q
                            s = r.st
                            if op == 'massign' or nn:
                                X.end(r, [(id, p, d)], 'assignment from a member of the released object')
                            else:
                                X.c.ensure(s, s.regions[s.ghost and ob.rid].meta.get('lost', FALSE), 'first object kept only by another owner')
                                s2 = r.st.copy(); k = X.rcs[0][0]
                                # the other owner's object keeps one reference of its member
                                s2.ghost[('units', k)] = s2.ghost[('units', k)]
                                X.end2(r, id, p, d, k)
                        else:
                            X.end(r, [(id, p, d)], 'assignment from a member of the released object')
                case(N + '::operator=%s from a member of the object it releases%s' % ('(&&)' if op == 'massign' else '(const&)', ' [empty]' if nn else ''), f)
def end2(self, r, id, p, d, k):
    """the object kept alive by another owner holds one more reference (its member)"""
    s = r.st
    self.c.ensure(s, z3.BoolVal(s.ghost[('units', k)] == 2), 'assignment from a member: the member and the target hold one reference each')
    s.ghost[('units', k)] = 1      # the member's reference belongs to the other owner from here on
    self.end(r, [(id, p, d)], 'assignment from a member of a shared object')
PC.end2 = end2

# conversions
def conversions(b_, d_, BT, DT):
    N = 'Ptr<%s>' % BT
    for null in (False, True):
        tag = ' [empty]' if null else ' [shared object]'
        def start(X, null=null):
            if null:
                return X.null(d_), None, None
            ob = X.new(DT)
            return X.own(d_, ob), ob, Ptr(ob.rid, X.off)
        def f(X, start=start):
            p, e, u = start(X); o = X.raw(b_)
            for r in all_ret(X, X.c.run('api_%s_from%sc' % (b_, d_), [o, p]), 'conversion'):
                X.end(r, [(b_, o, u), (d_, p, e)], 'conversion to the base class')
        case(N + '(const Ptr<derived>&)' + tag, f)
        def f(X, start=start):
            p, e, u = start(X); o = X.raw(b_)
            for r in all_ret(X, X.c.run('api_%s_from%sm' % (b_, d_), [o, p]), 'conversion'):
                X.end(r, [(d_, p, None), (b_, o, u)], 'moving conversion to the base class')
        case(N + '(Ptr<derived>&&)' + tag, f)
        def f(X, start=start):
            p, e, u = start(X); o = X.raw(b_)
            for r in all_ret(X, X.c.run('api_%s_castup' % b_, [o, p]), 'Cast'):
                X.end(r, [(d_, p, e), (b_, o, u)], 'Cast to the base class')
        case(N.replace('Base', 'Derived') + '::Cast<base>' + tag, f)
        def f(X, start=start):
            p, e, u = start(X); b = X.dup(b_, p, 'from%sc' % d_); o = X.raw(d_)
            for r in all_ret(X, X.c.run('api_%s_cast' % d_, [o, b]), 'Cast'):
                X.end(r, [(b_, b, u), (d_, p, e), (d_, o, e)], 'Cast to the derived class')
        case(N + '::Cast<derived>' + tag, f)
        def f(X, start=start):
            p, e, u = start(X); b = X.dup(b_, p, 'from%sc' % d_)
            for r in all_ret(X, X.c.run('api_%s_Detach' % b_, [b]), 'Detach'):
                val_is(X, r, u, 'Detach: the object')
                X.end(r, [(b_, b, None), (d_, p, e)], 'Detach of a converted pointer')
        case(N + '::Detach of a converted pointer' + tag, f)
    def f(X):
        ob = X.new(BT); X.c.st.mut(ob.rid).meta['dyn'] = {DYN[DT][1]: 0}
        b = X.own(b_, ob); o = X.raw(d_)
        for r in all_ret(X, X.c.run('api_%s_cast' % d_, [o, b]), 'Cast'):
            X.end(r, [(b_, b, ob), (d_, o, None)], 'failed Cast')
            # the result of a failed cast is an ordinary empty pointer
        q = X.raw(d_); X.c.helper('api_%s_cast' % d_, q, b); d = X.new(DT); w = X.own(d_, d)
        for op in ('cassign', 'massign'):
            for r in all_ret(X, X.c.run('api_%s_%s' % (d_, op), [q, w]), 'assignment'):
                X.end(r, [(d_, w, None if op == 'massign' else d), (d_, q, d), (b_, b, ob)], 'assignment to the result of a failed Cast')
            for r in all_ret(X, X.c.run('api_%s_%s' % (d_, op), [w, q]), 'assignment'):
                X.end(r, [(d_, q, None), (d_, w, None), (b_, b, ob)], 'assignment of the result of a failed Cast')
        for r in all_ret(X, X.c.run('api_%s_cctor' % d_, [o, q]), 'copy'):
            X.end(r, [(d_, q, None), (d_, w, d), (d_, o, None), (b_, b, ob)], 'copy of the result of a failed Cast')
    case(N + '::Cast<derived> of another class', f)
conversions('B', 'D', 'Base', 'Derived')
conversions('G', 'K', 'Base2', 'Derived2')
# ComPtr from a raw object
for null in (False, True):
    for nn in (False, True):
        def f(X, null=null, nn=nn):
            if null:
                p = X.null('C')
            else:
                p = X.own('C', X.new('Com'))
            d = None
            if not nn:
                d = X.new('Com'); X.raws.append(d.rid)
            for r in all_ret(X, X.c.run('api_C_passign', [p, d or Ptr(None, 0)]), 'assignment'):
                X.end(r, [('C', p, d)], 'assignment of an object')
        case('ComPtr<Com>::operator=(T*)%s%s' % (' [empty]' if null else ' [shared object]', ' <- null' if nn else ''), f)
