"""C14 Func and Event: a call reaches exactly the callables it was given."""
import z3
from vir.spec import *
from vir.runner import Property
from specs.pointers import dyncast

C14 = Property('C14')
PROPERTIES = [C14]
C14.driver = 'funcs'
C14.assumptions = ['signatures: value and reference parameters of an opaque class and of a plain type, void and plain results (the code is generic in the signature)',
                   'callables are opaque: a call records its arguments and returns an arbitrary value; they do not change the Func or Event they are called through',
                   'SortedList of handlers is used by contract (proved in C03); ownership steps of Ptr are the real code', '__dynamic_cast follows the Itanium ABI']

SIG = {'_Z2sf1El': ('sf', 0, 'v', 'l'), '_Z2svRK1ERl': ('sv', 0, 'r', 'p'), '_ZN1C2mfE1El': ('C::mf', 1, 'v', 'l'), '_ZN1C2mvERK1ERl': ('C::mv', 1, 'r', 'p'),
       '_Z2se1ERl': ('se', 0, 'v', 'p'), '_ZN2CE2meE1ERl': ('CE::me', 1, 'v', 'p'), '_ZNK2FOclE1El': ('FO', 2, 'v', 'l'), '_ZNK2FVclERK1ERl': ('FV', 2, 'r', 'p'),
       '_ZNK2GOclERK1El': ('GO', 2, 'g', 'l'), '_ZNK2FQclE1ERl': ('FQ', 2, 'v', 'p')}
res = z3.Function('result_of_call', INT, INT)
def recorder(sig):
    name, this, e, l = sig
    def f(eng, st, a):
        a = list(a); th = None; state = None
        if this:
            th = a.pop(0)
            r = st.regions[th.rid]
            eng.require(st, z3.BoolVal(r.alive), 'callable is alive when called')
            if this == 2:
                r, loc = eng.elem(st, th, 'callable')
                eng.require(st, eng.elem_get(st, r, loc, 'live'), 'callable is alive when called')
                state = eng.elem_get(st, r, loc, 'v')
        r, loc = eng.elem(st, a[0], 'argument')
        eng.require(st, eng.elem_get(st, r, loc, 'live'), 'argument is alive')
        v = eng.elem_get(st, r, loc, 'v')
        n = len(st.ghost.get('calls', ()))
        st.ghost['calls'] = st.ghost.get('calls', ()) + (dict(fn=name, this=th, state=state, v=v, ref=a[0] if e == 'r' else None, arg=a[1]),)
        x = res(I(n))
        if name == 'GO':
            st.add(z3.And(x >= -(1 << 31), x < (1 << 31)))
        return R(st, x)
    return f

class FC:
    def __init__(self, track, **kw):
        ex = {k: recorder(s) for k, s in SIG.items()}; ex['__dynamic_cast'] = dyncast
        self.c = track(Ctx('func', externs=ex))
    def raw(self, id):
        c = self.c
        r = c.eng.new_struct(c.st, id, const_of(c.helper('sz_' + id)), heap='param')
        return Ptr(r.rid, 0)
    def fobj(self, id, name='functor'):
        """a function object with an opaque state"""
        p = self.raw(id); v = self.c.int(name + '.state'); r = self.c.st.mut(p.rid)
        r.fields[(0, 'live')] = (1, TRUE); r.fields[(0, 'v')] = (1, v)
        return p, v
    def func(self, id, how):
        """a Func built by the real constructor; -> (pointer, expected callable or None when empty)"""
        c = self.c; p = self.raw(id)
        if how == 'empty':
            c.helper('api_%s_ctor' % id, p); return p, None
        if how == 'static':
            c.helper('api_%s_static' % id, p); return p, dict(fn={'FN': 'sf', 'FR': 'sv'}[id])
        if how == 'member':
            o = self.raw('C'); c.helper('api_%s_member' % id, p, o); return p, dict(fn={'FN': 'C::mf', 'FR': 'C::mv'}[id], this=o)
        f, v = self.fobj({'FN': 'FO', 'FR': 'FV', 'FG': 'GO', 'FE': 'FQ'}[id], id + str(p.rid))
        self.fs = getattr(self, 'fs', []) + [(f, v)]
        c.helper('api_%s_objc' % id, p, f)
        return p, dict(fn={'FN': 'FO', 'FR': 'FV', 'FG': 'GO', 'FE': 'FQ'}[id], state=v)
    def ret(self, outs, what):
        r = []
        for o in outs:
            if o.kind == 'ret':
                r.append(o)
            else:
                self.c.ensure(o.st, FALSE, what + ': does not raise')
        return r
    def follow(self, st, name, args, what):
        r = []
        for o in self.c.eng.call_function(st, name, args):
            if self.c.eng.feasible(o.st):
                r.append(o)
        return self.ret(r, what)
    def isempty(self, o, id, p, empty, what):
        for q in self.follow(o.st, 'api_%s_bool' % id, [p], what):
            self.c.ensure(q.st, B(q.val) == z3.BoolVal(not empty), what + ': empty or not')
    def calls(self, st, id, p, exp, what):
        """calling p reaches exactly the expected callable with exactly the given arguments; -> states"""
        c = self.c; eng = c.eng
        s = st.copy()
        a = eng.new_struct(s, 'argument', 8, heap='param'); v = z3.FreshConst(INT, 'arg')
        a.fields[(0, 'live')] = (1, TRUE); a.fields[(0, 'v')] = (1, v); a = Ptr(a.rid, 0)
        if id in ('FN', 'FG'):
            b = z3.FreshConst(INT, 'long'); s.add(z3.And(b >= -(1 << 63), b < (1 << 63)))
        else:
            b = eng.new_struct(s, 'reference', 8, heap='param'); b.fields[0] = (8, z3.FreshConst(INT, 'old')); b = Ptr(b.rid, 0)
        s.ghost['calls'] = ()
        outs = []
        for op in ('call', 'callm') if id == 'FN' else ('call',):
            for q in self.follow(s.copy(), 'api_%s_%s' % (id, op), [p, a, b], what):
                cs = q.st.ghost['calls']
                c.ensure(q.st, z3.BoolVal(len(cs) == 1 and cs[0]['fn'] == exp['fn']), what + ': the callable is called exactly once')
                if len(cs) != 1:
                    continue
                k = cs[0]
                if exp.get('this') is not None:
                    c.ensure(q.st, z3.BoolVal(k['this'] is not None and k['this'].rid == exp['this'].rid and k['this'].off == exp['this'].off), what + ': on the given object')
                if 'state' in exp and k['state'] is not None:
                    c.ensure(q.st, k['state'] == exp['state'], what + ': on the function object given')
                c.ensure(q.st, k['v'] == v, what + ': class argument arrives unchanged')
                if k['ref'] is not None:
                    c.ensure(q.st, z3.BoolVal(k['ref'].rid == a.rid and k['ref'].off == 0), what + ': reference argument refers to the same object')
                c.ensure(q.st, k['arg'] == b if not isinstance(b, Ptr) else z3.BoolVal(isinstance(k['arg'], Ptr) and k['arg'].rid == b.rid and k['arg'].off == b.off), what + ': second argument arrives unchanged')
                if id in ('FN', 'FG'):
                    c.ensure(q.st, q.val == res(I(0)), what + ': the result is returned')
                if op == 'call':
                    c.ensure(q.st, q.st.regions[a.rid].fields[(0, 'v')][1] == v, what + ': argument of the caller unchanged')
                c.ensure(q.st, q.st.regions[a.rid].fields[(0, 'live')][1], what + ': argument of the caller alive')
                outs.append(q.st)
        return outs
    def finish(self, st, funcs, what):
        """destroy every Func: nothing leaked, every function object destroyed exactly once"""
        c = self.c; sts = [st]
        for id, p in funcs:
            sts = [q.st for s in sts for q in self.follow(s, 'api_%s_dtor' % id, [p], what)]
        for s in sts:
            for rid in s.ghost.get('heap', ()):
                c.ensure(s, z3.BoolVal(not s.regions[rid].alive), what + ': callable and counter are released with the last copy')
            for rid, r in s.regions.items():
                if r.heap == 'stack' and r.kind == 'struct':
                    for k, v in r.fields.items():
                        if isinstance(k, tuple) and k[1] == 'live' and r.alive:
                            c.ensure(s, z3.Not(v[1]), what + ': temporaries destroyed')

def case(name, f):
    C14.case(name, 'func')(f)
SIGN = {'FN': 'Func<long(E, long)>', 'FR': 'Func<void(const E&, long&)>', 'FG': 'Func<int(const E&, long)>', 'FE': 'Func<void(E, long&)>'}
WAYS = {'FN': ('static', 'member', 'obj'), 'FR': ('static', 'member', 'obj'), 'FG': ('obj',)}
# construction of every kind, then call and destruction
for id in ('FN', 'FR', 'FG'):
    for how in WAYS[id] + (('objm', 'objg') if id == 'FN' else ('objm',)):
        def f(track, id=id, how=how):
            X = FC(track); c = X.c; p = X.raw(id); args = [p]
            if how == 'static':
                exp = dict(fn={'FN': 'sf', 'FR': 'sv'}[id])
            elif how == 'member':
                o_ = X.raw('C'); args.append(o_); exp = dict(fn={'FN': 'C::mf', 'FR': 'C::mv'}[id], this=o_)
            else:
                fo = 'GO' if how == 'objg' or id == 'FG' else {'FN': 'FO', 'FR': 'FV'}[id]
                q, v = X.fobj(fo); args.append(q); exp = dict(fn=fo, state=v)
            api = {'obj': 'objc'}.get(how, how)
            for o in X.ret(c.run('api_%s_%s' % (id, api), args), 'construction'):
                if how[:3] == 'obj':
                    c.ensure(o.st, o.st.regions[q.rid].fields[(0, 'live')][1], 'construction: argument stays alive')
                    if how != 'objm':
                        c.ensure(o.st, o.st.regions[q.rid].fields[(0, 'v')][1] == v, 'construction: argument unchanged')
                X.isempty(o, id, p, False, 'construction')
                for s in X.calls(o.st, id, p, exp, 'call'):
                    X.finish(s, [(id, p)], 'destruction')
        case('%s from %s: construction, call, destruction' % (SIGN[id], {'static': 'a function', 'member': 'a member function', 'obj': 'a function object', 'objm': 'a moved function object', 'objg': 'a function object with convertible signature'}[how]), f)
# copy, move, assignment, comparison
for id in ('FN', 'FR', 'FG', 'FE'):
    W = WAYS.get(id, ('obj',))
    for how in W + ('empty',):
        def f(track, id=id, how=how):
            for op in ('cctor', 'mctor'):
                X = FC(track); c = X.c; s, exp = X.func(id, how); p = X.raw(id)
                for o in X.ret(c.run('api_%s_%s' % (id, op), [p, s]), 'copy'):
                    X.isempty(o, id, p, exp is None, op)
                    if op == 'cctor':
                        X.isempty(o, id, s, exp is None, 'copied from')
                    if exp is not None:
                        for t in X.calls(o.st, id, p, exp, 'call of the copy'):
                            X.finish(t, [(id, p), (id, s)], 'destruction'); X.finish(t, [(id, s), (id, p)], 'destruction')
                    else:
                        X.finish(o.st, [(id, p), (id, s)], 'destruction')
                    if op == 'cctor':
                        if exp is not None:
                            X.calls(o.st, id, s, exp, 'call of the original')
                        for eq in ('eq', 'ne'):
                            for q in X.follow(o.st.copy(), 'api_%s_%s' % (id, eq), [p, s], 'comparison'):
                                c.ensure(q.st, B(q.val) == z3.BoolVal(eq == 'eq'), 'comparison: a copy equals its original')
        case('%s copy and move [%s]' % (SIGN[id], how), f)
        for tgt in (('empty', 'obj') if how != 'empty' else ('obj',)):
            def f(track, id=id, how=how, tgt=tgt):
                for op in ('cassign', 'massign'):
                    X = FC(track); c = X.c; d, dexp = X.func(id, tgt); s, exp = X.func(id, how)
                    for eq in ('eq', 'ne'):
                        for q in X.follow(c.st.copy(), 'api_%s_%s' % (id, eq), [d, s], 'comparison'):
                            c.ensure(q.st, B(q.val) == z3.BoolVal(eq == 'ne'), 'comparison: independently built functions differ')
                    for o in X.ret(c.run('api_%s_%s' % (id, op), [d, s]), 'assignment'):
                        X.isempty(o, id, d, exp is None, 'assignment')
                        if op == 'cassign':
                            X.isempty(o, id, s, exp is None, 'assigned from')
                        c.ensure(o.st, z3.BoolVal(isinstance(o.val, Ptr) and o.val.rid == d.rid), 'assignment: returns the target')
                        if exp is not None:
                            for t in X.calls(o.st, id, d, exp, 'call after assignment'):
                                X.finish(t, [(id, d), (id, s)], 'destruction')
                        else:
                            X.finish(o.st, [(id, d), (id, s)], 'destruction')
                X = FC(track); c = X.c; d, exp = X.func(id, how)
                for o in X.ret(c.run('api_%s_cassign' % id, [d, d]), 'self assignment'):
                    X.isempty(o, id, d, exp is None, 'self assignment')
                    X.finish(o.st, [(id, d)], 'destruction')
            case('%s assignment [%s := %s]' % (SIGN[id], tgt, how), f)
# a Func of another signature as callable
for how in ('obj', 'empty'):
    def f(track, how=how):
        for op in ('conv', 'convl', 'convm'):
            X = FC(track); c = X.c; s, exp = X.func('FG', how); p = X.raw('FN')
            for o in X.ret(c.run('api_FN_' + op, [p, s]), 'conversion'):
                X.isempty(o, 'FN', p, exp is None, 'conversion')
                if op != 'convm':
                    X.isempty(o, 'FG', s, exp is None, 'conversion (source)')
                if exp is not None:
                    for t in X.calls(o.st, 'FN', p, exp, 'call of the converted function'):
                        X.finish(t, [('FN', p), ('FG', s)], 'destruction')
                else:
                    X.finish(o.st, [('FN', p), ('FG', s)], 'destruction')
    case('Func from a Func of another signature [%s]' % how, f)

# ------------------------------------------------------------------ Event
HLN = 'vl::collections::SortedList<vl::Ptr<vl::Event<void (E, long&)>::EventHandlerImpl>>'
FEN = 'vl::Func<void (E, long&)>'
class EC(FC):
    """an Event whose handler list holds an unknown number n of handlers"""
    def event(self):
        c = self.c; eng = c.eng
        e = self.raw('EV'); c.helper('mk_EV', e)
        oh = c.field('EV', 'handlers', e)
        hl = self.raw('HL'); c.helper('mk_HL', hl)
        ob, oc, ocap = (oh + c.field('HL', f, hl) for f in ('buffer', 'count', 'capacity'))
        self.szp = const_of(c.helper('sz_PI')); self.sze = const_of(c.helper('sz_EI'))
        x = self.raw('PI'); self.oref = c.field('PI', 'reference', x)
        y = self.raw('EI'); self.ofun = c.field('EI', 'function', y)
        st = c.st
        n = self.n = z3.Int('handlers.count'); cap = z3.Int('handlers.capacity')
        st.add(z3.And(n >= 0, n <= cap, cap <= BIG))
        inn = lambda k: z3.And(zi(k) >= 0, zi(k) < n)
        fam = eng.new_array(st, 'handler objects', self.sze, n, heap='family'); self.fam = fam.rid
        fam.lanes[(self.ofun, 'cnt')] = base_lane(lambda k: I(0)); fam.lanes[(self.ofun, 'arg')] = base_lane(lambda k: I(0))
        sl = eng.new_array(st, 'handler list', self.szp, cap, heap='malloc'); self.slots = sl.rid
        sl.lanes[(self.oref, 'raw')] = base_lane(lambda k: zi(k), 8); sl.lanes[(self.oref, 'init')] = base_lane(inn)
        fr, sz = self.fam, self.sze
        sl.meta[('dec', self.oref)] = lambda eng, st, v: Ptr(fr, norm(sz * v))
        st.add(z3.Int('base!%d' % sl.rid) > 0)
        r = st.mut(e.rid)
        r.fields[ob] = (8, Ptr(sl.rid, 0, cap == 0)); r.fields[oc] = (8, n); r.fields[ocap] = (8, cap)
        self.list = Ptr(e.rid, oh)
        self.lf = (ob, oc, ocap)
        eng.contracts[FEN + '::operator()(E, long&) const'] = self.fcall
        eng.contracts[HLN + '::Add(vl::Ptr<vl::Event<void (E, long&)>::EventHandlerImpl> const&)'] = self.ladd
        eng.contracts[HLN + '::IndexOf(vl::Event<void (E, long&)>::EventHandlerImpl* const&) const'] = self.lindex
        eng.contracts['vl::collections::ListBase<vl::Ptr<vl::Event<void (E, long&)>::EventHandlerImpl>>::RemoveAt(long)'] = self.lremove
        return e
    def fcall(self, eng, st, a):
        p = a[0]
        if not isinstance(p, Ptr) or p.rid != self.fam:
            return None
        r, loc = eng.resolve(st, p, 'handler function')
        eng.require(st, z3.BoolVal(loc[2] == self.ofun), 'call of the function of a handler')
        ra, la = eng.elem(st, a[1], 'argument')
        eng.require(st, eng.elem_get(st, ra, la, 'live'), 'argument is alive')
        v = eng.elem_get(st, ra, la, 'v')
        eng.require(st, z3.BoolVal(isinstance(a[2], Ptr) and a[2].rid == self.ref.rid and a[2].off == self.ref.off), 'reference argument refers to the same object')
        r = st.mut(self.fam)
        c0 = r.lanes[(self.ofun, 'cnt')](loc[1])
        r.lanes[(self.ofun, 'cnt')] = r.lanes[(self.ofun, 'cnt')].write(loc[1], c0 + 1)
        r.lanes[(self.ofun, 'arg')] = r.lanes[(self.ofun, 'arg')].write(loc[1], v)
        return R(st)
    def ladd(self, eng, st, a):
        s = eng.new_struct(st, 'added handler', self.szp, heap='param')
        st.ghost['added'] = st.ghost.get('added', ()) + (Ptr(s.rid, 0),)
        eng.require(st, z3.BoolVal(a[0].rid == self.list.rid and a[0].off == self.list.off), 'Add to the handler list')
        outs = eng.call_function(st, 'api_PI_cctor', [Ptr(s.rid, 0), a[1]])
        for o in outs:
            i = eng.fresh(o.st, INT, 'at'); o.st.add(z3.And(i >= 0, i <= self.n)); o.val = i
        return outs
    def lindex(self, eng, st, a):
        p = eng.load(st, ('ptr',), a[1])
        if not isinstance(p, Ptr) or p.rid is None:
            raise Unsupported('lookup of an unknown handler')
        if self.member is not None and p.rid == self.member.rid and p.off == self.member.off and not st.ghost.get('removed'):
            return R(st, self.w)
        return R(st, I(-1))
    def lremove(self, eng, st, a):
        eng.require(st, a[1] == self.w if self.member is not None and not st.ghost.get('removed') else FALSE, 'RemoveAt: index of the handler')
        st.ghost['removed'] = True
        outs = eng.call_function(st, 'api_PI_dtor', [self.slot])
        for o in outs:
            o.val = TRUE
        return outs
    def untouched(self, o, e, what):
        r0 = self.c.st.regions[e.rid]; r = o.st.regions[e.rid]
        for f in self.lf:
            x, y = r0.fields[f][1], r.fields[f][1]
            same = x.rid == y.rid if isinstance(x, Ptr) else None
            self.c.ensure(o.st, z3.BoolVal(same) if same is not None else x == y, what + ': handler list changed only through its operations')
    def handler(self, o, q, exp, attached, what):
        """the PH at q refers to a handler with the given function"""
        c = self.c
        for x in self.follow(o.st.copy(), 'api_PH_IsAttached', [q], what):
            c.ensure(x.st, B(x.val) == z3.BoolVal(attached), what + ': IsAttached')

for op in ('call', 'callm'):
    def f(track, op=op):
        X = EC(track); c = X.c; e = X.event()
        a, v = c.elem('argument'); b, _ = c.rawcell('reference'); X.ref = b
        for o in X.ret(c.run('api_EV_' + op, [e, a, b]), 'call of an event'):
            r = o.st.regions[X.fam]
            inn = lambda k: z3.And(k >= 0, k < X.n)
            c.ensure_forall(o.st, lambda k: r.lanes[(X.ofun, 'cnt')](k) == 1, 'call of an event: every handler is called exactly once', inn)
            c.ensure_forall(o.st, lambda k: r.lanes[(X.ofun, 'arg')](k) == v, 'call of an event: every handler receives the argument', inn)
            X.untouched(o, e, 'call of an event')
            if op == 'call':
                ra, la = c.eng.elem(o.st, a, 'argument')
                c.ensure(o.st, c.eng.elem_get(o.st, ra, la, 'v') == v, 'call of an event: argument of the caller unchanged')
    case('Event::operator() [%s argument]' % ('lvalue' if op == 'call' else 'rvalue'), f)
for how in ('func', 'static', 'member'):
    def f(track, how=how):
        X = EC(track); c = X.c; e = X.event(); q = X.raw('PH'); fs = []
        if how == 'func':
            p, exp = X.func('FE', 'obj'); args = [q, e, p]; fs = [('FE', p)]
        elif how == 'static':
            args = [q, e]; exp = dict(fn='se')
        else:
            o_ = X.raw('CE'); args = [q, e, o_]; exp = dict(fn='CE::me', this=o_)
        for o in X.ret(c.run('api_EV_' + {'func': 'Add', 'static': 'AddStatic', 'member': 'AddMember'}[how], args), 'Add'):
            ad = o.st.ghost.get('added', ())
            c.ensure(o.st, z3.BoolVal(len(ad) == 1), 'Add: exactly one handler is added')
            X.untouched(o, e, 'Add')
            X.handler(o, q, exp, True, 'Add')
            if len(ad) != 1:
                continue
            x = o.st.regions[ad[0].rid].fields.get(X.oref)
            y = [z for z in X.follow(o.st.copy(), 'api_PH_Obj', [q], 'Add')][0].val
            c.ensure(o.st, z3.BoolVal(isinstance(x[1], Ptr) and isinstance(y, Ptr) and x[1].rid == y.rid), 'Add: the returned handler is the added one')
            fp = Ptr(x[1].rid, X.ofun)
            for s in X.calls(o.st, 'FE', fp, exp, 'Add: the handler calls the function given'):
                for order in (0, 1):
                    X.finish(s, ([('PH', q), ('PI', ad[0])] if order else [('PI', ad[0]), ('PH', q)]) + fs, 'handler released by its last owner')
    case('Event::Add(%s)' % {'func': 'Func', 'static': 'function', 'member': 'member function'}[how], f)
for how in ('member', 'stranger', 'otherclass', 'null'):
    def f(track, how=how):
        X = EC(track); c = X.c; e = X.event(); q = X.raw('PH'); fs = []; X.member = None
        if how in ('member', 'stranger'):
            p, exp = X.func('FE', 'obj'); fs = [('FE', p)]
            h = X.raw('PI'); c.helper('api_PI_new', h, p)
            X.member = c.st.regions[h.rid].fields[X.oref][1]
            up = c.helper('up_EI', X.member)
            c.st.mut(X.member.rid).meta['dyn'] = {'EventHandlerImpl': X.member.off}
            c.helper('api_PH_up', q, h)
            fs.append(('PI', h)) if how == 'stranger' else None
            X.slot = h
            X.w = c.int('position'); c.st.add(z3.And(X.w >= 0, X.w < X.n))
            if how == 'stranger':
                X.member = None
        else:
            c.helper('api_PH_other' if how == 'otherclass' else 'api_PH_null', q)
        def direct(eng, st, v):
            raise Unsupported('handlers read from the list itself')
        c.st.mut(X.slots).meta = dict(c.st.regions[X.slots].meta, **{}); c.st.regions[X.slots].meta[('dec', X.oref)] = direct
        for o in X.ret(c.run('api_EV_Remove', [e, q]), 'Remove'):
            rem = bool(o.st.ghost.get('removed'))
            c.ensure(o.st, B(o.val) == z3.BoolVal(how == 'member'), 'Remove: true exactly for an attached handler')
            c.ensure(o.st, z3.BoolVal(rem == (how == 'member')), 'Remove: removes exactly that handler')
            X.untouched(o, e, 'Remove')
            if how in ('member', 'stranger'):
                X.handler(o, q, exp, how != 'member', 'Remove')
            X.finish(o.st, [('PH', q)] + fs, 'handler released by its last owner')
    case('Event::Remove [%s]' % {'member': 'attached handler', 'stranger': 'handler of another event', 'otherclass': 'handler of another kind', 'null': 'null'}[how], f)
