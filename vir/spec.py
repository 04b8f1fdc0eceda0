"""Contract layer: symbolic pre-states, representation invariants, postconditions."""
import re, time, traceback
import z3
from .engine import *
from . import unit as U
from .engine import _uid

BIG = 1 << 40       # assumed bound on every count / capacity / length (memory cannot hold more)
ARG = 1 << 62       # assumed bound on integer arguments

eqE = z3.Function('eqE', INT, INT, BOOL)       # operator== of the opaque element type: arbitrary relation
keyE = z3.Function('keyE', INT, INT)           # <=> of the opaque element type: arbitrary weak order
mvE = z3.Function('moved_from', INT, INT)      # unspecified value left behind by a move
dfE = z3.Const('default_value', INT)

def R(st, v=None):
    return [Outcome(st, 'ret', v)]

# ---------------------------------------------------------------- opaque element operations
def _live(eng, st, p, what):
    r, loc = eng.elem(st, p, what)
    eng.require(st, eng.elem_get(st, r, loc, 'live'), what + ' on a live object')
    return r, loc
def e_default(eng, st, a):
    r, loc = eng.elem(st, a[0], 'element default constructor')
    eng.require(st, z3.Not(eng.elem_get(st, r, loc, 'live')), 'element constructor on raw storage')
    eng.elem_set(st, r, loc, 'live', TRUE); eng.elem_set(st, r, loc, 'v', dfE)
    return R(st)
def e_copy(eng, st, a):
    rs, ls = _live(eng, st, a[1], 'element copy source')
    v = eng.elem_get(st, rs, ls, 'v')
    r, loc = eng.elem(st, a[0], 'element copy constructor')
    eng.require(st, z3.Not(eng.elem_get(st, r, loc, 'live')), 'element constructor on raw storage')
    eng.elem_set(st, r, loc, 'live', TRUE); eng.elem_set(st, r, loc, 'v', v)
    return R(st)
def e_move(eng, st, a):
    rs, ls = _live(eng, st, a[1], 'element move source')
    v = eng.elem_get(st, rs, ls, 'v')
    r, loc = eng.elem(st, a[0], 'element move constructor')
    eng.require(st, z3.Not(eng.elem_get(st, r, loc, 'live')), 'element constructor on raw storage')
    eng.elem_set(st, r, loc, 'live', TRUE); eng.elem_set(st, r, loc, 'v', v)
    eng.elem_set(st, rs, ls, 'v', mvE(v))
    return R(st)
def e_dtor(eng, st, a):
    r, loc = _live(eng, st, a[0], 'element destructor')
    eng.elem_set(st, r, loc, 'live', FALSE)
    return R(st)
def e_cassign(eng, st, a):
    rs, ls = _live(eng, st, a[1], 'element copy-assignment source')
    r, loc = _live(eng, st, a[0], 'element copy-assignment target')
    eng.elem_set(st, r, loc, 'v', eng.elem_get(st, rs, ls, 'v'))
    return R(st, a[0])
def e_massign(eng, st, a):
    rs, ls = _live(eng, st, a[1], 'element move-assignment source')
    r, loc = _live(eng, st, a[0], 'element move-assignment target')
    v = eng.elem_get(st, rs, ls, 'v')
    eng.elem_set(st, r, loc, 'v', v)
    eng.elem_set(st, rs, ls, 'v', mvE(v))
    return R(st, a[0])
def e_eq(eng, st, a):
    r, l = _live(eng, st, a[0], 'element comparison')
    r2, l2 = _live(eng, st, a[1], 'element comparison')
    return R(st, eqE(eng.elem_get(st, r, l, 'v'), eng.elem_get(st, r2, l2, 'v')))
def e_cmp(eng, st, a):
    r, l = _live(eng, st, a[0], 'element comparison')
    r2, l2 = _live(eng, st, a[1], 'element comparison')
    x, y = keyE(eng.elem_get(st, r, l, 'v')), keyE(eng.elem_get(st, r2, l2, 'v'))
    return R(st, z3.If(x < y, I(-1), z3.If(x > y, I(1), I(0))))

def opaque_externs(*names):
    d = {}
    for n in names:
        m = '%d%s' % (len(n), n)
        for c in '12':
            d['_ZN%sC%sEv' % (m, c)] = e_default
            d['_ZN%sC%sERKS_' % (m, c)] = e_copy
            d['_ZN%sC%sEOS_' % (m, c)] = e_move
            d['_ZN%sD%sEv' % (m, c)] = e_dtor
        d['_ZN%saSERKS_' % m] = e_cassign
        d['_ZN%saSEOS_' % m] = e_massign
        d['_ZNK%seqERKS_' % m] = e_eq
        d['_ZNK%sssERKS_' % m] = e_cmp
    return d

def error_ctor(eng, st, a):
    return R(st)
BASE_EXTERNS = {'_ZN2vl5ErrorC1EPKw': error_ctor, '_ZN2vl5ErrorC2EPKw': error_ctor}

ERROR = '_ZTIN2vl5ErrorE'

# ---------------------------------------------------------------- element kinds
class Opaque:
    name = 'E'; stride = 8
    @staticmethod
    def fill(eng, st, r, vfn, livefn, off=0):
        r.lanes[(off, 'v')] = base_lane(vfn)
        r.lanes[(off, 'live')] = base_lane(livefn)
    @staticmethod
    def val(eng, st, rid, k, off=0):
        r = st.regions[rid]
        return eng.elem_get(st, r, ('a', k, off), 'v')
    @staticmethod
    def live(eng, st, rid, k, off=0):
        r = st.regions[rid]
        return eng.elem_get(st, r, ('a', k, off), 'live')

class Raw64:
    name = 'long'; stride = 8
    @classmethod
    def fill(cls, eng, st, r, vfn, livefn, off=0):
        r.lanes[(off, 'raw')] = base_lane(vfn, cls.stride)
        r.lanes[(off, 'init')] = base_lane(livefn)
    @staticmethod
    def val(eng, st, rid, k, off=0):
        r = st.regions[rid]
        ln = r.lanes.get((off, 'raw'))
        return ln(k) if ln else z3.Function('garb!%d!%d' % (rid, off), INT, INT)(zi(k))
    @staticmethod
    def live(eng, st, rid, k, off=0):
        r = st.regions[rid]
        ln = r.lanes.get((off, 'init'))
        return ln(k) if ln else FALSE

class Raw8(Raw64):
    name = 'char'; stride = 1
class Raw16(Raw64):
    name = 'char16_t'; stride = 2
class Raw32(Raw64):
    name = 'wchar_t'; stride = 4

class Failure(Exception):
    pass

class Ctx:
    """one contract verification: pre-state, execution, postconditions"""
    def __init__(self, unitname, dom=None, externs=None, contracts=None, opts=None, rlimit=30_000_000, budget=None):
        self.u = U.load(unitname)
        ex = dict(BASE_EXTERNS); ex.update(opaque_externs('E', 'F')); ex.update(externs or {})
        self.eng = Engine(self.u.m, self.u.dem, dom=dom, externs=ex, contracts=contracts, opts=opts or {}, rlimit=rlimit)
        if budget:
            self.eng.deadline = time.time() + budget
        self.st = State()
        self.entry = None
    def fn(self, dem):
        n = self.u.bydem.get(dem)
        if n is None:
            if dem in self.u.m.funcs:
                return dem
            raise U.ExtractionError('function not found in IR: ' + dem)
        return n
    def find(self, regex):
        r = [d for d in self.u.bydem if re.search(regex, d)]
        if len(r) != 1:
            raise U.ExtractionError('function pattern %s: %d matches' % (regex, len(r)))
        return r[0]
    def helper(self, name, *args):
        """run a layout helper of the TU (no obligations)"""
        self.eng.mute += 1
        try:
            o = self.eng.run_function(self.st, self.u.m.funcs[name], list(args))
        finally:
            self.eng.mute -= 1
        if len(o) != 1 or o[0].kind != 'ret':
            raise U.ExtractionError('helper %s' % name)
        self.st = o[0].st
        return o[0].val
    def int(self, name, lo=-(1 << 63), hi=(1 << 63) - 1):
        x = z3.Int(name)
        self.st.add(z3.And(x >= lo, x <= hi))
        return x
    def elem(self, name, heap='param'):
        r = self.eng.new_array(self.st, name, 8, I(1), heap=heap)
        v = z3.Int(name + '.value')
        r.lanes[(0, 'live')] = base_lane(lambda k: TRUE)
        r.lanes[(0, 'v')] = base_lane(lambda k: v)
        return Ptr(r.rid, 0), v
    def rawcell(self, name, size=8):
        r = self.eng.new_array(self.st, name, size, I(1), heap='param')
        v = self.eng.dom.var(8 * size, name)
        if self.eng.dom.name == 'int':
            self.st.add(self.eng.dom.range(8 * size, v))
        r.lanes[(0, 'raw')] = base_lane(lambda k: v, size)
        r.lanes[(0, 'init')] = base_lane(lambda k: TRUE)
        return Ptr(r.rid, 0), v
    def obj(self, id, construct=True):
        """fresh object of the class registered as OBJ(id,..), default constructed by the real constructor"""
        sz = const_of(self.helper('sz_' + id))
        r = self.eng.new_struct(self.st, id, sz, heap='param')
        p = Ptr(r.rid, 0)
        if construct:
            self.helper('mk_' + id, p)
        return p
    def field(self, id, f, p):
        q = self.helper('fld_%s_%s' % (id, f), p)
        return q.off - p.off
    def run(self, dem, args, st=None):
        name = self.fn(dem)
        self.entry = dem
        self.eng.where = dem
        st = st or self.st
        if not self.eng.feasible(st):
            raise U.ExtractionError('contradictory precondition for ' + dem)
        f = self.u.m.funcs[name]
        args = list(args)
        outs = self.eng.run_function(st.copy(), f, args)
        live = []
        for o in outs:
            if self.eng.feasible(o.st):
                live.append(o)
        self.outs = live
        if not live:
            # every path ended in a failed obligation, or nothing is reachable
            if not any(x.status != 'discharged' for x in self.eng.obls):
                raise U.ExtractionError('vacuous: no reachable outcome of ' + dem)
        return live
    # -- obligations
    def ensure(self, st, goal, name):
        return self.eng.require(st, goal, '%s: %s' % (short(self.entry or ''), name))
    def ensure_forall(self, st, fn, name, guard):
        return self.eng.require_forall(st, fn, '%s: %s' % (short(self.entry or ''), name), guard)
    def is_error(self, o):
        return o.kind == 'throw' and isinstance(o.val, ExnVal) and o.val.tname == ERROR

def B(v):
    """i1 / i8 result as Bool"""
    if z3.is_bool(v):
        return v
    return v != 0

# ---------------------------------------------------------------- list / array objects
class Seq:
    """abstract value of a container: length and element function"""
    def __init__(self, n, at):
        self.n = n; self.at = at

class ListObj:
    def __init__(self, c, id, kind, name='list', has_cap=True, concrete=None):
        self.c = c; self.id = id; self.K = kind; self.has_cap = has_cap
        st = c.st
        self.p = c.obj(id)
        self.ob = c.field(id, 'buffer', self.p); self.oc = c.field(id, 'count', self.p)
        self.ocap = c.field(id, 'capacity', self.p) if has_cap else None
        st = c.st
        self.n0 = z3.Int(name + '.count'); 
        self.cap0 = z3.Int(name + '.capacity') if has_cap else self.n0
        st.add(z3.And(self.n0 >= 0, self.n0 <= self.cap0, self.cap0 <= BIG))
        self.fn = z3.Function(name + '.item', INT, INT)
        buf = c.eng.new_array(st, name + '.buffer', kind.stride, self.cap0, heap='malloc')
        kind.fill(c.eng, st, buf, lambda k: self.fn(zi(k)), lambda k: z3.And(zi(k) >= 0, zi(k) < self.n0))
        if kind is not Opaque:
            q = z3.Int('q!' + name)
            st.add(z3.ForAll([q], c.eng.dom.range(8 * kind.stride, self.fn(q)), patterns=[self.fn(q)]))
        self.buf0 = buf.rid
        st.add(z3.Int('base!%d' % buf.rid) > 0)
        r = st.mut(self.p.rid)
        r.fields[self.ob] = (8, Ptr(buf.rid, 0, self.cap0 == 0))
        r.fields[self.oc] = (8, self.n0)
        if has_cap:
            r.fields[self.ocap] = (8, self.cap0)
        self.pre = Seq(self.n0, lambda k: self.fn(zi(k)))
        self.other0 = {k: v for k, v in r.fields.items() if k not in (self.ob, self.oc, self.ocap)}

    def rep(self, st):
        r = st.regions[self.p.rid]
        return r.fields[self.ob][1], r.fields[self.oc][1], (r.fields[self.ocap][1] if self.has_cap else r.fields[self.oc][1])

    def check(self, o, want, what, keep_heap=(), lifetime=True, ranges=None):
        """representation invariant + abstract value == want in outcome state o.st; no leaks"""
        c = self.c; st = o.st; eng = c.eng
        buf, n, cap = self.rep(st)
        if want is not None:
            c.ensure(st, n == want.n, what + ': element count')
        c.ensure(st, z3.And(n >= 0, n <= cap), what + ': 0 <= count <= capacity')
        if not isinstance(buf, Ptr):
            raise Unsupported('buffer pointer shape')
        if buf.rid is None:
            c.ensure(st, cap == 0, what + ': no buffer only with capacity 0')
        else:
            r = st.regions[buf.rid]
            c.ensure(st, z3.BoolVal(r.alive), what + ': buffer is live storage')
            c.ensure(st, z3.BoolVal(r.heap == 'malloc'), what + ': buffer is heap storage')
            c.ensure(st, buf.null == (cap == 0), what + ': no buffer exactly with capacity 0')
            c.ensure(st, z3.Implies(z3.Not(buf.null), z3.And(zi(buf.off) == 0, zi(r.count) == cap)), what + ': capacity is the allocated size')
            if want is not None:
                c.ensure_forall(st, lambda k: self.K.val(eng, st, buf.rid, k) == want.at(k), what + ': element values', lambda k: z3.And(k >= 0, k < n))
            if lifetime:
                c.ensure_forall(st, lambda k: self.K.live(eng, st, buf.rid, k), what + ': elements below count are constructed', lambda k: z3.And(k >= 0, k < n))
                if self.K is Opaque:
                    c.ensure_forall(st, lambda k: z3.Not(self.K.live(eng, st, buf.rid, k)), what + ': storage above count holds no object', lambda k: z3.And(k >= n, k < cap))
        b0 = st.regions[self.buf0]
        if not (buf.rid == self.buf0):
            # the old buffer (if there was one) must have been released
            if b0.alive:
                c.ensure(st, self.cap0 == 0, what + ': old buffer released')
        self.no_leak(o, what, (buf.rid,) + tuple(keep_heap))

    def no_leak(self, o, what, keep=()):
        st = o.st
        for rid in st.ghost.get('heap', ()):
            if st.regions[rid].alive and rid not in keep and rid not in st.ghost.get('keep', ()):
                self.c.ensure(st, FALSE, what + ': no storage leaked')

def int_terms(facts, limit=400):
    """integer constants / applications of trace functions in the facts: candidate witnesses"""
    seen = set(); seen2 = set(); out = []
    for f in facts:
        stk = [f]
        while stk:
            x = stk.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                continue
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    if z3.is_int(x):
                        out.append(x)
                    for y in x.children():
                        if z3.is_int(y) and not z3.is_int_value(y) and y.get_id() not in seen2:
                            seen2.add(y.get_id()); out.insert(0, y)
                stk.extend(x.children())
    return out[:limit]

def witness(c, st, pred, name, extra=(), lo=None, hi=None):
    """exists p: pred(p), by trying integer terms of the path.  pred returns a Bool or a list of (guard, goal) for forall parts"""
    eng = c.eng
    cands = list(extra) + int_terms(st.pc)
    for w in cands:
        goals = pred(w)
        ok = True
        for g in goals:
            if isinstance(g, tuple):
                k = z3.FreshConst(INT, 'k')
                s = st.copy(); s.add(g[0](k))
                ok = eng.valid(s, g[1](k))
            else:
                ok = eng.valid(st, g)
            if not ok:
                break
        if ok:
            eng.obls.append(Obligation('%s: %s' % (short(c.entry or ''), name), 'discharged', 0.0, None, '', 'z3'))
            return w
    eng.obls.append(Obligation('%s: %s' % (short(c.entry or ''), name), 'unknown', 0.0, None, 'no witness among the %d integer terms of the path' % len(cands), 'z3', z3.BoolVal(False)))
    return None
