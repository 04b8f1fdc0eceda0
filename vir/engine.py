"""Verification-condition generator: path-splitting symbolic execution of LLVM IR
with closed-form / Houdini loop invariants (loops.py) and contracts at calls.

Every fact used by the solver comes from (a) the precondition of the contract under
verification, (b) the IR of the real function, (c) contracts of callees that are verified
separately or are listed as trusted externals."""
import re, math, time, itertools
import z3
from .irparse import parse_global, Layout, successors

I = z3.IntVal
INT = z3.IntSort()
BOOL = z3.BoolSort()
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)

class Unsupported(Exception):
    """IR construct / loop / memory shape outside the verifier's reach: never a violation"""

class PathEnd(Exception):
    pass

class _Undef:
    def __repr__(self):
        return 'undef'
UNDEF = _Undef()

class FnPtr:
    __slots__ = ('name',)
    def __init__(self, n): self.name = n
    def __repr__(self): return 'fn:' + self.name

class Ptr:
    """region id (None = null), byte offset (python int or z3 Int), null condition"""
    __slots__ = ('rid', 'off', 'null')
    def __init__(self, rid, off=0, null=FALSE):
        self.rid = rid; self.off = off; self.null = null
    def __repr__(self):
        return 'Ptr(%s,%s%s)' % (self.rid, self.off, '' if z3.is_false(self.null) else ',null?')
NULL = Ptr(None, 0, TRUE)

class AddrPtr:
    """a pointer known only by its integer address (never dereferenced)"""
    __slots__ = ('addr',)
    def __init__(self, a): self.addr = a
    def __repr__(self): return 'Addr(%s)' % self.addr

class Agg:
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    def __repr__(self): return 'Agg%r' % (self.v,)

def isint(x):
    return isinstance(x, int) and not isinstance(x, bool)

def zi(x):
    return I(x) if isinstance(x, int) else x

def simp(x):
    if isinstance(x, int):
        return x
    return z3.simplify(x, som=False)

def const_of(x):
    """python int if the term is a numeral"""
    if isinstance(x, int):
        return x
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_bv_value(x):
        return x.as_signed_long()
    s = z3.simplify(x)
    if z3.is_int_value(s):
        return s.as_long()
    if z3.is_bv_value(s):
        return s.as_signed_long()
    return None

# ------------------------------------------------------------------ linear forms
def lin(e):
    """z3 Int term / int -> (const, {id:(term,coef)})"""
    if isinstance(e, int):
        return e, {}
    c = 0
    d = {}
    st = [(e, 1)]
    while st:
        x, m = st.pop()
        if z3.is_int_value(x):
            c += m * x.as_long()
        elif z3.is_add(x):
            for y in x.children():
                st.append((y, m))
        elif z3.is_sub(x):
            ch = x.children()
            st.append((ch[0], m))
            for y in ch[1:]:
                st.append((y, -m))
        elif x.decl().kind() == z3.Z3_OP_UMINUS:
            st.append((x.arg(0), -m))
        elif z3.is_mul(x):
            k = 1
            rest = []
            for y in x.children():
                cy = const_of(y)
                if cy is not None:
                    k *= cy
                else:
                    rest.append(y)
            if not rest:
                c += m * k
            elif len(rest) == 1:
                st.append((rest[0], m * k))
            else:
                t = rest[0]
                for y in rest[1:]:
                    t = t * y
                _ladd(d, t, m * k)
        else:
            _ladd(d, x, m)
    return c, {k: v for k, v in d.items() if v[1] != 0}

def _ladd(d, t, m):
    i = t.get_id()
    if i in d:
        d[i] = (t, d[i][1] + m)
    else:
        d[i] = (t, m)

def unlin(c, d):
    if not d:
        return c
    e = None
    for t, m in d.values():
        x = t if m == 1 else m * t
        e = x if e is None else e + x
    return e + c if c != 0 else e

def norm(e):
    c, d = lin(e)
    return unlin(c, d)

def split(off, stride):
    """off = idx*stride + rem"""
    c, d = lin(off)
    for t, m in d.values():
        if m % stride:
            raise Unsupported('pointer offset %s not a multiple of %d' % (off, stride))
    return unlin(c // stride, {k: (t, m // stride) for k, (t, m) in d.items()}), c % stride

# ------------------------------------------------------------------ array lanes
class Lane:
    """content of one lane of an array region: chain of writes over a base function"""
    __slots__ = ('kind', 'parent', 'a', 'size')
    def __init__(self, kind, parent, a, size):
        self.kind = kind; self.parent = parent; self.a = a; self.size = size
    def __call__(self, k):
        if self.kind == 'base':
            return self.a(k)
        if self.kind == 'write':
            i, v = self.a
            d = simp(zi(i) - zi(k))
            if z3.is_int_value(d):
                return v if d.as_long() == 0 else self.parent(k)
            p = self.parent(k)
            if isinstance(v, (Ptr, AddrPtr)) or isinstance(p, (Ptr, AddrPtr)):
                raise Unsupported('pointer lane')
            return z3.If(zi(k) == zi(i), v, p)
        if self.kind == 'range':
            lo, hi, fn = self.a
            inside = simp(z3.And(zi(lo) <= zi(k), zi(k) < zi(hi)))
            if z3.is_true(inside):
                return fn(k)
            if z3.is_false(inside):
                return self.parent(k)
            return z3.If(inside, fn(k), self.parent(k))
        raise AssertionError
    def write(self, i, v):
        return Lane('write', self, (i, v), self.size)
    def range(self, lo, hi, fn):
        return Lane('range', self, (lo, hi, fn), self.size)

def base_lane(fn, size=None):
    return Lane('base', None, fn, size)

class Region:
    __slots__ = ('rid', 'kind', 'size', 'stride', 'count', 'fields', 'lanes', 'alive', 'heap', 'name', 'meta')
    def __init__(self, rid, kind, name, size=None, stride=None, count=None, heap=None):
        self.rid = rid; self.kind = kind; self.name = name; self.size = size; self.stride = stride; self.count = count
        self.fields = {}; self.lanes = {}; self.alive = True; self.heap = heap; self.meta = {}
    def copy(self):
        r = Region(self.rid, self.kind, self.name, self.size, self.stride, self.count, self.heap)
        r.fields = dict(self.fields); r.lanes = dict(self.lanes); r.alive = self.alive; r.meta = dict(self.meta)
        return r

class State:
    def __init__(self):
        self.regions = {}
        self.own = set()
        self.pc = []
        self.ghost = {}
        self.fc = 0            # per-path fresh counter
        self.loopctx = ()      # ((id, t), ...)
        self.trail = ()
    def copy(self):
        s = State()
        s.regions = dict(self.regions)
        self.own = set()       # both lose ownership
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.fc = self.fc
        s.loopctx = self.loopctx
        s.trail = self.trail
        return s
    def mut(self, rid):
        r = self.regions[rid]
        if rid not in self.own:
            r = r.copy()
            self.regions[rid] = r
            self.own.add(rid)
        return r
    def add(self, c):
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        if z3.is_true(c):
            return
        self.pc.append(c)

class Outcome:
    __slots__ = ('st', 'kind', 'val')
    def __init__(self, st, kind, val):
        self.st = st; self.kind = kind; self.val = val

_rid = itertools.count(1)
_uid = itertools.count(1)

def has_quant(e, cache={}):
    k = e.get_id()
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False

# ------------------------------------------------------------------ int domains
class IntDom:
    name = 'int'
    def const(self, w, v):
        if w == 1:
            return z3.BoolVal(bool(v & 1))
        v &= (1 << w) - 1
        if v >> (w - 1):
            v -= 1 << w
        return I(v)
    def var(self, w, nm):
        return z3.Bool(nm) if w == 1 else z3.Int(nm)
    def sort(self, w):
        return BOOL if w == 1 else INT
    def range(self, w, x):
        return z3.And(x >= -(1 << (w - 1)), x < (1 << (w - 1)))
    def uns(self, w, x):
        c = const_of(x)
        if c is not None:
            return I(c % (1 << w))
        return z3.If(x < 0, x + (1 << w), x)
    def wrap(self, w, x):
        c = const_of(x)
        if c is not None:
            return self.const(w, c)
        h = 1 << (w - 1)
        return (x + h) % (1 << w) - h

class BVDom:
    name = 'bv'
    def const(self, w, v):
        if w == 1:
            return z3.BoolVal(bool(v & 1))
        return z3.BitVecVal(v, w)
    def var(self, w, nm):
        return z3.Bool(nm) if w == 1 else z3.BitVec(nm, w)
    def sort(self, w):
        return BOOL if w == 1 else z3.BitVecSort(w)
    def range(self, w, x):
        return TRUE

class Obligation:
    __slots__ = ('name', 'status', 'secs', 'model', 'where', 'backend', 'goal')
    def __init__(self, name, status, secs, model, where, backend, goal=None):
        self.name = name; self.status = status; self.secs = secs; self.model = model; self.where = where; self.backend = backend; self.goal = goal

class Engine:
    def __init__(self, module, demangle, dom=None, contracts=None, externs=None, rlimit=30_000_000, opts=None):
        self.m = module
        self.dem = demangle            # mangled -> demangled
        self.lay = Layout(module)
        self.dom = dom or IntDom()
        self.contracts = contracts or {}
        self.discovering = 0
        self.externs = externs or {}
        self.obls = []
        self.mute = 0
        self.rlimit = rlimit
        self.gregions = {}
        self.gstate = {}
        self.solver_secs = 0.0
        self.nq = 0
        self.depth = 0
        self.maxdepth = 60
        self.inlined = set()
        self.applied = set()
        self.trusted = set()
        self.paths = 0
        self.loops = 0
        self.where = ''
        self.opts = opts or {}
        self.inv_templates = []        # spec supplied: fn(eng, st, intterm) -> Bool
        self.fail_fast = False
        self.abstracted = False
        self.deadline = None
        self.cov = {}
        self.steps = 0
        self.stop_after_fail = None

    # ---------------------------------------------------------- names
    def fresh(self, st, sort, hint='x'):
        st.fc += 1
        if st.loopctx:
            lid = st.loopctx[-1][0]
            vs = [t for _, t in st.loopctx]
            f = z3.Function('%s!%d!%s' % (hint, st.fc, lid), *([INT] * len(vs)), sort)
            return f(*vs)
        return z3.FreshConst(sort, hint)

    # ---------------------------------------------------------- solver
    def check(self, facts, rlimit=None, want_model=False, seed=0):
        s = z3.Solver()
        s.set('rlimit', rlimit or self.rlimit)
        if seed:
            s.set('random_seed', seed)
        t = time.time()
        for f in facts:
            s.add(f)
        r = s.check()
        self.solver_secs += time.time() - t
        self.nq += 1
        mdl = s.model() if (r == z3.sat and want_model) else None
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of this contract exhausted')
        return r, mdl, (s.reason_unknown() if r == z3.unknown else '')

    def qf(self, facts):
        out = []
        for f in facts:
            k = f.get_id()
            if k not in self._qcache:
                self._qcache[k] = (has_quant(f), f)
            if not self._qcache[k][0]:
                out.append(f)
        return out
    _qcache = {}

    def feasible(self, st, cond=None, rlimit=2_000_000):
        facts = self.qf(st.pc)
        if cond is not None:
            c = z3.simplify(cond)
            if z3.is_false(c):
                return False
            facts = facts + [c]
        r, _, _ = self.check(facts, rlimit)
        return r != z3.unsat

    def valid(self, st, goal, rlimit=None):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        ng = z3.Not(g)
        r, _, _ = self.check(self.qf(st.pc) + [ng], 3_000_000)
        if r == z3.unsat:
            return True
        if len(self.qf(st.pc)) == len(st.pc):
            if r == z3.sat:
                return False
            r, _, _ = self.check(st.pc + [ng], rlimit or self.rlimit)
            return r == z3.unsat
        r, _, _ = self.check(st.pc + [ng], rlimit or self.rlimit)
        return r == z3.unsat

    def require(self, st, goal, name):
        """proof obligation; afterwards the goal may be assumed on this path"""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.mute:
            g = z3.simplify(goal)
            if not z3.is_true(g):
                st.add(g)
            return True
        t0 = self.solver_secs
        g = z3.simplify(goal)
        status = None; mdl = None; be = 'z3'
        if z3.is_true(g):
            status = 'discharged'; be = 'simplifier'
        else:
            ng = z3.Not(g)
            qf = self.qf(st.pc)
            r, m, why = self.check(qf + [ng], 3_000_000, True)
            if r == z3.unsat:
                status = 'discharged'
            elif len(qf) == len(st.pc) and r == z3.sat:
                status = 'refuted'; mdl = m
            else:
                for att, seed in enumerate((0, 7, 23)):
                    r, m, why = self.check(st.pc + [ng], self.rlimit * (1 + att), True, seed)
                    if r == z3.unsat:
                        status = 'discharged'; break
                    if r == z3.sat:
                        status = 'refuted'; mdl = m; break
                if status is None:
                    if self.cvc5_unsat(st.pc + [ng]):
                        status = 'discharged'; be = 'cvc5'
                    else:
                        status = 'unknown'
        if status == 'refuted' and self.abstracted and any('bv_' in str(d) for d in (mdl.decls() if mdl is not None else ())):
            status = 'unknown'         # the model gives a bitwise operation an arbitrary value: no counterexample
        self.obls.append(Obligation(name, status, self.solver_secs - t0, (mdl, list(st.pc)) if status!="discharged" else None, self.where + ' ' + ' > '.join(st.trail[-6:]), be, None if status == 'discharged' else g))
        if status == 'discharged':
            if be != 'simplifier':
                st.add(g)
            return True
        if self.stop_after_fail and sum(1 for o in self.obls if o.status != 'discharged') >= self.stop_after_fail:
            raise Unsupported('stopped after %d failed obligations' % self.stop_after_fail)
        st.add(g)
        return False

    def cvc5_unsat(self, facts):
        import subprocess, tempfile, os
        s = z3.Solver()
        for f in facts:
            s.add(f)
        txt = s.to_smt2()
        t = time.time()
        try:
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
                fh.write('(set-logic ALL)\n' + txt)
            r = subprocess.run(['cvc5', '--rlimit=200000', '--tlimit=15000', fh.name], capture_output=True, text=True, timeout=30)
            return r.stdout.strip().startswith('unsat')
        except Exception:
            return False
        finally:
            self.solver_secs += time.time() - t
            try:
                os.unlink(fh.name)
            except Exception:
                pass

    def require_forall(self, st, fn, name, guard=None):
        """forall k: guard(k) -> fn(k), skolemised"""
        k = z3.FreshConst(INT, 'k')
        s = st.copy()
        if guard is not None:
            s.add(guard(k))
        return self.require(s, fn(k), name)

    # ---------------------------------------------------------- regions
    def new_struct(self, st, name, size, heap=None):
        r = Region(next(_rid), 'struct', name, size=size, heap=heap)
        st.regions[r.rid] = r
        st.own.add(r.rid)
        return r
    def new_array(self, st, name, stride, count, heap=None):
        r = Region(next(_rid), 'array', name, stride=stride, count=count, heap=heap)
        st.regions[r.rid] = r
        st.own.add(r.rid)
        return r

    def global_region(self, st, name):
        if name not in self.gregions:
            kind, t, init = parse_global(self.m, name)
            if kind == 'alias':
                return self.const(st, ('ptr',), init)
            self.gregions[name] = (next(_rid), t, init, kind)
        rid, t, init, kind = self.gregions[name]
        if rid not in st.regions:
            r = Region(rid, 'struct', '@' + name, size=self.lay.size(t) if t[0] != 'struct' or True else 0, heap='global')
            r.meta['const'] = kind == 'constant'
            r.meta['global'] = name
            if init is None:
                r.meta['external'] = True
                r.size = max(r.size, 1 << 20)
            elif t[0] == 'arr' and t[2][0] == 'int' and init[0] in ('agg', 'bytes'):
                vals = [v[1][1] for v in init[1]] if init[0] == 'agg' else [b if b < 128 else b - 256 for b in init[1]]
                w = t[2][1]
                r.kind = 'array'; r.stride = w // 8; r.count = I(len(vals)); r.size = None
                def fn(k, vals=vals, w=w, dom=self.dom):
                    c = const_of(k)
                    if c is not None:
                        if 0 <= c < len(vals):
                            return dom.const(w, vals[c])
                        return dom.const(w, 0)
                    if len(vals) > 4096:
                        raise Unsupported('large constant table')
                    e = dom.const(w, 0)
                    for i in range(len(vals) - 1, -1, -1):
                        e = z3.If(zi(k) == i, dom.const(w, vals[i]), e)
                    return e
                r.lanes[(0, 'raw')] = base_lane(fn, w // 8)
                r.lanes[(0, 'init')] = base_lane(lambda k: TRUE)
            else:
                st.regions[rid] = r
                self.flatten(st, t, init, 0, r.fields)
            st.regions[rid] = r
        return Ptr(rid, 0)

    def flatten(self, st, t, v, off, out):
        t0 = t
        t = self.lay.resolve(t)
        if t[0] == 'struct':
            for i, f in enumerate(t[1]):
                o, ft = self.lay.field(t, i)
                self.flatten(st, ft, ('zero',) if v[0] == 'zero' else ('undef',) if v[0] == 'undef' else v[1][i][1], off + o, out)
        elif t[0] == 'arr':
            s = self.lay.size(t[2])
            for i in range(t[1]):
                if v[0] == 'bytes':
                    x = ('int', v[1][i])
                elif v[0] in ('zero', 'undef'):
                    x = v
                else:
                    x = v[1][i][1]
                self.flatten(st, t[2], x, off + i * s, out)
        elif v[0] == 'undef':
            return
        elif v[0] == 'zero':
            out[off] = (self.lay.size(t), NULL if t[0] == 'ptr' else self.dom.const(t[1], 0) if t[0] == 'int' else z3.RealVal(0))
        else:
            out[off] = (self.lay.size(t), self.const(st, t, v))

    def const(self, st, t, v):
        k = v[0]
        if k == 'int':
            return self.dom.const(t[1], v[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            t = self.lay.resolve(t)
            if t[0] == 'struct':
                return Agg([self.const(st, f, v) for f in t[1]])
            if t[0] == 'arr':
                return Agg([self.const(st, t[2], v) for _ in range(t[1])])
            return UNDEF
        if k == 'zero':
            t = self.lay.resolve(t)
            if t[0] == 'struct':
                return Agg([self.const(st, f, v) for f in t[1]])
            if t[0] == 'arr':
                return Agg([self.const(st, t[2], v) for _ in range(t[1])])
            if t[0] == 'ptr':
                return NULL
            return self.dom.const(t[1], 0)
        if k == 'agg':
            return Agg([self.const(st, tt, vv) for tt, vv in v[1]])
        if k == 'global':
            n = v[1]
            if n in self.m.funcs or n in self.m.decls:
                return FnPtr(n)
            return self.global_region(st, n)
        if k == 'cgep':
            base = self.const(st, ('ptr',), v[2][0][1])
            return self.gep(st, v[1], base, [(tt, self.const(st, tt, vv)) for tt, vv in v[2][1:]])
        if k == 'ccast':
            x = self.const(st, v[2][0], v[2][1])
            if v[1] == 'inttoptr':
                return AddrPtr(x if not z3.is_bv(x) else z3.BV2Int(x, True))
            if v[1] == 'ptrtoint':
                return self.addr(st, x)
            return x
        if k == 'fp':
            return self.fpconst(t, v[1])
        if k == 'bytes':
            return Agg([self.dom.const(8, b) for b in v[1]])
        raise Unsupported('constant %r' % (v,))

    def fpconst(self, t, s):
        srt = z3.Float64() if t[0] == 'double' else z3.Float32()
        if s.startswith('0x'):
            import struct
            d = struct.unpack('>d', bytes.fromhex(s[2:].rjust(16, '0')))[0]
            return z3.FPVal(d, srt)
        return z3.FPVal(float(s), srt)

    # ---------------------------------------------------------- pointers
    def addr(self, st, p):
        """integer address of a pointer"""
        if isinstance(p, AddrPtr):
            return p.addr
        if isinstance(p, FnPtr):
            x = z3.Int('addr!' + p.name)      # functions lie at positive even addresses (Itanium member pointers rely on it)
            st.add(z3.And(x > 0, x < (1 << 62), x % 2 == 0))
            return x
        if p.rid is None:
            return zi(p.off)
        b = z3.Int('base!%d' % p.rid)
        a = b + zi(p.off) if not (isint(p.off) and p.off == 0) else b
        if z3.is_false(p.null):
            return a
        return z3.If(p.null, I(0), a)

    def offset(self, p, d):
        """p + d bytes"""
        if isinstance(p, AddrPtr):
            return AddrPtr(norm(p.addr + d) if not isint(norm(p.addr + d)) else I(norm(p.addr + d)))
        if isinstance(p, FnPtr):
            raise Unsupported('gep on function')
        if isint(d) and d == 0:
            return p
        o = norm(zi(p.off) + d) if not (isint(p.off) and isint(d)) else p.off + d
        if p.rid is None:
            return Ptr(None, o, TRUE)
        return Ptr(p.rid, o, p.null)

    def idx(self, v):
        if z3.is_bv(v):
            c = const_of(v)
            if c is None:
                r = self.opts.get('bvidx')
                if r:
                    return r(v)
                raise Unsupported('symbolic index in bit-vector mode')
            return c
        c = const_of(v)
        return c if c is not None else v

    def gep(self, st, bt, base, idx):
        if base is UNDEF:
            raise Unsupported('gep on undef')
        d = 0
        t = bt
        for n, (it, iv) in enumerate(idx):
            i = self.idx(iv)
            if n == 0:
                s = self.lay.size(t)
                d = d + i * s
            else:
                rt = self.lay.resolve(t)
                if rt[0] == 'struct':
                    o, t = self.lay.field(rt, i)
                    d = d + o
                elif rt[0] in ('arr', 'vec'):
                    t = rt[2]
                    d = d + i * self.lay.size(t)
                else:
                    raise Unsupported('gep')
        if not isint(d):
            d = norm(d)
        return self.offset(base, d)

    def resolve(self, st, p, what, size=1):
        """check p may be accessed; -> (region, ('s',off) | ('a',idx,rem))"""
        if isinstance(p, AddrPtr):
            self.require(st, FALSE, '%s: dereference of an invalid pointer' % what)
            raise PathEnd()
        if not isinstance(p, Ptr):
            raise Unsupported('deref %r' % (p,))
        if p.rid is None:
            self.require(st, FALSE, '%s: null dereference' % what)
            raise PathEnd()
        if not z3.is_false(p.null):
            self.require(st, z3.Not(p.null), '%s: pointer is not null' % what)
        r = st.regions.get(p.rid)
        if r is None:
            raise Unsupported('unknown region')
        if not r.alive:
            self.require(st, FALSE, '%s: access to released storage (%s)' % (what, r.name))
            raise PathEnd()
        if 'lost' in r.meta:
            self.require(st, z3.Not(r.meta['lost']), '%s: shared storage used only while a reference is held (%s)' % (what, r.name))
        if r.kind == 'struct':
            if not isint(p.off):
                c = const_of(p.off)
                if c is None:
                    raise Unsupported('symbolic offset %s into %s' % (p.off, r.name))
                p = Ptr(p.rid, c, p.null)
            if r.size is not None and not (0 <= p.off and p.off + size <= r.size):
                self.require(st, FALSE, '%s: access in bounds of %s' % (what, r.name))
                raise PathEnd()
            return r, ('s', p.off)
        if r.stride is None:
            raise Unsupported('untyped region %s' % r.name)
        i, rem = split(p.off, r.stride)
        self.require(st, z3.And(zi(i) >= 0, zi(i) < zi(r.count)), '%s: index in bounds of %s' % (what, r.name))
        return r, ('a', i, rem)

    # ---------------------------------------------------------- raw loads and stores
    def load(self, st, t, p, what='load'):
        t = self.lay.resolve(t)
        if t[0] in ('struct', 'arr'):
            if t[0] == 'struct':
                return Agg([self.load(st, f, self.offset(p, self.lay.field(t, i)[0]), what) for i, f in enumerate(t[1])])
            return Agg([self.load(st, t[2], self.offset(p, i * self.lay.size(t[2])), what) for i in range(t[1])])
        sz = self.lay.size(t)
        r, loc = self.resolve(st, p, what, sz)
        if r.meta.get('global') and r.meta.get('external'):
            v = self.fresh(st, self.dom.sort(t[1]), 'ext') if t[0] == 'int' else None
            if v is None:
                raise Unsupported('load from external global %s' % r.name)
            return v
        if 'rc' in r.meta and loc == ('s', r.meta['rc'][0]):
            v = self.fresh(st, INT, 'rc')       # other owners may have changed it at any time
            st.add(z3.And(v >= st.ghost[('units', r.rid)], v < (1 << 62)))
            return v
        if 'atomic' in r.meta and loc[0] == 's' and loc[1] in r.meta['atomic']:
            return self.atomic_load(st, t, r, loc)
        if loc[0] == 's':
            f = r.fields.get(loc[1])
            if f is None or f[0] != sz:
                v = self.load_pieces(st, r, loc[1], sz, t)
                if v is None:
                    if f is None:
                        if r.meta.get('lazy'):
                            v = r.meta['lazy'](self, st, r, loc[1], t)
                            st.mut(r.rid).fields[loc[1]] = (sz, v)
                            return v
                        self.require(st, FALSE, '%s: read of uninitialised storage (%s+%d)' % (what, r.name, loc[1]))
                        raise PathEnd()
                    raise Unsupported('partial load %s+%d size %d' % (r.name, loc[1], sz))
                return v
            v = f[1]
            if v is UNDEF:
                self.require(st, FALSE, '%s: read of uninitialised storage (%s+%d)' % (what, r.name, loc[1]))
                raise PathEnd()
            return self.coerce(st, v, t)
        _, i, rem = loc
        if t[0] == 'ptr' and ('vptr', rem) in r.meta:
            self.require(st, r.lanes[(0, 'live')](i), '%s: virtual call on a live object' % what)
            return r.meta[('vptr', rem)]
        ln = r.lanes.get((rem, 'raw'))
        if ln is None:
            v = r.meta.get('lazylane')
            if v:
                v(self, st, r, rem, t)
                ln = st.regions[r.rid].lanes[(rem, 'raw')]
                r = st.regions[r.rid]
            elif (rem, 'v') in r.lanes:
                raise Unsupported('raw access to opaque element')
            else:
                self.require(st, FALSE, '%s: read of uninitialised storage (%s)' % (what, r.name))
                raise PathEnd()
        if ln.size != sz:
            raise Unsupported('lane size')
        il = r.lanes.get((rem, 'init'))
        if il is not None:
            self.require(st, il(i), '%s: read of initialised storage (%s)' % (what, r.name))
        v = ln(i)
        dec = r.meta.get(('dec', rem))
        if dec and t[0] == 'ptr':
            return dec(self, st, v)
        if t[0] == 'ptr' and z3.is_expr(v):
            return AddrPtr(v)
        return self.coerce(st, v, t)

    def coerce(self, st, v, t):
        if t[0] == 'int' and isinstance(v, (Ptr, AddrPtr, FnPtr)):
            if t[1] == 64:
                return self.addr(st, v)
            raise Unsupported('pointer as int')
        if t[0] == 'int' and z3.is_expr(v) and z3.is_int(v) and self.dom.name == 'bv':
            raise Unsupported('int in bv mode')
        return v

    def load_pieces(self, st, r, off, sz, t):
        """reassemble a wider integer from narrower stored pieces (little endian) or narrow from wider constant"""
        if t[0] != 'int':
            return None
        ps = []
        o = off
        while o < off + sz:
            f = r.fields.get(o)
            if f is None or o + f[0] > off + sz or f[1] is UNDEF or not z3.is_expr(f[1]):
                ps = None
                break
            ps.append((o - off, f))
            o += f[0]
        if ps:
            if self.dom.name == 'bv':
                vs = [f[1] for _, f in ps]
                vs = [z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if z3.is_bool(v) else v for v in vs]
                return z3.Concat(*reversed(vs)) if len(vs) > 1 else vs[0]
            e = I(0)
            for o, f in ps:
                v = f[1]
                if z3.is_bool(v):
                    v = z3.If(v, I(1), I(0))
                last = o + f[0] == sz
                e = e + (v if last else self.dom.uns(8 * f[0], v)) * (1 << (8 * o))
            return z3.simplify(e)
        # narrow load from wider stored value
        for o2, f in r.fields.items():
            if isint(o2) and f[1] is NULL and o2 <= off and off + sz <= o2 + f[0]:
                return self.dom.const(8 * sz, 0)
            if isint(o2) and o2 <= off and off + sz <= o2 + f[0] and z3.is_expr(f[1]):
                sh = 8 * (off - o2)
                if self.dom.name == 'bv' and z3.is_bv(f[1]):
                    return z3.Extract(sh + 8 * sz - 1, sh, f[1])
                if z3.is_int(f[1]):
                    x = self.dom.uns(8 * f[0], f[1])
                    return self.dom.wrap(8 * sz, x / (1 << sh) if sh else x)
        return None

    def store(self, st, t, v, p, what='store'):
        t = self.lay.resolve(t)
        if t[0] in ('struct', 'arr'):
            for i, x in enumerate(v.v):
                if t[0] == 'struct':
                    o, ft = self.lay.field(t, i)
                else:
                    o, ft = i * self.lay.size(t[2]), t[2]
                self.store(st, ft, x, self.offset(p, o), what)
            return
        sz = self.lay.size(t)
        r, loc = self.resolve(st, p, what, sz)
        if r.meta.get('const'):
            self.require(st, FALSE, '%s: write to constant %s' % (what, r.name))
            raise PathEnd()
        if 'ro' in r.meta:
            self.require(st, FALSE, '%s: frame: write to %s' % (what, r.name))
            raise PathEnd()
        if 'rc' in r.meta and loc == ('s', r.meta['rc'][0]):
            self.require(st, FALSE, '%s: shared reference count changed only by one atomic step (%s)' % (what, r.name))
            raise PathEnd()
        if 'atomic' in r.meta and loc[0] == 's' and loc[1] in r.meta['atomic']:
            return self.atomic_store(st, t, r, loc, v)
        r = st.mut(r.rid)
        if loc[0] == 's':
            off = loc[1]
            for o2 in list(r.fields):
                if isint(o2) and o2 != off and o2 < off + sz and off < o2 + r.fields[o2][0]:
                    # overlapping old piece dies; the rest of a constant word stays, byte by byte
                    w2, v2 = r.fields.pop(o2)
                    k2 = 0 if v2 is NULL else const_of(v2) if z3.is_expr(v2) and (z3.is_int(v2) or z3.is_bv(v2)) else None
                    if k2 is not None:
                        k2 %= 1 << (8 * w2)
                        for b2 in range(w2):
                            if not off <= o2 + b2 < off + sz:
                                x2 = k2 >> (8 * b2) & 255
                                r.fields[o2 + b2] = (1, self.dom.const(8, x2 - 256 if x2 > 127 else x2))
            r.fields[off] = (sz, v)
            return
        _, i, rem = loc
        if isinstance(v, (Ptr, AddrPtr, FnPtr)):
            enc = r.meta.get(('enc', rem))
            v = enc(self, st, v) if enc else self.addr(st, v)
        if v is UNDEF:
            raise Unsupported('store of undef into array')
        if isinstance(v, bool):
            v = z3.BoolVal(v)
        if z3.is_bool(v):
            v = z3.If(v, self.dom.const(8, 1), self.dom.const(8, 0))
        ln = r.lanes.get((rem, 'raw'))
        if ln is None:
            f = z3.Function('garb!%d!%d' % (r.rid, rem), INT, v.sort())
            ln = base_lane(lambda k: f(k), sz)
            r.lanes[(rem, 'init')] = base_lane(lambda k: FALSE)
        if ln.size != sz:
            raise Unsupported('lane size')
        r.lanes[(rem, 'raw')] = ln.write(i, v)
        il = r.lanes.get((rem, 'init'))
        if il is not None:
            r.lanes[(rem, 'init')] = il.write(i, TRUE)

    # ---------------------------------------------------------- memcpy family
    def memcpy(self, st, dst, src, n, what, overlap=False):
        c = const_of(n) if not isint(n) else n
        if z3.is_bv(n) if z3.is_expr(n) else False:
            if c is None:
                raise Unsupported('symbolic memcpy in bv mode')
        if c == 0:
            return
        if c is None and self.valid(st, n == 0):
            return
        # null with size zero only
        for q in (dst, src):
            if isinstance(q, Ptr) and q.rid is None:
                self.require(st, zi(n) == 0, '%s: null pointer only with size 0' % what)
                return
        if isinstance(dst, AddrPtr) or isinstance(src, AddrPtr):
            raise Unsupported('memcpy on unknown pointer')
        rd, rs = st.regions[dst.rid], st.regions[src.rid]
        for q, r in ((dst, rd), (src, rs)):
            if not z3.is_false(q.null):
                self.require(st, z3.Or(zi(n) == 0, z3.Not(q.null)), '%s: pointer is not null' % what)
            if 'lost' in r.meta:
                self.require(st, z3.Not(r.meta['lost']), '%s: shared storage used only while a reference is held (%s)' % (what, r.name))
            if not r.alive:
                self.require(st, FALSE, '%s: access to released storage (%s)' % (what, r.name))
                raise PathEnd()
        if rd.meta.get('const') or 'ro' in rd.meta:
            self.require(st, FALSE, '%s: write to constant %s' % (what, rd.name))
            raise PathEnd()
        if rd.kind == 'struct' and rs.kind == 'struct':
            if c is None:
                raise Unsupported('symbolic memcpy of struct')
            so, do = src.off, dst.off
            if not (isint(so) and isint(do)):
                raise Unsupported('symbolic struct offset')
            if so + c > rs.size or do + c > rd.size or so < 0 or do < 0:
                self.require(st, FALSE, '%s: in bounds' % what)
                raise PathEnd()
            if not overlap and dst.rid == src.rid and not (so + c <= do or do + c <= so) and so != do:
                self.require(st, FALSE, '%s: memcpy regions do not overlap' % what)
            items = [(o - so, v) for o, v in rs.fields.items() if isint(o) and so <= o and o + v[0] <= so + c]
            for o, v in rs.fields.items():
                if isint(o) and o < so + c and o + v[0] > so and not (so <= o and o + v[0] <= so + c):
                    raise Unsupported('memcpy cuts a field')
            egh = [(o, v) for o, v in rs.fields.items() if isinstance(o, tuple) and so <= o[0] < so + c]
            if egh:
                raise Unsupported('memcpy of opaque elements')
            rd = st.mut(rd.rid)
            for o in list(rd.fields):
                if isint(o) and o < do + c and do < o + rd.fields[o][0]:
                    if not (do <= o and o + rd.fields[o][0] <= do + c):
                        raise Unsupported('memcpy cuts a field')
                    del rd.fields[o]
            for o, v in items:
                rd.fields[do + o] = v
            return
        if rd.kind == 'array' and rs.kind == 'array':
            s = rs.stride
            if rd.stride is None:
                rd = st.mut(rd.rid); rd.stride = s
            if rd.stride != s:
                raise Unsupported('memcpy between different strides')
            try:
                cnt, rem = split(n, s)
            except Unsupported:
                raise
            di, dr = split(dst.off, s)
            si, sr = split(src.off, s)
            if rem or dr or sr:
                raise Unsupported('memcpy of partial elements')
            self.require(st, zi(cnt) >= 0, '%s: size not negative' % what)
            self.require(st, z3.Or(zi(cnt) == 0, z3.And(zi(si) >= 0, zi(si) + zi(cnt) <= zi(rs.count))), '%s: source range in bounds of %s' % (what, rs.name))
            self.require(st, z3.Or(zi(cnt) == 0, z3.And(zi(di) >= 0, zi(di) + zi(cnt) <= zi(rd.count))), '%s: destination range in bounds of %s' % (what, rd.name))
            if not overlap and rd.rid == rs.rid:
                self.require(st, z3.Or(zi(cnt) == 0, zi(si) + zi(cnt) <= zi(di), zi(di) + zi(cnt) <= zi(si)), '%s: ranges do not overlap' % what)
            rd = st.mut(rd.rid)
            rs = st.regions[rs.rid]
            hi = norm(zi(di) + zi(cnt))
            for (lo_, tag), ln in list(rs.lanes.items()):
                if tag in ('v', 'live'):
                    raise Unsupported('memcpy of opaque elements')
            for (o, tag), ln in list(rs.lanes.items()):
                d = rd.lanes.get((o, tag))
                if d is None:
                    if tag == 'raw':
                        f = z3.Function('garb!%d!%d' % (rd.rid, o), INT, ln(I(0)).sort())
                        d = base_lane(lambda k, f=f: f(k), ln.size)
                        if (o, 'init') not in rd.lanes:
                            rd.lanes[(o, 'init')] = base_lane(lambda k: FALSE)
                    elif tag == 'init':
                        d = base_lane(lambda k: FALSE)
                    else:
                        raise Unsupported('lane tag')
                rd.lanes[(o, tag)] = d.range(di, hi, lambda k, ln=ln: ln(norm(zi(k) - di + si)))
            for (o, tag) in list(rd.lanes):
                if (o, tag) not in rs.lanes:
                    if tag == 'init':
                        rd.lanes[(o, tag)] = rd.lanes[(o, tag)].range(di, hi, lambda k: TRUE)
                    else:
                        raise Unsupported('lane mismatch in memcpy')
            if not rs.lanes:
                raise Unsupported('memcpy from untyped region')
            return
        # element <-> struct scalar (one element)
        if c is not None:
            arr, sc = (dst, src) if rd.kind == 'array' else (src, dst)
            ra = st.regions[arr.rid]
            if ra.stride is None:
                ra = st.mut(ra.rid); ra.stride = c
            if c % ra.stride == 0:
                for e in range(c // ra.stride):
                    for o in range(0, ra.stride, 8 if ra.stride % 8 == 0 else ra.stride):
                        w = min(8, ra.stride) if ra.stride % 8 == 0 else ra.stride
                        t = ('int', 8 * w)
                        b = e * ra.stride + o
                        v = self.load(st, t, self.offset(src, b), what)
                        self.store(st, t, v, self.offset(dst, b), what)
                return
        raise Unsupported('memcpy %s -> %s' % (rs.kind, rd.kind))

    def memset(self, st, dst, val, n, what):
        c = const_of(n)
        if c == 0:
            return
        if isinstance(dst, Ptr) and dst.rid is None:
            self.require(st, zi(n) == 0, '%s: null pointer only with size 0' % what)
            return
        r, _ = self.resolve(st, dst, what, 1)
        b = const_of(val)
        if b is None:
            raise Unsupported('memset with symbolic byte')
        if r.kind == 'struct':
            if c is None:
                raise Unsupported('memset')
            if dst.off + c > r.size:
                self.require(st, FALSE, '%s: in bounds' % what); raise PathEnd()
            r = st.mut(r.rid)
            for o in list(r.fields):
                if isint(o) and o < dst.off + c and dst.off < o + r.fields[o][0]:
                    del r.fields[o]
            o = dst.off
            while o < dst.off + c:
                w = 8 if o % 8 == 0 and o + 8 <= dst.off + c else 1
                v = int.from_bytes(bytes([b & 255]) * w, 'little')
                r.fields[o] = (w, NULL if (b == 0 and w == 8) else self.dom.const(8 * w, v))
                o += w
            return
        s = r.stride
        cnt, rem = split(n, s)
        di, dr = split(dst.off, s)
        if rem or dr:
            raise Unsupported('memset of partial elements')
        self.require(st, z3.And(zi(cnt) >= 0, zi(di) >= 0, zi(di) + zi(cnt) <= zi(r.count)), '%s: range in bounds of %s' % (what, r.name))
        r = st.mut(r.rid)
        v = self.dom.const(8 * s, int.from_bytes(bytes([b & 255]) * s, 'little'))
        hi = norm(zi(di) + zi(cnt))
        ln = r.lanes.get((0, 'raw'))
        if ln is None:
            f = z3.Function('garb!%d!0' % r.rid, INT, v.sort())
            ln = base_lane(lambda k: f(k), s)
            r.lanes[(0, 'init')] = base_lane(lambda k: FALSE)
        r.lanes[(0, 'raw')] = ln.range(di, hi, lambda k: v)
        if (0, 'init') in r.lanes:
            r.lanes[(0, 'init')] = r.lanes[(0, 'init')].range(di, hi, lambda k: TRUE)

    # ---------------------------------------------------------- opaque elements
    def elem(self, st, p, what, size=8):
        r, loc = self.resolve(st, p, what, 1)
        return r, loc
    def elem_get(self, st, r, loc, tag):
        r = st.regions[r.rid]
        if loc[0] == 's':
            f = r.fields.get((loc[1], tag))
            if f is None:
                return FALSE if tag == 'live' else z3.Const('garbE!%d!%d' % (r.rid, loc[1]), INT)
            return f[1]
        ln = r.lanes.get((loc[2], tag))
        if ln is None:
            if tag == 'live':
                return FALSE
            return z3.Function('garbE!%d!%d' % (r.rid, loc[2]), INT, INT)(zi(loc[1]))
        return ln(loc[1])
    def elem_set(self, st, r, loc, tag, v):
        if 'ro' in r.meta:
            self.require(st, FALSE, 'frame: write to %s' % r.name)
            raise PathEnd()
        r = st.mut(r.rid)
        if loc[0] == 's':
            r.fields[(loc[1], tag)] = (1, v)
            return
        ln = r.lanes.get((loc[2], tag))
        if ln is None:
            if tag == 'live':
                ln = base_lane(lambda k: FALSE)
            else:
                g = z3.Function('garbE!%d!%d' % (r.rid, loc[2]), INT, INT)
                ln = base_lane(lambda k: g(zi(k)))
        r.lanes[(loc[2], tag)] = ln.write(loc[1], v)

    # ---------------------------------------------------------- execution
    def val(self, st, env, t, v):
        if v[0] == 'local':
            x = env[v[1]]
            return x
        return self.const(st, t, v)

    def call_function(self, st, name, args, rt=None):
        """-> list of Outcome.  contract > extern model > inlined body"""
        d = self.dem.get(name, name)
        c = self.contracts.get(name) or self.contracts.get(d)
        if c is not None:
            r = c(self, st, args)
            if r is not None:
                self.applied.add(d)
                return r
        x = self.externs.get(name) or self.externs.get(d)
        if x is not None:
            r = x(self, st, args)
            if r is not None:
                self.trusted.add(d)
                return r
        f = self.m.funcs.get(name)
        if f is None:
            r = self.intrinsic(st, name, args, rt)
            if r is not None:
                return r
            raise Unsupported('call to external function %s' % d)
        self.inlined.add(d)
        return self.run_function(st, f, args)

    def run_function(self, st, f, args):
        f.ensure()
        self.depth += 1
        if self.depth > self.maxdepth:
            self.depth -= 1
            raise Unsupported('call depth (recursion?) in %s' % self.dem.get(f.name, f.name))
        try:
            env = {}
            for (t, n, sret), a in zip(f.params, args):
                env[n] = a
            env['%locals'] = ()
            outs, exits, backs = self.run(f, [(st, f.order[0], None, 0, env)], None)
            # stack slots of this frame die
            res = []
            for o in outs:
                for rid in o_env_locals(o):
                    o.st.mut(rid).alive = False
                res.append(o)
            return res
        finally:
            self.depth -= 1

    def run(self, f, items, loop):
        """explore; items = (st, block, prev, index, env). -> (outcomes, exits, backs)"""
        outs = []; exits = []; backs = []
        work = list(items)
        while work:
            st, b, prev, ix, env = work.pop()
            if ix == 0 and prev is not None:
                if loop is not None:
                    H, body = loop
                    if b == H:
                        backs.append((st, prev, env)); continue
                    if b not in body:
                        exits.append((st, b, prev, env)); continue
                if b in f.loops and prev not in f.loops[b]:
                    from . import loops
                    o2, e2 = loops.summarise(self, f, b, st, env, prev)
                    outs.extend(o2)
                    for (s2, b2, p2, env2) in e2:
                        work.append((s2, b2, p2, 0, env2))
                    continue
                if b in f.loops and prev in f.loops[b] and loop is None:
                    raise Unsupported('irreducible loop')
                env = self.do_phis(st, f, b, prev, env)
                ix = self.nphis(f, b)
            elif ix == 0 and prev is None and b in f.loops and loop is None:
                raise Unsupported('loop at function entry')
            self.step_block(f, st, b, ix, env, work, outs)
        return outs, exits, backs

    def nphis(self, f, b):
        n = 0
        for ins in f.blocks[b]:
            if ins.op != 'phi':
                break
            n += 1
        return n

    def do_phis(self, st, f, b, prev, env):
        env = dict(env)
        vals = {}
        for ins in f.blocks[b]:
            if ins.op != 'phi':
                break
            for v, l in ins.a['inc']:
                if l == prev:
                    vals[ins.res] = self.val(st, env, ins.a['t'], v)
                    break
            else:
                if prev == '%entry':
                    # unnamed entry label
                    known = set(f.blocks)
                    c = [v for v, l in ins.a['inc'] if l not in known]
                    if len(c) == 1:
                        vals[ins.res] = self.val(st, env, ins.a['t'], c[0]); continue
                raise Unsupported('phi')
        env.update(vals)
        return env

    def truth(self, x):
        if z3.is_bool(x):
            return x
        return x != 0

    def step_block(self, f, st, b, ix, env, work, outs):
        instrs = f.blocks[b]
        dn = self.dem.get(f.name, f.name)
        try:
            while True:
                ins = instrs[ix]
                op = ins.op
                a = ins.a
                self.steps += 1
                if op == 'br':
                    if a['c'] is None:
                        work.append((st, a['d'][0], b, 0, env)); return
                    c = self.val(st, env, ('int', 1), a['c'])
                    if c is UNDEF:
                        self.require(st, FALSE, '%s: branch on uninitialised value' % short(dn)); return
                    if not z3.is_expr(self.truth(c)): raise Unsupported('branch on a value that is not an integer')
                    c = z3.simplify(self.truth(c))
                    if z3.is_true(c):
                        work.append((st, a['d'][0], b, 0, env)); return
                    if z3.is_false(c):
                        work.append((st, a['d'][1], b, 0, env)); return
                    nc = z3.simplify(z3.Not(c))
                    f1 = self.feasible(st, c)
                    f2 = self.feasible(st, nc) if f1 else True
                    if f1 and f2:
                        s2 = st.copy(); s2.add(nc); s2.trail = s2.trail + ('%s:%s' % (short(dn), a['d'][1]),)
                        work.append((s2, a['d'][1], b, 0, dict(env)))
                        st.add(c); st.trail = st.trail + ('%s:%s' % (short(dn), a['d'][0]),)
                        work.append((st, a['d'][0], b, 0, env))
                    elif f1:
                        st.add(c); work.append((st, a['d'][0], b, 0, env))
                    else:
                        st.add(nc); work.append((st, a['d'][1], b, 0, env))
                    return
                if op == 'switch':
                    v = self.val(st, env, a['t'], a['v'])
                    w = a['t'][1]
                    rest = []
                    for cv, l in a['cases']:
                        c = z3.simplify(v == self.dom.const(w, cv)) if w > 1 else z3.simplify(v if cv else z3.Not(v))
                        rest.append(z3.Not(c))
                        if self.feasible(st, c):
                            s2 = st.copy(); s2.add(c); s2.trail = s2.trail + ('%s:case %d' % (short(dn), cv),)
                            work.append((s2, l, b, 0, dict(env)))
                    c = z3.And(*rest) if rest else TRUE
                    if self.feasible(st, c):
                        st.add(z3.simplify(c)); work.append((st, a['default'], b, 0, env))
                    return
                if op == 'ret':
                    v = None
                    if a['v'] is not None:
                        v = self.val(st, env, *a['v'])
                    o = Outcome(st, 'ret', v)
                    outs.append(o)
                    self.kill_locals(st, env)
                    self.paths += 1
                    return
                if op == 'unreachable':
                    self.require(st, FALSE, '%s: unreachable code is not reached' % short(dn))
                    return
                if op == 'resume':
                    outs.append(Outcome(st, 'throw', env['%exn']))
                    self.kill_locals(st, env)
                    self.paths += 1
                    return
                if op == 'call' or op == 'invoke':
                    res = self.do_call(f, st, env, ins)
                    first = True
                    for o in res:
                        e = env if len(res) == 1 else dict(env)
                        if o.kind == 'ret':
                            if ins.res is not None:
                                e[ins.res] = o.val
                            if op == 'call':
                                work.append((o.st, b, None, ix + 1, e))
                            else:
                                work.append((o.st, a['normal'], b, 0, e))
                        else:
                            if op == 'call':
                                outs.append(Outcome(o.st, 'throw', o.val))
                                self.kill_locals(o.st, e)
                                self.paths += 1
                            else:
                                e = dict(e)
                                e['%exn'] = o.val
                                work.append((o.st, a['unwind'], b, 0, e))
                    return
                if op == 'select':
                    c = z3.simplify(self.truth(self.val(st, env, *a['c'])))
                    x = self.val(st, env, *a['x']); y = self.val(st, env, *a['y'])
                    if z3.is_true(c):
                        env[ins.res] = x
                    elif z3.is_false(c):
                        env[ins.res] = y
                    elif z3.is_expr(x) and z3.is_expr(y):
                        env[ins.res] = z3.If(c, x, y)
                    else:
                        for cc, vv in ((c, x), (z3.simplify(z3.Not(c)), y)):
                            if self.feasible(st, cc):
                                s2 = st.copy(); s2.add(cc)
                                e2 = dict(env); e2[ins.res] = vv
                                work.append((s2, b, None, ix + 1, e2))
                        return
                    ix += 1
                    continue
                self.exec(f, st, env, ins, dn)
                ix += 1
        except PathEnd:
            return

    def kill_locals(self, st, env):
        for rid in env['%locals']:
            if rid in st.regions:
                st.mut(rid).alive = False

    def exec(self, f, st, env, ins, dn):
        op = ins.op; a = ins.a
        if op == 'getelementptr':
            base = self.val(st, env, *a['base'])
            env[ins.res] = self.gep(st, a['bt'], base, [(t, self.val(st, env, t, v)) for t, v in a['idx']])
        elif op == 'load':
            env[ins.res] = self.load(st, a['t'], self.val(st, env, ('ptr',), a['p']), short(dn))
        elif op == 'store':
            self.store(st, a['t'], self.val(st, env, a['t'], a['v']), self.val(st, env, ('ptr',), a['p']), short(dn))
        elif op == 'icmp':
            env[ins.res] = self.icmp(st, a['pred'], a['t'], self.val(st, env, a['t'], a['x']), self.val(st, env, a['t'], a['y']))
        elif op == 'bin':
            env[ins.res] = self.binop(st, a['bop'], a['t'], self.val(st, env, a['t'], a['x']), self.val(st, env, a['t'], a['y']), a['fl'], dn)
        elif op == 'cast':
            env[ins.res] = self.cast(st, a['cop'], a['t'], self.val(st, env, a['t'], a['x']), a['to'])
        elif op == 'alloca':
            r = self.new_struct(st, '%' + str(ins.res), self.lay.size(a['t']), heap='stack')
            n = const_of(self.val(st, env, *a['n'])) if a['n'] else 1
            if n is None:
                raise Unsupported('vla')
            r.size *= n
            at = self.lay.resolve(a['t'])
            if at[0] == 'arr' and self.opts.get('array_allocas') and at[2][0] == 'int':
                r.kind = 'array'; r.stride = self.lay.size(at[2]); r.count = I(at[1]); r.size = None
            elif a['t'][0] == 'named' and str(a['t'][1]).lstrip('%') in ('struct.E', 'struct.F') and n == 1 and not self.opts.get('elem_structs'):
                r.kind = 'array'; r.stride = 8; r.count = I(1); r.size = None
            env['%locals'] = env['%locals'] + (r.rid,)
            env[ins.res] = Ptr(r.rid, 0)
        elif op == 'phi':
            raise Unsupported('phi position')
        elif op == 'extractvalue':
            v = self.val(st, env, *a['v'])
            for i in a['ix']:
                v = v.v[i]
            env[ins.res] = v
        elif op == 'insertvalue':
            v = self.val(st, env, *a['v'])
            e = self.val(st, env, *a['e'])
            env[ins.res] = self.insertval(v, a['ix'], e)
        elif op == 'landingpad':
            sel = self.landing(st, env, ins)
            env[ins.res] = Agg([env['%exn'], sel])
        elif op == 'atomicrmw':
            p = self.val(st, env, ('ptr',), a['p'])
            v = self.val(st, env, a['t'], a['v'])
            r, loc = self.resolve(st, p, short(dn), self.lay.size(a['t']))
            if 'rc' in r.meta and loc == ('s', r.meta['rc'][0]):
                env[ins.res] = self.rc_step(st, r, a['rop'], v)
                return
            h = self.opts.get('atomicrmw')
            if h is not None:
                x = h(self, st, r, loc, a['rop'], v, p)
                if x is not None:
                    env[ins.res] = x
                    return
            old = self.load(st, a['t'], p, short(dn))
            new = {'add': lambda: old + v, 'sub': lambda: old - v, 'xchg': lambda: v}[a['rop']]()
            self.store(st, a['t'], new, p, short(dn))
            env[ins.res] = old
        elif op == 'cmpxchg':
            raise Unsupported('cmpxchg')
        elif op == 'fence':
            pass
        elif op == 'fcmp':
            x = self.val(st, env, a['t'], a['x']); y = self.val(st, env, a['t'], a['y'])
            env[ins.res] = self.fcmp(a['pred'], x, y)
        elif op == 'fneg':
            env[ins.res] = -self.val(st, env, a['t'], a['x'])
        else:
            raise Unsupported('instruction %s' % op)

    def fcmp(self, p, x, y):
        un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
        base = {'eq': z3.fpEQ(x, y), 'gt': z3.fpGT(x, y), 'ge': z3.fpGEQ(x, y), 'lt': z3.fpLT(x, y), 'le': z3.fpLEQ(x, y), 'ne': z3.And(z3.Not(un), z3.Not(z3.fpEQ(x, y)))}
        if p == 'ord':
            return z3.Not(un)
        if p == 'uno':
            return un
        if p[0] == 'o':
            return base[p[1:]]
        return z3.Or(un, base[p[1:]])

    def landing(self, st, env, ins):
        ex = env['%exn']
        for i, (k, v) in enumerate(ins.a['clauses']):
            if k == 'catch':
                tn = v[1] if v[0] == 'global' else None
                if tn is None or exn_matches(self, ex, tn):
                    env['%sel'] = i + 1
                    return self.dom.const(32, hash_tid(tn))
        return self.dom.const(32, 0)

    def insertval(self, v, ix, e):
        if not ix:
            return e
        lst = list(v.v) if isinstance(v, Agg) else [UNDEF] * (ix[0] + 1)
        while len(lst) <= ix[0]:
            lst.append(UNDEF)
        lst[ix[0]] = self.insertval(lst[ix[0]], ix[1:], e)
        return Agg(lst)

    # ---------------------------------------------------------- arithmetic
    def icmp(self, st, pr, t, x, y):
        if x is UNDEF or y is UNDEF:
            raise Unsupported('comparison with uninitialised value')
        if t[0] == 'ptr':
            return self.pcmp(st, pr, x, y)
        w = t[1]
        if w == 1:
            if pr == 'eq':
                return x == y
            if pr == 'ne':
                return x != y
            x = z3.If(x, self.dom.const(8, 1), self.dom.const(8, 0))
            y = z3.If(y, self.dom.const(8, 1), self.dom.const(8, 0))
            w = 8
        if z3.is_bool(x) and not z3.is_bool(y):
            x = z3.If(x, self.dom.const(w, 1), self.dom.const(w, 0))
        if z3.is_bool(y) and not z3.is_bool(x):
            y = z3.If(y, self.dom.const(w, 1), self.dom.const(w, 0))
        if pr == 'eq':
            return x == y
        if pr == 'ne':
            return x != y
        if self.dom.name == 'bv':
            return {'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y,
                    'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y)}[pr]()
        if pr[0] == 'u':
            x = self.dom.uns(w, x); y = self.dom.uns(w, y)
        return {'lt': lambda: x < y, 'le': lambda: x <= y, 'gt': lambda: x > y, 'ge': lambda: x >= y}[pr[1:]]()

    def pcmp(self, st, pr, x, y):
        def isnull(p):
            return isinstance(p, Ptr) and p.rid is None and isint(p.off) and p.off == 0
        if isinstance(x, FnPtr) or isinstance(y, FnPtr):
            if isinstance(x, FnPtr) and isinstance(y, FnPtr):
                r = z3.BoolVal(x.name == y.name)
            else:
                r = FALSE
            return r if pr == 'eq' else z3.Not(r)
        if pr in ('eq', 'ne'):
            if isnull(x) and isnull(y):
                r = TRUE
            elif isnull(x) or isnull(y):
                p = y if isnull(x) else x
                r = p.null if isinstance(p, Ptr) and p.rid is not None else (self.addr(st, p) == 0)
            elif isinstance(x, Ptr) and isinstance(y, Ptr) and x.rid == y.rid and x.rid is not None:
                r = z3.Or(z3.And(x.null, y.null), z3.And(z3.Not(x.null), z3.Not(y.null), zi(x.off) == zi(y.off)))
            elif isinstance(x, Ptr) and isinstance(y, Ptr) and x.rid is not None and y.rid is not None:
                # distinct live objects have distinct addresses (one-past-the-end pointers of the code base are never compared across objects)
                r = z3.And(x.null, y.null)
            else:
                r = self.addr(st, x) == self.addr(st, y)
            r = z3.simplify(r)
            return r if pr == 'eq' else z3.simplify(z3.Not(r))
        if isinstance(x, Ptr) and isinstance(y, Ptr) and x.rid == y.rid:
            a, b = zi(x.off), zi(y.off)
        else:
            a, b = self.addr(st, x), self.addr(st, y)
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.rid is not None and y.rid is not None:
                rx, ry = st.regions[x.rid], st.regions[y.rid]
                if rx.alive and ry.alive:
                    # distinct live objects occupy disjoint address ranges
                    bx, by = z3.Int('base!%d' % x.rid), z3.Int('base!%d' % y.rid)
                    sx = zi(rx.size) if rx.kind == 'struct' else zi(rx.count) * rx.stride
                    sy = zi(ry.size) if ry.kind == 'struct' else zi(ry.count) * ry.stride
                    st.add(z3.Or(bx + sx <= by, by + sy <= bx))
        return {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[pr[1:]]()

    def binop(self, st, op, t, x, y, fl, dn):
        if x is UNDEF or y is UNDEF:
            raise Unsupported('arithmetic on uninitialised value')
        if t[0] in ('double', 'float'):
            rm = z3.RNE()
            return {'fadd': lambda: z3.fpAdd(rm, x, y), 'fsub': lambda: z3.fpSub(rm, x, y), 'fmul': lambda: z3.fpMul(rm, x, y), 'fdiv': lambda: z3.fpDiv(rm, x, y)}[op]()
        w = t[1]
        if w == 1:
            return {'and': lambda: z3.And(x, y), 'or': lambda: z3.Or(x, y), 'xor': lambda: z3.Xor(x, y)}[op]()
        if z3.is_bool(x):
            x = z3.If(x, self.dom.const(w, 1), self.dom.const(w, 0))
        if z3.is_bool(y):
            y = z3.If(y, self.dom.const(w, 1), self.dom.const(w, 0))
        if self.dom.name == 'bv':
            return self.bvop(st, op, w, x, y, fl, dn)
        D = self.dom
        cx, cy = const_of(x), const_of(y)
        if op in ('add', 'sub', 'mul'):
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            n = norm(r)
            r = I(n) if isint(n) else n
            if 'nsw' in fl:
                if self.opts.get('overflow', True) and (op != 'mul' or cx is not None or cy is not None):
                    self.require(st, D.range(w, r), '%s: no signed overflow in %s' % (short(dn), op))
                return r
            if self.valid(st, D.range(w, r)):
                return r
            return D.wrap(w, r)
        if op in ('sdiv', 'srem'):
            self.require(st, y != 0, '%s: division by non-zero' % short(dn))
            if cy is not None and cy > 0:
                if self.valid(st, x >= 0):
                    return x / y if op == 'sdiv' else x % y
                q = z3.If(x >= 0, x / y, -((-x) / y))
                return q if op == 'sdiv' else x - y * q
            if self.valid(st, z3.And(x >= 0, y > 0)):
                return x / y if op == 'sdiv' else x % y
            ax = z3.If(x >= 0, x, -x); ay = z3.If(y >= 0, y, -y)
            q = ax / ay
            q = z3.If((x >= 0) == (y >= 0), q, -q)
            return q if op == 'sdiv' else x - y * q
        if op in ('udiv', 'urem'):
            self.require(st, y != 0, '%s: division by non-zero' % short(dn))
            ux, uy = D.uns(w, x), D.uns(w, y)
            return D.wrap(w, ux / uy if op == 'udiv' else ux % uy)
        if op == 'shl' and cy is not None:
            r = x * (1 << cy)
            if 'nsw' in fl:
                self.require(st, D.range(w, r), '%s: no overflow in shl' % short(dn))
                return r
            return D.wrap(w, r)
        if op == 'lshr' and cy is not None:
            return D.wrap(w, D.uns(w, x) / (1 << cy))
        if op == 'ashr' and cy is not None:
            return x / (1 << cy)
        if op == 'and':
            for c, o in ((cy, x), (cx, y)):
                if c is not None and c >= 0 and (c & (c + 1)) == 0:
                    return o % (c + 1)
                if c is not None:
                    r = self.bitand_const(w, o, c)
                    if r is not None:
                        return r
        if op == 'xor' and cy == -1:
            return -x - 1
        if cx is not None and cy is not None:
            r = {'and': cx & cy, 'or': cx | cy, 'xor': cx ^ cy}.get(op)
            if r is not None:
                return D.const(w, r)
        bit = lambda e: self.valid(st, z3.And(e >= 0, e <= 1))
        if op in ('and', 'or', 'xor') and bit(x) and bit(y):
            b = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](x != 0, y != 0)
            return z3.If(b, D.const(w, 1), D.const(w, 0))
        f = z3.Function('bv_%s_%d' % (op, w), INT, INT, INT)
        self.abstracted = True
        return f(x, y)

    def bitand_const(self, w, x, c):
        # contiguous mask of ones c = ((1<<n)-1)<<s
        if c <= 0:
            return None
        s = (c & -c).bit_length() - 1
        n = c >> s
        if n & (n + 1):
            return None
        return ((x / (1 << s)) % (n + 1)) * (1 << s)

    def bvop(self, st, op, w, x, y, fl, dn):
        if op in ('add', 'sub', 'mul') and 'nsw' in fl and self.opts.get('overflow', True):
            if op == 'add':
                g = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
            elif op == 'sub':
                g = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
            else:
                g = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
            self.require(st, g, '%s: no signed overflow in %s' % (short(dn), op))
        if op in ('sdiv', 'udiv', 'srem', 'urem'):
            self.require(st, y != 0, '%s: division by non-zero' % short(dn))
        if op in ('shl', 'lshr', 'ashr'):
            self.require(st, z3.ULT(y, w), '%s: shift amount in range' % short(dn))
        return z3.simplify({'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'sdiv': lambda: x / y, 'udiv': lambda: z3.UDiv(x, y),
                'srem': lambda: z3.SRem(x, y), 'urem': lambda: z3.URem(x, y), 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y,
                'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y}[op]())

    def cast(self, st, op, t, x, to):
        if x is UNDEF:
            return UNDEF
        if op == 'bitcast':
            if t[0] == to[0]:
                return x
            raise Unsupported('bitcast')
        if op == 'ptrtoint':
            if self.dom.name == 'bv':
                raise Unsupported('ptrtoint in bv mode')
            return PInt(self, st, x)
        if op == 'inttoptr':
            return AddrPtr(x)
        if op in ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc'):
            raise Unsupported(op)
        w, v = t[1], to[1]
        if self.dom.name == 'bv':
            if w == 1:
                one, zero = z3.BitVecVal(1, v), z3.BitVecVal(0, v)
                if op == 'sext':
                    one = z3.BitVecVal(-1, v)
                return z3.simplify(z3.If(self.truth(x), one, zero))
            if z3.is_bool(x):
                x = z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            if op == 'zext':
                return z3.simplify(z3.ZeroExt(v - w, x))
            if op == 'sext':
                return z3.simplify(z3.SignExt(v - w, x))
            if v == 1:
                return z3.simplify(z3.Extract(0, 0, x) == 1)
            return z3.simplify(z3.Extract(v - 1, 0, x))
        if w == 1:
            x = self.truth(x)
            return z3.If(x, I(1 if op == 'zext' else -1), I(0))
        if z3.is_bool(x):
            if op == 'trunc' and v == 1:
                return x
            return z3.If(x, I(1), I(0))
        if op == 'sext':
            return x
        if op == 'zext':
            return self.dom.uns(w, x) if not self.valid(st, x >= 0) else x
        if op == 'trunc':
            if v == 1:
                if z3.is_app_of(x, z3.Z3_OP_ITE) and const_of(x.arg(1)) == 1 and const_of(x.arg(2)) == 0:
                    return x.arg(0)
                c = const_of(x)
                if c is not None:
                    return z3.BoolVal(bool(c & 1))
                return x % 2 == 1
            if self.valid(st, self.dom.range(v, x)):
                return x
            return self.dom.wrap(v, x)
        raise Unsupported(op)

    # ---------------------------------------------------------- calls
    def do_call(self, f, st, env, ins):
        a = ins.a
        callee = a['callee']
        if callee[0] == 'global':
            name = callee[1]
        else:
            fp = self.val(st, env, ('ptr',), callee)
            if isinstance(fp, AddrPtr) and z3.is_const(fp.addr) and fp.addr.decl().name().startswith('addr!'):
                n = fp.addr.decl().name()[5:]
                if n in self.m.funcs or n in self.m.decls:
                    fp = FnPtr(n)
            if not isinstance(fp, FnPtr):
                h = self.opts.get('indirect')
                if h is not None:
                    return h(self, st, fp, [self.val(st, env, t, v) for t, v in a['args'] if t[0] != 'metadata'])
                raise Unsupported('indirect call through %r' % (fp,))
            name = fp.name
        if not isinstance(name, str):
            return None
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.invariant') or name.startswith('llvm.experimental.noalias'):
            return [Outcome(st, 'ret', None)]
        args = [self.val(st, env, t, v) for t, v in a['args']]
        st.ghost['%env'] = env
        return self.call_function(st, name, args, a['rt'])

    def intrinsic(self, st, name, args, rt):
        R = lambda v=None: [Outcome(st, 'ret', v)]
        if name.startswith('llvm.memcpy') or name == 'memcpy':
            self.memcpy(st, args[0], args[1], self.idx(args[2]), 'memcpy')
            return R(args[0])
        if name.startswith('llvm.memmove') or name == 'memmove':
            self.memcpy(st, args[0], args[1], self.idx(args[2]), 'memmove', True)
            return R(args[0])
        if name.startswith('llvm.memset') or name == 'memset':
            self.memset(st, args[0], args[1], args[2] if not z3.is_bv(args[2]) else I(const_of(args[2])), 'memset')
            return R(args[0])
        if name.startswith('llvm.umul.with.overflow'):
            if self.dom.name == 'bv':
                raise Unsupported('umul overflow in bv mode')
            x, y = args[0], args[1]
            c = const_of(x)
            r = norm(x * y)
            r = I(r) if isint(r) else r
            if self.valid(st, z3.And(x >= 0, y >= 0, r < (1 << 63))):
                return R(Agg([r, FALSE]))
            self.require(st, z3.And(x >= 0, y >= 0, r < (1 << 63)), 'allocation size does not overflow')
            return R(Agg([r, FALSE]))
        if name.startswith('llvm.uadd.with.overflow'):
            x, y = args[0], args[1]
            r = norm(x + y)
            r = I(r) if isint(r) else r
            self.require(st, z3.And(x >= 0, y >= 0, r < (1 << 63)), 'allocation size does not overflow')
            return R(Agg([r, FALSE]))
        if name.startswith('llvm.eh.typeid.for'):
            p = args[0]
            n = None
            if isinstance(p, Ptr) and p.rid in st.regions:
                n = st.regions[p.rid].meta.get('global')
            return R(self.dom.const(32, hash_tid(n)))
        if name in ('llvm.trap', 'abort', '_ZSt9terminatev', '__clang_call_terminate'):
            self.require(st, FALSE, 'no abnormal termination (%s)' % name)
            return []
        if name.startswith('llvm.smax') or name.startswith('llvm.smin') or name.startswith('llvm.umax') or name.startswith('llvm.umin'):
            x, y = args
            if name[5] == 'u':
                raise Unsupported(name)
            g = x >= y if 'max' in name else x <= y
            return R(z3.If(g, x, y))
        if name.startswith('llvm.expect') or name.startswith('llvm.launder') or name.startswith('llvm.strip.invariant'):
            return R(args[0])
        if name.startswith('llvm.assume'):
            return R()
        if name.startswith('llvm.threadlocal.address'):
            return R(args[0])
        if name.startswith('llvm.is.constant'):
            return R(FALSE)
        if name == '__cxa_allocate_exception':
            r = self.new_struct(st, 'exception', const_of(args[0]), heap='exn')
            return R(Ptr(r.rid, 0))
        if name == '__cxa_free_exception':
            return R()
        if name == '__cxa_throw':
            tn = st.regions[args[1].rid].meta.get('global') if isinstance(args[1], Ptr) else None
            return [Outcome(st, 'throw', ExnVal(tn, args[0]))]
        if name == '__cxa_begin_catch':
            x = args[0]
            st.ghost['%caught'] = st.ghost.get('%caught', ()) + (x,)
            return R(x.ptr if isinstance(x, ExnVal) else x)
        if name == '__cxa_end_catch':
            g = st.ghost.pop('%caught', ())[:-1]
            if g:
                st.ghost['%caught'] = g
            return R()
        if name == '__cxa_rethrow':
            g = st.ghost.get('%caught', ())
            if not g or not isinstance(g[-1], ExnVal):
                raise Unsupported('rethrow')
            return [Outcome(st, 'throw', g[-1])]
        if name in ('malloc', '_Znwm', '_Znam', '_ZnwmRKSt9nothrow_t'):
            p = self.allocate(st, args[0], {'malloc': 'malloc', '_Znam': 'new[]'}.get(name, 'new'))
            return R(p)
        if name in ('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm'):
            self.release(st, args[0], 'malloc' if name == 'free' else 'new[]' if name.startswith('_ZdaPv') else 'new')
            return R()
        if name == '__cxa_pure_virtual':
            self.require(st, FALSE, 'no pure virtual call')
            return []
        return None

    def allocate(self, st, size, how):
        c = const_of(size)
        if 'alloc_hook' in self.opts:
            h = self.opts['alloc_hook'](self, st, size, how)
            if h is not None:
                return h
        if c is not None and self.opts.get('alloc_struct', True) and not (self.opts.get('alloc_const_array') and how != 'new'):
            r = self.new_struct(st, 'heap object', c, heap=how)
            st.ghost['heap'] = st.ghost.get('heap', ()) + (r.rid,)
            return Ptr(r.rid, 0)
        k, d = lin(size)
        g = abs(k)
        for t, m in d.values():
            g = math.gcd(g, m)
        g = self.opts.get('stride') or math.gcd(g, 1 << 20)
        cnt, rem = split(size, g)
        if rem:
            raise Unsupported('allocation size')
        self.require(st, zi(cnt) >= 0, 'allocation size not negative')
        r = self.new_array(st, 'heap buffer', g, cnt, heap=how)
        st.ghost['heap'] = st.ghost.get('heap', ()) + (r.rid,)
        st.add(z3.Int('base!%d' % r.rid) > 0)
        return Ptr(r.rid, 0)

    def release(self, st, p, how):
        if isinstance(p, AddrPtr):
            raise Unsupported('release of unknown pointer')
        if p.rid is None:
            return
        if not z3.is_false(p.null):
            if self.valid(st, p.null):
                return
            self.require(st, z3.Not(p.null), 'release: pointer not null on this path')
        if 'release_hook' in self.opts and self.opts['release_hook'](self, st, p, how):
            return
        r = st.regions[p.rid]
        if not r.alive:
            self.require(st, FALSE, 'release: no double release (%s)' % r.name)
            raise PathEnd()
        if 'lost' in r.meta:
            self.require(st, z3.Not(r.meta['lost']), 'release: shared storage released only by the last owner (%s)' % r.name)
        if 'rc' in r.meta or 'shared' in r.meta:
            self.require(st, z3.BoolVal('lost' in r.meta), 'release: shared storage released only after giving up the last reference (%s)' % r.name)
            if 'lost' not in r.meta:
                raise PathEnd()
        ok = r.heap == how
        self.require(st, z3.BoolVal(bool(ok)), 'release: storage from matching allocator (%s of %s %s)' % (how, r.heap, r.name))
        if not ok:
            raise PathEnd()
        self.require(st, zi(p.off) == 0, 'release: pointer is the start of the allocation')
        # no live opaque element may be abandoned
        if r.kind == 'array':
            for (o, tag), ln in r.lanes.items():
                if tag == 'live':
                    self.require_forall(st, lambda k: z3.Not(ln(k)), 'release: every element was destroyed', lambda k: z3.And(k >= 0, k < zi(r.count)))
        else:
            for o, v in r.fields.items():
                if isinstance(o, tuple) and o[1] == 'live':
                    self.require(st, z3.Not(v[1]), 'release: every element was destroyed')
        st.mut(p.rid).alive = False

    def rc_step(self, st, r, rop, v):
        """one atomic step on a reference count shared with other threads (rely: others only take a
        reference while holding one and give up their own; so count >= the references held here)"""
        u = st.ghost[('units', r.rid)]
        d = const_of(v)
        if d is None or rop not in ('add', 'sub'):
            raise Unsupported('atomic step on reference count')
        if rop == 'sub':
            d = -d
        if d >= 1 << 63:
            d -= 1 << 64
        old = self.fresh(st, INT, 'rc')
        st.add(z3.And(old >= u, old < (1 << 62)))
        self.require(st, z3.BoolVal(u >= 1), 'reference count changed only while holding a reference (%s)' % r.name)
        self.require(st, z3.BoolVal(d in (1, -1)), 'reference count changes by one per reference (%s)' % r.name)
        if u < 1:
            raise PathEnd()
        st.ghost[('units', r.rid)] = u + d
        if u + d == 0:
            lost = old != 1
            for rid in (r.rid,) + tuple(r.meta['rc'][1]):
                st.mut(rid).meta['lost'] = lost
        return old

    def atomic_load(self, st, t, r, loc):
        return r.fields[loc[1]][1]
    def atomic_store(self, st, t, r, loc, v):
        st.mut(r.rid).fields[loc[1]] = (self.lay.size(t), v)

class ExnVal:
    __slots__ = ('tname', 'ptr')
    def __init__(self, tname, ptr):
        self.tname = tname; self.ptr = ptr
    def __repr__(self):
        return 'Exn(%s)' % self.tname

def PInt(eng, st, x):
    return eng.addr(st, x)

def hash_tid(n):
    if n is None:
        return 0
    import zlib
    return (zlib.crc32(n.encode()) & 0x3fffffff) + 1

def exn_matches(eng, ex, tn):
    if not isinstance(ex, ExnVal):
        return False
    return ex.tname == tn or (tn in eng.opts.get('exn_bases', {}).get(ex.tname, ()))

def o_env_locals(o):
    return ()

def short(d):
    """function name without namespaces' noise and argument list"""
    d = re.sub(r'vl::collections::|vl::|memory_management::', '', d)
    depth = 0
    for i, c in enumerate(d):
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif c == '(' and depth == 0 and i > 0 and not d.startswith('(', i) is False and not d[:i].endswith('operator'):
            return d[:i].split(' ')[-1] if depth == 0 else d[:i]
    return d
