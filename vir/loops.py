"""Loop invariants, inferred and then checked inductively.

A loop is summarised by the state at the start of its t-th iteration as a function of a ghost
counter t.  Hypotheses: affine variables p0+s*t, arbitrary variables as a trace function G(t)
with Houdini-filtered invariants, arrays as the entry content overwritten by the (affine)
writes of iterations 0..t-1, and 'no earlier iteration left the loop'.  Every hypothesis is
proved inductive from the IR; what cannot be proved is dropped or reported as Unsupported."""
import itertools, os, time
import z3
from .engine import *
from . import engine as E_

_lid = itertools.count(1)

def fnames(e, out=None, seen=None):
    st = [e]; seen = set(); out = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body()); continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            st.extend(x.children())
    return out

class Var:
    """a loop-carried scalar: SSA phi, struct field, array count or ghost field"""
    def __init__(self, key, init, kind):
        self.key = key; self.init = init; self.kind = kind   # kind: 'int','bool','fp','ptr'
        self.h = None        # ('const',) ('affine', s) ('gen', Func)
        self.demoted = False

def term_of(v):
    """scalar z3 term that varies"""
    if isinstance(v, Ptr):
        return zi(v.off)
    if isinstance(v, AddrPtr):
        return v.addr
    return v

class Summ:
    def __init__(self, eng, f, H, st0, env0, prev):
        self.eng = eng; self.f = f; self.H = H; self.body = f.loops[H]; self.st0 = st0; self.env0 = env0
        self.lid = 'L%d' % next(_lid)
        self.t = z3.Int('t!' + self.lid)
        eng.loops += 1
        self.vars = {}
        self.phis = []
        env1 = eng.do_phis(st0, f, H, prev, env0)
        for ins in f.blocks[H]:
            if ins.op != 'phi':
                break
            self.phis.append(ins.res)
            self.addvar(('phi', ins.res), env1[ins.res])
        self.lanes = {}      # (rid,key) -> list of (idx(t), val(t), guard(t)) or None while underived
        self.genlanes = {}   # (rid,key) -> function symbol
        self.C = None
        self.invs = []
        self.extra = []
        self.nfresh = st0.fc

    def addvar(self, key, init):
        if isinstance(init, Ptr):
            k = 'ptr'
        elif isinstance(init, (AddrPtr,)):
            k = 'addr'
        elif isinstance(init, (FnPtr, Agg)) or init is UNDEF:
            k = 'opaque'
        elif z3.is_int(init) or isinstance(init, int):
            k = 'int'
        elif z3.is_bool(init):
            k = 'bool'
        else:
            k = 'other'
        v = Var(key, init, k)
        if k == 'opaque':
            v.h = ('const',)
        else:
            self.setgen(v)
        self.vars[key] = v
        return v

    def setgen(self, v):
        srt = INT if v.kind in ('int', 'ptr', 'addr') else term_of(v.init).sort()
        nm = 'G!%s!%s' % ('_'.join(str(x) for x in v.key), self.lid)
        ctx = [t for _, t in self.st0.loopctx]
        f = z3.Function(nm, *([INT] * (len(ctx) + 1)), srt)
        v.h = ('gen', lambda tt: f(*ctx, tt))

    def varying(self, e):
        if isinstance(e, int):
            return False
        return any(('!' + self.lid) in n for n in fnames(e))

    def at(self, v, tt):
        """value of variable v at iteration tt"""
        if v.h[0] == 'const':
            return v.init
        if v.h[0] == 'affine':
            s = v.h[1]
            if v.kind == 'ptr':
                o = norm(zi(v.init.off) + s * tt)
                return Ptr(v.init.rid, o, self.nullat(v, o))
            if v.kind == 'addr':
                return AddrPtr(v.init.addr + s * tt)
            n = norm(zi(v.init) + s * tt)
            return I(n) if isint(n) else n
        g = v.h[1](tt)
        if v.kind == 'ptr':
            r = self.st0.regions.get(v.init.rid)
            if r is None:
                raise Unsupported('generic null pointer variable in loop')
            s = r.stride or 1
            o = norm(zi(v.init.off) + s * g)
            return Ptr(v.init.rid, o, self.nullat(v, o))
        if v.kind == 'addr':
            return AddrPtr(g)
        return g

    def nullat(self, v, o):
        """null condition of a pointer into v's region: that of the region's links where it has them, else that of v"""
        r = self.st0.regions.get(v.init.rid)
        f = r.meta.get('nullat') if r is not None else None
        return z3.simplify(f(zi(o))) if f else v.init.null

    def lane_at(self, key, tt):
        rid, lk = key
        r0 = self.st0.regions[rid]
        old = r0.lanes.get(lk) or self.default_lane(r0, lk)
        if key in self.genlanes:
            f = self.genlanes[key]
            ctx = [t for _, t in self.st0.loopctx]
            return base_lane(lambda k: f(*ctx, tt, zi(k)), old.size)
        ws = self.lanes.get(key) or []
        if not ws:
            return old
        t = self.t
        def fn(k):
            k = zi(k)
            # pick the write of the latest iteration that hit k
            cands = []
            for n, (a, b, val, guard) in enumerate(ws):
                # idx = a + b*u, b in {1,-1}: u = (k-a)/b
                u = norm(k - a) if b == 1 else norm(a - k)
                u = zi(u)
                inn = z3.And(u >= 0, u < tt)
                if guard is not None:
                    inn = z3.And(inn, z3.substitute(guard, (t, u)))
                v = z3.substitute(val, (t, u)) if z3.is_expr(val) else val
                cands.append((inn, u, v))
            res = old(k)
            # order: later (u, n) wins.  Build decision by comparing all
            # for 1 or 2 writes this is small
            order = list(range(len(cands)))
            def build(cs):
                if not cs:
                    return res
                # choose the winner among cs: try each as 'max'
                (inn, u, v), rest = cs[0][1], cs[1:]
                n0 = cs[0][0]
                if not rest:
                    return z3.If(inn, v, res)
                beats = []
                for n1, (i1, u1, v1) in rest:
                    beats.append(z3.Or(z3.Not(i1), u > u1, z3.And(u == u1, z3.BoolVal(n0 > n1))))
                return z3.If(z3.And(inn, *beats), v, build(rest))
            return z3.simplify(build(list(enumerate(cands)))) if len(cands) > 1 else build(list(enumerate(cands)))
        return base_lane(fn, old.size)

    def default_lane(self, r, lk):
        if lk[1] in ('live', 'init'):
            return base_lane(lambda k: FALSE)
        if lk[1] == 'v':
            g = z3.Function('garbE!%d!%d' % (r.rid, lk[0]), INT, INT)
            return base_lane(lambda k: g(zi(k)))
        if lk == (0, 'raw') and r.stride in (1, 2, 4, 8) and self.eng.dom.name == 'int':
            g = z3.Function('garb!%d!0' % r.rid, INT, INT)
            return base_lane(lambda k: g(zi(k)), r.stride)
        raise Unsupported('lane created inside loop')

    def state_at(self, tt, env=True):
        st = self.st0.copy()
        e = dict(self.env0)
        for v in self.vars.values():
            x = self.at(v, tt)
            if v.key[0] == 'phi':
                e[v.key[1]] = x
            elif v.key[0] == 'mem':
                r = st.mut(v.key[1])
                if v.key[2] == '#count':
                    r.count = x
                else:
                    r.fields[v.key[2]] = (r.fields[v.key[2]][0], x)
        for key in set(self.lanes) | set(self.genlanes):
            r = st.mut(key[0])
            r.lanes[key[1]] = self.lane_at(key, tt)
        return st, e

    # -------------------------------------------------------------- one iteration
    def iterate(self, assume_c=True):
        if not assume_c and self.eng.opts.get('fast_discovery'):
            self.eng.discovering += 1
            try:
                return self.iterate_(False)
            finally:
                self.eng.discovering -= 1
        return self.iterate_(assume_c)
    def iterate_(self, assume_c):
        st, env = self.state_at(self.t)
        st.loopctx = st.loopctx + ((self.lid, self.t),)
        st.fc = 0
        st.add(self.t >= 0)
        for v in self.vars.values():
            if v.h[0] == 'gen':
                iv = term_of(v.init)
                g = v.h[1](self.t)
                if v.kind == 'ptr':
                    st.add(z3.Implies(self.t == 0, g == 0))
                else:
                    st.add(z3.Implies(self.t == 0, g == zi(iv) if v.kind in ('int', 'addr') else g == iv))
                if v.kind == 'int' and v.key[0] == 'phi':
                    st.add(self.eng.dom.range(64, g))
        if assume_c and self.C is not None:
            for c in self.cfacts():
                st.add(c)
        for (nm, fn) in self.invs:
            for c in fn(st, env):
                st.add(c)
        self.base_len = len(st.pc)
        nph = self.eng.nphis(self.f, self.H)
        start = st.copy()
        outs, exits, backs = self.eng.run(self.f, [(st, self.H, None, nph, env)], (self.H, self.body))
        # a back path that releases storage (an iterator that ends itself) is followed exactly: it has to leave the loop
        keep = []
        for n in range(3):
            again = []
            for b in backs:
                (again if any(b[0].regions[rid].alive != start.regions[rid].alive for rid in self.st0.regions) else keep).append(b)
            if not again:
                break
            if n == 2:
                raise Unsupported('loop releases storage it did not allocate')
            backs = []
            for bst, prev, benv in again:
                benv = self.eng.do_phis(bst, self.f, self.H, prev, benv)
                o2, e2, b2 = self.eng.run(self.f, [(bst, self.H, None, nph, benv)], (self.H, self.body))
                outs = outs + o2; exits = exits + e2; backs = backs + b2
        return outs, exits, keep, start

    def cfacts(self):
        """facts from: all iterations u<t took a back edge"""
        t = self.t
        C = self.C
        out = []
        C1 = z3.substitute(C, (t, t - 1))
        out.append(z3.Implies(t > 0, C1))
        if not z3.is_true(z3.simplify(C)):
            out.append(z3.Implies(t > 0, z3.substitute(C, (t, I(0)))))
            # instances at the roots of linear (dis)equalities in t
            atoms = []
            collect_atoms(C, atoms)
            roots = {}
            for a, b in atoms:
                k0, d = lin(a - b)
                if t.get_id() in d:
                    m = d[t.get_id()][1]
                    if any(y % m for _, y in d.values()):
                        continue
                    # m*t + rest = 0; an inequality whose constant is no multiple of m has no root
                    rest = {k: (x, -y // m) for k, (x, y) in d.items() if k != t.get_id()}
                    if k0 % m:
                        continue
                    r = unlin(-k0 // m, rest)
                    r = zi(r)
                    if not contains(r, t):
                        roots[r.sexpr()] = r
            for r in list(roots.values())[:6]:
                out.append(z3.Implies(z3.And(r >= 0, r < t), z3.substitute(C, (t, r))))
        Q = self.Cq
        if Q is not None:
            out.extend(forall_range(Q, t, I(0), t, self.lid))
        return out

    def backval(self, v, back):
        st, prev, env = back
        if v.key[0] == 'phi':
            for ins in self.f.blocks[self.H]:
                if ins.op == 'phi' and ins.res == v.key[1]:
                    for x, l in ins.a['inc']:
                        if l == prev:
                            return self.eng.val(st, env, ins.a['t'], x)
            raise Unsupported('phi')
        r = st.regions[v.key[1]]
        if v.key[2] == '#count':
            return r.count
        if v.key[2] not in r.fields:
            raise Unsupported('field disappears in loop')
        return r.fields[v.key[2]][1]

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.rid == b.rid and (a.off is b.off or (isint(a.off) and isint(b.off) and a.off == b.off) or (not (isint(a.off) and isint(b.off)) and zi(a.off).eq(zi(b.off)))) and a.null.eq(b.null)
        if isinstance(a, FnPtr) and isinstance(b, FnPtr):
            return a.name == b.name
        if z3.is_expr(a) and z3.is_expr(b):
            return a.eq(b)
        return False

    def discover_mem(self, backs, start):
        """memory changed on some back path that is not yet a hypothesis. -> changed?"""
        ch = False
        for st, prev, env in backs:
            for rid, r0 in self.st0.regions.items():
                r = st.regions[rid]
                rs = start.regions[rid]
                if r is rs:
                    continue
                if r.alive != rs.alive:
                    raise Unsupported('loop releases storage it did not allocate')
                for k in r.fields:
                    if k not in r0.fields:
                        if rs.heap == 'stack':
                            continue
                        raise Unsupported('loop initialises %s+%s' % (r.name, k))
                    if ('mem', rid, k) in self.vars:
                        continue
                    if not self.same(r.fields[k][1], rs.fields[k][1]):
                        self.addvar(('mem', rid, k), r0.fields[k][1])
                        ch = True
                if rs.count is not None and r.count is not rs.count and ('mem', rid, '#count') not in self.vars:
                    self.addvar(('mem', rid, '#count'), zi(r0.count)); ch = True
                for lk in r.lanes:
                    if (rid, lk) in self.lanes or (rid, lk) in self.genlanes:
                        continue
                    if r.lanes[lk] is not rs.lanes.get(lk):
                        self.lanes[(rid, lk)] = None
                        ch = True
        return ch

    def classify(self, backs):
        ch = False
        for v in self.vars.values():
            if v.h[0] != 'gen' or v.demoted:
                continue
            cur = self.at(v, self.t)
            vals = [self.backval(v, b) for b in backs]
            if any(x is UNDEF for x in vals):
                raise Unsupported('undefined loop variable')
            if v.kind == 'ptr':
                if any(not isinstance(x, Ptr) or x.rid != v.init.rid or not (x.null.eq(v.init.null) or x.null.eq(self.nullat(v, x.off))) for x in vals):
                    raise Unsupported('pointer variable changes object in loop')
            if v.kind in ('int', 'ptr', 'addr'):
                ds = [norm(zi(term_of(x)) - zi(term_of(cur))) for x in vals]
                if all((isint(d) or not self.varying(d)) for d in ds):
                    d0 = ds[0]
                    if all((isint(d) and isint(d0) and d == d0) or (not isint(d) and not isint(d0) and d.eq(d0)) for d in ds):
                        v.h = ('const',) if isint(d0) and d0 == 0 else ('affine', d0)
                        ch = True
            else:
                if all(self.same(x, cur) for x in vals):
                    v.h = ('const',); ch = True
        return ch

    def derive_lane(self, key, backs, start):
        rid, lk = key
        base = start.regions[rid].lanes.get(lk)
        ws = []
        t = self.t
        for st, prev, env in backs:
            ln = st.regions[rid].lanes.get(lk)
            chain = []
            x = ln
            while x is not base and x is not None and x.kind != 'base':
                chain.append(x)
                x = x.parent
            if x is not base and base is not None:
                return False
            chain.reverse()
            guard = None
            if len(backs) > 1:
                g = [c for c in st.pc[self.base_len:]]
                guard = z3.And(*g) if g else TRUE
            for w in chain:
                if w.kind != 'write':
                    return False
                i, val = w.a
                c, d = lin(zi(i))
                b = 0
                rest = {}
                for kk, (tm, m) in d.items():
                    if tm.eq(t):
                        b = m
                    elif self.varying(tm):
                        return False
                    else:
                        rest[kk] = (tm, m)
                if b not in (1, -1):
                    return False
                ws.append((zi(unlin(c, rest)), b, val, guard))
        # merge identical writes of all paths (guards cover)
        if len(backs) > 1:
            uniq = []
            for w in ws:
                for u in uniq:
                    if u[0].eq(w[0]) and u[1] == w[1] and z3.is_expr(u[2]) and z3.is_expr(w[2]) and u[2].eq(w[2]):
                        u[3] = z3.Or(u[3], w[3]); break
                else:
                    uniq.append(list(w))
            ws = [tuple(u) for u in uniq]
            if len(ws) == 1 and all(True for _ in ws):
                pass
        self.lanes[key] = ws
        return True

    def compute_C(self, backs):
        t = self.t
        if self.eng.opts.get('no_trace'):
            self.C = TRUE; self.Cq = None
            return
        alts = []
        altsq = []
        for b in backs:
            st = b[0]
            fs = [c for c in st.pc[self.base_len:]]
            tr = []
            for v in self.vars.values():
                if v.h[0] == 'gen':
                    nv = self.backval(v, b)
                    g1 = v.h[1](t + 1)
                    if v.kind == 'ptr':
                        r = self.st0.regions[v.init.rid]
                        i, rem = split(norm(zi(nv.off) - zi(v.init.off)), r.stride or 1)
                        tr.append(g1 == i)
                    elif v.kind == 'addr':
                        tr.append(g1 == nv.addr)
                    else:
                        tr.append(g1 == nv)
            qs = [c for c in fs + tr if interesting(c, t)]
            alts.append(z3.And(*(fs + tr)) if fs + tr else TRUE)
            altsq.append(z3.And(*qs) if qs else TRUE)
        self.C = z3.Or(*alts) if len(alts) > 1 else alts[0] if alts else FALSE
        if len(altsq) == 1:
            self.Cq = altsq[0] if not z3.is_true(altsq[0]) else None
        else:
            self.Cq = z3.Or(*altsq) if altsq and not any(z3.is_true(a) for a in altsq) else None
        if has_quant(self.C):
            # nested quantified facts: keep only the quantifier-free conjuncts
            alts = [z3.And(*[c for c in a.children() if not has_quant(c)]) if z3.is_and(a) else (TRUE if has_quant(a) else a) for a in alts]
            self.C = z3.Or(*alts) if len(alts) > 1 else alts[0]
            self.Cq = None

    # -------------------------------------------------------------- Houdini
    def candidates(self, backs, exits):
        eng = self.eng
        t = self.t
        cands = []
        ints = [v for v in self.vars.values() if v.kind == 'int']
        gens = [v for v in ints if v.h[0] == 'gen']
        def getter(v):
            def g(st, env):
                if v.key[0] == 'phi':
                    return zi(env[v.key[1]])
                r = st.regions[v.key[1]]
                return zi(r.count) if v.key[2] == '#count' else zi(r.fields[v.key[2]][1])
            return g
        if gens and not eng.opts.get('no_default'):
            terms = {}
            def addt(e):
                e = zi(e)
                if not self.varying(e):
                    terms[z3.simplify(e).sexpr()] = e
            addt(I(0))
            for v in ints:
                addt(v.init)
            atoms = []
            for b in backs:
                for c in b[0].pc[self.base_len:]:
                    collect_atoms(c, atoms)
            for x in exits:
                for c in x[0].pc[self.base_len:]:
                    collect_atoms(c, atoms)
            for a, b_ in atoms:
                c, d = lin(a - b_)
                inv = {k: v for k, v in d.items() if not self.varying(v[0])}
                addt(unlin(0, inv)) if inv else None
                addt(unlin(0, {k: (tm, -m) for k, (tm, m) in inv.items()})) if inv else None
            tl = list(terms.values())[:10]
            for v in gens:
                g = getter(v)
                for e in tl:
                    for off in (-1, 0, 1):
                        cands.append(('%s>=%s' % (v.key[1:], off), lambda st, env, g=g, e=e, off=off: [g(st, env) >= e + off]))
                        cands.append(('%s<=%s' % (v.key[1:], off), lambda st, env, g=g, e=e, off=off: [g(st, env) <= e + off]))
                for w in ints:
                    if w is v:
                        continue
                    h = getter(w)
                    for off in (-1, 0, 1):
                        cands.append(('v<=v', lambda st, env, g=g, h=h, off=off: [g(st, env) <= h(st, env) + off]))
                        cands.append(('v>=v', lambda st, env, g=g, h=h, off=off: [g(st, env) >= h(st, env) + off]))
        wrap = lambda fn: (lambda *a: (lambda r: [r] if z3.is_expr(r) else r)(fn(*a)))
        for name, tmpl, arity in [(n_, wrap(t_), a_) for n_, t_, a_ in eng.inv_templates]:
            if arity == 0:
                cands.append((name, lambda st, env, tmpl=tmpl: tmpl(eng, st)))
            elif arity == 1:
                for v in ints:
                    if v.h[0] == 'const':
                        continue
                    g = getter(v)
                    cands.append((name, lambda st, env, g=g, tmpl=tmpl: tmpl(eng, st, g(st, env))))
            elif arity == 2:
                for v in ints:
                    for w in ints:
                        if v is w or (v.h[0] == 'const' and w.h[0] == 'const'):
                            continue
                        g = getter(v); h = getter(w)
                        cands.append((name, lambda st, env, g=g, h=h, tmpl=tmpl: tmpl(eng, st, g(st, env), h(st, env))))
            elif arity == 'gen':
                cands += [(name + ' ' + n_, fn_) for n_, fn_ in tmpl(eng, self)]
            elif arity == 't':
                cands.append((name, lambda st, env, tmpl=tmpl: tmpl(eng, st, env, self)))
        return cands

    def houdini(self, backs, exits):
        eng = self.eng
        if eng.discovering:
            return
        dbg = os.environ.get('VERIF_LOOPS')
        t0 = time.time()
        cands = self.candidates(backs, exits)
        if not cands:
            return
        if dbg:
            print('  ' * len(self.st0.loopctx), 'loop', self.H, len(cands), 'candidates')
        # base case
        st, env = self.state_at(I(0))
        for v in self.vars.values():
            if v.h[0] == 'gen':
                # use the initial values themselves
                if v.key[0] == 'phi':
                    env[v.key[1]] = v.init
                elif v.key[2] == '#count':
                    st.mut(v.key[1]).count = v.init
                else:
                    r = st.mut(v.key[1]); r.fields[v.key[2]] = (r.fields[v.key[2]][0], v.init)
        for key in self.genlanes:
            r = st.mut(key[0]); r0 = self.st0.regions[key[0]]; r.lanes[key[1]] = r0.lanes[key[1]] if key[1] in r0.lanes else self.default_lane(r0, key[1])
        keep = []
        for nm, fn in cands:
            try:
                if all(eng.valid(st, c, 4_000_000 // eng.opts.get("cand_div", 1)) for c in fn(st, env)):
                    keep.append((nm, fn))
            except Unsupported:
                pass
        self.invs = keep
        if dbg:
            print('  ' * len(self.st0.loopctx), 'loop', self.H, len(keep), 'hold at entry; %.1fs' % (time.time() - t0), [n for n, _ in cands if n not in [k[0] for k in keep]][:12] if dbg > '1' else '')
        for rnd in range(12):
            if not self.invs:
                return
            outs, exits, backs, start = self.iterate()
            bad = set()
            for b in backs:
                bst, benv = self.back_env(b)
                for n, (nm, fn) in enumerate(self.invs):
                    if n in bad:
                        continue
                    try:
                        if not all(eng.valid(bst, c, 6_000_000 // eng.opts.get("cand_div", 1)) for c in fn(bst, benv)):
                            bad.add(n)
                    except Unsupported:
                        bad.add(n)
            if dbg:
                print('  ' * len(self.st0.loopctx), 'loop', self.H, 'round', rnd, 'dropped', len(bad), 'of', len(self.invs), '; %.1fs' % (time.time() - t0), [self.invs[n][0] for n in bad][:12] if dbg > '1' else '')
            if not bad:
                return
            self.invs = [x for n, x in enumerate(self.invs) if n not in bad]
        self.invs = []

    def back_env(self, b):
        st, prev, env = b
        e = dict(env)
        for v in self.vars.values():
            if v.key[0] == 'phi':
                e[v.key[1]] = self.backval(v, b)
        return st, e

    # -------------------------------------------------------------- verification
    def verify_back(self, b, start):
        """hypotheses at t+1 hold on this back path"""
        eng = self.eng
        st, prev, env = b
        t1 = self.t + 1
        bad = []
        for v in self.vars.values():
            if v.h[0] == 'gen':
                continue
            x = self.backval(v, b)
            w = self.at(v, t1)
            if self.same(x, w):
                continue
            if isinstance(x, Ptr) or isinstance(w, Ptr):
                ok = isinstance(x, Ptr) and isinstance(w, Ptr) and x.rid == w.rid and eng.valid(st, z3.And(zi(x.off) == zi(w.off), x.null == w.null))
            elif z3.is_expr(x) and z3.is_expr(w):
                ok = eng.valid(st, x == w)
            else:
                ok = False
            if not ok:
                bad.append(v)
        for key in self.lanes:
            rid, lk = key
            if self.lanes[key] is None:
                continue
            ln = st.regions[rid].lanes.get(lk) or self.default_lane(st.regions[rid], lk)
            want = self.lane_at(key, t1)
            k = z3.FreshConst(INT, 'k')
            s = st.copy()
            r = st.regions[rid]
            s.add(z3.And(k >= 0, k < zi(r.count)))
            if not eng.valid(s, ln(k) == want(k)):
                bad.append(key)
        # frame
        for rid, r0 in self.st0.regions.items():
            r = st.regions[rid]; rs = start.regions[rid]
            if r is rs:
                continue
            if r.alive != rs.alive:
                raise Unsupported('loop releases storage')
            for k in r.fields:
                if ('mem', rid, k) in self.vars:
                    continue
                if k not in rs.fields:
                    if rs.heap == 'stack':
                        continue
                    raise Unsupported('loop initialises storage')
                if not self.same(r.fields[k][1], rs.fields[k][1]):
                    raise Unsupported('loop modifies %s+%s unpredictably' % (r.name, k))
            for lk in r.lanes:
                if (rid, lk) in self.lanes or (rid, lk) in self.genlanes:
                    continue
                if r.lanes[lk] is not rs.lanes.get(lk):
                    raise Unsupported('loop modifies array %s' % r.name)
        for rid in st.ghost.get('heap', ()):
            if rid not in self.st0.regions and st.regions[rid].alive:
                raise Unsupported('loop allocates storage that survives the iteration')
        for g, val in st.ghost.items():
            if isinstance(g, str) and g.startswith('%') or g == 'heap':
                continue
            if self.st0.ghost.get(g) is not val:
                raise Unsupported('loop changes ghost state %s' % g)
        return bad

    def next_values(self, b):
        """state at a back edge with the values of the next iteration defined"""
        st = b[0].copy(); t = self.t
        for v in self.vars.values():
            if v.h[0] == 'gen':
                nv = self.backval(v, b)
                if v.kind == 'ptr':
                    r = self.st0.regions[v.init.rid]
                    i, rem = split(norm(zi(nv.off) - zi(v.init.off)), r.stride or 1)
                    st.add(v.h[1](t + 1) == i)
                elif v.kind == 'addr':
                    st.add(v.h[1](t + 1) == nv.addr)
                else:
                    st.add(v.h[1](t + 1) == nv)
        return st

    def terminates(self, backs):
        eng = self.eng
        if eng.mute:
            return
        t = self.t
        atoms = []
        for b in backs:
            for c in b[0].pc[self.base_len:]:
                collect_atoms(c, atoms)
        ms = []
        for a, b_ in atoms:
            for m in (b_ - a, a - b_):
                ms.append(m)
        # pairs of int variables
        ints = [v for v in self.vars.values() if v.kind == 'int' and v.h[0] != 'const']
        for v in ints:
            for w in ints:
                if v is not w:
                    ms.append(zi(self.at(v, t)) - zi(self.at(w, t)))
        seen = set()
        done = [(b, self.next_values(b)) for b in backs]
        def holds(f, rl=3_000_000):
            return all(eng.valid(st, f, rl) for b, st in done)
        weak = []
        def found():
            eng.obls.append(Obligation('%s: loop %s terminates' % (short(eng.dem.get(self.f.name, self.f.name)), self.H), 'discharged', 0.0, None, '', 'z3'))
        cand = []
        for m in ms:
            m = zi(norm(m))
            if m.sexpr() in seen or not self.varying(m):
                continue
            seen.add(m.sexpr()); cand.append(m)
            if holds(z3.And(m >= -1, z3.substitute(m, (t, t + 1)) < m)):
                return found()
        # sums of two differences that never increase (merging loops)
        for m in cand:
            if len(weak) < 12 and holds(z3.And(m >= -1, z3.substitute(m, (t, t + 1)) <= m), 300_000):
                weak.append(m)
        for i, m in enumerate(weak):
            for m2 in weak[:i]:
                d = m + m2
                if holds(z3.substitute(d, (t, t + 1)) < d):
                    return found()
        tm = eng.opts.get('terminates')
        if tm and tm(self):
            return
        eng.obls.append(Obligation('%s: loop %s terminates' % (short(eng.dem.get(self.f.name, self.f.name)), self.H), 'unknown', 0.0, None, '', 'z3', None))

    def go(self):
        eng = self.eng
        eng.mute += 1
        try:
            for rnd in range(14):
                outs, exits, backs, start = self.iterate(False)
                if not backs:
                    break
                ch = self.discover_mem(backs, start)
                ch = self.classify(backs) or ch
                if not ch:
                    break
            else:
                raise Unsupported('loop analysis did not converge')
            if backs:
                for att in range(6):
                    redo = False
                    for key in list(self.lanes):
                        if self.lanes[key] is None:
                            if not self.derive_lane(key, backs, start):
                                if key[1][1] in ('live', 'init') and self.st0.regions[key[0]].heap == 'stack':
                                    # a temporary created and destroyed in every iteration: unchanged at the loop head
                                    self.lanes[key] = []
                                    redo = True
                                    continue
                                del self.lanes[key]
                                self.make_genlane(key)
                                redo = True
                    self.compute_C(backs)
                    if redo:
                        outs, exits, backs, start = self.iterate(False)
                        if self.discover_mem(backs, start):
                            continue
                        self.compute_C(backs)
                    self.houdini(backs, exits)
                    outs, exits, backs, start = self.iterate(True)
                    bad = []
                    for b in backs:
                        for x in self.verify_back(b, start):
                            if x not in bad:
                                bad.append(x)
                    if self.discover_mem(backs, start):
                        self.invs = []
                        continue
                    if not bad:
                        break
                    for x in bad:
                        if isinstance(x, Var):
                            if x.kind == 'opaque':
                                raise Unsupported('opaque loop variable')
                            x.demoted = True
                            self.setgen(x)
                        else:
                            del self.lanes[x]
                            self.make_genlane(x)
                    self.invs = []
                    outs, exits, backs, start = self.iterate(False)
                    self.discover_mem(backs, start)
                    self.compute_C(backs)
                else:
                    raise Unsupported('no inductive loop summary found')
        finally:
            eng.mute -= 1
        # final pass, obligations recorded
        nob = len(eng.obls)
        outs, exits, backs, start = self.iterate(True)
        for b in backs:
            if not z3.is_true(self.C):
                s = b[0]
                c = z3.substitute(self.C, (self.t, self.t))
                # path facts imply C(t) (gen trace equalities are definitional)
                for v in self.vars.values():
                    if v.h[0] == 'gen':
                        pass
        if backs:
            eng.mute or eng.obls.append(Obligation('%s: invariant of loop %s inductive (%d variables, %d arrays, %d Houdini)' % (
                short(eng.dem.get(self.f.name, self.f.name)), self.H, len(self.vars), len(self.lanes), len(self.invs)), 'discharged', 0.0, None, '', 'z3'))
            for b in backs:
                if self.verify_back(b, start):
                    raise Unsupported('loop summary not stable')
                for nm, fn in self.invs:
                    bst, benv = self.back_env(b)
                    if not all(eng.valid(bst, c) for c in fn(bst, benv)):
                        raise Unsupported('loop invariant not stable')
            self.terminates(backs)
        # leaving the loop: fresh names continue in the outer context
        res = []
        for (s, b, p, env) in exits:
            self.leave(s); res.append((s, b, p, env))
        for o in outs:
            self.leave(o.st)
        return outs, res

    def leave(self, s):
        s.loopctx = self.st0.loopctx
        s.fc = self.st0.fc + 1000

    def make_genlane(self, key):
        rid, lk = key
        old = self.st0.regions[rid].lanes.get(lk) or self.default_lane(self.st0.regions[rid], lk)
        srt = old(z3.Int('probe')).sort()
        self.genlanes[key] = z3.Function('W!%d!%s!%s' % (rid, '_'.join(map(str, lk)), self.lid), *([INT] * (len(self.st0.loopctx) + 2)), srt)

def interesting(c, t):
    """fact that mentions an uninterpreted function applied to a term containing t (worth quantifying)"""
    if has_quant(c):
        return False
    st = [c]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and contains(x, t):
                return True
            st.extend(x.children())
    return False

def contains(e, t):
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(t):
            return True
        st.extend(x.children())
    return False

def uf_apps(e, t):
    out = []
    st = [e]; seen = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and contains(x, t):
            out.append(x)
        st.extend(x.children())
    return out

def forall_range(C, t, lo, hi, tag):
    """forall u in [lo,hi): C[t:=u], one quantifier per usable trigger f(.., c+-u, ..)"""
    res = []
    done = set()
    n = 0
    for app in uf_apps(C, t):
        pos = [i for i in range(app.num_args()) if contains(app.arg(i), t)]
        if len(pos) != 1:
            continue
        arg = app.arg(pos[0])
        if not z3.is_int(arg):
            continue
        c, d = lin(arg)
        b = 0; rest = {}
        for k, (tm, m) in d.items():
            if tm.eq(t):
                b = m
            elif contains(tm, t):
                b = 0; break
            else:
                rest[k] = (tm, m)
        if b not in (1, -1):
            continue
        key = (app.decl().name(), pos[0], str(unlin(c, rest)), b)
        if key in done:
            continue
        done.add(key)
        q = z3.Int('q!%s!%d' % (tag, n)); n += 1
        off = unlin(c, rest)
        u = norm(q - off) if b == 1 else norm(zi(off) - q)
        u = zi(u)
        body = z3.Implies(z3.And(zi(lo) <= u, u < zi(hi)), z3.substitute(C, (t, u)))
        args = [app.arg(i) for i in range(app.num_args())]
        args[pos[0]] = q
        try:
            res.append(z3.ForAll([q], body, patterns=[app.decl()(*args)]))
        except z3.Z3Exception:
            pass
        if len(res) >= 4:
            break
    if not res:
        q = z3.Int('q!%s' % tag)
        res.append(z3.ForAll([q], z3.Implies(z3.And(zi(lo) <= q, q < zi(hi)), z3.substitute(C, (t, q)))))
    return res

def collect_atoms(c, out):
    """integer inequality atoms a<=b (as (a,b) pairs)"""
    k = c.decl().kind() if z3.is_app(c) else None
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
        if z3.is_int(c.arg(0)):
            out.append((c.arg(0), c.arg(1)))
    elif k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
        if z3.is_int(c.arg(0)):
            out.append((c.arg(1), c.arg(0)))
    elif k == z3.Z3_OP_EQ:
        if z3.is_int(c.arg(0)):
            out.append((c.arg(0), c.arg(1)))
    elif k in (z3.Z3_OP_NOT, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_ITE):
        for x in c.children():
            if z3.is_bool(x):
                collect_atoms(x, out)

def summarise(eng, f, H, st0, env0, prev):
    if eng.opts.get('unroll'):
        return unroll(eng, f, H, st0, env0, prev, eng.opts['unroll'])
    # exact first iteration: when no path reaches the back edge there is nothing to summarise
    nob = len(eng.obls)
    env1 = eng.do_phis(st0, f, H, prev, env0)
    fd = bool(eng.opts.get('fast_discovery'))
    eng.discovering += fd
    try:
        o, x, b = eng.run(f, [(st0.copy(), H, None, eng.nphis(f, H), dict(env1))], (H, f.loops[H]))
    finally:
        eng.discovering -= fd
    if fd and b:
        del eng.obls[nob:]
        return Summ(eng, f, H, st0, env0, prev).go()
    if not [1 for (s, _, _) in b if eng.feasible(s)]:
        return o, x
    del eng.obls[nob:]
    return Summ(eng, f, H, st0, env0, prev).go()

def unroll(eng, f, H, st0, env0, prev, n):
    """complete unrolling with an unwinding obligation (used where the bound is a small constant)"""
    body = f.loops[H]
    outs = []; exits = []
    cur = [(st0, prev, env0)]
    for i in range(n + 1):
        nxt = []
        for st, pv, env in cur:
            e = eng.do_phis(st, f, H, pv, env)
            if 'trace' in eng.opts:
                eng.opts['trace'](f, H, st, e)
            o, x, b = eng.run(f, [(st, H, None, eng.nphis(f, H), e)], (H, body))
            outs.extend(o); exits.extend(x); nxt.extend(b)
        cur = nxt
        if not cur:
            break
    for st, pv, env in cur:
        if eng.feasible(st):
            eng.require(st, FALSE, '%s: loop leaves within %d iterations' % (short(eng.dem.get(f.name, f.name)), n))
    return outs, [(s, b, p, e) for (s, b, p, e) in exits]
