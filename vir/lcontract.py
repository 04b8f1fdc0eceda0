"""Contracts of List / SortedList used at call sites (proved against the bodies in C01, C02, C03)."""
import z3
from .spec import *
from .engine import ExnVal

class ListAt(ListObj):
    """list object living at a fixed offset of a struct region"""
    def __init__(self, c, p, offs, K, name):
        self.c = c; self.K = K; self.has_cap = True
        self.p = p
        self.ob, self.oc, self.ocap = (p.off + x for x in offs)
        st = c.st
        self.n0 = z3.Int(name + '.count'); self.cap0 = z3.Int(name + '.capacity')
        st.add(z3.And(self.n0 >= 0, self.n0 <= self.cap0, self.cap0 <= BIG))
        self.fn = z3.Function(name + '.item', INT, INT)
        buf = c.eng.new_array(st, name + '.buffer', K.stride, self.cap0, heap='malloc')
        K.fill(c.eng, st, buf, lambda k: self.fn(zi(k)), lambda k: z3.And(zi(k) >= 0, zi(k) < self.n0))
        self.buf0 = buf.rid
        st.add(z3.Int('base!%d' % buf.rid) > 0)
        r = st.mut(p.rid)
        r.fields[self.ob] = (8, Ptr(buf.rid, 0, self.cap0 == 0))
        r.fields[self.oc] = (8, self.n0); r.fields[self.ocap] = (8, self.cap0)
        self.pre = Seq(self.n0, lambda k: self.fn(zi(k)))

def list_offsets(c, id):
    p = c.obj(id)
    return tuple(c.field(id, f, p) for f in ('buffer', 'count', 'capacity'))

class ListContracts:
    """contracts for lists of opaque elements stored in struct regions (offs: buffer, count, capacity)"""
    def __init__(self, offs, kind=Opaque):
        self.offs = offs; self.K = kind
    def view(self, eng, st, p):
        if not isinstance(p, Ptr) or p.rid is None:
            return None
        r = st.regions[p.rid]
        o = const_of(p.off) if not isinstance(p.off, int) else p.off
        if r.kind != 'struct' or o is None:
            return None
        f = r.fields
        try:
            return f[o + self.offs[0]][1], f[o + self.offs[1]][1], f[o + self.offs[2]][1], o
        except KeyError:
            return None
    def pre(self, eng, st, p, what, order=None):
        """requires the representation invariant; -> (n, fn, value of element, old buffer)"""
        v = self.view(eng, st, p)
        if v is None:
            return None
        buf, n, cap, o = v
        r = st.regions[p.rid]
        if not r.alive:
            eng.require(st, FALSE, what + ': container is alive'); raise PathEnd()
        eng.require(st, z3.And(zi(n) >= 0, zi(n) <= cap), 'call %s: 0 <= count <= capacity' % what)
        if buf.rid is None:
            fn = lambda k: I(0)
            return n, fn, buf
        b = st.regions[buf.rid]
        if b.kind != 'array':
            return None
        eng.require(st, z3.BoolVal(b.alive), 'call %s: buffer is live storage' % what)
        eng.require(st, z3.Implies(z3.Not(buf.null), z3.And(zi(buf.off) == 0, zi(b.count) == cap)), 'call %s: capacity is the allocated size' % what)
        K = self.K; rid = buf.rid
        eng.require_forall(st, lambda k: K.live(eng, st, rid, k), 'call %s: elements are constructed' % what, lambda k: z3.And(k >= 0, k < n))
        lane = b.lanes.get((0, 'v' if K is Opaque else 'raw'))
        fn = (lambda k: lane(zi(k))) if lane is not None else (lambda k: I(0))
        if order is not None:
            i = z3.FreshConst(INT, 'i'); s = st.copy(); s.add(z3.And(i >= 0, i + 1 < n))
            eng.require(s, order(fn(i)) <= order(fn(i + 1)), 'call %s: list is sorted' % what)
        return n, fn, buf
    def install(self, eng, st, p, n, fn, buf, name='list'):
        """the list now holds fn(0..n-1) in storage of its own; older references into it are invalid"""
        o = p.off if isinstance(p.off, int) else const_of(p.off)
        cap = eng.fresh(st, INT, 'capacity')
        st.add(z3.And(cap >= n, cap <= 2 * BIG))
        r = eng.new_array(st, name + '.buffer', self.K.stride, cap, heap='malloc')
        self.K.fill(eng, st, r, fn, lambda k: z3.And(zi(k) >= 0, zi(k) < n))
        if buf.rid is not None:
            for k, m in st.regions[buf.rid].meta.items():
                r.meta[k] = m
        st.add(z3.Int('base!%d' % r.rid) > 0)
        h = [x for x in st.ghost.get('heap', ())]
        if buf.rid is not None:
            st.mut(buf.rid).alive = False
        st.ghost['heap'] = tuple(h) + (r.rid,)
        d = st.mut(p.rid)
        d.fields[o + self.offs[0]] = (8, Ptr(r.rid, 0, cap == 0))
        d.fields[o + self.offs[1]] = (8, n); d.fields[o + self.offs[2]] = (8, cap)
    def error(self, eng, st):
        return Outcome(st, 'throw', ExnVal(ERROR, Ptr(None, 0)))
    # ---- value argument
    def arg(self, eng, st, x, what):
        r, loc = eng.elem(st, x, what)
        if self.K is Opaque:
            eng.require(st, eng.elem_get(st, r, loc, 'live'), what + ' argument is a live object')
            return eng.elem_get(st, r, loc, 'v'), (r, loc)
        return eng.load(st, ('ptr',) if self.K.ptr else ('int', 64), x), None
    def moved(self, eng, st, rl, buf):
        """after a move the argument keeps an unspecified value"""
        if self.K is not Opaque:
            return True
        r, loc = rl
        if buf.rid is not None and r.rid == buf.rid:
            return False
        eng.elem_set(st, r, loc, 'v', mvE(eng.elem_get(st, r, loc, 'v')))
        return True
    # ---- operations
    def insert(self, move, what='List::Insert'):
        def f(eng, st, a):
            p, i, x = a
            v = self.pre(eng, st, p, what)
            if v is None:
                return None
            n, fn, buf = v
            if isinstance(x, Ptr) and x.rid == buf.rid and move:
                return None
            xv, rl = self.arg(eng, st, x, what)
            xv = self.enc(eng, st, xv)
            outs = []
            bad = z3.Not(z3.And(zi(i) >= 0, zi(i) <= n))
            if eng.feasible(st, bad):
                s = st.copy(); s.add(bad); outs.append(self.error(eng, s))
            st.add(z3.Not(bad))
            if not eng.feasible(st):
                return outs
            if move:
                self.moved(eng, st, rl, buf)
            self.install(eng, st, p, n + 1, lambda k: z3.If(zi(k) < i, fn(zi(k)), z3.If(zi(k) == i, xv, fn(zi(k) - 1))), buf)
            return outs + [Outcome(st, 'ret', i)]
        return f
    def enc(self, eng, st, v):
        return v
    def removeat(self, what='List::RemoveAt'):
        def f(eng, st, a):
            p, i = a
            v = self.pre(eng, st, p, what)
            if v is None:
                return None
            n, fn, buf = v
            outs = []
            bad = z3.Not(z3.And(zi(i) >= 0, zi(i) < n))
            if eng.feasible(st, bad):
                s = st.copy(); s.add(bad); outs.append(self.error(eng, s))
            st.add(z3.Not(bad))
            if not eng.feasible(st):
                return outs
            self.install(eng, st, p, n - 1, lambda k: z3.If(zi(k) < i, fn(zi(k)), fn(zi(k) + 1)), buf)
            return outs + [Outcome(st, 'ret', TRUE)]
        return f
    def clear(self, what='List::Clear'):
        def f(eng, st, a):
            v = self.pre(eng, st, a[0], what)
            if v is None:
                return None
            n, fn, buf = v
            self.install(eng, st, a[0], I(0), fn, buf)
            return [Outcome(st, 'ret', TRUE)]
        return f
    def sorted_add(self, move, what='SortedList::Add'):
        def f(eng, st, a):
            p, x = a
            v = self.pre(eng, st, p, what, keyE)
            if v is None:
                return None
            n, fn, buf = v
            if isinstance(x, Ptr) and x.rid == buf.rid and move:
                return None
            xv, rl = self.arg(eng, st, x, what)
            i = eng.fresh(st, INT, 'added_at')
            st.add(z3.And(i >= 0, i <= n))
            q = z3.Int('q!add')
            t = fn(q)
            st.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < i), keyE(t) <= keyE(xv)), patterns=[t]))
            st.add(z3.ForAll([q], z3.Implies(z3.And(q >= i, q < n), keyE(t) >= keyE(xv)), patterns=[t]))
            st.add(z3.Implies(i > 0, keyE(fn(i - 1)) <= keyE(xv))); st.add(z3.Implies(i < n, keyE(fn(i)) >= keyE(xv)))
            if move:
                self.moved(eng, st, rl, buf)
            self.install(eng, st, p, n + 1, lambda k: z3.If(zi(k) < i, fn(zi(k)), z3.If(zi(k) == i, xv, fn(zi(k) - 1))), buf)
            return [Outcome(st, 'ret', i)]
        return f
    def sorted_indexof(self, what='SortedList::IndexOf'):
        def f(eng, st, a):
            p, x = a
            v = self.pre(eng, st, p, what, keyE)
            if v is None:
                return None
            n, fn, buf = v
            xv, _ = self.arg(eng, st, x, what)
            q = z3.Int('q!idx'); t = fn(q)
            s = st.copy()
            i = eng.fresh(st, INT, 'found_at')
            st.add(z3.And(i >= 0, i < n, keyE(fn(i)) == keyE(xv)))
            s.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), keyE(t) != keyE(xv)), patterns=[t]))
            st.ghost['found'] = st.ghost.get('found', ()) + (i,)
            s.ghost['absent'] = s.ghost.get('absent', ()) + ((fn, n, xv),)
            return [o for o in (Outcome(st, 'ret', i), Outcome(s, 'ret', I(-1))) if eng.feasible(o.st)]
        return f
