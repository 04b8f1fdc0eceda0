"""C03 SortedList: always sorted; search is exact; Add inserts, Remove removes one equal element."""
import z3
from vir.spec import *
from vir.runner import Property
from specs.lists import setup, item, expect, inserted, removed, api, kinds, NS, post_item, removeat_case, removerange_case, clear_case, get_case, count_case, deco as _deco, dtor_case, move_case, C02
import specs.lists as L_

C03 = Property('C03')
PROPERTIES = [C03]
C03.driver = 'lists'
C03.assumptions = list(C02.assumptions) + ['<=> of the element type is a total preorder (the documented requirement of SortedList); the pre-state is any sorted list']

def key(K):
    return keyE if K is Opaque else (lambda v: v)

def sorted_pre(c, L):
    i, j = z3.Ints('i! j!')
    k = key(L.K)
    c.st.add(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= j, j < L.n0), k(L.fn(i)) <= k(L.fn(j))), patterns=[z3.MultiPattern(L.fn(i), L.fn(j))]))

def templates(c, L, xv):
    """candidate loop invariants of a search for xv (kept only if inductive)"""
    k = key(L.K); x = k(xv)
    def below(eng, st, v):
        return [z3.Or(v <= 0, z3.And(v <= L.n0, k(L.fn(v - 1)) < x))]
    def above(eng, st, v):
        return [z3.Or(v >= L.n0 - 1, z3.And(v >= -1, k(L.fn(v + 1)) > x))]
    def above0(eng, st, v):
        return [z3.Or(v >= L.n0, z3.And(v >= 0, k(L.fn(v)) > x))]
    def above1(eng, st, v):
        return [z3.Or(v >= L.n0, z3.And(v >= 0, k(L.fn(v)) >= x))]
    def inr(eng, st, v):
        return [z3.And(v >= 0, v <= L.n0)]
    def inr1(eng, st, v):
        return [z3.And(v >= -1, v < L.n0)]
    def adj(eng, st, v, w):
        return [z3.Or(v == -1, z3.And(v >= 0, v < L.n0, z3.Or(z3.And(w == v + 1, k(L.fn(v)) < x), z3.And(k(L.fn(v)) > x))))]
    def adj2(eng, st, v, w):
        # v is -1, or just below the left end w, or above the item
        return [z3.Or(v == -1, v == w - 1, k(L.fn(v)) > x)]
    def adj3(eng, st, v, w):
        return [z3.Or(v == -1, v == w + 1, k(L.fn(v)) < x)]
    c.eng.inv_templates += [('elements left of v are smaller', below, 1), ('elements right of v are greater', above, 1), ('element v and beyond greater', above0, 1),
                            ('element v and beyond not smaller', above1, 1), ('v in 0..n', inr, 1), ('v in -1..n-1', inr1, 1), ('probe adjacent', adj2, 2), ('probe adjacent right', adj3, 2)]

def check_sorted(c, L, o, what):
    st = o.st; k = key(L.K)
    buf, n, cap = L.rep(st)
    if buf.rid is None:
        return
    i = z3.FreshConst(INT, 'i')
    s = st.copy(); s.add(z3.And(i >= 0, i + 1 < n))
    a = L.K.val(c.eng, s, buf.rid, i); b = L.K.val(c.eng, s, buf.rid, i + 1)
    c.ensure(s, k(a) <= k(b), what + ': list stays sorted')

def mk(track, K, xname='item'):
    c, L = setup(track, 'SortedList', K)
    sorted_pre(c, L)
    return c, L

def add_case(fn, K, moved, alias=False, full=True):
    def f(track):
        c, L = mk(track, K)
        c.st.add(L.n0 == L.cap0 if full else L.n0 < L.cap0)
        if alias:
            j = c.int('j'); c.st.add(z3.And(j >= 0, j < L.n0))
            x = Ptr(L.buf0, norm(L.K.stride * j)); xv = L.fn(j)
        else:
            x, xv = item(c, K)
        templates(c, L, xv)
        outs = c.run(api(fn), [L.p, x])
        for o in outs:
            c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'Add never raises')
            if o.kind != 'ret':
                continue
            r = o.val
            c.ensure(o.st, z3.And(r >= 0, r <= L.n0), 'Add: returned index in range')
            L.check(o, inserted(L, r, xv, j if alias and moved and K is Opaque else None), 'Add: exactly the argument is inserted, at the returned index')
            if not (alias and moved and K is Opaque):
                check_sorted(c, L, o, 'Add')
            if not alias:
                post_item(c, o, K, x, xv, moved)
    C03.case(fn + (' [argument aliases an element]' if alias else '') + (' [buffer full]' if full else ' [buffer not full]'), 'list')(f)

def search_case(fn, K, contains):
    def f(track):
        c, L = mk(track, K)
        x, xv = item(c, K)
        k = key(K)
        templates(c, L, xv)
        outs = c.run(api(fn), [L.p, x])
        for o in outs:
            c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'search never raises')
            if o.kind != 'ret':
                continue
            j = z3.FreshConst(INT, 'j')
            if contains:
                s = o.st.copy(); s.add(z3.And(j >= 0, j < L.n0)); s.add(z3.Not(B(o.val)))
                c.ensure(s, k(L.fn(j)) != k(xv), 'Contains: false only if no element is equal')
                q = z3.Int('q')
                s = o.st.copy(); s.add(B(o.val))
                s.add(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < L.n0), k(L.fn(q)) != k(xv)), patterns=[L.fn(q)]))
                c.ensure(s, FALSE, 'Contains: true only if an element is equal')
            else:
                r = o.val
                c.ensure(o.st, z3.Or(r == -1, z3.And(r >= 0, r < L.n0, k(L.fn(r)) == k(xv))), 'IndexOf: result is -1 or an equal element')
                s = o.st.copy(); s.add(z3.And(j >= 0, j < L.n0)); s.add(r == -1)
                c.ensure(s, k(L.fn(j)) != k(xv), 'IndexOf: -1 only if no element is equal')
            L.check(o, L.pre, 'search: container unchanged')
    C03.case(fn, 'list')(f)

def remove_case(fn, K):
    def f(track):
        c, L = mk(track, K)
        x, xv = item(c, K)
        k = key(K)
        templates(c, L, xv)
        outs = c.run(api(fn), [L.p, x])
        for o in outs:
            c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'Remove never raises')
            if o.kind != 'ret':
                continue
            r = B(o.val)
            if c.eng.valid(o.st, z3.Not(r)):
                j = z3.FreshConst(INT, 'j')
                s = o.st.copy(); s.add(z3.And(j >= 0, j < L.n0))
                c.ensure(s, k(L.fn(j)) != k(xv), 'Remove: false only if no element is equal')
                L.check(o, L.pre, 'Remove: unchanged when absent')
            else:
                c.ensure(o.st, r, 'Remove: result decided')
                buf, n, cap = L.rep(o.st)
                def pred(p):
                    want = removed(L, p, 1)
                    gs = [z3.And(p >= 0, p < L.n0), k(L.fn(p)) == k(xv), n == want.n]
                    if buf.rid is not None:
                        gs.append((lambda q: z3.And(q >= 0, q < n), lambda q: L.K.val(c.eng, o.st, buf.rid, q) == want.at(q)))
                    return gs
                witness(c, o.st, pred, 'Remove: exactly one equal element is removed')
                L.check(o, None, 'Remove')
                check_sorted(c, L, o, 'Remove')
    C03.case(fn, 'list')(f)

def sub_case(fn, K, run, want, ok):
    def f(track):
        c, L = mk(track, K)
        outs, args = run(c, L, api(fn))
        expect(c, L, outs, ok(L, *args), lambda o: B(o.val), want(L, *args), fn.split('::')[-1].split('(')[0], lambda o: check_sorted(c, L, o, 'removal'))
    C03.case(fn, 'list')(f)

def r1(c, L, f):
    i = c.int('index')
    return c.run(f, [L.p, i]), (i,)
def r2(c, L, f):
    i = c.int('index'); m = c.int('count')
    return c.run(f, [L.p, i, m]), (i, m)
def r0(c, L, f):
    return c.run(f, [L.p]), ()

for K, T, C in kinds('SortedList'):
    for full in (True, False):
        add_case(C + '::Add(%s const&)' % T, K, False, False, full)
        add_case(C + '::Add(%s&&)' % T, K, True, False, full)
        add_case(C + '::Add(%s const&)' % T, K, False, True, full)
        add_case(C + '::Add(%s&&)' % T, K, True, True, full)
    search_case(C + '::IndexOf(%s const&) const' % T, K, False)
    search_case(C + '::Contains(%s const&) const' % T, K, True)
    remove_case(C + '::Remove(%s const&)' % T, K)
    sub_case(C + '::RemoveAt(long)', K, r1, lambda L, i: removed(L, i, 1), lambda L, i: z3.And(i >= 0, i < L.n0))
    sub_case(C + '::RemoveRange(long, long)', K, r2, lambda L, i, m: removed(L, i, m), lambda L, i, m: z3.And(i >= 0, m >= 0, i + m <= L.n0))
    sub_case(C + '::Clear()', K, r0, lambda L: Seq(I(0), lambda k: I(0)), lambda L: TRUE)
# storage of SortedList belongs to C01/C02 as well
for K, T, C in kinds('SortedList'):
    get_case('SortedList', C + '::Get(long) const', K)
    get_case('SortedList', C + '::operator[](long) const', K)
    count_case('SortedList', C + '::Count() const', K)
    dtor_case('SortedList', K)
    move_case('SortedList', C + '::SortedList(%s&&)' % C, K, False)
    move_case('SortedList', C + '::operator=(%s&&)' % C, K, True)
