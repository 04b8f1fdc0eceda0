"""C19 PartialOrderingProcessor: strongly connected components in dependency order (Kosaraju's algorithm)."""
import z3
from vir.spec import *
from vir.runner import Property

C19 = Property('C19'); PROPERTIES = [C19]
C19.driver = 'order'
C19.always_bounded = 'InitWithSubClass (grouping of items into nodes) is exercised by the native driver only (up to 40 items, every kind of sub class map); InitNodes, Sort and the other Init functions are proved'
C19.assumptions = ['counts at most 2^40; operator new succeeds',
                   'pigeonhole lemmas: an injective sequence of m numbers below n that misses one of them has m < n, one that hits all of them has m >= n',
                   'recursion ends because every call marks a node that no earlier call has marked (obligation at each call), and there are finitely many nodes']
UNIT = 'order'
NS = 'vl::collections::'
VISIT = NS + 'PartialOrderingProcessor::VisitUnvisitedNode(vl::collections::po::Node&, vl::collections::Array<long>&, long&)'
ASSIGN = NS + 'PartialOrderingProcessor::AssignUnassignedNode(vl::collections::po::Node&, long, long&)'
# the graph: E(x, y) when y depends on x
E = z3.Function('edge', INT, INT, BOOL); REACH = z3.Function('reach', INT, INT, BOOL)
NO = z3.Function('outs.count', INT, INT); OUT = z3.Function('outs.at', INT, INT, INT); OW = z3.Function('outs.index', INT, INT, INT)
NI = z3.Function('ins.count', INT, INT); IN = z3.Function('ins.at', INT, INT, INT); IW = z3.Function('ins.index', INT, INT, INT)
CELL = {o: z3.Function(o + '.cell', INT, INT, INT) for o in ('outs', 'ins')}
ITEM = {o: z3.Function(o + '.item', INT, INT) for o in ('outs', 'ins')}
w, x, y, z, i, j, k = z3.Ints('w!g x!g y!g z!g i!g j!g k!g')
And, Or, Not, Imp, All = z3.And, z3.Or, z3.Not, z3.Implies, z3.ForAll
def pats(*ps):
    out = []
    for p in ps:
        p = p if isinstance(p, tuple) else (p,)
        if not all(z3.is_app(q) and q.decl().kind() == z3.Z3_OP_UNINTERPRETED and q.num_args() > 0 and not any(has_ite(a) for a in q.children()) for q in p):
            return {}
        out.append(z3.MultiPattern(*p) if len(p) > 1 else p[0])
    return dict(patterns=out)
def has_ite(e):
    return z3.is_app(e) and (e.decl().kind() == z3.Z3_OP_ITE or any(has_ite(a) for a in e.children()))

def inited(il, u):
    return TRUE if il is None else All([k], Imp(And(k >= 0, k < u), il(k)), **pats(il(k)))
class OC:
    def __init__(self, track):
        self.c = c = track(Ctx(UNIT, opts=dict(fast_discovery=True, no_trace=True, no_default=True, cand_div=8)))
        eng = c.eng; st = c.st
        self.n = n = c.int('nodes', 0, BIG)
        p = c.obj('POP'); self.p = p
        f = lambda id, nm, q=None: c.field(id, nm, q if q is not None else tmp(id))
        cache = {}
        def tmp(id):
            if id not in cache:
                cache[id] = c.obj(id)
            return cache[id]
        self.off = {nm: f('POP', nm, p) for nm in ('emptyList', 'ins', 'outs', 'firstNodesBuffer', 'subClassItemsBuffer', 'nodes', 'components')}
        self.ab, self.ac = f('ARR', 'buffer'), f('ARR', 'count')
        self.nb, self.nc = f('NARR', 'buffer'), f('NARR', 'count')
        self.no = {nm: f('NODE', nm) for nm in ('visited', 'component', 'ins', 'outs', 'firstSubClassItem', 'subClassItemCount')}
        self.nsz = const_of(c.helper('sz_NODE')); self.lsz = const_of(c.helper('sz_LV'))
        self.co = {nm: f('CMP', nm) for nm in ('firstNode', 'nodeCount')}
        st = c.st
        # nodes
        r = eng.new_array(st, 'nodes', self.nsz, n, heap='new[]'); self.nodes = r.rid
        vis = z3.Function('visited', INT, INT); comp = z3.Function('component', INT, INT)
        st.add(All([k], And(vis(k) >= 0, vis(k) <= 1), patterns=[vis(k)]))
        r.lanes[(self.no['visited'], 'raw')] = base_lane(lambda q: vis(zi(q)), 1)
        r.lanes[(self.no['component'], 'raw')] = base_lane(lambda q: comp(zi(q)), 8)
        self.lists = {}
        for o in ('ins', 'outs'):
            lr = eng.new_array(st, o + ' lists', self.lsz, n, heap='param'); lr.meta['ro'] = True; self.lists[o] = lr.rid
            ir = eng.new_array(st, o + ' items', 8, I(BIG), heap='param'); ir.meta['ro'] = True
            ir.lanes[(0, 'raw')] = base_lane(lambda q, o=o: ITEM[o](zi(q)), 8); self.lists[o + ' items'] = ir.rid
            r.lanes[(self.no[o], 'raw')] = base_lane(lambda q: zi(q), 8)
            r.meta[('dec', self.no[o])] = lambda eng, st, v, rid=lr.rid: Ptr(rid, norm(zi(v) * self.lsz))
            r.meta[('enc', self.no[o])] = self.noenc
        for nm in ('firstSubClassItem', 'subClassItemCount'):
            g = z3.Function(nm, INT, INT); r.lanes[(self.no[nm], 'raw')] = base_lane(lambda q, g=g: g(zi(q)), 8)
        self.ghost(r, 'pos', z3.Function('finished.at', INT, INT)); self.ghost(r, 'bpos', z3.Function('assigned.at', INT, INT))
        q = st.mut(p.rid)
        q.fields[self.off['nodes'] + self.nb] = (8, Ptr(r.rid, 0, n == 0)); q.fields[self.off['nodes'] + self.nc] = (8, n)
        st.add(z3.Int('base!%d' % r.rid) > 0)
        # the graph
        inn = lambda q: And(q >= 0, q < n)
        st.add(All([x, y], Imp(E(x, y), And(inn(x), inn(y), OW(x, y) >= 0, OW(x, y) < NO(x), OUT(x, OW(x, y)) == y, IW(x, y) >= 0, IW(x, y) < NI(y), IN(y, IW(x, y)) == x)), patterns=[E(x, y)]))
        st.add(All([x, k], Imp(And(inn(x), k >= 0, k < NO(x)), And(inn(OUT(x, k)), E(x, OUT(x, k)))), patterns=[OUT(x, k)]))
        st.add(All([x, k], Imp(And(inn(x), k >= 0, k < NI(x)), And(inn(IN(x, k)), E(IN(x, k), x))), patterns=[IN(x, k)]))
        st.add(All([x], And(NO(x) >= 0, NO(x) <= BIG), patterns=[NO(x)])); st.add(All([x], And(NI(x) >= 0, NI(x) <= BIG), patterns=[NI(x)]))
        st.add(All([x], REACH(x, x), patterns=[REACH(x, x)])); st.add(All([x, y], Imp(E(x, y), REACH(x, y)), patterns=[E(x, y)]))
        st.add(All([x, y, z], Imp(And(REACH(x, y), REACH(y, z)), REACH(x, z)), patterns=[z3.MultiPattern(REACH(x, y), REACH(y, z))]))
        for m, h in (('Count() const', self.count), ('Get(long) const', self.get), ('operator[](long) const', self.get)):
            eng.contracts[NS + 'ArrayBase<long>::' + m] = h
    def noenc(self, eng, st, v):
        raise Unsupported('edge list of a node replaced')
    def ghost(self, r, nm, f):
        r.lanes[(0, nm)] = base_lane(lambda q: f(zi(q)))
    def arr(self, name, count, rid_only=False):
        """an Array<vint> buffer of count elements"""
        c = self.c; r = c.eng.new_array(c.st, name, 8, count, heap='new[]')
        f = z3.Function(name + '.item', INT, INT); r.lanes[(0, 'raw')] = base_lane(lambda q: f(zi(q)), 8)
        c.st.add(z3.Int('base!%d' % r.rid) > 0)
        g = z3.Function(name + '.init', INT, BOOL); r.lanes[(0, 'init')] = base_lane(lambda q: g(zi(q)))
        return r.rid
    def raw(self, st, rid):
        """content and initialisation of a buffer"""
        r = st.regions[rid]
        if (0, 'raw') not in r.lanes:
            r = st.mut(rid); g = z3.Function('garb!%d!0' % rid, INT, INT); r.lanes[(0, 'raw')] = base_lane(lambda q: g(zi(q)), 8); r.lanes[(0, 'init')] = base_lane(lambda q: FALSE)
        return r.lanes[(0, 'raw')], r.lanes.get((0, 'init'))
    def cell(self, name):
        c = self.c; r = c.eng.new_struct(c.st, name, 8, heap='param'); v = c.int(name); r.fields[0] = (8, v)
        return Ptr(r.rid, 0), v
    # ---- edge lists by contract (sequences)
    def which(self, st, p):
        for o in ('ins', 'outs'):
            if isinstance(p, Ptr) and p.rid == self.lists[o]:
                q, rem = split(p.off, self.lsz)
                if rem == 0:
                    return o, zi(q)
        return None, None
    def count(self, eng, st, a):
        o, q = self.which(st, a[0])
        if o is None:
            return None
        eng.require(st, And(q >= 0, q < self.n), 'call Count: list of a node')
        return R(st, (NO if o == 'outs' else NI)(q))
    def get(self, eng, st, a):
        o, q = self.which(st, a[0])
        if o is None:
            return None
        N, AT = (NO, OUT) if o == 'outs' else (NI, IN)
        eng.require(st, And(q >= 0, q < self.n, zi(a[1]) >= 0, zi(a[1]) < N(q)), 'call Get: index of an edge')
        e = CELL[o](q, zi(a[1])); st.add(And(e >= 0, e < BIG, ITEM[o](e) == AT(q, zi(a[1]))))
        return R(st, Ptr(self.lists[o + ' items'], norm(e * 8)))
    # ---- views of a state
    def lane(self, st, nm):
        r = st.regions[self.nodes]
        return r.lanes[(0, nm)] if nm in ('pos', 'bpos') else r.lanes[(self.no[nm], 'raw')]
    def node(self, eng, st, p):
        if not isinstance(p, Ptr) or p.rid != self.nodes:
            raise Unsupported('not a node')
        q, rem = split(p.off, self.nsz)
        if rem != 0:
            raise Unsupported('not a node')
        eng.require(st, And(zi(q) >= 0, zi(q) < self.n), 'a node of the graph'); return zi(q)
    def fresh(self, eng, st, nm, sort=INT):
        eng.norder = getattr(eng, 'norder', 0) + 1
        ctx = [t for _, t in st.loopctx]
        f = z3.Function('%s!%d' % (nm, eng.norder), *([INT] * (len(ctx) + 1)), sort)
        return lambda q: f(*ctx, zi(q))

class Visit:
    """V visited, P position in the finishing order (-1 before), O the order, u its length"""
    def __init__(self, X, st, ord_rid, u):
        self.X = X; L = X.lane(st, 'visited'); self.vl = L; self.P = X.lane(st, 'pos'); (self.ol, self.il), self.u = X.raw(st, ord_rid), zi(u)
        self.V = lambda q: L(q) != 0; self.O = self.ol
    def grey(self, q):
        return And(self.V(q), self.P(q) == -1)
    def inv(self):
        V, P, O, u, n = self.V, self.P, self.O, self.u, self.X.n; inn = lambda q: And(q >= 0, q < n)
        return [('visited is a flag', All([x], And(self.vl(x) >= 0, self.vl(x) <= 1), **pats(self.vl(x)))),
                ('finished count', And(u >= 0, u <= n)),
                ('order holds nodes', All([k], Imp(And(k >= 0, k < u), And(inn(O(k)), P(O(k)) == k)), **pats(O(k)))),
                ('positions', All([x], Imp(inn(x), Or(P(x) == -1, And(P(x) >= 0, P(x) < u, O(P(x)) == x, V(x)))), **pats(P(x)))),
                ('neighbours of finished nodes are visited', All([x, z], Imp(And(E(x, z), P(x) >= 0), V(z)), patterns=[E(x, z)])),
                ('finishing order', All([x, z, w], Imp(And(E(x, z), inn(w), P(x) >= 0, P(x) <= P(w), Or(P(z) == -1, P(w) < P(z))), REACH(z, w)), **pats((E(x, z), P(w)), (E(x, z), REACH(z, w))))),
                ('order is initialised', inited(self.il, u))]
    def since(self, old, extra=None, frm=None):
        """relation to an earlier state; extra: a node that may have become grey; frm: new finished nodes are reachable from it"""
        n = self.X.n; inn = lambda q: And(q >= 0, q < n); V, P = self.V, self.P
        g = lambda q: old.grey(q) if extra is None else Or(old.grey(q), q == extra)
        out = [('visited nodes stay visited', All([x], Imp(And(inn(x), old.V(x)), V(x)), **pats(self.vl(x)))),
               ('finished nodes stay', All([x], Imp(And(inn(x), old.P(x) >= 0), P(x) == old.P(x)), **pats(P(x)))),
               ('open nodes', All([x], Imp(inn(x), self.grey(x) == g(x)), **pats(P(x)))),
               ('count grows', self.u >= old.u),
               ('newly finished nodes are later', All([x], Imp(And(inn(x), old.P(x) == -1, P(x) >= 0), P(x) >= old.u), **pats(P(x))))]
        if frm is not None:
            out.append(('newly finished nodes are reachable', All([x], Imp(And(inn(x), old.P(x) == -1, P(x) >= 0), REACH(frm, x)), **pats(P(x)))))
        return out
def visit_contract(X, ord_rid, measure=None):
    def f(eng, st, a):
        if not (isinstance(a[0], Ptr) and a[0].rid == X.p.rid):
            raise Unsupported('another processor')
        q = X.node(eng, st, a[1]); ao = a[2]
        ob = st.regions[ao.rid].fields[norm(ao.off + X.ab)][1]
        rid = ord_rid if ord_rid is not None else ob.rid
        eng.require(st, z3.BoolVal(ob.rid == rid), 'call VisitUnvisitedNode: with the order being built')
        u = eng.load(st, ('int', 64), a[3], 'used'); A = Visit(X, st, rid, u)
        for nm, g in A.inv():
            eng.require(st, g, 'call VisitUnvisitedNode: ' + nm)
        eng.require(st, Not(A.V(q)), 'call VisitUnvisitedNode: the node is not visited')
        eng.require(st, All([x], Imp(And(x >= 0, x < X.n, A.grey(x)), REACH(x, q))), 'call VisitUnvisitedNode: open nodes reach the node')
        if measure:
            m, e = measure
            eng.require(st, And(A.V(e), All([x], Imp(And(x >= 0, x < X.n, m.V(x)), A.V(x)))), 'call VisitUnvisitedNode: fewer unvisited nodes (the recursion ends)')
        nv = X.fresh(eng, st, 'visited'); np = X.fresh(eng, st, 'finished.at'); no = X.fresh(eng, st, 'order'); u2 = eng.fresh(st, INT, 'used')
        r = st.mut(X.nodes); r.lanes[(X.no['visited'], 'raw')] = base_lane(nv, 1); r.lanes[(0, 'pos')] = base_lane(np)
        o_ = st.mut(rid); o_.lanes[(0, 'raw')] = base_lane(no, 8); o_.lanes[(0, 'init')] = base_lane(X.fresh(eng, st, 'order.init', BOOL))
        eng.store(st, ('int', 64), u2, a[3])
        B_ = Visit(X, st, rid, u2)
        for nm, g in B_.inv() + B_.since(A, frm=q):
            st.add(g)
        st.add(And(B_.P(q) >= 0, B_.V(q)))
        return R(st)
    return f
def deep(c, st, goals, what):
    for nm, g in goals:
        c.ensure(st, g, what + ': ' + nm)

def f(track):
    X = OC(track); c = X.c; eng = c.eng
    ao = c.obj('ARR'); rid = X.arr('order', X.n)
    q = c.st.mut(ao.rid); q.fields[X.ab] = (8, Ptr(rid, 0, X.n == 0)); q.fields[X.ac] = (8, X.n)
    up, u = X.cell('used'); v = c.int('node', 0); c.st.add(v < X.n)
    A = Visit(X, c.st, rid, u)
    for nm, g in A.inv():
        c.st.add(g)
    c.st.add(Not(A.V(v))); c.st.add(All([x], Imp(And(x >= 0, x < X.n, A.grey(x)), REACH(x, v)), patterns=[A.P(x)]))
    eng.contracts[VISIT] = visit_contract(X, rid, (A, v))
    cur = lambda st, u=None: Visit(X, st, rid, st.regions[up.rid].fields[0][1] if u is None else u)
    for t, (nm, _) in enumerate(A.inv()):
        eng.inv_templates.append((nm, lambda e, st, t=t: cur(st).inv()[t][1], 0))
    for t, (nm, _) in enumerate(A.since(A, v, v)):
        eng.inv_templates.append((nm, lambda e, st, t=t: cur(st).since(A, v, v)[t][1], 0))
    eng.inv_templates.append(('done above', lambda e, st, g: All([k], Imp(And(k > g, k < NO(v)), cur(st).V(OUT(v, k))), patterns=[OUT(v, k)]), 1))
    eng.inv_templates.append(('done from', lambda e, st, g: All([k], Imp(And(k >= g, k < NO(v)), cur(st).V(OUT(v, k))), patterns=[OUT(v, k)]), 1))
    eng.inv_templates.append(('done below', lambda e, st, g: All([k], Imp(And(k >= 0, k < g), cur(st).V(OUT(v, k))), patterns=[OUT(v, k)]), 1))
    # pigeonhole: v is not finished, so the order is not full
    def full(st, at):
        S = cur(st, at)
        return all(eng.valid(st, g) for g in [S.P(v) == -1] + [g for nm, g in S.inv()[1:4]])
    eng.contracts[NS + 'Array<long>::operator[](long)'] = pigeon(X, rid, full)
    for o in c.run(VISIT, [X.p, Ptr(X.nodes, norm(v * X.nsz)), ao, up]):
        c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'returns')
        if o.kind != 'ret':
            continue
        S = cur(o.st); st = o.st
        # ghost: v is finished at the last position
        old = S.P; r = st.mut(X.nodes); r.lanes[(0, 'pos')] = base_lane(lambda q: z3.If(zi(q) == v, S.u - 1, old(q)))
        S = cur(st)
        deep(c, st, S.inv() + S.since(A, frm=v), 'VisitUnvisitedNode')
        c.ensure(st, And(S.P(v) >= 0, S.V(v)), 'VisitUnvisitedNode: the node is finished')
C19.case('VisitUnvisitedNode', UNIT, budget=300)(f)
def pigeon(X, rid, full):
    def f(eng, st, a):
        b = st.regions[a[0].rid].fields.get(norm(zi(a[0].off) + X.ab)) if isinstance(a[0], Ptr) else None
        if b is not None and isinstance(b[1], Ptr) and b[1].rid == rid:
            if full(st, zi(a[1])):
                st.add(zi(a[1]) < X.n)
        return None
    return f

# ------------------------------------------------------------------ second pass
PF = z3.Function('finish', INT, INT)          # position of a node in the complete finishing order
def finishing(X, st, P=PF):
    """what the first pass leaves behind"""
    n = X.n; inn = lambda q: And(q >= 0, q < n)
    st.add(All([x], Imp(inn(x), And(P(x) >= 0, P(x) < n)), **pats(P(x))))
    st.add(All([x, z, w], Imp(And(E(x, z), inn(w), P(x) <= P(w), P(w) < P(z)), REACH(z, w)), **pats((E(x, z), P(w)), (E(x, z), REACH(z, w)))))
class Assign:
    """C component of a node (-1 before), Q its position in the buffer, B the buffer, u its used length"""
    def __init__(self, X, st, rid, u):
        self.X = X; self.C = X.lane(st, 'component'); self.Q = X.lane(st, 'bpos'); (self.B, self.il), self.u = X.raw(st, rid), zi(u)
    def inv(self, top):
        """components are numbered up to top"""
        n = self.X.n; inn = lambda q: And(q >= 0, q < n); C, Q, B, u = self.C, self.Q, self.B, self.u
        return [('used count', And(u >= 0, u <= n)),
                ('buffer holds nodes', All([k], Imp(And(k >= 0, k < u), And(inn(B(k)), Q(B(k)) == k)), **pats(B(k)))),
                ('buffer positions', All([x], Imp(inn(x), Or(And(C(x) == -1, Q(x) == -1), And(C(x) >= 0, C(x) <= top, Q(x) >= 0, Q(x) < u, B(Q(x)) == x))), **pats(C(x), Q(x)))),
                ('buffer is initialised', inited(self.il, u))]
    def since(self, old, comp, root, P, but=None):
        n = self.X.n; inn = lambda q: And(q >= 0, q < n); C, Q, B = self.C, self.Q, self.B
        new = lambda q: And(inn(q), old.C(q) == -1, C(q) != -1)
        nb = lambda q: TRUE if but is None else q != but
        return [('assigned nodes stay', All([x], Imp(And(inn(x), old.C(x) != -1), And(C(x) == old.C(x), Q(x) == old.Q(x))), **pats(C(x), Q(x)))),
                ('newly assigned nodes', All([x], Imp(new(x), And(C(x) == comp, Q(x) >= old.u)), **pats(C(x), Q(x)))),
                ('used count grows', self.u >= old.u),
                ('newly assigned nodes reach the root', All([x], Imp(new(x), REACH(x, root)), **pats(C(x)))),
                ('newly assigned nodes and all finished between are reached', All([x, w], Imp(And(new(x), inn(w), P(x) <= P(w), P(w) <= P(root)), REACH(root, w)), **pats((C(x), P(w))))),
                ('dependencies of newly assigned nodes are assigned', All([x, z], Imp(And(E(z, x), new(x), nb(x)), C(z) != -1), patterns=[E(z, x)]))]
def assign_pre(X, S, q, comp, root, P):
    inn = lambda q: And(q >= 0, q < X.n)
    return S.inv(comp) + [('the node is not assigned', S.C(q) == -1), ('component index', comp >= 0),
            ('the node reaches the root', REACH(q, root)),
            ('the root reaches the node and all finished between', And(P(q) <= P(root), All([w], Imp(And(inn(w), P(q) <= P(w), P(w) <= P(root)), REACH(root, w)), **pats(P(w))))),
            ('unassigned nodes are finished before the root', All([x], Imp(And(inn(x), S.C(x) == -1), P(x) <= P(root)), **pats(S.C(x))))]
def assign_contract(X, root_of, P, measure=None):
    def f(eng, st, a):
        if not (isinstance(a[0], Ptr) and a[0].rid == X.p.rid):
            raise Unsupported('another processor')
        q = X.node(eng, st, a[1]); comp = zi(a[2]); root = root_of(q); Pn = P(st)
        b = st.regions[X.p.rid].fields[X.off['firstNodesBuffer'] + X.ab][1]
        u = eng.load(st, ('int', 64), a[3], 'used'); A = Assign(X, st, b.rid, u)
        eng.require(st, st.regions[X.p.rid].fields[X.off['firstNodesBuffer'] + X.ac][1] == X.n, 'call AssignUnassignedNode: a buffer for all nodes')
        for nm, g in assign_pre(X, A, q, comp, root, Pn):
            eng.require(st, g, 'call AssignUnassignedNode: ' + nm)
        if measure:
            m, e, cc = measure
            eng.require(st, And(comp == cc, A.C(e) != -1, All([x], Imp(And(x >= 0, x < X.n, m.C(x) != -1), A.C(x) != -1))), 'call AssignUnassignedNode: fewer unassigned nodes (the recursion ends)')
        nc = X.fresh(eng, st, 'component'); nq = X.fresh(eng, st, 'assigned.at'); nb = X.fresh(eng, st, 'buffer'); u2 = eng.fresh(st, INT, 'used')
        r = st.mut(X.nodes); r.lanes[(X.no['component'], 'raw')] = base_lane(nc, 8); r.lanes[(0, 'bpos')] = base_lane(nq)
        o_ = st.mut(b.rid); o_.lanes[(0, 'raw')] = base_lane(nb, 8); o_.lanes[(0, 'init')] = base_lane(X.fresh(eng, st, 'buffer.init', BOOL))
        eng.store(st, ('int', 64), u2, a[3])
        S = Assign(X, st, b.rid, u2)
        for nm, g in S.inv(comp) + S.since(A, comp, root, Pn):
            st.add(g)
        st.add(And(S.C(q) == comp, u2 > u))
        return R(st)
    return f
def f(track):
    X = OC(track); c = X.c; eng = c.eng; n = X.n
    rid = X.arr('buffer', n); q = c.st.mut(X.p.rid)
    q.fields[X.off['firstNodesBuffer'] + X.ab] = (8, Ptr(rid, 0, n == 0)); q.fields[X.off['firstNodesBuffer'] + X.ac] = (8, n)
    up, u = X.cell('used'); v = c.int('node', 0); root = c.int('root', 0); comp = c.int('component index', 0); c.st.add(And(v < n, root < n))
    finishing(X, c.st)
    A = Assign(X, c.st, rid, u)
    for nm, g in assign_pre(X, A, v, comp, root, PF):
        c.st.add(g)
    eng.contracts[ASSIGN] = assign_contract(X, lambda q: root, lambda st: PF, (A, v, comp))
    cur = lambda st, u=None: Assign(X, st, rid, st.regions[up.rid].fields[0][1] if u is None else u)
    for t, (nm, _) in enumerate(A.inv(comp)):
        eng.inv_templates.append((nm, lambda e, st, t=t: cur(st).inv(comp)[t][1], 0))
    for t, (nm, _) in enumerate(A.since(A, comp, root, PF, v)):
        eng.inv_templates.append((nm, lambda e, st, t=t: cur(st).since(A, comp, root, PF, v)[t][1], 0))
    eng.inv_templates.append(('node is assigned', lambda e, st: And(cur(st).C(v) == comp, cur(st).u > A.u), 0))
    for nm, rng in (('above', lambda g: And(k > g, k < NI(v))), ('from', lambda g: And(k >= g, k < NI(v))), ('below', lambda g: And(k >= 0, k < g))):
        eng.inv_templates.append(('done ' + nm, lambda e, st, g, rng=rng: All([k], Imp(rng(g), cur(st).C(IN(v, k)) != -1), patterns=[IN(v, k)]), 1))
    def full(st, at):
        S = cur(st, at)
        ok = all(eng.valid(st, g) for g in [S.Q(v) == -1, And(at >= 0, at <= n), S.inv(comp)[1][1]])
        r = st.mut(X.nodes); old = r.lanes[(0, 'bpos')]; r.lanes[(0, 'bpos')] = base_lane(lambda q: z3.If(zi(q) == v, at, old(q)))     # ghost: where v is about to be written
        return ok
    eng.contracts[NS + 'Array<long>::operator[](long)'] = pigeon(X, rid, full)
    for o in c.run(ASSIGN, [X.p, Ptr(X.nodes, norm(v * X.nsz)), comp, up]):
        c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'returns')
        if o.kind == 'ret':
            S = cur(o.st)
            deep(c, o.st, S.inv(comp) + S.since(A, comp, root, PF), 'AssignUnassignedNode')
            c.ensure(o.st, And(S.C(v) == comp, S.u > A.u), 'AssignUnassignedNode: the node is assigned')
C19.case('AssignUnassignedNode', UNIT, budget=300)(f)

# ------------------------------------------------------------------ Sort
class Comps:
    """the list of components: first position in the buffer and number of nodes"""
    def __init__(self, X, st):
        r = st.regions[X.comps]; self.s = r.lanes[(0, 'first')]; self.m = r.lanes[(0, 'number')]
        self.cc = zi(st.regions[X.p.rid].fields[X.off['components'] + X.ac][1])
def comp_inv(X, S, K):
    n = X.n; inn = lambda q: And(q >= 0, q < n); C, Q, B, u = S.C, S.Q, S.B, S.u; s, m, cc = K.s, K.m, K.cc
    ok = lambda q: And(q >= 0, q < cc)
    return S.inv(cc - 1) + [
        ('component count', And(cc >= 0, cc <= u)),
        ('nodes of one component depend on each other', All([x, y], Imp(And(inn(x), inn(y), C(x) == C(y), C(x) != -1), REACH(x, y)), **pats((C(x), C(y))))),
        ('no node depends on a later component', All([x, z], Imp(And(E(z, x), C(x) != -1), And(C(z) != -1, C(z) <= C(x))), patterns=[E(z, x)])),
        ('components are ranges of the buffer', All([i], Imp(ok(i), And(s(i) >= 0, m(i) >= 1, s(i) + m(i) <= u)), **pats(s(i)))),
        ('components follow each other', And(All([i], Imp(And(ok(i), i > 0), s(i) == s(i - 1) + m(i - 1)), **pats(s(i))), Imp(cc > 0, s(0) == 0), u == z3.If(cc == 0, I(0), s(cc - 1) + m(cc - 1)))),
        ('every node stands in its component', All([x], Imp(And(inn(x), C(x) != -1), And(s(C(x)) <= Q(x), Q(x) < s(C(x)) + m(C(x)))), **pats(Q(x), C(x)))),
        ('a component holds its nodes only', All([i, k], Imp(And(ok(i), k >= s(i), k < s(i) + m(i)), C(B(k)) == i), **pats((s(i), B(k)))))]
def f(track):
    X = OC(track); c = X.c; eng = c.eng; n = X.n; p = X.p
    r = eng.new_array(c.st, 'components', 16, I(BIG), heap='param'); X.comps = r.rid
    for nm in ('first', 'number'):
        g = z3.Function('component.' + nm, INT, INT); X.ghost(r, nm, g)
    r = c.st.mut(X.nodes)
    r.lanes[(X.no['visited'], 'raw')] = base_lane(lambda q: I(0), 1); r.lanes[(X.no['component'], 'raw')] = base_lane(lambda q: I(-1), 8)
    r.lanes[(0, 'pos')] = base_lane(lambda q: I(-1)); r.lanes[(0, 'bpos')] = base_lane(lambda q: I(-1))
    X.ord = X.up = X.up2 = None
    buf = lambda st: st.regions[p.rid].fields[X.off['firstNodesBuffer'] + X.ab][1].rid
    vc = visit_contract(X, None); ac = assign_contract(X, lambda q: q, lambda st: X.lane(st, 'pos'))
    def visit(eng, st, a):
        X.ord = st.regions[a[2].rid].fields[norm(zi(a[2].off) + X.ab)][1].rid; X.up = a[3]
        return vc(eng, st, a)
    def assign(eng, st, a):
        X.up2 = a[3]
        return ac(eng, st, a)
    def add(eng, st, a):
        if not (isinstance(a[0], Ptr) and a[0].rid == p.rid and a[0].off == X.off['components']):
            return None
        q = eng.load(st, ('ptr',), Ptr(a[1].rid, norm(zi(a[1].off) + X.co['firstNode'])), 'component'); m = eng.load(st, ('int', 64), Ptr(a[1].rid, norm(zi(a[1].off) + X.co['nodeCount'])), 'component')
        b = st.regions[p.rid].fields[X.off['firstNodesBuffer'] + X.ab][1].rid
        eng.require(st, z3.BoolVal(isinstance(q, Ptr) and q.rid == b), 'a component points into the buffer')
        fs = st.mut(p.rid).fields; cc = zi(fs[X.off['components'] + X.ac][1]); K = st.mut(X.comps); at, rem = split(q.off, 8)
        for nm, v in (('first', zi(at)), ('number', zi(m))):
            K.lanes[(0, nm)] = (lambda old, v: base_lane(lambda q: z3.If(zi(q) == cc, v, old(q))))(K.lanes[(0, nm)], v)
        fs[X.off['components'] + X.ac] = (8, cc + 1)
        return R(st, cc)
    eng.contracts[VISIT] = visit; eng.contracts[ASSIGN] = assign
    eng.contracts[NS + 'List<vl::collections::po::Component>::Add(vl::collections::po::Component const&)'] = add
    eng.contracts[NS + 'List<vl::collections::po::Component>::Add(vl::collections::po::Component&&)'] = add
    val = lambda st, q: zi(st.regions[q.rid].fields[q.off][1])
    def v1(st):
        if X.ord is None or X.up is None or X.ord not in st.regions or X.up.off not in st.regions[X.up.rid].fields:
            raise Unsupported('not in the first pass')
        return Visit(X, st, X.ord, val(st, X.up))
    def v2(st):
        b = buf(st)
        if b is None or X.up2 is None or X.up2.rid not in st.regions or X.up2.off not in st.regions[X.up2.rid].fields:
            raise Unsupported('not in the second pass')
        return Assign(X, st, b, val(st, X.up2)), Comps(X, st)
    inn = lambda q: And(q >= 0, q < n)
    for t in range(7):
        eng.inv_templates.append(('first pass %d' % t, lambda e, st, t=t: v1(st).inv()[t][1], 0))
    eng.inv_templates.append(('no open node', lambda e, st: All([x], Imp(inn(x), Not(v1(st).grey(x))), **pats(v1(st).P(x), v1(st).vl(x))), 0))
    for nm, rng in (('above', lambda g, q: q > g), ('from', lambda g, q: q >= g), ('below', lambda g, q: q < g)):
        eng.inv_templates.append(('visited ' + nm, lambda e, st, g, rng=rng: All([x], Imp(And(inn(x), rng(g, x)), v1(st).V(x)), **pats(v1(st).vl(x))), 1))
        eng.inv_templates.append(('assigned ' + nm, lambda e, st, g, rng=rng: (v2(st), All([x], Imp(And(inn(x), rng(g, X.lane(st, 'pos')(x))), v2(st)[0].C(x) != -1), **pats(v2(st)[0].C(x))))[1], 1))
    for t in range(11):
        eng.inv_templates.append(('second pass %d' % t, lambda e, st, t=t: comp_inv(X, *v2(st))[t][1], 0))
    eng.inv_templates.append(('start of the next component', lambda e, st, g: g == v2(st)[0].u, 1))
    def order_full(eng, st, a):
        # pigeonhole: all nodes are finished, so the order is full
        b = st.regions[a[0].rid].fields.get(norm(zi(a[0].off) + X.ab)) if isinstance(a[0], Ptr) else None
        if b is not None and isinstance(b[1], Ptr) and b[1].rid == X.ord and X.up is not None and X.up.off in st.regions[X.up.rid].fields:
            S = v1(st)
            if all(eng.valid(st, g) for g in [All([x], Imp(inn(x), And(S.P(x) >= 0, S.P(x) < S.u, S.O(S.P(x)) == x)))]):
                st.add(S.u >= n)
        return None
    eng.contracts[NS + 'Array<long>::operator[](long)'] = order_full
    for o in c.run('api_Sort', [p]):
        c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'returns')
        if o.kind == 'ret' :
            st = o.st; fs = st.regions[p.rid].fields
            c.ensure(st, zi(fs[X.off['firstNodesBuffer'] + X.ac][1]) == n, 'Sort: size of the buffer')
            if buf(st) is None:
                c.ensure(st, And(n == 0, Comps(X, st).cc == 0), 'Sort: nothing to sort'); continue
            if X.up2 is None:
                raise Unsupported('no second pass')
            S, K = v2(st)
            deep(c, st, comp_inv(X, S, K), 'Sort')
            c.ensure(st, All([x], Imp(inn(x), And(S.C(x) >= 0, S.C(x) < K.cc))), 'Sort: every node is in a component')
            for nm in ('ins', 'outs', 'firstSubClassItem', 'subClassItemCount'):
                g0, g1 = X.lane(c.st, nm), X.lane(st, nm)
                c.ensure_forall(st, lambda q: g0(q) == g1(q), 'Sort: ' + nm + ' of the nodes unchanged', lambda q: inn(q))
C19.case('Sort', UNIT, budget=400)(f)

# ------------------------------------------------------------------ InitNodes: edge lists of the nodes
KX = {o: z3.Function(o + '.key index', INT, INT) for o in ('ins', 'outs')}; KA = {o: z3.Function(o + '.key at', INT, INT) for o in ('ins', 'outs')}
def group_of(X, p):
    """'ins' or 'outs' when p points into that member of the processor"""
    if isinstance(p, Ptr) and p.rid == X.p.rid:
        for o in ('ins', 'outs'):
            if isinstance(p.off, int) and X.off[o] <= p.off < X.off[o] + X.gsz:
                return o
    return None
def code(X, o):
    return (lambda q: zi(q)) if o == 'ins' else (lambda q: -10 - zi(q))
def node_resize(X, st_nodes):
    """Array<Node>::Resize on an empty array (contract of C01): default constructed nodes"""
    def f(eng, st, a):
        if not (isinstance(a[0], Ptr) and a[0].rid == X.p.rid and a[0].off == X.off['nodes']):
            return None
        fs = st.mut(X.p.rid).fields
        eng.require(st, And(zi(fs[X.off['nodes'] + X.nc][1]) == 0, zi(a[1]) >= 0), 'call Resize: an empty array')
        r = eng.new_array(st, 'new nodes', X.nsz, zi(a[1]), heap='new[]'); X.newnodes = r.rid
        for nm, sz in (('visited', 1), ('component', 8), ('subClassItemCount', 8)):
            v = X.dflt[nm]; r.lanes[(X.no[nm], 'raw')] = base_lane(lambda q, v=v: v, sz)
        for nm in ('ins', 'outs', 'firstSubClassItem'):
            r.lanes[(X.no[nm], 'raw')] = base_lane(lambda q: I(-5), 8)
        for o in ('ins', 'outs'):
            def enc(eng, st, v):
                if isinstance(v, Ptr) and v.rid == X.p.rid and v.off == X.off['emptyList']:
                    return I(-1)
                for g in ('ins', 'outs'):
                    if isinstance(v, Ptr) and v.rid == X.lists[g]:
                        q, rem = split(v.off, X.lsz)
                        return code(X, g)(q) if rem == 0 else I(-7)
                return I(-6)
            r.meta[('enc', X.no[o])] = enc
        fs[X.off['nodes'] + X.nb] = (8, Ptr(r.rid, 0, zi(a[1]) == 0)); fs[X.off['nodes'] + X.nc] = (8, zi(a[1]))
        return R(st)
    return f
def init_ctx(track):
    X = OC(track); c = X.c; eng = c.eng
    X.gsz = X.off['outs'] - X.off['ins']
    d = c.obj('NODE'); X.dflt = {nm: eng.load(c.st, ('int', 8 if nm == 'visited' else 64), Ptr(d.rid, X.no[nm]), nm) for nm in ('visited', 'component', 'subClassItemCount')}
    q = c.st.mut(X.p.rid); q.fields[X.off['nodes'] + X.nb] = (8, NULL); q.fields[X.off['nodes'] + X.nc] = (8, I(0))
    cnt = {o: c.int(o + '.keys', 0, BIG) for o in ('ins', 'outs')}
    for o in ('ins', 'outs'):
        c.st.add(All([k], Imp(KX[o](k) != -1, And(KX[o](k) >= 0, KX[o](k) < cnt[o], KA[o](KX[o](k)) == k)), patterns=[KX[o](k)]))
    def indexof(eng, st, a):
        o = group_of(X, a[0])
        if o is None:
            return None
        return R(st, KX[o](eng.load(st, ('int', 64), a[1], 'key')))
    def byindex(eng, st, a):
        o = group_of(X, a[0])
        if o is None:
            return None
        eng.require(st, And(zi(a[1]) >= 0, zi(a[1]) < cnt[o]), 'call GetByIndex: index in range')
        return R(st, Ptr(X.lists[o], norm(KA[o](zi(a[1])) * X.lsz)))
    eng.contracts[NS + 'SortedList<long>::IndexOf(long const&) const'] = indexof
    eng.contracts[NS + 'Group<long, long>::GetByIndex(long) const'] = byindex
    eng.contracts[NS + 'Array<vl::collections::po::Node>::Resize(long)'] = node_resize(X, None)
    return X
def f(track):
    X = init_ctx(track); c = X.c; eng = c.eng; n = X.n; X.newnodes = None
    want = lambda o, q: z3.If(KX[o](q) != -1, code(X, o)(q), I(-1))
    def ln(st, o):
        if X.newnodes is None or X.newnodes not in st.regions:
            raise Unsupported('no nodes')
        return st.regions[X.newnodes].lanes[(X.no[o], 'raw')]
    for o in ('ins', 'outs'):
        for nm, rng in (('above', lambda g: And(k > g, k < n)), ('from', lambda g: And(k >= g, k < n)), ('below', lambda g: And(k >= 0, k < g))):
            eng.inv_templates.append((o + ' ' + nm, lambda e, st, g, o=o, rng=rng: All([k], Imp(rng(g), ln(st, o)(k) == want(o, k)), **pats(ln(st, o)(k))), 1))
    for out in c.run('api_InitNodes', [X.p, n]):
        st = out.st
        c.ensure(st, z3.BoolVal(out.kind == 'ret'), 'returns')
        if out.kind == 'ret':
            fs = st.regions[X.p.rid].fields
            c.ensure(st, And(z3.BoolVal(fs[X.off['nodes'] + X.nb][1].rid == X.newnodes), zi(fs[X.off['nodes'] + X.nc][1]) == n), 'InitNodes: one node per item')
            for o in ('ins', 'outs'):
                c.ensure(st, All([k], Imp(And(k >= 0, k < n), ln(st, o)(k) == want(o, k))), 'InitNodes: ' + o + ' of every node')
            r = st.regions[X.newnodes]
            for nm, v in (('visited', 0), ('component', -1)):
                g = r.lanes[(X.no[nm], 'raw')]
                c.ensure_forall(st, lambda q: g(q) == v, 'InitNodes: ' + nm + ' of every node', lambda q: And(q >= 0, q < n))
C19.case('InitNodes', UNIT)(f)

# ------------------------------------------------------------------ InitWithGroup, InitWithFunc: the relation
IDX = z3.Function('item index', INT, INT); IV = z3.Function('item', INT, INT)
KV = z3.Function('dep.key', INT, INT); NV = z3.Function('dep.count', INT, INT); VV = z3.Function('dep.value', INT, INT, INT); VC = z3.Function('dep.cell', INT, INT, INT); VI = z3.Function('dep.item', INT, INT)
PR = z3.Function('pair', INT, INT, INT); PR1 = z3.Function('pair.first', INT, INT); PR2 = z3.Function('pair.second', INT, INT)
DEPR = z3.Function('depends', INT, INT, BOOL); DEPV = z3.Function('depFunc', INT, INT, BOOL)
class IG:
    def __init__(self, track, func=False):
        self.X = X = init_ctx(track); c = X.c; eng = c.eng; n = X.n; st = c.st; self.c = c
        inn = lambda q: And(q >= 0, q < n)
        self.g = c.int('dep.keys', 0, BIG)
        st.add(All([x, y], And(PR1(PR(x, y)) == x, PR2(PR(x, y)) == y), patterns=[PR(x, y)]))
        st.add(All([x], Or(IDX(x) == -1, And(inn(IDX(x)), IV(IDX(x)) == x)), patterns=[IDX(x)]))
        st.add(All([i], Imp(inn(i), IDX(IV(i)) == i), patterns=[IV(i)]))
        st.add(All([i], And(NV(i) >= 1, NV(i) <= BIG), patterns=[NV(i)]))
        st.add(All([i, j], Imp(And(i >= 0, i < self.g, j >= 0, j < NV(i)), DEPR(IDX(KV(i)), IDX(VV(i, j)))), patterns=[VV(i, j)]))
        r = eng.new_array(st, 'relation', 8, I(BIG), heap='param'); self.rel = r.rid
        for o in ('ins', 'outs', 'dep'):
            r.lanes[(0, o)] = base_lane(lambda q: FALSE)
        mk = lambda nm, fn, cnt: self.elems(nm, fn, cnt)
        self.items = c.obj('LE').rid; self.itemv = mk('items', lambda q: IV(zi(q)), n)
        self.group = c.obj('GE', construct=False).rid; self.keyv = mk('dep keys', lambda q: KV(zi(q)), self.g); self.valv = mk('dep values', lambda q: VI(zi(q)), I(BIG))
        self.rows = eng.new_array(c.st, 'dep rows', 64, self.g, heap='param').rid
        self.keys = eng.new_struct(c.st, 'dep keys object', 64, heap='param').rid
        self.fo = eng.new_struct(c.st, 'depFunc', 1, heap='param').rid
        ct = eng.contracts
        P = lambda p, rid: isinstance(p, Ptr) and p.rid == rid
        def val(st, p, what):
            r, l = eng.elem(st, p, what); eng.require(st, eng.elem_get(st, r, l, 'live'), what + ' is alive'); return eng.elem_get(st, r, l, 'v')
        def count(eng, st, a):
            if P(a[0], self.items): return R(st, n)
            if P(a[0], self.keys): return R(st, self.g)
            if P(a[0], self.rows):
                q, rem = split(a[0].off, 64); eng.require(st, And(zi(q) >= 0, zi(q) < self.g), 'call Count: row of a key'); return R(st, NV(zi(q)))
            return None
        def get(eng, st, a):
            k_ = zi(a[1])
            if P(a[0], self.items):
                eng.require(st, And(k_ >= 0, k_ < n), 'call Get: index of an item'); return R(st, Ptr(self.itemv, norm(k_ * 8)))
            if P(a[0], self.keys):
                eng.require(st, And(k_ >= 0, k_ < self.g), 'call Get: index of a key'); return R(st, Ptr(self.keyv, norm(k_ * 8)))
            if P(a[0], self.rows):
                q, rem = split(a[0].off, 64); q = zi(q); eng.require(st, And(q >= 0, q < self.g, k_ >= 0, k_ < NV(q)), 'call Get: index of a value')
                e = VC(q, k_); st.add(And(e >= 0, e < BIG, VI(e) == VV(q, k_))); return R(st, Ptr(self.valv, norm(e * 8)))
            return None
        ct[NS + 'ArrayBase<E>::Count() const'] = count
        for m in ('Get(long) const', 'operator[](long) const'):
            ct[NS + 'ArrayBase<E>::' + m] = get
        ct[NS + 'Group<E, E>::Count() const'] = lambda eng, st, a: R(st, self.g) if P(a[0], self.group) else None
        ct[NS + 'Group<E, E>::Keys() const'] = lambda eng, st, a: R(st, Ptr(self.keys, 0)) if P(a[0], self.group) else None
        def row(eng, st, a):
            if not P(a[0], self.group): return None
            eng.require(st, And(zi(a[1]) >= 0, zi(a[1]) < self.g), 'call GetByIndex: index of a key'); return R(st, Ptr(self.rows, norm(zi(a[1]) * 64)))
        ct[NS + 'Group<E, E>::GetByIndex(long) const'] = row
        def indexof(eng, st, a):
            if not P(a[0], self.items): return None
            return R(st, IDX(val(st, a[1], 'item looked up')))
        for cl in ('List<E>', 'ArrayBase<E>'):
            ct[NS + cl + '::IndexOf(E const&) const'] = indexof
        def add(eng, st, a):
            o = group_of(X, a[0])
            if o is None: return None
            x_, y_ = (eng.load(st, ('int', 64), q, 'edge') for q in a[1:3]); self.put(st, o, x_, y_)
            return R(st, TRUE)
        for t in ('long const&, long const&', 'long const&, long&&', 'long&&, long const&', 'long&&, long&&'):
            ct[NS + 'Group<long, long>::Add(%s)' % t] = add
        def contains(eng, st, a):
            o = group_of(X, a[0])
            if o is None: return None
            x_, y_ = (eng.load(st, ('int', 64), q, 'edge') for q in a[1:3]); return R(st, st.regions[self.rel].lanes[(0, o)](PR(x_, y_)))
        ct[NS + 'Group<long, long>::Contains(long const&, long const&) const'] = contains
        def initnodes(eng, st, a):
            eng.require(st, z3.BoolVal('inited' not in st.ghost), 'call InitNodes: once'); st.ghost['inited'] = zi(a[1]); return R(st)
        ct[NS + 'PartialOrderingProcessor::InitNodes(long)'] = initnodes
        self.val = val
    def put(self, st, o, a, b):
        r = st.mut(self.rel); old = r.lanes[(0, o)]; e = PR(a, b)
        r.lanes[(0, o)] = base_lane(lambda q: z3.If(zi(q) == e, TRUE, old(q)))
    def elems(self, nm, fn, cnt):
        r = self.c.eng.new_array(self.c.st, nm, 8, cnt, heap='param'); r.meta['ro'] = True; r.lanes[(0, 'v')] = base_lane(fn); r.lanes[(0, 'live')] = base_lane(lambda q: TRUE)
        return r.rid
    def R(self, st, o):
        return st.regions[self.rel].lanes[(0, o)]
    def known(self, i_, j_):
        return And(IDX(KV(i_)) != -1, IDX(VV(i_, j_)) != -1)
    def done(self, st, i_, j_):
        return And(self.known(i_, j_), self.R(st, 'ins')(PR(IDX(KV(i_)), IDX(VV(i_, j_)))), self.R(st, 'outs')(PR(IDX(VV(i_, j_)), IDX(KV(i_)))))
    def sound(self, st):
        a, b = self.R(st, 'ins'), self.R(st, 'outs')
        return [All([k], Imp(a(k), DEPR(PR1(k), PR2(k))), **pats(a(k))), All([k], Imp(b(k), DEPR(PR2(k), PR1(k))), **pats(b(k)))]
def phis(S):
    out = []
    for H in S.f.loops:
        for ins in S.f.blocks[H]:
            if ins.op != 'phi':
                break
            if isinstance(ins.a['t'], tuple) and ins.a['t'] == ('int', 64):
                out.append(ins.res)
    return out
def env_int(env, a):
    v = env.get(a)
    if v is None or isinstance(v, Ptr) or not (isinstance(v, int) or z3.is_int(v)):
        raise Unsupported('not in scope')
    return zi(v)
def group_case(nm, pre, check, rets):
    def f(track):
        G = IG(track); c = G.c; eng = c.eng; X = G.X
        pre(G)
        eng.inv_templates.append(('edges are dependencies', lambda e, st: G.sound(st)[0], 0)); eng.inv_templates.append(('reversed edges are dependencies', lambda e, st: G.sound(st)[1], 0))
        def gen(e, S):
            ps = phis(S); out = []
            for a in ps:
                out.append(('rows below ' + a, lambda st, env, a=a: [All([i, j], Imp(And(i >= 0, i < env_int(env, a), j >= 0, j < NV(i)), G.done(st, i, j)), patterns=[VV(i, j)])]))
                for b in ps:
                    if a != b:
                        out.append(('row %s below %s' % (a, b), lambda st, env, a=a, b=b: [All([j], Imp(And(j >= 0, j < env_int(env, b)), G.done(st, env_int(env, a), j)), patterns=[VV(env_int(env, a), j)])]))
            return out
        eng.inv_templates.append(('dependencies', gen, 'gen'))
        outs = c.run('api_InitWithGroup', [X.p, Ptr(G.items, 0), Ptr(G.group, 0)])
        for o in outs:
            if o.kind == 'ret':
                c.ensure(o.st, z3.BoolVal(rets), 'InitWithGroup: Error is raised')
                if rets:
                    c.ensure(o.st, z3.BoolVal('inited' in o.st.ghost), 'InitWithGroup: nodes are made')
                    if 'inited' in o.st.ghost:
                        c.ensure(o.st, o.st.ghost['inited'] == X.n, 'InitWithGroup: one node per item')
                    c.ensure(o.st, All([i, j], Imp(And(i >= 0, i < G.g, j >= 0, j < NV(i)), G.done(o.st, i, j)), patterns=[VV(i, j)]), 'InitWithGroup: every dependency is an edge in both directions')
                    for g in G.sound(o.st):
                        c.ensure(o.st, g, 'InitWithGroup: every edge is a dependency')
            else:
                c.ensure(o.st, z3.BoolVal(c.is_error(o) and not rets), 'InitWithGroup: raises Error only for unknown items or a second initialisation')
                c.ensure(o.st, z3.BoolVal('inited' not in o.st.ghost), 'InitWithGroup: no nodes after Error')
    C19.case(nm, UNIT)(f)
def pre(G):
    G.c.st.add(All([i, j], Imp(And(i >= 0, i < G.g, j >= 0, j < NV(i)), G.known(i, j)), patterns=[VV(i, j)]))
    G.c.st.add(All([i], Imp(And(i >= 0, i < G.g), IDX(KV(i)) != -1), patterns=[KV(i)]))
group_case('InitWithGroup', pre, None, True)
def pre(G):
    a, b = G.c.int('unknown.row', 0), G.c.int('unknown.column', 0)
    G.c.st.add(And(a < G.g, b < NV(a), Not(G.known(a, b))))
group_case('InitWithGroup, unknown item', pre, None, False)
def pre(G):
    X = G.X; q = G.c.st.mut(X.p.rid); q.fields[X.off['nodes'] + X.nb] = (8, Ptr(X.nodes, 0)); q.fields[X.off['nodes'] + X.nc] = (8, X.n); G.c.st.add(X.n > 0)
group_case('InitWithGroup, second time', pre, None, False)

def f(track):
    G = IG(track); c = G.c; eng = c.eng; X = G.X; n = X.n; inn = lambda q: And(q >= 0, q < n)
    def dep(eng, st, a):
        eng.require(st, z3.BoolVal(isinstance(a[0], Ptr) and a[0].rid == G.fo), 'the function given is called')
        return R(st, DEPV(G.val(st, a[1], 'argument'), G.val(st, a[2], 'argument')))
    eng.externs['_ZNK3DEPclERK1ES2_'] = dep
    def ctor(eng, st, a):
        if 'depGroup' in st.ghost: raise Unsupported('two groups')
        st.ghost['depGroup'] = a[0].rid; return R(st)
    def dtor(eng, st, a):
        eng.require(st, z3.BoolVal(st.ghost.get('depGroup') == a[0].rid), 'release: a group made before'); st.ghost['depGroup'] = None; return R(st)
    def add(eng, st, a):
        if st.ghost.get('depGroup') is None or not isinstance(a[0], Ptr) or a[0].rid != st.ghost['depGroup']: return None
        G.put(st, 'dep', G.val(st, a[1], 'key'), G.val(st, a[2], 'value')); return R(st, TRUE)
    def init(eng, st, a):
        eng.require(st, z3.BoolVal(isinstance(a[1], Ptr) and a[1].rid == G.items and isinstance(a[2], Ptr) and a[2].rid == st.ghost.get('depGroup')), 'call InitWithGroup: with the items and the dependencies')
        r = G.R(st, 'dep')
        eng.require(st, All([i, j], Imp(And(inn(i), inn(j), DEPV(IV(i), IV(j))), r(PR(IV(i), IV(j))))), 'InitWithFunc: every dependency is found')
        eng.require(st, All([k], Imp(r(k), And(DEPV(PR1(k), PR2(k)), IDX(PR1(k)) != -1, IDX(PR2(k)) != -1))), 'InitWithFunc: every dependency is one of the function')
        st.ghost['called'] = st.ghost.get('called', 0) + 1
        return R(st)
    ct = eng.contracts
    ct[NS + 'Group<E, E>::Group()'] = ctor; ct[NS + 'Group<E, E>::~Group()'] = dtor
    for t in ('E const&, E const&',):
        ct[NS + 'Group<E, E>::Add(%s)' % t] = add
    for d in [d for d in c.u.bydem if 'PartialOrderingProcessor::InitWithGroup<' in d]:
        ct[d] = init
    eng.inv_templates.append(('found are dependencies', lambda e, st: All([k], Imp(G.R(st, 'dep')(k), And(DEPV(PR1(k), PR2(k)), IDX(PR1(k)) != -1, IDX(PR2(k)) != -1)), **pats(G.R(st, 'dep')(k))), 0))
    def gen(e, S):
        ps = phis(S); out = []
        dn = lambda st, a, b: Imp(DEPV(IV(a), IV(b)), G.R(st, 'dep')(PR(IV(a), IV(b))))
        for a in ps:
            out.append(('rows below ' + a, lambda st, env, a=a: [All([i, j], Imp(And(i >= 0, i < env_int(env, a), inn(j)), dn(st, i, j)), patterns=[DEPV(IV(i), IV(j))])]))
            for b in ps:
                if a != b:
                    out.append(('row %s below %s' % (a, b), lambda st, env, a=a, b=b: [All([j], Imp(And(j >= 0, j < env_int(env, b)), dn(st, env_int(env, a), j)), patterns=[DEPV(IV(env_int(env, a)), IV(j))])]))
        return out
    eng.inv_templates.append(('dependencies', gen, 'gen'))
    for o in c.run('api_InitWithFunc', [X.p, Ptr(G.items, 0), Ptr(G.fo, 0)]):
        c.ensure(o.st, z3.BoolVal(o.kind == 'ret' and o.st.ghost.get('called') == 1), 'InitWithFunc: initialises once')
        c.ensure(o.st, z3.BoolVal(o.st.ghost.get('depGroup', 0) is None), 'InitWithFunc: the group is released')
C19.case('InitWithFunc', UNIT)(f)
