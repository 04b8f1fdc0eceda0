"""C25 unit test framework: failures are never lost, blocks nest, every file is run and counted."""
import re, z3
from vir.spec import *
from vir.engine import ExnVal
from vir.runner import Property

C25 = Property('C25'); PROPERTIES = [C25]
C25.driver = 'testing'
C25.assumptions = ['bodies of files, categories and cases are opaque: they return or throw, leave the current context as they found it and record failures only through the framework',
                   'strings and the console are used by contract: they do not change the state of the framework (strings: C06 to C10)',
                   'exception types of a body: the two of the framework, Error, Exception, a class derived from Exception and a foreign type']
C25.always_bounded = 'options, selection of files by /F and the printed totals: native driver, up to 6 registered files with random trees of blocks and assertions'
KINDS = ['userassert', 'userconfig', 'usererror', 'userexception', 'userargument', 'userint']
EXC, ARG = '_ZTIN2vl9ExceptionE', '_ZTIN2vl17ArgumentExceptionE'
CONFIG, ASSERT = '_ZTIN2vl8unittest19UnitTestConfigErrorE', '_ZTIN2vl8unittest19UnitTestAssertErrorE'
GLOBALS = ('ctx', 'head', 'tail', 'tf', 'pf', 'tc', 'pc', 'sup')

class TC:
    def __init__(self, track, body=None, record=True, extra=None, opts=None):
        o = dict(exn_bases={ARG: (EXC,)}); o.update(opts or {})
        ex = {'user_body': lambda e, s, a: self.body(s, body), 'user_cond': self.cond, 'user_statement': self.statement, 'user_check': self.usercheck}
        self.c = c = track(Ctx('test', externs=ex, opts=o)); eng = c.eng
        self.n = 0; self.count = True
        for m, d in c.u.dem.items():
            if re.match(r'vl::(ObjectString<(wchar_t|char)>::|operator[+](<|[(])|operator==|operator!=|operator<=>|itow|atow|wtoa|Error::|Exception::|ArgumentException::|console::Console::)', d) and m not in ex:
                eng.externs[m] = self.inert(m, d)
            if re.match(r'(ObjectString<|vl::ObjectString<|bool vl::operator|vl::ObjectString<(wchar_t|char)> vl::operator)', d) and m not in eng.externs:
                eng.externs[m] = self.inert(m, d)
            if d.startswith('vl::unittest::UnitTest::IsDebuggerAttached'):
                eng.externs[m] = self.fresh_bool
        self.g = {}
        for k in GLOBALS:
            p = c.helper('g_' + k); self.g[k] = p
            eng.global_region(c.st, c.st.regions[p.rid].meta['global'])
        self.off = {f: c.field('X', f, c.obj('X', construct=False)) for f in ('parent', 'indentation', 'kind', 'failed')}
        self.K = {k: const_of(c.helper('k_' + k)) for k in ('File', 'Category', 'Case')}
        if record:
            for d in c.u.bydem:
                if re.search(r'execution_impl::RecordFailure<', d):
                    eng.contracts[d] = self.record
    # ---- contracts of the surroundings
    def inert(self, m, d):
        """strings and console: no effect on the framework, result unspecified"""
        sh = d
        def f(eng, st, a):
            if 'Console::WriteLine' in d and self.count:
                st.ghost['lines'] = st.ghost.get('lines', 0) + 1
            if '::operator=(' in d:
                return R(st, a[0])
            t = self.rettype(m)
            if t[0] == 'void':
                return R(st)
            if t[0] == 'int':
                v = eng.dom.var(t[1], 'unspecified!%d' % self.tick()) if t[1] > 1 else z3.Bool('unspecified!%d' % self.tick())
                if t[1] > 1:
                    st.add(eng.dom.range(t[1], v))
                    if '::Length' in d:
                        st.add(v >= 0)
                return R(st, v)
            if t[0] == 'ptr':
                r = eng.new_struct(st, 'text', 64, heap='param'); return R(st, Ptr(r.rid, 0))
            raise Unsupported('result of ' + d)
        return f
    def rettype(self, m):
        mod = self.c.u.m
        f = mod.funcs.get(m)
        return (f if f is not None else mod.decls[m]).ret
    def tick(self):
        self.n += 1; return self.n
    def fresh_bool(self, eng, st, a):
        return R(st, z3.Bool('debugger'))
    def record(self, eng, st, a):
        """RecordFailure: one message, the current and every enclosing context failed"""
        if self.count:
            st.ghost['recorded'] = st.ghost.get('recorded', 0) + 1
        p = self.load(st, 'ctx')
        while p.rid is not None and st.regions[p.rid].kind == 'struct':
            if not z3.is_false(z3.simplify(p.null)):
                raise Unsupported('context')
            st.mut(p.rid).fields[p.off + self.off['failed']] = (1, I(1))
            p = eng.load(st, ('ptr',), Ptr(p.rid, p.off + self.off['parent']), 'parent')
        if p.rid is not None:
            if const_of(p.off) != 0:
                raise Unsupported('context')
            r = st.mut(p.rid); r.lanes[(self.off['failed'], 'raw')] = base_lane(lambda k: I(1), 1)
        return R(st)
    def load(self, st, k):
        return self.c.eng.load(st, ('ptr',) if k in ('ctx', 'head', 'tail') else ('int', 8) if k == 'sup' else ('int', 64), self.g[k], k)
    def store(self, st, k, v, w=8):
        st.mut(self.g[k].rid).fields[self.g[k].off] = (w, v)
    def counter(self, k):
        v = self.c.int(k, 0, BIG); self.store(self.c.st, k, v); return v
    def suppress(self, v=None):
        v = z3.Bool('suppress') if v is None else v; self.store(self.c.st, 'sup', z3.If(v, I(1), I(0)), 1); return v
    # ---- the enclosing contexts: a chain of any length
    def chain(self):
        c = self.c; eng = c.eng; st = c.st; sz = const_of(c.helper('sz_X')); st = c.st
        self.d = z3.Int('depth'); d = self.d; st.add(z3.And(d >= 0, d <= BIG))
        X = eng.new_array(st, 'contexts', sz, d, heap='param'); rid = X.rid; self.rid = rid
        self.kind = z3.Function('kind', INT, INT); self.fail = z3.Function('failed', INT, BOOL)
        q = z3.Int('q!kind'); st.add(z3.ForAll([q], z3.And(self.kind(q) >= 0, self.kind(q) <= 2), patterns=[self.kind(q)]))
        i, j = z3.Ints('i!fail j!fail')      # invariant of the chain: contexts around a failed one have failed
        st.add(z3.ForAll([i, j], z3.Implies(z3.And(self.fail(i), i <= j), self.fail(j)), patterns=[z3.MultiPattern(self.fail(i), self.fail(j))]))
        o = self.off
        X.lanes[(o['parent'], 'raw')] = base_lane(lambda k: zi(k) + 1, 8)
        X.lanes[(o['kind'], 'raw')] = base_lane(lambda k: self.kind(zi(k)), 4)
        X.lanes[(o['failed'], 'raw')] = base_lane(lambda k: z3.If(self.fail(zi(k)), I(1), I(0)), 1)
        nullat = lambda off: off == sz * d
        X.meta[('dec', o['parent'])] = lambda eng, st, v: Ptr(rid, norm(sz * v), z3.simplify(nullat(zi(norm(sz * v)))))
        X.meta['nullat'] = nullat
        st.add(z3.Int('base!%d' % rid) > 0)
        self.top = Ptr(rid, 0, z3.simplify(nullat(I(0)))); self.store(st, 'ctx', self.top)
        return d
    def failed(self, st):
        return st.regions[self.rid].lanes[(self.off['failed'], 'raw')]
    def back(self, st, what):
        """the current context is the one of the pre-state"""
        p = self.load(st, 'ctx')
        self.c.ensure(st, z3.BoolVal(isinstance(p, Ptr) and p.rid == self.rid and const_of(p.off) == 0), what + ': the current context is the enclosing one again')
    def text(self):
        r = self.c.eng.new_struct(self.c.st, 'text', 64, heap='param'); return Ptr(r.rid, 0)
    # ---- bodies
    def throws(self, st, kind):
        os = self.c.eng.run_function(st, self.c.u.m.funcs['api_' + kind], [])
        return [o for o in os if o.kind == 'throw']
    def body(self, st, check):
        eng = self.c.eng; st.ghost['bodies'] = st.ghost.get('bodies', 0) + 1
        p = self.load(st, 'ctx')
        if check:
            check(st, p)
        out = []
        nested = z3.Bool('nested failure!%d' % self.tick())
        st.ghost['nested'] = nested
        # failures recorded inside: the current and all enclosing contexts
        f = eng.load(st, ('int', 8), Ptr(p.rid, p.off + self.off['failed']), 'failed')
        st.mut(p.rid).fields[p.off + self.off['failed']] = (1, z3.If(nested, I(1), f))
        X = st.mut(self.rid); l = X.lanes[(self.off['failed'], 'raw')]
        X.lanes[(self.off['failed'], 'raw')] = base_lane(lambda k, l=l: z3.If(nested, I(1), l(k)), 1)
        # cases inside
        for k in ('pc', 'tc'):
            v = z3.Int('inner!%s!%d' % (k, self.tick())); st.add(z3.And(v >= 0, v <= BIG)); st.ghost['in.' + k] = v
            self.store(st, k, self.load(st, k) + v)
        for kind in [None] + KINDS:
            s = st.copy(); s.ghost['outcome'] = kind
            if kind is None:
                out.append(Outcome(s, 'ret', None))
            else:
                out += self.throws(s, kind)
        return out
    def cond(self, eng, st, a):
        st.ghost['asked'] = st.ghost.get('asked', 0) + 1
        return R(st, z3.Bool('condition'))
    def statement(self, eng, st, a):
        st.ghost['ran'] = st.ghost.get('ran', 0) + 1; out = []
        for kind in [None] + KINDS:
            s = st.copy(); s.ghost['outcome'] = kind
            if kind is None:
                out.append(Outcome(s, 'ret', None))
            else:
                out += self.throws(s, kind)
        return out
    def usercheck(self, eng, st, a):
        st.ghost['checked'] = st.ghost.get('checked', 0) + 1
        return R(st)
    def same(self, st, keys, pre, what):
        for k in keys:
            self.c.ensure(st, self.load(st, k) == pre[k], what + ': %s unchanged' % {'tf': 'number of files', 'pf': 'number of passed files', 'tc': 'number of cases', 'pc': 'number of passed cases'}[k])

def case(nm, f):
    C25.case(nm, 'test')(f)

for api in ('record', 'recordw'):
    def f(track, api=api):
        X = TC(track, record=False); c = X.c; d = X.chain(); t = X.text()
        for o in c.run('api_' + api, [t]):
            c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'returns')
            c.ensure_forall(o.st, lambda k: X.failed(o.st)(k) != 0, 'the current and every enclosing context is marked as failed', lambda k: z3.And(k >= 0, k < d))
            c.ensure(o.st, z3.BoolVal(o.st.ghost.get('lines', 0) == 1), 'the failure is printed once'); X.back(o.st, 'RecordFailure')
    case('RecordFailure [%s]' % ('literal message' if api == 'record' else 'string message'), f)

def f(track):
    X = TC(track); c = X.c; d = X.chain()
    for o in c.run('api_legal', []):
        ok = z3.And(d > 0, X.kind(I(0)) == X.K['Case'])
        c.ensure(o.st, ok if o.kind == 'ret' else z3.Not(ok), 'assertions are accepted exactly inside a case')
        if o.kind == 'throw':
            c.ensure(o.st, z3.BoolVal(o.val.tname == CONFIG), 'UnitTestConfigError')
case('EnsureLegalToAssert', f)

def f(track):
    X = TC(track); c = X.c; d = X.chain(); t = X.text(); k = c.int('kind', 0, 4)
    for o in c.run('api_print', [t, k]):
        if o.kind == 'ret':
            c.ensure(o.st, z3.BoolVal(o.st.ghost.get('lines', 0) == 1), 'PrintMessage: printed once'); c.ensure(o.st, z3.Or(d > 0, k == 1), 'PrintMessage: only while tests run, except errors')
        else:
            c.ensure(o.st, z3.And(d == 0, k != 1), 'PrintMessage: refused only when no test runs'); c.ensure(o.st, z3.BoolVal(o.val.tname == CONFIG), 'UnitTestConfigError')
case('PrintMessage', f)

for cat in (True, False):
    def f(track, cat=cat):
        def check(st, p):
            eng = X.c.eng; ld = lambda t, n: eng.load(st, t, Ptr(p.rid, p.off + X.off[n]), n)
            eng.require(st, z3.BoolVal(p.rid is not None and p.rid != X.rid and z3.is_false(z3.simplify(p.null))), 'body runs in a context of its own')
            q = ld(('ptr',), 'parent')
            eng.require(st, z3.BoolVal(q.rid == X.rid and const_of(q.off) == 0), 'body runs in a context below the enclosing one')
            eng.require(st, ld(('int', 32), 'kind') == X.K['Category' if cat else 'Case'], 'body runs in a context of its kind')
            eng.require(st, ld(('int', 8), 'failed') == 0, 'body starts without failures')
        X = TC(track, body=check); c = X.c; d = X.chain(); t = X.text(); sup = X.suppress()
        pre = {k: X.counter(k) for k in ('tf', 'pf', 'tc', 'pc')}; inn = lambda k: z3.And(k >= 0, k < d)
        legal = z3.And(d > 0, X.kind(I(0)) != X.K['Case']); seen = set()
        for o in c.run('api_block', [t, z3.BoolVal(cat)]):
            g = o.st.ghost; n = g.get('bodies', 0)
            c.ensure(o.st, legal if n else z3.Not(legal), 'categories and cases are accepted exactly outside of cases while tests run')
            if not n:
                c.ensure(o.st, z3.BoolVal(o.kind == 'throw' and o.val.tname == CONFIG), 'a misplaced block is refused with UnitTestConfigError')
                c.ensure_forall(o.st, lambda k: (X.failed(o.st)(k) != 0) == X.fail(k), 'misplaced block: marks nothing', inn); X.same(o.st, pre, pre, 'misplaced block'); X.back(o.st, 'misplaced block'); seen.add('refused'); continue
            kind = g['outcome']; seen.add((kind, o.kind)); nested = g['nested']
            c.ensure(o.st, z3.BoolVal(n == 1), 'the body runs once')
            if o.kind == 'throw':
                c.ensure(o.st, z3.And(z3.BoolVal(kind is not None), z3.Not(sup)), 'exceptions leave the block only when failures are not suppressed'); continue
            c.ensure(o.st, z3.BoolVal(True) if kind is None else sup, 'exceptions are absorbed only when failures are suppressed')
            bad = nested if kind is None else TRUE
            c.ensure_forall(o.st, lambda k: (X.failed(o.st)(k) != 0) == z3.Or(X.fail(k), bad), 'a failure in the body marks every enclosing context, a passing body none', inn)
            if kind is not None:
                c.ensure(o.st, z3.BoolVal(g.get('recorded', 0) == 1), 'an exception is reported once')
            elif g.get('recorded', 0):
                c.ensure(o.st, FALSE, 'nothing is reported for a body that returns')
            X.back(o.st, 'block'); X.same(o.st, ('tf', 'pf'), pre, 'block')
            it, ip = g['in.tc'], g['in.pc']
            c.ensure(o.st, X.load(o.st, 'tc') == pre['tc'] + it + I(0 if cat else 1), 'number of cases')
            c.ensure(o.st, X.load(o.st, 'pc') == pre['pc'] + ip + (I(0) if cat else z3.If(bad, I(0), I(1))), 'number of passed cases')
        if len(seen) < 2 * len(KINDS) + 2 and not any(x.status != 'discharged' for x in c.eng.obls):
            raise Unsupported('outcomes of a body not all reached: %r' % (seen,))
    case('RunCategoryOrCase [%s]' % ('category' if cat else 'case'), f)

for empty in (True, False):
    def f(track, empty=empty):
        X = TC(track); c = X.c; eng = c.eng
        p = c.obj('L', construct=False); on = c.field('L', 'next', p); sz = const_of(c.helper('sz_L')); s = c.st
        last = eng.new_struct(s, 'last link', sz, heap='param'); first = eng.new_struct(s, 'first link', sz, heap='param'); s = c.st
        s.mut(p.rid).fields[on] = (8, NULL); last.fields[on] = (8, NULL)
        if empty:
            X.store(s, 'head', NULL); X.store(s, 'tail', X.g['head'])
        else:
            X.store(s, 'head', Ptr(first.rid, 0)); X.store(s, 'tail', Ptr(last.rid, on))
        for o in c.run('api_add', [p]):
            same = lambda a, b: z3.BoolVal(isinstance(a, Ptr) and a.rid == b.rid and const_of(a.off) == const_of(b.off) and z3.is_false(z3.simplify(a.null)))
            c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'returns')
            c.ensure(o.st, same(X.load(o.st, 'head') if empty else eng.load(o.st, ('ptr',), Ptr(last.rid, on), 'link'), p), 'registration: the new file follows the last one')
            nx = eng.load(o.st, ('ptr',), Ptr(p.rid, on), 'link')
            c.ensure(o.st, z3.BoolVal(isinstance(nx, Ptr) and nx.rid is None), 'registration: the new file is the last one')
            c.ensure(o.st, same(X.load(o.st, 'tail'), Ptr(p.rid, on)), 'registration: the next file will follow')
            if not empty:
                c.ensure(o.st, same(X.load(o.st, 'head'), Ptr(first.rid, 0)), 'registration: earlier files stay registered')
    case('RegisterTestFile [%s]' % ('first one' if empty else 'after others'), f)

def f(track):
    X = TC(track); c = X.c; d = X.chain(); seen = set()
    legal = z3.And(d > 0, X.kind(I(0)) == X.K['Case']); v = z3.Bool('condition')
    for o in c.run('api_assert', []):
        n = o.st.ghost.get('asked', 0); seen.add((n, o.kind))
        c.ensure(o.st, legal if n else z3.Not(legal), 'TEST_ASSERT: condition evaluated exactly inside a case')
        c.ensure(o.st, z3.BoolVal(n <= 1), 'TEST_ASSERT: condition evaluated once')
        if n:
            c.ensure(o.st, v if o.kind == 'ret' else z3.Not(v), 'TEST_ASSERT: fails exactly when the condition is false')
        if o.kind == 'throw':
            c.ensure(o.st, z3.BoolVal(o.val.tname == (ASSERT if n else CONFIG)), 'TEST_ASSERT: kind of failure')
case('TEST_ASSERT', f)
for api, good in (('error', ('usererror',)), ('exception', ('userexception', 'userargument'))):
    def f(track, api=api, good=good):
        X = TC(track); c = X.c; d = X.chain()
        legal = z3.And(d > 0, X.kind(I(0)) == X.K['Case'])
        if api == 'exception':
            c.st.add(legal)
        for o in c.run('api_' + api, []):
            n = o.st.ghost.get('ran', 0); nm = 'TEST_' + api.upper()
            c.ensure(o.st, legal if n else z3.Not(legal), nm + ': statement executed exactly inside a case')
            if not n:
                c.ensure(o.st, z3.BoolVal(o.kind == 'throw' and o.val.tname == CONFIG), nm + ': refused'); continue
            k = o.st.ghost['outcome']
            c.ensure(o.st, z3.BoolVal(n == 1 and (o.kind == 'ret') == (k in good)), nm + ': passes exactly when the statement throws what is expected (%s)' % k)
            if k is None:
                c.ensure(o.st, z3.BoolVal(o.kind == 'throw' and o.val.tname == ASSERT), nm + ': assertion failure when nothing is thrown')
            if api == 'exception':
                c.ensure(o.st, z3.BoolVal(o.st.ghost.get('checked', 0) == (1 if k in good else 0)), nm + ': the exception is passed to the callback')
    case('TEST_' + api.upper(), f)

def f(track):
    """any number of registered files without options"""
    kind = z3.Function('outcome of file', INT, INT); nested = z3.Function('nested failure in file', INT, BOOL)
    ok = lambda k: z3.And(kind(zi(k)) == 0, z3.Not(nested(zi(k)))); A = z3.Function('all passed before', INT, BOOL)
    def run(eng, st, fp, a):
        if not isinstance(fp, Ptr) or fp.rid != X.procs:
            raise Unsupported('indirect call')
        r, loc = eng.resolve(st, fp, 'test file'); k = loc[1]; r = st.mut(r.rid)
        r.lanes[(0, 'ran')] = r.lanes[(0, 'ran')].write(k, r.lanes[(0, 'ran')](k) + 1)
        p = X.load(st, 'ctx'); ld = lambda t, n: eng.load(st, t, Ptr(p.rid, p.off + X.off[n]), n)
        eng.require(st, z3.BoolVal(p.rid is not None and z3.is_false(z3.simplify(p.null))), 'a file runs in a context')
        q = ld(('ptr',), 'parent')
        eng.require(st, z3.BoolVal(q.rid is None), 'a file runs in the outermost context'); eng.require(st, ld(('int', 32), 'kind') == X.K['File'], 'a file runs in a context of its kind')
        eng.require(st, ld(('int', 8), 'failed') == 0, 'a file starts without failures')
        st.mut(p.rid).fields[p.off + X.off['failed']] = (1, z3.If(nested(zi(k)), I(1), I(0)))
        for c_ in ('tc', 'pc'):
            h = z3.Function('cases after file ' + c_, INT, INT); st.add(z3.And(h(zi(k)) >= 0, h(zi(k)) <= BIG)); X.store(st, c_, h(zi(k)))
        st.add(z3.And(A(zi(k) + 1) == z3.And(A(zi(k)), ok(k)), kind(zi(k)) >= 0, kind(zi(k)) <= len(KINDS)))      # definition of A
        out = []
        for j, kd in enumerate([None] + KINDS):
            s = st.copy(); s.add(kind(zi(k)) == j)
            if eng.feasible(s):
                out += [Outcome(s, 'ret', None)] if kd is None else X.throws(s, kd)
        return out
    X = TC(track, opts=dict(indirect=run)); c = X.c; eng = c.eng; X.count = False
    for d in c.u.bydem:
        if re.search(r'UnitTest::PrintMessage\(', d):
            eng.contracts[d] = lambda e, s, a: R(s)
    n = c.int('files', 0, BIG); sz = const_of(c.helper('sz_L')); p = c.obj('L', construct=False)
    off = {f: c.field('L', f, p) for f in ('fileName', 'testProc', 'next')}; st = c.st
    fs = eng.new_array(st, 'files', 8, n, heap='param'); X.procs = fs.rid; fs.lanes[(0, 'ran')] = base_lane(lambda k: I(0))
    names = eng.new_array(st, 'names', 8, n, heap='param')
    ls = eng.new_array(st, 'links', sz, n, heap='param'); lr = ls.rid
    for f_, reg in (('testProc', fs.rid), ('fileName', names.rid)):
        ls.lanes[(off[f_], 'raw')] = base_lane(lambda k: zi(k), 8); ls.meta[('dec', off[f_])] = lambda eng, st, v, reg=reg: Ptr(reg, norm(8 * v))
    ls.lanes[(off['next'], 'raw')] = base_lane(lambda k: zi(k) + 1, 8)
    nullat = lambda o: o == sz * n
    ls.meta[('dec', off['next'])] = lambda eng, st, v: Ptr(lr, norm(sz * v), z3.simplify(nullat(zi(norm(sz * v)))))
    ls.meta['nullat'] = nullat
    st.add(z3.Int('base!%d' % lr) > 0)
    X.store(st, 'head', Ptr(lr, 0, z3.simplify(nullat(I(0)))))
    st.add(A(I(0)))
    for k in ('tf', 'pf', 'tc', 'pc'):
        X.counter(k)
    X.store(st, 'ctx', NULL); X.suppress()
    opt = c.obj('O'); sup = z3.Not(z3.Bool('debugger'))
    eng.inv_templates += [('passed files', lambda eng, st, i, u: z3.And(i >= 0, u >= 0, u <= i, (u == i) == A(i)), 2),
                          ('failed files', lambda eng, st, i, u: z3.And(i >= 0, u >= 0, u <= i, (u == 0) == A(i)), 2),
                          ('flag of a failed file', lambda eng, st, i, u: z3.And(i >= 0, (u == 0) == A(i)), 2), ('flag of no failed file', lambda eng, st, i, u: z3.And(i >= 0, (u != 0) == A(i)), 2)]
    for o in c.run('api_run', [opt]):
        if o.kind == 'throw':
            c.ensure(o.st, z3.Not(sup), 'exceptions leave the run only when failures are not suppressed'); continue
        inn = lambda k: z3.And(k >= 0, k < n)
        c.ensure_forall(o.st, lambda k: o.st.regions[fs.rid].lanes[(0, 'ran')](k) == 1, 'every file runs exactly once', inn)
        c.ensure(o.st, (o.val == 0) == A(n), 'result 0 exactly when no file failed'); c.ensure(o.st, z3.Or(o.val == 0, o.val == 1), 'result')
        c.ensure(o.st, X.load(o.st, 'tf') == n, 'number of files')
        pf = X.load(o.st, 'pf'); c.ensure(o.st, z3.And(pf <= n, (pf == n) == A(n)), 'number of passed files')
        p = X.load(o.st, 'ctx'); c.ensure(o.st, z3.BoolVal(isinstance(p, Ptr) and p.rid is None), 'no context after the run')
case('RunAndDisposeTests [no options]', f)
