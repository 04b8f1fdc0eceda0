"""Parser for the textual LLVM IR (clang 18, opaque pointers) that the checks
extract from /repo on every run.  It is purely syntactic."""
import re

TOK = re.compile(r'''\s+|;[^\n]*
|(?P<cstr>c"[^"]*")
|(?P<name>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
|(?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]+|\{[^}]*\})?)
|(?P<attr>\#\d+)
|(?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
|(?P<str>"[^"]*")
|(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|-?\d+|0x[0-9A-Fa-fKLMHR]+)
|(?P<word>[a-zA-Z_][-a-zA-Z0-9_.]*)
|(?P<punct>\.\.\.|[][(){}<>,=*|])
''', re.X)

def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise ValueError('tokenize: %r' % s[i:i+60])
        i = m.end()
        k = m.lastgroup
        if k is None:
            continue
        t = m.group(k)
        if k == 'name' and t[1] == '"':
            t = t[0] + t[2:-1]
        out.append((k, t))
    return out

VALUE_WORDS = {'null', 'undef', 'poison', 'true', 'false', 'zeroinitializer', 'none',
               'getelementptr', 'inttoptr', 'ptrtoint', 'bitcast', 'sub', 'add', 'trunc', 'icmp', 'select', 'blockaddress'}

class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0
    def peek(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else (None, None)
    def pv(self, o=0):
        return self.peek(o)[1]
    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x
    def eat(self, v):
        if self.pv() == v and self.peek()[0] != 'cstr':
            self.i += 1
            return True
        return False
    def expect(self, v):
        if not self.eat(v):
            raise ValueError('expected %r at %r' % (v, self.t[self.i:self.i+8]))
    def done(self):
        return self.i >= len(self.t)

    # ---- types
    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                t = ('ptr',)
            elif re.fullmatch(r'i\d+', v):
                t = ('int', int(v[1:]))
            elif v in ('void', 'float', 'double', 'x86_fp80', 'label', 'metadata', 'half', 'token'):
                t = (v,)
            else:
                raise ValueError('type %r' % v)
        elif k == 'name':
            t = ('named', v)
        elif v == '[':
            n = int(self.next()[1]); self.expect('x')
            e = self.type(); self.expect(']')
            t = ('arr', n, e)
        elif v == '{':
            t = self._struct('}', False)
        elif v == '<':
            if self.pv() == '{':
                self.next()
                t = self._struct('}', True)
                self.expect('>')
            else:
                n = int(self.next()[1]); self.expect('x')
                e = self.type(); self.expect('>')
                t = ('vec', n, e)
        else:
            raise ValueError('type %r' % (v,))
        while self.pv() == '(' :
            # function type
            self.next()
            depth = 1
            while depth:
                x = self.next()[1]
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
            t = ('func', t)
        return t
    def _struct(self, end, packed):
        fs = []
        if not self.eat(end):
            while True:
                fs.append(self.type())
                if self.eat(end):
                    break
                self.expect(',')
        return ('struct', tuple(fs), packed)

    # ---- attributes
    def skip_attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v not in VALUE_WORDS:
                self.next()
                if v == 'align' and self.peek()[0] == 'num':
                    self.next()
                elif self.pv() == '(':
                    self.skip_parens()
            elif k == 'attr':
                self.next()
            else:
                return
    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()[1]
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    # ---- values
    def typed_value(self):
        t = self.type()
        self.skip_attrs()
        return (t, self.value(t))
    def value(self, t):
        k, v = self.next()
        if k == 'name':
            return ('local', v[1:]) if v[0] == '%' else ('global', v[1:])
        if k == 'num':
            if t[0] == 'int':
                return ('int', int(v))
            return ('fp', v)
        if k == 'cstr':
            b = bytearray(); s = v[2:-1]; i = 0
            while i < len(s):
                if s[i] == '\\':
                    b.append(int(s[i+1:i+3], 16)); i += 3
                else:
                    b.append(ord(s[i])); i += 1
            return ('bytes', bytes(b))
        if k == 'meta':
            return ('meta', v)
        if v == 'null':
            return ('null',)
        if v == 'true':
            return ('int', 1)
        if v == 'false':
            return ('int', 0)
        if v in ('undef', 'poison', 'none'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == '[' or v == '{' or v == '<':
            end = {'[': ']', '{': '}', '<': '>'}[v]
            if v == '<' and self.pv() == '{':
                self.next()
                r = self._agg('}')
                self.expect('>')
                return ('agg', r)
            return ('agg', self._agg(end))
        if v == 'getelementptr':
            while self.pv() in ('inbounds', 'nuw', 'nusw'):
                self.next()
            self.expect('(')
            bt = self.type(); self.expect(',')
            args = []
            while True:
                self.eat('inrange')
                args.append(self.typed_value())
                if self.eat(')'):
                    break
                self.expect(',')
            return ('cgep', bt, args)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc'):
            self.expect('(')
            a = self.typed_value(); self.expect('to'); tt = self.type(); self.expect(')')
            return ('ccast', v, a, tt)
        if v in ('sub', 'add'):
            while self.pv() in ('nsw', 'nuw'):
                self.next()
            self.expect('(')
            a = self.typed_value(); self.expect(','); b = self.typed_value(); self.expect(')')
            return ('cbin', v, a, b)
        if v == 'icmp':
            p = self.next()[1]
            self.expect('(')
            a = self.typed_value(); self.expect(','); b = self.typed_value(); self.expect(')')
            return ('cicmp', p, a, b)
        raise ValueError('value %r %r near %r' % (k, v, self.t[self.i:self.i+6]))
    def _agg(self, end):
        r = []
        if not self.eat(end):
            while True:
                r.append(self.typed_value())
                if self.eat(end):
                    break
                self.expect(',')
        return r

class Instr:
    __slots__ = ('op', 'res', 'a', 'text')
    def __init__(self, op, res, a, text):
        self.op = op; self.res = res; self.a = a; self.text = text
    def __repr__(self):
        return self.text.strip()

class Function:
    def __init__(self, name):
        self.name = name
        self.params = []      # (type, name, sret?)
        self.ret = None
        self.blocks = {}      # label -> [Instr]
        self.order = []
        self.attrs = ''
        self._raw = None
    def ensure(self):
        if self._raw is not None:
            raw = self._raw
            self._raw = None
            parse_body(self, raw)
            prune(self)
        return self

class Module:
    def __init__(self):
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.aliases = {}
        self.demangled = {}

BINOPS = {'add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast', 'freeze'}

def parse_call(p, op):
    # after 'call'/'invoke'
    while True:
        k, v = p.peek()
        if k == 'word' and v in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fastcc', 'coldcc', 'ccc',
                                 'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'inreg'):
            p.next()
        elif k == 'word' and v == 'align':
            p.next(); p.next()
        elif k == 'word' and v in ('dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass'):
            p.next(); p.skip_parens()
        else:
            break
    rt = p.type()
    if rt[0] == 'func':
        rt = rt[1]
    k, v = p.peek()
    if v == 'asm':
        raise ValueError('inline asm')
    callee = p.value(('ptr',))
    p.expect('(')
    args = []
    if not p.eat(')'):
        while True:
            t = p.type()
            p.skip_attrs()
            args.append((t, p.value(t)))
            if p.eat(')'):
                break
            p.expect(',')
    return rt, callee, args

def parse_instr(text):
    p = P(tokenize(text))
    res = None
    if p.peek()[0] == 'name' and p.pv(1) == '=':
        res = p.next()[1][1:]
        p.next()
    op = p.next()[1]
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()[1]
    a = {}
    if op in BINOPS:
        fl = set()
        while p.pv() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            fl.add(p.next()[1])
        t = p.type(); x = p.value(t); p.expect(','); y = p.value(t)
        a = dict(t=t, x=x, y=y, fl=fl)
        return Instr('bin', res, dict(a, bop=op), text)
    if op in CASTS:
        if op == 'zext' and p.pv() == 'nneg':
            p.next()
        t, x = p.typed_value()
        if op == 'freeze':
            return Instr('cast', res, dict(cop='bitcast', t=t, x=x, to=t), text)
        p.expect('to')
        return Instr('cast', res, dict(cop=op, t=t, x=x, to=p.type()), text)
    if op == 'fneg':
        t, x = p.typed_value()
        return Instr('fneg', res, dict(t=t, x=x), text)
    if op in ('icmp', 'fcmp'):
        pr = p.next()[1]
        t = p.type(); x = p.value(t); p.expect(','); y = p.value(t)
        return Instr(op, res, dict(pred=pr, t=t, x=x, y=y), text)
    if op == 'alloca':
        t = p.type()
        n = None
        while p.eat(','):
            if p.pv() == 'align':
                p.next(); p.next()
            else:
                n = p.typed_value()
        return Instr(op, res, dict(t=t, n=n), text)
    if op == 'load':
        at = p.eat('atomic'); p.eat('volatile')
        t = p.type(); p.expect(',')
        pt, ptr = p.typed_value()
        return Instr(op, res, dict(t=t, p=ptr, atomic=at), text)
    if op == 'store':
        at = p.eat('atomic'); p.eat('volatile')
        t, v = p.typed_value(); p.expect(',')
        pt, ptr = p.typed_value()
        return Instr(op, res, dict(t=t, v=v, p=ptr, atomic=at), text)
    if op == 'getelementptr':
        while p.pv() in ('inbounds', 'nuw', 'nusw'):
            p.next()
        bt = p.type(); p.expect(',')
        args = [p.typed_value()]
        while p.eat(','):
            args.append(p.typed_value())
        return Instr(op, res, dict(bt=bt, base=args[0], idx=args[1:]), text)
    if op == 'phi':
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t); p.expect(','); l = p.next()[1][1:]; p.expect(']')
            inc.append((v, l))
            if not p.eat(','):
                break
        return Instr(op, res, dict(t=t, inc=inc), text)
    if op == 'br':
        if p.eat('label'):
            return Instr(op, res, dict(c=None, d=[p.next()[1][1:]]), text)
        t, c = p.typed_value(); p.expect(','); p.expect('label'); x = p.next()[1][1:]; p.expect(','); p.expect('label'); y = p.next()[1][1:]
        return Instr(op, res, dict(c=c, d=[x, y]), text)
    if op == 'switch':
        t, v = p.typed_value(); p.expect(','); p.expect('label'); d = p.next()[1][1:]
        p.expect('[')
        cases = []
        while not p.eat(']'):
            ct, cv = p.typed_value(); p.expect(','); p.expect('label'); cases.append((cv[1], p.next()[1][1:]))
        return Instr(op, res, dict(t=t, v=v, default=d, cases=cases), text)
    if op == 'ret':
        if p.eat('void'):
            return Instr(op, res, dict(v=None), text)
        return Instr(op, res, dict(v=p.typed_value()), text)
    if op == 'unreachable':
        return Instr(op, res, {}, text)
    if op == 'resume':
        return Instr(op, res, dict(v=p.typed_value()), text)
    if op == 'select':
        c = p.typed_value(); p.expect(','); x = p.typed_value(); p.expect(','); y = p.typed_value()
        return Instr(op, res, dict(c=c, x=x, y=y), text)
    if op == 'extractvalue':
        v = p.typed_value(); ix = []
        while p.eat(','):
            ix.append(int(p.next()[1]))
        return Instr(op, res, dict(v=v, ix=ix), text)
    if op == 'insertvalue':
        v = p.typed_value(); p.expect(','); e = p.typed_value(); ix = []
        while p.eat(','):
            ix.append(int(p.next()[1]))
        return Instr(op, res, dict(v=v, e=e, ix=ix), text)
    if op == 'call':
        rt, callee, args = parse_call(p, op)
        return Instr(op, res, dict(rt=rt, callee=callee, args=args), text)
    if op == 'invoke':
        rt, callee, args = parse_call(p, op)
        p.skip_attrs2() if hasattr(p, 'skip_attrs2') else None
        while p.pv() != 'to':
            p.next()
        p.expect('to'); p.expect('label'); n = p.next()[1][1:]; p.expect('unwind'); p.expect('label'); u = p.next()[1][1:]
        return Instr(op, res, dict(rt=rt, callee=callee, args=args, normal=n, unwind=u), text)
    if op == 'landingpad':
        t = p.type()
        cl = []; cleanup = False
        while not p.done():
            w = p.next()[1]
            if w == 'cleanup':
                cleanup = True
            elif w == 'catch':
                cl.append(('catch', p.typed_value()[1]))
            elif w == 'filter':
                p.typed_value()
                cl.append(('filter', None))
        return Instr(op, res, dict(t=t, cleanup=cleanup, clauses=cl), text)
    if op == 'atomicrmw':
        p.eat('volatile')
        rop = p.next()[1]
        pt, ptr = p.typed_value(); p.expect(','); t, v = p.typed_value()
        return Instr(op, res, dict(rop=rop, p=ptr, t=t, v=v), text)
    if op == 'cmpxchg':
        p.eat('weak'); p.eat('volatile')
        pt, ptr = p.typed_value(); p.expect(','); t, c = p.typed_value(); p.expect(','); t2, n = p.typed_value()
        return Instr(op, res, dict(p=ptr, t=t, c=c, n=n), text)
    if op == 'fence':
        return Instr(op, res, {}, text)
    raise ValueError('instr %r' % text)

LABEL = re.compile(r'^(?:"([^"]*)"|([-a-zA-Z$._0-9]+)):')

def parse_body(f, lines):
    cur = None
    buf = None
    insw = False
    def flush():
        nonlocal buf
        if buf is not None:
            f.blocks[cur].append(buf)
            buf = None
    for ln in lines:
        if not ln.strip() or ln.lstrip().startswith(';'):
            continue
        m = LABEL.match(ln)
        if m:
            flush()
            cur = m.group(1) or m.group(2)
            f.blocks[cur] = []
            f.order.append(cur)
            continue
        if cur is None:
            cur = '%entry'
            f.blocks[cur] = []
            f.order.append(cur)
        if ln.startswith('          ') or insw:
            buf += ' ' + ln.strip()
            if insw and ln.strip() == ']' or (insw and ln.strip().startswith(']')):
                insw = False
            continue
        flush()
        buf = ln
        if ln.strip().startswith('switch ') and ']' not in ln:
            insw = True
    flush()
    for b in f.order:
        f.blocks[b] = [parse_instr(re.sub(r'(, ![a-zA-Z.]+ !\d+)+\s*$', '', t)) for t in f.blocks[b]]
    if f.order[0] == '%entry':
        # unnamed entry: its label number equals number of unnamed params; only matters to phis
        pass

def successors(ins):
    if ins.op == 'br':
        return ins.a['d']
    if ins.op == 'switch':
        return [ins.a['default']] + [l for _, l in ins.a['cases']]
    if ins.op == 'invoke':
        return [ins.a['normal'], ins.a['unwind']]
    return []

def prune(f):
    """drop unreachable blocks; compute CFG, dominators, natural loops"""
    seen = set([f.order[0]])
    w = [f.order[0]]
    while w:
        b = w.pop()
        for s in successors(f.blocks[b][-1]):
            if s not in seen:
                seen.add(s); w.append(s)
    f.order = [b for b in f.order if b in seen]
    f.blocks = {b: f.blocks[b] for b in f.order}
    f.succ = {b: list(dict.fromkeys(successors(f.blocks[b][-1]))) for b in f.order}
    f.pred = {b: [] for b in f.order}
    for b in f.order:
        for s in f.succ[b]:
            f.pred[s].append(b)
    # dominators (simple iterative)
    dom = {b: set(f.order) for b in f.order}
    dom[f.order[0]] = {f.order[0]}
    ch = True
    while ch:
        ch = False
        for b in f.order[1:]:
            nd = set.intersection(*[dom[p] for p in f.pred[b]]) | {b} if f.pred[b] else {b}
            if nd != dom[b]:
                dom[b] = nd; ch = True
    f.loops = {}
    for b in f.order:
        for s in f.succ[b]:
            if s in dom[b]:
                body = f.loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(f.pred[x])
    f.dom = dom

def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('define '):
            j = i + 1
            while lines[j] != '}':
                j += 1
            f = parse_sig(ln)
            f._raw = lines[i+1:j]
            m.funcs[f.name] = f
            i = j
        elif ln.startswith('declare '):
            f = parse_sig(ln)
            m.decls[f.name] = f
        elif ln.startswith('%') and ' = type ' in ln:
            nm, rest = ln.split(' = type ', 1)
            nm = nm[1:]
            if nm[0] == '"':
                nm = nm[1:-1]
            m.types['%' + nm] = None if rest.strip() == 'opaque' else P(tokenize(rest)).type()
        elif ln.startswith('@'):
            mm = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', ln)
            nm = mm.group(1).strip('"')
            m.globals[nm] = mm.group(2)
        i += 1
    return m

def parse_sig(ln):
    mm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', ln)
    f = Function(mm.group(1).strip('"'))
    p = P(tokenize(ln[mm.end()-1:]))
    p.expect('(')
    idx = 0
    if not p.eat(')'):
        while True:
            if p.eat('...'):
                p.expect(')')
                break
            t = p.type()
            sret = None
            while p.pv() not in (',', ')') and p.peek()[0] != 'name':
                w = p.next()[1]
                if p.pv() == '(':
                    if w == 'sret':
                        q = P(p.t); q.i = p.i + 1
                        sret = q.type()
                    p.skip_parens()
            nm = None
            if p.peek()[0] == 'name':
                nm = p.next()[1][1:]
            else:
                nm = str(idx)
            f.params.append((t, nm, sret)); idx += 1
            if p.eat(')'):
                break
            p.expect(',')
    pre = ln[:mm.start()]
    toks = pre.split(None, 1)[1]
    # return type: last type token(s) before @name
    rp = P(tokenize(toks))
    rt = None
    while not rp.done():
        save = rp.i
        try:
            rt = rp.type()
            rt_i = rp.i
        except ValueError:
            rp.i = save + 1
            if rp.pv() == '(' and rp.t[save][0] == 'word':
                rp.skip_parens()
    f.ret = rt
    f.attrs = ln[mm.end():]
    return f

GKW = re.compile(r'^(?:(?:private|internal|linkonce|weak|linkonce_odr|weak_odr|external|available_externally|common|appending|extern_weak|dso_local|dso_preemptable|hidden|protected|default|unnamed_addr|local_unnamed_addr|externally_initialized|thread_local(?:\([a-z]+\))?)\s+)*(global|constant|alias)\s+')

def parse_global(m, name):
    """-> (kind, type, init or None)"""
    g = m.globals[name]
    if isinstance(g, tuple):
        return g
    mm = GKW.match(g)
    if not mm:
        raise ValueError('global %s' % g[:80])
    kind = mm.group(1)
    ext = g.startswith('external') or g.startswith('extern_weak')
    p = P(tokenize(g[mm.end():]))
    t = p.type()
    init = None
    if kind == 'alias':
        p.expect(',')
        init = p.typed_value()[1]
    elif not ext:
        init = p.value(t)
    m.globals[name] = (kind, t, init)
    return m.globals[name]

class Layout:
    def __init__(self, m):
        self.m = m
        self.cache = {}
    def resolve(self, t):
        while t[0] == 'named':
            t = self.m.types[t[1]]
        return t
    def size_align(self, t):
        if t in self.cache:
            return self.cache[t]
        k = t[0]
        if k == 'int':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            r = (a if t[1] <= 64 else 16 * ((b + 15) // 16), min(a, 16))
        elif k == 'ptr':
            r = (8, 8)
        elif k == 'float':
            r = (4, 4)
        elif k == 'double':
            r = (8, 8)
        elif k == 'x86_fp80':
            r = (16, 16)
        elif k == 'named':
            r = self.size_align(self.resolve(t))
        elif k == 'arr':
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif k == 'vec':
            s, a = self.size_align(t[2])
            r = (s * t[1], s * t[1])
        elif k == 'struct':
            o = 0; al = 1
            for f in t[1]:
                s, a = self.size_align(f)
                if t[2]:
                    a = 1
                o = (o + a - 1) // a * a + s
                al = max(al, a)
            r = ((o + al - 1) // al * al, al)
        else:
            raise ValueError('size %r' % (t,))
        self.cache[t] = r
        return r
    def size(self, t):
        return self.size_align(t)[0]
    def field(self, t, i):
        t = self.resolve(t)
        o = 0
        for j, f in enumerate(t[1]):
            s, a = self.size_align(f)
            if t[2]:
                a = 1
            o = (o + a - 1) // a * a
            if j == i:
                return o, f
            o += s
        raise ValueError('field')
