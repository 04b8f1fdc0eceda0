"""C18 dates and times against contracts of the C library's calendar."""
import z3
from vir.spec import *
from vir.runner import Property

C18 = Property('C18'); PROPERTIES = [C18]
C18.driver = 'time'
C18.assumptions = ['localtime, gmtime, mktime and gettimeofday behave as POSIX documents: one calendar, one offset of the local zone at every instant, mktime inverts localtime; localtime and gmtime share one result object',
                   'instants from 1970 on (osInternal below 2^50), the local zone has an offset of less than a day']
FL = ['sec', 'min', 'hour', 'mday', 'mon', 'year']
CIV = {f: z3.Function('calendar.' + f, INT, INT) for f in FL + ['wday', 'yday']}
RNG = dict(sec=(0, 60), min=(0, 59), hour=(0, 23), mday=(1, 31), mon=(0, 11), year=(-100, 50000), wday=(0, 6), yday=(0, 365))
MK = z3.Function('seconds.of', INT, INT, INT, INT, INT, INT, INT)      # inverse of the calendar
OFF = z3.Function('zone.offset', INT, INT); DST = z3.Function('zone.dst', INT, INT)
MT = z3.Function('mktime', INT, INT, INT)                             # local clock reading, kind (-1, 0, 1) -> instant
VALID = z3.Function('local.clock.shows', INT, BOOL)
DAY = 86400

class TC:
    def __init__(self, track):
        ex = {'localtime': self.brk(True), 'gmtime': self.brk(False), 'mktime': self.mktime, 'gettimeofday': self.now}
        for r in ('localtime_r', 'gmtime_r'):
            ex[r] = self.brk(r[0] == 'l', True)
        self.c = c = track(Ctx('time', externs=ex))
        p = c.obj('TM', construct=False); self.tmo = {f: c.field('TM', 'tm_' + f, p) for f in FL + ['wday', 'yday', 'isdst']}
        self.tm = p.rid
        q = c.obj('DT'); self.o = {f: c.field('DT', f, q) for f in ('year', 'month', 'day', 'hour', 'minute', 'second', 'milliseconds', 'dayOfWeek', 'osMilliseconds', 'osInternal')}
        c.helper('mk_impl')
        self.sec = z3.Int('now.seconds'); self.usec = z3.Int('now.microseconds')
        c.st.add(z3.And(self.sec >= 0, self.sec < 1 << 38, self.usec >= 0, self.usec < 1000000))
    # ---- facts about the calendar at clock reading s and the zone at instant t
    def civil(self, st, s):
        for f, (lo, hi) in RNG.items():
            st.add(z3.And(CIV[f](s) >= lo, CIV[f](s) <= hi))
        st.add(MK(*[CIV[f](s) for f in FL]) == s)
    def zone(self, st, t):
        st.add(z3.And(OFF(t) > -DAY, OFF(t) < DAY, DST(t) >= 0, DST(t) <= 1))
        st.add(MT(t + OFF(t), DST(t)) == t)
        self.civil(st, t + OFF(t))
    def put(self, eng, st, p, s, isdst):
        w = lambda f, v: eng.store(st, ('int', 32), v, Ptr(p.rid, norm(zi(p.off) + self.tmo[f])))
        for f in FL + ['wday', 'yday']:
            w(f, CIV[f](s))
        w('isdst', isdst)
    def brk(self, local, own=False):
        def f(eng, st, a):
            t = eng.load(st, ('int', 64), a[0], 'time argument')
            x = eng.fresh(st, INT, 'instant'); st.add(x == t)
            eng.require(st, z3.And(x > -(1 << 50), x < 1 << 50), 'instant the calendar can represent')
            p = a[1] if own else Ptr(self.tm, 0)
            if local:
                self.zone(st, x); self.put(eng, st, p, x + OFF(x), DST(x))
            else:
                self.civil(st, x); self.put(eng, st, p, x, I(0))
            return R(st, p)
        return f
    def mktime(self, eng, st, a):
        g = lambda f: eng.load(st, ('int', 32), Ptr(a[0].rid, norm(zi(a[0].off) + self.tmo[f])), 'mktime: ' + f)
        s = MK(*[g(f) for f in FL]); d = g('isdst')
        t = eng.fresh(st, INT, 'made'); st.add(t == MT(s, z3.If(d < 0, I(-1), z3.If(d > 0, I(1), I(0)))))
        st.add(z3.And(t > -(1 << 50), t < 1 << 50))
        st.add(z3.Implies(z3.And(d < 0, VALID(s)), t + OFF(t) == s))
        self.zone(st, t)
        self.put(eng, st, a[0], t + OFF(t), DST(t))
        return R(st, t)
    def now(self, eng, st, a):
        eng.store(st, ('int', 64), self.sec, a[0]); eng.store(st, ('int', 64), self.usec, Ptr(a[0].rid, norm(zi(a[0].off) + 8)))
        return R(st, I(0))
    # ---- a DateTime
    def get(self, st, p, f):
        return self.c.eng.load(st, ('int', 64), Ptr(p.rid, self.o[f]), f)
    def dt(self, name):
        """the DateTime of an arbitrary instant, as FromOSInternal gives it"""
        c = self.c; p = c.obj('DT'); x = z3.Int(name); c.st.add(z3.And(x >= 0, x < 1 << 50)); r = c.st.mut(p.rid)
        t = z3.Int(name + '.seconds'); ms = z3.Int(name + '.ms'); c.st.add(z3.And(x == 1000 * t + ms, ms >= 0, ms < 1000, t >= 0))
        self.zone(c.st, t); s = t + OFF(t)
        for f, v in dict(year=CIV['year'](s) + 1900, month=CIV['mon'](s) + 1, day=CIV['mday'](s), hour=CIV['hour'](s), minute=CIV['min'](s), second=CIV['sec'](s), milliseconds=ms, dayOfWeek=CIV['wday'](s), osMilliseconds=x, osInternal=x).items():
            r.fields[self.o[f]] = (8, v)
        return p, x, t, ms
    def shows(self, o, p, s, ms, x, what):
        """p shows clock reading s, and is the instant x"""
        c = self.c; st = o.st; g = lambda f: self.get(st, p, f)
        self.civil(st, s)
        c.ensure(st, z3.And(g('year') == CIV['year'](s) + 1900, g('month') == CIV['mon'](s) + 1, g('day') == CIV['mday'](s)), what + ': date')
        c.ensure(st, z3.And(g('hour') == CIV['hour'](s), g('minute') == CIV['min'](s), g('second') == CIV['sec'](s), g('milliseconds') == ms), what + ': time of day')
        c.ensure(st, g('dayOfWeek') == CIV['wday'](s), what + ': day of week')
        c.ensure(st, g('osMilliseconds') == g('osInternal'), what + ': total milliseconds')
        if x is not None:
            c.ensure(st, g('osInternal') == x, what + ': instant')
        else:
            # the instant is the one whose local clock shows the fields
            y = g('osInternal'); t = c.eng.fresh(st, INT, 't'); m = c.eng.fresh(st, INT, 'm'); st.add(z3.And(y == 1000 * t + m, m >= 0, m < 1000)); self.zone(st, t)
            c.ensure(st, z3.And(t + OFF(t) == s, m == ms), what + ': instant')
    def unchanged(self, o, p, what):
        r0, r = self.c.st.regions[p.rid], o.st.regions[p.rid]
        self.c.ensure(o.st, z3.And(*[zi(r.fields[k][1]) == zi(r0.fields[k][1]) for k in self.o.values()]), what + ': operand unchanged')
    def steady(self, t):
        k = z3.Int('k!zone'); self.c.st.add(z3.ForAll([k], z3.Implies(z3.And(k >= t - 3 * DAY, k <= t + 3 * DAY), OFF(k) == OFF(t)), patterns=[OFF(k)]))
    def ret(self, outs):
        for o in outs:
            self.c.ensure(o.st, z3.BoolVal(o.kind == 'ret'), 'returns')
            if o.kind == 'ret':
                yield o
def case(nm, f):
    C18.case(nm, 'time')(f)
def new(X):
    return X.c.obj('DT', construct=False)
def f(track):
    X = TC(track); c = X.c; x = c.int('osInternal', 0, (1 << 50) - 1); r = new(X)
    for o in X.ret(c.run('api_FromOSInternal', [r, x])):
        t = x / 1000; X.zone(o.st, t); X.shows(o, r, t + OFF(t), x % 1000, x, 'FromOSInternal')
case('FromOSInternal', f)
def f(track):
    X = TC(track); c = X.c; r = new(X); s = z3.Int('clock'); X.civil(c.st, s); ms = c.int('ms', 0, 999)
    c.st.add(z3.And(VALID(s), MT(s, I(-1)) >= 0, MT(s, I(-1)) < 1 << 38))
    for o in X.ret(c.run('api_FromDateTime', [r, CIV['year'](s) + 1900, CIV['mon'](s) + 1, CIV['mday'](s), CIV['hour'](s), CIV['min'](s), CIV['sec'](s), ms])):
        X.shows(o, r, s, ms, None, 'FromDateTime')
case('FromDateTime', f)
def f(track):
    X = TC(track); c = X.c; r = new(X)
    for o in X.ret(c.run('api_LocalTime', [r])):
        X.zone(o.st, X.sec); X.shows(o, r, X.sec + OFF(X.sec), X.usec / 1000, 1000 * X.sec + X.usec / 1000, 'LocalTime')
case('LocalTime', f)
def f(track):
    X = TC(track); c = X.c; r = new(X); c.st.add(z3.And(VALID(X.sec), MT(X.sec, I(-1)) >= 0))
    for o in X.ret(c.run('api_UtcTime', [r])):
        X.shows(o, r, X.sec, X.usec / 1000, None, 'UtcTime')
case('UtcTime', f)
def f(track):
    X = TC(track); c = X.c; p, x, t, ms = X.dt('when'); r = new(X); c.st.add(z3.And(VALID(t), MT(t, I(-1)) >= 0))
    for o in X.ret(c.run('api_ToUtcTime', [r, p])):
        X.shows(o, r, t, ms, None, 'ToUtcTime'); X.unchanged(o, p, 'ToUtcTime')
case('ToUtcTime', f)
def f(track):
    X = TC(track); c = X.c; p, x, t, ms = X.dt('when'); r = new(X); X.steady(t); s = t + OFF(t); X.zone(c.st, s)
    c.st.add(z3.And(VALID(t), t >= 3 * DAY))
    for o in X.ret(c.run('api_ToLocalTime', [r, p])):
        X.shows(o, r, s + OFF(s), ms, None, 'ToLocalTime'); X.unchanged(o, p, 'ToLocalTime')
case('ToLocalTime', f)
def f(track):
    X = TC(track); c = X.c; p, x, t, ms = X.dt('when'); r = new(X); q = new(X); X.steady(t)
    u = t - OFF(t); c.st.add(z3.And(VALID(t), VALID(u), t >= 3 * DAY)); X.zone(c.st, u)
    for o in X.ret(c.run('api_ToUtcTime', [r, p])):
        for w in X.ret(c.run('api_ToLocalTime', [q, r], st=o.st)):
            c.ensure(w.st, X.get(w.st, q, 'osInternal') == x, 'ToUtcTime then ToLocalTime gives the same time')
case('ToUtcTime, ToLocalTime', f)
for op, sg in (('Forward', 1), ('Backward', -1)):
    def f(track, op=op, sg=sg):
        X = TC(track); c = X.c; p, x, t, ms = X.dt('when'); r = new(X); n = c.int('milliseconds', 0); c.st.add(z3.And(x + sg * n >= 0, x + sg * n < 1 << 50))
        for o in X.ret(c.run('api_' + op, [r, p, n])):
            y = x + sg * n; t2 = y / 1000; X.zone(o.st, t2); X.shows(o, r, t2 + OFF(t2), y % 1000, y, op); X.unchanged(o, p, op)
    case(op, f)
for op, rel in (('lt', lambda a, b: a < b), ('le', lambda a, b: a <= b), ('gt', lambda a, b: a > b), ('ge', lambda a, b: a >= b), ('eq', lambda a, b: a == b), ('ne', lambda a, b: a != b), ('cmp', None)):
    def f(track, op=op, rel=rel):
        X = TC(track); c = X.c; p, x, *_ = X.dt('a'); q, y, *_ = X.dt('b')
        for o in X.ret(c.run('api_' + op, [p, q])):
            c.ensure(o.st, B(o.val) == rel(x, y) if rel else o.val == z3.If(x < y, I(-1), z3.If(x > y, I(1), I(0))), op + ': order in time')
            X.unchanged(o, p, op); X.unchanged(o, q, op)
    case('operator ' + op, f)

# ------------------------------------------------------------------ an injected implementation answers everything until it is taken away
ARGS = dict(FromDateTime=7, FromOSInternal=1, LocalTime=0, UtcTime=0, LocalToUtcTime=1, UtcToLocalTime=1, Forward=2, Backward=2)
INJ = {m: z3.Function('injected.' + m, *([INT] * max(n, 1)), INT) for m, n in ARGS.items()}
class IC(TC):
    def __init__(self, track):
        TC.__init__(self, track); c = self.c
        for m, n in ARGS.items():
            c.eng.externs['_ZN7AbsImplILi0EE%d%sE%s' % (len(m), m, 'l' * 7 if n == 7 else 'm' * n or 'v')] = self.method(m, n)
        self.impl = c.helper('abs_new')
    def method(self, m, n):
        def f(eng, st, a):
            made = m.startswith('From'); this = a[1 if made else 0]; args = [zi(x) for x in a[2 if made else 1:]] or [I(0)]
            eng.require(st, z3.BoolVal(isinstance(this, Ptr) and this.rid == self.impl.rid), 'the injected implementation is called')
            v = INJ[m](*args)
            st.add(z3.And(v >= 0, v < 1 << 50))
            if not made:
                return R(st, v)
            for k, off in self.o.items():
                eng.store(st, ('int', 64), v if k == 'osInternal' else z3.Function('injected.field.' + k, INT, INT)(v), Ptr(a[0].rid, norm(zi(a[0].off) + off)))
            return R(st)
        return f
    def is_(self, o, p, v, what):
        c = self.c; c.ensure(o.st, z3.And(self.get(o.st, p, 'osInternal') == v, *[self.get(o.st, p, k) == z3.Function('injected.field.' + k, INT, INT)(v) for k in self.o if k != 'osInternal']), what + ': what the injected implementation gives')
OSI = INJ['FromOSInternal']
for op, want in (('LocalTime', lambda x, n: OSI(INJ['LocalTime'](I(0)))), ('UtcTime', lambda x, n: OSI(INJ['UtcTime'](I(0)))), ('FromOSInternal', lambda x, n: OSI(n)), ('ToLocalTime', lambda x, n: OSI(INJ['UtcToLocalTime'](x))),
                 ('ToUtcTime', lambda x, n: OSI(INJ['LocalToUtcTime'](x))), ('Forward', lambda x, n: OSI(INJ['Forward'](x, n))), ('Backward', lambda x, n: OSI(INJ['Backward'](x, n))), ('FromDateTime', None)):
    def f(track, op=op, want=want):
        X = IC(track); c = X.c; p, x, *_ = X.dt('when'); r = new(X); n = c.int('n', 0, 1 << 49); fs = [z3.Int('field%d' % i) for i in range(7)]
        for v in fs:
            c.st.add(z3.And(v >= 0, v < 1 << 40))
        args = [r] + ([p] if op.startswith('To') or 'ward' in op else []) + ([n] if 'ward' in op or op == 'FromOSInternal' else []) + (fs if op == 'FromDateTime' else [])
        for i in X.ret(c.run('api_Inject', [X.impl])):
            for o in X.ret(c.run('api_' + op, args, st=i.st)):
                X.is_(o, r, want(x, n) if want else INJ['FromDateTime'](*fs), op); X.unchanged(o, p, op)
    case('injected implementation: ' + op, f)
def f(track):
    X = IC(track); c = X.c; x = c.int('osInternal', 0, (1 << 50) - 1); r = new(X)
    for i in X.ret(c.run('api_Inject', [X.impl])):
        for j in X.ret(c.run('api_Inject', [Ptr(None, 0)], st=i.st)):
            for o in X.ret(c.run('api_FromOSInternal', [r, x], st=j.st)):
                t = x / 1000; X.zone(o.st, t); X.shows(o, r, t + OFF(t), x % 1000, x, 'FromOSInternal after taking the implementation away')
case('injected implementation taken away', f)
