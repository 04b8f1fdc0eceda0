"""Runs the contracts of one property, decides, replays, writes evidence."""
import os, sys, json, time, re, subprocess, multiprocessing as mp, traceback, hashlib
from . import unit as U
from .engine import Unsupported

HERE = U.HERE

class Case:
    def __init__(self, name, fn, unit, cats=None, budget=240):
        self.name = name; self.fn = fn; self.unit = unit; self.cats = cats; self.budget = budget

class Property:
    def __init__(self, id):
        self.id = id
        self.cases = []
        self.driver = None          # replay/<driver>.cpp
        self.driver_arg = id
        self.always_bounded = None  # text: what the bounded stand-in covers (always run)
        self.relevant = None        # regex on obligation names that belong to this property (None = all)
        self.assumptions = []
        self.known = []
        self.contracts_used = []
    def case(self, name, unit, **kw):
        def deco(f):
            self.cases.append(Case(name, f, unit, **kw))
            return f
        return deco

_cases = None
def _run_case(i):
    c = _cases[i]
    t = time.time()
    res = dict(name=c.name, status='proved', obls=[], note='', secs=0.0)
    ctx_list = []
    try:
        import z3
        def track(ctx):
            ctx_list.append(ctx)
            ctx.eng.deadline = t + c.budget
            return ctx
        c.fn(track)
    except Unsupported as e:
        res['note'] = 'outside the verifier: %s' % e
        res['status'] = 'undecided'
    except U.ExtractionError as e:
        res['note'] = 'extraction: %s' % e
        res['status'] = 'undecided'
    except RecursionError as e:
        res['note'] = 'recursion limit'
        res['status'] = 'undecided'
    except Exception as e:
        res['note'] = 'verifier: %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
        res['status'] = 'undecided'
    inl = set(); app = set(); tru = set(); ent = set()
    sol = 0.0; nq = 0; loops = 0
    for x in ctx_list:
        e = x.eng
        for o in e.obls:
            d = dict(name=o.name, status=o.status, backend=o.backend, secs=round(o.secs, 4))
            if o.status != 'discharged':
                d['where'] = o.where
                d['goal'] = str(o.goal)[:2000] if o.goal is not None else ''
                m = o.model
                if isinstance(m, tuple):
                    m = m[0]
                d['model'] = str(m)[:4000] if m is not None else ''
            res['obls'].append(d)
        inl |= e.inlined; app |= e.applied; tru |= e.trusted
        if x.entry:
            ent.add(x.entry)
        sol += e.solver_secs; nq += e.nq; loops += e.loops
    if not res['obls'] and res['status'] == 'proved':
        res['status'] = 'undecided'; res['note'] = 'no obligations generated (vacuous)'
    res.update(inlined=sorted(inl), applied=sorted(app), trusted=sorted(tru), entries=sorted(ent), solver=sol, queries=nq, loops=loops, secs=time.time() - t)
    return res

T0 = time.time()
def run_cases(cases, jobs=8, relevant=None):
    global _cases
    _cases = cases
    for u in sorted(set(c.unit for c in cases)):
        U.load(u)
    if os.environ.get('VERIF_SERIAL'):
        return [_run_case(i) for i in range(len(cases))]
    sys.setrecursionlimit(20000)
    # global wall clock: what is not finished then is undecided (never a violation by itself)
    limit = T0 + (float(os.environ.get('VERIF_WALL', '420')) if os.environ.get('VERIF_TIER', 'quick') == 'quick' else 3000)
    out = [None] * len(cases)
    rel = re.compile(relevant) if relevant else None
    pool = mp.get_context('fork').Pool(min(jobs, max(1, len(cases))))
    try:
        pend = {i: pool.apply_async(_run_case, (i,)) for i in range(len(cases))}
        while pend and time.time() < limit:
            for i in list(pend):
                if pend[i].ready():
                    try:
                        out[i] = pend[i].get()
                    except Exception as e:
                        out[i] = _blank(cases[i], 'verifier process: %s' % e)
                    del pend[i]
                    if any(o['status'] == 'refuted' and (rel is None or rel.search(o['name'])) for o in out[i]['obls']):
                        limit = min(limit, time.time() + 30)
            time.sleep(0.05)
    finally:
        pool.terminate()
    for i in range(len(cases)):
        if out[i] is None:
            out[i] = _blank(cases[i], 'not finished within the time limit of this run')
    return out

def _blank(c, note):
    return dict(name=c.name, status='undecided', obls=[], note=note, secs=0.0, inlined=[], applied=[], trusted=[], entries=[], solver=0.0, queries=0, loops=0)

# ---------------------------------------------------------------- native driver
SRC = ['Basic.cpp', 'Exception.cpp', 'GlobalStorage.cpp', 'Strings/String.cpp', 'Strings/Conversion.cpp', 'Strings/Conversion.Linux.cpp',
       'Primitives/DateTime.cpp', 'Primitives/DateTime.Linux.cpp', 'Console.cpp', 'Console.Linux.cpp']

class DriverError(Exception):
    pass

def build_driver(name, san=True):
    d = U.scratch()
    exe = os.path.join(d, 'drv_' + name)
    if os.path.exists(exe):
        return exe
    if not os.path.exists(os.path.join(HERE, 'replay', name + '.cpp')):
        raise DriverError('no driver ' + name)
    flags = ['-std=c++20', '-g1', '-O1', '-w', '-I' + U.REPO + '/Source', '-I' + HERE + '/replay']
    if san:
        flags += ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=nonnull-attribute,pointer-overflow', '-fno-omit-frame-pointer']
    head = open(os.path.join(HERE, 'replay', name + '.cpp')).read(2000)
    m = re.search(r'//\s*SOURCES:(.*)', head)
    srcs = SRC if not m else m.group(1).split()
    m = re.search(r'//\s*FLAGS:(.*)', head)
    if m:
        flags += m.group(1).split()
    objs = []
    procs = []
    for s in [os.path.join(HERE, 'replay', name + '.cpp')] + [os.path.join(U.REPO, 'Source', x) for x in srcs]:
        if not os.path.exists(s):
            continue
        o = os.path.join(d, name + '_' + s.replace('/', '_') + '.o')
        objs.append(o)
        procs.append((s, subprocess.Popen(['g++', *flags, '-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for s, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            raise DriverError('native driver does not compile (%s):\n%s' % (s, out[-3000:]))
    r = subprocess.run(['g++', *flags, *objs, '-o', exe, '-pthread'], capture_output=True, text=True)
    if r.returncode:
        raise DriverError('native driver does not link:\n' + r.stderr[-3000:])
    return exe

def run_driver(prop, tier, seed):
    """-> (found, text)"""
    exe = build_driver(prop.driver)
    budget = 60 if tier == 'quick' else 300
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=1:allocator_may_return_null=1:exitcode=77', UBSAN_OPTIONS='print_stacktrace=1:exitcode=78', TZ='UTC')
    wd = os.path.join(U.scratch(), 'drvwork'); os.makedirs(wd, exist_ok=True)
    try:
        r = subprocess.run([exe, prop.driver_arg, str(seed), str(budget)], capture_output=True, text=True, errors='replace', timeout=budget * 3 + 60, env=env, cwd=wd)
    except subprocess.TimeoutExpired as e:
        return True, 'native driver did not finish (endless loop): last output\n' + ((e.stdout or b'')[-2000:].decode(errors='replace') if isinstance(e.stdout, (bytes, type(None))) else e.stdout[-2000:])
    txt = 'command: drv_%s %s %s %s\nexit: %d\n%s\n%s' % (prop.driver, prop.driver_arg, seed, budget, r.returncode, r.stdout[-6000:], r.stderr[-8000:])
    return r.returncode != 0, txt

def check(prop, tier='quick', seed=1):
    t0 = time.time()
    print('property %s: extracting and verifying %d contracts from %s' % (prop.id, len(prop.cases), U.REPO))
    fatal = None
    try:
        results = run_cases(prop.cases, relevant=prop.relevant)
    except U.ExtractionError as e:
        fatal = str(e)
        results = []
    rel = re.compile(prop.relevant) if prop.relevant else None
    nob = ndis = 0
    failed = []; undecided = []
    for r in results:
        mine = [o for o in r['obls'] if rel is None or rel.search(o['name'])]
        r['mine'] = mine
        nob += len(mine); ndis += sum(o['status'] == 'discharged' for o in mine)
        bad = [o for o in mine if o['status'] == 'refuted']
        unk = [o for o in mine if o['status'] == 'unknown']
        other_bad = [o for o in r['obls'] if o['status'] != 'discharged' and o not in mine]
        if bad:
            failed.append((r, bad))
        if unk or r['status'] == 'undecided' or (other_bad and not bad):
            # obligations of a sibling property failed: paths were cut there, so this one is undecided, not proved
            undecided.append((r, unk, other_bad))
    ev = os.path.join(HERE, 'evidence'); os.makedirs(ev, exist_ok=True)
    rp = os.path.join(ev, 'replay-%s.txt' % prop.id)
    if os.path.exists(rp):
        os.unlink(rp)
    bounded = None
    verdict = 0
    line = None
    need = bool(failed or undecided or fatal or prop.always_bounded)
    found = False; txt = ''; drv_err = None
    if need and prop.driver and not os.environ.get("VERIF_NODRIVER"):
        try:
            found, txt = run_driver(prop, tier, seed)
        except DriverError as e:
            drv_err = str(e)
    if need:
        for r, bad in failed:
            for o in bad[:6]:
                print('NOT DISCHARGED (%s) %s :: %s' % (o['status'], r['name'], o['name']))
        for r, unk, ob in undecided:
            print('UNDECIDED %s: %s %s' % (r['name'], r['note'].split('\n')[0], '; '.join(o['name'] for o in unk[:3])))
    def write_replay(extra):
        with open(rp, 'w') as fh:
            fh.write('property %s\nsource digest %s\n\n' % (prop.id, U.source_digest()))
            for r, bad in failed:
                fh.write('contract: %s\n' % r['name'])
                for o in bad:
                    fh.write('  failed obligation: %s\n  path: %s\n  goal: %s\n  solver (%s) says: %s\n  counterexample of the solver:\n%s\n\n' % (o['name'], o.get('where'), o.get('goal'), o['backend'], o['status'], o.get('model')))
            for r, unk, ob in undecided:
                fh.write('undecided contract: %s\n  %s\n' % (r['name'], r['note']))
                for o in unk + ob:
                    fh.write('  obligation: %s (%s)\n  goal: %s\n' % (o['name'], o['status'], o.get('goal')))
            fh.write(extra)
    if found:
        write_replay('\nreplayed against the real code by the native driver replay/%s.cpp:\n%s\n' % (prop.driver, txt))
        line = 'VIOLATION property=%s replay=%s' % (prop.id, rp)
        verdict = 1
    elif failed:
        write_replay('\nnative search: %s\n' % (drv_err or txt or 'no driver'))
        line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (prop.id, rp)
        verdict = 1
    elif undecided or fatal:
        if drv_err or not prop.driver:
            print('ERROR: %s' % (fatal or drv_err or 'undecided and no bounded stand-in'))
            for r, unk, ob in undecided:
                print(r['note'])
            verdict = 2
        else:
            bounded = 'contracts undecided on this tree, bounded native check stood in (passed): ' + ', '.join(r['name'] for r, _, _ in undecided) + (fatal or '')
    elif prop.always_bounded and drv_err:
        print('ERROR: %s' % drv_err); verdict = 2
    proved = [r for r in results if r['status'] == 'proved' and all(o['status'] == 'discharged' for o in r['mine'])]
    fns = sorted(set(x for r in results for x in r['entries']))
    inl = sorted(set(x for r in results for x in r['inlined'] if not x.startswith(('sz_', 'mk_', 'fld_', 'dtor_'))) - set(fns))
    backs = {}
    for r in results:
        for o in r['mine']:
            if o['status'] == 'discharged':
                backs[o['backend']] = backs.get(o['backend'], 0) + 1
    assumptions = list(prop.assumptions)
    tr = sorted(set(x for r in results for x in r['trusted']))
    cov = dict(obligations=nob, discharged=ndis,
               checker_cmd='python3-vt check.py %s' % prop.id,
               trusted_base=['clang 18 front end + sroa (C++ -> LLVM IR)', 'vir (this VC generator)', 'z3 %s' % _z3v()] + (['cvc5 1.1.2'] if backs.get('cvc5') else []),
               contracts=len(results), contracts_fully_discharged=len(proved),
               functions_under_contract=fns, callee_bodies_verified_inline=inl, callees_used_by_contract=sorted(set(x for r in results for x in r['applied'])),
               trusted_external_functions=tr, discharged_by_backend=backs, solver_seconds=round(sum(r['solver'] for r in results), 2), solver_queries=sum(r['queries'] for r in results),
               loops_with_inferred_invariants=sum(r['loops'] for r in results),
               extraction='clang++-18 -O0 + opt sroa of /repo/Source on this run; dropped: nothing but unreachable blocks',
               samples=[dict(contract=r['name'], obligations=len(r['mine']), first=[o['name'] for o in r['mine'][:3]]) for r in results[:4]])
    if prop.always_bounded:
        cov['bounded_stand_in'] = prop.always_bounded
        cov['bounded_result'] = 'found a violation' if found else 'passed'
    if bounded:
        cov['bounded_instead_of_proof'] = bounded
    with open(os.path.join(ev, prop.id + '.json'), 'w') as fh:
        json.dump(dict(property=prop.id, tier=tier, seed=seed, level='proof', coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=1 if verdict == 1 else 0), fh, indent=1)
    if os.environ.get('VERIF_TIMES'):
        for r in sorted(results, key=lambda r: -r['secs'])[:8]:
            print('  %.1fs (solver %.1fs, %d queries) %s' % (r['secs'], r['solver'], r['queries'], r['name']))
    for k in known_findings(prop.id):
        print('KNOWN-FINDING: property=%s %s' % (prop.id, k))
    print('%s: %d/%d obligations discharged over %d contracts (%d complete), %.1fs%s' % (prop.id, ndis, nob, len(results), len(proved), time.time() - t0, '; BOUNDED: ' + bounded if bounded else ''))
    if line:
        print(line)
    return verdict

def known_findings(pid):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'finding: property=(\S+) (.*)', ln.strip())
            if m and m.group(1) == pid:
                out.append(m.group(2))
    return out

def _z3v():
    import z3
    return z3.get_version_string()
