#!/usr/bin/env python3
"""mutate.py OUT N SEED WORKERS [file-regex] : mutation campaign on copies of /repo.
Random one-place mutants of Source; those that build and pass the stable tests are run through the checks of the
properties anchored in that file (check.py with VLPP_REPO); survivors are listed in OUT for inspection."""
import sys, os, re, random, subprocess, json, shutil, threading, queue
OUT, N, SEED, W = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]); FRE = sys.argv[5] if len(sys.argv) > 5 else '.'
PROPS = [('Collections/List.h', 'C01 C02 C24 C03'), ('Collections/Dictionary.h', 'C24 C04 C05'), ('Collections/Pair.h', 'C13'),
         ('Collections/OperationForEach.h', 'C24'), ('Collections/OperationCopyFrom.h', 'C23'), ('Collections/OperationEnumerable.h', 'C15 C16 C17'), ('Collections/Operation.h', 'C15 C16 C17'),
         ('Collections/OperationString.h', 'C15'), ('Collections/OperationSequence.h', 'C15'), ('Collections/OperationConcat.h', 'C15'), ('Collections/OperationPair.h', 'C15'),
         ('Collections/OperationSelect.h', 'C15'), ('Collections/OperationSet.h', 'C15'), ('Collections/OperationWhere.h', 'C15'), ('Collections/Interfaces.h', 'C15'),
         ('Strings/String.h', 'C06 C07 C08'), ('Strings/String.cpp', 'C21'), ('Strings/Conversion.h', 'C09 C10'), ('Strings/Conversion.cpp', 'C09 C10'), ('Strings/Conversion.Linux.cpp', 'C10'),
         ('Primitives/Pointer.h', 'C11'), ('Primitives/Nullable.h', 'C12'), ('Primitives/Variant.h', 'C12'), ('Primitives/Tuple.h', 'C13'), ('Primitives/Function.h', 'C14'), ('Primitives/Event.h', 'C14'),
         ('Collections/PartialOrdering.h', 'C19 C22'), ('Collections/PartialOrdering.cpp', 'C19 C22'), ('GlobalStorage.h', 'C20'), ('GlobalStorage.cpp', 'C20'), ('Primitives/DateTime.cpp', 'C18'), ('Primitives/DateTime.Linux.cpp', 'C18'), ('UnitTest/UnitTest.cpp', 'C25'), ('UnitTest/UnitTest.h', 'C25')]
PROPS = [(f, p.split()) for f, p in PROPS if re.search(FRE, f) and os.path.exists('/repo/Source/' + f)]
def muts(line):
    """all one-place mutations of a code line"""
    out = []
    if re.match(r'\s*(//|#|\*|/\*|template|typedef|using|class|struct|static_assert|enum|case\b|public|private|protected|friend)', line) or not line.strip():
        return out
    def rep(pat, new):
        for m in re.finditer(pat, line):
            out.append(line[:m.start()] + (m.expand(new)) + line[m.end():])
    for a, b in ((' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' && ', ' || '), (' \\|\\| ', ' && '), (' \\+ 1\\b', ''), (' - 1\\b', ''), (' \\+ ', ' - '), (' - ', ' + '),
                 ('\\+\\+', '--'), ('\\btrue\\b', 'false'), ('\\bfalse\\b', 'true'), ('\\b0\\b', '1'), ('\\b1\\b', '0'), ('\\b1\\b', '2'), ('\\bmin\\b', 'max'), ('!(?=[a-zA-Z(])', ''),
                 ('\\bstart\\b', '0'), ('std::move\\(([^()]*)\\)', r'\1'), (' \\+= ', ' -= '), (' < 0', ' <= 0'), (' > 0', ' >= 0'), ('\\bnullptr\\b', 'this'), ('->', '->')):
        if a == b:
            continue
        rep(a, b)
    m = re.match(r'(\s*)([^;{}]*;)\s*(//.*)?$', line)
    if m and not re.match(r'\s*(return|break|continue|[\w:<>&\*, ]+\s+\w+\s*(;|=[^=]|\())', line):
        out.append(m.group(1) + ';')
    m = re.match(r'(\s*)return (.+);\s*$', line)
    if m and m.group(2) in ('true', 'false'):
        pass
    m = re.search(r'\bif\s*\((.*)\)\s*(return.*|throw.*|break;|continue;|)$', line)
    if m and m.group(1).count('(') == m.group(1).count(')'):
        for c in ('true', 'false'):
            out.append(line[:m.start(1)] + c + line[m.end(1):])
    return [o for o in dict.fromkeys(out) if o != line]
rng = random.Random(SEED); pool = []
for f, ps in PROPS:
    raw = open('/repo/Source/' + f, encoding='utf-8-sig', newline='').read(); lines = raw.split('\n'); c = False; here = []
    for i, l in enumerate(lines):
        e = l.rstrip('\r')
        if '/*' in e:
            c = True
        if not c:
            here += [(f, ps, i, e, m) for m in muts(e)]
        if '*/' in e:
            c = False
    rng.shuffle(here); pool.append(here)
pick = []
while len(pick) < N and any(pool):
    tot = [len(h) ** 0.5 for h in pool]; k = rng.choices(range(len(pool)), tot)[0]
    if pool[k]:
        pick.append(pool[k].pop())
q = queue.Queue(); [q.put(x) for x in pick]; lock = threading.Lock(); cs = threading.Semaphore(1)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); res = dict(nobuild=0, tests=0, caught=0, survived=0)
def log(s):
    with lock:
        open(OUT, 'a').write(s + '\n')
def work(w):
    R = '/tmp/w/mu/%d' % w; shutil.rmtree(R, ignore_errors=True); os.makedirs(R)
    subprocess.check_call(['git', 'clone', '-q', '/repo', R + '/repo'])
    os.makedirs(R + '/cmake'); s = open('/opt/vp/cmake/CMakeLists.txt').read().replace('set(REPO /repo)', 'set(REPO %s/repo)' % R); open(R + '/cmake/CMakeLists.txt', 'w').write(s)
    open(R + '/run_unittest.py', 'w').write(open('/opt/vp/run_unittest.py').read().replace('"/repo"', repr(R + '/repo')))
    env = dict(os.environ, TZ='UTC', CC='gcc', CXX='g++')
    subprocess.check_call(['cmake', '-S', R + '/cmake', '-B', R + '/b', '-G', 'Ninja', '-DCMAKE_BUILD_TYPE='], env=env, stdout=subprocess.DEVNULL)
    subprocess.check_call(['ninja', '-C', R + '/b', 'UnitTest', '-j', '3'], env=env, stdout=subprocess.DEVNULL)
    while True:
        try:
            f, ps, i, old, new = q.get_nowait()
        except queue.Empty:
            break
        p = R + '/repo/Source/' + f; raw = open(p, 'rb').read()
        lines = raw.decode('utf-8').split('\n'); cr = lines[i].endswith('\r'); bom = '\ufeff' if i == 0 and lines[0].startswith('\ufeff') else ''
        lines[i] = bom + new + ('\r' if cr else ''); open(p, 'wb').write('\n'.join(lines).encode('utf-8'))
        tag = '%s:%d  %s  ==>  %s' % (f, i + 1, old.strip()[:90], new.strip()[:90])
        try:
            x = subprocess.run(['ninja', '-C', R + '/b', 'UnitTest', '-j', '3'], env=env, capture_output=True)
            if x.returncode:
                res['nobuild'] += 1; continue
            shutil.rmtree(R + '/r', ignore_errors=True); os.makedirs(R + '/r')
            try:
                subprocess.run(['python3', R + '/run_unittest.py', R + '/b/UnitTest', R + '/r'], capture_output=True, timeout=60)
                subprocess.run(['python3', '/opt/vp/results.py', R + '/o.json', 'lines:%s/r/*.lines' % R], capture_output=True, timeout=60)
                ok = stable <= set(json.load(open(R + '/o.json'))['passed'])
            except Exception:
                ok = False
            if not ok:
                res['tests'] += 1; continue
            got = None; notes = []
            with cs:
                for pr in ps:
                    try:
                        c = subprocess.run(['python3-vt', 'check.py', pr], cwd='/tmp/w/mu/verif', env=dict(os.environ, VLPP_REPO=R + '/repo'), capture_output=True, text=True, timeout=900)
                    except subprocess.TimeoutExpired:
                        notes.append(pr + ' TIMEOUT'); continue
                    v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
                    if c.returncode == 1 and v:
                        got = v[0]; break
                    und = sum(l.startswith('UNDECIDED') for l in c.stdout.splitlines())
                    notes.append('%s exit %d undecided %d' % (pr, c.returncode, und))
            if got:
                res['caught'] += 1; log('CAUGHT%s %s   [%s]' % (' (no input)' if 'no-failing' in got else '', tag, got.split()[1]))
            else:
                res['survived'] += 1; log('SURVIVED %s   [%s]' % (tag, '; '.join(notes)))
        finally:
            open(p, 'wb').write(raw)
            log('-- %s left %d' % (res, q.qsize())) if rng.random() < 0.1 else None
ts = [threading.Thread(target=work, args=(w,)) for w in range(W)]; [t.start() for t in ts]; [t.join() for t in ts]; log('DONE %s' % res)
