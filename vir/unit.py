"""Extraction: compile a TU that instantiates the real templates / includes the real .cpp files
of /repo/Source, and load the resulting IR.  Runs on every check."""
import os, subprocess, hashlib, tempfile, time
from .irparse import parse_module
REPO = os.environ.get('VLPP_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPT = '/usr/lib/llvm-18/bin/opt'
FILT = '/usr/lib/llvm-18/bin/llvm-cxxfilt'

class ExtractionError(Exception):
    pass

class Unit:
    pass

def scratch():
    d = os.environ.get('VERIF_SCRATCH')
    if not d:
        d = tempfile.mkdtemp(prefix='vlppverif.')
        os.environ['VERIF_SCRATCH'] = d
        import atexit, shutil
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    return d

_units = {}
def load(name, flags=()):
    if name in _units:
        return _units[name]
    src = os.path.join(HERE, 'tu', name + '.cpp')
    d = scratch()
    o0 = os.path.join(d, name + '.0.ll'); o1 = os.path.join(d, name + '.ll')
    cmd = ['clang++-18', '-std=c++20', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-fno-access-control', '-w',
           '-S', '-emit-llvm', '-I' + REPO + '/Source', '-I' + HERE + '/tu', *flags, src, '-o', o0]
    t = time.time()
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise ExtractionError('clang failed on %s:\n%s' % (src, r.stderr[-4000:]))
    r = subprocess.run([OPT, '-S', '-passes=sroa', o0, '-o', o1], capture_output=True, text=True)
    if r.returncode:
        raise ExtractionError('opt failed:\n' + r.stderr[-2000:])
    txt = open(o1).read()
    u = Unit()
    u.m = parse_module(txt)
    import re
    for a, b in re.findall(r'^@("?[\w.$]+"?) = [^\n]*\balias\b[^\n]*, ptr @("?[\w.$]+"?)\s*$', txt, re.M):
        a = a.strip('"'); b = b.strip('"')
        if b in u.m.funcs and a not in u.m.funcs:
            u.m.funcs[a] = u.m.funcs[b]
    names = list(u.m.funcs) + list(u.m.decls)
    r = subprocess.run([FILT], input='\n'.join(names) + '\n', capture_output=True, text=True)
    u.dem = dict(zip(names, r.stdout.split('\n')))
    u.bydem = {}
    for k, v in u.dem.items():
        if k in u.m.funcs:
            # complete-object constructors/destructors preferred
            if v not in u.bydem or ('C1' in k or 'D1' in k or 'D2' in k):
                if v in u.bydem and ('D0' in k):
                    continue
                u.bydem[v] = k
    u.name = name
    u.cmd = ' '.join(cmd[:-3])
    u.secs = time.time() - t
    _units[name] = u
    return u

def source_digest():
    h = hashlib.sha256()
    for root, ds, fs in sorted(os.walk(REPO + '/Source')):
        for f in sorted(fs):
            p = os.path.join(root, f)
            h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]
