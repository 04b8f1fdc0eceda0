#!/usr/bin/env python3
"""mkseed.py FILE.py : FILE defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ text), optional FLAGS, SRCS.
Confirms in a scratch copy: builds, stable tests pass, demo 0 without / nonzero with the change; then keeps it in seeded/<ID>."""
import sys, os, subprocess, shutil, json, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
ID = ns['ID']
d = tempfile.mkdtemp(prefix='seed')
wt = d + '/repo'
subprocess.check_call(['cp', '-a', '/repo', wt])
subprocess.check_call(['git', '-C', wt, 'checkout', '-q', '--', '.'])
out = d + '/' + ID
os.makedirs(out)
srcs = ns.get('SRCS', ['Basic.cpp', 'Exception.cpp', 'GlobalStorage.cpp', 'Strings/String.cpp', 'Strings/Conversion.cpp', 'Strings/Conversion.Linux.cpp', 'Primitives/DateTime.cpp', 'Primitives/DateTime.Linux.cpp'])
open(out + '/demo.cpp', 'w').write(ns['DEMO'])
open(out + '/demo.sh', 'w').write('''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -w %s -I"$PWD/Source" "$here/demo.cpp" %s -o "$tmp/demo" -pthread || exit 3
cd "$tmp" && timeout 120 ./demo
''' % (ns.get('FLAGS', ''), ' '.join('"$PWD/Source/%s"' % s for s in srcs)))
os.chmod(out + '/demo.sh', 0o755)
json.dump(dict(property=ns['PROP'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(out + '/meta.json', 'w'), indent=1)
r0 = subprocess.run(['bash', out + '/demo.sh'], cwd=wt, capture_output=True, text=True)
for f, a, b in ns['EDITS']:
    p = wt + '/' + f
    s = open(p, newline='').read()
    if '\r\n' in s:
        a = a.replace('\n', '\r\n'); b = b.replace('\n', '\r\n')
    assert s.count(a) >= 1, ('not found', a)
    s = s.replace(a, b, 1) if s.count(a) == 1 or ns.get('FIRST') else None
    assert s, ('ambiguous', a)
    open(p, 'w', newline='').write(s)
diff = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True).stdout
open(out + '/patch.diff', 'wb').write(diff)
r1 = subprocess.run(['bash', out + '/demo.sh'], cwd=wt, capture_output=True, text=True)
print('demo without:', r0.returncode, (r0.stdout + r0.stderr)[-300:] if r0.returncode else '')
print('demo with:', r1.returncode, (r1.stdout + r1.stderr)[-300:])
# build and test the changed tree: the scripts work on /repo, so swap in place
subprocess.check_call(['git', '-C', '/repo', 'apply', out + '/patch.diff'])
try:
    b = subprocess.run(['bash', '/opt/vp/build.sh'], capture_output=True, text=True)
    t = subprocess.run(['bash', '/opt/vp/test.sh', d + '/o.json'], capture_output=True, text=True)
finally:
    subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])
ok = False
if b.returncode == 0 and os.path.exists(d + '/o.json'):
    st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    o = json.load(open(d + '/o.json'))
    miss = st - set(o['passed'])
    print('build ok, tests passed', len(o['passed']), 'missing', len(miss), list(miss)[:3])
    ok = not miss
else:
    print('build failed', b.stdout[-500:], b.stderr[-500:])
if ok and r0.returncode == 0 and r1.returncode not in (0, 3, 124):
    dst = '/verif/seeded/' + ID
    if os.path.exists(dst):
        shutil.rmtree(dst)
    shutil.copytree(out, dst)
    print('KEPT', dst)
else:
    print('REJECTED')
shutil.rmtree(d)
