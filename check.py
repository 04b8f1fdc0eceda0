#!/usr/bin/env python3-vt
"""check.py <property id> : verify one property against /repo's working tree"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vir import runner
import importlib
MODULES = {}
for f in sorted(os.listdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'specs'))):
    if f.endswith('.py') and f[0] != '_':
        MODULES[f[:-3]] = None

def find(pid):
    for m in MODULES:
        MODULES[m] = importlib.import_module('specs.' + m)
    for mod in MODULES.values():
        for p in getattr(mod, 'PROPERTIES', []):
            if p.id == pid:
                return p
    raise SystemExit('unknown property ' + pid)

if __name__ == '__main__':
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    p = find(pid)
    if os.environ.get('VERIF_CASE'):
        p.cases = [c for c in p.cases if os.environ['VERIF_CASE'] in c.name]
    sys.exit(runner.check(p, tier if tier in ('quick', 'thorough') else 'quick', seed))
