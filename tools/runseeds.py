#!/usr/bin/env python3
"""Apply each planted bug in /repo, run its property's quick check, undo. usage: runseeds.py [ids|--all-props id]"""
import json, os, subprocess, sys, time
S = '/verif/seeded'
def sh(c): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
ids = sys.argv[1:] or sorted(os.listdir(S))
for i in ids:
    m = json.load(open('%s/%s/meta.json' % (S, i)))
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    t = time.time()
    try:
        r = sh('git -C /repo apply %s/%s/patch.diff' % (S, i)); assert r.returncode == 0, r.stdout
        r = sh('cd /verif && VERIF_SEED=1 python3-vt check.py %s quick' % m['property'])
    finally:
        sh('git -C /repo checkout -- .')
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print('%-28s %s rc=%d %5.0fs %s' % (i, m['property'], r.returncode, time.time() - t, v or r.stdout[-300:]), flush=True)
