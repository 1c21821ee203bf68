#!/usr/bin/env python3
"""Create and confirm planted bugs (development aid; no check uses it).

usage: mkseed.py DEFS.py [ids...]   (DEFS.py defines SEEDS)
Each seed: dict(id, file, edits=[(old, new)...] or files={file: edits}, property, needs, breaks, demo)
"""
import json, os, shutil, subprocess, sys, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    want = sys.argv[2:]
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if os.path.exists('/opt/vp/BASELINE.json') else set()
    assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo not clean'
    for s in seeds:
        if want and s['id'] not in want: continue
        d = os.path.join(OUT, s['id'])
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        try:
            files = s.get('files') or {s['file']: s['edits']}
            for f, edits in files.items():
                p = '/repo/' + f
                t = open(p).read()
                for old, new in edits:
                    assert t.count(old) == 1, (s['id'], f, t.count(old), old)
                    t = t.replace(old, new)
                open(p, 'w').write(t)
            open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
            open(d + '/demo.cc', 'w').write(s['demo'].lstrip())
            shutil.copy(HERE + '/w.h', d); shutil.copy(HERE + '/demo.sh', d)
            json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                      open(d + '/meta.json', 'w'), indent=1)
            r = sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/mkseed.json')
            res = json.load(open('/tmp/mkseed.json'))
            missing = [b for b in base if b not in res['passed']]
            with_ = sh('bash %s/demo.sh' % d, cwd='/repo')
        finally:
            sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
        without = sh('bash %s/demo.sh' % d, cwd='/repo')
        ok = not missing and with_.returncode not in (0, 2) and without.returncode == 0
        print(s['id'], 'OK' if ok else 'BAD', 'missing', missing[:3], 'with', with_.returncode, with_.stdout[-200:].strip(),
              'without', without.returncode, without.stdout[-300:].strip(), flush=True)
main()
