#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's working tree.

Every contract the property rests on is re-verified from the current source.
exit 0: every obligation discharged (or, where a function is out of the
verifier's reach, its bounded stand-in found nothing: labelled in the evidence);
exit 1: a VIOLATION line; exit 2: the machinery itself could not run."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vp'))
sys.setrecursionlimit(20000)

import irgen      # noqa: E402
import world as W  # noqa: E402
import tasks      # noqa: E402
import props      # noqa: E402
import search     # noqa: E402

G = {}


def work(name):
    try:
        name, end, unroll = name
        return tasks.run(G['prog'], G['world'], name, min(G['end'], time.time() + end), unroll)
    except BaseException as e:          # noqa: B902
        return {'task': name, 'fn': tasks.fn(G['world'], name), 'status': 'undecided', 'kind': 'internal', 'msg': traceback.format_exc()[-500:], 'obligations': 0, 'wall': 0}


def known(pid):
    out = []
    f = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(f):
        for ln in open(f):
            ln = ln.strip()
            if ln.startswith('finding: property=%s ' % pid):
                out.append(ln[len('finding: '):])
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    P = props.PROPS[pid]
    prog = irgen.load()
    w = W.build()
    G.update(prog=prog, world=w, tier=tier)
    home = tasks.expand(w, P['tasks'])
    deps = [n for n in tasks.expand(w, P['uses']) if n not in home]
    names = home + deps
    names.sort(key=lambda n: -tasks.COST.get(n, 1))
    # seconds from the start by which the proofs, the second proofs and the last search end; limit per function
    E1, E2, E3, lim, first = {'quick': (380, 600, 760, 300, 40), 'thorough': (2400, 4000, 6500, 900, 200)}[tier]

    def prove(ns, end, modes):
        G['end'] = t0 + end
        with mp.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
            out = []
            for r in pool.imap_unordered(work, [(n, lim, m) for m in modes for n in ns], chunksize=1):
                out.append(r)
                if len(modes) > 1 and {x['task'] for x in out if x['status'] == 'ok'} >= set(ns):
                    pool.terminate()
                    break
        for r in out:
            r['role'] = 'dependency' if r['task'] in deps else 'own'
            if r['status'] == 'violation':
                # a refuted contract of a dependency, or a kind of obligation this property does not speak of,
                # leaves the property undecided: only a failing input of the property's own functions is a violation
                if r['role'] == 'dependency' or (P['kinds'] and r.get('kind') not in P['kinds']):
                    r['status'] = 'undecided'
                    r['refuted'] = True
        return out

    def replay(bad, budget):
        """search for a failing input: the failed obligations first, everything of the property where only a dependency failed"""
        targets = [(r['task'], r.get('pool', ()), r.get('hints', {})) for r in bad if r['role'] == 'own']
        if not bad or any(r['role'] != 'own' for r in bad):
            targets += [(n, (), {}) for n in home if n not in [x[0] for x in targets]]
        try:
            f, s = search.search(prog, w, targets, seed, budget, crash_only=bool(P['kinds']))
        except irgen.BuildError as e:
            f, s = None, {'error': str(e)[-300:]}
        runs.append(s)
        return f

    runs = []
    found = None
    res = prove(names, E1, [0])
    bad = [r for r in res if r['status'] != 'ok']
    if bad:
        found = replay(bad, first)
        if not found:
            # once more, with short loops executed in full before an invariant is sought
            again = {r['task']: r for r in prove([r['task'] for r in bad if r.get('kind') != 'memory'], E2, [2, 1]) if r['status'] == 'ok'}
            res = [again.get(r['task'], r) for r in res]
            bad = [r for r in res if r['status'] != 'ok']
            if bad:
                found = replay(bad, max(20, min(E3 - (time.time() - t0), 140 if tier == 'quick' else 1500)))
    elif tier == 'thorough':
        found = replay([], 300)
    res.sort(key=lambda r: r['task'])
    stats = {k: sum(s.get(k, 0) for s in runs) for k in ('executions', 'steps', 'accepted', 'seconds')} if runs else {}
    if runs:
        stats['targets'] = runs[-1].get('targets', [])
        if 'error' in runs[-1]:
            stats['error'] = runs[-1]['error']
    viol = [r for r in bad if r['status'] == 'violation']
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    lines = []
    code = 0
    if found or viol:
        code = 1
        path = os.path.join(HERE, 'replays', '%s.txt' % pid)
        with open(path, 'w') as f:
            f.write('property %s: %s\n' % (pid, P['title']))
            for r in bad:
                f.write('failed obligation: %s [%s] %s\n   function %s\n' % (r['task'], r.get('kind'), r.get('msg'), r['fn']))
            if found:
                f.write('\nfailing input, replayed on the real code (%s):\n' % found['what'])
                for s in found['steps']:
                    f.write('  step: %s\n' % s)
                f.write('  at step %d: %s\n' % (found['step'], found['what']))
                f.write('  expected: %s\n' % json.dumps(found.get('expected'))[:4000])
                f.write('  got:      %s\n' % json.dumps(found.get('got'))[:4000])
            else:
                f.write('\nno failing input found: %s\n' % json.dumps(stats))
        lines.append('VIOLATION property=%s replay=%s%s' % (pid, path, '' if found else ' no-failing-input-found'))
    for k in known(pid):
        print('KNOWN-FINDING: ' + k)
    for r in bad:
        print('obligation not discharged: %s [%s/%s] %s' % (r['task'], r['status'], r.get('kind'), r.get('msg')))
    if found:
        print('failing input: %s at step %d: %s' % (' ; '.join(found['steps'])[:400], found['step'], found['what']))
    nobl = sum(r['obligations'] for r in res)
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof',
        'coverage': {
            'obligations': nobl + len([r for r in bad]),
            'discharged': nobl - len([r for r in bad if r['obligations']]),
            'checker_cmd': 'python3-vt /verif/check.py %s %s' % (pid, tier),
            'trusted_base': props.TRUSTED,
            'functions_under_contract': [{'function': r['fn'], 'contract': r['task'], 'role': r['role'], 'status': r['status'], 'obligations': r['obligations'], 'by_kind': r.get('kinds', {}),
                                          'callee_contracts_used': r.get('assumed', []), 'returns_reached': r.get('returns'), 'solver_s': r.get('solver_s', 0), 'wall_s': r.get('wall', 0)} for r in res],
            'backend': 'z3 %s (python API), own VC generator over clang-18 LLVM IR of the working tree' % search.z3v(),
            'bounded_stand_ins': [{'function': r['fn'], 'why': r.get('msg'), 'bound': stats} for r in res if r['status'] == 'undecided'],
            'replay_search': stats,
        },
        'assumptions': props.ASSUMPTIONS + P.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': 1 if code else 0,
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d functions, %d obligations, %d not discharged, %.1f s' % (pid, tier, len(res), nobl, len(bad), time.time() - t0))
    for ln in lines:
        print(ln)
    sys.exit(code)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:       # noqa: B902
        traceback.print_exc()
        sys.exit(2)
