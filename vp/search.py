"""Search for a failing input: spec-guided differential execution of the real code."""
import multiprocessing as mp
import time
import gen
import native
import ir_consts
import special
import dumptext

S = {}


def z3v():
    import z3
    return z3.get_version_string()


def shard(a):
    name, pool, hints, seed, budget, crash_only = a
    end = time.time() + budget
    w, prog, nat = S['w'], S['prog'], S['nat']
    mk = special.maker(name, w, prog, seed, pool, hints)
    n = steps = acc = 0
    batch = 60
    while time.time() < end:
        cs = [mk() for _ in range(batch)]
        rs = nat.run([c[0] for c in cs])
        for (st, ex), g in zip(cs, rs):
            n += 1
            steps += len(st)
            acc += sum(1 for e in g if isinstance(e, dict) and 't' in e) if name.startswith('d.') else sum(1 for e in ex if isinstance(e, dict) and e.get('r') is not None)
            x = dumptext.compare(prog.layouts, ex, g, crash_only) if name.startswith('d.') else gen.crash(g) if crash_only else gen.compare(ex, g)
            if x:
                i, what = x
                return name, n, steps, acc, {'steps': st[:i + 1], 'step': i, 'what': what, 'expected': ex[i] if i < len(ex) else None, 'got': g[i]}
        batch = min(400, batch * 2)
    return name, n, steps, acc, None


def search(prog, w, targets, seed, budget, crash_only=False):
    """first failing input over the targets [(task, pool, hints)]"""
    targets = [(n, p, h) for n, p, h in targets if special.has(n, w)]
    if not targets:
        return None, {'executions': 0}
    t0 = time.time()
    nat = native.Native(w, prog)
    S.update(w=w, prog=prog, nat=nat)
    stats = {'executions': 0, 'steps': 0, 'accepted': 0, 'targets': [t[0] for t in targets]}
    found = None
    try:
        end = t0 + budget
        rnd = 0
        slot = max(6.0, min(budget / 3.0, budget * 8.0 / (len(targets) * 3)))
        while time.time() < end - 1 and found is None:
            jobs = []
            per = max(1, 8 // len(targets))
            for n, p, h in targets:
                c = set(p) | ir_consts.consts(prog, special.fn(n, w))
                for k in range(per):
                    jobs.append((n, c, h, seed * 1000003 + rnd * 8191 + k * 131 + 7, min(slot, max(1.0, end - time.time())), crash_only))
            with mp.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
                for name, cnt, steps, acc, f in pool.imap_unordered(shard, jobs):
                    stats['executions'] += cnt
                    stats['steps'] += steps
                    stats['accepted'] += acc
                    if f and found is None:
                        found = f
                        found['target'] = name
                        break
            rnd += 1
    finally:
        nat.close()
    stats['seconds'] = round(time.time() - t0, 1)
    return found, stats
