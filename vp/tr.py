"""run tasks as the checks do, in parallel: tr.py [-j N] patterns"""
import dump, concurrent.futures
import fnmatch
import sys
import time

import fun
import irgen
import low
import tasks
import world


def one(n):
    prog, w = irgen.load(), world.build()
    r = tasks.run(prog, w, n, time.time() + 300)
    if r['status'] != 'ok':
        for m in (2, 1):
            q = tasks.run(prog, w, n, time.time() + 300, m)
            if q['status'] == 'ok':
                r = q
                r['kind'] = 'unrolled'
                break
    return '%s %s %d %s %.1fs %s' % ({'ok': 'OK'}.get(r['status'], r['status'].upper()), n, r['obligations'], r.get('kind', ''), r['wall'], str(r.get('msg', ''))[:170].replace('\n', ' '))


def main():
    a = sys.argv[1:]
    j = 8
    if a and a[0] == '-j':
        j = int(a[1])
        a = a[2:]
    w = world.build()
    irgen.load()
    names = [p.name for p in w.procs.values() if p.fn] + low.NAMES + fun.NAMES + dump.NAMES + ['u.counter']
    if a:
        names = [n for n in names if any(fnmatch.fnmatch(n, x) for x in a)]
    names.sort(key=lambda n: -tasks.COST.get(n, 1))
    with concurrent.futures.ProcessPoolExecutor(j) as ex:
        for f in concurrent.futures.as_completed([ex.submit(one, n) for n in names]):
            print(f.result(), flush=True)


if __name__ == '__main__':
    main()
