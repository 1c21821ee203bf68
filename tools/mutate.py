#!/usr/bin/env python3
"""Mutation campaign (development aid; no check uses it): which small changes of a source file does no obligation notice?

usage: python3-vt tools/mutate.py [-j N] [-n MAX] file.cc...   (files under /repo/src)
Prints one line per mutant that no task of the file refutes.
"""
import concurrent.futures, copy, os, random, re, shutil, sys, tempfile, time
sys.path.insert(0, '/verif/vp')
import irgen, ll, low, fun, tasks, world, subprocess

OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
       (r' && ', ' || '), (r' \|\| ', ' && '), (r'(?<=[(,\s])(\d+)(?=[,;)\s:])', None), (r'!(?=[a-z_(])', ''),
       (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r'\+\+', '--')]


def mutants(path):
    out = []
    lines = open(path).read().split('\n')
    off, depth = 0, 0
    stack = []
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith('#if'):
            stack.append(bool(re.search('FDUMP_DEFINE|FPRINT_ERRORS', s)))
        elif s.startswith('#endif'):
            stack.pop()
        if any(stack) or s.startswith(('#', '//', 'fprintf', '"')) or not s:
            continue
        code = l.split('//')[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                if b is None:
                    r = str(int(m.group(1)) + 1)
                else:
                    r = b
                out.append((n, l[:m.start()] + r + l[m.end():]))
        if re.match(r'\s*[A-Za-z_][\w>.\-\[\]()]* [+\-|]?= .*;$', code) or re.match(r'\s*(return nullptr|return false|break|continue);', code) or \
                re.match(r'\s*[\w\->.]+\.push_back\(.*\);', code):
            out.append((n, re.match(r'\s*', l).group(0) + ';'))
    return lines, out


def setup(_=None):
    global BASE, W, NAMES
    BASE = irgen.load()
    W = world.build()
    NAMES = [p.name for p in W.procs.values() if p.fn] + low.NAMES + fun.NAMES


def taskfns(name):
    return name


def job(a):
    fn, lines, n, new, names = a
    t0 = time.time()
    out = tempfile.mkdtemp(prefix='vpmut')
    try:
        p = os.path.join(out, fn)
        ls = list(lines)
        ls[n] = new
        open(p, 'w').write('\n'.join(ls))
        src, text, lay, err = irgen._one((p, out))
        p0 = os.path.join(out, 'o'); os.mkdir(p0)
        open(os.path.join(p0, fn), 'w').write('\n'.join(lines))
        _, text0, _, _ = irgen._one((os.path.join(p0, fn), p0))
    finally:
        shutil.rmtree(out, ignore_errors=True)
    if err:
        return 'nocompile', None
    strip = lambda t: re.sub(r'(, )?!dbg !\d+', '', t.split('\n!llvm')[0]).split('\n', 2)[2]
    if strip(text) == strip(text0):
        return 'same', None
    P = copy.copy(BASE)
    P.funcs = dict(BASE.funcs)
    m = ll.parse_module(text, fn)
    m.src = src
    m.dbgloc = irgen.parse_dbg(text)
    for k, f in m.funcs.items():
        f.src = src
        if k not in BASE.funcs or os.path.basename(BASE.funcs[k].src) == fn:
            P.funcs[k] = f
    res = []
    for t in names:
        r = tasks.run(P, W, t, time.time() + 120)
        if r['status'] != 'ok':
            res.append((t, r['status'], r.get('kind'), str(r.get('msg'))[:90]))
            if r['status'] == 'violation':
                return 'caught', res
        if time.time() - t0 > 400:
            break
    return ('undecided' if res else 'SURVIVED'), res


def main():
    a = sys.argv[1:]
    j, mx = 8, 10**9
    while a and a[0] in ('-j', '-n'):
        if a[0] == '-j': j = int(a[1])
        else: mx = int(a[1])
        a = a[2:]
    setup()
    bysrc = {}
    for n in NAMES:
        d = tasks.fn(W, n)
        for k, f in BASE.funcs.items():
            if BASE.dem.get(k) == d or k == d:
                bysrc.setdefault(os.path.basename(f.src), []).append(n)
    jobs = []
    for fn in a:
        fn = os.path.basename(fn)
        lines, ms = mutants('/repo/src/' + fn)
        names = bysrc.get(fn, [])
        if not names: print('no tasks', fn)
        names.sort(key=lambda n: tasks.COST.get(n, 1))
        random.seed(1)
        random.shuffle(ms)
        jobs += [(fn, lines, n, new, names) for n, new in ms[:mx]]
    print(len(jobs), 'mutants', flush=True)
    tot = {}
    with concurrent.futures.ProcessPoolExecutor(j, initializer=setup, initargs=(0,)) as ex:
        fs = {ex.submit(job, x): x for x in jobs}
        for f in concurrent.futures.as_completed(fs):
            fn, lines, n, new, names = fs[f]
            try:
                st, res = f.result()
            except Exception as e:
                st, res = 'error', repr(e)[:200]
            tot[st] = tot.get(st, 0) + 1
            if st not in ('nocompile', 'same', 'caught'):
                print(st, fn, n + 1, '|', lines[n].strip(), '|->|', new.strip(), '|', res, flush=True)
    print(tot)

if __name__ == '__main__':
    main()
