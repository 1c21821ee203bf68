"""Case makers for the search, by task."""
import random
import re
import struct
import gen
import fun
import low
import oracle


def has(name, w):
    return name in w.procs or kind(name) is not None


def fn(name, w):
    return w.procs[name].fn if name in w.procs else low.fn(name)


def kind(name):
    if name.startswith('bb.') or name in ('g.ue', 'g.se', 'g.aligned', 'g.current_offset', 'g.more_data', 'g.trailing'):
        return 'bb'
    if name.startswith('f.'):
        return 'fun'
    if name.startswith('d.'):
        return 'dump'
    if name.startswith('u.'):
        return 'unimpl'
    if name.startswith('wr.') or name.startswith('lemma.'):
        return 'wr'
    return {'g.unescape_rbsp': 'unescape', 'g.find_nalus': 'findnalu', 'g.find_nalus_explicit': 'findnalux'}.get(name)


OPS = {'bb.peek32': 'p32', 'bb.peek64': 'p64', 'bb.read32': 'u32', 'bb.read64': 'u64', 'bb.uint8': 'b8', 'bb.uint16': 'b16', 'bb.uint32': 'b32', 'bb.skip': 'skip',
       'bb.skipbytes': 'skipb', 'bb.seek': 'seek', 'bb.remaining': 'rem', 'bb.nonsyma': 'ns', 'bb.nonsymb': 'ns', 'g.ue': 'ue', 'g.se': 'se', 'g.aligned': 'align',
       'g.current_offset': 'cur', 'g.more_data': 'more', 'g.trailing': 'trail',
       'wr.uint': 'w32', 'wr.uea': 'ue', 'wr.ueb': 'ue', 'wr.sea': 'se', 'wr.seb': 'se', 'wr.nonsyma': 'ns', 'wr.nonsymb': 'ns', 'wr.nonsymsize': 'nsz'}


def maker(name, w, prog, seed, pool, hints):
    k = kind(name) if name not in w.procs else None
    if k:
        r = random.Random(seed * 7919 + sum(map(ord, name)))
        if k == 'dump':
            import dumptext
            if name == 'd.indent_level':
                return lambda: case_indent(r)
            ps = dumptext.producers(w, 'd.nal_unit' if name == 'd.checksum_text' else name)
            G = gen.Gen(w, prog.layouts, seed, pool, hints)
            return lambda: case_dump(r, G, ps, 'nal_unit' if name == 'd.checksum_text' else name[2:])
        if k == 'fun':
            O = oracle.Oracle(fun.FW, prog.layouts)
            return lambda: case_fun(r, O, w, fun.FW.procs[name[2:]], pool)
        return {'bb': lambda: case_bb(r, OPS.get(name.split('@')[0])), 'wr': lambda: case_wr(r, OPS.get(name.split('@')[0], 'w')), 'unescape': lambda: case_unescape(r), 'unimpl': lambda: case_unimpl(r),
                'findnalu': lambda: case_find(r), 'findnalux': lambda: case_findx(r)}[k]
    G = gen.Gen(w, prog.layouts, seed, pool, hints)
    p = w.procs[name]
    if name == 'nal_unit_type':
        return lambda: case_nut(G, w)
    return lambda: G.case(p)


def hx(d):
    return d.hex() or '-'


def some_bytes(r, n, mode=None):
    mode = mode or r.choice(['any', 'zero', 'sparse', 'ones', 'tail'])
    if mode == 'any':
        return bytes(r.randrange(256) for _ in range(n))
    if mode == 'zero':
        return bytes(r.choice([0, 0, 0, 0, 1, 128, 64]) for _ in range(n))
    if mode == 'ones':
        return bytes(r.choice([255, 255, 254, 127, 0]) for _ in range(n))
    if mode == 'tail':
        return (bytes(r.randrange(256) for _ in range(n)) + bytes([r.choice([0, 128, 64, 1 << r.randrange(8)])]))[-n:] if n else b''
    d = bytearray(n)
    for _ in range(r.randrange(3)):
        if n:
            d[r.randrange(n)] = 1 << r.randrange(8)
    return bytes(d)


def width(r, w):
    x = r.random()
    if x < 0.9:
        return r.randint(1, w)
    return r.choice([0, w, w + 1, 64, 65, 1 << 32, (1 << 64) - 1])


def case_bb(r, focus):
    n = r.choice([0, 1, 1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 16, 20])
    d = some_bytes(r, n)
    b = oracle.Bits(d)
    ops, ex = [], []
    for _ in range(r.randint(1, 10)):
        op = focus if focus and r.random() < 0.6 else r.choice(['p32', 'p64', 'u32', 'u64', 'b8', 'b16', 'b32', 'ue', 'se', 'ns', 'seek', 'skip', 'skipb', 'rem', 'more', 'trail', 'align', 'cur'])
        if focus and r.random() < 0.3:
            op = r.choice(['seek', 'skip'])
        p0, ok, v, pos = b.P, True, 0, None
        try:
            if op in ('p32', 'p64', 'u32', 'u64'):
                k = width(r, int(op[1:]))
                s = '%s:%d' % (op, k)
                if k > int(op[1:]):
                    raise oracle.Fail('width')
                v = b.u(k)
                if op[0] == 'p':
                    b.P = p0
            elif op in ('b8', 'b16', 'b32'):
                s = op
                v = b.u(int(op[1:]))
            elif op == 'ue':
                s = op
                v = b.ue()
            elif op == 'se':
                s = op
                v = b.se()
            elif op == 'ns':
                num = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, r.randint(1, 300), r.randint(1, 1 << 31), 1 << 31, (1 << 31) - 1, 1 << r.randrange(32), (1 << r.randint(1, 31)) - 1])
                num = max(1, num)
                s = 'ns:%d' % num
                L = num.bit_length()
                k = (1 << L) - num
                if num == 1:
                    v = 0
                else:
                    v = b.u(L - 1)
                    if v >= k:
                        v = v * 2 + b.u(1) - k
            elif op == 'seek':
                y, x = r.choice([r.randint(0, n), r.randint(0, n), n, n + 1, (1 << 64) - 1]), r.choice([0, r.randint(0, 7), r.randint(0, 7), 8])
                s = 'seek:%d:%d' % (y, x)
                if y > n or x > 7 or (y == n and x):
                    raise oracle.Fail('seek')
                b.P = y * 8 + x
            elif op == 'skip':
                k = r.choice([r.randint(0, 12), r.randint(0, 8 * n + 2), b.T - b.P, b.T - b.P + 1, (1 << 64) - 1, (1 << 64) - 8])
                s = 'skip:%d' % k
                if k > b.T - b.P:
                    raise oracle.Fail('skip')
                b.P += k
            elif op == 'skipb':
                k = r.choice([0, 1, r.randint(0, n + 1), 1 << 61, (1 << 61) + 1, (1 << 64) - 1])
                s = 'skipb:%d' % k
                if k * 8 > b.T - b.P:
                    raise oracle.Fail('skip')
                b.P += 8 * k
            elif op == 'rem':
                s, v = op, b.T - b.P
            elif op == 'more':
                s, ok = op, b.more()
            elif op == 'trail':
                s, ok = op, b.trailing()
            elif op == 'align':
                s, ok = op, b.P % 8 == 0
            elif op == 'cur':
                s, v = op, (b.P + 7) // 8
        except oracle.Fail:
            ok = False
            if op in ('ns',):
                pos = gen.DC
                b.P = 0
            else:
                b.P = p0
        ops.append(s)
        if op == 'trail' and not ok:
            pos = gen.DC
            b.P = 0
        ex.append([int(ok), v if ok else None, b.P if pos is None else pos])
        if pos is not None:
            ops.append('seek:0:0')
            ex.append([1, 0, 0])
    return ['bb %s %s' % (hx(d), ','.join(ops))], [{'r': ex}]


def put(v, T, P, x, n):
    sh = T - P - n
    return (v & ~(((1 << n) - 1) << sh)) | ((x & ((1 << n) - 1)) << sh)


def case_wr(r, focus):
    n = r.choice([0, 1, 2, 3, 4, 5, 8, 9, 10, 12, 16])
    d = some_bytes(r, n)
    T = 8 * n
    v = int.from_bytes(d, 'big') if n else 0
    P = 0
    ops, ex = [], []
    for _ in range(r.randint(1, 8)):
        op = focus if r.random() < 0.6 else r.choice(['w', 'w8', 'w16', 'w32', 'ue', 'se', 'ns', 'nsz', 'seek', 'skip'])
        out = 0
        w = None
        ok = True
        if op == 'w':
            k = width(r, 64)
            x = r.choice([r.randrange(1 << 64), (1 << 64) - 1, 0, r.randrange(1 << min(64, max(1, k)))])
            s = 'w:%d:%d' % (x, k)
            w = (x, k) if k <= 64 else None
            ok = w is not None
        elif op in ('w8', 'w16', 'w32'):
            k = int(op[1:])
            x = r.randrange(1 << k)
            s, w = '%s:%d' % (op, x), (x, k)
        elif op in ('ue', 'se'):
            x = r.choice([0, 1, 2, 3, r.randrange(300), r.randrange(1 << 32), (1 << 32) - 1, (1 << 32) - 2, (1 << 31) - 1, 1 << 31, (1 << 31) - 2, (1 << r.randrange(32)) - 1])
            if op == 'se':
                y = x - (1 << 32) if x >> 31 else x
                s = 'se:%d' % y
                ok = y != -(1 << 31)
                x = 2 * y - 1 if y > 0 else -2 * y
            else:
                s = 'ue:%d' % x
                ok = x != (1 << 32) - 1
            if ok:
                w = (x + 1, 2 * (x + 1).bit_length() - 1)
        elif op in ('ns', 'nsz'):
            num = max(1, r.choice([1, 2, 3, 5, 8, 9, r.randint(1, 300), r.randint(1, 1 << 31), 1 << 31, (1 << 31) - 1, 1 << r.randrange(32)]))
            x = r.choice([0, num - 1, r.randrange(num)])
            L = num.bit_length()
            k = (1 << L) - num
            c = (x, L - 1) if x < k else (x + k, L)
            s = '%s:%d:%d' % (op, x, num)
            if op == 'ns':
                w = c
            else:
                out = c[1]
        elif op == 'seek':
            y, x = r.randint(0, n), r.choice([0, r.randint(0, 7)])
            s = 'seek:%d:%d' % (y, x)
            ok = not (y == n and x)
            if ok:
                P = y * 8 + x
        else:
            k = r.randint(0, 9)
            s = 'skip:%d' % k
            ok = k <= T - P
            if ok:
                P += k
        if w is not None:
            ok = w[1] <= T - P
            if ok:
                v = put(v, T, P, w[0], w[1])
                P += w[1]
        ops.append(s)
        ex.append([int(ok), out, P, v.to_bytes(n, 'big').hex()])
    return ['wr %s %s' % (hx(d), ','.join(ops))], [{'r': ex}]


def small_bytes(r, n):
    a = r.choice([[0, 1, 3], [0, 0, 1, 2, 3], [0, 0, 0, 3, 1, 255], [0, 1], [0, 0, 1, 9]])
    return bytes(r.choice(a) for _ in range(n))


def case_unescape(r):
    d = small_bytes(r, r.randrange(0, 40))
    return ['unescape ' + hx(d)], [{'r': list(oracle.unescape(d))}]


def idx(t):
    return [{'start_offset': a, 'payload_start_offset': b, 'payload_size': c} for a, b, c in t]


def case_find(r):
    d = small_bytes(r, r.randrange(0, 40))
    return ['findnalu ' + hx(d)], [{'r': idx(oracle.nalus(d))}]


def explicit(d):
    out, i = [], 0
    while i < len(d):
        if i + 4 > len(d):
            break
        n = int.from_bytes(d[i:i + 4], 'big')
        if n > len(d) - i - 4:
            break
        out.append((i, i + 4, n))
        i += 4 + n
    return out


def case_findx(r):
    d = b''
    for _ in range(r.randrange(5)):
        n = r.choice([0, 1, 2, 5, 255, 256, 300, 65536 if r.random() < 0.05 else 7])
        d += n.to_bytes(4, 'big') + some_bytes(r, n)
    x = r.random()
    if x < 0.3:
        d = d[:r.randrange(len(d) + 1)]
    elif x < 0.5:
        d += some_bytes(r, r.randrange(8))
    elif x < 0.6 and d:
        d = bytes([r.choice([128, 255, 1])]) + d[1:]
    return ['findnalux ' + hx(d)], [{'r': idx(explicit(d))}]


def attrs(e, base, out):
    """fields of `base` the specification looks at: name -> path"""
    if isinstance(e, (list, tuple)):
        if len(e) == 3 and e[0] == 'attr':
            p, x = [e[2]], e[1]
            while isinstance(x, (list, tuple)) and x[0] == 'attr':
                p.insert(0, x[2])
                x = x[1]
            if tuple(x) == ('name', base):
                out.add('.'.join(p))
        for x in e:
            attrs(x, base, out)


def value(r, T, f, ty, w, pool):
    mx = (w.invs.get(T) or {}).get(f, {}).get('max')
    k = oracle.INT.get(ty, (0, 32))
    top = mx if mx is not None else (1 << (k[1] - k[0])) - 1
    x = r.random()
    if x < 0.35:
        v = r.choice([0, 1, 2, 3, top, top - 1])
    elif x < 0.6 and pool:
        v = r.choice(list(pool))
    elif x < 0.8:
        v = r.choice([66, 77, 88, 100, 110, 122, 144, 244, 44, 118, 128])
    else:
        v = r.randint(0, top)
    return v if 0 <= v <= top else r.randint(0, min(top, 5))


def case_fun(r, O, w, p, pool):
    args, texts = [], []
    for n, ty in p.params:
        if n == 'this':
            fs = set()
            attrs(p.code, 'this', fs)
            o = O.new(ty)
            t = O.types(ty)
            kv = []
            for f in sorted(fs):
                g = f.split('.')
                if len(g) == 2:
                    o.f[g[0]] = o.f[g[0]] or O.new(native_inner(t[g[0]]))
                    T2 = o.f[g[0]].T
                    v = value(r, T2, g[1], O.types(T2)[g[1]], w, pool)
                    o.f[g[0]].f[g[1]] = v
                    kv.append('%s=%d' % (f, v))
                elif 'map<' in t[f]:
                    o.f[f] = {}
                    for _ in range(r.randrange(4)):
                        i = r.choice([0, 1, 2, 31, 255, r.randrange(256)])
                        o.f[f][i] = i
                        kv.append('%s.%d=1' % (f, i))
                elif '_ptr<' in t[f]:
                    if f in [x.split('.')[0] for x in fs if '.' in x]:
                        continue
                    if r.random() < 0.5:
                        o.f[f] = oracle.Obj(None, {})
                        kv.append('%s=1' % f)
                else:
                    v = value(r, ty, f, t[f], w, pool)
                    if f == 'num_units_in_tick':
                        v = v or 1
                    o.f[f] = v
                    kv.append('%s=%d' % (f, v))
            args.append(o)
            texts.append(','.join(kv) or '-')
        elif ty == 'out':
            nul = r.random() < 0.1
            args.append(77)
            texts.append('n' if nul else 'y')
        elif ty == 'str':
            args.append('')
            texts.append('-')
        else:
            top = 255 if ty == 'u8' else (1 << 32) - 1
            v = r.choice([r.randrange(40), r.randrange(40), r.randrange(256), top, r.randint(0, top)])
            args.append(v)
            texts.append(str(v))
    O.budget = 10000
    m = oracle.Machine(O, p, None, args)
    for (n, ty), x in zip(p.params, texts):
        if ty == 'out':
            m.env[n + '_null'] = int(x == 'n')
    m.fun = lambda e, old=m.fun: special_fun(m, e, old)
    v = m.run()
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int) and 'float_of' not in str(p.code):
        v = oracle.fit('int32_t', v) if p.name in ('resolution', 'sub_width_c', 'sub_height_c', 'crop_unit_x', 'crop_unit_y') else v
    ex = [v] + [oracle.fit('int32_t', m.env[n]) for n, ty in p.params if ty == 'out']
    if not texts or p.params[0][0] != 'this':
        texts = ['-'] + texts
    return ['f.%s %s' % (p.name, ' '.join(texts))], [{'r': ex}]


def special_fun(m, e, old):
    if e[1] == 'name_of':
        names = [x[1] for x in e[2][1:]]
        return names[min(m.ev(e[2][0]), len(names) - 1)]
    if e[1] == 'float_of':
        a, b = (m.ev(x) for x in e[2])
        return struct.unpack('<I', struct.pack('<f', a / b))[0]
    return old(e)


def native_inner(ty):
    import native
    return native.inner(ty)


def case_nut(G, w):
    r = G.rng
    t = r.choice([14, 20, 21, r.randrange(32)])
    d = G.svc_hdr(t) if t in (14, 20) and r.random() < 0.7 else G.hdr_byte(t) + some_bytes(r, r.randrange(5))
    d = G.mutate(d) if r.random() < 0.3 else d
    d = d[:r.randrange(len(d) + 1)] if r.random() < 0.3 else d
    try:
        G.o.budget = 10000
        ex = [1, G.o.run(w.procs['nal_unit_header'], oracle.Bits(d), []).f['nal_unit_type']]
    except oracle.Fail:
        ex = [0, 99]
    return ['nutype ' + hx(d)], [{'r': ex}]


def case_indent(r):
    l = r.choice([-1, 0, 1, 2, 7, r.randrange(300)])
    return ['indent!%d!0!0 -' % l], [{'dump': ('indent_level', l, 0, 0)}]


def case_dump(r, G, ps, name):
    """parse, then write the result as text"""
    p = r.choice(ps)
    st, ex = G.case(p)
    ex = [None] * len(ex)
    for i, s in enumerate(st):
        c, _, rest = s.partition(' ')
        if c == p.name:
            l, o, t = r.choice([-1, 0, 1, 3]), r.choice([0, 31, r.getrandbits(5)]), r.choice([1, 5, 7, 8, 14, 15, 20, r.randrange(32)])
            st[i] = '%s!%d!%d!%d %s' % (c, l, o, t, rest)
            while len(ex) <= i:
                ex.append(None)
            ex[i] = {'dump': (name, l, o, t)}
    return st, ex


def case_unimpl(r):
    ops, ex, n = [], [], 0
    for _ in range(r.randint(1, 6)):
        k = r.choice(['r', 1, 1, 1, 2, 3, r.randrange(10), r.randrange(300), r.choice([0, 256, 3000])])
        n = 0 if k == 'r' else n + k
        ops.append(str(k))
        ex.append(n)
    return ['unimpl ' + ','.join(ops)], [{'r': ex + [0], 'un': n}]
