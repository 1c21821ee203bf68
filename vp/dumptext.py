"""Concrete reading of dump.spec: the text of an object given as plain data."""
import dump
import fun
import oracle
import special


class Text(oracle.Machine):
    def __init__(self, lay, p, this, level, extra):
        self.lay, self.p = lay, p
        self.o, self.ft = None, {}
        self.env = dict(zip([n for n, _ in p.params], [this, level] + list(extra)))
        if p.name == 'indent_level':
            self.env = {'level': level}

    def fun(self, e):
        if e[1] in ('picture_width', 'picture_height'):
            o = self.ev(e[2][0])
            O = oracle.Oracle(fun.FW, self.lay)
            O.budget = 10000
            m = oracle.Machine(O, fun.FW.procs['resolution'], None, [o, 77, 77])
            m.env['width_null'] = m.env['height_null'] = 0
            m.fun = lambda e, old=m.fun: special.special_fun(m, e, old)
            m.run()
            return oracle.fit('int32_t', m.env['width' if e[1] == 'picture_width' else 'height'])
        return oracle.Machine.fun(self, e)

    def text(self):
        out = []
        code = self.p.code
        pc = 0
        while True:
            op = code[pc]
            k = op[0]
            pc += 1
            if k == 'assign':
                self.set(op[1], self.ev(op[2]))
            elif k == 'br':
                pc = op[2] if self.ev(op[1]) else op[3]
            elif k == 'jmp':
                pc = op[1]
            elif k == 'ret':
                return ''.join(out)
            elif k == 'print':
                out.append(self.piece(op))

    def piece(self, op):
        k = op[1]
        if k == 'c':
            return op[2]
        if k == 'indent':
            l = self.ev(op[2])
            return ' ' if l == -1 else '\n' + '  ' * l
        if k == 'v':
            v = int(self.ev(op[2]))
            return '%08x' % v if op[3] == '08x' else str(v)
        if k == 'pad':
            return ' ' * self.ev(op[2])
        if k == 's':
            v = self.ev(op[3])
            if op[2] == 'checksum_hex':
                return ''.join('%02x' % (b & 255) for b in v['checksum'][:v['length']])
            names = [op for op in fun.FW.procs['profile_name'].code if 'name_of' in str(op)][0]
            names = find(names, 'name_of')
            l = [x[1] if isinstance(x, tuple) else x for x in names[2][1:]]
            return l[v] if v < len(l) else l[-1]
        if k == 'call':
            q = dump.DW.procs[op[2]]
            return Text(self.lay, q, self.ev(op[3]), self.ev(op[4]), [self.ev(a) for a in op[5]]).text()
        raise AssertionError(op)


def find(x, f):
    if isinstance(x, (list, tuple)):
        if len(x) > 1 and x[0] == 'fun' and x[1] == f:
            return x
        for y in x:
            r = find(y, f)
            if r:
                return r


def nest(x):
    """members of embedded structures under their own name"""
    if isinstance(x, dict):
        out = {}
        for k, v in x.items():
            v = nest(v)
            out[k] = v
            if '.' in k:
                a, b = k.split('.', 1)
                out.setdefault(a, {})[b] = v
        return out
    return [nest(v) for v in x] if isinstance(x, list) else x


def options(m):
    return {n: m >> i & 1 for i, n in enumerate(['add_offset', 'add_length', 'add_parsed_length', 'add_checksum', 'add_resolution'])}


def expected(lay, name, obj, level, opts, typ):
    p = dump.DW.procs[name]
    extra = [typ if n == 'type' else options(opts) for n, _ in p.params[2:]]
    return Text(lay, p, obj, level, extra).text()


def producers(w, name):
    """specification procedures whose result the dump writes"""
    T = getattr(dump.DW.procs.get(name[2:]), 'T', None)
    return [p for p in w.procs.values() if p.fn and p.result == T and not p.attrs.get('nodrive')]


def compare(lay, exp, got, crash_only=False):
    for i, g in enumerate(got):
        if g is None:
            return None
        if isinstance(g, tuple):
            return (i, 'crash ' + g[1]) if g[1].startswith('while writing') else None
        if crash_only:
            continue
        e = exp[i] if i < len(exp) else None
        if not isinstance(e, dict) or 'dump' not in e or 't' not in g or not isinstance(g.get('r'), dict):
            continue
        name, level, opts, typ = e['dump']
        x = expected(lay, name, nest(g['r']), level, opts, typ)
        if x != g['t']:
            n = next((k for k, (a, b) in enumerate(zip(x, g['t'])) if a != b), min(len(x), len(g['t'])))
            return i, 'text at character %d: %r, expected %r' % (n, g['t'][max(0, n - 40):n + 30], x[max(0, n - 40):n + 30])
    return None
