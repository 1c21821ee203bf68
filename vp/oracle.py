"""Concrete reading of the specification: the same flat operations the verifier
runs as ghost code, interpreted on Python values.  Used only to replay and
search for failing inputs once an obligation has failed, and as the oracle of
bounded stand-ins."""
import random
import re

M64 = (1 << 64) - 1
DC = 'dont-care'


class Fail(Exception):
    pass


class Skip(Exception):
    """the specification leaves the outcome open from here on"""


def s64(x):
    x &= M64
    return x - (1 << 64) if x >> 63 else x


def sdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Obj:
    def __init__(self, T, f):
        self.T, self.f = T, f


INT = {'uint8_t': (0, 8), 'uint16_t': (0, 16), 'uint32_t': (0, 32), 'uint64_t': (0, 64), 'int8_t': (1, 8), 'int16_t': (1, 16),
       'int32_t': (1, 32), 'int64_t': (1, 64), 'int': (1, 32), 'unsigned int': (0, 32), 'bool': (0, 1), '_Bool': (0, 1),
       'size_t': (0, 64), 'unsigned long': (0, 64), 'long': (1, 64), 'unsigned char': (0, 8), 'char': (1, 8), 'float': (1, 64), 'double': (1, 64)}


def fit(ty, v):
    k = INT.get(ty)
    if k is None or not isinstance(v, int):
        if k is None and ty in ('H264NalUnitType', 'NalUnitType'):
            return v
        if isinstance(v, int) and not isinstance(v, bool) and k is None and not re.match(r'std::|.*\[', ty):
            return v & 0xffffffff
        return v
    s, n = k
    v &= (1 << n) - 1
    if s and v >> (n - 1):
        v -= 1 << n
    return v


def default(ty):
    if ty.startswith('std::vector'):
        return []
    if ty.startswith('std::unique_ptr') or ty.startswith('std::shared_ptr'):
        return None
    if ty.startswith('std::map') or ty.startswith('std::unordered_map'):
        return {}
    m = re.match(r'.*\[(\d+)\]$', ty)
    if m:
        return [0] * int(m.group(1))
    return 0


class Bits:
    def __init__(self, data):
        self.data, self.P, self.T = data, 0, 8 * len(data)
        self.v = int.from_bytes(data, 'big') if data else 0

    def u(self, n):
        if n <= 0 or n > 64 or n > self.T - self.P:
            raise Fail('read of %d bits with %d left' % (n, self.T - self.P))
        x = (self.v >> (self.T - self.P - n)) & ((1 << n) - 1)
        self.P += n
        return x

    def ue(self):
        p = self.P
        z = 0
        try:
            while self.u(1) == 0:
                z += 1
            if z > 31:
                raise Fail('ue too long')
            x = (1 << z) + (self.u(z) if z else 0) - 1
            return x
        except Fail:
            self.P = p
            raise

    def se(self):
        k = self.ue()
        return (k + 1) // 2 if k & 1 else -(k // 2)

    def more(self):
        r = self.T - self.P
        if r == 0:
            return False
        if r > 8:
            return True
        x = (self.v >> 0) & ((1 << r) - 1)
        return x != 1 << (r - 1)

    def trailing(self):
        try:
            if self.u(1) != 1:
                return False
            while self.P & 7:
                if self.u(1) != 0:
                    return False
        except Fail:
            return False
        return True


def unescape(d):
    out = bytearray()
    i = 0
    z = 0
    for b in d:
        if z >= 2 and b == 3:
            z = 0
            continue
        out.append(b)
        z = z + 1 if b == 0 else 0
    return bytes(out)


def escape(d):
    out = bytearray()
    z = 0
    for b in d:
        if z >= 2 and b <= 3:
            out.append(3)
            z = 0
        out.append(b)
        z = z + 1 if b == 0 else 0
    if out and out[-1] == 0:
        pass
    return bytes(out)


def nalus(d):
    """(start, payload_start, size) of every NAL unit of a byte stream (Annex B)"""
    codes = []
    i = 0
    n = len(d)
    while i + 3 < n:            # a start code with no byte after it delimits nothing
        if d[i] == 0 and d[i + 1] == 0 and d[i + 2] == 1:
            codes.append(i)
            i += 3
        else:
            i += 1
    out = []
    for k, c in enumerate(codes):
        st = c - 1 if c > 0 and d[c - 1] == 0 else c
        out.append([st, c + 3, 0])
        if k:
            out[k - 1][2] = st - out[k - 1][1]
    if out:
        out[-1][2] = n - out[-1][1]
    return [tuple(x) for x in out]


class Oracle:
    def __init__(self, world, layouts):
        self.w, self.lay = world, layouts
        self.ft = {}
        self.unimpl = 0
        self.choose = None         # generator hook: (proc, pc, kind, width, env) -> value
        self.budget = 0

    def types(self, T):
        if T not in self.ft:
            self.ft[T] = {n: ty for o, n, ty in self.lay[T]['fields']}
        return self.ft[T]

    def new(self, T):
        return Obj(T, {n: default(ty) for n, ty in self.types(T).items()})

    def run(self, p, bits, args):
        """result object of procedure p (list of argument values); raises Fail"""
        m = Machine(self, p, bits, args)
        return m.run()


class Machine:
    def __init__(self, o, p, bits, args):
        self.o, self.p, self.b = o, p, bits
        self.ft = o.types(p.result) if p.result in o.lay else {}
        self.env = {n: default(t) for n, t in self.ft.items()}
        if '(unsigned char const*, unsigned long' in (p.fn or ''):
            self.env['data'] = args[0]
            self.env['length'] = len(args[0])
            args = args[1:]
        self.par = dict(zip([n for n, _ in p.params], args))
        self.env.update(self.par)
        self.taint = False

    def run(self):
        o = self.o
        pc = 0
        code = self.p.code
        while True:
            o.budget -= 1
            if o.budget < 0:
                raise Skip('budget')
            op = code[pc]
            k = op[0]
            if k == 'read':
                pc = self.read(op, pc)
                continue
            elif k == 'call':
                q = o.w.procs[op[1]]
                a = [self.ev(e) for e in op[2]]
                try:
                    v = o.run(q, self.b, a)
                except Fail:
                    if not op[4]:
                        raise
                    v = None
                    if self.b is not None:
                        self.b.taint = True
                if op[3] is not None:
                    self.set(op[3], v)
            elif k == 'event':
                self.event(op)
            elif k == 'assign':
                self.posopen = False
                v = self.ev(op[2])
                self.set(op[1], DC if self.posopen else v)
            elif k == 'append':
                self.ev(op[1]).append(self.fite(op[1], self.ev(op[2])))
            elif k == 'append_row':
                self.ev(op[1]).append([])
            elif k == 'append_last':
                self.ev(op[1])[-1].append(self.ev(op[2]))
            elif k == 'grow':
                l, n = self.ev(op[1]), self.ev(op[2])
                while len(l) < n:
                    l.append(0)
            elif k == 'clear':
                del self.ev(op[1])[:]
            elif k == 'br':
                pc = op[2] if self.ev(op[1]) else op[3]
                continue
            elif k == 'jmp':
                pc = op[1]
                continue
            elif k == 'failif':
                if self.ev(op[1]):
                    raise Fail('%s:%d' % (self.p.name, pc))
            elif k == 'fail':
                raise Fail('%s:%d' % (self.p.name, pc))
            elif k == 'unimpl':
                o.unimpl += 1
            elif k == 'ret':
                if op[1] is not None:
                    return self.ev(op[1])
                if self.p.result in o.lay:
                    return Obj(self.p.result, {n: self.env[n] for n in self.ft})
                return None
            elif k in ('loop', 'assume'):
                pass
            else:
                raise AssertionError(k)
            pc += 1

    def fite(self, lv, v):
        if lv[0] == 'name' and lv[1] in self.ft:
            m = re.match(r'std::vector<(.*?)(, std::allocator.*)?>$', self.ft[lv[1]])
            if m:
                return fit(m.group(1), v)
        return v

    def read(self, op, pc):
        o = self.o
        if getattr(self.b, 'taint', False):
            raise Skip('position open')
        kind = op[1]
        n = self.ev(op[2]) if op[2] is not None else None
        if o.choose is not None:
            return o.choose(self, op, pc, kind, n)
        self.doread(op, kind, n)
        return pc + 1

    def doread(self, op, kind, n):
        b = self.b
        try:
            v = b.u(n) if kind == 'u' else b.ue() if kind == 'ue' else b.se()
        except Fail:
            if len(op) > 4:
                self.set(op[4], 0)
                return
            raise
        self.set(op[3], v)
        if len(op) > 4:
            self.set(op[4], 1)

    def event(self, op):
        e = op[1]
        if e == 'rbsp_trailing_bits':
            if self.o.choose is not None and hasattr(self.b, 'gen_trailing'):
                self.b.gen_trailing()
                ok = True
            else:
                ok = self.b.trailing()
            if op[3] is not None:
                self.set(op[3], ok)
        elif e == 'seek':
            self.b.P = self.ev(op[2][0])
        elif e == 'bitbuffer':
            v = self.ev(op[2][0])
            self.b = Bits(bytes(v)) if self.o.choose is None or not hasattr(self.o, 'genbits') else self.o.genbits
        elif e == 'skip_bits':
            self.b.P += self.ev(op[2][0])
        else:
            raise AssertionError(e)

    def set(self, lv, v):
        if isinstance(v, bool):
            v = int(v)
        if lv[0] == 'name':
            if lv[1] in self.ft:
                v = fit(self.ft[lv[1]], v)
            self.env[lv[1]] = v
        elif lv[0] == 'index':
            b = self.ev(lv[1])
            i = self.ev(lv[2])
            if isinstance(b, dict):
                b[i] = v
            else:
                while len(b) <= i:
                    b.append(0)
                if lv[1][0] == 'name' and self.ft.get(lv[1][1], '').startswith('char['):
                    v = fit('char', v)
                b[i] = v
        elif lv[0] == 'attr' and lv[1][0] == 'name' and lv[1][1] + '.' + lv[2] in self.ft:
            nm = lv[1][1] + '.' + lv[2]
            self.env[nm] = fit(self.ft[nm], v)
        elif lv[0] == 'attr':
            if lv[1][0] == 'attr':
                b = self.ev(lv[1][1])
                nm = lv[1][2] + '.' + lv[2]
            else:
                b = self.ev(lv[1])
                nm = lv[2]
            b.f[nm] = fit(self.o.types(b.T)[nm], v)
        else:
            raise AssertionError(lv)

    def ev(self, e):
        k = e[0]
        if k == 'int':
            return e[1]
        if k == 'name':
            if e[1] in self.env:
                return self.env[e[1]]
            return 0
        if k == 'bool':
            return e[1]
        if k == 'null':
            return None
        if k == 'attr':
            if e[1][0] == 'attr':
                b = self.ev(e[1][1])
                if isinstance(b, Obj) and e[1][2] + '.' + e[2] in b.f:
                    return b.f[e[1][2] + '.' + e[2]]
            b = self.ev(e[1])
            if isinstance(b, dict):
                return b[e[2]]
            return b.f[e[2]]
        if k == 'index':
            return self.ev(e[1])[self.ev(e[2])]
        if k == 'bin':
            a, b = int(self.ev(e[2])), int(self.ev(e[3]))
            op = e[1]
            if op == '+':
                return s64(a + b)
            if op == '-':
                return s64(a - b)
            if op == '*':
                return s64(a * b)
            if op == '//':
                return sdiv(a, b)
            if op == '%':
                return a - b * sdiv(a, b)
            if op == '<<':
                return s64(a << b) if 0 <= b < 64 else 0
            if op == '>>':
                return s64((a & M64) >> b) if 0 <= b < 64 else 0
            if op == '&':
                return s64((a & M64) & (b & M64))
            if op == '|':
                return s64((a & M64) | (b & M64))
            if op == '^':
                return s64((a & M64) ^ (b & M64))
        if k == 'inv':
            return s64(~int(self.ev(e[1])))
        if k == 'cmp':
            a, b = self.ev(e[2]), self.ev(e[3])
            op = e[1]
            if a is None or b is None or isinstance(a, Obj) or isinstance(b, Obj):
                r = (a is b)
                return r if op == '==' else not r
            return a == b if op == '==' else a != b if op == '!=' else a < b if op == '<' else a <= b if op == '<=' else a > b if op == '>' else a >= b
        if k == 'not':
            return not self.ev(e[1])
        if k == 'and':
            return all(self.ev(x) for x in e[1])
        if k == 'or':
            return any(self.ev(x) for x in e[1])
        if k == 'ite':
            return self.ev(e[2]) if self.ev(e[1]) else self.ev(e[3])
        if k == 'mapin':
            return self.ev(e[1]) in self.ev(e[2])
        if k == 'fun':
            return self.fun(e)
        raise AssertionError(e)

    def fun(self, e):
        f = e[1]
        if f == 'struct':
            o = self.o.new(e[2][0][1])
            for k, x in (e[3] if len(e) > 3 else {}).items():
                o.f[k] = fit(self.o.types(o.T)[k], self.ev(x))
            return o
        if f == 'more_rbsp_data':
            if self.o.choose is not None and hasattr(self.b, 'gen_more'):
                return self.b.gen_more(self, e)
            if getattr(self.b, 'taint', False):
                raise Skip('position open')
            return self.b.more()
        a = [self.ev(x) for x in e[2]]
        if f == 'len':
            return len(a[0])
        if f == 'last':
            return a[0][-1]
        if f == 'clog2':
            num, den = a[0], a[1] if len(a) > 1 else 1
            n = 0
            while (den << n) < num:
                n += 1
            return n
        if f == 'u32':
            return a[0] & 0xffffffff
        if f == 'u8':
            return a[0] & 0xff
        if f == 'i32':
            return fit('int32_t', a[0])
        if f == 'ult':
            return (a[0] & M64) < (a[1] & M64)
        if f == 'udiv':
            return (a[0] & M64) // (a[1] & M64)
        if f == 'urem':
            return (a[0] & M64) % (a[1] & M64)
        if f == 'b2i':
            return int(bool(a[0]))
        if f == 'position':
            if getattr(self.b, 'taint', False):
                self.posopen = True
            return self.b.P
        if f == 'total_bits':
            return self.b.T
        if f == 'remaining_bits':
            if getattr(self.b, 'taint', False):
                raise Skip('position open')
            return self.b.T - self.b.P
        if f == 'unescape':
            return unescape(a[0])
        if f == 'slice':
            return a[0][a[1]:a[1] + a[2]]
        if f == 'byte':
            return a[0][a[1]]
        if f == 'bit':
            return (a[0][a[1] >> 3] >> (7 - (a[1] & 7))) & 1
        if f in ('nalu_count', 'nalu_payload_start', 'nalu_payload_size'):
            l = nalus(a[0])
            return len(l) if f == 'nalu_count' else l[a[1]][1 if f == 'nalu_payload_start' else 2]
        raise AssertionError(f)


def show(v):
    """plain data for comparison with the dump of the real object"""
    if isinstance(v, Obj):
        return {k: show(x) for k, x in v.f.items()}
    if isinstance(v, (list, tuple)):
        return [show(x) for x in v]
    if isinstance(v, dict):
        return {str(k): show(x) for k, x in sorted(v.items())}
    if isinstance(v, bool):
        return int(v)
    return v
