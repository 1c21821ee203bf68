"""Spec-guided input generation and differential replay against the real code."""
import random
import re
from oracle import Oracle, Fail, Skip, Obj, Bits, DC, show, escape, unescape, nalus, M64

STATE = 'H264BitstreamParserState'
HDR = 'H264NalUnitHeaderParser::NalUnitHeaderState'


class GenBits:
    def __init__(self, rng):
        self.rng = rng
        self.v, self.n = 0, 0
        self.clean = False
        self.T = 1 << 30

    @property
    def P(self):
        return self.n

    @P.setter
    def P(self, x):
        raise Skip('seek while generating')

    def put(self, v, n):
        self.v = (self.v << n) | (v & ((1 << n) - 1))
        self.n += n

    def ue(self, v):
        k = (v + 1).bit_length()
        self.put(v + 1, 2 * k - 1)

    def se(self, v):
        self.ue(2 * v - 1 if v > 0 else -2 * v)

    def gen_trailing(self):
        r = self.rng.random() if not self.clean else 1
        if r < 0.04:
            return
        self.put(1 if r > 0.08 else 0, 1)
        while self.n & 7:
            self.put(0 if r > 0.02 else self.rng.getrandbits(1), 1)

    def gen_more(self, m, e):
        return self.rng.random() < 0.6

    def bytes(self, fill=None):
        v, n = self.v, self.n
        pad = -n % 8
        if pad:
            f = self.rng.choice([0, 1 << (pad - 1), (1 << pad) - 1, self.rng.getrandbits(pad)]) if fill is None else fill
            v, n = (v << pad) | f, n + pad
        return v.to_bytes(n // 8, 'big')


def consts(e, var, out):
    """integer constants compared with anything containing variable var"""
    if isinstance(e, (tuple, list)):
        if e and e[0] == 'cmp':
            txt = str(e)
            if "'%s'" % var in txt:
                for x in ints(e):
                    out.add(x)
        for x in e:
            consts(x, var, out)


def ints(e):
    if isinstance(e, (tuple, list)):
        if len(e) == 2 and e[0] == 'int':
            yield e[1]
        else:
            for x in e:
                yield from ints(x)


def mapkeys(m, e, out):
    if isinstance(e, (tuple, list)):
        if e and e[0] == 'mapin':
            try:
                out += list(m.ev(e[2]).keys())
            except (AttributeError, KeyError, TypeError):
                pass
            return
        for x in e:
            mapkeys(m, x, out)


class Gen:
    def __init__(self, world, layouts, seed, pool=(), hints=None):
        self.w, self.lay = world, layouts
        self.rng = random.Random(seed)
        self.o = Oracle(world, layouts)
        self.pool = sorted(set(int(x) for x in pool))
        self.hints = hints or {}
        self.cc = {}
        self.force = {}
        self.wild = 0.05

    def cands(self, p, var):
        k = (p.name, var)
        if k not in self.cc:
            s = set()
            for op in p.code:
                if op[0] in ('br', 'failif', 'assign', 'call', 'read'):
                    consts(op[1:], var, s)
            for q in self.w.procs.values():
                for op in q.code:
                    if op[0] in ('br', 'failif'):
                        t = str(op)
                        if "'%s'" % var in t:
                            consts(op[1:], var, s)
            t = set()
            for c in s:
                t |= {c - 1, c, c + 1}
            self.cc[k] = sorted(t)
        return self.cc[k]

    def pick(self, p, pc, var, kind, n):
        r = self.rng
        if var in self.force:
            f = self.force[var]
            return r.choice(f)
        h = self.hints.get((p.name, pc))
        if h and r.random() < 0.6:
            return r.choice(h)
        x = r.random()
        c = self.cands(p, var) if var else []
        if kind == 'u':
            if n is None or n <= 0 or n > 64:
                return 0
            top = (1 << n) - 1
            if n == 1:
                return r.getrandbits(1)
            if c and x < 0.45:
                return r.choice(c) & top
            if self.pool and x < 0.6:
                return r.choice(self.pool) & top
            if x < 0.75:
                return r.choice([0, 1, top, top - 1, top >> 1, (top >> 1) + 1]) & top
            return r.getrandbits(n)
        if x < 0.4 and c:
            v = r.choice(c)
        elif x < 0.55 and self.pool:
            v = r.choice(self.pool)
        elif x < 0.93:
            v = r.randrange(0, r.choice([2, 2, 4, 8, 32]))
        elif x < 0.97:
            v = r.getrandbits(r.choice([8, 12, 16, 24, 31, 32]))
        else:
            v = r.choice([255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 2, (1 << 32) - 3])
        if kind == 'se':
            if r.random() < 0.5:
                v = -v
            lim = (1 << 31) - 1
            return max(-lim, min(lim, v))
        return max(0, min((1 << 32) - 2, v))

    def choose(self, m, op, pc, kind, n):
        code = m.p.code
        var = op[3][1] if op[3] is not None and op[3][0] == 'name' else None
        if len(op) > 4:
            m.set(op[4], 0)
            return pc + 1
        if var and var.startswith('$t') and pc + 1 < len(code) and code[pc + 1][0] == 'append':
            var = code[pc + 1][1][1]
        if kind == 'u' and (n <= 0 or n > 64):
            raise Fail('width')
        tries = 10
        # the checks that follow the read
        j = pc + 1
        chk = []
        while j < len(code) and code[j][0] in ('failif', 'assign') and len(chk) < 4:
            if code[j][0] == 'assign':
                if any(isinstance(x, tuple) and x[0] == 'attr' for x in (code[j][2],)) or chk:
                    break
                break
            chk.append(code[j][1])
            j += 1
        keys = []
        for c in chk:
            mapkeys(m, c, keys)
        while True:
            v = self.pick(m.p, pc, var, kind, n)
            if keys and self.rng.random() < 0.9:
                v = self.rng.choice(keys)
            if tries > 0 and var == 'pic_size_in_map_units_minus1' and v > 2000 and self.rng.random() < 0.98:
                tries -= 1
                continue
            m.set(op[3], v)
            if tries > 0 and any(m.ev(c) for c in chk) and self.rng.random() > self.wild:
                tries -= 1
                continue
            break
        b = m.b
        if kind == 'u':
            b.put(v, n)
        elif kind == 'ue':
            b.ue(v)
        else:
            b.se(v)
        return pc + 1

    def bits_for(self, name, args, lead=0):
        """bits generated along one path of the specification of `name`"""
        o = self.o
        g = GenBits(self.rng)
        g.clean = self.wild == 0
        if lead:
            g.put(self.rng.getrandbits(lead), lead)
        o.choose = self.choose
        o.genbits = g
        o.budget = 60000
        try:
            o.run(self.w.procs[name], g, args)
        except (Fail, Skip, AttributeError, KeyError, IndexError, TypeError):
            pass
        finally:
            o.choose = None
        return g

    def bits_for_state(self, name, args):
        """like bits_for, leaving the oracle state untouched"""
        import copy
        return self.bits_for(name, [copy.deepcopy(a) if isinstance(a, Obj) else a for a in args])

    # -- pieces
    def hdr_byte(self, t, ref=None):
        ref = self.rng.randrange(4) if ref is None else ref
        return bytes([(ref << 5) | t])

    def svc_hdr(self, t):
        r = self.rng
        f = [(1, r.choice([1, 1, 1, 0])), (1, r.getrandbits(1)), (6, r.getrandbits(6)), (1, r.getrandbits(1)), (3, r.choice([0, 1, 7])),
             (4, r.choice([0, 0, 0, 1, 15])), (3, r.getrandbits(3)), (1, r.getrandbits(1)), (1, r.getrandbits(1)), (1, r.getrandbits(1)), (2, r.getrandbits(2))]
        v = 0
        for n, x in f:
            v = (v << n) | x
        return self.hdr_byte(t) + v.to_bytes(3, 'big')

    def param_set(self, kind, state=None):
        r = self.rng
        self.force = {}
        ow = self.wild
        self.wild = r.choice([0, 0, 0, 0, 0, 0.03])
        ids = [0, 0, 1] if r.random() < 0.9 else [0, 31, 5]
        if kind == 'pps':
            ks = list(state.f['sps']) + list(state.f['subset_sps']) if state is not None else []
            if ks and r.random() < 0.9:
                self.force = {'seq_parameter_set_id': ks}
            g = self.bits_for('pps', [1])
            d = self.hdr_byte(8) + g.bytes()
        elif kind == 'sps':
            self.force = {'seq_parameter_set_id': ids}
            g = self.bits_for('sps', [])
            d = self.hdr_byte(7) + g.bytes()
        else:
            self.force = {'seq_parameter_set_id': ids}
            if r.random() < 0.8:
                self.force['profile_idc'] = [83, 86]
            g = self.bits_for('subset_sps', [])
            d = self.hdr_byte(15) + g.bytes()
        self.force = {}
        self.wild = ow
        return d

    def nal(self, state, t=None):
        """the (unescaped) bytes of one NAL unit"""
        r = self.rng
        if t is None:
            t = r.choice([1, 5, 7, 8, 14, 15, 20, 1, 5, 7, 8, 14, 15, 20, 0, 2, 3, 4, 6, 9, 10, 11, 12, 13, 19, 21, 24, 31])
        if t in (7, 8, 15):
            return self.param_set({7: 'sps', 8: 'pps', 15: 'subset_sps'}[t], state)
        h = self.svc_hdr(t) if t in (14, 20, 21) else self.hdr_byte(t)
        try:
            ho = self.o.run(self.w.procs['nal_unit_header'], Bits(h), [])
        except Fail:
            return h + bytes(r.getrandbits(8) for _ in range(r.randrange(4)))
        g = self.bits_for_state('nal_unit_payload', [ho, state])
        d = h + g.bytes()
        if r.random() < 0.5:
            d += bytes(r.getrandbits(8) for _ in range(r.randrange(6)))
        return d

    def mutate(self, d):
        r = self.rng
        d = bytearray(d)
        k = r.random()
        if not d or k < 0.55:
            return bytes(d)
        if k < 0.7:
            return bytes(d[:r.randrange(len(d) + 1)])
        if k < 0.85:
            for _ in range(r.choice([1, 1, 2, 4])):
                i = r.randrange(len(d) * 8)
                d[i >> 3] ^= 0x80 >> (i & 7)
            return bytes(d)
        if k < 0.95:
            return bytes(d) + bytes(r.choice([0, 0x80, 0xff, r.getrandbits(8)]) for _ in range(r.choice([1, 2, 8])))
        i = r.randrange(len(d))
        d[i] = r.choice([0, 1, 3, 255])
        return bytes(d)

    def arg(self, p, nm, ty):
        r = self.rng
        s = self.cands(p, nm)
        x = r.random()
        if 'requires' in p.attrs and any(nm in q for q in p.attrs['requires']):
            return r.choice([0, 1, 2, 31, r.randrange(32)])
        if nm == 'nalu_length_bytes':
            return r.choice([1, 2, 3, 4, 4, 0, 8, 5])
        if s and x < 0.6:
            return max(0, r.choice(s))
        if x < 0.9:
            return r.randrange(r.choice([2, 4, 10, 24]))
        return r.choice([0, 1, 255, 0xffffffff, 0x80000000] + self.pool) & 0xffffffff

    def rtp_packet(self, state, kind=None):
        r = self.rng
        kind = kind or r.choice(['single', 'stapa', 'fua', 'fua', 'stapa', 'single', 'other'])
        if kind == 'single':
            return self.nal(state)
        if kind == 'other':
            return self.hdr_byte(r.choice([24, 25, 26, 27, 28, 29, 30, 31])) + bytes(r.getrandbits(8) for _ in range(r.randrange(6)))
        if kind == 'stapa':
            d = self.hdr_byte(24)
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                n = self.nal(state, r.choice([7, 8, 15, 9, 6, 1, 5, 7, 8]))
                d += (len(n) + r.choice([0] * 12 + [1, -1, 5])).to_bytes(4, 'big')[-2:] + n
            return d
        t = r.choice([1, 5, 7, 8, 15, 14, 20, 6])
        n = self.nal(state, t)
        s = r.getrandbits(1) if r.random() < 0.5 else 1
        return self.hdr_byte(28) + bytes([(s << 7) | (r.getrandbits(1) << 6) | (r.getrandbits(1) << 5) | t]) + n[1:]

    def byte_stream(self, state):
        r = self.rng
        d = b''
        if r.random() < 0.2:
            d += bytes(r.choice([0, 0, 1, 3, r.getrandbits(8)]) for _ in range(r.randrange(4)))
        for _ in range(r.choice([0, 1, 2, 3, 4])):
            d += r.choice([b'\0\0\1', b'\0\0\0\1', b'\0\0\0\0\1']) + escape(self.mutate(self.nal(state)))
        if r.random() < 0.2:
            d += r.choice([b'\0', b'\0\0', b'\0\0\1', b'\0\0\0\1'])
        return d

    def length_stream(self, state, k):
        r = self.rng
        d = b''
        if k == 0:
            return escape(self.nal(state))
        for _ in range(r.choice([0, 1, 2, 3])):
            n = escape(self.mutate(self.nal(state)))
            ln = max(0, len(n) + r.choice([0] * 14 + [1, -1, 100]))
            d += (ln & ((1 << (8 * k)) - 1)).to_bytes(k, 'big') + n
        if r.random() < 0.2:
            d += bytes(r.getrandbits(8) for _ in range(r.randrange(k + 1)))
        if r.random() < 0.1:
            d += b'\xff' * k
        return d

    # -- whole cases
    def case(self, p):
        """(steps for the native driver, expected results)"""
        r = self.rng
        o = self.o
        state = o.new(STATE)
        steps, exp = [], []
        self.wild = r.choice([0, 0, 0.01, 0.05])
        needs_state = any(t == STATE for _, t in p.params)
        try:
            if needs_state:
                seqs = r.choice([['sps', 'pps'], ['sps', 'pps'], ['subset_sps', 'pps'], ['sps', 'subset_sps', 'pps'], ['sps', 'pps', 'pps', 'sps'], [], ['pps'],
                                 ['sps', 'pps', 'sps'], ['subset_sps', 'pps', 'subset_sps']])
                if 'scalable' in p.name or 'extension' in p.name:
                    seqs = r.choice([['subset_sps', 'pps'], ['subset_sps', 'pps', 'pps'], ['sps', 'subset_sps', 'pps'], seqs])
                for k in seqs:
                    d = escape(self.param_set(k, state))
                    self.step(self.w.procs['nal_unit_bytes'], d, [state, 0], steps, exp)
            self.target(p, state, steps, exp)
            if needs_state and r.random() < 0.3:
                self.target(p, state, steps, exp)
        except Skip:
            pass
        if needs_state and len(exp) == len(steps):
            steps.append('state')
            exp.append({'r': show(state)} if not any(x == DC for x in exp) else DC)
        return steps, exp

    def target(self, p, state, steps, exp):
        r = self.rng
        args = []
        hdr = None
        for nm, ty in p.params:
            if ty == STATE:
                args.append(state)
            elif ty == 'ParsingOptions':
                args.append(r.choice([0, 31, 8, 4, r.getrandbits(5)]))
            elif ty == HDR:
                while True:
                    t = r.choice([20, 20, 20, 14, 1, 5, 7, 8, 15, 24]) if 'slice' in p.name else r.choice([1, 5, 7, 8, 14, 15, 20, 6, 9])
                    hdr = self.svc_hdr(t) if t in (14, 20, 21) else self.hdr_byte(t)
                    try:
                        ho = self.o.run(self.w.procs['nal_unit_header'], Bits(hdr), [])
                        break
                    except Fail:
                        pass
                args.append((hdr, ho))
            else:
                args.append(self.arg(p, nm, ty))
        base = p.name[:-6] if p.name.endswith('_bytes') else p.name
        gargs = [a[1] if isinstance(a, tuple) else a for a in args]
        if base in ('rtp', 'rtp_single', 'rtp_stapa', 'rtp_fua'):
            d = self.rtp_packet(state, {'rtp': None}.get(base, base[4:]))
        elif base in ('bitstream', 'bitstream_one_shot'):
            d = self.byte_stream(state)
        elif base.startswith('bitstream_nalu_length'):
            d = self.length_stream(state, gargs[0])
        elif base in ('nal_unit', 'nal_unit_unescaped'):
            d = self.nal(state)
        elif base == 'nalu_checksum':
            d = bytes(r.choice([0, 255, r.getrandbits(8)]) for _ in range(r.randrange(0, r.choice([6, 12, 40]))))
        else:
            lead = r.choice([0, 0, 0, r.randrange(8), r.randrange(24)]) if '(BitBuffer*' in p.fn else 0
            if lead:
                import copy
                g = self.bits_for(base, [copy.deepcopy(a) if isinstance(a, Obj) else a for a in gargs], lead)
            else:
                g = self.bits_for_state(base, gargs)
            d = g.bytes()
            if r.random() < 0.5:
                d += bytes(r.getrandbits(8) for _ in range(r.randrange(6)))
            self.lead = lead
        d = self.mutate(d)
        if p.name.endswith('_bytes') and r.random() < 0.85:
            d = escape(d)
        self.step(p, d, args, steps, exp)

    lead = 0

    def step(self, p, d, args, steps, exp):
        o = self.o
        bb = '(BitBuffer*' in p.fn
        txt = [p.name, d.hex() or '-']
        lead = min(self.lead, len(d) * 8)
        self.lead = 0
        if bb:
            txt.append(str(lead))
        cargs = []
        for (nm, ty), a in zip(p.params, args):
            if ty == STATE:
                cargs.append(a)
            elif ty == 'ParsingOptions':
                txt.append(str(a))
                f = ['add_offset', 'add_length', 'add_parsed_length', 'add_checksum', 'add_resolution']
                cargs.append({n: (a >> i) & 1 for i, n in enumerate(f)})
            elif ty == HDR:
                txt.append(a[0].hex())
                cargs.append(a[1])
            else:
                txt.append(str(a))
                cargs.append(a)
        steps.append(' '.join(txt))
        exp.append(self.expect(p, d, cargs, lead))

    def expect(self, p, d, cargs, lead=0):
        o = self.o
        o.choose = None
        o.unimpl = 0
        o.budget = 400000
        bb = '(BitBuffer*' in p.fn
        b = Bits(d)
        b.P = lead
        try:
            v = o.run(p, b, cargs if bb else [d] + cargs)
            e = {'r': show(v), 'un': o.unimpl}
            if bb and not getattr(b, 'taint', False):
                e['p'] = b.P
            return e
        except Fail:
            return {'r': None, 'un': o.unimpl}
        except Skip:
            self.skipped = True
            raise


def diff(e, g, path=''):
    """first difference between expectation e and native result g"""
    if isinstance(e, str) and e == DC:
        return None
    if isinstance(e, dict) and isinstance(g, dict):
        for k in e:
            if k not in g:
                return None if path else '%s missing' % k
            x = diff(e[k], g[k], path + '.' + str(k))
            if x:
                return x
        for k in g:
            if k not in e and re.match(r'\d+$', str(k)):
                return '%s.%s present but not specified' % (path, k)
        return None
    if isinstance(e, list) and isinstance(g, list):
        if len(e) != len(g):
            return '%s has %d elements, specified %d' % (path, len(g), len(e))
        for i, (a, b) in enumerate(zip(e, g)):
            x = diff(a, b, '%s[%d]' % (path, i))
            if x:
                return x
        return None
    if e != g:
        def s(x):
            return 'an object' if isinstance(x, dict) else str(x)
        return '%s is %s, specified %s' % (path.lstrip('.') or 'result', s(g), s(e))
    return None


def crash(got):
    for i, g in enumerate(got):
        if isinstance(g, tuple) and g[0] == 'crash':
            return i, 'crash: ' + g[1]
    return None


def compare(exp, got):
    """None or (step index, description)"""
    for i, g in enumerate(got):
        if isinstance(g, tuple) and g[0] == 'crash':
            return i, 'crash: ' + g[1]
        if g is None:
            return None
        if i >= len(exp):
            continue
        e = exp[i]
        if isinstance(e, str):
            continue
        x = diff(e, g)
        if x:
            return i, x
    return None
