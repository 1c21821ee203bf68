"""Parser for the textual LLVM-18 IR subset produced by irgen.py.

The IR is the verified text: it is generated from /repo's sources on every
run.  Anything outside the subset raises Unsupported (never silently dropped).
"""
import re


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- tokenizer
TOK = re.compile(r'''
   \s+
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<reg>%(?:"[^"]*"|[-\w.$]+))
 | (?P<glob>@(?:"[^"]*"|[-\w.$]+))
 | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-\w.]+)?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+|-?\d+)
 | (?P<word>[A-Za-z_][\w.]*)
 | (?P<dots>\.\.\.)
 | (?P<punct>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos] == ';':
                break
            raise Unsupported('token: %r' % s[pos:pos + 40])
        pos = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'sub')

    def __init__(self, k, n=0, sub=None):
        self.k, self.n, self.sub = k, n, sub

    def __repr__(self):
        return '%s%s%s' % (self.k, self.n or '', self.sub or '')


VOID = Ty('void')
PTR = Ty('ptr')
DBL = Ty('double')
FLT = Ty('float')
INTS = {}


def IntTy(n):
    if n not in INTS:
        INTS[n] = Ty('int', n)
    return INTS[n]


PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'writable', 'dead_on_unwind', 'nocapture',
               'readonly', 'readnone', 'returned', 'writeonly', 'immarg', 'inreg', 'noreturn', 'nounwind', 'dso_local',
               'local_unnamed_addr', 'unnamed_addr', 'fastcc', 'ccc', 'tail', 'musttail', 'notail', 'allocptr', 'noinline'}
PAREN_ATTRS = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'align', 'memory', 'elementtype', 'range',
               'captures', 'nofpclass', 'allocsize', 'allockind'}


class Cur:
    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v and self.t[self.i][0] != 'str':
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.accept(v):
            raise Unsupported('expected %r got %r' % (v, self.t[self.i:self.i + 6]))

    def skip_attrs(self):
        got = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.i += 1
                got[v] = True
            elif k == 'word' and v in PAREN_ATTRS:
                self.i += 1
                if v == 'align' and self.peek()[0] == 'num':
                    self.i += 1
                elif self.accept('('):
                    d = 1
                    st = self.i
                    while d:
                        x = self.next()[1]
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                    got[v] = self.t[st:self.i - 1]
            elif k == 'attr':
                self.i += 1
            elif k == 'str' and self.peek(1)[1] == '=':
                self.i += 3
            else:
                return got

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'void':
                return VOID
            if v == 'ptr':
                return PTR
            if v == 'double':
                return DBL
            if v == 'float':
                return FLT
            if v == 'metadata':
                return Ty('metadata')
            if v == 'label':
                return Ty('label')
            if re.fullmatch(r'i\d+', v):
                return IntTy(int(v[1:]))
        if v == '[':
            n = int(self.next()[1])
            self.expect('x')
            t = self.type()
            self.expect(']')
            return Ty('array', n, t)
        if v == '{':
            subs = []
            if not self.accept('}'):
                while True:
                    subs.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            return Ty('struct', 0, subs)
        if v == '<':
            if self.peek()[1] == '{':
                self.next()
                subs = []
                while True:
                    subs.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
                self.expect('>')
                return Ty('struct', 1, subs)
            raise Unsupported('vector type')
        if k == 'reg':
            return Ty('named', 0, v)
        raise Unsupported('type %r' % (v,))

    # constant or value operand (type already consumed)
    def value(self, ty):
        k, v = self.next()
        if k == 'reg':
            return ('reg', v)
        if k == 'glob':
            return ('global', v)
        if k == 'num':
            if ty.k in ('double', 'float'):
                if v.startswith('0x'):
                    import struct
                    return ('fconst', struct.unpack('>d', bytes.fromhex(v[2:].zfill(16)))[0])
                return ('fconst', float(v))
            return ('const', int(v, 0))
        if k == 'word':
            if v == 'true':
                return ('const', 1)
            if v == 'false':
                return ('const', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                    self.next()
                if self.accept('inrange'):
                    self.skip_paren()
                self.expect('(')
                sty = self.type()
                ops = []
                while self.accept(','):
                    t = self.type()
                    ops.append((t, self.value(t)))
                self.expect(')')
                return ('cgep', sty, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('ccast', v, t, x, t2)
        if k == 'str' and v.startswith('c"'):
            return ('bytes', unescape(v[2:-1]))
        if v == '[':
            elems = []
            if not self.accept(']'):
                while True:
                    t = self.type()
                    elems.append(self.value(t))
                    if self.accept(']'):
                        break
                    self.expect(',')
            return ('agg', elems)
        if v == '{' or (v == '<' and self.peek()[1] == '{'):
            packed = v == '<'
            if packed:
                self.next()
            elems = []
            if not self.accept('}'):
                while True:
                    t = self.type()
                    elems.append(self.value(t))
                    if self.accept('}'):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('agg', elems)
        if k == 'meta':
            # swallow metadata operand
            if self.peek()[1] == '(':
                self.skip_paren()
            return ('meta',)
        raise Unsupported('value %r' % (v,))

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()[1]
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('latin1')
            i += 1
    return bytes(out)


# ---------------------------------------------------------------- module
class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'dbg')

    def __init__(self, op, res, ty, a, line):
        self.op, self.res, self.ty, self.a, self.line = op, res, ty, a, line
        self.dbg = None

    def __repr__(self):
        return '%s = %s %s %s' % (self.res, self.op, self.ty, self.a)


class Block:
    def __init__(self, name):
        self.name = name
        self.instrs = []
        self.succ = []
        self.pred = []
        self.rpo = -1
        self.loop = None      # innermost loop header containing the block
        self.loops = ()       # headers of all enclosing loops (outer..inner)
        self.is_head = False
        self.phis = []


class BadFunc:
    """a function outside the IR subset: any use of it is Unsupported"""
    def __init__(self, name, mod, why):
        self.name, self.mod, self.why = name, mod, why

    def analyse(self):
        raise Unsupported('function %s: %s' % (self.name, self.why))

    @property
    def params(self):
        self.analyse()

    entry = blocks = order = ret = params


class Func:
    def __init__(self, name, mod):
        self.name, self.mod = name, mod
        self.params = []      # (type, regname, attrs)
        self.ret = None
        self.blocks = {}
        self.order = []
        self.entry = None
        self.internal = False
        self._an = False

    # CFG analysis: rpo, natural loops (reducible graphs only)
    def analyse(self):
        if self._an:
            return
        self._an = True
        for b in self.order:
            t = b.instrs[-1]
            if t.op == 'br':
                b.succ = list(dict.fromkeys(t.a[1]))
            elif t.op == 'switch':
                b.succ = list(dict.fromkeys([t.a[2]] + [x[1] for x in t.a[3]]))
            for s in b.succ:
                self.blocks[s].pred.append(b.name)
            b.phis = [i for i in b.instrs if i.op == 'phi']
        seen = set()
        post = []
        stack = [(self.entry.name, iter(self.entry.succ))]
        seen.add(self.entry.name)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.blocks[s].succ)))
                    break
            else:
                post.append(n)
                stack.pop()
        rpo = post[::-1]
        idx = {n: i for i, n in enumerate(rpo)}
        # dominators (simple iterative)
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for n in rpo[1:]:
                ps = [p for p in self.blocks[n].pred if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    a, b = p, new
                    while a != b:
                        while idx[a] > idx[b]:
                            a = idom[a]
                        while idx[b] > idx[a]:
                            b = idom[b]
                    new = a
                if idom.get(n) != new:
                    idom[n] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == rpo[0]:
                    return False
                b = idom[b]
        loops = {}
        for n in rpo:
            for s in self.blocks[n].succ:
                if idx[s] <= idx[n]:
                    if not dom(s, n):
                        raise Unsupported('irreducible loop in ' + self.name)
                    body = loops.setdefault(s, {s})
                    wl = [n]
                    while wl:
                        x = wl.pop()
                        if x not in body:
                            body.add(x)
                            wl += [p for p in self.blocks[x].pred if p in idx]
        # order so that loop bodies are contiguous: rpo where exits come after loop bodies
        self.loops = loops
        for n in rpo:
            b = self.blocks[n]
            hs = [h for h in loops if n in loops[h]]
            hs.sort(key=lambda h: (-len(loops[h]), idx[h]))
            b.loops = tuple(hs)
            b.loop = hs[-1] if hs else None
            b.is_head = n in loops
        # Loop-aware topological numbering.
        order = []
        self._topo(rpo, loops, None, idx, order)
        for i, n in enumerate(order):
            self.blocks[n].rpo = i
        self.idom = idom

    def _topo(self, rpo, loops, head, idx, out):
        """order blocks so that a whole loop body precedes the loop's exits"""
        scope = [n for n in rpo if (n in loops[head] if head else True)]
        # collapse inner loops directly inside this scope
        def rep(n):
            hs = self.blocks[n].loops
            if head is None:
                return hs[0] if hs else n
            k = hs.index(head)
            return hs[k + 1] if k + 1 < len(hs) else n
        nodes = []
        seen = set()
        for n in scope:
            r = rep(n)
            if r not in seen:
                seen.add(r)
                nodes.append(r)
        succ = {r: [] for r in nodes}
        for n in scope:
            for s in self.blocks[n].succ:
                if head is not None and (s == head or s not in loops[head]):
                    continue
                if s not in idx:
                    continue
                a, b = rep(n), rep(s)
                if a != b and b not in succ[a]:
                    succ[a].append(b)
        start = head if head is not None else rpo[0]
        if head is None:
            start = rep(start)
        vis = set()
        post = []
        stack = [(start, iter(succ[start]))]
        vis.add(start)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in vis:
                    vis.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                post.append(n)
                stack.pop()
        for n in post[::-1]:
            if n in loops and n != head:
                self._topo(rpo, loops, n, idx, out)
            else:
                out.append(n)


class Module:
    def __init__(self, name):
        self.name = name
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self._lay = {}

    def resolve(self, t):
        while t.k == 'named':
            t = self.types[t.sub]
        return t

    def size_align(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            s = 1
            while s * 8 < t.n:
                s *= 2
            return s, min(s, 16)
        if t.k in ('ptr', 'double'):
            return 8, 8
        if t.k == 'float':
            return 4, 4
        if t.k == 'array':
            s, a = self.size_align(t.sub)
            return s * t.n, a
        if t.k == 'struct':
            offs, s, a = self.layout(t)
            return s, a
        raise Unsupported('sizeof %r' % t)

    def layout(self, t):
        t = self.resolve(t)
        if id(t) in self._lay:
            return self._lay[id(t)]
        off = 0
        al = 1
        offs = []
        for s in t.sub:
            sz, a = self.size_align(s)
            if t.n:
                a = 1
            off = (off + a - 1) // a * a
            offs.append(off)
            off += sz
            al = max(al, a)
        off = (off + al - 1) // al * al
        self._lay[id(t)] = (offs, off, al)
        return self._lay[id(t)]


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv'}
CASTS = {'zext', 'sext', 'trunc', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'fptrunc', 'fpext', 'ptrtoint', 'inttoptr', 'bitcast'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'nneg', 'disjoint', 'volatile', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


def parse_module(text, name):
    m = Module(name)
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            nm, rest = ln.split(' = type ', 1)
            if rest.startswith('opaque'):
                m.types[nm] = Ty('struct', 0, [])
            else:
                m.types[nm] = Cur(tokenize(rest), m).type()
        elif ln.startswith('@'):
            parse_global(m, ln)
        elif ln.startswith('define'):
            j = i + 1
            while lines[j] != '}':
                j += 1
            try:
                f = parse_func(m, lines, i, j)
            except Unsupported as e:
                mm = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
                f = BadFunc('@' + mm.group(1), m, str(e))
            f.text = '\n'.join(lines[i:j])
            m.funcs[f.name] = f
            i = j
        elif ln.startswith('declare'):
            mm = re.search(r'@("[^"]*"|[-\w.$]+)\(', ln)
            m.decls[mm.group(1)] = ln
        i += 1
    return m


def parse_global(m, ln):
    mm = re.match(r'(@(?:"[^"]*"|[-\w.$]+)) = (.*)$', ln)
    nm, rest = mm.group(1), mm.group(2)
    const = bool(re.search(r'\bconstant\b', rest.split('"')[0] if 'section' not in rest else rest))
    mm = re.search(r'\b(constant|global|alias|ifunc)\b ', rest)
    if not mm or mm.group(1) in ('alias', 'ifunc'):
        # constructor aliases C1 -> C2
        a = re.search(r'alias .*, ptr (@[\w.$]+)', rest)
        if a:
            m.globals[nm] = ('alias', a.group(1))
        return
    ext = rest.startswith('external') or ' external ' in rest[:mm.start() + 1]
    try:
        c = Cur(tokenize(rest[mm.end():]), m)
        ty = c.type()
        init = None if ext or c.peek()[0] is None or c.peek()[1] == ',' else c.value(ty)
    except Unsupported:
        ty, init = None, None
    m.globals[nm] = ('var', ty, init, const)


def parse_func(m, lines, i, j):
    hdr = lines[i]
    toks = tokenize(re.sub(r'#\d+.*\{$|personality.*\{$', '{', hdr))
    c = Cur(toks, m)
    c.expect('define')
    internal = False
    while c.peek()[1] in ('dso_local', 'internal', 'linkonce_odr', 'weak_odr', 'private', 'hidden', 'available_externally', 'linkonce', 'noundef', 'zeroext', 'signext', 'nonnull', 'mustprogress'):
        if c.next()[1] in ('internal', 'private'):
            internal = True
    c.skip_attrs()
    rt = c.type()
    nm = c.next()[1]
    f = Func(nm, m)
    f.internal = internal
    f.ret = rt
    c.expect('(')
    pi = 0
    if not c.accept(')'):
        while True:
            if c.accept('...'):
                f.vararg = True
                c.expect(')')
                break
            t = c.type()
            at = c.skip_attrs()
            if c.peek()[0] == 'reg':
                r = c.next()[1]
            else:
                r = '%%%d' % pi
            pi += 1
            f.params.append((t, r, at))
            if c.accept(')'):
                break
            c.expect(',')
    # unnamed first block has the next number
    cur = None
    nump = sum(1 for p in f.params if re.fullmatch(r'%\d+', p[1]))
    buf = []
    k = i + 1
    while k < j:
        ln = lines[k]
        if not ln.strip():
            k += 1
            continue
        if not ln.startswith(' '):
            mm = re.match(r'("[^"]*"|[-\w.$]+):', ln)
            if mm:
                cur = Block('%' + mm.group(1))
                f.blocks[cur.name] = cur
                f.order.append(cur)
            k += 1
            continue
        if cur is None:
            cur = Block('%%%d' % nump)
            f.blocks[cur.name] = cur
            f.order.append(cur)
        s = ln
        if ln.lstrip().startswith('switch'):
            while not lines[k].strip().startswith(']') and ']' not in lines[k]:
                k += 1
                s += ' ' + lines[k]
        cur.instrs.append(parse_instr(m, s))
        k += 1
    f.entry = f.order[0]
    return f


def parse_instr(m, s):
    line = s.strip()
    toks = tokenize(s)
    c = Cur(toks, m)
    res = None
    if c.peek()[0] == 'reg' and c.peek(1)[1] == '=':
        res = c.next()[1]
        c.next()
    k, op = c.next()
    while op in ('tail', 'musttail', 'notail'):
        k, op = c.next()

    def flags():
        fl = set()
        while c.peek()[1] in FLAGS:
            fl.add(c.next()[1])
        return fl

    def finish(ty, a):
        return Instr(op, res, ty, a, line)
    if op in BINOPS:
        fl = flags()
        t = c.type()
        x = c.value(t)
        c.expect(',')
        y = c.value(t)
        return finish(t, (x, y, fl))
    if op == 'fneg':
        flags()
        t = c.type()
        return finish(t, (c.value(t),))
    if op in ('icmp', 'fcmp'):
        flags()
        pr = c.next()[1]
        t = c.type()
        x = c.value(t)
        c.expect(',')
        y = c.value(t)
        return finish(t, (pr, x, y))
    if op in CASTS:
        flags()
        t = c.type()
        x = c.value(t)
        c.expect('to')
        t2 = c.type()
        return finish(t2, (t, x))
    if op == 'freeze':
        t = c.type()
        return finish(t, (c.value(t),))
    if op == 'alloca':
        t = c.type()
        cnt = None
        if c.accept(',') and c.peek()[1] != 'align':
            t2 = c.type()
            cnt = c.value(t2)
        return finish(t, (cnt,))
    if op == 'load':
        flags()
        if c.accept('atomic'):
            pass
        t = c.type()
        c.expect(',')
        c.type()
        return finish(t, (c.value(PTR),))
    if op == 'store':
        flags()
        if c.accept('atomic'):
            pass
        t = c.type()
        v = c.value(t)
        c.expect(',')
        c.type()
        return finish(t, (v, c.value(PTR)))
    if op == 'getelementptr':
        flags()
        t = c.type()
        c.expect(',')
        c.type()
        p = c.value(PTR)
        idx = []
        while c.accept(','):
            if c.peek()[0] == 'meta':
                break
            t2 = c.type()
            idx.append((t2, c.value(t2)))
        return finish(t, (p, idx))
    if op == 'br':
        if c.accept('label'):
            return finish(VOID, (None, [c.next()[1]]))
        t = c.type()
        v = c.value(t)
        c.expect(',')
        c.expect('label')
        a = c.next()[1]
        c.expect(',')
        c.expect('label')
        b = c.next()[1]
        return finish(VOID, (v, [a, b]))
    if op == 'switch':
        t = c.type()
        v = c.value(t)
        c.expect(',')
        c.expect('label')
        d = c.next()[1]
        c.expect('[')
        cases = []
        while not c.accept(']'):
            c.type()
            cv = c.value(t)
            c.expect(',')
            c.expect('label')
            cases.append((cv[1], c.next()[1]))
        return finish(t, (v, None, d, cases))
    if op == 'ret':
        t = c.type()
        if t.k == 'void':
            return finish(t, (None,))
        return finish(t, (c.value(t),))
    if op == 'unreachable':
        return finish(VOID, ())
    if op == 'phi':
        t = c.type()
        inc = []
        while True:
            c.expect('[')
            v = c.value(t)
            c.expect(',')
            b = c.next()[1]
            c.expect(']')
            inc.append((v, b))
            if not c.accept(','):
                break
            if c.peek()[0] == 'meta':
                break
        return finish(t, inc)
    if op == 'select':
        flags()
        t0 = c.type()
        cv = c.value(t0)
        c.expect(',')
        t = c.type()
        x = c.value(t)
        c.expect(',')
        c.type()
        y = c.value(t)
        return finish(t, (cv, x, y))
    if op == 'extractvalue':
        t = c.type()
        v = c.value(t)
        idx = []
        while c.accept(',') and c.peek()[0] == 'num':
            idx.append(int(c.next()[1]))
        return finish(t, (v, idx))
    if op == 'insertvalue':
        t = c.type()
        v = c.value(t)
        c.expect(',')
        t2 = c.type()
        v2 = c.value(t2)
        idx = []
        while c.accept(',') and c.peek()[0] == 'num':
            idx.append(int(c.next()[1]))
        return finish(t, (v, v2, idx))
    if op == 'atomicrmw':
        flags()
        rop = c.next()[1]
        c.type()
        p = c.value(PTR)
        c.expect(',')
        t = c.type()
        v = c.value(t)
        return finish(t, (rop, p, v))
    if op == 'call':
        flags()
        c.skip_attrs()
        rt = c.type()
        if c.peek()[1] == '(':     # function type for varargs
            c.skip_paren()
        callee = c.next()
        if callee[0] != 'glob':
            if callee[0] == 'reg':
                raise Unsupported('indirect call')
            raise Unsupported('call of %r' % (callee,))
        c.expect('(')
        args = []
        if not c.accept(')'):
            while True:
                t = c.type()
                at = c.skip_attrs()
                if t.k == 'metadata':
                    while c.peek()[1] not in (',', ')'):
                        c.next()
                    args.append((t, ('meta',), at))
                else:
                    args.append((t, c.value(t), at))
                if c.accept(')'):
                    break
                c.expect(',')
        return finish(rt, (callee[1], args))
    raise Unsupported('instr ' + line)


if __name__ == '__main__':
    import sys, time
    for p in sys.argv[1:]:
        t = time.time()
        mod = parse_module(open(p).read(), p)
        for f in mod.funcs.values():
            f.analyse()
        print(p, len(mod.funcs), '%.2f' % (time.time() - t))
