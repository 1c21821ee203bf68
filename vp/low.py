"""Contracts below the parsers: the bit reader and writer on bytes.

Layer A (this file, class Bytes): each BitBuffer function is verified on its
concrete representation (bytes_, byte_count_, byte_offset_, bit_offset_ over an
arbitrary byte array) for every bit offset and width; the postconditions are
exactly the abstract contracts (S, P, T) that layer B and the parsers assume.
Layer B (class Ghost): functions verified against ghost programs of low.spec
over the abstract reader."""
import spec
import terms as t
import verify
from engine import Region, Ptr, PtrIte, Frame, State, Spec, VI, VL, Violation, Budget, NULL
from ll import Unsupported
from product import RUN, FAIL, ext64, empty_list
from terms import const, TRUE, FALSE, and_, or_, not_, eq, ne, ite, ult, ule, zext, trunc, add, sub, select, store, fresh
from verify import Task, BYTES, slice_

BBF = ('bytes_', 'byte_count_', 'byte_offset_', 'bit_offset_')
NMAX = (1 << 32) - 1


def rep(ctx, st, p):
    """(byte offset, bit offset, remaining bits) of the reader p points to"""
    p = ctx.resolve_ptr(st, p, 'bit buffer')
    if p.root != ('R', 'bb'):
        raise Unsupported('unknown bit buffer')
    B, b, N = (ctx.fld(st, x) for x in ('byte_offset_', 'bit_offset_', 'byte_count_'))
    if b.op == 'ite':
        # merged paths: the path condition decides the bit offset
        for k in range(8):
            if ctx.solver.valid(st.pc, eq(b, const(k, 64))):
                b = const(k, 64)
                break
    return B, b, sub(t.shl(sub(N, B), const(3, 64)), b)


def k_peek(w):
    def h(ctx, st, ins, args):
        V = [ctx.val(st, v, ty) for ty, v, at in args]
        B, b, rem = rep(ctx, st, V[0])
        n = V[1]
        ok = and_(ult(const(0, 64), n), ule(n, const(w, 64)), ule(n, rem))
        if n.op == 'const' and b.op == 'const' and 1 <= n.val <= w:
            v = bits_at(st.mem['data'].leaves[(0,)], B, b.val, n.val, w)
        else:
            v = fresh('peek', w)
        f = st.clone()
        f.assume(not_(ok))
        ctx.setreg(f, ins, FALSE)
        st.assume(ok)
        ctx.store_(st, V[2], v, None)
        ctx.setreg(st, ins, TRUE)
        return [st, f]
    return h


def k_consume(ctx, st, ins, args):
    V = [ctx.val(st, v, ty) for ty, v, at in args]
    B, b, rem = rep(ctx, st, V[0])
    n = V[1]
    ok = ule(n, rem)
    f = st.clone()
    f.assume(not_(ok))
    ctx.setreg(f, ins, FALSE)
    st.assume(ok)
    p = add(b, n)
    r = st.mem['bb'].with_((ctx.field('byte_offset_'),), add(B, t.lshr(p, const(3, 64))))
    st.mem['bb'] = r.with_((ctx.field('bit_offset_'),), t.band(p, const(7, 64)))
    ctx.setreg(st, ins, TRUE)
    return [st, f]


def k_read(w):
    pk = k_peek(w)

    def h(ctx, st, ins, args):
        V = [ctx.val(st, v, ty) for ty, v, at in args]
        B, b, rem = rep(ctx, st, V[0])
        s, f = pk(ctx, st, ins, args)
        p = add(b, V[1])
        r = s.mem['bb'].with_((ctx.field('byte_offset_'),), add(B, t.lshr(p, const(3, 64))))
        s.mem['bb'] = r.with_((ctx.field('bit_offset_'),), t.band(p, const(7, 64)))
        return [s, f]
    return h


PEEK = {'BitBuffer::PeekBits(unsigned long, unsigned int&)': k_peek(32), 'BitBuffer::PeekBits(unsigned long, unsigned long&)': k_peek(64)}
CONS = {'BitBuffer::ConsumeBits(unsigned long)': k_consume}
READ = {'BitBuffer::ReadBits(unsigned long, unsigned int&)': k_read(32), 'BitBuffer::ReadBits(unsigned long, unsigned long&)': k_read(64)}


def dummy(fn):
    p = spec.Proc('post')
    p.code = [['ret', None]]
    p.lines = [0]
    p.fn = fn
    return p


class Bytes(Task):
    """function body on concrete reader fields; loops are unrolled: every loop
    bound is fixed by the enumerated (bit offset, width), so no iteration is cut"""
    MAXIT = 100

    def __init__(self, prog, world, fn, post, solver=None, con=None):
        Task.__init__(self, prog, world, dummy(fn), dict(con or {}), world.invs, solver)
        self.post = post
        self.unroll_all = True
        self.max_steps = 60000

    def field(self, name, writer=False):
        for o, n, ty in self.prog.layouts['BitBufferWriter' if writer else 'BitBuffer']['fields']:
            if n == name:
                return o
        raise Unsupported('BitBuffer has no field ' + name)

    def begin(self, b=None, writer=False, **args):
        """initial state: reader at byte B, bit b of N bytes; args: register values by position"""
        f = self.func
        f.analyse()
        st = State()
        st.mem, st.heap, st.bb = {}, {}, {}
        st.pc, st.lits = (), frozenset()
        st.ev, st.consumed, st.nalloc, st.tags = None, FALSE, 0, None
        sp = Spec()
        sp.proc, sp.pc, sp.mode, sp.heap, sp.chain, sp.passed = self.proc, 0, RUN, {}, None, frozenset()
        self.active = frozenset()
        sp.P, sp.S, sp.Tt = const(0, 64), None, None
        sp.env = {}
        st.spec = sp
        self.D = t.var('D', BYTES)
        if b is not None:
            self.B = t.var('B', 64, NMAX)
            self.Rm = t.var('R', 64, NMAX)        # bytes from B to the end
            self.N = add(self.B, self.Rm)
        else:
            self.N = t.var('N', 64, NMAX)
        st.mem['data'] = Region(None, 'undef', {(0,): self.D}, self.N, None, not writer)
        lv = {}
        if b is not None:
            self.b = b if isinstance(b, t.T) else const(b, 64)
            dp = Ptr(('R', 'data'), (0,), (const(0, 64),), 1, True)
            lv[(self.field('bytes_'),)] = dp
            lv[(self.field('byte_count_'),)] = self.N
            lv[(self.field('byte_offset_'),)] = self.B
            lv[(self.field('bit_offset_'),)] = self.b
            if writer:
                lv[(self.field('writable_bytes_', True),)] = dp
            st.assume(ule(self.N, const(NMAX, 64)))
            st.assume(or_(ult(const(0, 64), self.Rm), eq(self.b, const(0, 64))))
            st.assume(ule(self.b, const(7, 64)))
            self.rem = sub(t.shl(self.Rm, const(3, 64)), self.b)
        else:
            self.b = self.B = None
        st.mem['bb'] = Region('BitBufferWriter' if writer else 'BitBuffer', 'undef', lv)
        self.lv0 = dict(lv)
        self.writer = writer
        regs = {}
        for (pt, pr, pa), a in zip(f.params, args['a']):
            if a == 'bb':
                regs[pr] = Ptr(('R', 'bb'))
            elif a == 'data':
                regs[pr] = Ptr(('R', 'data'), (0,), (const(0, 64),), 1, True)
            elif isinstance(a, str):
                st.mem[a] = Region(None, 'undef', {(0,): t.var('old:' + a, int(args.get('w', 64)))})
                regs[pr] = Ptr(('R', a))
            else:
                regs[pr] = a
        st.frames = [Frame(f, f.entry.name, 0, regs)]
        return st

    def on_return(self, st, v):
        if self.solver.sat(st.pc, TRUE) == 'unsat':
            return
        self.success_returns += 1
        if v is not None and isinstance(v, t.T) and v.sort == 8:
            v = ne(v, const(0, 8))
        self.post(self, st, v)

    # -- access to the final state
    def fld(self, st, name, writer=False):
        return st.mem['bb'].leaves.get((self.field(name, writer),))

    def out(self, st, rid, w):
        v = st.mem[rid].leaves.get((0,))
        return fresh('undef', w) if v is None else v

    def same_buffer(self, st):
        a, b = st.mem['bb'].leaves.get((self.field('bytes_'),)), self.lv0[(self.field('bytes_'),)]
        if not (isinstance(a, Ptr) and a.key() == b.key()):
            raise Violation('frame', 'the reader changes its buffer', st, TRUE)
        self.oblige(st, 'frame', eq(self.fld(st, 'byte_count_'), self.N), 'size of the buffer')

    def at(self, st, n, what):
        """the reader stands n bits after the start"""
        self.same_buffer(st)
        p = add(self.b, n)
        self.oblige(st, 'ensures', and_(eq(self.fld(st, 'byte_offset_'), add(self.B, t.lshr(p, const(3, 64)))),
                                        eq(self.fld(st, 'bit_offset_'), t.band(p, const(7, 64)))), 'position after ' + what)

    def go(self, st):
        n = self.success_returns
        self.explore([st])
        if self.success_returns == n:
            raise Violation('vacuity', 'no execution returns', None, TRUE)


def bits_at(D, B, b, n, w):
    """the n bits from bit b of byte B, as a w-bit value"""
    v = const(0, w)
    k = 0
    done = 0
    while done < n:
        lo = b if k == 0 else 0
        take = min(8 - lo, n - done)
        x = select(D, add(B, const(k, 64)))
        x = t.lshr(x, const(8 - lo - take, 8))
        x = t.band(x, const((1 << take) - 1, 8))
        x = zext(x, w) if w > 8 else x
        v = t.bor(v, t.shl(x, const(n - done - take, w)))
        done += take
        k += 1
    return v


def split_ok(T, st, ok, v, good, bad, what):
    """postcondition by cases: returns true exactly if ok"""
    T.oblige(st, 'ensures', eq(v, ok), what + ' succeeds exactly when it should')
    for c, f in ((ok, good), (not_(ok), bad)):
        s = st.clone()
        s.assume(c)
        if T.solver.sat(s.pc, TRUE) != 'unsat':
            f(s)


def read_task(fn, w, consume, widths=None, con=None, bs=range(8)):
    """PeekBits / ReadBits / ReadUIntN"""
    def run(prog, world, T0):
        first = True
        for b in bs:
            for n in list(widths or range(1, w + 1)) + (['bad'] if not widths else []):
                def post(T, st, v, n=n, b=b):
                    if n == 'bad':
                        T.oblige(st, 'ensures', not_(v), 'width out of range rejected')
                        T.at(st, const(0, 64), 'a rejected read')
                        return
                    N = const(n, 64)

                    def good(s):
                        T.at(s, N if consume else const(0, 64), 'read of %d bits' % n)
                        T.oblige(s, 'ensures', eq(T.out(s, 'out', w), bits_at(T.D, T.B, b, n, w)), 'value of a read of %d bits at bit offset %d' % (n, b))
                    split_ok(T, st, ule(N, T.rem), v, good, lambda s: T.at(s, const(0, 64), 'a failed read'), 'read of %d bits' % n)
                T = T0(fn, post, con)
                nt = const(n, 64) if n != 'bad' else t.var('n', 64)
                st = T.begin(b, a=['bb'] + ([nt] if not widths else []) + ['out'], w=w)
                if n == 'bad':
                    st.assume(or_(eq(nt, const(0, 64)), ult(const(w, 64), nt)))
                T.go(st)
    return run


def simple(fn, args, post, b='sym', pre=None, writer=False, con=None):
    def run(prog, world, T0):
        T = T0(fn, post, con)
        st = T.begin(t.var('b', 64, 7) if b == 'sym' else b, writer=writer, a=args())
        if pre:
            pre(T, st)
        T.go(st)
    return run


def nvar():
    return t.var('n', 64)


def p_consume(mult):
    def post(T, st, v):
        n = nvar()
        if mult == 8:
            ok = and_(ule(n, const((1 << 61) - 1, 64)), ule(t.shl(n, const(3, 64)), T.rem))
            n = t.shl(n, const(3, 64))
        else:
            ok = ule(n, T.rem)
        split_ok(T, st, ok, v, lambda s: T.at(s, n, 'skipping'), lambda s: T.at(s, const(0, 64), 'a failed skip'), 'skip')
    return post


def p_seek(T, st, v):
    y, x = t.var('y', 64), t.var('x', 64)
    ok = and_(ule(y, T.N), ule(x, const(7, 64)), or_(ult(y, T.N), eq(x, const(0, 64))))

    def good(s):
        T.same_buffer(s)
        T.oblige(s, 'ensures', and_(eq(T.fld(s, 'byte_offset_'), y), eq(T.fld(s, 'bit_offset_'), x)), 'position after seek')
    split_ok(T, st, ok, v, good, lambda s: T.at(s, const(0, 64), 'a failed seek'), 'seek')


def p_offset(T, st, v):
    T.at(st, const(0, 64), 'asking for the position')
    T.oblige(st, 'ensures', and_(eq(T.out(st, 'o1', 64), T.B), eq(T.out(st, 'o2', 64), T.b)), 'reported position')


def p_remaining(T, st, v):
    T.at(st, const(0, 64), 'asking for the remaining bits')
    T.oblige(st, 'ensures', eq(v, T.rem), 'remaining bits')


def p_ctor(T, st, v):
    r = st.mem['bb'].leaves
    a = r.get((T.field('bytes_'),))
    if not (isinstance(a, Ptr) and a.root == ('R', 'data') and a.idx == (const(0, 64),)):
        raise Violation('ensures', 'buffer of a new reader', st, TRUE)
    z = const(0, 64)
    und = fresh('undef', 64)
    T.oblige(st, 'ensures', and_(eq(r.get((T.field('byte_count_'),), und), T.N), eq(r.get((T.field('byte_offset_'),), und), z),
                                 eq(r.get((T.field('bit_offset_'),), und), z)), 'a new reader stands at the first bit')
    if T.writer:
        a = r.get((T.field('writable_bytes_', True),))
        if not (isinstance(a, Ptr) and a.root == ('R', 'data') and a.idx == (const(0, 64),)):
            raise Violation('ensures', 'buffer of a new writer', st, TRUE)


def p_countbits(T, st, v):
    x = t.var('v', 64)
    T.oblige(st, 'ensures', ule(v, const(64, 64)), 'bit count at most 64')
    z = eq(v, const(0, 64))
    T.oblige(st, 'ensures', or_(and_(z, eq(x, const(0, 64))), and_(not_(z), eq(t.lshr(x, sub(v, const(1, 64))), const(1, 64)))), 'number of significant bits')


# ---------------------------------------------------------------- writer
def written(T, st, val, b, n):
    """exactly the n bits from the position hold the low n bits of val"""
    D2 = st.mem['data'].leaves[(0,)]
    done = k = 0
    while done < n:
        lo = b if k == 0 else 0
        take = min(8 - lo, n - done)
        sh = 8 - lo - take
        m = ((1 << take) - 1) << sh
        old = select(T.D, add(T.B, const(k, 64)))
        piece = t.band(trunc(t.lshr(val, const(n - done - take, 64)), 8), const((1 << take) - 1, 8))
        new = t.bor(t.band(old, const(~m & 255, 8)), t.shl(piece, const(sh, 8)))
        T.oblige(st, 'ensures', eq(select(D2, add(T.B, const(k, 64))), new), 'byte %d of a write of %d bits at bit offset %d' % (k, n, b))
        done += take
        k += 1
    untouched(T, st, T.B, k)


def untouched(T, st, lo, k):
    D2 = st.mem['data'].leaves[(0,)]
    if D2 is T.D:
        return
    j = fresh('j', 64)
    s = st.clone()
    s.assume(or_(ult(j, lo), ule(add(lo, const(k, 64)), j)) if k else TRUE)
    T.oblige(s, 'frame', eq(select(D2, j), select(T.D, j)), 'bytes outside the written bits')


def write_post(b, n, val):
    def post(T, st, v):
        N = const(n, 64)

        def good(s):
            T.at(s, N, 'write of %d bits' % n)
            written(T, s, val, b, n)

        def bad(s):
            T.at(s, const(0, 64), 'a failed write')
            untouched(T, s, T.B, 0)
        split_ok(T, st, ule(N, T.rem), v, good, bad, 'write of %d bits' % n)
    return post


def p_write_bad(T, st, v):
    T.oblige(st, 'ensures', eq(v, eq(t.var('n', 64), const(0, 64))), 'write of more than 64 bits rejected, of none accepted')
    T.at(st, const(0, 64), 'a write of no bits')
    untouched(T, st, T.B, 0)


def write_bits(bs):
    def run(prog, world, T0):
        fn = 'BitBufferWriter::WriteBits(unsigned long, unsigned long)'
        val = t.var('val', 64)
        for b in bs:
            for n in range(1, 65):
                T = T0(fn, write_post(b, n, val), CONS)
                T.go(T.begin(b, True, a=['bb', val, const(n, 64)]))
            T = T0(fn, p_write_bad, CONS)
            nt = t.var('n', 64)
            st = T.begin(b, True, a=['bb', val, nt])
            st.assume(or_(eq(nt, const(0, 64)), ult(const(64, 64), nt)))
            T.go(st)
    return run


def write_uint(prog, world, T0):
    for w, ty in ((8, 'unsigned char'), (16, 'unsigned short'), (32, 'unsigned int')):
        for b in range(8):
            val = t.var('val%d' % w, w)
            T = T0('BitBufferWriter::WriteUInt%d(%s)' % (w, ty), write_post(b, w, zext(val, 64)))
            T.go(T.begin(b, True, a=['bb', val]))


# ---------------------------------------------------------------- codes on top of the writer and reader
def write_bytes(D, B, b, n, val):
    """the array after a write of the low n bits of val at bit b of byte B"""
    done = k = 0
    out = D
    while done < n:
        lo = b if k == 0 else 0
        take = min(8 - lo, n - done)
        sh = 8 - lo - take
        m = ((1 << take) - 1) << sh
        i = add(B, const(k, 64))
        piece = t.band(trunc(t.lshr(val, const(n - done - take, 64)), 8), const((1 << take) - 1, 8))
        out = store(out, i, t.bor(t.band(select(D, i), const(~m & 255, 8)), t.shl(piece, const(sh, 8))))
        done += take
        k += 1
    return out


def k_write(ctx, st, ins, args):
    """contract of WriteBits (discharged by wr.bits)"""
    V = [ctx.val(st, v, ty) for ty, v, at in args]
    B, b, rem = rep(ctx, st, V[0])
    n = V[2]
    if n.op != 'const' or b.op != 'const' or not 0 <= n.val <= 64:
        raise Unsupported('write of a symbolic width')
    f = st.clone()
    f.assume(not_(ule(n, rem)))
    ctx.setreg(f, ins, FALSE)
    st.assume(ule(n, rem))
    D = st.mem['data'].leaves[(0,)]
    st.mem['data'] = st.mem['data'].with_((0,), write_bytes(D, B, b.val, n.val, V[1]))
    p = b.val + n.val
    r = st.mem['bb'].with_((ctx.field('byte_offset_'),), add(B, const(p >> 3, 64)))
    st.mem['bb'] = r.with_((ctx.field('bit_offset_'),), const(p & 7, 64))
    ctx.setreg(st, ins, TRUE)
    return [st, f]


def k_countbits(L):
    """contract of CountBits (discharged by bb.countbits), where the path decides the result"""
    def h(ctx, st, ins, args):
        x = ctx.val(st, args[0][1], args[0][0])
        if L and ctx.solver.valid(st.pc, eq(t.lshr(x, const(L - 1, 64)), const(1, 64))):
            ctx.setreg(st, ins, const(L, 64))
            return [st]
        if ctx.solver.sat(st.pc, TRUE) == 'unsat':
            return []
        v = fresh('countbits', 64)
        z = eq(v, const(0, 64))
        st.assume(ule(v, const(64, 64)))
        st.assume(or_(and_(z, eq(x, const(0, 64))), and_(not_(z), eq(t.lshr(x, sub(v, const(1, 64))), const(1, 64)))))
        ctx.setreg(st, ins, v)
        return [st]
    return {'CountBits(unsigned long)': h}


WRITE = {'BitBufferWriter::WriteBits(unsigned long, unsigned long)': k_write}


def write_ue(bs, signed=False):
    fn = 'BitBufferWriter::WriteSignedExponentialGolomb(int)' if signed else 'BitBufferWriter::WriteExponentialGolomb(unsigned int)'

    def run(prog, world, T0):
        val = t.var('val', 32)
        x = zext(se_code(val) if signed else val, 64)
        code = add(x, const(1, 64))
        bad = eq(val, const(1 << 31 if signed else (1 << 32) - 1, 32))
        for b in bs:
            for L in range(1, 33):
                T = T0(fn, write_post(b, 2 * L - 1, code), {**WRITE, **k_countbits(L)})
                st = T.begin(b, True, a=['bb', val])
                st.assume(eq(t.lshr(code, const(L - 1, 64)), const(1, 64)))
                st.assume(not_(bad))
                T.go(st)

            def post(T, st, v):
                T.oblige(st, 'ensures', not_(v), 'value without a code rejected')
                T.at(st, const(0, 64), 'a rejected write')
                untouched(T, st, T.B, 0)
            T = T0(fn, post, {**WRITE, **k_countbits(0)})
            st = T.begin(b, True, a=['bb', val])
            st.assume(bad)
            T.go(st)
    return run


def se_code(v):
    """clause 9.1.1 inverted: code number of a signed value"""
    two = t.shl(v, const(1, 32))
    return ite(t.slt(const(0, 32), v), sub(two, const(1, 32)), t.neg(two))


def se_value(k):
    """clause 9.1.1: value of code number k"""
    h = t.lshr(k, const(1, 32))
    return ite(eq(t.band(k, const(1, 32)), const(0, 32)), t.neg(h), add(h, const(1, 32)))


def ns_split(num, L):
    """2^L - num: how many values take L - 1 bits"""
    return sub(const(1 << L, 64), zext(num, 64))


def ns_pre(st, num, L):
    st.assume(eq(t.lshr(zext(num, 64), const(L - 1, 64)), const(1, 64)))
    st.assume(ule(num, const(1 << 31, 32)))


def write_ns(bs):
    fn = 'BitBufferWriter::WriteNonSymmetric(unsigned int, unsigned int)'

    def run(prog, world, T0):
        val, num = t.var('val', 32), t.var('num', 32)
        v64 = zext(val, 64)
        for b in bs:
            for L in range(1, 33):
                k = ns_split(num, L)
                for short in (True, False):
                    if short and L == 1:
                        def post(T, st, v):
                            T.oblige(st, 'ensures', v, 'a single value takes no bits')
                            T.at(st, const(0, 64), 'a write of no bits')
                            untouched(T, st, T.B, 0)
                    else:
                        post = write_post(b, L - 1 if short else L, v64 if short else add(v64, k))
                    T = T0(fn, post, {**WRITE, **k_countbits(L)})
                    st = T.begin(b, True, a=['bb', val, num])
                    ns_pre(st, num, L)
                    st.assume(ult(val, num))
                    st.assume(ult(v64, k) if short else not_(ult(v64, k)))
                    if T.solver.sat(st.pc, TRUE) != 'unsat':
                        T.go(st)
    return run


def size_ns(prog, world, T0):
    fn = 'BitBufferWriter::SizeNonSymmetricBits(unsigned int, unsigned int)'
    val, num = t.var('val', 32), t.var('num', 32)
    for L in range(1, 33):
        def post(T, st, v, L=L):
            T.oblige(st, 'ensures', eq(v, ite(ult(zext(val, 64), ns_split(num, L)), const(L - 1, 64), const(L, 64))), 'size of a non-symmetric code')
        T = T0(fn, post, k_countbits(L))
        st = T.begin(None, a=[val, num])
        ns_pre(st, num, L)
        st.assume(ult(val, num))
        T.go(st)


def read_ns(bs):
    fn = 'BitBuffer::ReadNonSymmetric(unsigned int, unsigned int&)'

    def run(prog, world, T0):
        num = t.var('num', 32)
        for b in bs:
            for L in range(1, 33):
                def post(T, st, v, L=L, b=b):
                    k = ns_split(num, L)
                    c1 = bits_at(T.D, T.B, b, L - 1, 64)
                    c2 = bits_at(T.D, T.B, b, L, 64)
                    short = ult(c1, k)
                    n = ite(short, const(L - 1, 64), const(L, 64))

                    def good(s):
                        T.at(s, n, 'a non-symmetric code')
                        o = zext(T.out(s, 'out', 32), 64)
                        T.oblige(s, 'ensures', eq(o, ite(short, c1, sub(c2, k))), 'value of a non-symmetric code')
                        T.oblige(s, 'ensures', ult(o, zext(num, 64)), 'value of a non-symmetric code below the number of values')
                    split_ok(T, st, ule(n, T.rem), v, good, T.same_buffer, 'non-symmetric code')
                T = T0(fn, post, {**READ, **k_countbits(L)})
                st = T.begin(b, a=['bb', num, 'out'], w=32)
                ns_pre(st, num, L)
                T.go(st)
    return run


class Lemma:
    """obligations over the contracts alone"""

    def __init__(self, solver):
        self.solver, self.obl, self.success_returns, self.trusted_calls = solver, [], 1, set()

    def prove(self, pre, c, what):
        r = self.solver.sat(tuple(pre), not_(c))
        if r != 'unsat':
            raise Violation('lemma', what, None, TRUE)
        self.obl.append(('lemma', 'low.py', what))


def l_bits(T):
    D, B, val = t.var('D', BYTES), t.var('B', 64, NMAX), t.var('val', 64)
    for b in range(8):
        for n in range(1, 65):
            D2 = write_bytes(D, B, b, n, val)
            T.prove([], eq(bits_at(D2, B, b, n, 64), t.band(val, const((1 << n) - 1, 64))), '%d bits written at bit offset %d read back' % (n, b))
            keep = (0xff00 >> b) & 255
            T.prove([], eq(t.band(select(D2, B), const(keep, 8)), t.band(select(D, B), const(keep, 8))), 'bits before a write of %d bits at %d survive' % (n, b))


def l_ue(T):
    D, B, x = t.var('D', BYTES), t.var('B', 64, NMAX), t.var('x', 64)
    for b in range(8):
        for L in range(1, 33):
            pre = [eq(bits_at(D, B, b, 2 * L - 1, 64), x), eq(t.lshr(x, const(L - 1, 64)), const(1, 64))]
            at = lambda i, n: bits_at(D, add(B, const((b + i) >> 3, 64)), (b + i) & 7, n, 64)
            c = [eq(at(i, 1), const(0, 64)) for i in range(L - 1)] + [eq(at(L - 1, 1), const(1, 64)), eq(at(L - 1, L), x)]
            T.prove(pre, and_(*c), 'ue code of %d bits at bit offset %d: %d zeros, a one, the value' % (2 * L - 1, b, L - 1))


def l_se(T):
    v, k = t.var('v', 32), t.var('k', 32)
    T.prove([ne(v, const(1 << 31, 32))], eq(se_value(se_code(v)), v), 'signed code numbers map back to the value')
    T.prove([ne(v, const(1 << 31, 32))], ne(se_code(v), const((1 << 32) - 1, 32)), 'signed values have a code number with a code')
    T.prove([ne(k, const((1 << 32) - 1, 32))], eq(se_code(se_value(k)), k), 'signed values map back to the code number')


def l_ns(T):
    val, num = t.var('val', 32), t.var('num', 32)
    v = zext(val, 64)
    for L in range(1, 33):
        k = ns_split(num, L)
        pre = [eq(t.lshr(zext(num, 64), const(L - 1, 64)), const(1, 64)), ule(num, const(1 << 31, 32)), ult(val, num)]
        T.prove(pre + [ult(v, k)], ult(v, const(1 << (L - 1), 64)), 'short non-symmetric code fits %d bits' % (L - 1))
        c2 = add(v, k)
        T.prove(pre + [not_(ult(v, k))], and_(ult(c2, const(1 << L, 64)), not_(ult(t.lshr(c2, const(1, 64)), k)), eq(sub(c2, k), v)),
                'long non-symmetric code of %d bits reads back and is not mistaken for a short one' % L)


LEMMAS = {'lemma.bits': l_bits, 'lemma.ue': l_ue, 'lemma.se': l_se, 'lemma.nonsymmetric': l_ns}

A = {}


def R(name, fn, run):
    A[name] = (fn, run)


for _b in range(8):
    R('bb.peek32@%d' % _b, 'BitBuffer::PeekBits(unsigned long, unsigned int&)', read_task('BitBuffer::PeekBits(unsigned long, unsigned int&)', 32, False, bs=[_b]))
    R('bb.peek64@%d' % _b, 'BitBuffer::PeekBits(unsigned long, unsigned long&)', read_task('BitBuffer::PeekBits(unsigned long, unsigned long&)', 64, False, bs=[_b]))
    R('wr.bits@%d' % _b, 'BitBufferWriter::WriteBits(unsigned long, unsigned long)', write_bits([_b]))
R('bb.read32', 'BitBuffer::ReadBits(unsigned long, unsigned int&)', read_task('BitBuffer::ReadBits(unsigned long, unsigned int&)', 32, True, con={**PEEK, **CONS}))
R('bb.read64', 'BitBuffer::ReadBits(unsigned long, unsigned long&)', read_task('BitBuffer::ReadBits(unsigned long, unsigned long&)', 64, True, con={**PEEK, **CONS}))
R('bb.uint8', 'BitBuffer::ReadUInt8(unsigned char&)', read_task('BitBuffer::ReadUInt8(unsigned char&)', 8, True, [8], con=READ))
R('bb.uint16', 'BitBuffer::ReadUInt16(unsigned short&)', read_task('BitBuffer::ReadUInt16(unsigned short&)', 16, True, [16], con=READ))
R('bb.uint32', 'BitBuffer::ReadUInt32(unsigned int&)', read_task('BitBuffer::ReadUInt32(unsigned int&)', 32, True, [32], con=READ))
R('bb.skip', 'BitBuffer::ConsumeBits(unsigned long)', simple('BitBuffer::ConsumeBits(unsigned long)', lambda: ['bb', nvar()], p_consume(1)))
R('bb.skipbytes', 'BitBuffer::ConsumeBytes(unsigned long)', simple('BitBuffer::ConsumeBytes(unsigned long)', lambda: ['bb', nvar()], p_consume(8), con=CONS))
R('bb.seek', 'BitBuffer::Seek(unsigned long, unsigned long)', simple('BitBuffer::Seek(unsigned long, unsigned long)', lambda: ['bb', t.var('y', 64), t.var('x', 64)], p_seek))
R('bb.offset', 'BitBuffer::GetCurrentOffset(unsigned long*, unsigned long*)', simple('BitBuffer::GetCurrentOffset(unsigned long*, unsigned long*)', lambda: ['bb', 'o1', 'o2'], p_offset))
R('bb.remaining', 'BitBuffer::RemainingBitCount() const', simple('BitBuffer::RemainingBitCount() const', lambda: ['bb'], p_remaining))
R('bb.ctor', 'BitBuffer::BitBuffer(unsigned char const*, unsigned long)', simple('BitBuffer::BitBuffer(unsigned char const*, unsigned long)', lambda: ['bb', 'data', t.var('N', 64, NMAX)], p_ctor, b=None))
R('bb.countbits', 'CountBits(unsigned long)', simple('CountBits(unsigned long)', lambda: [t.var('v', 64)], p_countbits, b=None))
R('wr.ctor', 'BitBufferWriter::BitBufferWriter(unsigned char*, unsigned long)', simple('BitBufferWriter::BitBufferWriter(unsigned char*, unsigned long)', lambda: ['bb', 'data', t.var('N', 64, NMAX)], p_ctor, b=None, writer=True))
for _h, _bs in (('a', range(0, 4)), ('b', range(4, 8))):
    R('wr.ue' + _h, 'BitBufferWriter::WriteExponentialGolomb(unsigned int)', write_ue(_bs))
    R('wr.se' + _h, 'BitBufferWriter::WriteSignedExponentialGolomb(int)', write_ue(_bs, True))
    R('wr.nonsym' + _h, 'BitBufferWriter::WriteNonSymmetric(unsigned int, unsigned int)', write_ns(_bs))
    R('bb.nonsym' + _h, 'BitBuffer::ReadNonSymmetric(unsigned int, unsigned int&)', read_ns(_bs))
R('wr.nonsymsize', 'BitBufferWriter::SizeNonSymmetricBits(unsigned int, unsigned int)', size_ns)
R('wr.uint', 'BitBufferWriter::WriteUInt32(unsigned int)', write_uint)



# ---------------------------------------------------------------- layer B
def bits_uf(S, P, n, w):
    um = (1 << n.val) - 1 if n.op == 'const' and 1 <= n.val <= 64 else (1 << w) - 1
    return t.uf('bits', 64, S, P, n, umax=um)


def g_peek(w, consume, width=None):
    def h(ctx, st, ins, args):
        V = [ctx.val(st, v, ty) for ty, v, at in args]
        rid = verify.bb_of(ctx, st, V[0])
        S, P, T = st.bb[rid]
        n = V[1] if width is None else const(width, 64)
        ok = and_(ult(const(0, 64), n), ule(n, const(w, 64)), ule(n, sub(T, P)))
        f = st.clone()
        f.assume(not_(ok))
        ctx.setreg(f, ins, FALSE)
        st.assume(ok)
        v = bits_uf(S, P, n, w)
        ctx.store_(st, V[-1], trunc(v, w) if w < 64 else v, None)
        if consume:
            st.bb[rid] = (S, add(P, n), T)
            st.assume(ule(add(P, n), T))
            if n.op == 'const' and n.val:
                st.consumed = TRUE
        ctx.setreg(st, ins, TRUE)
        return [st, f]
    return h


def g_consume(ctx, st, ins, args):
    V = [ctx.val(st, v, ty) for ty, v, at in args]
    rid = verify.bb_of(ctx, st, V[0])
    S, P, T = st.bb[rid]
    ok = ule(V[1], sub(T, P))
    f = st.clone()
    f.assume(not_(ok))
    ctx.setreg(f, ins, FALSE)
    st.assume(ok)
    st.bb[rid] = (S, add(P, V[1]), T)
    st.assume(ule(add(P, V[1]), T))
    if V[1].op == 'const' and V[1].val:
        st.consumed = TRUE
    ctx.setreg(st, ins, TRUE)
    return [st, f]


def ue_terms(S, P, T):
    return t.uf('ue_ok', 0, S, P, T), t.uf('ue_val', 64, S, P, T, umax=(1 << 32) - 2), t.uf('ue_len', 64, S, P, T, umax=63)


def g_ue(ctx, st, ins, args):
    V = [ctx.val(st, v, ty) for ty, v, at in args]
    rid = verify.bb_of(ctx, st, V[0])
    S, P, T = st.bb[rid]
    ok, v, ln = ue_terms(S, P, T)
    f = st.clone()
    f.assume(not_(ok))
    ctx.setreg(f, ins, FALSE)
    st.assume(ok)
    st.assume(ule(add(P, ln), T))
    ctx.store_(st, V[1], trunc(v, 32), None)
    st.bb[rid] = (S, add(P, ln), T)
    ctx.setreg(st, ins, TRUE)
    return [st, f]


GB = {
    'BitBuffer::PeekBits(unsigned long, unsigned int&)': g_peek(32, False),
    'BitBuffer::PeekBits(unsigned long, unsigned long&)': g_peek(64, False),
    'BitBuffer::ReadBits(unsigned long, unsigned int&)': g_peek(32, True),
    'BitBuffer::ReadBits(unsigned long, unsigned long&)': g_peek(64, True),
    'BitBuffer::ReadUInt8(unsigned char&)': g_peek(8, True, 8),
    'BitBuffer::ReadUInt16(unsigned short&)': g_peek(16, True, 16),
    'BitBuffer::ReadUInt32(unsigned int&)': g_peek(32, True, 32),
    'BitBuffer::ReadExponentialGolomb(unsigned int&)': g_ue,
    'BitBuffer::ConsumeBits(unsigned long)': g_consume,
    'BitBuffer::GetCurrentOffset(unsigned long*, unsigned long*)': verify.c_offset,
    'BitBuffer::RemainingBitCount() const': verify.c_remaining,
    'BitBuffer::Seek(unsigned long, unsigned long)': verify.c_seek,
}


def pair_inv(ctx, syms, ent, S0):
    """candidate invariants: two counters that started together have moved by the same amount"""
    ks = [s for s in ent if s.sort == 64]
    if len(ks) > 12:
        return []
    out = []
    for i, a in enumerate(ks):
        for b in ks[i + 1:]:
            out.append(eq(sub(a, ent[a]), sub(b, ent[b])))
            out.append(ule(a, b))
            out.append(ule(b, a))
    return out


def inv(h):
    """the reader never stands past its end: an invariant of BitBuffer that layer A proves of every member function"""
    def g(ctx, st, ins, args):
        rid = verify.bb_of(ctx, st, ctx.val(st, args[0][1], args[0][0]))
        S, P, T = st.bb[rid]
        st.assume(ule(P, T))
        return h(ctx, st, ins, args)
    return g


GB = {k: inv(h) for k, h in GB.items()}


# ---------------------------------------------------------------- start code search
def next_sc(D, n, x):
    return t.uf('next_sc', 64, D, n, x, umax=NMAX)


def is_sc(D, x):
    return and_(eq(select(D, x), const(0, 8)), eq(select(D, add(x, const(1, 64))), const(0, 8)), eq(select(D, add(x, const(2, 64))), const(1, 8)))


def sc_axioms(D, n, x, lemmas=True, depth=3):
    """definition of next_sc, unfolded from x; and the lemmas about it (proved by induction in sc_lemma)"""
    end = sub(n, const(3, 64))
    out = []
    for k in range(depth):
        y = add(x, const(k, 64))
        v = next_sc(D, n, y)
        out.append(eq(v, ite(ule(end, y), end, ite(is_sc(D, y), y, next_sc(D, n, add(y, const(1, 64)))))))
        if lemmas:
            out.append(sc_lemma_at(D, n, y))
    return out


def sc_lemma_at(D, n, y):
    end = sub(n, const(3, 64))
    v = next_sc(D, n, y)
    return and_(ule(v, end), ite(ule(end, y), eq(v, end), ule(y, v)), or_(eq(v, end), is_sc(D, v)))


class ScSolver(t.Solver):
    """adds the definition of next_sc at the arguments that occur in a query"""

    def sat(self, pc, goal, model=False, with_facts=True):
        seen, ax, wl, done = set(), [], list(pc) + [goal], set()
        while wl:
            x = wl.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == 'uf' and x.val == 'next_sc':
                if x.id not in done:
                    done.add(x.id)
                    D, n, y = x.args
                    ax.append(ule(const(3, 64), n))
                    ax += sc_axioms(D, n, y)
            wl += x.args
        return t.Solver.sat(self, tuple(pc) + tuple(ax), goal, model, with_facts)


def sc_lemma(ctx):
    """next_sc(x) is between x and end, and a start code unless it is end: by induction on end - x"""
    D, n, x = t.var('D', BYTES), t.var('n', 64, NMAX), t.var('x', 64, NMAX)
    end = sub(n, const(3, 64))
    pre = [ule(const(3, 64), n)] + sc_axioms(D, n, x, False, 1)
    s = t.Solver()
    step = or_(ule(end, x), sc_lemma_at(D, n, add(x, const(1, 64))))
    for c, m in ((sc_lemma_at(D, n, x), 'next_sc'),):
        r = s.sat(tuple(pre) + (step,), not_(c))
        if r != 'unsat':
            raise Violation('lemma', 'induction step of the start code lemma', None, TRUE)
        ctx.obl.append(('lemma', 'low.spec', 'next_sc(x): x <= next_sc(x) <= end, a start code or end (induction)'))


def nalu_inv(ctx, syms, ent, S0):
    """candidate invariants of the start code search"""
    cells = {}
    for s, c in syms.items():
        for key, (w, off) in c['m'].items():
            cells[key] = ctx.member(s, w, off)
    env = S0.spec.env
    D, n = ctx.dat

    def cur(name, leaf=None):
        if leaf is None:
            return cells.get(('env', name), env[name].t if name in env else None)
        return cells.get(('envl', name, leaf), env[name].d[leaf])
    out = []
    g = cur('g')
    ln, pay, siz, st = cur('starts', ('#',)), cur('payloads', (0,)), cur('sizes', (0,)), cur('starts', (0,))
    one = const(1, 64)
    idx = [s for s in ent if s.sort == 64]
    if g is not None:
        out.append(ule(g, sub(n, const(3, 64))))
        for s in idx:
            out.append(eq(next_sc(D, n, s), g))
    lastp = select(pay, sub(ln, one))
    none = eq(ln, const(0, 64))
    for s in idx:
        out.append(or_(none, ule(lastp, s)))
        out.append(ule(ln, s))
    out.append(or_(none, and_(eq(select(D, sub(lastp, one)), const(1, 8)), ule(lastp, n), ule(const(3, 64), lastp))))
    k = t.var('k*', 64)
    out.append(or_(ule(ln, k), and_(ule(select(pay, k), n), ule(select(siz, k), sub(n, select(pay, k))))))
    if g is None:
        for s in idx:
            out.append(ule(s, n))
    return out


class Ghost(Task):
    def __init__(self, prog, world, proc, solver=None):
        con = {k: v for k, v in GB.items() if k != proc.fn}
        res, proc.result = proc.result, None
        Task.__init__(self, prog, world, proc, con, world.invs, solver)
        proc.result = res
        self.track_pos = self.store0 = True
        self.specfuns = dict(self.specfuns)
        self.extra_inv = [pair_inv]
        self.bo = None
        if 'nalus' in proc.attrs:
            self.extra_inv = self.early_inv = [nalu_inv]
            self.solver = ScSolver()
            self.specfuns['next_sc'] = lambda c, st, a: VI(next_sc(self.dat[0], self.dat[1], ext64(a[0])), 'i64')
            self.stutter = self.nalu_stutter
        self.specfuns['peek'] = lambda c, st, a: VI(bits_uf(st.spec.S, st.spec.P, ext64(a[0]), 32), 'i64')
        self.specfuns['ue_ok'] = lambda c, st, a: ue_terms(st.spec.S, st.spec.P, st.spec.Tt)[0]
        self.specfuns['ue_val'] = lambda c, st, a: VI(ue_terms(st.spec.S, st.spec.P, st.spec.Tt)[1], 'i64')
        self.specfuns['ue_len'] = lambda c, st, a: VI(ue_terms(st.spec.S, st.spec.P, st.spec.Tt)[2], 'i64')

    def leaf_get(self, st, root, offs, base):
        if root == ('R', 'bb') and 'bb' in st.bb and len(offs) == 1:
            f = {o: n for o, n, ty in self.prog.layouts['BitBuffer']['fields']}.get(offs[0])
            S, P, T = st.bb['bb']
            if f == 'byte_offset_':
                return t.lshr(P, const(3, 64))
            if f == 'bit_offset_':
                return t.band(P, const(7, 64))
            if f == 'byte_count_':
                return t.lshr(T, const(3, 64))
            raise Unsupported('reader field %s' % f)
        return Task.leaf_get(self, st, root, offs, base)

    def leaf_set(self, st, root, offs, v):
        if root == ('R', 'bb') and 'bb' in st.bb:
            raise Unsupported('direct write to the reader')
        return Task.leaf_set(self, st, root, offs, v)

    def initial(self):
        f = self.func
        f.analyse()
        st = State()
        st.mem, st.heap, st.bb = {}, {}, {}
        st.pc, st.lits = (), frozenset()
        st.ev, st.consumed, st.nalloc, st.tags = None, FALSE, 0, None
        sp = Spec()
        sp.proc, sp.pc, sp.mode, sp.heap, sp.chain, sp.passed = self.proc, 0, RUN, {}, None, frozenset()
        self.active = frozenset()
        sp.P, sp.S, sp.Tt = const(0, 64), None, None
        sp.env = {}
        st.spec = sp
        params = list(f.params)
        regs = {}
        self.retkind = 'val'
        self.outw = None
        if params and 'sret' in str(params[0][2]):
            st.mem['ret'] = Region(self.proc.result, 'undef', {})
            regs[params[0][1]] = Ptr(('R', 'ret'))
            self.retkind = 'sret'
            params = params[1:]
            if 'nalus' in self.proc.attrs:
                for x in ('starts', 'payloads', 'sizes'):
                    sp.env[x] = empty_list('std::vector<uint64_t>')
            else:
                sp.env['out'] = empty_list(self.proc.result)
        sig = self.proc.fn
        k = 0
        if sig.startswith('BitBuffer::') or '(BitBuffer*' in sig:
            T = t.shl(t.var('Tb', 64, (1 << 32) - 1), const(3, 64))
            P = t.var('P0', 64, 1 << 35)
            if self.bo is not None:
                P = add(t.shl(t.var('Pb', 64, NMAX), const(3, 64)), const(self.bo, 64))
            S = t.var('S', BYTES)
            st.mem['bb'] = Region('BitBuffer', 'undef', {})
            st.bb['bb'] = (S, P, T)
            st.assume(ule(P, T))
            sp.P, sp.S, sp.Tt = P, S, T
            regs[params[0][1]] = Ptr(('R', 'bb'))
            k = 1
        if '&)' in sig:
            st.mem['out'] = Region(None, 'undef', {(0,): t.var('old', 32)})
            regs[params[k][1]] = Ptr(('R', 'out'))
            self.outw = 32
            k += 1
        if '(unsigned char const*, unsigned long' in sig:
            n = t.var('length', 64, NMAX)
            D = t.var('data', BYTES)
            st.mem['data'] = Region(None, 'undef', {(0,): D}, n, None, True)
            regs[params[0][1]] = Ptr(('R', 'data'), (0,), (const(0, 64),), 1, True)
            regs[params[1][1]] = n
            sp.env['data'] = VL({('#',): n, (0,): D}, 'std::vector<uint8_t>')
            sp.env['length'] = VI(n, 'u64')
            self.dat = (D, n)
        st.frames = [Frame(f, f.entry.name, 0, regs)]
        return st

    def vec_default(self, st, p):
        Task.vec_default(self, st, p)
        if 'nalus' in self.proc.attrs:
            # an empty list of NaluIndex: elements beyond the length are zero
            for o in (0, 8, 16):
                r = st.mem[p.root[1]]
                if p.offs + (o,) not in r.leaves:
                    st.mem[p.root[1]] = r.with_(p.offs + (o,), t.constarr(const(0, 64)))

    def nalu_stutter(self, b):
        """the code found a unit the ghost has not recorded yet"""
        for rid, r in b.mem.items():
            v = r.leaves.get((0, '#'))
            if v is not None and (0, 16) in r.leaves:
                return ne(v, b.spec.env['starts'].d[('#',)])
        # nothing recorded: an empty vector is the only one without elements
        return FALSE

    def on_return(self, st, v):
        for s, op in self.at_ret(st, 'returns'):
            self.success_returns += 1
            if 'nalus' in self.proc.attrs:
                r = s.mem['ret']
                D, n = self.dat
                for o, x in ((0, 'starts'), (8, 'payloads'), (16, 'sizes')):
                    self.list_eq(s, lambda kk, like: self.leafval(s, r, (0, o) if kk == (0,) else (0,) + kk, like), s.spec.env[x], x)
                self.oblige(s, 'ensures', ule(s.spec.env['starts'].d[('#',)], n), 'no more units than bytes')
                k = t.var('k*', 64)
                s2 = s.clone()
                s2.assume(ult(k, s.spec.env['starts'].d[('#',)]))
                p, z = (select(s.spec.env[x].d[(0,)], k) for x in ('payloads', 'sizes'))
                self.oblige(s2, 'ensures', and_(ule(p, n), ule(z, sub(n, p))), 'every unit lies inside the stream')
                continue
            if self.retkind == 'sret':
                r = s.mem['ret']
                w = s.spec.env['out']
                self.oblige(s, 'ensures', ule(w.d[('#',)], self.dat[1]), 'the payload is not longer than its escaped form')
                self.list_eq(s, lambda kk, like: self.leafval(s, r, (0,) + kk, like), w, 'result')
                continue
            w = ext64(self.ev(s, op[1]))
            x = v if v.sort != 0 else zext(v, 64)
            self.oblige(s, 'ensures', eq(zext(x, 64) if x.sort < 64 else x, w), 'returned value')
            if self.outw:
                a = s.clone()
                a.assume(eq(w, const(1, 64)))
                if self.solver.sat(a.pc, TRUE) != 'unsat':
                    y = a.mem['out'].leaves.get((0,))
                    self.oblige(a, 'ensures', eq(y, trunc(ext64(a.spec.env['val']), self.outw)), 'value read')
            if 'bb' in s.bb:
                self.oblige(s, 'ensures', eq(s.bb['bb'][1], s.spec.P), 'position afterwards')


def lowworld():
    import os
    w = spec.World()
    w.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'specs', 'low.spec')).read(), 'low.spec')
    spec_reads = set(spec.READS)
    spec.READS.clear()
    try:
        w.link()
    finally:
        spec.READS.update(spec_reads)
    return w


LW = lowworld()


class Acc:
    """all runs of one task share the solver and the tally"""

    def __init__(self, prog, world):
        self.prog, self.world, self.obl, self.trusted_calls = prog, world, [], set()
        self.solver = t.Solver()
        self.success_returns = self.fail_returns = 0
        self.deadline = None
        self.unroll_first = 0
        self.cur = None

    def new(self, fn, post, con=None):
        self.done()
        self.cur = Bytes(self.prog, self.world, fn, post, self.solver, con)
        self.cur.deadline = self.deadline
        self.cur.unroll_first = self.unroll_first
        return self.cur

    def done(self):
        if self.cur is not None:
            self.obl += self.cur.obl
            self.success_returns += self.cur.success_returns
            self.trusted_calls |= self.cur.trusted_calls
            self.cur = None

    def run(self, name):
        if name in LEMMAS:
            self.cur = Lemma(self.solver)
            LEMMAS[name](self.cur)
        elif name.startswith('f.'):
            import fun
            fun.run(self, self.prog, self.world, name)
        elif name.startswith('u.'):
            import counter
            counter.run(self, self.prog, self.world, name)
        elif name.startswith('d.'):
            import dump
            dump.run(self, self.prog, self.world, name)
        elif name in A:
            A[name][1](self.prog, self.world, self.new)
        else:
            p = LW.procs[name[2:]]
            for bo in range(8) if 'each_bit_offset' in p.attrs else [None]:
                self.done()
                self.cur = Ghost(self.prog, self.world, p, self.solver)
                self.cur.deadline = self.deadline
                self.cur.unroll_first = self.unroll_first
                if p.name == 'find_nalus':
                    sc_lemma(self.cur)
                if bo is not None:
                    # at most 8 iterations from a fixed bit offset: unrolled completely
                    self.cur.bo, self.cur.unroll_all = bo, True
                self.cur.run()
        self.done()


NAMES = list(A) + list(LEMMAS) + ['g.' + n for n in LW.procs]


def fn(name):
    if name.startswith('f.'):
        import fun
        return fun.fn(name)
    if name.startswith('u.'):
        import counter
        return counter.REPORT
    if name.startswith('d.'):
        import dump
        return dump.fn(name)
    return None if name in LEMMAS else A[name][0] if name in A else LW.procs[name[2:]].fn
