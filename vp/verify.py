"""Verification tasks: one function of the repository against one contract."""
import re
import time
from product import *            # noqa: F401,F403
from product import Product, RUN, FAIL, NONE, ext64, empty_list, zero_of
from engine import Spec, State, Frame, Ptr, PtrIte, Agg, NULL, Region, VI, VH, VL, VS, VMap, ITY, Violation, LoopFail, Budget, VEC_MAX, ptee, velem, mapval
import terms as t
from terms import const, TRUE, FALSE, and_, or_, not_, eq, ne, ite, ult, ule, zext, sext, trunc, add, sub, select, store, fresh, constarr
from ll import Unsupported

PMAX = 1 << 36
BYTES = ('A', 8)


def more_term(S, P, T):
    return t.uf('more_rbsp_data', 0, S, P, T)


def trail_P(S, P, T):
    return t.uf('after_trailing', 64, S, P, T, umax=PMAX)


def trail_ok(S, P, T):
    return t.uf('trailing_ok', 0, S, P, T)


def slice_(a, off, n, ln=None):
    """the n bytes from off of byte array a (whole array: a itself)"""
    if off.op == 'const' and off.val == 0:
        return a
    return t.uf('slice', BYTES, a, off)


def unesc(a, off, n):
    """(contents, length) of the unescaped byte string"""
    a = slice_(a, off, n)
    return t.uf('unescaped', BYTES, a, n), t.uf('unescaped_len', 64, a, n, umax=(1 << 32) - 1)


# ---------------------------------------------------------------- BitBuffer contracts
def bb_of(ctx, st, p):
    p = ctx.resolve_ptr(st, p, 'bit buffer')
    if p.root[0] == 'N':
        raise Violation('nonnull', 'null bit buffer at ' + ctx.where(st), st, TRUE)
    if p.root[0] != 'R' or p.root[1] not in st.bb:
        raise Unsupported('unknown bit buffer')
    return p.root[1]


def bb_eq(ctx, st, rid, what):
    S, P, T = st.bb[rid]
    sp = st.spec
    ctx.oblige(st, 'lockstep', eq(P, sp.P), what + ': position differs from the specification')
    if S is not sp.S or T is not sp.Tt:
        ctx.oblige(st, 'lockstep', and_(eq(S, sp.S), eq(T, sp.Tt)), what + ': applied to a different buffer than specified')


def pend_desc(ctx, st):
    if st.spec.mode != RUN:
        return 'nothing (already rejected)'
    return ctx.opstr(st, st.spec.proc.code[st.spec.pc])


def reader(kind, width_of, vwidth):
    """contract of a BitBuffer read: value is what the ghost reads, or failure"""
    def h(ctx, st, ins, args):
        A = [ctx.val(st, v, ty) for ty, v, at in args]
        out = []
        for s in ctx.settle(st):
            if ctx.solver.sat(s.pc, TRUE) == 'unsat':
                continue
            rid = bb_of(ctx, s, A[0])
            n = width_of(A)
            n = zext(n, 64) if n is not None and n.sort < 64 else n
            sp = s.spec
            S, P, T = s.bb[rid]
            op = None
            tag = kind
            if sp.mode == RUN:
                op = sp.proc.code[sp.pc]
                if (op[0] != 'read' or op[1] != kind) and kind == 'u' and ctx.track_pos and n.op == 'const':
                    # a read past the end of the buffer changes nothing
                    g = s.clone()
                    g.assume(ult(sub(T, P), n))
                    if ctx.solver.sat(g.pc, TRUE) != 'unsat':
                        ctx.setreg(g, ins, FALSE)
                        out.append(g)
                    s.assume(ule(n, sub(T, P)))
                    if ctx.solver.sat(s.pc, TRUE) == 'unsat':
                        continue
                if op[0] != 'read' or op[1] != kind:
                    raise Violation('lockstep', 'code reads %s(%s) at %s where the specification expects: %s' % (
                        kind, n.val if n is not None and n.op == 'const' else 'v' if n is not None else 'v', ctx.where(s), pend_desc(ctx, s)), s, TRUE)
                if n is not None:
                    w = ext64(ctx.ev(s, op[2]))
                    if n.op == 'const' and w.op == 'const' and 0 < w.val < n.val <= vwidth and len(op) == 4:
                        out += wide_read(ctx, s, ins, A, rid, n.val, vwidth)
                        continue
                    ctx.oblige(s, 'lockstep', eq(n, w), 'width of the read of %s' % ctx.estr(op[3]))
                elif ctx.record:
                    ctx.obl.append(('lockstep', ctx.where(s), 'read of %s' % ctx.estr(op[3])))
                bb_eq(ctx, s, rid, 'read of ' + ctx.estr(op[3]))
                tag = 'rd:%s:%d' % (sp.proc.name, sp.pc)
            ok = fresh('ok', 0)
            # failure
            f = s.clone()
            f.assume(not_(ok))
            if ctx.track_pos and kind == 'u' and n.op == 'const' and 0 < n.val <= vwidth:
                f.assume(ult(sub(T, P), n))
            if f.spec.mode == RUN and op is not None and len(op) > 4:
                ctx.assign(f, op[4], VI(const(0, 64), 'i64'))
                ctx.consume(f)
            elif f.spec.mode == RUN:
                f.spec.mode = FAIL
                f.spec.chain = None
            ctx.setreg(f, ins, FALSE)
            # success
            s.assume(ok)
            um = None
            if n is not None and n.op == 'const':
                if n.val == 0 or n.val > 64:
                    out.append(f)
                    continue
                um = (1 << n.val) - 1
            if kind == 'se':
                v = fresh(tag, 32)
                ty = 'i32'
            elif kind == 'ue':
                v = fresh(tag, 32, (1 << 32) - 2)
                ty = 'u32'
            else:
                v = fresh(tag, vwidth, min(um, (1 << vwidth) - 1) if um is not None else None)
                ty = 'u%d' % vwidth
                if um is None:
                    s.assume(ult(const(0, 64), n))
                    s.assume(ule(n, const(vwidth, 64)))
                    # value fits in n bits
                    s.assume(ult(zext(v, 64), t.shl(const(1, 64), n)) if vwidth < 64 else TRUE)
            P2 = add(P, n) if n is not None else fresh('P', 64, PMAX)
            s.bb[rid] = (S, P2, T)
            if ctx.track_pos:
                s.assume(ule(P2, T))
                if n is None:
                    s.assume(ult(P, P2))
            s.consumed = TRUE
            p = ctx.resolve_ptr(s, A[-1], 'out parameter')
            ctx.store_(s, p, v, None)
            if op is not None:
                sp.P = P2
                ctx.assign_or_new(s, op[3], VI(v, ty))
                if len(op) > 4:
                    ctx.assign(s, op[4], VI(const(1, 64), 'i64'))
                ctx.consume(s)
            ctx.setreg(s, ins, TRUE)
            out += [s, f]
        return out
    return h


def wide_read(ctx, st, ins, A, rid, n, vwidth):
    """one read of the code that covers several consecutive fixed-width reads of the specification"""
    S, P, T = st.bb[rid]
    bb_eq(ctx, st, rid, 'read of %d bits' % n)
    f = st.clone()
    ok = fresh('ok', 0)
    f.assume(not_(ok))
    f.spec.mode = FAIL
    f.spec.chain = None
    ctx.setreg(f, ins, FALSE)
    st.assume(ok)
    out = [f]
    wl = [(st, 0, const(0, vwidth))]
    while wl:
        s, done, v = wl.pop()
        if ctx.solver.sat(s.pc, TRUE) == 'unsat':
            continue
        sp = s.spec
        left = n - done
        w = left
        if left and sp.mode == RUN:
            op = sp.proc.code[sp.pc]
            if op[0] != 'read' or op[1] != 'u' or len(op) > 4:
                raise Violation('lockstep', 'code reads %d bits at %s where the specification, after %d of them, expects: %s' % (n, ctx.where(s), done, pend_desc(ctx, s)), s, TRUE)
            x = ext64(ctx.ev(s, op[2]))
            if x.op != 'const' or not 0 < x.val <= left:
                raise Violation('lockstep', 'width of the read of %s at %s' % (ctx.estr(op[3]), ctx.where(s)), s, TRUE)
            w = x.val
        if left:
            part = fresh('rd:%s:%d' % (sp.proc.name, sp.pc), vwidth, (1 << w) - 1)
            v = add(t.shl(v, const(w, vwidth)), part)
            if sp.mode == RUN:
                sp.P = add(P, const(done + w, 64))
                ctx.assign_or_new(s, op[3], VI(part, 'u%d' % vwidth))
                ctx.consume(s)
            wl += [(q, done + w, v) for q in (ctx.settle(s) if done + w < n else [s])]
            continue
        s.bb[rid] = (S, add(P, const(n, 64)), T)
        if ctx.track_pos:
            s.assume(ule(s.bb[rid][1], T))
        s.consumed = TRUE
        ctx.store_(s, ctx.resolve_ptr(s, A[-1], 'out parameter'), v, None)
        ctx.setreg(s, ins, TRUE)
        out.append(s)
    return out


def c_more(ctx, st, ins, args):
    rid = bb_of(ctx, st, ctx.val(st, args[0][1], args[0][0]))
    ctx.setreg(st, ins, more_term(*st.bb[rid]))
    return None


def c_trailing(ctx, st, ins, args):
    rid = bb_of(ctx, st, ctx.val(st, args[0][1], args[0][0]))
    S, P, T = st.bb[rid]
    ctx.setreg(st, ins, trail_ok(S, P, T))
    st.bb[rid] = (S, trail_P(S, P, T), T)
    return None


def c_remaining(ctx, st, ins, args):
    rid = bb_of(ctx, st, ctx.val(st, args[0][1], args[0][0]))
    S, P, T = st.bb[rid]
    ctx.setreg(st, ins, sub(T, P))
    return None


def c_offset(ctx, st, ins, args):
    A = [ctx.val(st, v, ty) for ty, v, at in args]
    rid = bb_of(ctx, st, A[0])
    S, P, T = st.bb[rid]
    ctx.store_(st, A[1], t.lshr(P, const(3, 64)), None)
    ctx.store_(st, A[2], t.band(P, const(7, 64)), None)
    ctx.setreg(st, ins, None)
    return None


def c_seek(ctx, st, ins, args):
    A = [ctx.val(st, v, ty) for ty, v, at in args]
    rid = bb_of(ctx, st, A[0])
    S, P, T = st.bb[rid]
    N = t.lshr(T, const(3, 64))
    ok = and_(ule(A[1], N), ule(A[2], const(7, 64)), or_(ult(A[1], N), eq(A[2], const(0, 64))))
    d = ctx.decide2(st, ok)
    new = add(t.shl(A[1], const(3, 64)), A[2])
    st.bb[rid] = (S, new if d is True else ite(ok, new, P), T)
    ctx.setreg(st, ins, TRUE if d is True else ok)
    return None


def c_consume(mult):
    def h(ctx, st, ins, args):
        A = [ctx.val(st, v, ty) for ty, v, at in args]
        rid = bb_of(ctx, st, A[0])
        S, P, T = st.bb[rid]
        n = A[1]
        if mult == 8:
            ok = and_(ule(n, const((1 << 61) - 1, 64)), ule(t.shl(n, const(3, 64)), sub(T, P)))
            n = t.shl(n, const(3, 64))
        else:
            ok = ule(n, sub(T, P))
        d = ctx.decide2(st, ok)
        st.bb[rid] = (S, add(P, n) if d is True else ite(ok, add(P, n), P), T)
        ctx.setreg(st, ins, TRUE if d is True else ok)
        return None
    return h


def c_ctor(ctx, st, ins, args):
    A = [ctx.val(st, v, ty) for ty, v, at in args]
    p = ctx.resolve_ptr(st, A[0], 'bit buffer')
    n = A[2]
    ctx.oblige(st, 'assert', ule(n, const((1 << 32) - 1, 64)), 'bit buffer longer than 2^32-1 bytes')
    d = ctx.resolve_ptr(st, A[1], 'bit buffer data')
    if d.root[0] == 'N':
        S = constarr(const(0, 8))
        ctx.oblige(st, 'bounds', eq(n, const(0, 64)), 'null bit buffer data with non-zero length')
    else:
        S, off, ln = byte_view(ctx, st, d)
        ctx.oblige(st, 'bounds', and_(ule(off, ln), ule(n, sub(ln, off))), 'bit buffer extends past its data')
        S = slice_(S, off, n)
    st.bb[p.root[1]] = (S, const(0, 64), t.shl(n, const(3, 64)))
    ctx.setreg(st, ins, None)
    return None


def byte_view(ctx, st, d):
    """(array, offset, length) of the byte object d points into"""
    if not d.idx:
        raise Unsupported('byte pointer without index')
    a = ctx.leaf_get(st, d.root, d.offs, 8)
    for i in d.idx[:-1]:
        a = select(a, i)
    if d.root[0] == 'R' and st.mem[d.root[1]].len is not None:
        ln = st.mem[d.root[1]].len
    else:
        lk = d.offs[:-1] + ('#',)
        ln = ctx.leaf_get(st, d.root, lk, 64)
        for i in d.idx[:-1]:
            ln = select(ln, i)
    return a, d.idx[-1], ln


def c_unescape(ctx, st, ins, args):
    A = [ctx.val(st, v, ty) for ty, v, at in args]     # sret, data, len
    n = A[2]
    d = ctx.resolve_ptr(st, A[1], 'data')
    if d.root[0] == 'N':
        raise Unsupported('null data')
    a, off, ln = byte_view(ctx, st, d)
    ctx.oblige(st, 'bounds', and_(ule(off, ln), ule(n, sub(ln, off))), 'UnescapeRbsp beyond its data')
    U, un = unesc(a, off, n)
    st.assume(ule(un, n))
    p = ctx.resolve_ptr(st, A[0], 'vector')
    ctx.leaf_set(st, p.root, p.offs + ('#',), un)
    ctx.leaf_set(st, p.root, p.offs + (0,), U)
    ctx.setreg(st, ins, None)
    return None


def nalu_arr(name, D, n):
    return t.uf(name, ('A', 64), D, n)


def nalu_cnt(D, n):
    return t.uf('nalu_count', 64, D, n, umax=(1 << 32))


def subterms(x):
    seen, wl = {}, [x]
    while wl:
        y = wl.pop()
        if y.id in seen:
            continue
        seen[y.id] = y
        wl += y.args
    return seen.values()


def c_findnalu(ctx, st, ins, args):
    """contract of FindNaluIndices: see specs (nalu_count / nalu_payload_start / nalu_payload_size)"""
    A = [ctx.val(st, v, ty) for ty, v, at in args]
    n = A[2]
    d = ctx.resolve_ptr(st, A[1], 'data')
    a, off, ln = byte_view(ctx, st, d)
    ctx.oblige(st, 'bounds', and_(ule(off, ln), ule(n, sub(ln, off))), 'start code search beyond its data')
    D = slice_(a, off, n)
    p = ctx.resolve_ptr(st, A[0], 'vector')
    ctx.leaf_set(st, p.root, p.offs + ('#',), nalu_cnt(D, n))
    for o, nm in ((0, 'nalu_start'), (8, 'nalu_payload_start'), (16, 'nalu_payload_size')):
        ctx.leaf_set(st, p.root, p.offs + (o,), nalu_arr(nm, D, n))
    ctx.setreg(st, ins, None)
    return None


def c_unimpl(ctx, st, ins, args):
    out = []
    for s in ctx.settle(st):
        if s.spec.mode == RUN:
            op = s.spec.proc.code[s.spec.pc]
            if op[0] != 'unimpl':
                if ctx.solver.sat(s.pc, TRUE) == 'unsat':
                    continue
                raise Violation('lockstep', 'code reports an unimplemented structure at %s where the specification expects: %s' % (ctx.where(s), pend_desc(ctx, s)), s, TRUE)
            if ctx.record:
                ctx.obl.append(('report', ctx.where(s), 'unimplemented structure reported'))
            ctx.consume(s)
        ctx.setreg(s, ins, None)
        out.append(s)
    return out


BB = {
    'BitBuffer::ReadBits(unsigned long, unsigned int&)': reader('u', lambda A: A[1], 32),
    'BitBuffer::ReadBits(unsigned long, unsigned long&)': reader('u', lambda A: A[1], 64),
    'BitBuffer::ReadUInt8(unsigned char&)': reader('u', lambda A: const(8, 64), 8),
    'BitBuffer::ReadUInt16(unsigned short&)': reader('u', lambda A: const(16, 64), 16),
    'BitBuffer::ReadUInt32(unsigned int&)': reader('u', lambda A: const(32, 64), 32),
    'BitBuffer::ReadExponentialGolomb(unsigned int&)': reader('ue', lambda A: None, 32),
    'BitBuffer::ReadSignedExponentialGolomb(int&)': reader('se', lambda A: None, 32),
    'BitBuffer::GetCurrentOffset(unsigned long*, unsigned long*)': c_offset,
    'BitBuffer::RemainingBitCount() const': c_remaining,
    'BitBuffer::Seek(unsigned long, unsigned long)': c_seek,
    'BitBuffer::ConsumeBits(unsigned long)': c_consume(1),
    'BitBuffer::ConsumeBytes(unsigned long)': c_consume(8),
    'BitBuffer::BitBuffer(unsigned char const*, unsigned long)': c_ctor,
    'more_rbsp_data(BitBuffer*)': c_more,
    'rbsp_trailing_bits(BitBuffer*)': c_trailing,
    'UnescapeRbsp(unsigned char const*, unsigned long)': c_unescape,
    'H264BitstreamParser::FindNaluIndices(unsigned char const*, unsigned long)': c_findnalu,
    'report_unimplemented(char const*, char const*)': c_unimpl,
}


# ---------------------------------------------------------------- parse procedures as contracts
def proc_contract(p):
    bbuf = '(BitBuffer*' in p.fn
    bytes_ = '(unsigned char const*, unsigned long' in p.fn

    def h(ctx, st, ins, args):
        A = [ctx.val(st, v, ty) for ty, v, at in args]
        out = []
        for s in ctx.settle(st):
            if ctx.solver.sat(s.pc, TRUE) == 'unsat':
                continue
            sp = s.spec
            op = None
            rid = bb_of(ctx, s, A[1]) if bbuf else None
            rest = A[2:] if bbuf else A[3:] if bytes_ else A[1:]
            if bytes_:
                d = ctx.resolve_ptr(s, A[1], 'data')
                if d.root[0] == 'N':
                    raise Violation('nonnull', 'null data passed to %s at %s' % (p.name, ctx.where(s)), s, TRUE)
                ba, boff, bln = byte_view(ctx, s, d)
                ctx.qinst(s, boff, A[2])
                ctx.oblige(s, 'bounds', and_(ule(boff, bln), ule(A[2], sub(bln, boff))), 'data of %s inside its buffer' % p.name)
                ctx.oblige(s, 'requires', ule(A[2], const((1 << 32) - 1, 64)), 'length of the data of %s' % p.name)
            if sp.mode == RUN:
                op = sp.proc.code[sp.pc]
                if op[0] != 'call' or op[1] != p.name:
                    raise Violation('lockstep', 'code parses %s at %s where the specification expects: %s' % (p.name, ctx.where(s), pend_desc(ctx, s)), s, TRUE)
                if ctx.record:
                    ctx.obl.append(('lockstep', ctx.where(s), 'call of %s' % p.name))
                if rid is not None:
                    bb_eq(ctx, s, rid, 'call of ' + p.name)
                eargs = op[2]
                if bytes_:
                    v = ctx.ev(s, eargs[0])
                    eargs = eargs[1:]
                    b0, o0 = v.d.get('base', v.d.get((0,))), v.d.get('off', const(0, 64))
                    ctx.oblige(s, 'requires', and_(eq(ba, b0), eq(boff, o0), eq(A[2], v.d[('#',)])), 'data of ' + p.name)
                for (nm, ty), a, e in zip(p.params, rest, eargs):
                    v = ctx.ev(s, e)
                    ctx.arg_match(s, p, nm, a, v, e)
                ctx.heap_match(s, 'call of ' + p.name)
            else:
                for (nm, ty), a in zip(p.params, rest):
                    if isinstance(a, (Ptr, PtrIte)):
                        ctx.check_null(s, ctx.resolve_ptr(s, a))
            ctx.oblige_requires(s, p, rest)
            ctx.trusted_calls.add(p.name)
            ok = fresh('ok', 0)
            mod = ctx.modifies(p)
            if mod:
                for k, base in mod:
                    cur = s.heap.get(k)
                    h0 = ctx.heap_init(k[0], k[1], base)
                    nv = fresh('%smod:%s' % ('nn:' if str(h0.val).startswith('nn:') else '', k[0]), h0.sort)
                    s.heap[k] = nv
                    if sp.mode == RUN:
                        hp = dict(sp.heap)
                        hp[k] = nv
                        sp.heap = hp
            f = s.clone()
            f.assume(not_(ok))
            ctx.store_(f, A[0], NULL, None)
            if rid is not None:
                S, P, T = f.bb[rid]
                Pf = fresh('P', 64, PMAX)
                f.bb[rid] = (S, Pf, T)
                if f.spec.mode == RUN:
                    f.spec.P = Pf
            if f.spec.mode == RUN:
                if op[4]:
                    if op[3] is not None:
                        ctx.assign_or_new(f, op[3], VH(const(0, 64), p.result))
                    ctx.consume(f)
                else:
                    f.spec.mode = FAIL
                    f.spec.chain = None
            ctx.setreg(f, ins, None)
            if 'never_fails' in p.attrs:
                f = None
            else:
                s.assume(ok)
            hdl = fresh('nn:' + p.name, 64)
            ctx.store_(s, A[0], Ptr(('H', p.result, hdl)), None)
            if rid is not None:
                S, P, T = s.bb[rid]
                P2 = fresh('P', 64, PMAX) if 'keeps_position' not in p.attrs else P
                s.bb[rid] = (S, P2, T)
                if ctx.track_pos:
                    s.assume(ule(P, P2))
                    s.assume(ule(P2, T))
                if op is not None:
                    sp.P = P2
            if 'consumes' in p.attrs:
                s.consumed = TRUE
            if op is not None:
                if op[3] is not None:
                    ctx.assign_or_new(s, op[3], VH(hdl, p.result))
                ctx.consume(s)
            ctx.assume_ensures(s, p, hdl, rest)
            ctx.setreg(s, ins, None)
            out += [s, f] if f is not None else [s]
        return out
    return h


class Task(Product):
    def __init__(self, prog, world, proc, contracts, invs, solver=None, func=None):
        Product.__init__(self, prog, world, contracts, invs, solver)
        self.proc = proc
        self.func = func or prog.bydem_one(proc.fn)
        self.term_fail = []
        self.require_term = True
        self.trusted_calls = set()
        self.specfuns = {
            'more_rbsp_data': lambda c, st, a: more_term(st.spec.S, st.spec.P, st.spec.Tt),
            'unescape': lambda c, st, a: (lambda u: VL({(0,): u[0], ('#',): u[1]}, 'std::vector<uint8_t>'))(unesc(a[0].d[(0,)], const(0, 64), a[0].d[('#',)])),
            'slice': lambda c, st, a: VL({(0,): slice_(a[0].d[(0,)], ext64(a[1]), ext64(a[2])), 'base': a[0].d[(0,)], 'off': ext64(a[1]), ('#',): ext64(a[2])}, 'std::vector<uint8_t>'),
            'byte': lambda c, st, a: VI(select(a[0].d[(0,)], ext64(a[1])), 'u8'),
            'nalu_count': lambda c, st, a: VI(nalu_cnt(a[0].d[(0,)], a[0].d[('#',)]), 'i64'),
            'nalu_payload_start': lambda c, st, a: VI(select(nalu_arr('nalu_payload_start', a[0].d[(0,)], a[0].d[('#',)]), ext64(a[1])), 'i64'),
            'nalu_payload_size': lambda c, st, a: VI(select(nalu_arr('nalu_payload_size', a[0].d[(0,)], a[0].d[('#',)]), ext64(a[1])), 'i64'),
            'remaining_bits': lambda c, st, a: VI(sub(st.spec.Tt, st.spec.P), 'i64'),
        }
        self.track_pos = 'remaining_bits' in str(proc.code)
        self.ftypes = {}
        self.rtype = proc.result
        if self.rtype:
            self.ftypes = {n: ty for o, n, ty in prog.layouts[self.rtype]['fields']}

    # -- hooks
    def silent(self, st, op):
        sp = st.spec
        if op[1] == 'rbsp_trailing_bits':
            ok = trail_ok(sp.S, sp.P, sp.Tt)
            sp.P = trail_P(sp.S, sp.P, sp.Tt)
            if op[3] is not None:
                self.assign(st, op[3], ok)
        elif op[1] == 'seek':
            sp.P = ext64(self.ev(st, op[2][0]))
        elif op[1] == 'bitbuffer':
            v = self.ev(st, op[2][0])
            sp.S, sp.Tt, sp.P = v.d[(0,)], t.shl(v.d[('#',)], const(3, 64)), const(0, 64)
        elif op[1] == 'skip_bits':
            sp.P = add(sp.P, ext64(self.ev(st, op[2][0])))
        else:
            raise Unsupported('ghost event ' + op[1])

    def arg_match(self, s, p, nm, a, v, e):
        what = 'argument %s of %s' % (nm, p.name)
        if isinstance(v, VH):
            c = eq(self.to_handle(self.resolve_ptr(s, a)), v.t)
        elif isinstance(v, VS):
            a = self.resolve_ptr(s, a)
            if a.root[0] != 'R' or a.idx or a.offs != (0,):
                raise Unsupported('struct argument')
            r = s.mem[a.root[1]]
            c = TRUE
            for off, name, ty in self.prog.layouts[v.T]['fields']:
                if mapval(ty):
                    h = r.leaves.get((off, 'has'))
                    if h is None or h.op != 'carr' or h.args[0] is not FALSE:
                        raise Violation('requires', '%s: %s is not empty' % (what, name), s, TRUE)
                    # the callee may change it
                    r = r.copy()
                    r.leaves = {k: x for k, x in r.leaves.items() if k[0] != off}
                    s.mem[a.root[1]] = r
                    continue
                w = v.d.get(name, zero_of(ty))
                w = ext64(w)
                x = r.leaves.get((off,))
                if x is None:
                    if r.default != 'zero':
                        raise Violation('requires', 'uninitialised field %s in %s' % (name, what), s, TRUE)
                    x = const(0, 64)
                x = self.to_handle(x) if isinstance(x, (Ptr, PtrIte)) else x
                c = and_(c, eq(zext(x, 64) if x.sort < 64 else x, w))
        elif isinstance(v, VL):
            if isinstance(a, Agg):
                c = TRUE
                for off, name, ty in self.prog.layouts[v.ty]['fields']:
                    w = self.ev(s, ('attr', e, name))
                    x = a.d.get((off,))
                    if x is None:
                        raise Unsupported('aggregate argument')
                    c = and_(c, eq(zext(x, 64), ext64(w)))
            elif isinstance(a, Ptr) and a.root[0] == 'R' and v.ty in self.prog.layouts:
                c = TRUE
                for off, name, ty in self.prog.layouts[v.ty]['fields']:
                    w = self.ev(s, ('attr', e, name))
                    x = self.leaf_get(s, a.root, (off,), ITY[ty][1])
                    c = and_(c, eq(zext(x, 64), ext64(w)))
            else:
                raise Unsupported(what)
        else:
            c = eq(zext(a, 64), ext64(v))
        self.oblige(s, 'requires', c, what)

    def req_exprs(self, p):
        if not hasattr(p, 'reqs'):
            import ast
            import spec
            p.reqs = []
            for x in p.attrs.get('requires', []):
                c = spec.Compiler(self.world, spec.Proc('requires'), None)
                p.reqs.append((c.expr(ast.parse(x, mode='eval').body), x))
        return p.reqs

    def oblige_requires(self, s, p, rest):
        if not self.req_exprs(p):
            return
        env = {}
        for (nm, ty), a in zip(p.params, rest):
            if isinstance(a, t.T):
                env[nm] = VI(a, {0: 'u8', 8: 'u8', 16: 'u16', 32: 'u32', 64: 'u64'}[a.sort])
            elif isinstance(a, (Ptr, PtrIte)):
                try:
                    a = self.resolve_ptr(s, a)
                    env[nm] = VH(self.to_handle(a), a.root[1] if a.root[0] == 'H' else None)
                except Unsupported:
                    pass
        old = s.spec.env
        s.spec.env = env
        cs = [(self.evb(s, e), x) for e, x in self.req_exprs(p)]
        s.spec.env = old
        for c, x in cs:
            self.oblige(s, 'requires', c, 'precondition of %s: %s' % (p.name, x))

    def qinst(self, st, *terms):
        """instantiate the contract of the start code search at the indices occurring in terms"""
        for x in terms:
            for y in subterms(x):
                if y.op == 'select' and y.args[0].op == 'uf' and y.args[0].val in ('nalu_payload_start', 'nalu_payload_size'):
                    D, n = y.args[0].args
                    i = y.args[1]
                    s, z = nalu_arr('nalu_payload_start', D, n), nalu_arr('nalu_payload_size', D, n)
                    ps, sz = select(s, i), select(z, i)
                    st.assume(or_(not_(ult(i, nalu_cnt(D, n))), and_(ule(ps, n), ule(sz, sub(n, ps)))))

    def modifies(self, p):
        out = []
        for m in p.attrs.get('modifies', []):
            T, f = m.rsplit('.', 1)
            off, ty = self.fields(T)[1][f]
            if mapval(ty):
                out += [((T, (off, 0)), 64), ((T, (off, 'has')), 0)]
            else:
                out.append(((T, (off,)), ITY[ty][1]))
        return out

    def assume_ensures(self, st, p, hdl, rest):
        pass

    def assign_or_new(self, st, lv, v):
        self.assign(st, lv, v)

    def heap_match(self, st, what):
        for k in set(st.heap) | set(st.spec.heap):
            a, b = st.heap.get(k), st.spec.heap.get(k)
            if a is b:
                continue
            s = (a if a is not None else b).sort
            while isinstance(s, tuple):
                s = s[1]
            if a is None:
                a = self.heap_init(k[0], k[1], s)
            if b is None:
                b = self.heap_init(k[0], k[1], s)
            nm = self.fields(k[0])[0].get(k[1][0], ('?',))[0]
            self.oblige(st, 'frame', eq(a, b), '%s: shared state %s.%s' % (what, k[0], nm))

    # -- entry
    def initial(self):
        f = self.func
        f.analyse()
        sig = self.sigparams()
        st = State()
        st.mem, st.heap, st.bb = {}, {}, {}
        st.pc, st.lits = (), frozenset()
        st.ev, st.consumed, st.nalloc, st.tags = None, FALSE, 0, None
        sp = Spec()
        sp.proc, sp.pc, sp.mode, sp.heap, sp.chain, sp.passed = self.proc, 0, RUN, {}, None, frozenset()
        self.active = frozenset()
        sp.P, sp.S, sp.Tt = const(0, 64), None, None
        env = {}
        regs = {}
        params = list(f.params)
        k = 0
        self.retkind = 'val'
        if params and 'sret' in str(params[0][2]):
            st.mem['ret'] = Region(None, 'undef', {})
            regs[params[0][1]] = Ptr(('R', 'ret'))
            self.retkind = 'sret'
            k = 1
        names = list(self.proc.params)
        self.outs = []
        rest = params[k:]
        i = 0
        for sty in sig:
            pt, pr, pa = rest[i]
            i += 1
            if sty == 'BitBuffer*':
                T = t.var('T', 64, 1 << 35)
                P = t.var('P0', 64, 1 << 35)
                S = t.var('S', BYTES)
                st.mem['bb'] = Region('BitBuffer', 'undef', {}, None)
                st.bb['bb'] = (S, P, T)
                st.assume(ule(P, T))
                if "'seek'" in str(self.proc.code):
                    st.assume(eq(t.band(T, const(7, 64)), const(0, 64)))    # a bit buffer holds whole bytes
                sp.P, sp.S, sp.Tt = P, S, T
                regs[pr] = Ptr(('R', 'bb'))
                self.bbparam = 'bb'
                continue
            if sty == 'unsigned char const*':
                n = t.var('length', 64, (1 << 32) - 1)
                D = t.var('data', BYTES)
                st.mem['data'] = Region(None, 'undef', {(0,): D}, n, None, True)
                regs[pr] = Ptr(('R', 'data'), (0,), (const(0, 64),), 1, True)
                # the length parameter follows
                regs[rest[i][1]] = n
                i += 1
                env['data'] = VL({('#',): n, (0,): D}, 'std::vector<uint8_t>')
                env['length'] = VI(n, 'u64')
                sp.S, sp.Tt, sp.P = D, t.shl(n, const(3, 64)), const(0, 64)
                self.sig_skip_len = True
                continue
            if sty == 'LENGTH':
                continue
            nm, pty = names.pop(0)
            if sty.endswith('&') or sty.endswith('*'):
                T = sty[:-1].strip()
                if pty == 'out8':
                    v = t.var('old:' + nm, 8)
                    st.mem['out:' + nm] = Region(None, 'undef', {(0,): v})
                    regs[pr] = Ptr(('R', 'out:' + nm))
                    env[nm] = VI(v, 'u8')
                    self.outs.append(nm)
                    continue
                h = t.var('nn:' + nm, 64)
                regs[pr] = Ptr(('H', T, h))
                env[nm] = VH(h, T)
            elif sty in ITY:
                w = ITY[sty][1]
                if pt.k == 'int' and pt.n != w:
                    w = pt.n
                v = t.var('arg:' + nm, w)
                regs[pr] = v
                env[nm] = VI(v, sty)
            elif pt.k == 'int':
                d = {}
                for o, fn, fty in self.prog.layouts[sty]['fields']:
                    v = t.var('arg:%s.%s' % (nm, fn), ITY[fty][1], 1 if fty in ('bool', '_Bool') else None)
                    d[(o,)] = v
                    env['%s.%s' % (nm, fn)] = VI(v, fty)
                regs[pr] = Agg(d)
                env[nm] = VL({}, sty)
            elif pt.k == 'ptr':      # by-value aggregate passed in memory
                rid = 'arg:' + nm
                lv = {}
                for o, fn, fty in self.prog.layouts[sty]['fields']:
                    v = t.var('arg:%s.%s' % (nm, fn), ITY[fty][1], 1 if fty in ('bool', '_Bool') else None)
                    lv[(o,)] = v
                    env['%s.%s' % (nm, fn)] = VI(v, fty)
                st.mem[rid] = Region(sty, 'undef', lv)
                regs[pr] = Ptr(('R', rid))
                env[nm] = VL({}, sty)
            else:
                raise Unsupported('parameter ' + sty)
        for n, ty in self.ftypes.items():
            if n not in env or True:
                if mapval(ty) is None:
                    try:
                        env.setdefault(n, zero_of(ty))
                    except KeyError:
                        pass
                    if n in [x for x, _ in self.proc.params]:
                        pass
        sp.env = env
        st.spec = sp
        for e, x in self.req_exprs(self.proc):
            st.assume(self.evb(st, e))
        st.frames = [Frame(f, f.entry.name, 0, regs)]
        return st

    def sigparams(self):
        m = re.match(r'.*?\((.*)\)( const)?$', self.proc.fn)
        ps = [x.strip() for x in m.group(1).split(',')] if m.group(1).strip() else []
        out = []
        i = 0
        while i < len(ps):
            out.append(ps[i])
            if ps[i] == 'unsigned char const*':
                i += 1
            i += 1
        return out

    # -- exit
    def on_return(self, st, v):
        if self.retkind == 'sret':
            p = st.mem['ret'].leaves.get((0,), NULL)
            self.ret_ptr(st, p)
        else:
            self.ret_val(st, v)

    def ret_ptr(self, st, p):
        if isinstance(p, PtrIte):
            a, b = st.clone(), st
            a.assume(p.c)
            b.assume(not_(p.c))
            self.ret_ptr(a, p.a)
            self.ret_ptr(b, p.b)
            return
        if isinstance(p, Ptr) and p.root[0] == 'H':
            z = eq(p.root[2], const(0, 64))
            if z is not FALSE:
                a, b = st.clone(), st
                a.assume(z)
                b.assume(not_(z))
                if self.solver.sat(a.pc, TRUE) != 'unsat':
                    self.ret_null(a)
                if self.solver.sat(b.pc, TRUE) != 'unsat':
                    self.ret_handle(b, p)
                return
            self.ret_handle(st, p)
            return
        if p.root[0] == 'N':
            self.ret_null(st)
            return
        self.ret_obj(st, p)

    def ret_null(self, st):
        if 'never_fails' in self.proc.attrs:
            self.unreachable(st, 'ensures', 'null result')
            return
        self.fail_returns += 1
        if self.record:
            self.obl.append(('reject', self.where(st), 'rejected input is one the specification rejects'))
        for s in self.settle(st):
            self.must_fail(s, 0)
            if s.spec.mode == FAIL:
                self.heap_match(s, 'on failure')

    def must_fail(self, st, depth):
        """the ghost, run alone on arbitrary further input, rejects"""
        if st.spec.mode != RUN:
            return
        if self.solver.sat(st.pc, TRUE) == 'unsat':
            return
        op = st.spec.proc.code[st.spec.pc]
        if op[0] == 'unimpl' or op[0] == 'ret' or depth > 12:
            raise Violation('reject', 'input rejected although the specification continues with: ' + self.opstr(st, op), st, TRUE)
        if op[0] == 'read':
            k = op[1]
            tag = 'rd:%s:%d' % (st.spec.proc.name, st.spec.pc)
            s = st.clone()
            self.assign_or_new(s, op[3], VI(fresh(tag, 32), 'i32' if k == 'se' else 'u32'))
            s.spec.P = fresh('P', 64, PMAX)
            self.consume(s)
            for q in self.settle(s):
                self.must_fail(q, depth + 1)
            return
        if op[0] == 'call':
            p = self.world.procs[op[1]]
            s = st.clone()
            if op[3] is not None:
                self.assign_or_new(s, op[3], VH(fresh('nn:' + p.name, 64), p.result))
            s.spec.P = fresh('P', 64, PMAX)
            self.consume(s)
            for q in self.settle(s):
                self.must_fail(q, depth + 1)
            if op[4]:
                raise Violation('reject', 'input rejected although the specification continues', st, TRUE)
            return
        raise Violation('reject', 'input rejected although the specification continues with: ' + self.opstr(st, op), st, TRUE)

    def at_ret(self, st, what):
        """states whose ghost reached its return"""
        out = []
        for s in self.settle(st):
            if self.solver.sat(s.pc, TRUE) == 'unsat':
                continue
            if s.spec.mode == FAIL:
                raise Violation('accept', '%s although the specification rejects the input' % what, s, TRUE)
            op = s.spec.proc.code[s.spec.pc]
            if op[0] != 'ret':
                raise Violation('lockstep', '%s where the specification expects: %s' % (what, self.opstr(s, op)), s, TRUE)
            out.append((s, op))
        return out

    def ret_handle(self, st, p):
        for s, op in self.at_ret(st, 'a result is returned'):
            self.success_returns += 1
            v = self.ev(s, op[1]) if op[1] is not None else None
            if not isinstance(v, VH):
                raise Violation('lockstep', 'returns the result of a callee where the specification builds its own', s, TRUE)
            self.oblige(s, 'ensures', eq(p.root[2], v.t), 'returned object')
            self.common_ensures(s)

    def ret_val(self, st, v):
        for s, op in self.at_ret(st, 'returns'):
            self.success_returns += 1
            if op[1] is not None:
                w = self.ev(s, op[1])
                if isinstance(w, t.T):
                    self.oblige(s, 'ensures', eq(v, w) if v.sort == 0 else eq(ne(v, const(0, v.sort)), w), 'returned value')
                else:
                    self.oblige(s, 'ensures', eq(zext(v, 64), ext64(w)), 'returned value')
            for nm in self.outs:
                self.oblige(s, 'ensures', eq(s.mem['out:' + nm].leaves[(0,)], trunc(ext64(s.spec.env[nm]), 8)), 'output ' + nm)
            self.common_ensures(s)

    def common_ensures(self, s):
        if 'bb' in s.bb:
            self.oblige(s, 'ensures', eq(s.bb['bb'][1], s.spec.P), 'position after parsing')
        self.heap_match(s, 'on return')

    def leafval(self, st, r, key, like):
        v = r.leaves.get(key)
        if v is None:
            if r.default == 'zero':
                return self.zero_like(like)
            return fresh('undef', like.sort)
        if isinstance(v, (Ptr, PtrIte)):
            return self.to_handle(v)
        return v

    def ret_obj(self, st, p):
        r = st.mem[p.root[1]]
        if r.type != self.rtype:
            raise Violation('ensures', 'returned object of type %s' % r.type, st, TRUE)
        for s, op in self.at_ret(st, 'a result is returned'):
            self.success_returns += 1
            env = s.spec.env
            for off, name, ty in self.prog.layouts[self.rtype]['fields']:
                if name not in env:
                    continue
                self.field_ensures(s, r, off, name, ty, env[name])
            for e, x in self.cond_exprs(self.rtype):
                self.oblige(s, 'invariant', self.evb(s, e), 'data invariant ' + x)
            self.common_ensures(s)

    def elem_inv(self, st, lv, x):
        """a list of a result only ever grows by elements that satisfy its invariant"""
        inv = self.invs.get(self.rtype, {}).get(lv[1]) if self.rtype and lv[0] == 'name' else None
        if inv and inv.get('elem_nonnull'):
            self.oblige(st, 'invariant', ne(x, const(0, 64)), 'data invariant: elements of %s != null' % lv[1])

    def cond_exprs(self, T):
        import ast
        import spec
        c = spec.Compiler(spec.World(), spec.Proc('invariant'), None)
        return [(c.expr(ast.parse(x, mode='eval').body), x) for x in self.world.conds.get(T, [])]

    def field_ensures(self, s, r, off, name, ty, w):
        sk = 'field ' + name
        if isinstance(w, VI):
            v = self.leafval(s, r, (off,), w.t)
            if v.sort != w.t.sort:
                v = trunc(v, w.t.sort) if v.sort > w.t.sort else zext(v, w.t.sort)
            self.oblige(s, 'ensures', eq(v, w.t), sk)
        elif isinstance(w, VH):
            v = self.leafval(s, r, (off,), w.t)
            self.oblige(s, 'ensures', eq(v, w.t), sk)
        elif isinstance(w, VL) and velem(ty):
            self.list_eq(s, lambda k, like: self.leafval(s, r, (off,) + k, like), w, sk)
        elif isinstance(w, VL):
            m = re.match(r'(.*)\[(\d+)\]$', ty)
            if m:
                a = self.leafval(s, r, (off, 0), w.d[(0,)])
                i = fresh('k', 64, int(m.group(2)) - 1)
                self.oblige(s, 'ensures', eq(select(a, i), select(w.d[(0,)], i)), sk)
        inv = self.invs.get(self.rtype, {}).get(name)
        if inv:
            if 'max' in inv and isinstance(w, VI):
                self.oblige(s, 'invariant', ule(w.t, const(inv['max'], w.t.sort)), 'data invariant %s <= %d' % (name, inv['max']))
            if inv.get('nonnull'):
                self.oblige(s, 'invariant', ne(w.t, const(0, 64)), 'data invariant %s != null' % name)
            if 'len' in inv:
                self.oblige(s, 'invariant', eq(w.d[('#',)], const(inv['len'], 64)), 'data invariant size(%s)' % name)

    def list_eq(self, s, get, w, what):
        """equal lengths and equal elements below the length"""
        d, e = vlen_dim(w.ty)
        n = w.d[('#',)]
        m = get(('#',), n)
        self.oblige(s, 'ensures', eq(m, n), what + ' size')
        idx = []
        guard = []
        k = ()
        for lvl in range(d):
            i = fresh('k', 64, VEC_MAX)
            ln = w.d[(0,) * lvl + ('#',)]
            a = get((0,) * lvl + ('#',), ln)
            for j in idx:
                ln, a = select(ln, j), select(a, j)
            if lvl:
                s2 = s.clone()
                for g in guard:
                    s2.assume(g)
                self.oblige(s2, 'ensures', eq(a, ln), what + ' inner size')
            guard.append(ult(i, ln))
            idx.append(i)
        a, b = get((0,) * d, w.d[(0,) * d]), w.d[(0,) * d]
        if a is b:
            if self.record:
                self.obl.append(('ensures', self.where(s), what + ' elements'))
            return
        for j in idx:
            a, b = select(a, j), select(b, j)
        s2 = s.clone()
        for g in guard:
            s2.assume(g)
        self.oblige(s2, 'ensures', eq(a, b), what + ' elements')

    def run(self):
        t0 = time.time()
        st = self.initial()
        self.explore([st])
        if self.success_returns == 0 and 'never_succeeds' not in self.proc.attrs:
            raise Violation('vacuity', 'no execution returns a result', None, TRUE)
        return {'obligations': len(self.obl), 'time': time.time() - t0}


from product import vlen_dim   # noqa
