"""Lockstep execution of code and ghost specification."""
import time
from engine import *          # noqa: F401,F403
from engine import unwritten
from engine import Ctx, ForkOn, Spec, State, Frame, Ptr, PtrIte, Agg, NULL, Region, VI, VH, VL, VS, VMap, ITY, Violation, LoopFail, Budget, VEC_MAX, ptee, velem, mapval, nest_store, same_ptr
import terms as t
from terms import const, TRUE, FALSE, and_, or_, not_, eq, ne, ite, ult, ule, zext, sext, trunc, add, sub, select, store, fresh, constarr
from ll import Unsupported

import os
DEBUG = os.environ.get('VP_DEBUG')
RUN, FAIL, NONE = 'RUN', 'FAIL', 'NONE'


def ext64(v):
    """spec integer value as a signed 64-bit term"""
    if isinstance(v, t.T):
        return zext(v, 64) if v.sort == 0 else v
    if isinstance(v, VH):
        return v.t
    if isinstance(v, VL):
        raise Unsupported('list used as integer')
    s, n = ITY[v.ty]
    if v.t.sort == 64:
        return v.t
    return zext(v.t, 64) if s == 'u' else sext(v.t, 64)


def vlen_dim(ty):
    d = 0
    while True:
        e = velem(ty)
        if e is None:
            return d, ty
        d, ty = d + 1, e


def empty_list(ty):
    """leaves of an empty vector of C++ type ty"""
    d, e = vlen_dim(ty)
    out = {}
    w = 64 if ptee(e) else ITY[e][1]
    for k in range(d):
        v = const(0, 64)
        for _ in range(k):
            v = constarr(v)
        out[(0,) * k + ('#',)] = v
    v = const(0, w)
    for _ in range(d):
        v = constarr(v)
    out[(0,) * d] = v
    return VL(out, ty)


def zero_of(ty):
    if velem(ty):
        return empty_list(ty)
    p = ptee(ty)
    if p:
        return VH(const(0, 64), p)
    m = re.match(r'(.*)\[(\d+)\]$', ty)
    if m:
        return VL({(0,): constarr(const(0, ITY[m.group(1)][1]))}, ty)
    return VI(const(0, ITY[ty][1]), ty)


class Product(Ctx):
    # =============================================================== spec side
    def ev(self, st, e):
        k = e[0]
        env = st.spec.env
        if k == 'int':
            return VI(const(e[1], 64), 'i64')
        if k == 'bool':
            return TRUE if e[1] else FALSE
        if k == 'null':
            return VH(const(0, 64), None)
        if k == 'name':
            v = env.get(e[1])
            if v is None:
                raise Unsupported('spec name %s undefined in %s' % (e[1], st.spec.proc.name))
            return v
        if k == 'attr':
            if e[1][0] == 'name':
                v = env.get(e[1][1] + '.' + e[2])
                if v is not None:
                    return v
            if e[1][0] == 'attr':
                b = self.ev(st, e[1][1])
                if isinstance(b, VH) and b.T and (e[1][2] + '.' + e[2]) in self.fields(b.T)[1]:
                    return self.spec_field(st, b, e[1][2] + '.' + e[2])
            b = self.ev(st, e[1])
            if isinstance(b, VH):
                return self.spec_field(st, b, e[2])
            raise Unsupported('attr %s' % (e,))
        if k == 'index':
            b = self.ev(st, e[1])
            i = ext64(self.ev(st, e[2]))
            if isinstance(b, VMap):
                a = self.sheap(st, b.T, (b.off, 0), 64)
                return VH(select(select(a, b.h), i), b.vT)
            if isinstance(b, VL):
                ty = b.ty
                el = velem(ty)
                if el is None:
                    m = re.match(r'(.*)\[\d*\]$', ty)
                    return VI(select(b.d[(0,)], i), m.group(1))
                if velem(el):
                    return VL({kk[1:]: select(v, i) for kk, v in b.d.items() if len(kk) > 1}, el)
                x = select(b.d[(0,)], i)
                return VH(x, ptee(el)) if ptee(el) else VI(x, el)
            raise Unsupported('index %s' % (e,))
        if k == 'bin':
            a, b = ext64(self.ev(st, e[2])), ext64(self.ev(st, e[3]))
            op = e[1]
            if op == '+':
                r = add(a, b)
            elif op == '-':
                r = sub(a, b)
            elif op == '*':
                r = t.mul(a, b)
            elif op == '//':
                r = t.sdiv(a, b)
            elif op == '%':
                r = t.srem(a, b)
            elif op == '<<':
                r = t.shl(a, b)
            elif op == '>>':
                r = t.lshr(a, b)
            elif op == '&':
                r = t.band(a, b)
            elif op == '|':
                r = t.bor(a, b)
            elif op == '^':
                r = t.bxor(a, b)
            return VI(r, 'i64')
        if k == 'inv':
            return VI(t.bxor(ext64(self.ev(st, e[1])), const(-1, 64)), 'i64')
        if k == 'cmp':
            a, b = self.ev(st, e[2]), self.ev(st, e[3])
            x, y = ext64(a), ext64(b)
            op = e[1]
            if op == '==':
                return eq(x, y)
            if op == '!=':
                return ne(x, y)
            if op == '<':
                return t.slt(x, y)
            if op == '<=':
                return t.sle(x, y)
            if op == '>':
                return t.slt(y, x)
            if op == '>=':
                return t.sle(y, x)
        if k == 'not':
            return not_(self.evb(st, e[1]))
        if k == 'and':
            return and_(*[self.evb(st, x) for x in e[1]])
        if k == 'or':
            return or_(*[self.evb(st, x) for x in e[1]])
        if k == 'ite':
            c = self.evb(st, e[1])
            a, b = self.ev(st, e[2]), self.ev(st, e[3])
            if isinstance(a, t.T):
                return ite(c, a, self.evb(st, e[3]))
            if isinstance(a, VH):
                return VH(ite(c, a.t, b.t), a.T or b.T)
            return VI(ite(c, ext64(a), ext64(b)), 'i64')
        if k == 'mapin':
            m = self.ev(st, e[2])
            i = ext64(self.ev(st, e[1]))
            return select(select(self.sheap(st, m.T, (m.off, 'has'), 0), m.h), i)
        if k == 'fun':
            return self.evfun(st, e)
        raise Unsupported('spec expr %s' % (e,))

    def evb(self, st, e):
        v = self.ev(st, e)
        if isinstance(v, t.T) and v.sort == 0:
            return v
        x = ext64(v)
        return ne(x, const(0, 64))

    def evfun(self, st, e):
        f = e[1]
        if f == 'len':
            v = self.ev(st, e[2][0])
            return VI(v.d[('#',)], 'i64')
        if f == 'last':
            v = self.ev(st, e[2][0])
            el = velem(v.ty)
            return VI(select(v.d[(0,)], sub(v.d[('#',)], const(1, 64))), el)
        if f == 'clog2':
            a = [ext64(self.ev(st, x)) for x in e[2]]
            if len(a) == 1:
                a.append(const(1, 64))
            return VI(t.clog2r(a[0], a[1]), 'u32')
        if f == 'u32':
            return VI(trunc(ext64(self.ev(st, e[2][0])), 32), 'u32')
        if f == 'u8':
            return VI(trunc(ext64(self.ev(st, e[2][0])), 8), 'u8')
        if f == 'i32':
            return VI(trunc(ext64(self.ev(st, e[2][0])), 32), 'i32')
        if f == 'ult':
            return ult(ext64(self.ev(st, e[2][0])), ext64(self.ev(st, e[2][1])))
        if f == 'udiv':
            return VI(t.udiv(ext64(self.ev(st, e[2][0])), ext64(self.ev(st, e[2][1]))), 'i64')
        if f == 'urem':
            return VI(t.urem(ext64(self.ev(st, e[2][0])), ext64(self.ev(st, e[2][1]))), 'i64')
        if f == 'b2i':
            return VI(zext(self.evb(st, e[2][0]), 64), 'i64')
        if f == 'position':
            return VI(st.spec.P, 'i64')
        if f == 'total_bits':
            return VI(st.spec.Tt, 'i64')
        if f == 'bit':           # bit(data, k): k-th bit of a byte array, MSB first
            d = self.ev(st, e[2][0])
            k = ext64(self.ev(st, e[2][1]))
            return VI(t.uf('bit', 64, d.d[(0,)], k, umax=1), 'i64')
        if f == 'struct':
            T = e[2][0][1]
            return VS({k: self.ev(st, x) for k, x in (e[3] if len(e) > 3 else {}).items()}, T)
        h = self.specfuns.get(f) if hasattr(self, 'specfuns') else None
        if h:
            return h(self, st, [self.ev(st, x) for x in e[2]])
        raise Unsupported('spec function ' + f)

    def sheap(self, st, T, offs, base):
        v = st.spec.heap.get((T, offs))
        if v is None:
            v = self.heap_init(T, offs, base)
        return v

    def spec_field(self, st, h, name):
        if h.T is None:
            raise Unsupported('field of untyped handle')
        _, byname = self.fields(h.T)
        if name not in byname:
            raise Unsupported('no field %s in %s' % (name, h.T))
        off, ty = byname[name]
        mv = mapval(ty)
        if mv:
            return VMap(h.T, off, h.t, mv)
        z = zero_of(ty)
        if isinstance(z, VL):
            d = {}
            for k, v in z.d.items():
                s = v.sort
                b = s
                while isinstance(b, tuple):
                    b = b[1]
                d[k] = select(self.sheap(st, h.T, (off,) + k, b), h.t)
            return VL(d, ty)
        x = select(self.sheap(st, h.T, (off,), z.t.sort), h.t)
        return VH(x, z.T) if isinstance(z, VH) else VI(x, ty)

    def assign(self, st, lv, v):
        sp = st.spec
        if lv[0] == 'attr' and lv[1][0] == 'name' and (lv[1][1] + '.' + lv[2]) in sp.env:
            lv = ('name', lv[1][1] + '.' + lv[2])
        if lv[0] == 'name':
            old = sp.env.get(lv[1])
            env = dict(sp.env)
            ft = self.ftypes.get(lv[1])
            if ft is not None and not velem(ft):
                if ptee(ft):
                    v = VH(ext64(v), ptee(ft))
                else:
                    w = ITY[ft][1]
                    v = VI(v.t if isinstance(v, VI) and v.t.sort == w else trunc(ext64(v), w), ft)
            elif ft is not None:
                if not isinstance(v, VL):
                    raise Unsupported('assign to list ' + lv[1])
                v = VL(v.d, ft)
            elif isinstance(v, t.T):
                v = VI(zext(v, 64), 'i64')
            elif isinstance(v, VI) and v.ty != 'i64':
                v = VI(ext64(v), 'i64')
            env[lv[1]] = v
            sp.env = env
            return
        if lv[0] == 'attr':
            if lv[1][0] == 'attr':
                lv = ('attr', lv[1][1], lv[1][2] + '.' + lv[2])
            h = self.ev(st, lv[1])
            _, byname = self.fields(h.T)
            off, ty = byname[lv[2]]
            w = 64 if ptee(ty) else ITY[ty][1]
            a = self.sheap(st, h.T, (off,), w)
            hp = dict(sp.heap)
            hp[(h.T, (off,))] = store(a, h.t, trunc(ext64(v), w))
            sp.heap = hp
            return
        if lv[0] == 'index':
            b = self.ev(st, lv[1])
            i = ext64(self.ev(st, lv[2]))
            if isinstance(b, VMap):
                hp = dict(sp.heap)
                self.oblige(st, 'invariant', ne(ext64(v), const(0, 64)), 'stored parameter set is not null')
                a = self.sheap(st, b.T, (b.off, 0), 64)
                hp[(b.T, (b.off, 0))] = store(a, b.h, store(select(a, b.h), i, ext64(v)))
                a = self.sheap(st, b.T, (b.off, 'has'), 0)
                hp[(b.T, (b.off, 'has'))] = store(a, b.h, store(select(a, b.h), i, TRUE))
                sp.heap = hp
                return
            if isinstance(b, VL):
                w = b.d[(0,)].sort[1]
                d = dict(b.d)
                d[(0,)] = store(d[(0,)], i, trunc(ext64(v), w))
                env = dict(sp.env)
                env[lv[1][1]] = VL(d, b.ty)
                sp.env = env
                return
        raise Unsupported('spec assignment %s' % (lv,))

    def append(self, st, lv, v):
        sp = st.spec
        l = self.ev(st, lv)
        n = l.d[('#',)]
        d = dict(l.d)
        if isinstance(v, VL):
            for k, x in v.d.items():
                d[(0,) + k] = store(d[(0,) + k], n, x)
        else:
            w = d[(0,)].sort[1]
            x = v.t if isinstance(v, (VI, VH)) and v.t.sort == w else trunc(ext64(v), w)
            self.elem_inv(st, lv, x)
            if getattr(self, 'store0', False) or not (x.op == 'const' and x.val == 0):
                d[(0,)] = store(d[(0,)], n, x)
        d[('#',)] = add(n, const(1, 64))
        nl = VL(d, l.ty)
        if lv[0] == 'name':
            env = dict(sp.env)
            env[lv[1]] = nl
            sp.env = env
            return
        raise Unsupported('append target')

    def elem_inv(self, st, lv, x):
        pass

    def append_last(self, st, lv, v):
        """append v to the last row of a list of lists"""
        sp = st.spec
        l = self.ev(st, lv)
        d = dict(l.d)
        i = sub(d[('#',)], const(1, 64))
        ln = select(d[(0, '#')], i)
        w = d[(0, 0)].sort[1][1]
        x = v.t if isinstance(v, (VI, VH)) and v.t.sort == w else trunc(ext64(v), w)
        d[(0, 0)] = store(d[(0, 0)], i, store(select(d[(0, 0)], i), ln, x))
        d[(0, '#')] = store(d[(0, '#')], i, add(ln, const(1, 64)))
        env = dict(sp.env)
        env[lv[1]] = VL(d, l.ty)
        sp.env = env

    def grow(self, st, lv, n):
        """extend a list with zeros to at least n elements (elements beyond the length are zero)"""
        l = self.ev(st, lv)
        d = dict(l.d)
        m = d[('#',)]
        d[('#',)] = ite(ult(m, n), n, m)
        env = dict(st.spec.env)
        env[lv[1]] = VL(d, l.ty)
        st.spec.env = env

    def advance(self, st, level):
        """run silent, determined ghost steps"""
        sp = st.spec
        n = 0
        while sp.mode == RUN:
            n += 1
            if n > 3000:
                raise Unsupported('ghost program does not stop')
            op = sp.proc.code[sp.pc]
            k = op[0]
            sp.chain = (sp.chain, sp.snap())
            if k == 'event':
                self.silent(st, op)
                sp.pc += 1
                continue
            if k in ('read', 'call', 'ret', 'unimpl', 'print'):
                return
            if k == 'loop':
                if sp.pc in self.active:
                    sp.passed = sp.passed | {sp.pc}
                sp.pc += 1
            elif k == 'jmp':
                sp.pc = op[1]
            elif k == 'assign':
                self.assign(st, op[1], self.ev(st, op[2]))
                sp.pc += 1
            elif k == 'append':
                self.append(st, op[1], self.ev(st, op[2]))
                sp.pc += 1
            elif k == 'append_row':
                l = self.ev(st, op[1])
                self.append(st, op[1], empty_list(velem(l.ty)))
                sp.pc += 1
            elif k == 'append_last':
                self.append_last(st, op[1], self.ev(st, op[2]))
                sp.pc += 1
            elif k == 'grow':
                self.grow(st, op[1], ext64(self.ev(st, op[2])))
                sp.pc += 1
            elif k == 'clear':
                self.assign(st, op[1], empty_list(self.ev(st, op[1]).ty))
                sp.pc += 1
            elif k == 'br':
                c = self.evb(st, op[1])
                if c.op != 'const':
                    self.conds.append(c)
                d = self.decide(st, c) if not level else self.decide2(st, c)
                if d is None:
                    return
                sp.pc = op[2] if d else op[3]
            elif k == 'failif':
                c = self.evb(st, op[1])
                d = self.decide(st, c) if not level else self.decide2(st, c)
                if d is None:
                    return
                if d:
                    sp.mode = FAIL
                    sp.chain = None
                else:
                    sp.pc += 1
            elif k == 'fail':
                sp.mode = FAIL
                sp.chain = None
            else:
                raise Unsupported('ghost op ' + k)

    def settle(self, st):
        """advance the ghost to its next event; case-split where the path
        condition does not determine a ghost branch"""
        out = []
        wl = [st]
        while wl:
            s = wl.pop()
            self.advance(s, 1)
            sp = s.spec
            if sp.mode != RUN:
                out.append(s)
                continue
            op = sp.proc.code[sp.pc]
            if op[0] in ('br', 'failif'):
                c = self.evb(s, op[1])
                a, b = s, s.clone()
                a.assume(c)
                b.assume(not_(c))
                wl += [b, a]
                if len(wl) + len(out) > 64:
                    raise Unsupported('too many ghost case splits')
                continue
            out.append(s)
        return out

    def consume(self, st):
        """the pending ghost event has been matched"""
        st.spec.pc += 1
        st.spec.chain = None

    # =============================================================== calls
    def setreg(self, st, ins, v):
        f = st.frames[-1]
        if ins.res:
            f.regs[ins.res] = v
        f.idx += 1

    def do_call(self, st, ins):
        """returns list of successor states (already advanced past the call), or None if st itself continues"""
        callee, args = ins.a
        g = self.cur_mod(st).globals.get(callee)
        if g and g[0] == 'alias':
            callee = g[1]
        name = callee.lstrip('@').strip('"')
        if name.startswith('__vp_'):
            return self.vp_call(st, ins, name, args)
        if name.startswith('llvm.'):
            return self.llvm_call(st, ins, name, args)
        key = callee if callee in self.prog.dem else callee.lstrip('@')
        dem = self.prog.dem.get(key, name)
        h = self.contracts.get(dem)
        if h is not None and dem not in self.noinline.get('off', ()):
            return h(self, st, ins, args)
        if name in ('__assert_fail', 'abort', '__stack_chk_fail', '_exit', 'exit'):
            self.unreachable(st, 'assert', 'assertion failure (%s)' % name)
            return []
        if name in ('fprintf', 'printf', 'fputc', 'fputs', 'putc', 'fwrite', 'puts', 'putchar', 'fflush', 'snprintf'):
            if self.fmt_check:
                self.fmt_check(self, st, ins, name, args)
            if name == 'snprintf':
                return self.ext_snprintf(st, ins, args)
            self.trusted.add('libc ' + name)
            for ty, v, at in args:
                x = self.val(st, v, ty)
                if ty.k == 'ptr' and isinstance(x, Ptr) and x.root[0] == 'N':
                    raise Violation('nonnull', 'null pointer passed to %s at %s' % (name, self.where(st)), st, TRUE)
            self.setreg(st, ins, fresh('ioret', 32))
            return None
        if name == '_Znwm':
            T = self.new_type(st, ins)
            if T is None:
                raise Unsupported('operator new of an unknown type')
            return self.new_object(st, ins, T)
        if name in ('_ZdlPv', '_ZdlPvm'):
            self.setreg(st, ins, None)
            return None
        if name in ('htonl', 'ntohl', 'htons', 'ntohs'):
            self.trusted.add('libc ' + name)
            n = 32 if name[-1] == 'l' else 16
            x = self.val(st, args[0][1], args[0][0])
            self.setreg(st, ins, self.bswap(x, n))
            return None
        if name in ('ceil', 'log2', 'floor', 'log2f', 'ceilf'):
            self.trusted.add('libm ' + name)
            self.setreg(st, ins, t.f1(name, self.val(st, args[0][1], args[0][0])))
            return None
        f = self.prog.funcs.get(callee)
        if f is None:
            f = self.prog.funcs.get(callee.lstrip('@'))
        if f is None and re.search(r'C1E', name):
            f = self.prog.funcs.get(callee.replace('C1E', 'C2E'))
        if f is None:
            raise Unsupported('call to external function ' + dem)
        if any(fr.func is f for fr in st.frames):
            raise Unsupported('recursion in ' + dem)
        f.analyse()
        self.inlined.add(dem)
        regs = {}
        for (pt, pr, pa), (ty, v, at) in zip(f.params, args):
            regs[pr] = self.val(st, v, ty)
        st.frames.append(Frame(f, f.entry.name, 0, regs, st.frames[-1].uid + 1))
        return None

    def bswap(self, x, n):
        r = None
        for i in range(0, n, 8):
            b = t.zext(t.trunc(t.lshr(x, const(i, n)) if i else x, 8), n)
            s = n - 8 - i
            if s:
                b = t.shl(b, const(s, n))
            r = b if r is None else t.bor(r, b)
        return r

    def ext_snprintf(self, st, ins, args):
        """writes at most n bytes at dst: oblige the range to be inside the object; contents become arbitrary"""
        self.trusted.add('libc snprintf')
        dst = self.resolve_ptr(st, self.val(st, args[0][1], args[0][0]), 'snprintf')
        n = self.val(st, args[1][1], args[1][0])
        es = self.array_at(st, dst)
        if es:
            dst = Ptr(dst.root, dst.offs + (0,), (const(0, 64),), es, True)
        q = Ptr(dst.root, dst.offs, dst.idx[:-1] + (add(dst.idx[-1], sub(n, const(1, 64))),), dst.es, True)
        st2 = st.clone()
        st2.assume(ne(n, const(0, 64)))
        self.check_access(st2, q, 'snprintf write')
        a = self.leaf_get(st, dst.root, dst.offs, 8)
        if len(dst.idx) == 1:
            self.leaf_set(st, dst.root, dst.offs, fresh('snprintf', a.sort))
        self.setreg(st, ins, fresh('ioret', 32))
        return None

    def unreachable(self, st, kind, msg):
        if not self.record:
            return
        self.obl.append((kind, self.where(st), msg))
        r = self.solver.sat(st.pc, TRUE)
        if r != 'unsat':
            raise Violation(kind, msg + ' reachable at ' + self.where(st) + ' [solver: %s]' % r, st, TRUE)

    def vp_call(self, st, ins, name, args):
        A = [self.val(st, v, ty) for ty, v, at in args]
        op = name[5:]
        self.trusted.add('std container contract ' + name)
        if op == 'vec_init':
            self.vec_set_empty(st, A[0], ins)
        elif op == 'vec_size':
            p = self.resolve_ptr(st, A[0], 'vector')
            self.setreg(st, ins, self.vec_len(st, p))
            return None
        elif op in ('vec_at', 'vec_data'):
            p = self.resolve_ptr(st, A[0], 'vector')
            if op == 'vec_at':
                self.oblige(st, 'bounds', ult(A[1], self.vec_len(st, p)), 'vector index out of range')
                q = Ptr(p.root, p.offs + (0,), p.idx + (A[1],), A[2].val, False)
            else:
                self.check_null(st, p)
                q = Ptr(p.root, p.offs + (0,), p.idx + (const(0, 64),), A[1].val, True)
            self.setreg(st, ins, q)
            return None
        elif op == 'vec_push':
            p = self.resolve_ptr(st, A[0], 'vector')
            n = self.vec_len(st, p)
            self.vec_set_len(st, p, add(n, const(1, 64)))
            self.setreg(st, ins, Ptr(p.root, p.offs + (0,), p.idx + (n,), A[1].val, False, True))
            return None
        elif op == 'vec_pop':
            p = self.resolve_ptr(st, A[0], 'vector')
            n = self.vec_len(st, p)
            self.oblige(st, 'bounds', ne(n, const(0, 64)), 'pop_back on an empty vector')
            m = sub(n, const(1, 64))
            self.vec_set_len(st, p, m)
            self.zero_elem(st, p, m)
        elif op == 'vec_fill':
            p = self.resolve_ptr(st, A[0], 'vector')
            self.vec_fill(st, p, A[1], A[2], A[3].val)
        elif op in ('vec_copy', 'vec_move'):
            d, s = self.resolve_ptr(st, A[0], 'vector'), self.resolve_ptr(st, A[1], 'vector')
            if d.key() != s.key():
                self.vec_copy(st, d, s)
                if op == 'vec_move':
                    self.vec_clear(st, s)
        elif op == 'vec_append':
            self.vec_append(st, *A)
        elif op == 'vec_erase_tail':
            raise Unsupported('erase')
        elif op == 'map_init':
            p = self.resolve_ptr(st, A[0], 'map')
            self.leaf_set(st, p.root, p.offs + ('has',), constarr(FALSE))
            self.leaf_set(st, p.root, p.offs + (0,), constarr(const(0, 64)))
        elif op in ('map_find', 'map_count', 'map_slot', 'map_erase'):
            p = self.resolve_ptr(st, A[0], 'map')
            self.check_null(st, p)
            has = self.leaf_get(st, p.root, p.offs + ('has',), 0)
            h = select(has, A[1])
            q = Ptr(p.root, p.offs + (0,), p.idx + (A[1],), 8, False)
            if op == 'map_find':
                self.setreg(st, ins, PtrIte(h, q, NULL) if h.op != 'const' else (q if h.val else NULL))
                return None
            if op == 'map_count':
                self.setreg(st, ins, zext(h, 64))
                return None
            if op == 'map_erase':
                self.leaf_set(st, p.root, p.offs + ('has',), store(has, A[1], FALSE))
            else:
                if self.decide2(st, h) is not True:
                    v = self.leaf_get(st, p.root, p.offs + (0,), 64)
                    self.leaf_set(st, p.root, p.offs + (0,), store(v, A[1], ite(h, select(v, A[1]), const(0, 64))))
                    self.leaf_set(st, p.root, p.offs + ('has',), store(has, A[1], TRUE))
                self.setreg(st, ins, q)
                return None
        elif op == 'new':
            return self.new_object(st, ins, self.tname(st, args[1]))
        elif op == 'delete':
            pass
        else:
            raise Unsupported(op)
        self.setreg(st, ins, None)
        return None

    def new_object(self, st, ins, T):
        st.nalloc += 1
        rid = 'new:%s:%s:%s' % (T, '/'.join('%s' % f.uid for f in st.frames), ins.res)
        k = 0
        while '%s#%d' % (rid, k) in st.mem:
            k += 1
        rid = '%s#%d' % (rid, k)
        st.mem[rid] = Region(T)
        self.setreg(st, ins, Ptr(('R', rid)))
        return None

    def new_type(self, st, ins):
        """the type of a new expression: that of the constructor called on the storage"""
        for b in st.frames[-1].func.blocks.values():
            for i in b.instrs:
                if i.op == 'call' and isinstance(i.a[0], str) and i.a[1] and i.a[1][0][1] == ('reg', ins.res):
                    d = self.prog.dem.get(i.a[0], self.prog.dem.get(i.a[0].lstrip('@'), ''))
                    m = re.match(r'(.*?)(\w+)::\2\(', d)
                    if m and re.search(r'C[12]E', i.a[0]):
                        return m.group(1) + m.group(2)
        return None

    def tname(self, st, arg):
        g = arg[1]
        if g[0] != 'global':
            v = self.val(st, arg[1], arg[0])
            if isinstance(v, Ptr) and v.root[0] == 'G':
                root = v.root
            else:
                raise Unsupported('new: type name')
        else:
            root = ('G', g[1])
        init = self.glob(st, root)[2]
        s = init[1].decode()
        m = re.search(r'\[T = (.*?)\]', s)
        return m.group(1).replace('h264nal::', '')

    def check_null(self, st, p):
        if p.root[0] == 'N':
            raise Violation('nonnull', 'null pointer use at ' + self.where(st), st, TRUE)
        if p.root[0] == 'H':
            self.oblige(st, 'nonnull', ne(p.root[2], const(0, 64)), 'null pointer use')

    def vec_len(self, st, p):
        self.check_null(st, p)
        v = self.leaf_get(st, p.root, p.offs + ('#',), 64)
        for i in p.idx:
            v = select(v, i)
        return v

    def vec_set_len(self, st, p, n):
        k = p.offs + ('#',)
        if p.idx:
            a = self.leaf_get(st, p.root, k, 64)
            n = nest_store(a, p.idx, n)
        self.leaf_set(st, p.root, k, n)

    def sub_leaves(self, st, p):
        """keys of all leaves below the vector at p"""
        n = len(p.offs)
        out = set()
        if p.root[0] == 'R':
            r = st.mem[p.root[1]]
            for k in r.leaves:
                if k[:n] == p.offs and len(k) > n:
                    out.add(k)
            ty = None
            if r.type:
                ty = r.type if r.type.startswith('std::vector<') else self.fields(r.type)[0].get(p.offs[0], (0, None))[1]
        else:
            ty = self.fields(p.root[1])[0].get(p.offs[0], (0, None))[1]
        if ty:
            for _ in p.offs[1:]:
                ty = velem(ty)
            el = velem(ty) if ty else None
            if el and (el in ITY or ptee(el) or velem(el)):
                for k in empty_list(ty).d:
                    out.add(p.offs + k)
        out.add(p.offs + ('#',))
        return out

    def base_of(self, st, p, k, dflt=None):
        return None

    def vec_set_empty(self, st, p, ins):
        p = self.resolve_ptr(st, p, 'vector')
        if p.root[0] == 'R' and p.root[1] in st.mem and st.mem[p.root[1]].type is None:
            pass
        self.vec_clear(st, p)

    def vec_clear(self, st, p):
        self.check_null(st, p)
        self.vec_set_len(st, p, const(0, 64))
        if p.idx or p.root[0] != 'R':
            # elements beyond the length are kept zero (canonical representation)
            for k in self.sub_leaves(st, p):
                if k == p.offs + ('#',):
                    continue
                b = self.leaf_base(st, p.root, k)
                if b is None:
                    raise Unsupported('clear of a nested vector')
                z = const(0, b)
                for o in k[len(p.offs):]:
                    if o != '#':
                        z = constarr(z)
                if p.idx:
                    z = nest_store(self.leaf_get(st, p.root, k, b), p.idx, z)
                self.leaf_set(st, p.root, k, z)
            return
        if not p.idx and p.root[0] == 'R':
            r = st.mem[p.root[1]].copy()
            for k in list(r.leaves):
                if k[:len(p.offs)] == p.offs and len(k) > len(p.offs) and k != p.offs + ('#',):
                    v = r.leaves[k]
                    s = v.sort
                    b = s
                    d = 0
                    while isinstance(b, tuple):
                        b = b[1]
                        d += 1
                    z = const(0, b)
                    for _ in range(d):
                        z = constarr(z)
                    r.leaves[k] = z
            # make element leaves default to zero arrays
            st.mem[p.root[1]] = r
            self.vec_default(st, p)

    def vec_default(self, st, p):
        r = st.mem[p.root[1]]
        ty = None
        if r.type:
            ty = r.type if r.type.startswith('std::vector<') else self.fields(r.type)[0].get(p.offs[0], (0, None))[1] if len(p.offs) == 1 else None
        elif r.llty is not None:
            ty = None
        el = velem(ty) if ty else None
        if ty and el and (el in ITY or ptee(el) or velem(el)):
            for k, v in empty_list(ty).d.items():
                r = st.mem[p.root[1]]
                if p.offs + k not in r.leaves or len(k) > 1 or k == (0,):
                    st.mem[p.root[1]] = r.with_(p.offs + k, v)
        else:
            r = st.mem[p.root[1]].copy()
            if r.default == 'undef':
                pass
            st.mem[p.root[1]] = r

    def vec_copy(self, st, d, s):
        ks = self.sub_leaves(st, s)
        vals = {}
        for k in ks:
            base = 64 if k[-1] == '#' else None
            if base is None:
                base = self.leaf_base(st, s.root, k)
                if base is None:
                    continue
            v = self.leaf_get(st, s.root, k, base)
            if isinstance(v, (Ptr, PtrIte)):
                raise Unsupported('vector of local objects copied')
            for i in s.idx:
                v = select(v, i)
            vals[k[len(s.offs):]] = v
        for k, v in vals.items():
            kk = d.offs + k
            if d.idx:
                b = v.sort
                while isinstance(b, tuple):
                    b = b[1]
                a = self.leaf_get_arr(st, d, kk, v, b)
                v = nest_store(a, d.idx, v)
            self.leaf_set(st, d.root, kk, v)

    def leaf_get_arr(self, st, d, kk, v, b):
        if d.root[0] == 'R':
            r = st.mem[d.root[1]]
            a = r.leaves.get(kk)
            if a is None:
                z = const(0, b)
                for o in kk[1:]:
                    if o != '#':
                        z = constarr(z)
                a = z
            return a
        return self.leaf_get(st, d.root, kk, b)

    def leaf_base(self, st, root, k):
        if root[0] == 'R':
            r = st.mem[root[1]]
            v = r.leaves.get(k)
            if v is not None and isinstance(v, t.T):
                s = v.sort
                while isinstance(s, tuple):
                    s = s[1]
                return s
            ty = None
            if r.type:
                ty = r.type if r.type.startswith('std::vector<') else self.fields(r.type)[0].get(k[0], (0, None))[1]
        else:
            ty = self.fields(root[1])[0].get(k[0], (0, None))[1]
        if not ty:
            return None
        d, e = vlen_dim(ty)
        if k[-1] == '#':
            return 64
        return 64 if ptee(e) else ITY[e][1] if e in ITY else None

    def zero_elem(self, st, p, i):
        for k in self.sub_leaves(st, p):
            if k == p.offs + ('#',):
                continue
            b = self.leaf_base(st, p.root, k)
            if b is None:
                raise Unsupported('element reset')
            z = const(0, b)
            for o in k[len(p.offs) + 1:]:
                if o != '#':
                    z = constarr(z)
            self.leaf_set(st, p.root, k, nest_store(self.leaf_get(st, p.root, k, b), p.idx + (i,), z))

    def vec_fill(self, st, p, n, val, es):
        ln = self.vec_len(st, p)
        zero = isinstance(val, Ptr) and val.root[0] == 'N'
        if not zero:
            from ll import IntTy
            if es not in (1, 2, 4, 8):
                raise Unsupported('fill of objects')
            x = self.load(st, val, IntTy(es * 8))
            zero = x.op == 'const' and x.val == 0
        if not (ln.op == 'const' and ln.val == 0):
            # elements beyond the length are zero, so growing by zeros changes the length only
            if zero and self.decide2(st, ule(ln, n)) is True:
                self.vec_set_len(st, p, n)
                return
        if not (ln.op == 'const' and ln.val == 0) and self.decide2(st, eq(ln, const(0, 64))) is not True:
            if n.op == 'const' and n.val == 0:
                self.vec_clear(st, p)
                return
            raise Unsupported('resize of a non-empty vector')
        if p.idx:
            raise Unsupported('resize of nested vector')
        self.vec_clear(st, p)
        if not zero:
            if n.op != 'const' or n.val > 256:
                raise Unsupported('fill with a non-zero value')
            a = constarr(const(0, es * 8))
            for i in range(n.val):
                a = store(a, const(i, 64), x)
            self.leaf_set(st, p.root, p.offs + (0,), a)
            self.vec_set_len(st, p, n)
            return
        if es not in (1, 2, 4, 8):
            raise Unsupported('resize of objects')
        self.leaf_set(st, p.root, p.offs + (0,), constarr(const(0, es * 8)))
        self.vec_set_len(st, p, n)

    def vec_append(self, st, v, src, n, es):
        p = self.resolve_ptr(st, v, 'vector')
        n0 = self.vec_len(st, p)
        if n.op == 'const' and n.val == 0:
            return
        s = self.resolve_ptr(st, src, 'append source')
        if n.op == 'const' and n.val <= 16 and es.val in (1, 2, 4, 8):
            from ll import IntTy
            es_ = self.array_at(st, s)
            if es_:
                s = Ptr(s.root, s.offs + (0,), (const(0, 64),), es_, True)
            for i in range(n.val):
                q = Ptr(s.root, s.offs, s.idx[:-1] + (add(s.idx[-1], const(i, 64)),) if s.idx else s.idx, s.es, True)
                x = self.load(st, q, IntTy(es.val * 8))
                m = self.vec_len(st, p)
                self.vec_set_len(st, p, add(m, const(1, 64)))
                self.store_(st, Ptr(p.root, p.offs + (0,), p.idx + (m,), es.val, False, True), x, None)
            return
        # append of a block of bytes to an empty vector: contents become the source slice
        if self.decide2(st, eq(n0, const(0, 64))) is True and s.idx and not p.idx:
            # bounds of the source range
            last = Ptr(s.root, s.offs, s.idx[:-1] + (add(s.idx[-1], sub(n, const(1, 64))),), s.es, True)
            st2 = st.clone()
            st2.assume(ne(n, const(0, 64)))
            self.check_access(st2, last, 'append source')
            self.check_access(st2, Ptr(s.root, s.offs, s.idx, s.es, True), 'append source')
            a = self.leaf_get(st, s.root, s.offs, es.val * 8)
            for i in s.idx[:-1]:
                a = select(a, i)
            off = s.idx[-1]
            whole = s.root[0] == 'R' and st.mem[s.root[1]].len is n
            if not (off.op == 'const' and off.val == 0 and whole):
                a = t.uf('slice', a.sort, a, off, n)
            self.leaf_set(st, p.root, p.offs + (0,), a)
            self.vec_set_len(st, p, n)
            return
        raise Unsupported('vector append of a block')

    def llvm_call(self, st, ins, name, args):
        if name.startswith('llvm.ubsantrap') or name.startswith('llvm.trap'):
            self.unreachable(st, 'ub', 'undefined behaviour')
            return []
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.assume') or \
                name.startswith('llvm.donothing') or name.startswith('llvm.stack') or name.startswith('llvm.experimental.noalias'):
            self.setreg(st, ins, None)
            return None
        m = re.match(r'llvm\.([su])(add|sub|mul)\.with\.overflow\.i(\d+)', name)
        if m:
            sg, op, n = m.group(1), m.group(2), int(m.group(3))
            a, b = [self.val(st, v, ty) for ty, v, at in args]
            f = {'add': add, 'sub': sub, 'mul': t.mul}[op]
            r = f(a, b)
            e = sext if sg == 's' else zext
            if sg == 's' and op != 'mul' and a.umax < 1 << (n - 2) and b.umax < 1 << (n - 2):
                ov = FALSE
            elif sg == 's' and op == 'mul' and a.umax * b.umax < 1 << (n - 1):
                ov = FALSE
            elif n == 32:
                ov = ne(e(r, 64), f(e(a, 64), e(b, 64)))
            else:
                ov = ne(e(r, 2 * n), f(e(a, 2 * n), e(b, 2 * n)))
            self.setreg(st, ins, Agg({0: r, 1: ov}))
            return None
        if name.startswith('llvm.memset'):
            p, v, n = [self.val(st, x[1], x[0]) for x in args[:3]]
            self.memset(st, p, v, n)
            self.setreg(st, ins, None)
            return None
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            d, s, n = [self.val(st, x[1], x[0]) for x in args[:3]]
            self.memcpy(st, d, s, n)
            self.setreg(st, ins, None)
            return None
        if name.startswith('llvm.fmuladd'):
            a, b, c = [self.val(st, v, ty) for ty, v, at in args]
            self.setreg(st, ins, t.fbin('fadd', t.fbin('fmul', a, b), c))
            return None
        m = re.match(r'llvm\.(ceil|log2|floor)\.', name)
        if m:
            self.trusted.add('libm ' + m.group(1))
            self.setreg(st, ins, t.f1(m.group(1), self.val(st, args[0][1], args[0][0])))
            return None
        m = re.match(r'llvm\.(umin|umax|smin|smax)\.', name)
        if m:
            a, b = [self.val(st, v, ty) for ty, v, at in args]
            lt = ult(a, b) if m.group(1)[0] == 'u' else t.slt(a, b)
            self.setreg(st, ins, ite(lt, a, b) if m.group(1)[1:] == 'min' else ite(lt, b, a))
            return None
        m = re.match(r'llvm\.(ctlz|cttz|ctpop|bswap|abs)\.i(\d+)', name)
        if m:
            k, n = m.group(1), int(m.group(2))
            a = self.val(st, args[0][1], args[0][0])
            bit = lambda i: ne(t.band(a, const(1 << i, n)), const(0, n))
            if k == 'ctlz' or k == 'cttz':
                # (of zero: the bit width, or, in the form where that is poison, any value)
                flag = self.val(st, args[1][1], args[1][0])
                r = const(n, n) if flag.op == 'const' and flag.val == 0 else t.fresh('poison', n)
                for i in (range(n) if k == 'ctlz' else range(n - 1, -1, -1)):
                    r = ite(bit(i), const(n - 1 - i if k == 'ctlz' else i, n), r)
            elif k == 'ctpop':
                r = const(0, n)
                for i in range(n):
                    r = add(r, ite(bit(i), const(1, n), const(0, n)))
            elif k == 'abs':
                r = ite(t.slt(a, const(0, n)), sub(const(0, n), a), a)
            else:
                r = self.bswap(a, n)
            self.setreg(st, ins, r)
            return None
        raise Unsupported('intrinsic ' + name)

    def memset(self, st, p, v, n):
        p = self.resolve_ptr(st, p, 'memset')
        if n.op != 'const' or v.op != 'const':
            raise Unsupported('memset with variable size')
        if p.root[0] != 'R':
            raise Unsupported('memset on shared object')
        es = self.array_at(st, p)
        r = st.mem[p.root[1]].copy()
        if es:
            if es != 1 and v.val:
                raise Unsupported('memset')
            k = p.offs + (0,)
            r.leaves[k] = constarr(const(v.val if es == 1 else 0, es * 8))
            st.mem[p.root[1]] = r
            return
        if v.val != 0 or p.idx:
            raise Unsupported('memset non-zero')
        if r.leaves or p.offs != (0,):
            for k in list(r.leaves):
                if p.offs[0] <= k[0] < p.offs[0] + n.val:
                    x = r.leaves[k]
                    if isinstance(x, t.T) and isinstance(x.sort, int):
                        r.leaves[k] = const(0, x.sort)
                    elif isinstance(x, Ptr):
                        r.leaves[k] = NULL
                    else:
                        raise Unsupported('memset over container')
            if r.type:
                for o, (nm, ty) in self.fields(r.type)[0].items():
                    if p.offs[0] <= o < p.offs[0] + n.val and (o,) not in r.leaves:
                        if ty in ITY:
                            r.leaves[(o,)] = const(0, ITY[ty][1])
                        elif ptee(ty):
                            r.leaves[(o,)] = NULL
        else:
            r.default = 'zero'
        st.mem[p.root[1]] = r

    def memcpy(self, st, d, s, n):
        d, s = self.resolve_ptr(st, d, 'memcpy'), self.resolve_ptr(st, s, 'memcpy')
        if n.op != 'const':
            raise Unsupported('memcpy with variable size')
        if s.root[0] == 'G':
            g = self.glob(st, s.root)
            el = global_elems(g[2], g[1]) if g and g[2] else None
            es = self.array_at(st, d)
            if el is None or not es:
                raise Unsupported('memcpy from global')
            a = constarr(const(0, es * 8))
            for i, x in enumerate(el):
                a = store(a, const(i, 64), const(x, es * 8))
            self.leaf_set(st, d.root, d.offs + (0,), a)
            return
        if d.root[0] not in ('R', 'H') or s.root[0] not in ('R', 'H'):
            raise Unsupported('memcpy')
        srcs = {}
        if s.root[0] == 'R':
            for k, v in st.mem[s.root[1]].leaves.items():
                if len(k) >= len(s.offs) and k[:len(s.offs) - 1] == s.offs[:-1] and isinstance(k[len(s.offs) - 1], int) and \
                        s.offs[-1] <= k[len(s.offs) - 1] < s.offs[-1] + n.val:
                    for i in s.idx:
                        v = select(v, i)
                    srcs[(k[len(s.offs) - 1] - s.offs[-1],) + k[len(s.offs):]] = v
        else:
            if s.idx:
                raise Unsupported('memcpy from indexed')
            self.check_null(st, s)
            for o, (nm, ty) in self.fields(s.root[1])[0].items():
                if s.offs[0] <= o < s.offs[0] + n.val:
                    if ty not in ITY:
                        raise Unsupported('memcpy of ' + ty)
                    srcs[(o - s.offs[0],)] = self.leaf_get(st, s.root, (o,), ITY[ty][1])
        for k, v in srcs.items():
            kk = d.offs[:-1] + (d.offs[-1] + k[0],) + k[1:]
            if d.idx:
                b = v.sort
                while isinstance(b, tuple):
                    b = b[1]
                a = self.leaf_get_arr(st, d, kk, v, b)
                v = nest_store(a, d.idx, v)
            self.leaf_set(st, d.root, kk, v)

    # =============================================================== executing
    def exec_block(self, st, push):
        """run from the current point to the end of the block; push(state) successors"""
        snap = None
        out = []
        try:
            while True:
                f = st.frames[-1]
                ins = f.func.blocks[f.block].instrs[f.idx]
                snap = None
                if ins.op in ('call', 'load', 'store') and any(isinstance(v, PtrIte) for v in f.regs.values()):
                    snap = st.clone()
                if self.exec_ins(st, out.append):
                    break
        except ForkOn as e:
            if snap is None:
                raise
            for c in (e.c, not_(e.c)):
                s = snap.clone()
                s.assume(c)
                if self.solver.sat(s.pc, TRUE) != 'unsat':
                    self.exec_block(s, push)
            return
        for s in out:
            push(s)

    def exec_ins(self, st, push):
        """one instruction; true at the end of the block"""
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget('step budget')
        if self.deadline and (self.steps & 63) == 0 and time.time() > self.deadline:
            raise Budget('time budget')
        f = st.frames[-1]
        blk = f.func.blocks[f.block]
        ins = blk.instrs[f.idx]
        op = ins.op
        regs = f.regs
        if op == 'call':
            depth = len(st.frames)
            r = self.do_call(st, ins)
            if r is None:
                if len(st.frames) > depth:
                    push(st)
                    return True
                return False
            for s in r:
                push(s)
            return True
        if op == 'br':
            c, succ = ins.a
            if c is None or len(set(succ)) == 1:
                self.goto(st, succ[0], push)
                return True
            c = self.val(st, c, ll_i1)
            self.branch(st, [(c, succ[0]), (not_(c), succ[1])], push)
            return True
        if op == 'switch':
            v, _, d, cases = ins.a
            x = self.val(st, v, ins.ty)
            tgt = {}
            conds = []
            for cv, lb in cases:
                c = eq(x, const(cv, x.sort))
                conds.append(c)
                tgt.setdefault(lb, []).append(c)
            dc = and_(*[not_(c) for c in conds])
            opts = []
            for lb, cs in tgt.items():
                if lb == d:
                    dc = or_(dc, *cs)
                    continue
                opts.append((or_(*cs), lb))
            opts.append((dc, d))
            self.branch(st, opts, push)
            return True
        if op == 'ret':
            v = None if ins.a[0] is None else self.val(st, ins.a[0], ins.ty)
            self.do_ret(st, v, push)
            return True
        if op == 'unreachable':
            self.unreachable(st, 'ub', 'unreachable code')
            return True
        self.exec_simple(st, ins, regs)
        f.idx += 1
        return False

    def exec_simple(self, st, ins, regs):
        op = ins.op
        a = ins.a
        if op in ARITH:
            x, y = self.val(st, a[0], ins.ty), self.val(st, a[1], ins.ty)
            if ins.ty.k == 'double' or ins.ty.k == 'float':
                regs[ins.res] = t.fbin(op, x, y)
                return
            if isinstance(x, Agg) or isinstance(y, Agg):
                regs[ins.res] = agg_op(op, x, y)
                return
            if op in ('udiv', 'urem', 'sdiv', 'srem') and y.op != 'const':
                self.oblige(st, 'ub', ne(y, const(0, y.sort)), 'division by zero')
            regs[ins.res] = ARITH[op](x, y)
            return
        if op == 'icmp':
            pr = a[0]
            x, y = self.val(st, a[1], ins.ty), self.val(st, a[2], ins.ty)
            if isinstance(x, (Ptr, PtrIte)) or isinstance(y, (Ptr, PtrIte)):
                if pr in ('eq', 'ne'):
                    c = self.ptr_eq(st, x, y)
                    regs[ins.res] = c if pr == 'eq' else not_(c)
                    if c.op != 'const':
                        self.conds.append(c)
                    return
                x, y = self.resolve_ptr(st, x), self.resolve_ptr(st, y)
                if x.root == y.root and x.offs == y.offs and len(x.idx) == len(y.idx) and x.idx:
                    x, y = x.idx[-1], y.idx[-1]
                else:
                    raise Unsupported('pointer order comparison')
            regs[ins.res] = ICMP[pr](x, y)
            if regs[ins.res].op != 'const':
                self.conds.append(regs[ins.res])
            return
        if op == 'fcmp':
            regs[ins.res] = t.fcmp(a[0], self.val(st, a[1], ins.ty), self.val(st, a[2], ins.ty))
            return
        if op == 'load':
            regs[ins.res] = self.load(st, self.val(st, a[0], None), ins.ty)
            return
        if op == 'atomicrmw':
            # one step of a sequential execution
            p = self.val(st, a[1], None)
            old, v = self.load(st, p, ins.ty), self.val(st, a[2], ins.ty)
            f = {'add': t.add, 'sub': t.sub, 'and': t.band, 'or': t.bor, 'xor': t.bxor, 'xchg': lambda x, y: y}.get(a[0])
            if f is None:
                raise Unsupported('atomicrmw ' + a[0])
            self.store_(st, p, f(old, v), ins.ty)
            regs[ins.res] = old
            return
        if op == 'store':
            self.store_(st, self.val(st, a[1], None), self.val(st, a[0], ins.ty), ins.ty)
            return
        if op == 'getelementptr':
            p = self.val(st, a[0], None)
            regs[ins.res] = self.gep(st, ins.ty, p, [(tt, self.val(st, x, tt)) for tt, x in a[1]])
            return
        if op == 'alloca':
            rid = 'a:%s:%s' % ('/'.join(str(fr.func.name) for fr in st.frames), ins.res)
            T = None
            if ins.ty.k == 'named':
                nm = ins.ty.sub.strip('%').strip('"')
                m = re.match(r'(?:class|struct)\.(.*?)(\.\d+)?$', nm)
                if m:
                    q = m.group(1).replace('h264nal::', '')
                    if q in self.prog.layouts:
                        T = q
            st.mem[rid] = Region(T, 'undef', {}, None, None if T else (self.cur_mod(st), ins.ty))
            regs[ins.res] = Ptr(('R', rid))
            return
        if op in ('zext', 'sext', 'trunc'):
            x = self.val(st, a[1], a[0])
            n = 0 if ins.ty.n == 1 else ins.ty.n
            if isinstance(x, Agg) or n not in (0, 8, 16, 32, 64):
                if op == 'sext':
                    raise Unsupported('cast of aggregate')
                regs[ins.res] = agg_cast(x, n)
                return
            regs[ins.res] = (zext if op == 'zext' else sext if op == 'sext' else trunc)(x, n)
            return
        if op == 'select':
            c = self.val(st, a[0], ll_i1)
            x, y = self.val(st, a[1], ins.ty), self.val(st, a[2], ins.ty)
            if isinstance(x, t.T) and isinstance(y, t.T):
                regs[ins.res] = ite(c, x, y)
            elif c.op == 'const':
                regs[ins.res] = x if c.val else y
            else:
                regs[ins.res] = PtrIte(c, x, y)
            return
        if op == 'phi':
            raise Unsupported('phi in the middle')
        if op == 'extractvalue':
            v = self.val(st, a[0], ins.ty)
            regs[ins.res] = v.d[a[1][0]]
            return
        if op == 'insertvalue':
            v = self.val(st, a[0], ins.ty)
            d = dict(v.d)
            d[a[2][0]] = self.val(st, a[1], None)
            regs[ins.res] = Agg(d)
            return
        if op in ('uitofp', 'sitofp'):
            regs[ins.res] = t.f_of_bv(self.val(st, a[1], a[0]), op == 'sitofp')
            return
        if op in ('fptoui', 'fptosi'):
            x = self.val(st, a[1], a[0])
            if x.op == 'fclog2':
                n, d = x.args
                self.oblige(st, 'ub', and_(ne(d, const(0, 64)), ule(d, n)), 'logarithm of a value below 1')
            regs[ins.res] = t.f_to_ui(x, ins.ty.n)
            return
        if op in ('fptrunc', 'fpext'):
            x = self.val(st, a[1], a[0])
            regs[ins.res] = t._mk(op, 'F', (x,))
            return
        if op == 'fneg':
            regs[ins.res] = t.fbin('fsub', t.fconst(0), self.val(st, a[0], ins.ty))
            return
        if op == 'ptrtoint':
            regs[ins.res] = self.addr(st, self.val(st, a[1], a[0]))
            return
        if op == 'freeze':
            regs[ins.res] = self.val(st, a[0], ins.ty)
            return
        if op == 'bitcast':
            regs[ins.res] = self.val(st, a[1], a[0])
            return
        raise Unsupported('instruction ' + op)

    def is_trap(self, func, name):
        b = func.blocks[name]
        i = b.instrs[0]
        if i.op == 'call' and (i.a[0].startswith('@llvm.ubsantrap') or i.a[0].startswith('@__assert_fail')):
            return True
        return i.op == 'unreachable'

    def branch(self, st, opts, push):
        f = st.frames[-1]
        opts = [(c, b) for c, b in opts if c is not FALSE and not_(c).id not in st.lits]
        for c, b in opts:
            if c is TRUE or c.id in st.lits:
                opts = [(c, b)]
                break
        if len(opts) == 2:
            for k in (0, 1):
                if self.is_trap(f.func, opts[k][1]):
                    kind = 'assert' if 'assert_fail' in f.func.blocks[opts[k][1]].instrs[0].line else 'ub'
                    self.oblige(st, kind, not_(opts[k][0]), 'assertion failure' if kind == 'assert' else 'undefined behaviour (arithmetic)')
                    self.goto(st, opts[1 - k][1], push)
                    return
        if len(opts) == 2:
            self.brconds.append(opts[0][0])
        for i, (c, b) in enumerate(opts):
            s = st if i == len(opts) - 1 else st.clone()
            s.assume(c)
            self.goto(s, b, push)

    def goto(self, st, target, push):
        f = st.frames[-1]
        src = f.block
        blk = f.func.blocks[target]
        vals = []
        for ph in blk.phis:
            for v, b in ph.a:
                if b == src:
                    vals.append((ph.res, self.val(st, v, ph.ty)))
                    break
            else:
                raise Unsupported('phi without incoming edge')
        for r, v in vals:
            f.regs[r] = self.norm_ptr(st, v) if isinstance(v, Ptr) and target in f.func.loops else v
        f.block = target
        f.idx = len(blk.phis)
        push(st)

    def do_ret(self, st, v, push):
        f = st.frames.pop()
        # local objects die
        pre = 'a:%s:' % '/'.join([str(fr.func.name) for fr in st.frames] + [str(f.func.name)])
        for rid in [r for r in st.mem if r.startswith(pre)]:
            if '/' not in rid[len(pre):]:
                if st.frames:
                    del st.mem[rid]
        if not st.frames:
            st.frames = [f]
            self.on_return(st, v)
            return
        c = st.frames[-1]
        ins = c.func.blocks[c.block].instrs[c.idx]
        if ins.res:
            c.regs[ins.res] = v
        c.idx += 1
        push(st)

    # =============================================================== merging
    def liveness(self, func):
        lv = self.live.get(func.name)
        if lv is not None:
            return lv
        use, dfn = {}, {}

        def uses(ins):
            out = []

            def v(x):
                if isinstance(x, tuple):
                    if len(x) == 2 and x[0] == 'reg':
                        out.append(x[1])
                    else:
                        for y in x:
                            v(y)
                elif isinstance(x, list):
                    for y in x:
                        v(y)
            v(ins.a)
            return out
        for b in func.order:
            u, d = set(), set()
            for i in b.instrs:
                if i.op != 'phi':
                    for r in uses(i):
                        if r not in d:
                            u.add(r)
                if i.res:
                    d.add(i.res)
            use[b.name], dfn[b.name] = u, d
        phi_out = {b.name: set() for b in func.order}
        for b in func.order:
            for p in b.phis:
                for v, src in p.a:
                    if v[0] == 'reg':
                        phi_out[src].add(v[1])
        inn = {b.name: set() for b in func.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(func.order):
                o = set(phi_out[b.name])
                for s in b.succ:
                    o |= inn[s]
                n = use[b.name] | (o - dfn[b.name])
                # phi results are live-in for states standing after the phis
                if n != inn[b.name]:
                    inn[b.name] = n
                    ch = True
        out = {}
        for b in func.order:
            ph = {p.res for p in b.phis}
            o = set(phi_out[b.name])
            for s in b.succ:
                o |= inn[s]
            out[b.name] = inn[b.name] | ph | o | dfn[b.name]
        self.live[func.name] = out
        return out

    def loc(self, st):
        return tuple((f.func.name, f.block, f.idx) for f in st.frames)

    def prio(self, st):
        return tuple((f.func.blocks[f.block].rpo, f.idx) for f in st.frames)

    def chain_list(self, sp):
        out = []
        c = sp.chain
        while c is not None:
            out.append(c[1])
            c = c[0]
        return out          # latest first

    def merge_all(self, states):
        if len(states) == 1:
            return states
        out = []
        pend = list(states)
        groups = {}
        for s in pend:
            groups.setdefault(s.spec.mode, []).append(s)
        for mode, g in groups.items():
            if mode == RUN:
                for s in g:
                    self.advance(s, 0)
            acc = []
            for s in g:
                done = False
                for i, r in enumerate(acc):
                    m = self.merge(r, s)
                    if m is not None:
                        acc[i] = m
                        done = True
                        break
                if not done:
                    acc.append(s)
            if mode == RUN and len(acc) > 1:
                # try harder: determine ghost branches with the solver
                for s in acc:
                    self.advance(s, 1)
                acc2 = []
                for s in acc:
                    done = False
                    for i, r in enumerate(acc2):
                        m = self.merge(r, s)
                        if m is not None:
                            acc2[i] = m
                            done = True
                            break
                    if not done:
                        acc2.append(s)
                acc = acc2
            out += acc
        return out

    def merge(self, a, b):
        if a.spec.mode != b.spec.mode:
            return None
        sa = sb = None
        if a.spec.mode == RUN:
            ca, cb = self.chain_list(a.spec), self.chain_list(b.spec)
            if a.spec.chain is None:
                ca = [a.spec.snap()]
            if b.spec.chain is None:
                cb = [b.spec.snap()]
            pa = {}
            for s in ca:
                pa[(s[0], s[3])] = s                # earliest occurrence (the list is latest first)
            for s in reversed(cb):
                if (s[0], s[3]) in pa:
                    sa, sb = pa[(s[0], s[3])], s
                    break
            if sa is None:
                return None
            if a.spec.P is not b.spec.P and False:
                return None
        # path conditions
        ida = a.lits
        idb = b.lits
        com = ida & idb
        ra = [x for x in a.pc if x.id not in com]
        rb = [x for x in b.pc if x.id not in com]
        sel = None
        bset = {x.id for x in rb}
        for x in ra:
            if not_(x).id in bset:
                sel = x
                break
        if sel is None:
            da = and_(*ra)
            sel = da
            if da is TRUE:
                db = and_(*rb)
                if db is TRUE:
                    if not self.same_state(a, b):
                        return None
                    return a
                sel = not_(db)
                # a's condition is weaker than b's: keep apart (paths must be exclusive)
                return None
        m = a.clone()
        try:
            # registers
            for fa, fb, fm in zip(a.frames, b.frames, m.frames):
                if fa.regs is fb.regs:
                    continue
                live = self.liveness(fa.func)[fa.block]
                regs = {}
                for r, v in fa.regs.items():
                    if r not in live:
                        continue
                    w = fb.regs.get(r)
                    if w is None:
                        continue
                    x = self.mval(sel, v, w)
                    if x is not None:
                        regs[r] = x
                fm.regs = regs
            for rid in list(m.mem):
                r1, r2 = a.mem.get(rid), b.mem.get(rid)
                if r1 is r2 or r2 is None:
                    continue
                m.mem[rid] = self.mregion(sel, r1, r2)
            for rid, r2 in b.mem.items():
                if rid not in m.mem:
                    m.mem[rid] = r2
            for k in set(a.heap) | set(b.heap):
                x, y = a.heap.get(k), b.heap.get(k)
                if x is not y:
                    s = (x if x is not None else y).sort
                    base = s
                    while isinstance(base, tuple):
                        base = base[1]
                    if x is None:
                        x = self.heap_init(k[0], k[1], base)
                    if y is None:
                        y = self.heap_init(k[0], k[1], base)
                    m.heap[k] = ite(sel, x, y)
            for k in set(a.bb) | set(b.bb):
                x, y = a.bb.get(k), b.bb.get(k)
                if x is None or y is None:
                    m.bb[k] = x or y
                elif x != y:
                    m.bb[k] = tuple(ite(sel, p, q) for p, q in zip(x, y))
            if a.spec.mode == RUN:
                sp = m.spec
                sp.pc = sa[0]
                sp.env = self.menv(sel, sa[1], sb[1])
                h = {}
                for k in set(sa[2]) | set(sb[2]):
                    x, y = sa[2].get(k), sb[2].get(k)
                    s = (x if x is not None else y).sort
                    base = s
                    while isinstance(base, tuple):
                        base = base[1]
                    if x is None:
                        x = self.heap_init(k[0], k[1], base)
                    if y is None:
                        y = self.heap_init(k[0], k[1], base)
                    h[k] = ite(sel, x, y)
                sp.heap = h
                sp.chain = None
                sp.passed = sa[3]
                sp.P = ite(sel, sa[4], sb[4])
                sp.S = sa[5] if sa[5] is sb[5] else ite(sel, sa[5], sb[5])
                sp.Tt = sa[6] if sa[6] is sb[6] else ite(sel, sa[6], sb[6])
            elif a.spec.mode == FAIL:
                m.spec.heap = self.mheap(sel, a.spec.heap, b.spec.heap)
        except Unsupported:
            return None
        m.consumed = ite(sel, a.consumed, b.consumed)
        m.ev = ('m', a.ev, b.ev, sel) if a.ev is not b.ev else a.ev
        comm = [x for x in a.pc if x.id in com]
        m.pc = tuple(comm)
        m.lits = frozenset(x.id for x in comm)
        m.assume(or_(and_(*ra), and_(*rb)))
        return m

    def mheap(self, sel, ha, hb):
        h = {}
        for k in set(ha) | set(hb):
            x, y = ha.get(k), hb.get(k)
            base = (x if x is not None else y).sort
            while isinstance(base, tuple):
                base = base[1]
            if x is None:
                x = self.heap_init(k[0], k[1], base)
            if y is None:
                y = self.heap_init(k[0], k[1], base)
            h[k] = ite(sel, x, y)
        return h

    def same_state(self, a, b):
        return False

    def mval(self, sel, v, w):
        if v is w:
            return v
        if isinstance(v, t.T) and isinstance(w, t.T):
            if v.sort != w.sort:
                return None
            return ite(sel, v, w)
        if isinstance(v, Agg) and isinstance(w, Agg):
            d = {}
            for k in v.d:
                if k in w.d:
                    d[k] = self.mval(sel, v.d[k], w.d[k])
            return Agg(d)
        if v is None or w is None:
            return None
        if same_ptr(v, w):
            return v if not (isinstance(w, Ptr) and w.chk) else w
        if isinstance(v, t.T):
            v, w, sel = w, v, not_(sel)
        if isinstance(v, Ptr) and isinstance(w, t.T):
            if v.root[0] == 'H' and v.offs == (0,) and not v.idx:
                return Ptr(('H', v.root[1], ite(sel, v.root[2], w)))
            if v.root[0] == 'N':
                return ite(sel, const(0, 64), w)
            raise Unsupported('merge of local object pointer with handle')
        if isinstance(v, Ptr) and isinstance(w, Ptr):
            if v.root[0] == 'H' and w.root[0] == 'H' and v.root[1] == w.root[1] and v.offs == w.offs and len(v.idx) == len(w.idx):
                return Ptr(('H', v.root[1], ite(sel, v.root[2], w.root[2])), v.offs,
                           tuple(ite(sel, x, y) for x, y in zip(v.idx, w.idx)), v.es, v.chk or w.chk)
            if v.root == w.root and v.offs == w.offs and len(v.idx) == len(w.idx):
                return Ptr(v.root, v.offs, tuple(ite(sel, x, y) for x, y in zip(v.idx, w.idx)), v.es, v.chk or w.chk)
            if v.root[0] == 'H' and v.offs == (0,) and not v.idx and w.root[0] == 'N':
                return Ptr(('H', v.root[1], ite(sel, v.root[2], const(0, 64))))
            if w.root[0] == 'H' and w.offs == (0,) and not w.idx and v.root[0] == 'N':
                return Ptr(('H', w.root[1], ite(sel, const(0, 64), w.root[2])))
        return PtrIte(sel, v, w)

    def mregion(self, sel, r1, r2):
        m = r1.copy()
        m.leaves = {}
        for k in set(r1.leaves) | set(r2.leaves):
            v, w = r1.leaves.get(k), r2.leaves.get(k)
            if v is None or w is None:
                x = v if v is not None else w
                if (r1.default if v is None else r2.default) == 'zero':
                    z = self.zero_like(x)
                    v, w = (z, w) if v is None else (v, z)
                elif isinstance(x, t.T) and not isinstance(x.sort, tuple) and k[-1] != '#':
                    u = fresh('undef', x.sort)
                    v, w = (u, w) if v is None else (v, u)
                else:
                    continue
            x = self.mval(sel, v, w)
            if x is not None:
                m.leaves[k] = x
        if r1.default != r2.default:
            m.default = 'undef'
        return m

    def zero_like(self, x):
        if isinstance(x, t.T):
            s = x.sort
            d = 0
            while isinstance(s, tuple):
                s = s[1]
                d += 1
            z = const(0, s)
            for _ in range(d):
                z = constarr(z)
            return z
        return NULL

    def menv(self, sel, e1, e2):
        if e1 is e2:
            return e1
        out = {}
        for k, v in e1.items():
            w = e2.get(k)
            if w is None:
                continue
            if v is w:
                out[k] = v
            elif isinstance(v, VI) and isinstance(w, VI):
                if v.ty != w.ty:
                    out[k] = VI(ite(sel, ext64(v), ext64(w)), 'i64')
                else:
                    out[k] = VI(ite(sel, v.t, w.t), v.ty)
            elif isinstance(v, VH) and isinstance(w, VH):
                out[k] = VH(ite(sel, v.t, w.t), v.T or w.T)
            elif isinstance(v, VL) and isinstance(w, VL):
                out[k] = VL({q: ite(sel, v.d[q], w.d[q]) for q in v.d}, v.ty)
            elif isinstance(v, VMap):
                out[k] = v
        return out

    # =============================================================== worklist
    def explore(self, states, depth=None, head=None, body=None):
        """run states; if head is given stay inside the loop: returns (backs, exits)"""
        wl = {}
        hq = []
        cnt = [0]
        backs, exits = [], []

        def push(st, first=False):
            if depth is not None and not first:
                if len(st.frames) < depth:
                    exits.append(st)
                    return
                f = st.frames[depth - 1]
                if len(st.frames) == depth:
                    if f.block not in body:
                        exits.append(st)
                        return
                    if f.block == head and f.idx == len(f.func.blocks[head].phis):
                        backs.append(st)
                        return
            k = self.loc(st)
            if k in wl:
                wl[k].append(st)
            else:
                wl[k] = [st]
                cnt[0] += 1
                heapq.heappush(hq, (self.prio(st), cnt[0], k))
        for s in states:
            push(s, True)
        first = depth is not None
        while hq:
            _, _, k = heapq.heappop(hq)
            group = self.merge_all(wl.pop(k))
            for st in group:
                f = st.frames[-1]
                blk = f.func.blocks[f.block]
                if blk.is_head and f.idx == len(blk.phis) and self.unroll_all:
                    if self.solver.sat(st.pc, TRUE) != 'unsat':
                        self.exec_block(st, push)
                elif blk.is_head and f.idx == len(blk.phis) and not (first and len(st.frames) == depth and f.block == head):
                    for ex in self.run_loop(st):
                        push(ex)
                else:
                    self.exec_block(st, push)
            first = False
        return backs, exits

    # =============================================================== loops
    def cells(self, st, depth, head, rows=None):
        c = self.cells1(st, depth, head)
        for k, (o, i) in (rows or {}).items():
            v = c.get(k)
            if v is o:
                v = select(o, i)
            elif v is not None and v.op == 'store' and v.args[0] is o and v.args[1] is i:
                v = v.args[2]
            else:
                continue
            del c[k]
            c[('row', k)] = v
        return c

    def cells1(self, st, depth, head):
        c = {}
        f = st.frames[depth - 1]
        for ph in f.func.blocks[head].phis:
            v = f.regs.get(ph.res)
            if isinstance(v, t.T):
                c[('reg', ph.res)] = v
            elif isinstance(v, Ptr):
                if v.idx:
                    c[('pidx', ph.res)] = v.idx[-1]
                elif v.root[0] == 'H':
                    c[('preg', ph.res)] = v.root[2]
        for rid, r in st.mem.items():
            for k, v in r.leaves.items():
                if isinstance(v, t.T):
                    c[('mem', rid, k)] = v
                elif isinstance(v, Ptr):
                    if v.root[0] == 'H' and v.offs == (0,):
                        c[('pmem', rid, k)] = v.root[2]
                    elif v.idx:
                        c[('pimem', rid, k)] = v.idx[-1]
        for k, v in st.heap.items():
            c[('heap',) + k] = v
        for k, (S, P, T) in st.bb.items():
            c[('bbP', k)] = P
        sp = st.spec
        if sp.mode == RUN:
            for n, v in sp.env.items():
                if isinstance(v, (VI, VH)):
                    c[('env', n)] = v.t
                elif isinstance(v, VL):
                    for q, x in v.d.items():
                        c[('envl', n, q)] = x
            for k, v in sp.heap.items():
                c[('sheap',) + k] = v
            c[('sP',)] = sp.P
        return c

    def set_cell(self, st, depth, key, v, rows=None):
        k = key[0]
        if k == 'row':
            o, i = rows[key[1]]
            return self.set_cell(st, depth, key[1], store(o, i, v))
        f = st.frames[depth - 1]
        if k == 'reg':
            f.regs[key[1]] = v
        elif k == 'pidx':
            p = f.regs[key[1]]
            f.regs[key[1]] = Ptr(p.root, p.offs, p.idx[:-1] + (v,), p.es, True)
        elif k == 'preg':
            p = f.regs[key[1]]
            f.regs[key[1]] = Ptr(('H', p.root[1], v), p.offs, p.idx, p.es, p.chk)
        elif k == 'mem':
            st.mem[key[1]] = st.mem[key[1]].with_(key[2], v)
        elif k == 'pmem':
            p = st.mem[key[1]].leaves[key[2]]
            st.mem[key[1]] = st.mem[key[1]].with_(key[2], Ptr(('H', p.root[1], v)))
        elif k == 'pimem':
            p = st.mem[key[1]].leaves[key[2]]
            st.mem[key[1]] = st.mem[key[1]].with_(key[2], Ptr(p.root, p.offs, p.idx[:-1] + (v,), p.es, True))
        elif k == 'heap':
            st.heap[(key[1], key[2])] = v
        elif k == 'bbP':
            S, P, T = st.bb[key[1]]
            st.bb[key[1]] = (S, v, T)
        elif k == 'env':
            e = dict(st.spec.env)
            o = e[key[1]]
            e[key[1]] = VI(v, o.ty) if isinstance(o, VI) else VH(v, o.T)
            st.spec.env = e
        elif k == 'envl':
            e = dict(st.spec.env)
            o = e[key[1]]
            d = dict(o.d)
            d[key[2]] = v
            e[key[1]] = VL(d, o.ty)
            st.spec.env = e
        elif k == 'sheap':
            h = dict(st.spec.heap)
            h[(key[1], key[2])] = v
            st.spec.heap = h
        elif k == 'sP':
            st.spec.P = v

    def ambiguous(self, st):
        """condition of a register that points to one of two objects"""
        for f in st.frames:
            for v in f.regs.values():
                if isinstance(v, PtrIte) and all(isinstance(p, PtrIte) or isinstance(p, Ptr) and p.root[0] != 'N' for p in (v.a, v.b)) and self.decide(st, v.c) is None:
                    return v.c
        return None

    def unrolled(self, st):
        """the states that leave the loop, if it provably ends within a few iterations"""
        f = st.frames[-1]
        head = f.block
        body = f.func.loops[head]
        pure = not any(i.op == 'call' and not str(i.a[0]).lstrip('@').startswith('llvm.') for b in body for i in f.func.blocks[b].instrs)
        if self.unroll_first == 2 and not pure:
            return None
        depth = len(st.frames)
        nob, conds, cur, exits = len(self.obl), self.conds, [st.clone()], []
        self.conds = list(conds)
        try:
            for _ in range(66 if pure else 5):
                backs, ex = self.explore(cur, depth, head, body)
                exits += ex
                cur = [b for b in (self.merge_all(backs) if backs else []) if self.solver.sat(b.pc, TRUE) != 'unsat']
                if not cur:
                    return exits
        except Violation:
            pass
        del self.obl[nob:]
        self.conds = conds
        return None

    def run_loop(self, st, level=0):
        """one loop; if no invariant is found, case-split on a loop-invariant branch condition of the body"""
        c = self.ambiguous(st)
        if c is not None:
            r = []
            for x in (c, not_(c)):
                s = st.clone()
                s.assume(x)
                for f in s.frames:
                    for k, v in f.regs.items():
                        if isinstance(v, PtrIte) and v.c is c:
                            f.regs[k] = v.a if x is c else v.b
                if self.solver.sat(s.pc, TRUE) != 'unsat':
                    r += self.run_loop(s, level)
            return r
        if self.unroll_first and level == 0:
            r = self.unrolled(st)
            if r is not None:
                return r
        mark = t._cnt[0]
        saved = self.brconds
        self.brconds = []
        st0 = st.clone()
        try:
            r = self.run_loop1(st)
            self.brconds = saved + self.brconds
            return r
        except Violation as e:
            if level >= 3:
                raise
            seen = set()
            pick = None
            for c in sorted(self.brconds, key=lambda c: 0 if all(str(v.val).startswith('arg:') for v in t.tvars(c)) else 1):
                if c.id in seen or len(seen) > 40:
                    continue
                seen.add(c.id)
                if all(v.id <= mark for v in t.tvars(c)) and self.decide2(st0, c) is None:
                    pick = c
                    break
            self.brconds = saved
            if pick is None:
                raise
            if DEBUG:
                print('  loop', self.srcline(st0.frames[-1]), 'split on', pick)
            out = []
            for c in (pick, not_(pick)):
                s = st0.clone()
                s.assume(c)
                out += self.run_loop(s, level + 1)
            return out

    def run_loop1(self, st):
        f = st.frames[-1]
        head = f.block
        if st.spec.mode != RUN:
            return self.loop_attempt(st, head, None)
        self.advance(st, 1)
        chain = self.chain_list(st.spec)
        if not chain:
            chain = [st.spec.snap()]
        code = st.spec.proc.code
        heads = [s for s in reversed(chain) if code[s[0]][0] == 'loop']
        cand = []
        seen = set()
        for s in heads + [chain[-1], chain[0]]:
            if s[0] not in seen:
                seen.add(s[0])
                cand.append(s)
        err = None
        cand = cand[:5]
        hk = (f.func.name, head)
        good = self.hints.get(hk, [])
        cand.sort(key=lambda s: 0 if s[0] in good else 1)
        for s, lv in [(s, False) for s in cand] + ([(s, True) for s in cand] if self.unroll_first else []):
            rec, nob, conds = self.record, len(self.obl), self.conds
            act = self.active
            try:
                self.active = act | {s[0]}
                r = self.loop_attempt(st, head, s, lv)
                self.hints[hk] = [s[0]] + [x for x in good if x != s[0]]
                return r
            except LoopFail as e:
                if DEBUG:
                    print('  loop', self.srcline(f), 'cand', s[0], st.spec.proc.lines[s[0]], 'LoopFail', e.viol.kind, e.viol.msg)
                self.record = rec
                del self.obl[nob:]
                self.conds = conds
                if err is None or (err.state is None):
                    err = e.viol
            except Violation as e:
                if DEBUG:
                    print('  loop', self.srcline(f), 'cand', s[0], st.spec.proc.lines[s[0]], 'Violation', e.kind, e.msg)
                self.record = rec
                del self.obl[nob:]
                self.conds = conds
                if err is None:
                    err = e
            finally:
                self.active = act
        raise err

    def materialise(self, S0, backs):
        ch = False
        for b in backs:
            hs = [(S0.heap, b.heap)]
            if S0.spec.mode == RUN:
                hs.append((S0.spec.heap, b.spec.heap))
            for i, (h0, h1) in enumerate(hs):
                for k, v in h1.items():
                    if k in h0:
                        continue
                    base = v.sort
                    while isinstance(base, tuple):
                        base = base[1]
                    iv = self.heap_init(k[0], k[1], base)
                    if v is iv:
                        continue
                    if i == 0:
                        S0.heap[k] = iv
                    else:
                        S0.spec.heap = dict(S0.spec.heap)
                        S0.spec.heap[k] = iv
                        h0 = S0.spec.heap
                    ch = True
            for rid, r in b.mem.items():
                r0 = S0.mem.get(rid)
                if r0 is None or r0 is r:
                    continue
                for k, v in r.leaves.items():
                    if k in r0.leaves:
                        continue
                    if r0.default != 'zero' and not unwritten(r0, k):
                        continue
                    z = self.zero_like(v) if isinstance(v, t.T) else NULL
                    r0 = r0.with_(k, z)
                    S0.mem[rid] = r0
                    ch = True
        return ch

    def loop_attempt(self, st, head, snap, may_leave=False):
        depth = len(st.frames)
        f = st.frames[-1]
        body = f.func.loops[head]
        S0 = st.clone()
        rec = self.record
        rows = {}           # cell -> (entry value, index): only that row changes in the loop
        norows = set()
        if snap is not None:
            S0.spec.goto(snap)
            S0.spec.passed = S0.spec.passed - {snap[0]}
        cells0 = self.cells(S0, depth, head, rows)
        saved_conds = self.conds
        where = self.srcline(f)
        classes = None      # list of dict(sym, base, members{cell:(width, off)})
        G = {}              # cell -> class
        cands = []          # candidate bound invariants (terms over class symbols)
        dropped = set()
        killed = set()      # cells dropped to undefined at head
        it = 0
        nonh = None
        while True:
            it += 1
            if it > (90 if self.unroll_first else 40):
                raise LoopFail(Violation('invariant', 'no inductive invariant found for the loop at ' + where, S0, TRUE))
            Sg = S0.clone()
            Sg.consumed = FALSE
            if classes is not None:
                for c in classes:
                    for key, (w, off) in c['m'].items():
                        self.set_cell(Sg, depth, key, self.member(c['sym'], w, off), rows)
            for key in killed:
                if key[0] == 'mem' and key[1] in Sg.mem:
                    r = Sg.mem[key[1]].copy()
                    v = r.leaves.pop(key[2], None)
                    if v is not None and unwritten(r, key[2]):
                        r.leaves[key[2]] = fresh('undef', v.sort)
                    Sg.mem[key[1]] = r
                elif key[0] in ('pmem', 'pimem'):
                    r = Sg.mem[key[1]].copy()
                    r.leaves.pop(key[2], None)
                    Sg.mem[key[1]] = r
            for c in cands:
                Sg.assume(c)
            cellsg = self.cells(Sg, depth, head, rows)
            self.record = False
            self.conds = []
            Sg0 = Sg.clone()
            try:
                backs, exits = self.explore([Sg], depth, head, body)
            except Violation as e:
                myconds = self.conds
                self.conds = saved_conds
                self.record = rec
                if classes is None or it < 2:
                    # violations in the very first (concrete) pass are real
                    raise
                if classes and not any(c.get('bounds_done') for c in classes):
                    # the values at the head are still unconstrained: try bounds first
                    for c in classes:
                        c['bounds_done'] = True
                    new = self.bound_candidates({c['sym']: c for c in classes}, myconds, cells0, S0)
                    new = [c for c in new if c.id not in dropped]
                    if new:
                        cands = self.base_cands(S0, classes, dropped, cells0) + new
                        continue
                raise LoopFail(e)
            finally:
                myconds = self.conds if self.conds is not saved_conds else myconds
                self.conds = saved_conds
            fails = []
            if snap is not None:
                nb = []
                for b in backs:
                    if b.spec.mode == FAIL:
                        fails.append(b)
                    else:
                        nb.append(b)
                backs = self.merge_all(nb) if nb else []
                aligned = []
                try:
                    for b in backs:
                        aligned += self.align(b, snap[0], where, self.leaver(depth, head, body, exits) if may_leave else None)
                except LoopFail:
                    if classes and not any(c.get('bounds_done') for c in classes):
                        for c in classes:
                            c['bounds_done'] = True
                        new = self.bound_candidates({c['sym']: c for c in classes}, myconds, cells0, S0)
                        new = [c for c in new if c.id not in dropped]
                        if new:
                            cands = self.base_cands(S0, classes, dropped, cells0) + new
                            self.record = rec
                            continue
                    raise
                fails += [b for b in aligned if b.spec.mode == FAIL]
                backs = [b for b in aligned if b.spec.mode != FAIL]
            else:
                backs = self.merge_all(backs) if backs else []
            if self.materialise(S0, backs):
                # state first written inside the loop: give it its value at the head and start over
                cells0 = self.cells(S0, depth, head, rows)
                classes, killed, cands, dropped, G = None, set(), [], set(), {}
                it = min(it, 20)
                self.record = rec
                continue
            newcells = [self.cells(b, depth, head, rows) for b in backs]
            bad = {k for k in rows if any(k in nc for nc in newcells)}
            if self.unroll_first and classes is None and not rows and backs:
                for k, o in cells0.items():
                    if k in norows or k[0] not in ('mem', 'heap', 'envl', 'sheap') or isinstance(o.sort, int):
                        continue
                    vs = [nc.get(k) for nc in newcells]
                    if all(v is not None and v.op == 'store' and v.args[0] is o for v in vs) and len({v.args[1].id for v in vs}) == 1:
                        rows[k] = (o, vs[0].args[1])
                bad = set()
                again = bool(rows)
            else:
                again = bool(bad)
            if again:
                for k in bad:
                    norows.add(k)
                    del rows[k]
                cells0 = self.cells(S0, depth, head, rows)
                classes, killed, cands, dropped, G = None, set(), [], set(), {}
                self.record = rec
                it = 0
                continue
            changed = False
            before = (list(classes), set(killed)) if classes else None
            if classes is None:
                # first pass: discover changed cells, build classes
                phis = {k for k in cells0 if k[0] in ('reg', 'pidx', 'preg')}
                ch = set(phis)
                for b, nc in zip(backs, newcells):
                    for k in nc:
                        if k not in cells0:
                            continue
                        o = cellsg.get(k)
                        if nc[k] is not o:
                            if k[0] not in ('reg', 'pidx', 'preg') and o is not None and o.op == 'const' and o.sort == nc[k].sort and self.solver.valid(b.pc, eq(o, nc[k])):
                                continue    # re-assigned its old value; checked again in the later passes
                            ch.add(k)
                    for k in cells0:
                        if k not in nc and k[0] in ('mem', 'pmem', 'pimem'):
                            killed.add(k)
                if snap is not None and S0.spec.mode == RUN:
                    pass
                classes = self.initial_classes(ch, cells0, backs, newcells)
                changed = True
                if not backs:
                    changed = False
            else:
                newch, merged = set(), False
                inG0 = {k for c in classes for k in c['m']}
                for b, nc in zip(backs, newcells):
                    # new changed cells
                    for k, v in nc.items():
                        if k in inG0 or k in killed or k in newch:
                            continue
                        o = cellsg.get(k)
                        if o is None or o is v:
                            continue
                        if o.sort == v.sort and self.solver.valid(b.pc, eq(o, v)):
                            continue
                        newch.add(k)
                if newch:
                    new = self.initial_classes(newch, cells0, backs, newcells)
                    # lists that started alike are compared again from the most optimistic grouping
                    for x in new:
                        o = cells0[x['base']]
                        same = [c for c in classes if not isinstance(o.sort, int) and cells0[c['base']] is o]
                        if same:
                            u = set(x['m'])
                            for c in same:
                                u |= set(c['m'])
                            classes = [c for c in classes if not any(c is y for y in same)] + [self.new_class(u, cells0)]
                        else:
                            classes.append(x)
                    changed = merged = True
                for b, nc in zip(backs, newcells) if not merged else ():
                    for k in cells0:
                        if k not in nc and k not in killed and k[0] in ('mem', 'pmem', 'pimem'):
                            killed.add(k)
                            changed = True
                    # class consistency
                    ncl = []
                    for c in classes:
                        base = c['base']
                        if base not in nc:
                            bad = set(c['m']) - {base}
                            if bad:
                                ncl.append(self.new_class(bad, cells0))
                            killed.add(base)
                            changed = True
                            continue
                        bad = set()
                        for key, (w, off) in c['m'].items():
                            if key == base:
                                continue
                            if key not in nc:
                                bad.add(key)
                                continue
                            want = self.member(nc[base], w, off)
                            if want is nc[key]:
                                continue
                            if want.sort != nc[key].sort:
                                bad.add(key)
                                continue
                            if not self.solver.valid(b.pc, eq(want, nc[key])):
                                bad.add(key)
                        if bad:
                            changed = True
                            keep = {k: v for k, v in c['m'].items() if k not in bad}
                            c2 = dict(c)
                            c2['m'] = keep
                            ncl.append(c2)
                            # group the failing members by their own behaviour
                            for g in self.regroup(bad, cells0, nc, b):
                                ncl.append(self.new_class(g, cells0))
                        else:
                            ncl.append(c)
                    classes = ncl
            for c in classes or ():
                sy = c['sym']
                c.pop('delta', None)
                if isinstance(sy.sort, int) and sy.sort and newcells:
                    d = {sub(nc[c['base']], cellsg[c['base']]) for nc in newcells if c['base'] in nc and c['base'] in cellsg}
                    if len(d) == 1 and min(d, key=id).op == 'const':
                        v = min(d, key=id).val
                        c['delta'] = v - (1 << sy.sort) if v >> (sy.sort - 1) else v
            if changed and self.unroll_first and it >= 2 and before and not any(c.get('bounds_done') for c in before[0]):
                # cells drift apart only from states a bound may exclude: try bounds before the split
                new = self.bound_candidates({c['sym']: c for c in before[0]}, myconds, cells0, S0)
                new = [c for c in new if c.id not in dropped]
                if new:
                    classes, killed = before
                    for c in classes:
                        c['bounds_done'] = True
                    cands = self.base_cands(S0, classes, dropped, cells0) + new
                    continue
            if changed:
                # refresh symbols so that stale constraints do not leak
                for c in classes:
                    c.pop('um', None)
                    c.pop('spec_done', None)
                    c.pop('bounds_done', None)
                    c['sym'] = self.class_sym(c, cells0)
                cands = self.base_cands(S0, classes, dropped, cells0)
                continue
            # value ranges: an upper bound of the entry value and of every value after an iteration is invariant
            tight = False
            for c in classes:
                sy = c['sym']
                if not (isinstance(sy.sort, int) and sy.sort) or not backs:
                    continue
                U = max([cells0[c['base']].umax] + [nc[c['base']].umax for nc in newcells])
                if U < sy.umax:
                    c['um'] = U
                    tight = True
            if not tight and backs and not any(c.get('spec_done') for c in classes):
                tight = self.interval_fixpoint(classes, cells0, newcells)
            if tight:
                for c in classes:
                    c['sym'] = self.class_sym(c, cells0)
                    c.pop('bounds_done', None)
                cands = self.base_cands(S0, classes, dropped, cells0)
                continue
            # candidate bounds
            syms = {c['sym']: c for c in classes}
            if it >= 2 and not any(c.get('bounds_done') for c in classes) and classes:
                for c in classes:
                    c['bounds_done'] = True
                new = self.bound_candidates(syms, myconds, cells0, S0)
                new = [c for c in new if c.id not in dropped]
                if new:
                    cands = self.base_cands(S0, classes, dropped, cells0) + new
                    continue
            # check candidates at back edges
            bad = False
            for b, nc in zip(backs, newcells):
                m = {c['sym']: nc[c['base']] for c in classes}
                keep = []
                kid = set()
                for c in cands:
                    if (c.op == 'or' and any(x.id in kid for x in c.args)) or (c.op == 'not' and c.args[0].op == 'and' and any(not_(x).id in kid for x in c.args[0].args)) \
                            or self.solver.valid(b.pc, t.subst(c, m)):
                        keep.append(c)
                        kid.add(c.id)
                    else:
                        dropped.add(c.id)
                        bad = True
                cands = keep
            if bad:
                continue
            break
        if DEBUG and 'c' in DEBUG:
            print('INV', where, 'snap', snap and snap[0], 'rec', rec)
            for c in classes or []:
                print('    ', c['sym'], c['sym'].umax if isinstance(c['sym'].sort, int) else '', {k: v for k, v in c['m'].items()})
            for c in cands:
                print('     bound', str(c)[:150])
        # final pass: obligations are checked, and the invariant is re-checked on its back edges
        self.record = rec
        self.conds = []
        if rec:
            self.obl.append(('invariant', where, 'loop invariant established and preserved (%d classes, %d bounds)' % (len(classes or []), len(cands))))
        if rec:
            try:
                backs, exits = self.explore([Sg0], depth, head, body)
            except Violation as e:
                raise LoopFail(e)
            finally:
                myconds = self.conds
                self.conds = saved_conds + myconds
            fails = []
            if snap is not None:
                aligned = []
                for b in self.merge_all([b for b in backs if b.spec.mode != FAIL]) if backs else []:
                    aligned += self.align(b, snap[0], where, self.leaver(depth, head, body, exits) if may_leave else None)
                fails = [b for b in backs if b.spec.mode == FAIL] + [b for b in aligned if b.spec.mode == FAIL]
                backs = [b for b in aligned if b.spec.mode != FAIL]
            else:
                backs = self.merge_all(backs) if backs else []
            newcells = [self.cells(b, depth, head, rows) for b in backs]
            inG = {k for c in classes or [] for k in c['m']}
            for b, nc in zip(backs, newcells):
                bad = None
                for c in classes or []:
                    base = c['base']
                    for key, (w, off) in c['m'].items():
                        if key not in nc or base not in nc:
                            bad = key
                            break
                        want = self.member(nc[base], w, off)
                        if want is not nc[key] and not (want.sort == nc[key].sort and self.solver.valid(b.pc, eq(want, nc[key]))):
                            bad = key
                            break
                    if bad is None and isinstance(c['sym'].sort, int) and c['sym'].sort and c['sym'].umax < nc[base].umax and c.get('um') is not None:
                        if not self.solver.valid(b.pc, ule(nc[base], const(c['sym'].umax, c['sym'].sort))):
                            bad = base
                    if bad is not None:
                        break
                if bad is None:
                    for k, v in cellsg.items():
                        if k in inG or k in killed:
                            continue
                        o = nc.get(k)
                        if o is None or (o is not v and not (o.sort == v.sort and self.solver.valid(b.pc, eq(o, v)))):
                            bad = k
                            break
                if bad is None:
                    m = {c['sym']: nc[c['base']] for c in classes or []}
                    for c in cands:
                        if not self.solver.valid(b.pc, t.subst(c, m)):
                            bad = 'bound'
                            break
                if bad is not None:
                    raise LoopFail(Violation('invariant', 'loop invariant at %s not preserved (%s)' % (where, bad), b, TRUE))
        # termination
        if rec and backs:
            if not self.terminates(S0, classes, backs, newcells, myconds, cellsg, head):
                self.term_fail.append(where)
                if self.require_term:
                    raise Violation('termination', 'no decreasing measure for the loop at ' + where, backs[0], TRUE)
            else:
                self.obl.append(('termination', where, 'loop terminates'))
        for fs in fails:
            if self.solver.sat(fs.pc, TRUE) == 'unsat':
                continue
            exits = exits + self.loop_attempt(fs, head, None)
        return exits

    def base_cands(self, S0, classes, dropped, cells0):
        """the position of a bit buffer stays within the buffer"""
        out = []
        syms = {c['sym']: c for c in classes}
        ent = {s: cells0[c['base']] for s, c in syms.items()}
        for gen in getattr(self, 'early_inv', []):
            for x in gen(self, syms, ent, S0):
                if x.op != 'const' and x.id not in dropped and self.solver.valid(S0.pc, t.subst(x, ent)):
                    out.append(x)
        if not self.track_pos:
            return out
        for c in classes:
            for key, (w, off) in c['m'].items():
                if key[0] == 'bbP':
                    S, P, T = S0.bb[key[1]]
                    x = ule(self.member(c['sym'], w, off), T)
                    if x.id not in dropped and self.solver.valid(S0.pc, ule(P, T)):
                        out.append(x)
        return out

    def interval_fixpoint(self, classes, cells0, newcells):
        """upper bounds of the class symbols by interval iteration (checked again in the final pass)"""
        cl = [c for c in classes if isinstance(c['sym'].sort, int) and c['sym'].sort]
        for c in classes:
            c['spec_done'] = True
        cur = {c['sym']: cells0[c['base']].umax for c in cl}
        for rnd in range(6):
            m = {sy: fresh('iv', sy.sort, u) for sy, u in cur.items()}
            nxt = {}
            for c in cl:
                sy = c['sym']
                u = cells0[c['base']].umax
                for nc in newcells:
                    u = max(u, t.subst(nc[c['base']], m).umax)
                u = min(u, sy.umax)
                if u > cur[sy] and rnd >= 3:
                    u = sy.umax
                nxt[sy] = max(u, cur[sy])
            if nxt == cur:
                break
            cur = nxt
        else:
            return False
        tight = False
        for c in cl:
            if cur[c['sym']] < c['sym'].umax:
                c['um'] = cur[c['sym']]
                tight = True
        return tight

    def align(self, b, pc, where, leave=None):
        """bring the ghost of a back-edge state to the loop head position"""
        out = []
        wl = [b]
        n = 0
        stut = getattr(self, 'stutter', None)
        if stut and b.spec.proc.code[pc][0] == 'loop':
            # iterations of the code in which the ghost stays where it is
            c = stut(b)
            s = b.clone()
            s.assume(not_(c))
            b.assume(c)
            if self.solver.sat(s.pc, TRUE) != 'unsat':
                ch = self.chain_list(s.spec) or [s.spec.snap()]
                if ch[0][0] != pc:
                    raise LoopFail(Violation('lockstep', 'ghost loop not aligned with the loop at ' + where, s, TRUE))
                s.spec.goto(ch[0])
                out.append(s)
            if self.solver.sat(b.pc, TRUE) == 'unsat':
                return out
        while wl:
            n += 1
            if n > 14:
                raise LoopFail(Violation('lockstep', 'ghost loop not aligned with the loop at ' + where, b, TRUE))
            s = wl.pop()
            self.advance(s, 1)
            if s.spec.mode == FAIL:
                out.append(s)
                continue
            ch = self.chain_list(s.spec)
            isloop = s.spec.proc.code[pc][0] == 'loop'
            hit = [x for x in ch if x[0] == pc and (not isloop or pc in x[3])]
            if hit:
                s.spec.goto(hit[-1])
                s.spec.passed = s.spec.passed - {pc}
                out.append(s)
                continue
            op = s.spec.proc.code[s.spec.pc]
            if op[0] in ('br', 'failif'):
                c = self.evb(s, op[1])
                s2 = s.clone()
                s.assume(c)
                s2.assume(not_(c))
                wl += [s2, s]
                continue
            if self.solver.sat(s.pc, TRUE) == 'unsat':
                continue
            if leave is None or not leave(s):
                raise LoopFail(Violation('lockstep', 'at the end of an iteration of the loop at %s the specification expects: %s' % (where, self.opstr(s, op)), s, TRUE))
        return out

    def leaver(self, depth, head, body, exits):
        """a state at the loop head whose ghost has left its loop: the code must leave at its next test, too"""
        def leave(s):
            rec, conds, br, hints = self.record, self.conds, self.brconds, dict(self.hints)
            self.record, self.conds, self.brconds = False, [], []
            try:
                b, e = self.explore([s.clone()], depth, head, body)
            except (Violation, LoopFail):
                return False
            finally:
                self.record, self.conds, self.brconds, self.hints = rec, conds, br, hints
            if any(self.solver.sat(x.pc, TRUE) != 'unsat' for x in b):
                return False
            exits.extend(e)
            return True
        return leave

    def opstr(self, st, op):
        if op[0] == 'read':
            return 'read %s%s -> %s' % (op[1], '(%s)' % self.estr(op[2]) if op[2] else '(v)', self.estr(op[3]))
        if op[0] in ('call', 'event'):
            return '%s(...)' % op[1]
        if op[0] == 'ret':
            return 'return (end of the structure)'
        if op[0] == 'unimpl':
            return 'report unimplemented %s' % op[1]
        if op[0] == 'print':
            if op[1] == 'c':
                txt = ''
                for o in st.spec.proc.code[st.spec.pc:]:
                    if o[:2] != ['print', 'c']:
                        break
                    txt += o[2]
                return 'write %r' % txt
            return 'write ' + {'v': 'the value of %s', 'indent': 'a new line', 'call': 'the structure %s', 's': 'a name', 'pad': 'blanks'}[op[1]].replace('%s', self.estr(op[2]) if op[1] == 'v' else str(op[2]))
        return op[0]

    def estr(self, e):
        if e[0] in ('int', 'name', 'bool', 'str'):
            return str(e[1])
        if e[0] == 'attr':
            return self.estr(e[1]) + '.' + e[2]
        if e[0] == 'bin' or e[0] == 'cmp':
            return '(%s %s %s)' % (self.estr(e[2]), e[1], self.estr(e[3]))
        if e[0] == 'index':
            return '%s[%s]' % (self.estr(e[1]), self.estr(e[2]))
        return e[0]

    def member(self, sym, w, off):
        if w is None:
            return sym
        v = sym
        if v.sort != w:
            v = zext(v, w) if v.sort < w else trunc(v, w)
        return add(v, const(off, w)) if off else v

    def class_sym(self, c, cells0):
        b = cells0[c['base']]
        um = None
        if isinstance(b.sort, int) and b.sort == 64:
            for k in c['m']:
                if k[-1] == ('#',) or (isinstance(k[-1], tuple) and k[-1][-1:] == ('#',)):
                    um = VEC_MAX
            if any(k[0] in ('bbP', 'sP') for k in c['m']):
                um = 1 << 36
        if isinstance(b.sort, tuple):
            um = None
            base = b.sort
            while isinstance(base, tuple):
                base = base[1]
            um = (1 << base) - 1 if base not in (0, 'F') else 1
            if any(isinstance(k[-1], tuple) and k[-1][-1:] == ('#',) for k in c['m']):
                um = VEC_MAX
        if c.get('um') is not None:
            um = c['um'] if um is None else min(um, c['um'])
        nm = '_'.join(str(x) for x in c['base'] if not isinstance(x, tuple))[-24:]
        return fresh('L:' + nm, b.sort, um)

    def width_key(self, v):
        return v.sort if isinstance(v.sort, int) else 999

    def new_class(self, cells, cells0):
        """class of cells that agree (up to a constant) at entry; caller guarantees the grouping is sensible"""
        cells = sorted(cells, key=lambda k: (self.width_key(cells0[k]), str(k)))
        base = cells[0]
        bv = cells0[base]
        m = {}
        for k in cells:
            v = cells0[k]
            if not isinstance(bv.sort, int) or bv.sort == 0:
                m[k] = (None, 0)
            else:
                d = sub(v, zext(bv, v.sort))
                m[k] = (v.sort, d.val if d.op == 'const' else 0)
        c = {'base': base, 'm': m}
        c['sym'] = self.class_sym(c, cells0)
        return c

    def entry_key(self, v):
        if isinstance(v.sort, int) and v.sort:
            w = zext(v, 64) if v.sort < 64 else v
            c, p = t._lin_parts(w)
            return ('lin', tuple(sorted((a.id, k) for a, k in p.items())))
        return ('id', v.id)

    def regroup(self, cells, cells0, nc, b):
        groups = {}
        for k in cells:
            v = nc.get(k)
            key = (self.entry_key(cells0[k]), self.delta_key(cells0[k], v) if v is not None else ('gone', k))
            groups.setdefault(key, set()).add(k)
        return self.semantic(groups, cells0, [b], [nc])

    def semantic(self, groups, cells0, backs, newcells):
        """merge syntactic groups whose members provably evolve alike"""
        out = []
        byentry = {}
        for key, g in sorted(groups.items(), key=lambda kv: sorted(map(str, kv[1]))):
            byentry.setdefault((key[0], 'ptr' in key), []).append(set(g))
        for (ek, _), gs in byentry.items():
            acc = []
            for g in gs:
                r = sorted(g, key=str)[0]
                hit = False
                if len(gs) > 1 and len(acc) < 12 and all(r in nc for nc in newcells):
                    for h in acc:
                        q = sorted(h, key=str)[0]
                        if self.evolve_alike(q, r, cells0, backs, newcells):
                            h |= g
                            hit = True
                            break
                if not hit:
                    acc.append(g)
            out += acc
        return out

    def evolve_alike(self, q, r, cells0, backs, newcells):
        x0, y0 = cells0[q], cells0[r]
        if isinstance(x0.sort, int) and x0.sort and isinstance(y0.sort, int) and y0.sort:
            if x0.sort > y0.sort:
                q, r, x0, y0 = r, q, y0, x0
            d = sub(y0, zext(x0, y0.sort))
            if d.op != 'const':
                return False
            for b, nc in zip(backs, newcells):
                if q not in nc or r not in nc:
                    return False
                if not self.solver.valid(b.pc, eq(add(zext(nc[q], y0.sort), d), nc[r])):
                    return False
            return True
        if x0.sort != y0.sort:
            return False
        for b, nc in zip(backs, newcells):
            if q not in nc or r not in nc:
                return False
            if not self.solver.valid(b.pc, eq(nc[q], nc[r])):
                return False
        return True

    def delta_key(self, o, v):
        if isinstance(v.sort, int) and v.sort:
            # behave alike: compare the new value relative to the entry constant offset
            w = zext(v, 64) if v.sort < 64 else v
            c, p = t._lin_parts(w)
            oc, op_ = t._lin_parts(zext(o, 64) if o.sort < 64 else o)
            return ('lin', tuple(sorted((a.id, k) for a, k in p.items())), (c - oc) & ((1 << 64) - 1))
        return ('id', v.id)

    def initial_classes(self, ch, cells0, backs, newcells):
        groups = {}
        for k in ch:
            o = cells0[k]
            key = [self.entry_key(o)]
            if isinstance(o.sort, int) and o.sort and k[0] in ('preg', 'pmem'):
                key.append('ptr')
            for nc in newcells:
                v = nc.get(k)
                key.append(self.delta_key(o, v) if v is not None else ('gone', k))
            groups.setdefault(tuple(key), set()).add(k)
        return [self.new_class(g, cells0) for g in self.semantic(groups, cells0, backs, newcells)]

    def bound_candidates(self, syms, conds, cells0, S0):
        keys = frozenset(syms)
        ent = {s: cells0[c['base']] for s, c in syms.items()}
        out = {}

        def try_(c):
            if c.op == 'const' or c.id in out:
                return
            vs = t.tvars(c)
            if not vs & keys:
                return
            # only symbols of this loop and values fixed before it
            e = t.subst(c, ent)
            if self.solver.valid(S0.pc, e):
                out[c.id] = c
        seen = set()
        for c in conds:
            x = c.args[0] if c.op == 'not' else c
            if x.id in seen:
                continue
            seen.add(x.id)
            if not (t.tvars(x) & keys):
                continue
            if x.op in ('ult', 'slt', 'eq') and isinstance(x.args[0].sort, int) and x.args[0].sort:
                a, b = x.args
                if x.op == 'eq' and a.op == 'lin' and b.op == 'const':
                    # a1 + k = 0 forms: split into  sym = rest
                    cc, p = t._lin_parts(a)
                    for s in list(p):
                        if s in keys or (s.op == 'zext' and s.args[0] in keys):
                            rest = t.sub(a, t.scale(s, p[s]))
                            k = p[s]
                            if k == 1:
                                other = t.neg(rest)
                            elif k == (1 << a.sort) - 1:
                                other = rest
                            else:
                                continue
                            try_(ule(s, other))
                            try_(ule(other, s))
                    continue
                lt = ult if x.op != 'slt' else t.slt
                le = lambda p, q: not_(lt(q, p))
                try_(le(a, b))
                try_(le(b, a))
                if x.op == 'slt':
                    try_(ule(a, b))
                    try_(ule(b, a))
                one = const(1, a.sort)
                try_(or_(le(a, b), eq(a, add(b, one))))
                try_(or_(le(b, a), eq(b, add(a, one))))
                for s in keys:
                    if isinstance(s.sort, int) and s.sort and s in t.tvars(x) and ent[s].op != 'const':
                        still = eq(s, ent[s])
                        try_(or_(le(a, b), eq(a, add(b, one)), still))
                        try_(or_(le(b, a), eq(b, add(a, one)), still))
                for s in keys:
                    if isinstance(s.sort, int) and s.sort >= 32 and s in t.tvars(x) and ent[s].op == 'const':
                        # either still at the entry value or the exit condition holds
                        try_(or_(eq(s, ent[s]), x))
                        try_(or_(eq(s, ent[s]), not_(x)))
        for s, e in ent.items():
            if s.sort in (0, 8) and e.op == 'const':
                try_(eq(s, e))
                if self.unroll_first and e.val in (0, 1):
                    # a flag that remembers a condition
                    b = s if s.sort == 0 else ne(s, const(0, s.sort))
                    for c in conds[:60]:
                        if s not in t.tvars(c) and t.tvars(c) & keys:
                            try_(eq(b, c))
                            try_(eq(b, not_(c)))
            if isinstance(s.sort, int) and s.sort and e.op == 'const' and e.val:
                try_(ule(e, s))
            if isinstance(s.sort, int) and s.sort >= 32 and e.op != 'const':
                try_(ule(e, s))
        # values that move in step, or against each other
        mv = [(s, c['delta']) for s, c in syms.items() if c.get('delta')]
        for i, (a, da) in enumerate(mv):
            for b, db in mv[i + 1:]:
                for f, ok in ((add, da + db == 0), (sub, da == db)):
                    if not ok:
                        continue
                    for w in sorted({a.sort, b.sort}):
                        cut = lambda x: zext(x, w) if x.sort < w else trunc(x, w)
                        x, y = cut(a), cut(b)
                        e = f(cut(ent[a]), cut(ent[b]))
                        if f is add or e.op != 'const':
                            try_(eq(x, sub(e, y) if f is add else add(e, y)))
        # a count of what is left
        wide = [s for s in ent if isinstance(s.sort, int) and s.sort == 64]
        for i, a in enumerate(wide):
            for b in wide[i + 1:]:
                if ent[a].op != 'const' and ent[b].op != 'const':
                    e = add(ent[a], ent[b])
                    if e.op == 'var' or e.op == 'const' or (e.op == 'lin' and len(e.args) < max(len(x.args) for x in (ent[a], ent[b]))):
                        try_(eq(a, sub(e, b)))
        for gen in getattr(self, 'extra_inv', []):
            for c in gen(self, syms, ent, S0):
                try_(c)
        return list(out.values())

    def terminates(self, S0, classes, backs, newcells, conds, cellsg, head):
        if all(self.solver.valid(b.pc, b.consumed) for b in backs):
            return True
        meas = []
        for c in classes:
            s = c['sym']
            if isinstance(s.sort, int) and s.sort:
                meas.append(s)
        seen = set()
        for c in conds:
            x = c.args[0] if c.op == 'not' else c
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op in ('ult', 'slt', 'eq') and isinstance(x.args[0].sort, int) and x.args[0].sort:
                a, b = x.args
                meas.append(sub(b, a))
                meas.append(sub(a, b))
                meas.append(add(sub(b, a), const(1, a.sort)))
                meas.append(add(sub(a, b), const(1, a.sort)))
                meas += [x for x in (a, b) if x.op not in ('const', 'var')]
                if x.op == 'ult':
                    meas.append(ite(x, sub(b, a), const(0, a.sort)))
        keys = frozenset(c['sym'] for c in classes)
        for m in meas:
            if not (t.tvars(m) & keys):
                continue
            ok = True
            for b, nc in zip(backs, newcells):
                # lexicographic (remaining input, measure)
                new = t.subst(m, {c['sym']: nc[c['base']] for c in classes})
                if not self.solver.valid(b.pc, or_(b.consumed, ult(new, m))):
                    ok = False
                    break
            if ok:
                return True
        return False


class _I1:
    k, n = 'int', 1


ll_i1 = _I1()


def agg_cast(x, n):
    """integers of odd widths are byte aggregates"""
    if not isinstance(x, Agg):
        if x.sort == 0:
            x = zext(x, 8)
        d = {(0,): x} if x.op != 'const' else {(k,): const(x.val >> (8 * k), 8) for k in range((x.sort + 7) // 8)}
    else:
        d = {k: v for k, v in x.d.items() if k[0] * 8 < max(n, 1)}
    if n in (0, 8, 16, 32, 64):
        if not d:
            return const(0, n)
        if set(d) == {(0,)} and isinstance(d[(0,)], t.T):
            return trunc(d[(0,)], n) if d[(0,)].sort > n else zext(d[(0,)], n)
        if n == 0 and (0,) in d:
            return trunc(d[(0,)], 0)
        if all(len(k) == 1 and isinstance(v, t.T) and v.sort == 8 for k, v in d.items()):
            r = const(0, n)
            for k, v in d.items():
                r = t.bor(r, t.shl(zext(v, n), const(8 * k[0], n)))
            return r
        raise Unsupported('cast of aggregate')
    return Agg(d)


def agg_op(op, x, y):
    if op in ('lshr', 'shl') and isinstance(y, t.T) and y.op == 'const' and y.val % 8 == 0:
        k = y.val // 8 * (1 if op == 'shl' else -1)
        return Agg({(o[0] + k,) + o[1:]: v for o, v in x.d.items() if o[0] + k >= 0})
    if op in ('or', 'add') and isinstance(x, Agg) and isinstance(y, Agg):
        d = dict(x.d)
        for k, v in y.d.items():
            if k in d and not (d[k].op == 'const' and d[k].val == 0):
                if v.op == 'const' and v.val == 0:
                    continue
                raise Unsupported('aggregate or')
            d[k] = v
        return Agg(d)
    if op == 'and' and isinstance(y, t.T) and y.op == 'const':
        y = Agg({(k,): const(y.val >> (8 * k) & 255, 8) for k in range(y.sort // 8)})
    if op == 'and' and isinstance(x, t.T) and x.op != 'const':
        x = Agg({})                             # undefined bytes, overwritten by the inserts that follow
    if op == 'and' and isinstance(y, Agg) and all(v.op == 'const' and v.val in (0, 255) for v in y.d.values()):
        return Agg({k: v for k, v in x.d.items() if y.d.get(k) is not None and y.d[k].val == 255})
    raise Unsupported('aggregate ' + op)


def _icmp(pr):
    return {'eq': eq, 'ne': ne, 'ult': ult, 'ule': ule, 'ugt': lambda a, b: ult(b, a), 'uge': lambda a, b: ule(b, a),
            'slt': t.slt, 'sle': t.sle, 'sgt': lambda a, b: t.slt(b, a), 'sge': lambda a, b: t.sle(b, a)}[pr]


ICMP = {p: _icmp(p) for p in ('eq', 'ne', 'ult', 'ule', 'ugt', 'uge', 'slt', 'sle', 'sgt', 'sge')}
ARITH = {'add': add, 'sub': sub, 'mul': t.mul, 'udiv': t.udiv, 'urem': t.urem, 'sdiv': t.sdiv, 'srem': t.srem, 'shl': t.shl,
         'lshr': t.lshr, 'ashr': t.ashr, 'and': t.band, 'or': t.bor, 'xor': t.bxor, 'fadd': None, 'fsub': None, 'fmul': None, 'fdiv': None}
from engine import global_elems   # noqa
import re, heapq   # noqa
