"""The verifier: symbolic execution of the extracted IR, function by function,
in lockstep with a ghost specification program (spec.py).

Callees that have a contract are replaced by it; everything else is executed
through its own IR.  Loops are cut at their heads by inferred inductive
invariants (classes of equal / constant-difference cells between code and
ghost state, plus bounds), which are themselves obligations.
"""
import heapq
import re
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import terms as t   # noqa: E402
from terms import const, TRUE, FALSE, and_, or_, not_, eq, ne, ite, ult, ule, zext, sext, trunc, add, sub, select, store, fresh, constarr   # noqa: E402
from ll import Unsupported, IntTy   # noqa: E402

VEC_MAX = 1 << 48


class Violation(Exception):
    def __init__(self, kind, msg, state=None, goal=None):
        Exception.__init__(self, msg)
        self.kind, self.msg, self.state, self.goal = kind, msg, state, goal


class LoopFail(Exception):
    def __init__(self, viol):
        Exception.__init__(self, viol.msg)
        self.viol = viol


class Budget(Exception):
    pass


# ------------------------------------------------------------------ pointers
class Ptr:
    __slots__ = ('root', 'offs', 'idx', 'es', 'chk', 'new')

    def __init__(self, root, offs=(0,), idx=(), es=0, chk=False, new=False):
        self.root, self.offs, self.idx, self.es, self.chk, self.new = root, offs, idx, es, chk, new

    def key(self):
        r = self.root
        rk = (r[0], r[1], r[2].id) if r[0] == 'H' else r
        return (rk, self.offs, tuple(i.id for i in self.idx))

    def __repr__(self):
        return 'Ptr(%s,%s,%s)' % (self.root, self.offs, self.idx)


NULL = Ptr(('N',))


class ForkOn(Unsupported):
    """a pointer is one of two objects: the executing block goes on with one state per case"""

    def __init__(self, c, what):
        Unsupported.__init__(self, what)
        self.c = c


class PtrIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Agg:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d


def same_ptr(a, b):
    return isinstance(a, Ptr) and isinstance(b, Ptr) and a.key() == b.key()


class Region:
    __slots__ = ('type', 'default', 'leaves', 'len', 'llty', 'ro')

    def __init__(self, type=None, default='undef', leaves=None, len=None, llty=None, ro=False):
        self.type, self.default, self.leaves, self.len, self.llty, self.ro = type, default, leaves or {}, len, llty, ro

    def with_(self, k, v):
        r = Region(self.type, self.default, dict(self.leaves), self.len, self.llty, self.ro)
        r.leaves[k] = v
        return r

    def copy(self):
        return Region(self.type, self.default, dict(self.leaves), self.len, self.llty, self.ro)


class Frame:
    __slots__ = ('func', 'block', 'idx', 'regs', 'pred', 'uid')

    def __init__(self, func, block, idx, regs, uid=0):
        self.func, self.block, self.idx, self.regs, self.uid = func, block, idx, regs, uid

    def copy(self):
        return Frame(self.func, self.block, self.idx, dict(self.regs), self.uid)


# ------------------------------------------------------------------ spec values
class VI:
    __slots__ = ('t', 'ty')

    def __init__(self, term, ty):
        self.t, self.ty = term, ty

    def __repr__(self):
        return 'VI(%s:%s)' % (self.t, self.ty)


class VH:
    __slots__ = ('t', 'T')

    def __init__(self, term, T):
        self.t, self.T = term, T

    def __repr__(self):
        return 'VH(%s:%s)' % (self.t, self.T)


class VL:
    """list: leaves keyed by sub-key, ('#',) length and (0,...) elements"""
    __slots__ = ('d', 'ty')

    def __init__(self, d, ty):
        self.d, self.ty = d, ty

    def __repr__(self):
        return 'VL(%s:%s)' % (self.d, self.ty)


class VS:
    """struct literal: field name -> spec value"""
    __slots__ = ('d', 'T')

    def __init__(self, d, T):
        self.d, self.T = d, T


class VMap:
    __slots__ = ('T', 'off', 'h', 'vT')

    def __init__(self, T, off, h, vT):
        self.T, self.off, self.h, self.vT = T, off, h, vT


ITY = {'uint32_t': ('u', 32), 'int32_t': ('i', 32), 'uint8_t': ('u', 8), '_Bool': ('u', 8), 'bool': ('u', 8), 'size_t': ('u', 64),
       'uint64_t': ('u', 64), 'int': ('i', 32), 'unsigned int': ('u', 32), 'unsigned long': ('u', 64), 'uint16_t': ('u', 16),
       'unsigned char': ('u', 8), 'char': ('u', 8), 'ProfileType': ('u', 32), 'NalUnitType': ('u', 32), 'u32': ('u', 32), 'i32': ('i', 32), 'u8': ('u', 8),
       'u16': ('u', 16), 'u64': ('u', 64), 'i64': ('i', 64), 'float': ('f', 32), 'short': ('i', 16), 'unsigned short': ('u', 16)}


def ptee(ty):
    m = re.match(r'std::(?:unique_ptr|shared_ptr)<(.*?) ?>$', ty)
    if m:
        return m.group(1).split(', std::default_delete')[0]
    if ty.endswith('*'):
        return ty[:-1].strip()
    return None


def velem(ty):
    m = re.match(r'std::vector<(.*?)>$', ty)
    return m.group(1).strip() if m else None


def mapval(ty):
    m = re.match(r'std::(?:unordered_)?map<[^,]+, std::shared_ptr<(.*?)> ?>$', ty)
    return m.group(1).strip() if m else None


class Spec:
    __slots__ = ('proc', 'pc', 'env', 'mode', 'heap', 'P', 'S', 'Tt', 'chain', 'passed')

    def copy(self):
        s = Spec()
        s.proc, s.pc, s.env, s.mode, s.heap = self.proc, self.pc, self.env, self.mode, self.heap
        s.P, s.S, s.Tt, s.chain, s.passed = self.P, self.S, self.Tt, self.chain, self.passed
        return s

    def snap(self):
        return (self.pc, self.env, self.heap, self.passed, self.P, self.S, self.Tt)

    def goto(self, x):
        self.pc, self.env, self.heap, self.passed, self.P, self.S, self.Tt = x
        self.chain = None


class State:
    __slots__ = ('frames', 'mem', 'heap', 'bb', 'pc', 'lits', 'spec', 'ev', 'consumed', 'nalloc', 'tags')

    def clone(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.heap = dict(self.heap)
        s.bb = dict(self.bb)
        s.pc = self.pc
        s.lits = self.lits
        s.spec = self.spec.copy()
        s.ev = self.ev
        s.consumed = self.consumed
        s.nalloc = self.nalloc
        s.tags = self.tags
        return s

    def assume(self, c):
        if c is TRUE:
            return
        for x in (c.args if c.op == 'and' else (c,)):
            if x.id not in self.lits:
                self.pc = self.pc + (x,)
                self.lits = self.lits | {x.id}


def unwritten(r, k):
    """is k an element of a vector that was made empty and has not been written since?

    Elements past a vector's size are ghost values (every element access proves
    its index in range), kept zero as in the specification's lists."""
    if k[-1] == '#':
        return False
    return any(k[:j] + ('#',) in r.leaves for j in range(1, len(k)))


class Ctx:
    """one verification task (one function against one contract)"""

    def __init__(self, prog, world, contracts, invs, solver=None):
        self.prog, self.world, self.contracts, self.invs = prog, world, contracts, invs
        self.solver = solver or t.Solver()
        self.record = True
        self.obl = []            # (kind, where, text)
        self.conds = []
        self.brconds = []
        self.bb_contract = True
        self.trusted = set()
        self.inlined = set()
        self.steps = 0
        self.max_steps = 400000
        self.unroll_all = False
        self.unroll_first = 0
        self.track_pos = False
        self.extern_ok = set()
        self.loops_done = []
        self.term_ok = True
        self.deadline = None
        self.heap0 = {}
        self.layf = {}
        self.live = {}
        self.fmt_check = None
        self.success_returns = 0
        self.fail_returns = 0
        self.noinline = {}
        self.hints = {}

    # ------------------------------------------------------------- layouts
    def fields(self, T):
        d = self.layf.get(T)
        if d is None:
            lay = self.prog.layouts.get(T)
            if lay is None:
                raise Unsupported('no layout for ' + T)
            d = ({o: (n, ty) for o, n, ty in lay['fields']}, {n: (o, ty) for o, n, ty in lay['fields']})
            self.layf[T] = d
        return d

    def pointee(self, T, offs):
        """pointee type of the pointer leaf at offs of T"""
        byoff, _ = self.fields(T)
        if offs[0] not in byoff:
            raise Unsupported('pointer leaf %s of %s' % (offs, T))
        ty = byoff[offs[0]][1]
        for o in offs[1:]:
            e = velem(ty)
            if e is None:
                mv = mapval(ty)
                if mv is not None:
                    return mv
                raise Unsupported('pointer leaf type %s' % ty)
            ty = e
        p = ptee(ty)
        if p is None:
            raise Unsupported('not a pointer leaf: %s %s' % (ty, offs))
        return p

    # initial heap arrays
    def heap_init(self, T, offs, base):
        k = (T, offs)
        v = self.heap0.get(k)
        if v is not None:
            return v
        nlev = sum(1 for o in offs[1:] if o != '#') + 1
        s = base
        for _ in range(nlev):
            s = ('A', s)
        byoff, _ = self.fields(T)
        fname = byoff[offs[0]][0] if offs[0] in byoff else '?%d' % offs[0]
        um = None
        nn = ''
        inv = self.invs.get(T, {}).get(fname)
        if offs[-1] == '#':
            um = VEC_MAX
            if inv and 'lenmax' in inv:
                um = inv['lenmax']
        elif offs[-1] == 'has':
            pass
        elif inv and len(offs) == 1:
            um = inv.get('max')
            if inv.get('nonnull'):
                nn = 'nn:'
        elif inv and 'elemmax' in inv:
            um = inv['elemmax']
        if offs[-1] != 'has' and offs[0] in byoff and (mapval(byoff[offs[0]][1]) is not None):
            nn = 'nn:'
        if inv and inv.get('elem_nonnull') and len(offs) == 2 and offs[-1] == 0:
            nn = 'nn:'
        if um is None and byoff.get(offs[0], (0, ''))[1] in ('_Bool', 'bool') and len(offs) == 1:
            um = 1
        v = t.var('%sH:%s.%s%s' % (nn, T.split('::')[-1], fname, ''.join('.%s' % o for o in offs[1:])), s,
                  um if um is not None else (((1 << base) - 1) if base else 1))
        self.heap0[k] = v
        return v

    # ------------------------------------------------------------- obligations
    def where(self, st):
        f = st.frames[-1]
        return self.srcline(f)

    def srcline(self, f):
        i = f.func.blocks[f.block].instrs
        k = min(f.idx, len(i) - 1)
        for j in list(range(k, len(i))) + list(range(k, -1, -1)):
            m = re.search(r'!dbg (!\d+)', i[j].line)
            if m:
                loc = f.func.mod.dbgloc.get(m.group(1))
                seen = 0
                while loc and loc[2] and seen < 20:      # outermost frame of inlined stubs
                    loc = f.func.mod.dbgloc.get(loc[2])
                    seen += 1
                if loc:
                    return '%s:%d' % (os.path.basename(getattr(f.func, 'src', '?')), loc[0])
        return f.func.name

    def oblige(self, st, kind, cond, msg):
        """discharge pc => cond or raise"""
        if cond is TRUE or cond.id in st.lits:
            if self.record:
                self.obl.append((kind, self.where(st), msg))
            return
        if not self.record:
            # invariant inference: the obligation is assumed here and checked in the final pass
            st.assume(cond)
            return
        self.obl.append((kind, self.where(st), msg))
        r = self.solver.sat(st.pc, not_(cond))
        if r == 'unsat':
            st.assume(cond)
            return
        raise Violation(kind, msg + ' at ' + self.where(st) + (' [solver: %s]' % r), st, not_(cond))

    def decide(self, st, c):
        """True / False / None"""
        if c is TRUE or c.id in st.lits:
            return True
        if c is FALSE or not_(c).id in st.lits:
            return False
        return None

    def decide2(self, st, c):
        d = self.decide(st, c)
        if d is not None:
            return d
        if self.solver.sat(st.pc, c) == 'unsat':
            return False
        if self.solver.sat(st.pc, not_(c)) == 'unsat':
            return True
        return None

    # ------------------------------------------------------------- memory
    def resolve_ptr(self, st, p, what='deref'):
        while isinstance(p, PtrIte):
            d = self.decide2(st, p.c)
            if d is None:
                # exclude a null alternative by obligation
                if isinstance(p.a, Ptr) and p.a.root[0] == 'N':
                    self.oblige(st, 'nonnull', not_(p.c), 'null pointer ' + what)
                    p = p.b
                    continue
                if isinstance(p.b, Ptr) and p.b.root[0] == 'N':
                    self.oblige(st, 'nonnull', p.c, 'null pointer ' + what)
                    p = p.a
                    continue
                raise ForkOn(p.c, 'ambiguous pointer ' + what)
            p = p.a if d else p.b
        if isinstance(p, t.T):
            raise Unsupported('integer used as pointer')
        return p

    def array_at(self, st, p):
        """is the location the start of an array object?"""
        if p.idx:
            return None
        if p.root[0] == 'R':
            r = st.mem.get(p.root[1])
            if r is None:
                return None
            if r.llty is not None:
                mod, ty = r.llty
                return arr_in(mod, ty, p.offs[0])
            T = r.type
        elif p.root[0] == 'H':
            T = p.root[1]
        else:
            return None
        if T is None:
            return None
        byoff, _ = self.fields(T)
        f = byoff.get(p.offs[0])
        if f:
            m = re.match(r'(.*)\[(\d+)\]$', f[1])
            if m and m.group(1) in ITY:
                return ITY[m.group(1)][1] // 8
        return None

    def leaf_get(self, st, root, offs, base):
        if root[0] == 'H':
            k = (root[1], offs)
            a = st.heap.get(k)
            if a is None:
                a = self.heap_init(root[1], offs, base)
            return select(a, root[2])
        r = st.mem.get(root[1])
        if r is None:
            raise Unsupported('dead region %s' % (root[1],))
        v = r.leaves.get(offs)
        if v is None:
            if r.default == 'zero' or unwritten(r, offs):
                s = base
                v = const(0, base)
                for o in offs[1:]:
                    if o != '#' and o != 'has':
                        v = constarr(v)
            elif offs[-1] == '#':
                raise Unsupported('uninitialised vector')
            else:
                s = base
                for o in offs[1:]:
                    if o != '#' and o != 'has':
                        s = ('A', s)
                v = fresh('undef', s)
            st.mem[root[1]] = r.with_(offs, v)
        return v

    def leaf_set(self, st, root, offs, v):
        if root[0] == 'H':
            k = (root[1], offs)
            a = st.heap.get(k)
            if a is None:
                s = v.sort
                while isinstance(s, tuple):
                    s = s[1]
                a = self.heap_init(root[1], offs, s)
            st.heap[k] = store(a, root[2], v)
            return
        r = st.mem[root[1]]
        if r.ro:
            raise Violation('frame', 'write to read-only input at ' + self.where(st), st, TRUE)
        st.mem[root[1]] = r.with_(offs, v)

    def check_access(self, st, p, what):
        if p.root[0] == 'N':
            raise Violation('nonnull', 'null pointer %s at %s' % (what, self.where(st)), st, TRUE)
        if p.root[0] == 'H':
            self.oblige(st, 'nonnull', ne(p.root[2], const(0, 64)), 'null pointer ' + what)
        if p.chk and p.idx:
            ln = None
            if p.root[0] == 'R':
                r = st.mem.get(p.root[1])
                if r is None:
                    raise Violation('dangling', 'access to a dead object at ' + self.where(st), st, TRUE)
                if r.len is not None:
                    ln = r.len
            if ln is None:
                lk = p.offs[:-1] + ('#',)
                if self.has_len(st, p.root, lk):
                    ln = self.leaf_get(st, p.root, lk, 64)
                    for i in p.idx[:-1]:
                        ln = select(ln, i)
                else:
                    n = self.fixed_len(st, p)
                    if n is None:
                        raise Unsupported('unbounded access %s' % p)
                    ln = const(n, 64)
            self.oblige(st, 'bounds', ult(p.idx[-1], ln), what + ' out of bounds')

    def has_len(self, st, root, lk):
        if root[0] == 'H':
            byoff, _ = self.fields(root[1])
            f = byoff.get(lk[0])
            return bool(f and velem(f[1]))
        r = st.mem[root[1]]
        if lk in r.leaves:
            return True
        return False

    def fixed_len(self, st, p):
        if p.root[0] == 'R':
            r = st.mem[p.root[1]]
            if r.llty is not None and len(p.idx) == 1:
                return arr_count(r.llty[0], r.llty[1], p.offs[0])
            T = r.type
        elif p.root[0] == 'H':
            T = p.root[1]
        else:
            return None
        if T:
            f = self.fields(T)[0].get(p.offs[0])
            if f:
                m = re.match(r'(.*)\[(\d+)\]$', f[1])
                if m:
                    return int(m.group(2))
        return None

    def load(self, st, p, ty):
        p = self.resolve_ptr(st, p, 'read')
        if p.root[0] == 'G':
            return self.load_global(st, p, ty)
        if p.root[0] == 'X':
            if ty.k == 'ptr':
                return Ptr(('X', p.root[1] + '*'))
            raise Unsupported('load from external ' + p.root[1])
        es = self.array_at(st, p)
        if es:
            p = Ptr(p.root, p.offs + (0,), (const(0, 64),), es, False)
        self.check_access(st, p, 'read')
        if ty.k == 'ptr':
            return self.load_ptr(st, p)
        if ty.k in ('double', 'float'):
            v = self.leaf_get(st, p.root, p.offs, 'F')
            for i in p.idx:
                v = select(v, i)
            return v
        if ty.k != 'int':
            raise Unsupported('load of %r' % ty)
        n = ty.n
        if n not in (1, 8, 16, 32, 64):
            return self.load_agg(st, p, n // 8)
        if n == 1:
            n = 8
        if p.idx and p.es == 1 and n > 8:
            # a wider integer read from a byte array: little endian bytes
            v = None
            for k in range(n // 8):
                q = Ptr(p.root, p.offs, p.idx[:-1] + (add(p.idx[-1], const(k, 64)),), 1, True)
                self.check_access(st, q, 'read')
                b = self.leaf_get(st, q.root, q.offs, 8)
                for i in q.idx:
                    b = select(b, i)
                b = zext(b, n)
                if k:
                    b = t.shl(b, const(8 * k, n))
                v = b if v is None else t.bor(v, b)
            return v
        v = self.leaf_get(st, p.root, p.offs, n)
        if isinstance(v, (Ptr, PtrIte)):
            raise Unsupported('pointer loaded as integer')
        for i in p.idx:
            v = select(v, i)
        if v.sort != n:
            if isinstance(v.sort, int) and v.sort > n and v.sort:
                v = trunc(v, n)
            else:
                return self.load_agg_int(st, p, n)
        if ty.n == 1:
            v = trunc(v, 0)
        return v

    def load_agg_int(self, st, p, n):
        raise Unsupported('width mismatch on load')

    def load_agg(self, st, p, nb):
        if p.root[0] == 'H' and not p.idx and len(p.offs) == 1:
            self.check_access(st, p, 'read')
            o = p.offs[0]
            return Agg({(k - o,): self.load(st, Ptr(p.root, (k,)), IntTy(ITY[ty][1])) for k, (_, ty) in self.fields(p.root[1])[0].items() if o <= k < o + nb})
        if p.idx or p.root[0] != 'R':
            raise Unsupported('aggregate load')
        r = st.mem[p.root[1]]
        o = p.offs[0]
        return Agg({(k[0] - o,) + k[1:]: v for k, v in r.leaves.items() if o <= k[0] < o + nb})

    def load_ptr(self, st, p):
        if p.root[0] == 'R' and not p.idx:
            r = st.mem.get(p.root[1])
            if r is None:
                raise Unsupported('dead region')
            v = r.leaves.get(p.offs)
            if v is None:
                if r.default == 'zero':
                    return NULL
                raise Violation('uninit', 'uninitialised pointer read at ' + self.where(st), st, TRUE)
            if isinstance(v, t.T):
                if r.type is None:
                    raise Unsupported('pointer-typed load of integer leaf')
                return Ptr(('H', self.pointee(r.type, p.offs), v))
            return v
        v = self.leaf_get(st, p.root, p.offs, 64)
        for i in p.idx:
            v = select(v, i)
        if p.root[0] == 'H':
            T = self.pointee(p.root[1], p.offs)
        else:
            r = st.mem[p.root[1]]
            T = self.region_ptee(r, p.offs)
        return Ptr(('H', T, v))

    def region_ptee(self, r, offs):
        if r.type is None:
            raise Unsupported('untyped pointer array')
        if r.type.startswith('std::vector<'):
            ty = r.type
            for o in offs[1:]:
                ty = velem(ty)
            return ptee(ty)
        return self.pointee(r.type, offs)

    def to_handle(self, v):
        if isinstance(v, t.T):
            return v
        if isinstance(v, PtrIte):
            return ite(v.c, self.to_handle(v.a), self.to_handle(v.b))
        if v.root[0] == 'N':
            return const(0, 64)
        if v.root[0] == 'H' and v.offs == (0,) and not v.idx:
            return v.root[2]
        raise Unsupported('pointer to %s escapes into an indexed container' % (v,))

    def store_(self, st, p, v, ty):
        p = self.resolve_ptr(st, p, 'write')
        if p.root[0] in ('G', 'X'):
            raise Violation('frame', 'write to global %s at %s' % (p.root[1], self.where(st)), st, TRUE)
        es = self.array_at(st, p)
        if es:
            p = Ptr(p.root, p.offs + (0,), (const(0, 64),), es, False)
        self.check_access(st, p, 'write')
        if p.idx and p.es == 1 and isinstance(v, t.T) and isinstance(v.sort, int) and v.sort > 8:
            # a wider integer written into a byte array: little endian bytes
            for k in range(v.sort // 8):
                q = Ptr(p.root, p.offs, p.idx[:-1] + (add(p.idx[-1], const(k, 64)),), 1, True)
                self.check_access(st, q, 'write')
                b = trunc(t.lshr(v, const(8 * k, v.sort)) if k else v, 8)
                a = self.leaf_get(st, q.root, q.offs, 8)
                self.leaf_set(st, q.root, q.offs, nest_store(a, q.idx, b))
            return
        if isinstance(v, Agg) and p.root[0] == 'H' and not p.idx:
            for k, x in v.d.items():
                q = (p.offs[0] + k[0],) + k[1:]
                self.leaf_get(st, p.root, q, x.sort)
                self.leaf_set(st, p.root, q, x)
            return
        if isinstance(v, Agg):
            if p.idx or p.root[0] != 'R':
                raise Unsupported('aggregate store')
            for k, x in v.d.items():
                self.leaf_set(st, p.root, (p.offs[0] + k[0],) + k[1:], x)
            return
        if isinstance(v, (Ptr, PtrIte)):
            if p.root[0] == 'R' and not p.idx:
                self.leaf_set(st, p.root, p.offs, v)
                return
            v = self.to_handle(v)
        elif v.sort == 0:
            v = zext(v, 8)
        if p.new and v.op == 'const' and v.val == 0:
            # vector elements beyond the length are kept zero, so a pushed zero is already there
            a = self.leaf_get(st, p.root, p.offs, v.sort)
            for i in p.idx:
                a = select(a, i)
            if a.op != 'const' and a.sort == v.sort:
                st.assume(eq(a, v))
            return
        if not p.idx:
            self.leaf_set(st, p.root, p.offs, v)
            return
        base = v.sort
        a = self.leaf_get(st, p.root, p.offs, base)
        self.leaf_set(st, p.root, p.offs, nest_store(a, p.idx, v))

    def load_global(self, st, p, ty):
        g = self.glob(st, p.root)
        if not g or g[0] != 'var' or g[2] is None:
            if ty.k == 'ptr':
                return Ptr(('X', p.root[1]))
            raise Unsupported('load from global ' + p.root[1])
        _, gty, init, cst = g
        if not cst:
            if ty.k == 'ptr':
                return Ptr(('X', p.root[1]))
            raise Unsupported('mutable global ' + p.root[1])
        if gty.k == 'int' and p.offs == (0,) and not p.idx:
            return const(init[1] if init[0] == 'const' else 0, gty.n)
        if ty.k == 'int':
            elems = global_elems(init, gty)
            if elems is not None:
                i = p.idx[0] if p.idx else const(p.offs[0] // (ty.n // 8), 64)
                self.oblige(st, 'bounds', ult(i, const(len(elems), 64)), 'constant table read out of bounds')
                if i.op == 'const':
                    return const(elems[i.val], ty.n)
                r = const(elems[-1], ty.n)
                for k in range(len(elems) - 2, -1, -1):
                    r = ite(eq(i, const(k, 64)), const(elems[k], ty.n), r)
                return r
        if ty.k == 'ptr':
            raise Unsupported('pointer table')
        raise Unsupported('global load ' + p.root[1])

    def glob(self, st, root):
        return (root[2] if len(root) > 2 else self.cur_mod(st)).globals.get(root[1])

    def cur_mod(self, st):
        return st.frames[-1].func.mod

    # ------------------------------------------------------------- operands
    def val(self, st, v, ty):
        k = v[0]
        if k == 'reg':
            regs = st.frames[-1].regs
            if v[1] not in regs:
                raise Unsupported('register %s undefined (merged away)' % v[1])
            return regs[v[1]]
        if k == 'const':
            if ty.n > 64 or ty.n not in (1, 8, 16, 32, 64):
                if v[1] < 256:
                    return const(v[1], ty.n)
                return Agg({(j,): const((v[1] >> (8 * j)) & 255, 8) for j in range((ty.n + 7) // 8)})
            return const(v[1], 0 if ty.n == 1 else ty.n)
        if k == 'null':
            return NULL
        if k == 'global':
            # private constants have the same names in every module
            return Ptr(('G', v[1], self.cur_mod(st)) if re.match(r'@?"?(\.str|__const\.|switch\.table)', v[1]) else ('G', v[1]))
        if k == 'undef':
            if ty.k == 'int':
                return fresh('undef', 0 if ty.n == 1 else ty.n)
            if ty.k == 'ptr':
                return NULL
            return Agg({})
        if k == 'zero':
            if ty.k == 'int':
                return const(0, 0 if ty.n == 1 else ty.n)
            return Agg({})
        if k == 'fconst':
            return t.fconst(v[1])
        if k == 'cgep':
            _, sty, ops = v
            p = self.val(st, ops[0][1], ops[0][0])
            return self.gep(st, sty, p, [(tt, self.val(st, x, tt)) for tt, x in ops[1:]])
        if k == 'meta':
            return None
        raise Unsupported('operand %r' % (v,))

    def table_elem(self, st, p):
        """the element size, if p points into a global array of integers at an element"""
        if p.root[0] != 'G' or not (p.offs == (0,) and not p.idx or p.offs == (0, 0) and len(p.idx) == 1):
            return None
        g = self.glob(st, p.root)
        if not g or g[0] != 'var' or g[1] is None or g[1].k != 'array' or g[1].sub.k != 'int' or g[1].sub.n % 8:
            return None
        q = g[1].sub.n // 8
        return q if not p.idx or p.es == q else None

    def table_step(self, mod, ty, idx, q):
        n = const(0, 64)
        cur = ty
        for k, (tt, i) in enumerate(idx):
            i = sext(i, 64) if i.sort < 64 else i
            if k:
                cur = mod.resolve(cur)
                if cur.k != 'array':
                    return None
                cur = cur.sub
            sz = mod.size_align(cur)[0]
            if sz % q == 0:
                n = add(n, t.mul(i, const(sz // q, 64)) if sz != q else i)
            elif i.op == 'const' and (sz * i.val) % q == 0:
                n = add(n, const(sz * t._sgn(i.val, 64) // q, 64))
            else:
                return None
        return n

    def norm_ptr(self, st, p):
        if isinstance(p, Ptr) and not p.idx:
            q = self.table_elem(st, p)
            if q is None and p.root[0] == 'R' and p.offs == (0,):
                r = st.mem.get(p.root[1])
                if r is not None and r.llty is not None and r.llty[0].resolve(r.llty[1]).k == 'array':
                    q = self.array_at(st, p)
            if q:
                return Ptr(p.root, p.offs + (0,), (const(0, 64),), q, True)
        return p

    def gep(self, st, ty, p, idx):
        if isinstance(p, PtrIte):
            return PtrIte(p.c, self.gep(st, ty, p.a, idx), self.gep(st, ty, p.b, idx))
        if isinstance(p, t.T):
            raise Unsupported('gep on integer')
        mod = self.cur_mod(st)
        i0 = idx[0][1]
        i0 = sext(i0, 64) if i0.sort < 64 else i0
        q = self.table_elem(st, p)
        if q:
            # a position in a constant table of integers: counted in elements
            n = self.table_step(mod, ty, idx, q)
            if n is not None:
                return Ptr(p.root, (0, 0), (add(p.idx[0], n) if p.idx else n,), q, True)
        offs, ix, es, chk = p.offs, p.idx, p.es, p.chk
        if not (i0.op == 'const' and i0.val == 0):
            if p.root[0] == 'N':
                if ty.k == 'int':
                    return p
                raise Violation('nonnull', 'arithmetic on null pointer at ' + self.where(st), st, TRUE)
            sz = mod.size_align(ty)[0]
            done = False
            if not ix:
                q = self.array_at(st, p)
                if q is None and p.root[0] == 'G':
                    q = sz
                if q:
                    offs, ix, es = offs + (0,), (const(0, 64),), q
            if ix and es:
                if offs[-1] == 0 and sz == es:
                    ix = ix[:-1] + (add(ix[-1], i0),)
                    chk = True
                    done = True
                elif i0.op == 'const':
                    b = (offs[-1] + sz * t._sgn(i0.val, 64))
                    if 0 <= b < es:
                        offs = offs[:-1] + (b,)
                    else:
                        ix = ix[:-1] + (add(ix[-1], const(b // es, 64)),)
                        offs = offs[:-1] + (b % es,)
                        chk = True
                    done = True
            if not done:
                if i0.op != 'const':
                    raise Unsupported('variable offset into object')
                b = offs[-1] + sz * t._sgn(i0.val, 64)
                offs = offs[:-1] + (b,)
        cur = ty
        for tt, i in idx[1:]:
            cur = mod.resolve(cur)
            if cur.k == 'struct':
                k = i.val
                offs = offs[:-1] + (offs[-1] + mod.layout(cur)[0][k],)
                cur = cur.sub[k]
            elif cur.k == 'array':
                es = mod.size_align(cur.sub)[0]
                i = sext(i, 64) if i.sort < 64 else i
                offs, ix, chk = offs + (0,), ix + (i,), True
                cur = cur.sub
            else:
                raise Unsupported('gep through %r' % cur)
        return Ptr(p.root, offs, ix, es, chk)

    def ptr_eq(self, st, a, b):
        if isinstance(a, PtrIte):
            return ite(a.c, self.ptr_eq(st, a.a, b), self.ptr_eq(st, a.b, b))
        if isinstance(b, PtrIte):
            return self.ptr_eq(st, b, a)
        if a.root[0] == 'N' and b.root[0] == 'N':
            return TRUE
        if b.root[0] == 'N':
            a, b = b, a
        if a.root[0] == 'N':
            if b.root[0] == 'H':
                if b.offs == (0,) and not b.idx:
                    return eq(b.root[2], const(0, 64))
                return FALSE
            if b.root[0] == 'R':
                r = st.mem.get(b.root[1])
                if r is not None and r.len is not None and 'nullable' in str(r.type or ''):
                    return t.var('isnull_' + b.root[1], 0)
                return FALSE
            if b.root[0] == 'X':
                return t.var('isnull_' + b.root[1], 0)
            return FALSE
        if a.root[:2] == b.root[:2] and len(a.idx) != len(b.idx):
            a, b = self.norm_ptr(st, a), self.norm_ptr(st, b)
        if a.root[:2] == b.root[:2] and a.offs == b.offs and len(a.idx) == len(b.idx):
            c = TRUE
            if a.root[0] == 'H':
                c = eq(a.root[2], b.root[2])
            for x, y in zip(a.idx, b.idx):
                c = and_(c, eq(x, y))
            return c
        if a.root[0] == 'R' and b.root[0] == 'R' and a.root != b.root:
            return FALSE
        raise Unsupported('pointer comparison')

    def addr(self, st, p):
        p = self.resolve_ptr(st, p, 'address')
        if p.root[0] == 'N':
            return const(0, 64)
        base = t.var('addr:%s:%s' % (p.root[:2], p.offs), 64)
        if p.idx and p.es:
            return add(base, t.scale(p.idx[-1], p.es))
        return base


def arr_in(mod, ty, off):
    """element size if an array starts at byte off of ty"""
    ty = mod.resolve(ty)
    if ty.k == 'array':
        sub = mod.resolve(ty.sub)
        if off == 0 and sub.k in ('int', 'ptr', 'double'):
            return mod.size_align(ty.sub)[0]
        return None
    if ty.k == 'struct':
        offs = mod.layout(ty)[0]
        for k in range(len(offs) - 1, -1, -1):
            if offs[k] <= off:
                sz = mod.size_align(ty.sub[k])[0]
                if off < offs[k] + sz:
                    return arr_in(mod, ty.sub[k], off - offs[k])
    return None


def arr_count(mod, ty, off):
    ty = mod.resolve(ty)
    if ty.k == 'array':
        return ty.n
    if ty.k == 'struct':
        offs = mod.layout(ty)[0]
        for k in range(len(offs) - 1, -1, -1):
            if offs[k] <= off:
                return arr_count(mod, ty.sub[k], off - offs[k])
    return None


def global_elems(init, gty):
    if init[0] == 'bytes':
        return list(init[1])
    if init[0] == 'agg':
        if all(e[0] == 'const' for e in init[1]):
            return [e[1] for e in init[1]]
    if init[0] == 'zero' and gty.k == 'array':
        return [0] * gty.n
    return None


def nest_store(a, idx, v):
    if not idx:
        return v
    if len(idx) == 1:
        return store(a, idx[0], v)
    return store(a, idx[0], nest_store(select(a, idx[0]), idx[1:], v))
