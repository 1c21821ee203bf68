"""Contracts of functions that derive values from parsed objects (specs/fun.spec).

The object is arbitrary memory of its type satisfying the data invariants that
the parsers' contracts establish; a task compares the returned value, the
out-parameters and the frame with the specification on every path."""
import itertools
import os

import spec
import terms as t
from terms import TRUE, FALSE, const, eq, or_, and_, trunc, zext, mul
from engine import Region, Ptr, PtrIte, State, Spec, Frame, VI, VH, ITY, NULL
from product import RUN, ext64
from verify import Task
from ll import Unsupported

HERE = os.path.dirname(os.path.abspath(__file__))


def load():
    w = spec.World()
    w.load(open(os.path.join(HERE, 'specs', 'fun.spec')).read(), 'fun.spec')
    reads = set(spec.READS)
    spec.READS.clear()
    try:
        w.link()
    finally:
        spec.READS.update(reads)
    return w


FW = load()
NAMES = ['f.' + n for n in FW.procs]


def fn(name):
    return FW.procs[name[2:]].fn


class Str:
    """a string value: table[index], the last entry beyond the table"""

    def __init__(self, i, names):
        self.i, self.names = i, names

    def is_(self, text):
        n = len(self.names) - 1
        c = [eq(self.i, const(k, 64)) for k in range(n) if self.names[k] == text]
        if self.names[n] == text:
            c.append(t.ule(const(n, 64), self.i))
        return or_(*c) if c else FALSE


class Fun(Task):
    def __init__(self, prog, world, proc, nulls, solver):
        Task.__init__(self, prog, world, proc, {}, world.invs, solver)
        self.nulls = nulls
        self.specfuns = dict(self.specfuns)

    def evfun(self, st, e):
        if e[1] == 'name_of':
            return Str(ext64(self.ev(st, e[2][0])), [x[1] for x in e[2][1:]])
        if e[1] == 'float_of':
            return t.frat(*[ext64(self.ev(st, x)) for x in e[2]])
        return Task.evfun(self, st, e)

    def initial(self):
        f = self.func
        f.analyse()
        st = State()
        st.mem, st.heap, st.bb = {}, {}, {}
        st.pc, st.lits = (), frozenset()
        st.ev, st.consumed, st.nalloc, st.tags = None, FALSE, 0, None
        sp = Spec()
        sp.proc, sp.pc, sp.mode, sp.heap, sp.chain, sp.passed = self.proc, 0, RUN, {}, None, frozenset()
        self.active = frozenset()
        sp.P, sp.S, sp.Tt = const(0, 64), None, None
        sp.env = {}
        st.spec = sp
        regs = {}
        params = list(f.params)
        self.retkind = 'val'
        if params and 'sret' in str(params[0][2]):
            st.mem['ret'] = Region(None, 'undef', {})
            regs[params[0][1]] = Ptr(('R', 'ret'))
            self.retkind = 'sret'
            params = params[1:]
        self.outs = []
        for (nm, ty), (pt, pr, pa) in zip(self.proc.params, params):
            if ty == 'out':
                null = nm in self.nulls
                v = t.var('old:' + nm, 32)
                if not null:
                    st.mem[nm] = Region(None, 'undef', {(0,): v})
                    self.outs.append(nm)
                regs[pr] = NULL if null else Ptr(('R', nm))
                sp.env[nm] = VI(v, 'i32')
                sp.env[nm + '_null'] = VI(const(int(null), 64), 'i64')
            elif ty == 'str':
                st.mem[nm] = Region(None, 'undef', {})
                regs[pr] = Ptr(('R', nm))
                self.retkind = nm
            elif ty in ITY:
                v = t.var('arg:' + nm, ITY[ty][1])
                regs[pr] = v
                sp.env[nm] = VI(v, ty)
            else:
                h = t.var('nn:' + nm, 64)
                regs[pr] = Ptr(('H', ty, h))
                sp.env[nm] = VH(h, ty)
        if len(params) != len(self.proc.params):
            raise Unsupported('parameters of ' + self.proc.fn)
        st.frames = [Frame(f, f.entry.name, 0, regs)]
        return st

    def text(self, st, p):
        p = self.resolve_ptr(st, p, 'string')
        if p.root[0] != 'G':
            raise Unsupported('string not from a literal')
        g = self.glob(st, p.root)
        return literal(g)

    def result(self, s, v, w):
        """obligation: the code's value v is the specification's w"""
        if isinstance(w, Str):
            leaf = s.mem['ret' if self.retkind == 'sret' else self.retkind].leaves.get((0,))
            for c, p in flat(leaf):
                a = s.clone()
                a.assume(c)
                if self.solver.sat(a.pc, TRUE) == 'unsat':
                    continue
                self.oblige(a, 'ensures', w.is_(self.text(a, p)), 'returned name')
        elif isinstance(w, VH):
            leaf = s.mem['ret'].leaves.get((0,)) if self.retkind == 'sret' else v
            self.oblige(s, 'ensures', eq(self.to_handle(self.resolve_ptr(s, leaf)), w.t), 'returned object')
        elif isinstance(w, t.T) and w.sort == 'F':
            x = v
            if x.op != 'fptrunc' or not t._rat(x.args[0]):
                raise Unsupported('floating point expression')
            n, d = t._rat(x.args[0])
            N, D = w.args
            self.oblige(s, 'ensures', or_(and_(eq(n, N), eq(d, D)), eq(mul(zext(n, 128), zext(D, 128)), mul(zext(N, 128), zext(d, 128)))), 'returned value')
        else:
            x = ext64(w)
            k = v.sort if v.sort else 64
            self.oblige(s, 'ensures', eq(v if v.sort else zext(v, 64), trunc(x, k) if k < 64 else x), 'returned value')

    def on_return(self, st, v):
        for s, op in self.at_ret(st, 'returns'):
            self.success_returns += 1
            if op[1] is not None:
                self.result(s, v, self.ev(s, op[1]))
            for nm in self.outs:
                self.oblige(s, 'ensures', eq(s.mem[nm].leaves[(0,)], trunc(ext64(s.spec.env[nm]), 32)), 'output ' + nm)
            self.heap_match(s, 'at return')


def flat(p):
    if isinstance(p, PtrIte):
        return [(and_(p.c, c), q) for c, q in flat(p.a)] + [(and_(t.not_(p.c), c), q) for c, q in flat(p.b)]
    return [(TRUE, p)]


def literal(g):
    """text of a constant character array"""
    if g is None or g[0] != 'var' or not g[3]:
        raise Unsupported('string literal')
    return cstring(g[2])


def cstring(init):
    if init == ('zero',):
        return ''
    if isinstance(init, tuple) and init[0] == 'bytes' and init[1].endswith(b'\0'):
        return init[1][:-1].decode('latin1')
    raise Unsupported('literal %r' % (init,))


def run(acc, prog, world, name):
    p = FW.procs[name[2:]]
    outs = [n for n, ty in p.params if ty == 'out']
    for nulls in itertools.chain(*[itertools.combinations(outs, k) for k in range(len(outs) + 1)]):
        acc.done()
        acc.cur = Fun(prog, world, p, nulls, acc.solver)
        acc.cur.deadline = acc.deadline
        acc.cur.unroll_first = acc.unroll_first
        acc.cur.run()
    acc.done()
