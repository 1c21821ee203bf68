"""The counter of unimplemented structures: what get_unimplemented_count()
returns is one more after every report_unimplemented() and zero after
reset_unimplemented_count(), from any state of the module's globals."""
import spec
import terms as t
from terms import TRUE, FALSE, const, eq
from engine import Region, Ptr, State, Spec, Frame, Violation
from product import RUN
from verify import Task
from ll import Unsupported

REPORT = 'report_unimplemented(char const*, char const*)'
GET = 'get_unimplemented_count()'
RESET = 'reset_unimplemented_count()'
NAMES = ['u.counter']


class Run(Task):
    """one function, executed from the given globals; keeps its final states"""

    def __init__(self, prog, world, fn, pc, mem, solver):
        p = spec.Proc('unimplemented_counter')
        p.fn = fn
        p.code = [['ret', None]]
        Task.__init__(self, prog, world, p, {}, world.invs, solver)
        self.contracts = {}
        self.pc0, self.mem0 = pc, mem
        self.ends = []

    def initial(self):
        f = self.func
        f.analyse()
        st = State()
        st.mem, st.heap, st.bb = dict(self.mem0 or {}), {}, {}
        st.pc, st.lits = (), frozenset()
        st.ev, st.consumed, st.nalloc, st.tags = None, FALSE, 0, None
        sp = Spec()
        sp.proc, sp.pc, sp.mode, sp.heap, sp.chain, sp.passed = self.proc, 0, RUN, {}, None, frozenset()
        self.active = frozenset()
        sp.P, sp.S, sp.Tt = const(0, 64), None, None
        sp.env = {}
        st.spec = sp
        for c in self.pc0:
            st.assume(c)
        if self.mem0 is None:
            for n, g in f.mod.globals.items():
                if g[0] == 'var' and not g[3] and (g[1].k == 'int' or g[1].k in ('struct', 'arr')):
                    st.mem['gv:' + n] = Region(None, 'undef', {(o,): t.var('global%s+%d' % (n, o), b) for o, b in leaves(f.mod, g[1])})
        regs = {p[1]: Ptr(('X', 'text')) for p in f.params}
        st.frames = [Frame(f, f.entry.name, 0, regs)]
        return st

    def val(self, st, v, ty):
        if v[0] == 'global' and 'gv:' + v[1] in st.mem:
            return Ptr(('R', 'gv:' + v[1]))
        return Task.val(self, st, v, ty)

    def on_return(self, st, v):
        for s, op in self.at_ret(st, 'returns'):
            self.success_returns += 1
            self.ends.append((s, v))


def leaves(mod, ty, off=0):
    if ty.k == 'int':
        return [(off, ty.n)]
    if ty.k in ('struct', 'named') and ty.sub and len(ty.sub) == 1:
        return leaves(mod, ty.sub[0], off)
    return []


def run(acc, prog, world, name):
    have = set(prog.dem.values())
    for f in (REPORT, GET, RESET):
        if f not in have:
            raise Unsupported('no function ' + f)

    def go(fn, pc, mem):
        acc.done()
        acc.cur = r = Run(prog, world, fn, pc, mem, acc.solver)
        r.deadline = acc.deadline
        r.unroll_first = acc.unroll_first
        r.run()
        return r

    def count(pc, mem):
        r = go(GET, pc, mem)
        if len(r.ends) != 1:
            raise Unsupported('branches in the counter')
        return r, r.ends[0][1], r.ends[0][0]
    r, c0, s0 = count((), None)
    globs = {k: v for k, v in s0.mem.items() if k.startswith('gv:')}
    for fn, want, text in ((REPORT, t.add(c0, const(1, 32)), 'one more after a report'), (RESET, const(0, 32), 'zero after a reset'), (GET, c0, 'unchanged by asking')):
        for s, _ in go(fn, s0.pc, globs).ends:
            r, c1, s1 = count(s.pc, {k: v for k, v in s.mem.items() if k.startswith('gv:')})
            r.oblige(s1, 'ensures', eq(c1, want), 'count of unimplemented structures: ' + text)
    acc.done()
