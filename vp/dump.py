"""Contracts of the functions that write parsed objects as text (specs/dump.spec).

The specification of a dump is the sequence of characters and values it writes.
A task runs the real function in lockstep with it: every character of every
format string, every converted value (as a mathematical integer, so signed and
unsigned conversions are told apart) and every nested dump call must be the next
one the specification writes.  Nested dumps are used by contract."""
import ast
import os
import re

import spec
import terms as t
from terms import TRUE, FALSE, const, eq, ne, or_, and_, not_, zext, sext, ule
from engine import Region, Ptr, State, Spec, Frame, VI, VH, VL, ITY, NULL, Agg, Violation
from product import RUN, Product, ext64
from verify import Task, BYTES
from fun import flat, literal
from ll import Unsupported
from engine import LoopFail, Budget

HERE = os.path.dirname(os.path.abspath(__file__))
EXTRA = {'type': 'unsigned int', 'options': 'ParsingOptions'}
LEVELS = 1 << 20


class DumpCompiler(spec.Compiler):
    def __init__(self, world, proc, src):
        spec.Compiler.__init__(self, world, proc, src)
        self.known = {n for n, _ in proc.params} | spec._locals(proc.node.body) | {'this', 'inner'}
        self.lev = ('name', 'level')

    def expr(self, n):
        if isinstance(n, ast.Name) and n.id not in self.known and not any(n.id in d for d in self.ren):
            return ('attr', ('name', 'this'), n.id)
        return spec.Compiler.expr(self, n)

    def text(self, s):
        for ch in s:
            self.emit('print', 'c', ch)

    def indent(self):
        self.emit('print', 'indent', self.lev)

    def parts(self, args):
        for a in args:
            if isinstance(a, ast.Constant):
                self.text(a.value)
            else:
                f = a.func.id
                x = self.expr(a.args[0])
                if f == 'dec':
                    self.emit('print', 'v', x, 'd', node=a)
                elif f == 'hex8':
                    self.emit('print', 'v', x, '08x', node=a)
                elif f == 'pad':
                    self.emit('print', 'pad', x, node=a)
                else:
                    self.emit('print', 's', f, x, node=a)

    def elems(self, x, inner):
        self.uniq += 1
        i = ('name', 'i@%d' % self.uniq)
        self.emit('assign', i, ('int', 0))
        h = self.emit('loop')
        b = self.emit('br', ('cmp', '<', i, ('fun', 'len', [x])), None, None)
        self.code[b][2] = self.here()
        self.text(' ')
        inner(('index', x, i))
        self.emit('assign', i, ('bin', '+', i, ('int', 1)))
        self.emit('jmp', h)
        self.code[b][3] = self.here()
        self.text(' }')

    def call(self, c, node):
        self.emit('print', 'call', c.args[0].id, self.expr(c.args[1]), self.lev, [self.expr(a) for a in c.args[2:]], node=node)

    def stmt(self, n):
        if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            return spec.Compiler.stmt(self, n)
        c = n.value
        f = c.func.id
        num = lambda e: self.emit('print', 'v', e, 'd', node=n)
        if f == 'out':
            self.parts(c.args)
        elif f == 'line':
            self.indent()
            self.parts(c.args)
        elif f == 'begin':
            self.text(c.args[0].value + ' {')
            l = ('name', 'level')
            self.emit('assign', ('name', 'inner'), ('ite', ('cmp', '==', l, ('int', -1)), ('int', -1), ('bin', '+', l, ('int', 1))))
            self.lev = ('name', 'inner')
        elif f == 'end':
            self.lev = ('name', 'level')
            self.indent()
            self.text('}')
        elif f in ('F', 'L', 'LL'):
            for a in c.args:
                self.indent()
                if f == 'F':
                    self.text(a.id + ': ')
                    num(self.expr(a))
                elif f == 'L':
                    self.text(a.id + ' {')
                    self.elems(self.expr(a), num)
                else:
                    self.text(a.id + ' {')

                    def row(e):
                        self.text('{')
                        self.elems(e, num)
                    self.elems(self.expr(a), row)
        elif f == 'sub':
            self.indent()
            self.call(c, n)
        elif f == 'sub0':
            self.call(c, n)
        else:
            spec.Compiler.stmt(self, n)


def load():
    w = spec.World()
    w.load(open(os.path.join(HERE, 'specs', 'dump.spec')).read(), 'dump.spec')
    for p in w.procs.values():
        if 'dump' in p.attrs:
            T, ex = p.attrs['dump'][0], p.attrs['dump'][1:]
            p.T = T
            p.fn = '%s::fdump(_IO_FILE*, int%s) const' % (T, ''.join(', ' + EXTRA[e] for e in ex))
            p.params = [('this', T), ('level', 'level')] + [(e, EXTRA[e]) for e in ex]
    procs, w.procs = w.procs, {}            # a procedure name is also a field name
    w.link(DumpCompiler)
    w.procs = procs
    rank = {n: 0 for n in w.procs}
    for _ in w.procs:
        for p in w.procs.values():
            for op in p.code:
                if op[:2] == ['print', 'call']:
                    rank[op[2]] = max(rank[op[2]], rank[p.name] + 1)
                elif op[:2] == ['print', 'indent']:
                    rank['indent_level'] = max(rank['indent_level'], rank[p.name] + 1)
    for p in w.procs.values():
        p.maxlevel = LEVELS + rank[p.name]
    return w


DW = load()
ALT = {'indent_level': 'indent_level_loop'}     # the same text, written piece by piece
NAMES = ['d.' + n for n in DW.procs if n not in ALT.values()] + ['d.checksum_text']
CHECKSUM = 'NaluChecksum::fdump(char*, int) const'
CHECKSUM_BYTES = 4


def fn(name):
    return CHECKSUM if name == 'd.checksum_text' else DW.procs[name[2:]].fn


def conditions(world, T):
    """compiled invariants of objects of type T, over their fields"""
    c = DumpCompiler.__new__(DumpCompiler)
    p = spec.Proc('invariant')
    spec.Compiler.__init__(c, world, p, None)
    c.known = {'this'}
    return [(c.expr(ast.parse(x, mode='eval').body), x) for x in world.conds.get(T, [])]


def hexarr(h):
    return t.uf('checksum_hex', BYTES, h)


def res(k, h):
    return t.uf(k, 32, h)


class Dump(Task):
    def __init__(self, prog, world, proc, solver):
        con = {p.fn: c_dump(p) for p in DW.procs.values() if p is not proc}
        if proc.fn == DW.procs['indent_level'].fn:
            con.pop(proc.fn, None)
        else:
            con[DW.procs['indent_level'].fn] = c_indent
        con['profileTypeToString(ProfileType, std::string&)'] = c_profile
        con['H264SpsDataParser::SpsDataState::getResolution(int*, int*) const'] = c_resolution
        con[CHECKSUM] = c_checksum
        Task.__init__(self, prog, world, proc, con, world.invs, solver)
        self.specfuns = dict(self.specfuns)
        self.specfuns['picture_width'] = lambda c, st, a: VI(res('picture_width', a[0].t), 'i32')
        self.specfuns['picture_height'] = lambda c, st, a: VI(res('picture_height', a[0].t), 'i32')

    def initial(self):
        f = self.func
        f.analyse()
        st = State()
        st.mem, st.heap, st.bb = {}, {}, {}
        st.pc, st.lits = (), frozenset()
        st.ev, st.consumed, st.nalloc, st.tags = None, FALSE, 0, None
        sp = Spec()
        sp.proc, sp.pc, sp.mode, sp.heap, sp.chain, sp.passed = self.proc, 0, RUN, {}, None, frozenset()
        self.active = frozenset()
        sp.P, sp.S, sp.Tt = const(0, 64), None, None
        sp.env = env = {}
        st.spec = sp
        regs = {}
        params = list(f.params)
        names = list(self.proc.params)
        st.mem['outfp'] = Region(None, 'undef', {})
        if names[0][0] == 'this':
            h = t.var('nn:this', 64)
            env['this'] = VH(h, names[0][1])
            regs[params[0][1]] = Ptr(('H', names[0][1], h))
            names, params = names[1:], params[1:]
        regs[params[0][1]] = Ptr(('R', 'outfp'))
        params = params[1:]
        if len(params) != len(names):
            raise Unsupported('parameters of ' + self.proc.fn)
        for (nm, ty), (pt, pr, pa) in zip(names, params):
            if ty == 'level':
                v = t.var('arg:level', 32)
                st.assume(self.level_ok(v, self.proc))
                regs[pr] = v
                env[nm] = VI(v, 'i32')
            elif ty in ITY:
                v = t.var('arg:' + nm, ITY[ty][1])
                regs[pr] = v
                env[nm] = VI(v, ty)
            else:
                d = {}
                for o, fn, fty in self.prog.layouts[ty]['fields']:
                    v = t.var('arg:%s.%s' % (nm, fn), ITY[fty][1], 1 if fty in ('bool', '_Bool') else None)
                    d[(o,)] = v
                    env['%s.%s' % (nm, fn)] = VI(v, fty)
                env[nm] = VL({}, ty)
                if pt.k == 'int':
                    regs[pr] = Agg(d)
                else:
                    st.mem['arg:' + nm] = Region(ty, 'undef', d)
                    regs[pr] = Ptr(('R', 'arg:' + nm))
        if 'this' in env:
            for e, x in conditions(self.world, env['this'].T):
                st.assume(self.evb(st, e))
        st.frames = [Frame(f, f.entry.name, 0, regs)]
        return st

    def level_ok(self, v, p):
        return and_(t.sle(const(-1, 32), v), t.sle(v, const(p.maxlevel, 32)))

    def on_return(self, st, v):
        for s, op in self.at_ret(st, 'returns'):
            self.success_returns += 1
            self.heap_match(s, 'at return')

    # -- output
    def do_call(self, st, ins):
        callee, args = ins.a
        name = callee.lstrip('@').strip('"')
        if name in ('fprintf', 'printf', 'fputc', 'fputs', 'putc', 'fwrite', 'puts', 'putchar'):
            return self.io(st, ins, name, [self.val(st, v, ty) for ty, v, at in args])
        return Product.do_call(self, st, ins)

    def stream(self, st, p):
        """is p the stream the caller gave?"""
        p = self.resolve_ptr(st, p, 'stream')
        if p.root[0] == 'N':
            raise Violation('nonnull', 'null stream at ' + self.where(st), st, TRUE)
        if p.key() == Ptr(('R', 'outfp')).key():
            return True
        return False

    def io(self, st, ins, name, A):
        self.trusted.add('libc ' + name)
        if name in ('printf', 'puts', 'putchar'):
            raise Violation('output', '%s writes to standard output at %s' % (name, self.where(st)), st, TRUE)
        if name == 'fprintf':
            fp, A = A[0], A[1:]
        else:
            fp, A = A[-1], A[:-1]
        if not self.stream(st, fp):
            if isinstance(fp, Ptr) and fp.root[0] == 'X' and 'stderr' in fp.root[1]:
                self.setreg(st, ins, t.fresh('ioret', 32))
                return None
            raise Unsupported('stream of ' + name)
        sts = [st]
        if name == 'fprintf':
            for c, f in flat(A[0]):
                if c is not TRUE:
                    raise Unsupported('conditional format')
            for tok in self.tokens(st, self.lit(st, A[0]), A[1:]):
                sts = [x for s in sts for x in self.token(s, tok)]
        elif name in ('fputc', 'putc'):
            if A[0].op != 'const':
                raise Unsupported('character')
            sts = self.token(st, ('text', chr(A[0].val & 255)))
        elif name == 'fputs':
            sts = self.token(st, ('str', A[0]))
        else:
            s = self.lit(st, A[0])
            if A[1].op != 'const' or A[2].op != 'const' or A[1].val * A[2].val > len(s):
                raise Unsupported('fwrite')
            sts = self.token(st, ('text', s[:A[1].val * A[2].val]))
        for s in sts:
            self.setreg(s, ins, t.fresh('ioret', 32))
        return sts

    def lit(self, st, p):
        p = self.resolve_ptr(st, p, 'string')
        if p.root[0] == 'N':
            raise Violation('nonnull', 'null string at ' + self.where(st), st, TRUE)
        if p.root[0] != 'G' or (p.idx and (p.idx[0].op != 'const' or p.idx[0].val)):
            raise Unsupported('string not from a literal')
        return literal(self.glob(st, p.root))

    def tokens(self, st, f, A):
        out = []
        A = list(A)
        pos = 0

        def arg():
            if not A:
                raise Violation('output', 'format %r has more conversions than arguments at %s' % (f, self.where(st)), st, TRUE)
            return A.pop(0)
        for m in re.finditer(r'%([-0 +#]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t)?([a-zA-Z%])', f):
            if f[pos:m.start()]:
                out.append(('text', f[pos:m.start()]))
            pos = m.end()
            flags, width, prec, mod, cv = m.groups()
            if cv == '%':
                out.append(('text', '%'))
                continue
            if prec is not None:
                raise Unsupported('precision')
            if width == '*':
                w = arg()
                s = self.lit(st, arg()) if cv == 's' else None
                if s != '' or flags:
                    raise Unsupported('width argument')
                out.append(('pad', w))
                continue
            a = arg()
            if cv in 'diuxX':
                n = 64 if mod in ('ll', 'l', 'z', 'j', 't') else 32
                if not isinstance(a, t.T) or a.sort != n:
                    raise Violation('output', 'conversion %s does not fit its argument at %s' % (m.group(0), self.where(st)), st, TRUE)
                if mod in ('h', 'hh'):
                    k = 16 if mod == 'h' else 8
                    a = (sext if cv in 'di' else zext)(t.trunc(a, k), 32)
                if cv in 'xX':
                    fm = flags + (width or '') + cv
                elif flags or width:
                    raise Unsupported('flags of a decimal conversion')
                else:
                    fm = 'd'
                out.append(('v', a, cv in 'di', fm))
            elif cv == 's' and not flags and not width:
                out.append(('str', a))
            elif cv == 'c' and a.op == 'const':
                out.append(('text', chr(a.val & 255)))
            else:
                raise Unsupported('conversion ' + m.group(0))
        if f[pos:]:
            out.append(('text', f[pos:]))
        return out

    def nexts(self, st):
        """states at the next thing the specification writes"""
        if st.spec.mode == RUN and st.spec.proc.code[st.spec.pc][0] == 'print':
            return [st]
        return self.settle(st)

    def mismatch(self, st, what):
        if self.solver.sat(st.pc, TRUE) == 'unsat':
            return []
        op = st.spec.proc.code[st.spec.pc]
        raise Violation('output', '%s at %s where the specification expects: %s' % (what, self.where(st), self.opstr(st, op)), st, TRUE)

    def tally(self, st, what):
        if self.record:
            self.obl.append(('output', self.where(st), what))

    def token(self, st, tok):
        k = tok[0]
        if k == 'text':
            self.tally(st, 'text %r' % tok[1])
            sts = [st]
            for i, ch in enumerate(tok[1]):
                nx = []
                for s0 in sts:
                    for s in self.nexts(s0):
                        op = s.spec.proc.code[s.spec.pc]
                        if op[:3] == ['print', 'c', ch]:
                            self.consume(s)
                            nx.append(s)
                            continue
                        if op[0] == 'print' and (op[1] in ('indent', 'pad') and ch in ' \n' or op[1] in 'vs' and self.solver.sat(s.pc, TRUE) != 'unsat'):
                            raise Unsupported('text %r written where the specification has: %s' % (tok[1][i:], self.opstr(s, op)))
                        nx += self.mismatch(s, 'text %r written' % tok[1][i:])
                sts = nx
            return sts
        if k == 'str':
            out = []
            alts = flat(tok[1])
            for c, p in alts:
                s = st.clone() if len(alts) > 1 else st
                if c is not TRUE:
                    s.assume(c)
                    if self.solver.sat(s.pc, TRUE) == 'unsat':
                        continue
                if p.root[0] == 'N':
                    raise Violation('nonnull', 'null string at ' + self.where(st), s, TRUE)
                if p.root[0] == 'S':
                    out += self.value(s, 's', p.root[1], p.root[2])
                elif p.root[0] == 'R':
                    a = s.mem[p.root[1]].leaves.get((0, 0) if (0, 0) in s.mem[p.root[1]].leaves else p.offs or (0,))
                    out += self.value(s, 's', 'checksum_hex', a)
                else:
                    out += self.token(s, ('text', self.lit(s, p))) if self.lit(s, p) else [s]
            return out
        if k == 'pad':
            return self.value(st, 'pad', None, tok[1])
        return self.value(st, 'v', tok[3], (tok[1], tok[2]))

    def value(self, st, kind, fm, x):
        out = []
        for s in self.nexts(st):
            op = s.spec.proc.code[s.spec.pc]
            if op[0] == 'print' and op[1] == 'c' and kind in ('v', 'pad') and self.solver.sat(s.pc, TRUE) != 'unsat' and (op[2].isdigit() or kind == 'pad'):
                raise Unsupported('value written where the specification has text')
            if op[0] != 'print' or op[1] != kind or (kind == 's' and op[2] != fm) or (kind == 'v' and op[3] != fm):
                out += self.mismatch(s, 'a value written' if kind == 'v' else 'a string written')
                continue
            if kind == 'v':
                a, sg = x
                g = self.ev(s, op[2])
                gs, gn = ITY[g.ty]
                n = self.estr(op[2])
                if a.sort == 64 or gn == 64:
                    if a.sort != 64:
                        a = (sext if sg else zext)(a, 64)
                    y = ext64(g)
                    self.oblige(s, 'output', eq(a, y), 'value of ' + n)
                    if sg != (gs == 'i'):
                        self.oblige(s, 'output', t.sle(const(0, 64), y), 'sign of ' + n)
                else:
                    self.oblige(s, 'output', eq((sext if sg and fm == 'd' else zext)(a, 64), ext64(g)), 'value of ' + n)
            elif kind == 'pad':
                self.oblige(s, 'output', eq(sext(x, 64), ext64(self.ev(s, op[2]))), 'number of blanks')
                self.oblige(s, 'output', t.sle(const(0, 32), x), 'number of blanks')
            elif fm == 'profile_name':
                self.oblige(s, 'output', eq(zext(x, 64), ext64(self.ev(s, op[3]))), 'profile name')
            else:
                self.oblige(s, 'output', eq(x, hexarr(self.ev(s, op[3]).t)), 'checksum text')
            self.consume(s)
            out.append(s)
        return out


# ---- contracts used inside dumps
def c_dump(p):
    def h(T, st, ins, args):
        A = [T.val(st, v, ty) for ty, v, at in args]
        T.tally(st, 'structure ' + p.name)
        out = []
        for s in T.nexts(st):
            op = s.spec.proc.code[s.spec.pc]
            if op[:3] != ['print', 'call', p.name]:
                out += T.mismatch(s, 'structure %s written' % p.name)
                continue
            a = T.resolve_ptr(s, A[0], 'object to write')
            T.check_null(s, a)
            T.oblige(s, 'requires', eq(T.to_handle(a), T.ev(s, op[3]).t), 'object written by ' + p.name)
            if not T.stream(s, A[1]):
                raise Violation('output', 'structure %s written to another stream at %s' % (p.name, T.where(s)), s, TRUE)
            T.oblige(s, 'requires', eq(sext(A[2], 64), ext64(T.ev(s, op[4]))), 'indentation of ' + p.name)
            T.oblige(s, 'requires', T.level_ok(A[2], p), 'indentation range of ' + p.name)
            for (nm, ty), x, e in zip(p.params[2:], A[3:], op[5]):
                if ty in ITY:
                    T.oblige(s, 'requires', eq(zext(x, 64), ext64(T.ev(s, e))), 'argument %s of %s' % (nm, p.name))
                    continue
                c = TRUE
                for off, name, fty in T.prog.layouts[ty]['fields']:
                    w = T.ev(s, ('attr', e, name))
                    if isinstance(x, Agg):
                        v = x.d[(off,)]
                    else:
                        v = T.leaf_get(s, x.root, (off,), ITY[fty][1])
                    c = and_(c, eq(zext(v, 64), ext64(w)))
                T.oblige(s, 'requires', c, 'argument %s of %s' % (nm, p.name))
            T.consume(s)
            T.setreg(s, ins, None)
            out.append(s)
        return out
    return h


def c_indent(T, st, ins, args):
    A = [T.val(st, v, ty) for ty, v, at in args]
    T.tally(st, 'new line')
    out = []
    for s in T.nexts(st):
        op = s.spec.proc.code[s.spec.pc]
        if op[:2] != ['print', 'indent']:
            if op[:2] == ['print', 'c'] and op[2] in ' \n':
                raise Unsupported('new line')
            out += T.mismatch(s, 'new line written')
            continue
        if not T.stream(s, A[0]):
            raise Violation('output', 'new line written to another stream at %s' % T.where(s), s, TRUE)
        T.oblige(s, 'output', eq(sext(A[1], 64), ext64(T.ev(s, op[2]))), 'indentation')
        T.oblige(s, 'requires', T.level_ok(A[1], DW.procs['indent_level']), 'indentation range')
        T.consume(s)
        T.setreg(s, ins, None)
        out.append(s)
    return out


def c_profile(T, st, ins, args):
    k, s = [T.val(st, v, ty) for ty, v, at in args]
    p = T.resolve_ptr(st, s, 'string')
    T.check_null(st, p)
    T.leaf_set(st, p.root, (p.offs or (0,)), Ptr(('S', 'profile_name', k)))
    T.setreg(st, ins, None)
    return None


def c_resolution(T, st, ins, args):
    h, w, e = [T.resolve_ptr(st, T.val(st, v, ty)) for ty, v, at in args]
    T.check_null(st, h)
    for p, k in ((w, 'picture_width'), (e, 'picture_height')):
        if p.root[0] != 'R':
            raise Unsupported('getResolution result')
        T.leaf_set(st, p.root, p.offs or (0,), res(k, T.to_handle(h)))
    T.setreg(st, ins, t.fresh('ret', 32))
    return None


def c_checksum(T, st, ins, args):
    h, o, n = [T.val(st, v, ty) for ty, v, at in args]
    h, o = T.resolve_ptr(st, h), T.resolve_ptr(st, o)
    T.check_null(st, h)
    T.oblige(st, 'requires', t.sle(const(2 * CHECKSUM_BYTES + 1, 32), n), 'room for the checksum text')
    if o.root[0] != 'R':
        raise Unsupported('checksum text buffer')
    es = T.array_at(st, o)
    if es:
        o = Ptr(o.root, o.offs + (0,), (const(0, 64),), es, True)
    if not o.idx or o.idx[0].op != 'const' or o.idx[0].val:
        raise Unsupported('checksum text buffer')
    T.check_access(st, Ptr(o.root, o.offs, (t.sub(sext(n, 64), const(1, 64)),), o.es, True), 'checksum text')
    T.leaf_set(st, o.root, o.offs, hexarr(T.to_handle(h)))
    T.setreg(st, ins, None)
    return None


class ChecksumText(Task):
    """NaluChecksum::fdump: two lower case hex digits per byte and a terminator"""

    def __init__(self, prog, world, solver):
        p = spec.Proc('checksum_text')
        p.fn = CHECKSUM
        p.code = [['ret', None]]
        Task.__init__(self, prog, world, p, {}, world.invs, solver)
        self.unroll_all = True

    def initial(self):
        f = self.func
        f.analyse()
        st = State()
        st.mem, st.heap, st.bb = {}, {}, {}
        st.pc, st.lits = (), frozenset()
        st.ev, st.consumed, st.nalloc, st.tags = None, FALSE, 0, None
        sp = Spec()
        sp.proc, sp.pc, sp.mode, sp.heap, sp.chain, sp.passed = self.proc, 0, RUN, {}, None, frozenset()
        self.active = frozenset()
        sp.P, sp.S, sp.Tt = const(0, 64), None, None
        self.h = h = t.var('nn:this', 64)
        sp.env = {'this': VH(h, 'NaluChecksum')}
        st.spec = sp
        n = t.var('arg:output_len', 32)
        st.assume(t.sle(const(2 * CHECKSUM_BYTES + 1, 32), n))
        st.mem['output'] = Region(None, 'undef', {(0,): t.var('output', BYTES)}, zext(n, 64))
        st.assume(eq(ext64(self.ev(st, ('attr', ('name', 'this'), 'length'))), const(CHECKSUM_BYTES, 64)))
        P = f.params
        st.frames = [Frame(f, f.entry.name, 0, {P[0][1]: Ptr(('H', 'NaluChecksum', h)), P[1][1]: Ptr(('R', 'output'), (0,), (const(0, 64),), 1, True), P[2][1]: n})]
        return st

    def ext_snprintf(self, st, ins, args):
        A = [self.val(st, v, ty) for ty, v, at in args]
        f = self.resolve_ptr(st, A[2])
        if f.root[0] != 'G' or literal(self.glob(st, f.root)) != '%02x' or A[3].sort != 32:
            raise Unsupported('snprintf format')
        self.trusted.add('libc snprintf %02x')
        self.oblige(st, 'bounds', ule(const(3, 64), A[1]), 'room for two digits and the terminator')
        self.oblige(st, 'requires', ule(A[3], const(255, 32)), 'two digits are enough')
        dst = self.resolve_ptr(st, A[0])
        for k, v in ((0, self.digit(t.trunc(t.lshr(A[3], const(4, 32)), 8))), (1, self.digit(t.trunc(t.band(A[3], const(15, 32)), 8))), (2, const(0, 8))):
            p = Ptr(dst.root, dst.offs, dst.idx[:-1] + (t.add(dst.idx[-1], const(k, 64)),), dst.es, True)
            self.check_access(st, p, 'snprintf write')
            a = self.leaf_get(st, p.root, p.offs, 8)
            self.leaf_set(st, p.root, p.offs, t.store(a, p.idx[-1], v))
        self.setreg(st, ins, const(2, 32))
        return None

    def digit(self, n):
        return t.ite(t.ult(n, const(10, 8)), t.add(n, const(48, 8)), t.add(n, const(87, 8)))

    def on_return(self, st, v):
        for s, op in self.at_ret(st, 'returns'):
            self.success_returns += 1
            a = s.mem['output'].leaves[(0,)]
            for k in range(CHECKSUM_BYTES):
                b = self.ev(s, ('index', ('attr', ('name', 'this'), 'checksum'), ('int', k))).t
                self.oblige(s, 'ensures', eq(t.select(a, const(2 * k, 64)), self.digit(t.lshr(b, const(4, 8)))), 'digit %d' % (2 * k))
                self.oblige(s, 'ensures', eq(t.select(a, const(2 * k + 1, 64)), self.digit(t.band(b, const(15, 8)))), 'digit %d' % (2 * k + 1))
            self.oblige(s, 'ensures', eq(t.select(a, const(2 * CHECKSUM_BYTES, 64)), const(0, 8)), 'terminator')
            self.heap_match(s, 'at return')


def run(acc, prog, world, name):
    if name == 'd.checksum_text':
        go(acc, ChecksumText(prog, world, acc.solver))
        return
    p = DW.procs[name[2:]]
    try:
        go(acc, Dump(prog, world, p, acc.solver))
    except (Unsupported, LoopFail, Budget):
        if p.name not in ALT:
            raise
        go(acc, Dump(prog, world, DW.procs[ALT[p.name]], acc.solver))


def go(acc, task):
    acc.cur = task
    acc.cur.deadline = acc.deadline
    acc.cur.unroll_first = acc.unroll_first
    acc.cur.run()
    acc.done()
