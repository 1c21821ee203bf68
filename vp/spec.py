"""Specification language: Python-syntax text -> flat operation lists.

A spec procedure is the postcondition of a real function, written as the
syntax table / algorithm of the standard.  The same flat code is used
 * symbolically, as the ghost program the verifier runs in lockstep with the
   real code (engine.py), and
 * concretely, as the oracle and bitstream generator for replay (oracle.py).

Flat ops:
 ('read', kind, nexpr, target)      kind in u/ue/se
 ('call', proc, [argexprs], target|None, tolerant)
 ('event', name, [argexprs], target|None)   more_rbsp_data / rbsp_trailing_bits / other primitive contracts
 ('assign', lvalue, expr) ('append', lvalue, expr)
 ('br', cond, tpc, fpc) ('jmp', pc) ('loop', )        'loop' marks a loop head
 ('failif', cond) ('unimpl', text) ('ret', expr|None) ('fail',)
"""
import ast


class SpecError(Exception):
    pass


class Proc:
    def __init__(self, name):
        self.name = name
        self.code = []
        self.params = []       # (name, type)
        self.fn = None         # demangled signature of the implementing function
        self.result = None     # result struct type
        self.lines = []
        self.attrs = {}

    def __repr__(self):
        return 'Proc(%s)' % self.name


READS = {'u', 'ue', 'se'}
EVENTS = {'rbsp_trailing_bits', 'seek', 'bitbuffer', 'skip_bits'}


class Compiler:
    def __init__(self, world, proc, src):
        self.w, self.p, self.src = world, proc, src
        self.code = proc.code
        self.loops = []
        self.ren = [{}]
        self.tmp = 0
        self.uniq = 0

    def emit(self, *op, node=None):
        self.code.append(list(op))
        self.p.lines.append(getattr(node, 'lineno', 0) if node is not None else 0)
        return len(self.code) - 1

    def here(self):
        return len(self.code)

    def newtmp(self):
        self.tmp += 1
        return '$t%d' % self.tmp

    def err(self, n, msg):
        raise SpecError('%s line %d: %s' % (self.p.name, getattr(n, 'lineno', 0), msg))

    # ---- expressions -> tuples; embedded reads/calls are hoisted in order
    def expr(self, n):
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                return ('bool', n.value)
            if isinstance(n.value, int):
                return ('int', n.value)
            if n.value is None:
                return ('null',)
            if isinstance(n.value, str):
                return ('str', n.value)
        if isinstance(n, ast.Name):
            for d in reversed(self.ren):
                if n.id in d:
                    return d[n.id]
            if n.id in self.w.consts:
                return ('int', self.w.consts[n.id])
            return ('name', n.id)
        if isinstance(n, ast.Attribute):
            return ('attr', self.expr(n.value), n.attr)
        if isinstance(n, ast.Subscript):
            return ('index', self.expr(n.value), self.expr(n.slice))
        if isinstance(n, ast.BinOp):
            op = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Mod: '%', ast.LShift: '<<',
                  ast.RShift: '>>', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^'}[type(n.op)]
            return ('bin', op, self.expr(n.left), self.expr(n.right))
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.USub):
                x = self.expr(n.operand)
                return ('int', -x[1]) if x[0] == 'int' else ('bin', '-', ('int', 0), x)
            if isinstance(n.op, ast.Not):
                return ('not', self.expr(n.operand))
            if isinstance(n.op, ast.Invert):
                return ('inv', self.expr(n.operand))
        if isinstance(n, ast.BoolOp):
            k = 'and' if isinstance(n.op, ast.And) else 'or'
            return (k, [self.expr(x) for x in n.values])
        if isinstance(n, ast.Compare):
            parts = []
            l = self.expr(n.left)
            for op, r in zip(n.ops, n.comparators):
                if isinstance(op, (ast.In, ast.NotIn)):
                    if isinstance(r, (ast.Tuple, ast.List)):
                        e = ('or', [('cmp', '==', l, self.expr(x)) for x in r.elts])
                    else:
                        e = ('mapin', l, self.expr(r))
                    parts.append(e if isinstance(op, ast.In) else ('not', e))
                    continue
                r = self.expr(r)
                o = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: '==',
                     ast.IsNot: '!='}[type(op)]
                parts.append(('cmp', o, l, r))
                l = r
            return parts[0] if len(parts) == 1 else ('and', parts)
        if isinstance(n, ast.IfExp):
            return ('ite', self.expr(n.test), self.expr(n.body), self.expr(n.orelse))
        if isinstance(n, ast.Call):
            f = n.func.id if isinstance(n.func, ast.Name) else self.err(n, 'call')
            if f in READS or f in EVENTS or f in self.w.procs or f == 'maybe':
                t = self.newtmp()
                self.effect(n, ('name', t))
                return ('name', t)
            if f in self.w.funcs:
                return self.inline_fun(n, f)
            if n.keywords:
                return ('fun', f, [self.expr(x) for x in n.args], {k.arg: self.expr(k.value) for k in n.keywords})
            return ('fun', f, [self.expr(x) for x in n.args])
        self.err(n, 'expression ' + ast.dump(n)[:80])

    def inline_fun(self, n, f):
        ps, body = self.w.funcs[f]
        args = [self.expr(a) for a in n.args]
        self.ren.append(dict(zip(ps, args)))
        r = self.expr(body)
        self.ren.pop()
        return r

    def effect(self, n, target):
        """n: Call node of a read / event / proc"""
        f = n.func.id
        tol = False
        if f == 'maybe':
            n = n.args[0]
            f = n.func.id
            tol = True
        if f in READS:
            args = [self.expr(a) for a in n.args]
            width = None
            if f == 'u':
                width = args.pop(0)
            if target is None:
                target = args.pop(0)
            self.emit('read', f, width, target, node=n)
            if args:
                lo, hi = args
                self.emit('failif', ('not', ('and', [('cmp', '<=', lo, target), ('cmp', '<=', target, hi)])), node=n)
            return
        args = [self.expr(a) for a in n.args]
        if f in EVENTS:
            self.emit('event', f, args, target, node=n)
            return
        if f in self.w.procs:
            self.emit('call', f, args, target, tol, node=n)
            return
        self.err(n, 'unknown effect ' + f)

    # ---- statements
    def block(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, n):
        if isinstance(n, ast.Expr):
            c = n.value
            if isinstance(c, ast.Constant):
                return
            f = c.func.id
            if f in READS or f in EVENTS or f in self.w.procs or f == 'maybe':
                if f in READS:
                    self.effect(c, None)
                else:
                    self.effect(c, None)
                return
            if f == 'append':
                lv = self.expr(c.args[0])
                self.emit('append', lv, self.expr(c.args[1]), node=n)
                return
            if f == 'try_u':
                self.emit('read', 'u', self.expr(c.args[0]), self.expr(c.args[2]), self.expr(c.args[1]), node=n)
                return
            if f == 'append_row':
                self.emit('append_row', self.expr(c.args[0]), node=n)
                return
            if f == 'append_last':
                self.emit('append_last', self.expr(c.args[0]), self.expr(c.args[1]), node=n)
                return
            if f == 'grow':
                self.emit('grow', self.expr(c.args[0]), self.expr(c.args[1]), node=n)
                return
            if f == 'fail_if':
                self.emit('failif', self.expr(c.args[0]), node=n)
                return
            if f == 'assume_inv':
                self.emit('assume', self.expr(c.args[0]), node=n)
                return
            if f == 'fail':
                self.emit('fail', node=n)
                return
            if f == 'unimplemented':
                self.emit('unimpl', ast.literal_eval(c.args[0]) if c.args else '', node=n)
                return
            if f == 'clear':
                self.emit('clear', self.expr(c.args[0]), node=n)
                return
            if f in self.w.macros:
                self.macro(c)
                return
            self.err(n, 'statement call ' + f)
        if isinstance(n, ast.Assign):
            t = self.expr(n.targets[0])
            v = n.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and \
                    (v.func.id in READS or v.func.id in EVENTS or v.func.id in self.w.procs or v.func.id == 'maybe'):
                self.effect(v, t)
                return
            self.emit('assign', t, self.expr(v), node=n)
            return
        if isinstance(n, ast.AugAssign):
            t = self.expr(n.target)
            op = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*'}[type(n.op)]
            self.emit('assign', t, ('bin', op, t, self.expr(n.value)), node=n)
            return
        if isinstance(n, ast.If):
            c = self.expr(n.test)
            b = self.emit('br', c, None, None, node=n)
            self.code[b][2] = self.here()
            self.block(n.body)
            if n.orelse:
                j = self.emit('jmp', None, node=n)
                self.code[b][3] = self.here()
                self.block(n.orelse)
                self.code[j][1] = self.here()
            else:
                self.code[b][3] = self.here()
            return
        if isinstance(n, ast.While):
            h = self.emit('loop', node=n)
            c = self.expr(n.test)
            b = self.emit('br', c, None, None, node=n)
            self.code[b][2] = self.here()
            self.loops.append((h, []))
            self.block(n.body)
            self.emit('jmp', h, node=n)
            _, brk = self.loops.pop()
            self.code[b][3] = self.here()
            for j in brk:
                self.code[j][1] = self.here()
            return
        if isinstance(n, ast.For):
            it = n.iter
            assert it.func.id == 'range'
            i = self.expr(n.target)
            args = [self.expr(a) for a in it.args]
            lo, hi = (('int', 0), args[0]) if len(args) == 1 else args
            self.emit('assign', i, lo, node=n)
            h = self.emit('loop', node=n)
            b = self.emit('br', ('cmp', '<', i, hi), None, None, node=n)
            self.code[b][2] = self.here()
            self.loops.append((None, []))
            cont = []
            self.block(n.body)
            self.emit('assign', i, ('bin', '+', i, ('int', 1)), node=n)
            self.emit('jmp', h, node=n)
            _, brk = self.loops.pop()
            self.code[b][3] = self.here()
            for j in brk:
                self.code[j][1] = self.here()
            return
        if isinstance(n, ast.Break):
            j = self.emit('jmp', None, node=n)
            self.loops[-1][1].append(j)
            return
        if isinstance(n, ast.Continue):
            h = self.loops[-1][0]
            if h is None:
                self.err(n, 'continue in for')
            self.emit('jmp', h, node=n)
            return
        if isinstance(n, ast.Return):
            self.emit('ret', self.expr(n.value) if n.value is not None else None, node=n)
            return
        if isinstance(n, ast.Pass):
            return
        self.err(n, 'statement ' + ast.dump(n)[:60])

    def macro(self, c):
        ps, body, locs = self.w.macros[c.func.id]
        self.uniq += 1
        d = {}
        for p, a in zip(ps, c.args):
            e = self.expr(a)
            d[p] = e
        for l in locs:
            if l not in d:
                d[l] = ('name', '%s@%d' % (l, self.uniq))
        self.ren.append(d)
        self.block(body)
        self.ren.pop()


def _locals(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            if isinstance(n, ast.For):
                out.add(n.target.id)
    return out


class World:
    def __init__(self):
        self.procs = {}
        self.macros = {}
        self.funcs = {}      # pure spec functions: name -> (params, expr)
        self.consts = {}
        self.invs = {}
        self.conds = {}      # type -> invariants over its fields (expression texts)

    def load(self, text, fname='<spec>'):
        tree = ast.parse(text, fname)
        pend = []
        for n in tree.body:
            if isinstance(n, ast.Assign):
                v = n.value
                if isinstance(v, ast.Lambda):
                    self.funcs[n.targets[0].id] = ([a.arg for a in v.args.args], v.body)
                elif n.targets[0].id == 'INVARIANTS':
                    self.invs.update(ast.literal_eval(v))
                elif n.targets[0].id == 'CONDITIONS':
                    self.conds.update(ast.literal_eval(v))
                else:
                    self.consts[n.targets[0].id] = ast.literal_eval(v)
                continue
            if isinstance(n, ast.Expr):
                continue
            if not isinstance(n, ast.FunctionDef):
                raise SpecError('top level')
            decs = {}
            for d in n.decorator_list:
                if isinstance(d, ast.Name):
                    decs[d.id] = True
                else:
                    decs[d.func.id] = [ast.literal_eval(a) for a in d.args]
            if 'macro' in decs:
                ps = [a.arg for a in n.args.args]
                self.macros[n.name] = (ps, n.body, _locals(n.body))
                continue
            p = Proc(n.name)
            p.attrs = decs
            if 'impl' in decs:
                p.fn = decs['impl'][0]
                p.result = decs['impl'][1] if len(decs['impl']) > 1 else None
            for a in n.args.args:
                p.params.append((a.arg, ast.literal_eval(a.annotation) if isinstance(a.annotation, ast.Constant)
                                 else a.annotation.id if a.annotation is not None else 'u32'))
            self.procs[n.name] = p
            p.node = n
            p.src = fname
            pend.append((p, n))
        self.pending = getattr(self, 'pending', []) + pend

    def link(self, compiler=None):
        for p, n in self.pending:
            c = (compiler or Compiler)(self, p, None)
            c.block(n.body)
            c.emit('ret', None, node=n)
        self.pending = []


def dump(p):
    for i, o in enumerate(p.code):
        print(i, o)


if __name__ == '__main__':
    w = World()
    w.load('''
@macro
def m(a, b):
    t = a + 1
    append(b, t)

@impl("X::Parse(BitBuffer*)", "X::State")
def hrd():
    ue(cpb_cnt_minus1, 0, 31)
    for i in range(cpb_cnt_minus1 + 1):
        append(x, ue())
        m(i, y)
''')
    w.link()
    dump(w.procs['hrd'])
