"""Hash-consed terms with a canonicalising simplifier, and the SMT back end.

Sorts: 0 = Bool, n>0 = bit-vector of n bits, ('A', s) = array from BV64 to s,
'F' = double (treated as an exact rational; see DESIGN.md).
Every rewrite is an equivalence over the sort's full domain, except those that
use `umax` (a proved or assumed upper bound attached to a variable; the bound is
added to every SMT query that mentions the variable).
"""
import time
from fractions import Fraction

_tab = {}
_cnt = [0]


class T:
    __slots__ = ('op', 'args', 'sort', 'val', 'id', 'umax', 'z', '_vars', 'h')

    def __repr__(self):
        return show(self)


def _mk(op, sort, args=(), val=None, umax=None):
    key = (op, sort, val, tuple([a.id for a in args]))
    t = _tab.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.sort, t.val = op, tuple(args), sort, val
    _cnt[0] += 1
    t.id = _cnt[0]
    t.z = None
    t._vars = None
    if umax is None:
        if isinstance(sort, int):
            umax = (1 << sort) - 1 if sort else 1
    t.umax = umax
    _tab[key] = t
    return t


def show(t, d=0):
    if d > 12:
        return '...'
    if t.op == 'const':
        if t.sort == 0:
            return 'true' if t.val else 'false'
        if isinstance(t.val, Fraction):
            return str(t.val)
        v = t.val
        if t.sort >= 8 and v >> (t.sort - 1) and v > (1 << t.sort) - 4096:
            v -= 1 << t.sort
        return str(v)
    if t.op == 'var':
        return t.val
    if t.op == 'lin':
        c, cs = t.val
        m = 1 << t.sort
        out = []
        for a, k in zip(t.args, cs):
            if k == 1:
                out.append(show(a, d + 1))
            else:
                kk = k - m if k > m // 2 else k
                out.append('%d*%s' % (kk, show(a, d + 1)))
        if c:
            out.append(str(c - m if c > m // 2 else c))
        return '(' + ' + '.join(out) + ')'
    nm = t.op if t.val is None else '%s[%s]' % (t.op, t.val)
    return '%s(%s)' % (nm, ', '.join(show(a, d + 1) for a in t.args))


# ------------------------------------------------------------ constructors
TRUE = _mk('const', 0, (), 1)
FALSE = _mk('const', 0, (), 0)


def const(v, n):
    if n == 0:
        return TRUE if v else FALSE
    v &= (1 << n) - 1
    return _mk('const', n, (), v, v)


def var(name, sort, umax=None):
    t = _mk('var', sort, (), name, umax)
    return t


_fresh = {}


def fresh(name, sort, umax=None):
    k = _fresh.get(name, 0)
    _fresh[name] = k + 1
    return var('%s!%d' % (name, k), sort, umax)


def is_const(t):
    return t.op == 'const'


def _lin_parts(t):
    """(const, {atom: coef})"""
    n = t.sort
    if t.op == 'const':
        return t.val, {}
    if t.op == 'lin':
        return t.val[0], dict(zip(t.args, t.val[1]))
    return 0, {t: 1}


def _mk_lin(n, c, d):
    m = (1 << n) - 1
    c &= m
    d = {a: k & m for a, k in d.items() if k & m}
    if not d:
        return const(c, n)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    items = sorted(d.items(), key=lambda x: x[0].id)
    # ite lifting with constants is left to the solver
    um = c
    for a, k in items:
        um += k * a.umax
    if um > m:
        um = m
    return _mk('lin', n, [a for a, _ in items], (c, tuple(k for _, k in items)), um)


def add(a, b):
    if a.sort != b.sort:
        raise TypeError('add sorts %s %s' % (a.sort, b.sort))
    if a.op == 'const' and b.op == 'const':
        return const(a.val + b.val, a.sort)
    ca, da = _lin_parts(a)
    cb, db = _lin_parts(b)
    d = dict(da)
    for t, k in db.items():
        d[t] = d.get(t, 0) + k
    return _mk_lin(a.sort, ca + cb, d)


def scale(a, k):
    c, d = _lin_parts(a)
    return _mk_lin(a.sort, c * k, {t: q * k for t, q in d.items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if a.op == 'const':
        return scale(b, a.val)
    if b.op == 'const':
        return scale(a, b.val)
    # distribute over small linear forms for a canonical polynomial
    ca, da = _lin_parts(a)
    cb, db = _lin_parts(b)
    n = a.sort
    if len(da) * len(db) <= 8 and (a.op == 'lin' or b.op == 'lin'):
        r = const(ca * cb, n)
        for t, k in da.items():
            r = add(r, scale(t, k * cb))
        for t, k in db.items():
            r = add(r, scale(t, k * ca))
        for t, k in da.items():
            for u, q in db.items():
                r = add(r, scale(mul(t, u), k * q))
        return r
    if a.id > b.id:
        a, b = b, a
    return _mk('mul', n, (a, b), None, min(a.umax * b.umax, (1 << n) - 1))


def _sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def udiv(a, b):
    n = a.sort
    if b.op == 'const':
        if b.val == 1:
            return a
        if a.op == 'const' and b.val:
            return const(a.val // b.val, n)
        if b.val and a.umax < b.val:
            return const(0, n)
        if b.val:
            w = _narrow_div(a, b, udiv)
            if w is not None:
                return w
            return _mk('udiv', n, (a, b), None, a.umax // b.val)
    return _mk('udiv', n, (a, b), None)


def _narrow_div(a, b, f):
    if a.op == 'zext' and a.args[0].umax >= b.val:
        return zext(f(a.args[0], const(b.val, a.args[0].sort)), a.sort)
    return None


def urem(a, b):
    n = a.sort
    if b.op == 'const':
        if b.val == 1:
            return const(0, n)
        if a.op == 'const' and b.val:
            return const(a.val % b.val, n)
        if b.val and a.umax < b.val:
            return a
        if b.val:
            w = _narrow_div(a, b, urem)
            if w is not None:
                return w
            return _mk('urem', n, (a, b), None, b.val - 1)
    return _mk('urem', n, (a, b), None)


def sdiv(a, b):
    n = a.sort
    h = 1 << (n - 1)
    if a.umax < h and b.umax < h:
        return udiv(a, b)
    if a.op == 'const' and b.op == 'const' and b.val:
        x, y = _sgn(a.val, n), _sgn(b.val, n)
        q = abs(x) // abs(y)
        return const(q if (x < 0) == (y < 0) else -q, n)
    return _mk('sdiv', n, (a, b))


def srem(a, b):
    n = a.sort
    h = 1 << (n - 1)
    if a.umax < h and b.umax < h:
        return urem(a, b)
    if a.op == 'const' and b.op == 'const' and b.val:
        x, y = _sgn(a.val, n), _sgn(b.val, n)
        q = abs(x) % abs(y)
        return const(q if x >= 0 else -q, n)
    return _mk('srem', n, (a, b))


def shl(a, b):
    n = a.sort
    if b.op == 'const':
        if b.val >= n:
            return const(0, n)
        return scale(a, 1 << b.val)
    if a.op == 'const' and a.val == 0:
        return a
    return _mk('shl', n, (a, b))


def lshr(a, b):
    n = a.sort
    if b.op == 'const':
        if b.val >= n:
            return const(0, n)
        if b.val == 0:
            return a
        if a.op == 'const':
            return const(a.val >> b.val, n)
        if a.umax >> b.val == 0:
            return const(0, n)
        if a.op == 'zext':
            return zext(lshr(a.args[0], const(b.val, a.args[0].sort)), n)
        if a.op == 'lshr' and a.args[1].op == 'const':
            return lshr(a.args[0], const(a.args[1].val + b.val, n))
        return _mk('lshr', n, (a, b), None, a.umax >> b.val)
    if a.op == 'const' and a.val == 0:
        return a
    return _mk('lshr', n, (a, b), None, a.umax)


def ashr(a, b):
    n = a.sort
    if a.umax < 1 << (n - 1):
        return lshr(a, b)
    if a.op == 'const' and b.op == 'const':
        return const(_sgn(a.val, n) >> min(b.val, n - 1), n)
    return _mk('ashr', n, (a, b))


def band(a, b):
    n = a.sort
    if n == 0:
        return and_(a, b)
    if a.op == 'const':
        a, b = b, a
    if b.op == 'const':
        if a.op == 'const':
            return const(a.val & b.val, n)
        if b.val == 0:
            return b
        if b.val == (1 << n) - 1:
            return a
        bl = b.val.bit_length()
        if b.val == (1 << bl) - 1:      # low mask
            if a.umax <= b.val:
                return a
            if bl in (8, 16, 32):
                return zext(trunc(a, bl), n)
        if a.op == 'band' and a.args[1].op == 'const':
            return band(a.args[0], const(a.args[1].val & b.val, n))
    elif a is b:
        return a
    elif a.id > b.id:
        a, b = b, a
    return _mk('band', n, (a, b), None, min(a.umax, b.umax))


def bor(a, b):
    n = a.sort
    if n == 0:
        return or_(a, b)
    if a.op == 'const':
        a, b = b, a
    if b.op == 'const':
        if a.op == 'const':
            return const(a.val | b.val, n)
        if b.val == 0:
            return a
        if b.val == (1 << n) - 1:
            return b
    elif a is b:
        return a
    elif a.id > b.id:
        a, b = b, a
    m = a.umax | b.umax
    return _mk('bor', n, (a, b), None, (1 << m.bit_length()) - 1)


def bxor(a, b):
    n = a.sort
    if n == 0:
        if a.op == 'const':
            a, b = b, a
        if b.op == 'const':
            return not_(a) if b.val else a
        if a is b:
            return FALSE
        return not_(eq(a, b))
    if a.op == 'const':
        a, b = b, a
    if b.op == 'const':
        if a.op == 'const':
            return const(a.val ^ b.val, n)
        if b.val == 0:
            return a
    elif a is b:
        return const(0, n)
    elif a.id > b.id:
        a, b = b, a
    m = a.umax | b.umax
    return _mk('bxor', n, (a, b), None, (1 << m.bit_length()) - 1)


def zext(a, n):
    m = a.sort
    if m == 0:
        return ite(a, const(1, n), const(0, n))
    if m == n:
        return a
    if a.op == 'const':
        return const(a.val, n)
    if a.op == 'zext':
        return zext(a.args[0], n)
    if a.op == 'lin':
        c, cs = a.val
        um = c + sum(k * t.umax for t, k in zip(a.args, cs))
        if um < 1 << m:
            r = const(c, n)
            for t, k in zip(a.args, cs):
                r = add(r, scale(zext(t, n), k))
            return r
    if a.op == 'mul' and a.args[0].umax * a.args[1].umax < 1 << m:
        return mul(zext(a.args[0], n), zext(a.args[1], n))
    if a.op == 'ite':
        return ite(a.args[0], zext(a.args[1], n), zext(a.args[2], n))
    return _mk('zext', n, (a,), None, a.umax)


def sext(a, n):
    m = a.sort
    if m == n:
        return a
    if m == 0:
        return ite(a, const(-1, n), const(0, n))
    if a.op == 'const':
        return const(_sgn(a.val, m), n)
    if a.umax < 1 << (m - 1):
        return zext(a, n)
    if a.op == 'sext':
        return sext(a.args[0], n)
    if a.op == 'ite':
        return ite(a.args[0], sext(a.args[1], n), sext(a.args[2], n))
    return _mk('sext', n, (a,))


def trunc(a, n):
    m = a.sort
    if m == n:
        return a
    if n == 0:
        return eq(band(a, const(1, m)), const(1, m))
    if a.op == 'const':
        return const(a.val, n)
    if a.op in ('zext', 'sext'):
        b = a.args[0]
        if b.sort == n:
            return b
        if b.sort > n:
            return trunc(b, n)
        return zext(b, n) if a.op == 'zext' else sext(b, n)
    if a.op == 'trunc':
        return trunc(a.args[0], n)
    if a.op == 'lin':
        c, cs = a.val
        r = const(c, n)
        for t, k in zip(a.args, cs):
            r = add(r, scale(trunc(t, n), k))
        return r
    if a.op == 'mul':
        return mul(trunc(a.args[0], n), trunc(a.args[1], n))
    if a.op == 'ite':
        return ite(a.args[0], trunc(a.args[1], n), trunc(a.args[2], n))
    if a.op in ('band', 'bor', 'bxor'):
        f = {'band': band, 'bor': bor, 'bxor': bxor}[a.op]
        return f(trunc(a.args[0], n), trunc(a.args[1], n))
    return _mk('trunc', n, (a,), None, min(a.umax, (1 << n) - 1))


# ------------------------------------------------------------ booleans
def not_(a):
    if a.op == 'const':
        return FALSE if a.val else TRUE
    if a.op == 'not':
        return a.args[0]
    return _mk('not', 0, (a,))


def _and_args(t):
    return t.args if t.op == 'and' else (t,)


def and_(*ts):
    seen = {}
    for t in ts:
        for x in _and_args(t):
            if x is FALSE:
                return FALSE
            if x is TRUE:
                continue
            seen[x.id] = x
    for x in list(seen.values()):
        if x.op == 'not' and x.args[0].id in seen:
            return FALSE
    l = sorted(seen.values(), key=lambda x: x.id)
    if not l:
        return TRUE
    if len(l) == 1:
        return l[0]
    return _mk('and', 0, l)


def or_(*ts):
    # or(a, b) = not(and(not a, not b)), with factoring of common conjuncts
    ts = [t for t in ts if t is not FALSE]
    if any(t is TRUE for t in ts):
        return TRUE
    if not ts:
        return FALSE
    if len(ts) == 1:
        return ts[0]
    sets = [set(x.id for x in _and_args(t)) for t in ts]
    com = set.intersection(*sets)
    if com:
        byid = {x.id: x for t in ts for x in _and_args(t)}
        rest = [and_(*[x for x in _and_args(t) if x.id not in com]) for t in ts]
        return and_(or_(*rest), *[byid[i] for i in com])
    # (a and X) or not a  ->  X or not a
    out = list(ts)
    lits = {}
    for t in ts:
        lits[t.id] = t
    ch = False
    for i, t in enumerate(out):
        if t.op == 'and':
            keep = [x for x in t.args if not_(x).id not in lits]
            if len(keep) != len(t.args):
                out[i] = and_(*keep)
                ch = True
    if ch:
        return or_(*out)
    return not_(and_(*[not_(t) for t in ts]))


def implies(a, b):
    return or_(not_(a), b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.sort == 0:
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return not_(c)
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
    if a.op == 'ite' and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == 'ite' and b.args[0] is c:
        return ite(c, a, b.args[2])
    if a.op == 'ite' and a.args[2] is b:       # ite(c, ite(d,x,b), b)
        return ite(and_(c, a.args[0]), a.args[1], b)
    if a.op == 'ite' and a.args[1] is b:       # ite(c, ite(d,b,y), b)
        return ite(and_(c, not_(a.args[0])), a.args[2], b)
    if b.op == 'ite' and b.args[1] is a:       # ite(c, a, ite(d,a,y))
        return ite(or_(c, b.args[0]), a, b.args[2])
    um = None
    if a.umax is not None and b.umax is not None:
        um = max(a.umax, b.umax)
    return _mk('ite', a.sort, (c, a, b), None, um)


def eq(a, b):
    if a is b:
        return TRUE
    s = a.sort
    if a.sort != b.sort:
        raise TypeError('eq sorts %s %s: %s = %s' % (a.sort, b.sort, a, b))
    if s == 0:
        if a.op == 'const':
            return b if a.val else not_(b)
        if b.op == 'const':
            return a if b.val else not_(a)
        if not_(a) is b:
            return FALSE
    elif isinstance(s, int):
        if a.op == 'const' and b.op == 'const':
            return FALSE
        # move everything to one side: lin == const
        if a.op == 'lin' or b.op == 'lin':
            d = sub(a, b)
            if d.op == 'const':
                return FALSE if d.val else TRUE
            c, p = _lin_parts(d)
            if len(p) == 1:
                (t, k), = p.items()
                if k == 1:
                    return eq(t, const(-c, s))
                if k == (1 << s) - 1:
                    return eq(t, const(c, s))
                if k & (k - 1) == 0 and t.umax * k < 1 << s:
                    w = (-c) & ((1 << s) - 1)
                    if w % k:
                        return FALSE
                    return eq(t, const(w // k, s))
            elif c == 0 and len(p) == 2:
                (t, k), (u, q) = sorted(p.items(), key=lambda x: x[0].id)
                if (k == 1 and q == (1 << s) - 1) or (q == 1 and k == (1 << s) - 1):
                    return eq(t, u)
            nar = _narrow2(a, b)
            if nar:
                return eq(*nar)
            # canonical: first atom positive
            first = min(p, key=lambda x: x.id)
            if p[first] > (1 << (s - 1)):
                d = neg(d)
            return _mk('eq', 0, (d, const(0, s)))
        if a.op == 'const':
            a, b = b, a
        if b.op == 'const':
            if b.val > a.umax:
                return FALSE
            if a.op == 'ite':
                x, y = eq(a.args[1], b), eq(a.args[2], b)
                if x.op == 'const' or y.op == 'const':
                    return ite(a.args[0], x, y)
            if a.op == 'zext':
                return eq(a.args[0], const(b.val, a.args[0].sort))
            if a.op == 'sext':
                m = a.args[0].sort
                v = _sgn(b.val, s)
                if -(1 << (m - 1)) <= v < (1 << (m - 1)):
                    return eq(a.args[0], const(v, m))
                return FALSE
            if a.op == 'band' and a.args[1].op == 'const' and a.args[1].val & (a.args[1].val - 1) == 0 \
                    and b.val == a.args[1].val:
                return not_(eq(a, const(0, s)))
            if b.val == 0:
                if _nonzero(a):
                    return FALSE
                return not_(_nz(a))
            if a.umax == 1 and b.val == 1:
                return not_(eq(a, const(0, s)))
        elif a.op == 'zext' and b.op == 'zext':
            w = max(a.args[0].sort, b.args[0].sort)
            return eq(zext(a.args[0], w), zext(b.args[0], w))
        elif a.op == 'sext' and b.op == 'sext':
            w = max(a.args[0].sort, b.args[0].sort)
            return eq(sext(a.args[0], w), sext(b.args[0], w))
    if a.id > b.id:
        a, b = b, a
    return _mk('eq', 0, (a, b))


def _nonzero(x):
    """variables / arrays named nn:... are known to be (element-wise) non-zero"""
    while x.op == 'select':
        x = x.args[0]
    return x.op == 'var' and x.val.startswith('nn:')


def _nz(a):
    return not_(_mk('eq', 0, (a, const(0, a.sort)) if a.id < const(0, a.sort).id else (const(0, a.sort), a)))


def ne(a, b):
    return not_(eq(a, b))


def _narrow2(a, b):
    """64-bit values that are sums of zero-extended 32-bit atoms and cannot
    exceed 32 bits are compared at 32 bits"""
    s = a.sort
    if s != 64:
        return None
    if a.umax >> 32 or b.umax >> 32:
        return None

    def ok(t):
        if t.op == 'const':
            return True
        c, p = _lin_parts(t)
        for x, k in p.items():
            if k > 1 << 32 or not _ok_atom(x):
                return False
        return True
    if ok(a) and ok(b):
        return trunc(a, 32), trunc(b, 32)
    return None


def _ok_atom(x):
    if x.op == 'zext':
        return x.args[0].sort <= 32
    if x.op == 'const':
        return x.val < 1 << 32
    if x.op == 'mul':
        return x.umax < 1 << 32 and all(_ok_atom(q) for q in x.args)
    if x.op == 'ite':
        return _ok_val(x.args[1]) and _ok_val(x.args[2])
    return False


def _ok_val(t):
    if t.op == 'const':
        return t.val < 1 << 32
    c, p = _lin_parts(t)
    return t.umax < 1 << 32 and all(k < 1 << 32 and _ok_atom(x) for x, k in p.items())


def ult(a, b):
    s = a.sort
    if a.sort != b.sort:
        raise TypeError('ult sorts')
    if a is b:
        return FALSE
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.val < b.val else FALSE
    if b.op == 'const':
        if b.val == 0:
            return FALSE
        if a.umax < b.val:
            return TRUE
        if a.op == 'zext':
            m = a.args[0].sort
            return ult(a.args[0], const(b.val, m)) if b.val < 1 << m else TRUE
        if b.val == 1:
            return eq(a, const(0, s))
        if a.op == 'ite':
            x, y = ult(a.args[1], b), ult(a.args[2], b)
            if x.op == 'const' or y.op == 'const':
                return ite(a.args[0], x, y)
        if a.umax == b.val:
            return ne(a, b)
    if a.op == 'const':
        if a.val >= b.umax:
            return FALSE
        if b.op == 'zext':
            m = b.args[0].sort
            return ult(const(a.val, m), b.args[0]) if a.val < 1 << m else FALSE
        # c < b   <=>  not (b < c+1)
        return not_(ult(b, const(a.val + 1, s)))
    if a.op == 'zext' and b.op == 'zext':
        w = max(a.args[0].sort, b.args[0].sort)
        return ult(zext(a.args[0], w), zext(b.args[0], w))
    nar = _narrow2(a, b)
    if nar:
        return ult(*nar)
    # x + c < x + d without wrap
    if a.op == 'lin' or b.op == 'lin':
        ca, pa = _lin_parts(a)
        cb, pb = _lin_parts(b)
        com = {}
        for t, k in pa.items():
            if t in pb:
                com[t] = min(k, pb[t])
        cc = min(ca, cb)
        if com or cc:
            fa = ca + sum(k * t.umax for t, k in pa.items())
            fb = cb + sum(k * t.umax for t, k in pb.items())
            if fa < 1 << s and fb < 1 << s:
                r = _mk_lin(s, cc, com)
                return ult(sub(a, r), sub(b, r))
        if ca == cb + 1 and fa_ok(a, s) and cb == 0:
            pass
    return _mk('ult', 0, (a, b))


def fa_ok(a, s):
    c, p = _lin_parts(a)
    return c + sum(k * t.umax for t, k in p.items()) < 1 << s


def ule(a, b):
    return not_(ult(b, a))


def slt(a, b):
    s = a.sort
    h = 1 << (s - 1)
    if a.umax < h and b.umax < h:
        return ult(a, b)
    if a.op == 'const' and b.op == 'const':
        return TRUE if _sgn(a.val, s) < _sgn(b.val, s) else FALSE
    if a is b:
        return FALSE
    if a.op == 'sext' and b.op == 'sext' and a.args[0].sort == b.args[0].sort:
        return slt(a.args[0], b.args[0])
    if b.op == 'const':
        v = _sgn(b.val, s)
        if a.umax < h:
            return ult(a, b) if v > 0 else FALSE
        if v == -h:
            return FALSE
        if a.op == 'sext':
            m = a.args[0].sort
            if v >= 1 << (m - 1):
                return TRUE
            if v <= -(1 << (m - 1)):
                return FALSE
            return slt(a.args[0], const(v, m))
    if a.op == 'const':
        v = _sgn(a.val, s)
        if b.umax < h and v < 0:
            return TRUE
        if v == h - 1:
            return FALSE
        return not_(slt(b, const(v + 1, s)))
    return _mk('slt', 0, (a, b))


def sle(a, b):
    return not_(slt(b, a))


# ------------------------------------------------------------ arrays
def constarr(v):
    return _mk('carr', ('A', v.sort), (v,), None, v.umax)


def select(a, i):
    s = a.sort[1]
    while True:
        if a.op == 'carr':
            return a.args[0]
        if a.op == 'store':
            b, j, v = a.args
            if j is i:
                return v
            d = sub(i, j)
            if d.op == 'const':      # distinct
                a = b
                continue
        if a.op == 'ite':
            x, y = select(a.args[1], i), select(a.args[2], i)
            return ite(a.args[0], x, y)
        break
    return _mk('select', s, (a, i), None, a.umax)


def store(a, i, v):
    if a.op == 'store' and a.args[1] is i:
        a = a.args[0]
    if a.op == 'carr' and a.args[0] is v:
        return a
    if v.op == 'select' and v.args[0] is a and v.args[1] is i:
        return a
    um = None
    if a.umax is not None and v.umax is not None:
        um = max(a.umax, v.umax)
    return _mk('store', a.sort, (a, i, v), None, um)


def uf(name, sort, *args, umax=None):
    return _mk('uf', sort, args, name, umax)


# ------------------------------------------------------------ doubles
def fconst(v):
    return _mk('const', 'F', (), Fraction(v))


def f_of_bv(a, signed):
    """exact integer -> rational"""
    if a.op == 'const':
        return fconst(_sgn(a.val, a.sort) if signed else a.val)
    if signed:
        if a.umax < 1 << (a.sort - 1):
            signed = False
    w = sext(a, 64) if signed else zext(a, 64)
    return _mk('frat', 'F', (w, const(1, 64)), 's' if signed else 'u')


def _rat(t):
    if t.op == 'frat':
        return t.args
    if t.op == 'const' and t.val.denominator == 1 and 0 <= t.val < 1 << 32:
        return const(int(t.val), 64), const(1, 64)
    return None


def fbin(op, a, b):
    if a.op == 'const' and b.op == 'const':
        x, y = a.val, b.val
        if op == 'fadd':
            return fconst(x + y)
        if op == 'fsub':
            return fconst(x - y)
        if op == 'fmul':
            return fconst(x * y)
        if op == 'fdiv' and y:
            return fconst(x / y)
    ra, rb = _rat(a), _rat(b)
    if ra and rb and op in ('fadd', 'fmul', 'fdiv'):
        (n1, d1), (n2, d2) = ra, rb

        def m(x, y):
            if x.umax * y.umax >= 1 << 62:
                raise OverflowError
            return mul(x, y)
        try:
            if op == 'fmul':
                return frat(m(n1, n2), m(d1, d2))
            if op == 'fdiv':
                return frat(m(n1, d2), m(d1, n2))
            return frat(add(m(n1, d2), m(n2, d1)), m(d1, d2))
        except OverflowError:
            pass
    return _mk(op, 'F', (a, b))


def frat(n, d):
    return _mk('frat', 'F', (n, d), 'u')


def f1(op, a):
    if op == 'ceil' and a.op == 'log2':
        r = _rat(a.args[0])
        if r:
            return _mk('fclog2', 'F', r)
    return _mk(op, 'F', (a,))


def fcmp(pred, a, b):
    if a.op == 'const' and b.op == 'const':
        p = pred[1:]
        x, y = a.val, b.val
        return const({'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y, 'eq': x == y, 'ne': x != y}[p], 0)
    # conversions of clog2: result of Ceil(Log2(n/d)) with n >= d is in [0, 64)
    if a.op == 'fclog2' and b.op == 'const':
        p = pred[1:]
        if b.val < 0 and p in ('gt', 'ge'):
            return _mk('fcmp', 0, (a, b), p) if not _clog_ok(a) else TRUE
        if b.val > 64 and p in ('lt', 'le'):
            return TRUE
    return _mk('fcmp', 0, (a, b), pred[1:])


def _clog_ok(a):
    return True


def clog2r(n, d):
    """Ceil(Log2(n/d)) as a bit-vector"""
    if n.op == 'const' and d.op == 'const' and d.val:
        k = 0
        while d.val << k < n.val:
            k += 1
        return const(k, 32)
    return _mk('uf', 32, (n, d), 'clog2r', 64)


def f_to_ui(a, n):
    if a.op == 'fclog2':
        return zext(trunc(clog2r(*a.args), 32), n) if n > 32 else trunc(clog2r(*a.args), n)
    if a.op == 'const' and 0 <= a.val < 1 << n:
        return const(int(a.val), n)
    return _mk('ftoui', n, (a,))


# ------------------------------------------------------------ traversal
def tvars(t):
    """ids of variables (and uninterpreted applications' heads) in t, memoised"""
    if t._vars is not None:
        return t._vars
    st = [t]
    while st:
        x = st[-1]
        if x._vars is not None:
            st.pop()
            continue
        pend = [a for a in x.args if a._vars is None]
        if pend:
            st += pend
            continue
        s = frozenset()
        if x.op == 'var':
            s = frozenset((x,))
        else:
            for a in x.args:
                if not a._vars <= s:
                    s = s | a._vars
        x._vars = s
        st.pop()
    return t._vars


REBUILD = {}


def rebuild(t, args):
    op = t.op
    if op == 'lin':
        r = const(t.val[0], t.sort)
        for a, k in zip(args, t.val[1]):
            r = add(r, scale(a, k))
        return r
    f = REBUILD.get(op)
    if f:
        return f(*args)
    if op in ('zext', 'sext', 'trunc'):
        return {'zext': zext, 'sext': sext, 'trunc': trunc}[op](args[0], t.sort)
    if op == 'ftoui':
        return f_to_ui(args[0], t.sort)
    return _mk(op, t.sort, args, t.val, t.umax)


REBUILD.update({'mul': mul, 'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem, 'shl': shl, 'lshr': lshr, 'ashr': ashr,
                'band': band, 'bor': bor, 'bxor': bxor, 'not': not_, 'and': and_, 'ite': ite, 'eq': eq, 'ult': ult,
                'slt': slt, 'select': select, 'store': store, 'carr': constarr})


def subst(t, m, memo=None):
    """substitute variables by terms (m: var term -> term)"""
    if memo is None:
        memo = {}
    keys = frozenset(m)

    def go(x):
        if x in m:
            return m[x]
        if not (tvars(x) & keys):
            return x
        r = memo.get(x.id)
        if r is None:
            r = rebuild(x, [go(a) for a in x.args])
            memo[x.id] = r
        return r
    return go(t)


# ------------------------------------------------------------ z3 back end
import z3   # noqa: E402

STATS = {'queries': 0, 'time': 0.0, 'cache': 0, 'unknown': 0}
_z3c = {}


def zsort(s):
    if s == 0:
        return z3.BoolSort()
    if s == 'F':
        return z3.RealSort()
    if isinstance(s, tuple):
        return z3.ArraySort(z3.BitVecSort(64), zsort(s[1]))
    return z3.BitVecSort(s)


def tz(t):
    if t.z is not None:
        return t.z
    st = [t]
    while st:
        x = st[-1]
        if x.z is not None:
            st.pop()
            continue
        pend = [a for a in x.args if a.z is None]
        if pend:
            st += pend
            continue
        x.z = _tz1(x)
        st.pop()
    return t.z


def _tz1(t):
    op = t.op
    a = [x.z for x in t.args]
    if op == 'const':
        if t.sort == 0:
            return z3.BoolVal(bool(t.val))
        if t.sort == 'F':
            return z3.RealVal(t.val)
        return z3.BitVecVal(t.val, t.sort)
    if op == 'var':
        return z3.Const(t.val, zsort(t.sort))
    if op == 'lin':
        r = None
        for x, k in zip(a, t.val[1]):
            y = x if k == 1 else x * z3.BitVecVal(k, t.sort)
            r = y if r is None else r + y
        if t.val[0]:
            r = r + z3.BitVecVal(t.val[0], t.sort)
        return r
    if op == 'mul':
        return a[0] * a[1]
    if op == 'udiv':
        return z3.UDiv(a[0], a[1])
    if op == 'urem':
        return z3.URem(a[0], a[1])
    if op == 'sdiv':
        return a[0] / a[1]
    if op == 'srem':
        return z3.SRem(a[0], a[1])
    if op == 'shl':
        return a[0] << a[1]
    if op == 'lshr':
        return z3.LShR(a[0], a[1])
    if op == 'ashr':
        return a[0] >> a[1]
    if op == 'band':
        return a[0] & a[1]
    if op == 'bor':
        return a[0] | a[1]
    if op == 'bxor':
        return a[0] ^ a[1]
    if op == 'zext':
        return z3.ZeroExt(t.sort - t.args[0].sort, a[0])
    if op == 'sext':
        return z3.SignExt(t.sort - t.args[0].sort, a[0])
    if op == 'trunc':
        return z3.Extract(t.sort - 1, 0, a[0])
    if op == 'not':
        return z3.Not(a[0])
    if op == 'and':
        return z3.And(*a)
    if op == 'ite':
        return z3.If(a[0], a[1], a[2])
    if op == 'eq':
        return a[0] == a[1]
    if op == 'ult':
        return z3.ULT(a[0], a[1])
    if op == 'slt':
        return a[0] < a[1]
    if op == 'select':
        return z3.Select(a[0], a[1])
    if op == 'store':
        return z3.Store(a[0], a[1], a[2])
    if op == 'carr':
        return z3.K(z3.BitVecSort(64), a[0])
    if op in ('uf', 'frat', 'fadd', 'fsub', 'fmul', 'fdiv', 'ceil', 'log2', 'fclog2', 'ftoui', 'fcmp', 'fptrunc', 'fpext'):
        nm = '%s_%s_%s' % (op, t.val, '_'.join(str(x.sort) for x in t.args))
        f = z3.Function(nm, *([zsort(x.sort) for x in t.args] + [zsort(t.sort)]))
        return f(*a)
    raise NotImplementedError('z3 for ' + op)


_bounds_memo = {}


def bounded_terms(t):
    """sub-terms with an attached bound (variables, selects from bounded arrays, bounded applications)"""
    r = _bounds_memo.get(t.id)
    if r is not None:
        return r
    st = [t]
    while st:
        x = st[-1]
        if x.id in _bounds_memo:
            st.pop()
            continue
        pend = [a for a in x.args if a.id not in _bounds_memo]
        if pend:
            st += pend
            continue
        s = frozenset()
        for a in x.args:
            q = _bounds_memo[a.id]
            if not q <= s:
                s = s | q
        if x.op in ('var', 'select', 'uf') and isinstance(x.sort, int) and x.sort and \
                (x.umax < (1 << x.sort) - 1 or _nonzero(x)):
            s = s | frozenset((x,))
        _bounds_memo[x.id] = s
        st.pop()
    return _bounds_memo[t.id]


class Solver:
    def __init__(self, timeout_ms=20000):
        self.cache = {}
        self.timeout = timeout_ms
        self.facts = {}          # var -> [facts] added whenever the variable is in the cone
        self.log = None
        self.unknowns = []

    def add_fact(self, v, f):
        self.facts.setdefault(v, []).append(f)

    def cone(self, pc, goal, with_facts=True):
        need = set(tvars(goal))
        rest = [c for c in pc if c is not TRUE]
        out = []
        done_facts = set()
        ch = True
        while ch:
            ch = False
            nr = []
            for c in rest:
                vs = tvars(c)
                if vs & need or not vs:
                    out.append(c)
                    if not vs <= need:
                        need |= vs
                    ch = True
                else:
                    nr.append(c)
            rest = nr
            if with_facts:
                for v in list(need):
                    if v in self.facts and v not in done_facts:
                        done_facts.add(v)
                        for f in self.facts[v]:
                            out.append(f)
                            if not tvars(f) <= need:
                                need |= tvars(f)
                                ch = True
        return out

    def sat(self, pc, goal, model=False, with_facts=True):
        """is pc /\\ goal satisfiable?  'sat' | 'unsat' | 'unknown'"""
        if goal is FALSE:
            return 'unsat'
        if goal is TRUE and not model:
            if not pc:
                return 'sat'
        pcs = list(pc)
        if goal is TRUE:
            cone = [c for c in pcs if c is not TRUE]
            if with_facts:
                extra = self.cone(pcs, and_(*pcs), True)
                cone = list({c.id: c for c in cone + extra}.values())
        else:
            cone = self.cone(pcs, goal, with_facts)
        ids = set(c.id for c in cone)
        if not_(goal).id in ids:
            return 'unsat'
        key = (frozenset(ids), goal.id)
        if not model and key in self.cache:
            STATS['cache'] += 1
            return self.cache[key]
        t0 = time.time()
        s = z3.Solver()
        s.set('timeout', self.timeout)
        bt = frozenset()
        for c in cone + [goal]:
            s.add(tz(c))
            bt = bt | bounded_terms(c)
        for b in bt:
            if b.umax < (1 << b.sort) - 1:
                s.add(z3.ULE(tz(b), z3.BitVecVal(b.umax, b.sort)))
            if _nonzero(b):
                s.add(tz(b) != 0)
        r = str(s.check())
        ax = [x for x in bt if x.op == 'uf' and x.val == 'clog2r'] if r != 'unsat' else ()
        if ax:
            for x in ax:
                n, d, k = (z3.ZeroExt(128 - y.sort, tz(y)) for y in x.args + (x,))
                one = z3.BitVecVal(1, 128)
                s.add(z3.Or(d == 0, z3.And(z3.UGE(d << k, n), z3.Or(k == 0, z3.ULT(d << (k - one), n)))))
            r = str(s.check())
        dt = time.time() - t0
        STATS['queries'] += 1
        STATS['time'] += dt
        if self.log is not None:
            self.log.append((cone, goal, r))
        if r == 'unknown':
            STATS['unknown'] += 1
            self.unknowns.append(goal)
        self.cache[key] = r
        if model and r == 'sat':
            self.last_model = s.model()
        return r

    def valid(self, pc, goal):
        if goal is TRUE:
            return True
        r = self.sat(pc, not_(goal))
        return r == 'unsat'


def meval(model, t):
    """evaluate a term in a z3 model"""
    v = model.eval(tz(t), model_completion=True)
    if z3.is_bv_value(v):
        return v.as_long()
    if z3.is_true(v):
        return 1
    if z3.is_false(v):
        return 0
    return None
