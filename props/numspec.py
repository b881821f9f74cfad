"""Contracts of the text to integer conversions over a terminated character array A."""
from .iterspec import *
from svc.contract import Contract
from svc.core import BV

LIM = {'i8': (-128, 127), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1),
       'ui8': (0, 255), 'ui16': (0, 2**16 - 1), 'ui32': (0, 2**32 - 1), 'ui64': (0, 2**64 - 1)}


def isdig(x):
    return zand(x >= 48, x <= 57)


def islow(x):
    return zand(x >= 97, x <= 122)


def isup(x):
    return zand(x >= 65, x <= 90)


def issp(x):
    return zor(x == 32, zand(x >= 9, x <= 13))


def digit(x, b):
    """(is a digit in base b, its value)"""
    v = zif(isdig(x), x - 48, zif(islow(x), x - 87, x - 55))
    return zand(zor(isdig(x), islow(x), isup(x)), v < b), v


def num(c, b, p, v, unfold=False):
    """ghost: value denoted by the longest run of base-b digits at p, continuing from v"""
    A = c.A('A')
    f = c.ctx.uf('Num_%s' % A.t, (I, I, I, I))
    k = ('num', A.t.sexpr())
    if k not in c.ctx.ufs:
        c.ctx.ufs[k] = True
        bb, q, w = z3.Ints('bb q w')
        d, dv = digit(A[q], bb)
        # monotone: proved by induction on the distance to the terminator (base and step follow from the unfolding)
        step = zimp(zand(w >= 0, bb >= 2, f(bb, q, w) == zif(d, f(bb, q + 1, w * bb + dv), w), f(bb, q + 1, w * bb + dv) >= w * bb + dv), f(bb, q, w) >= w)
        c.ctx.oblige('lemma', 'digit value is monotone in the accumulated value (induction step)', True, step)
        c.ctx.add_assume(z3.ForAll([bb, q, w], zimp(zand(bb >= 2, w >= 0), f(bb, q, w) >= w), patterns=[f(bb, q, w)]))
    if unfold:
        d, dv = digit(A[p], b)
        c.axiom(f(b, p, v) == zif(d, f(b, p + 1, v * b + dv), v), post=True)
    return f(b, p, v)


def skip(c, p):
    """ghost: first position at or after p that is no white space"""
    A = c.A('A')
    f = c.ctx.uf('Skip_%s' % A.t, (I, I))
    s = f(p)
    c.axiom(zimp(zand(0 <= p, p < c.n('A'), A[c.n('A') - 1] == 0), zand(p <= s, s < c.n('A'), znot(issp(A[s])), c.forall(p, s, lambda i: issp(A[i]), 's'))), post=True)
    return s


def clamp(neg, n, lim):
    lo, hi = lim
    pos = zif(n > hi, hi, n)
    return zif(neg, zif(n > hi, lo, -n), pos) if lo < 0 else pos


def cctype(W):
    out = []

    def mk(name, f):
        def fn(c, x):
            r = c.ret('bool')
            if c.ctx.mode == BV:
                bvf = {'isdigit': (48, 57), 'islower': (97, 122), 'isupper': (65, 90)}
                if name in bvf:
                    lo, hi = bvf[name]
                    e = z3.And(x >= lo, x <= hi)
                else:
                    e = z3.Or(x == 32, z3.And(x >= 9, x <= 13))
                c.ensures(r == e, 'ASCII class')
            else:
                c.ensures(r == f(x), 'ASCII class')
        out.append(Contract('sprout::ascii::' + name, 'val:' + W, fn, mode=BV))
    mk('isdigit', isdig)
    mk('islower', islow)
    mk('isupper', isup)
    mk('isspace', issp)
    return out


def toint(W, T):
    """W: character type, T: integer type ('ui64' unsigned)"""
    regs = {'A': W}
    lim = LIM[T]
    uns = T[0] == 'u'
    V = 'val:' + T
    sel = {'i32': 'int', 'i64': 'long', 'ui64': 'unsigned long', 'i16': 'short', 'ui32': 'unsigned int'}[T]
    ch = {'i8': 'char', 'i32': 'wchar_t'}[W]
    out = []

    def C(n, sig, fn):
        def when(f, dem):
            return ('<%s' % sel) in dem.replace('<%s ' % sel, '<_') if n.startswith('sprout::detail::') or n.endswith('_to_int') else True
        x = Contract(n, sig, fn, regs=regs, when=when, label='%s<%s>' % (n, sel))
        out.append(x)

    def trm(c, p):
        c.requires(zand(p < c.n('A'), c.A('A')[c.n('A') - 1] == 0), 'terminated string')

    def ci(c, ch, b):
        c.requires(zand(b >= 2, b <= 36), 'base')
        r = c.ret(T)
        d, v = digit(ch, b)
        c.ensures(r == zif(d, v, -1 if not uns else lim[1]), 'digit value, or -1')
    C(D('char_to_int'), 'val:%s v' % W, ci)

    def impl_1(c, p, b, v, x, neg):
        trm(c, p)
        A = c.A('A')
        d, dv = digit(A[p], b)
        c.requires(zand(b >= 2, b <= 36), 'base')
        c.requires(zand(v >= 0, v <= lim[1]), 'accumulated value in range')
        c.requires(x == zif(d, dv, -1 if not uns else lim[1]), 'current digit')
        if uns:
            c.requires(znot(neg), 'no sign')
        c.decreases(c.n('A') - p)
        c.ensures(c.ret(T) == clamp(neg, num(c, b, p, v, unfold=True), lim), 'value of the digits, saturated')
    C(D('str_to_int_impl_1'), 'A v %s %s v' % (V, V), impl_1)

    def value(c, p, base, neg, lim):
        """value of the digits at p, prefix rules of the C standard"""
        A = c.A('A')
        z = A[p] == 48
        hx = zand(z, zor(base == 0, base == 16), zor(A[p + 1] == 120, A[p + 1] == 88))
        o = z3.IntVal(0)
        n = lambda k, q: num(c, z3.IntVal(k) if isinstance(k, int) else k, q, o, unfold=True)
        return clamp(neg, zif(hx, n(16, p + 2), zif(base == 0, zif(z, n(8, p), n(10, p)), n(base, p))), lim)

    def impl(c, p, base, neg):
        trm(c, p)
        c.requires(zor(base == 0, zand(base >= 2, base <= 36)), 'base')
        if uns:
            c.requires(znot(neg), 'no sign')
        c.ensures(c.ret(T) == value(c, p, base, neg, lim), 'value of the digits after the prefix, saturated')
    C(D('str_to_int_impl'), 'A v v', impl)

    def api(c, p, base):
        trm(c, p)
        c.requires(zor(base == 0, zand(base >= 2, base <= 36)), 'base')
        c.decreases(c.n('A') - p)
        s = skip(c, p)
        A = c.A('A')
        neg = zand(A[s] == 45, z3.BoolVal(not uns))
        sg = zor(neg, A[s] == 43)
        skip(c, p + 1)
        c.ensures(c.ret(T) == zif(sg, value(c, s + 1, base, neg, lim), value(c, s, base, z3.BoolVal(False), lim)), 'white space, sign, prefix, digits; saturated')
    C(D('str_to_int'), 'A v', api)
    C('sprout::str_to_int', 'A v', api)

    def aimpl(c, p, v, neg):
        trm(c, p)
        c.requires(zand(v >= 0, v <= lim[1]), 'accumulated value in range')
        if uns:
            c.requires(znot(neg), 'no sign')
        c.decreases(c.n('A') - p)
        c.ensures(c.ret(T) == clamp(neg, num(c, z3.IntVal(10), p, v, unfold=True), lim), 'value of the decimal digits, saturated')
    C(D('ascii_to_int_impl'), 'A %s v' % V, aimpl)

    def aapi(c, p):
        trm(c, p)
        c.decreases(c.n('A') - p)
        s = skip(c, p)
        skip(c, p + 1)
        A = c.A('A')
        neg = zand(A[s] == 45, z3.BoolVal(not uns))
        sg = zor(neg, A[s] == 43)
        c.ensures(c.ret(T) == clamp(neg, num(c, z3.IntVal(10), zif(sg, s + 1, s), z3.IntVal(0)), lim), 'white space, sign, decimal digits; saturated')
    C(D('ascii_to_int'), 'A', aapi)
    C('sprout::ascii_to_int', 'A', aapi)
    return out
