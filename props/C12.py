import z3
from svc.driver import Unit, Native, lemmas
from svc.contract import Contract
from svc.core import BV
from .iterspec import EXT

LEAN = ['gcd.lean']
# the plain recursion (the variant clang gets, indexed by recursion depth, is covered by the native runs)
CFG = '#include <sprout/config.hpp>\n#undef SPROUT_WORKAROUND_NOT_TERMINATE_RECURSIVE_CONSTEXPR_FUNCTION_TEMPLATE\n'
M = 'sprout::math::detail::'
D = 'sprout::detail::'


BV64 = z3.BitVecSort(64)
zx = lambda x: z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x


def G(c, a, b):
    """ghost: greatest common divisor of two naturals below 2^64 (identities used: gcd.lean)"""
    return c.ctx.uf('Gcd', (BV64,) * 3)(zx(a), zx(b))


def ax(c, a, b):
    a, b = zx(a), zx(b)
    odd = lambda x: z3.Extract(0, 0, x) == 1
    h = lambda x: z3.LShR(x, 1)
    for a, b in ((a, b), (b, a)):
        c.axiom(G(c, a, b) == G(c, b, a), post=True)
        c.axiom(z3.Implies(a == 0, G(c, a, b) == b), post=True)
        c.axiom(z3.Implies(a != 0, z3.ULE(G(c, a, b), a)), post=True)
        c.axiom(z3.Implies(z3.And(odd(b), z3.Not(odd(a))), G(c, a, b) == G(c, h(a), b)), post=True)
        c.axiom(z3.Implies(z3.ULE(b, a), G(c, a, b) == G(c, a - b, b)), post=True)
    c.axiom(z3.Implies(z3.And(z3.Not(odd(a)), z3.Not(odd(b))), G(c, a, b) == G(c, h(a), h(b)) << 1), post=True)


def gcdspec(T, signed):
    """binary gcd on nonnegative values of type T"""
    w = int(T[1:])
    cxx = {('i8', 0): 'unsigned char', ('i16', 0): 'unsigned short', ('i32', 0): 'unsigned int', ('i64', 0): 'unsigned long', ('i32', 1): 'int'}[T, int(signed)]
    out = []

    def C(n, sig, fn):
        out.append(Contract(M + n, sig, fn, mode=BV, label='%s<%s>' % (n, cxx), when=lambda f, dem: n + '<' + cxx + '>' in dem))
    odd = lambda x: z3.Extract(0, 0, x) == 1

    def nonneg(c, *a):
        if signed:
            c.requires(z3.And(*[x >= 0 for x in a]), 'non-negative operands')

    def b1(c, u, v, s):
        ax(c, u, v)
        nonneg(c, u, v)
        c.requires(z3.And(u != 0, v != 0), 'both positive')
        t = zx(s)
        lim = z3.BitVecVal((1 << (w - signed)) - 1, 64)
        c.requires(z3.And(z3.ULT(s, w), z3.ULE(zx(u), z3.LShR(lim, t)), z3.ULE(zx(v), z3.LShR(lim, t))), 'operands shifted back stay in range')
        c.decreases(u)
        c.ensures(zx(c.ret(T)) == G(c, u, v) << t, 'gcd scaled back')
    C('gcd_binary_1', 'v v v', b1)

    def pick(r, k):
        return z3.If(k == 0, r[0], r[1])

    def range_(c, r, s):
        """the gcd is at most either positive operand"""
        t = zx(s)
        lim = z3.BitVecVal((1 << (w - signed)) - 1, 64)
        c.requires(z3.And(z3.ULT(s, w), z3.ULE(G(c, r[0], r[1]), z3.LShR(lim, t))), 'gcd scaled back is in range')
        nonneg(c, r[0], r[1])

    def b21(c, s, r, which):
        c.requires(z3.ULT(which, 2), 'index')
        x, y = pick(r, which), pick(r, which ^ 1)
        c.requires(z3.And(x != 0, odd(y)), 'the other number is odd')
        ax(c, r[0], r[1])
        range_(c, r, s)
        c.decreases(zx(r[0]) + zx(r[1]) if w < 64 else z3.ZeroExt(2, r[0]) + z3.ZeroExt(2, r[1]), z3.BitVecVal(0, 8))
        c.ensures(zx(c.ret(T)) == G(c, r[0], r[1]) << zx(s), 'gcd scaled back')
    C('gcd_binary_2_1', 'v (%s,%s) v' % (T, T), b21)

    def b22(c, s, r, which):
        c.requires(z3.ULT(which, 2), 'index')
        c.requires(odd(pick(r, which ^ 1)), 'the other number is odd')
        ax(c, r[0], r[1])
        range_(c, r, s)
        c.decreases(zx(r[0]) + zx(r[1]) if w < 64 else z3.ZeroExt(2, r[0]) + z3.ZeroExt(2, r[1]), z3.BitVecVal(1, 8))
        c.ensures(zx(c.ret(T)) == G(c, r[0], r[1]) << zx(s), 'gcd scaled back')
    C('gcd_binary_2_2', 'v (%s,%s) v' % (T, T), b22)

    def gb(c, u, v):
        nonneg(c, u, v)
        ax(c, u, v)
        c.ensures(zx(c.ret(T)) == G(c, u, v), 'greatest common divisor')
    C('gcd_binary', 'v v', gb)
    return out


def api(T, signed):
    w = int(T[1:])

    def g(c, a, b):
        if signed:
            mn = z3.BitVecVal(1 << (w - 1), w)
            c.requires(z3.And(a != mn, b != mn), 'magnitudes representable')
            ab = lambda x: z3.If(x < 0, -x, x)
        else:
            ab = lambda x: x
        c.ensures(zx(c.ret(T)) == G(c, ab(a), ab(b)), 'greatest common divisor of the magnitudes')
    return [Contract('sprout::math::gcd', 'val:%s val:%s' % (T, T), g, mode=BV)]


def gunit(name, t, w, signed):
    src = CFG + '#include <sprout/math/gcd.hpp>\nT g_x(T const& a, T const& b) { return sprout::gcd(a, b); }\n'.replace('T ', t + ' ').replace('T c', t + ' c')
    return Unit('gcd_' + name, src, gcdspec('i%d' % w, 0) + (gcdspec('i32', 1) if w < 32 else []) + api('i%d' % w, signed), mode='bv', ext=EXT)


def less(T='i64'):
    """order of q1 + r1/d1 and q2 + r2/d2 by continued fractions; value compared by cross multiplication"""
    out = []

    def C(n, sig, fn):
        out.append(Contract(D + n, sig, fn))

    def core(c, d1, q1, r1, d2, q2, r2):
        c.requires(z3.And(d1 > 0, d2 > 0, r1 >= 0, r1 < d1, r2 >= 0, r2 < d2), 'remainders reduced')

    def lt(c, d1, q1, r1, d2, q2, r2):
        """q1 + r1/d1 < q2 + r2/d2"""
        return z3.Or(q1 < q2, z3.And(q1 == q2, r1 * d2 < r2 * d1))

    def l2(c, d1, q1, r1, d2, q2, r2, rev):
        core(c, d1, q1, r1, d2, q2, r2)
        c.requires(z3.Or(rev == 0, rev == 1), 'direction')
        c.decreases(d1)
        R = c.ret('bool')
        c.ensures(R == z3.If(rev == 0, lt(c, d1, q1, r1, d2, q2, r2), lt(c, d2, q2, r2, d1, q1, r1)), 'order of the two mixed numbers (reversed on demand)')
    C('rational_less_impl_2', '_ _ v v v v v v v', l2)
    P = '(%s,%s)' % (T, T)

    def flo(q, r, d):
        """floor quotient and remainder of q*d + r, |r| < d"""
        return z3.If(r < 0, q - 1, q), z3.If(r < 0, r + d, r)

    def lt2(c, d1, q1, r1, d2, q2, r2):
        q1, r1 = flo(q1, r1, d1)
        q2, r2 = flo(q2, r2, d2)
        return lt(c, d1, q1, r1, d2, q2, r2)

    def pre(c, d, q, r):
        c.requires(z3.And(d > 0, -d < r, r < d, z3.If(r < 0, q > -BIG, q >= -BIG), q < BIG), 'truncated quotient and remainder')

    def l1(c, d1, q1, r1, d2, q2, r2):
        c.requires(z3.And(d1 > 0, r1 >= 0, r1 < d1), 'remainder reduced')
        pre(c, d2, q2, r2)
        c.decreases(z3.If(r2 < 0, -r2, z3.IntVal(0)))
        c.ensures(c.ret('bool') == lt2(c, d1, q1, r1, d2, q2, r2), 'order of the two mixed numbers')
    C('rational_less_impl_1', '_ _ v v v v v v', l1)

    def tq(n, d):
        a = z3.If(n >= 0, n, -n)
        return z3.If(n >= 0, a / d, -(a / d)), z3.If(n >= 0, a % d, -(a % d))

    def l0(c, a, b, d1, q1, r1):
        pre(c, d1, q1, r1)
        ok(c, b)
        c.decreases(z3.If(r1 < 0, -r1, z3.IntVal(0)))
        q2, r2 = tq(b[0], b[1])
        c.ensures(c.ret('bool') == lt2(c, d1, q1, r1, b[1], q2, r2), 'order of a mixed number and a fraction')
    C('rational_less_impl', '_ %s v v v' % P, lambda c, b, d1, q1, r1: l0(c, None, b, d1, q1, r1))

    def li(c, a, n, q, r):
        ok(c, a)
        pre(c, a[1], q, r)
        c.decreases(z3.If(r < 0, -r, z3.IntVal(0)))
        c.ensures(c.ret('bool') == (flo(q, r, a[1])[0] < n), 'mixed number below an integer: floor below it')
    C('rational_less_impl', '%s val:%s v v' % (P, T), li)

    def ok(c, a):
        c.requires(z3.And(a[1] > 0, a[0] > -BIG, a[0] < BIG), 'positive denominator')

    def op(name, rel):
        def f(c, a, b):
            ok(c, a)
            ok(c, b)
            c.ensures(c.ret('bool') == rel(a[0] * b[1], b[0] * a[1]), 'order of the fractions by cross multiplication')

        def fi(c, a, n):
            ok(c, a)
            c.requires(z3.Implies(a[0] == n * a[1], a[1] == 1), 'lowest terms')
            c.ensures(c.ret('bool') == rel(a[0], n * a[1]), 'order of fraction and integer')

        def fr(c, n, a):
            ok(c, a)
            c.requires(z3.Implies(a[0] == n * a[1], a[1] == 1), 'lowest terms')
            c.ensures(c.ret('bool') == rel(n * a[1], a[0]), 'order of integer and fraction')
        out.append(Contract('sprout::operator' + name, '%s %s' % (P, P), f))
        out.append(Contract('sprout::operator' + name, '%s val:%s' % (P, T), fi))
        out.append(Contract('sprout::operator' + name, 'val:%s %s' % (T, P), fr))
    op('<', lambda x, y: x < y)
    op('>', lambda x, y: x > y)
    op('<=', lambda x, y: x <= y)
    op('>=', lambda x, y: x >= y)
    return out


def ZG(c, a, b):
    return c.ctx.uf('GcdZ', (z3.IntSort(),) * 3)(a, b)


def zabs(x):
    return z3.If(x < 0, -x, x)


def gcdz(c, a, b):
    """gcd over the integers: defining facts at (a, b)"""
    g = ZG(c, zabs(a), zabs(b))
    c.axiom(g >= 0, post=True)
    c.axiom(z3.Implies(z3.Or(a != 0, b != 0), g > 0), post=True)
    for x in (a, b):
        c.axiom(z3.Implies(g > 0, z3.And(zabs(x) == g * (zabs(x) / g), zabs(x) % g == 0)), post=True)
        c.axiom(z3.Implies(x != 0, g <= zabs(x)), post=True)
    return g


def pure(c, name, n, f):
    """a lemma of integer arithmetic: proved once for fresh variables, returned for instantiation"""
    k = ('pure', name)
    if k not in c.ctx.ufs:
        c.ctx.ufs[k] = True
        h, q = f(*z3.Ints(' '.join('%s_%d' % (name, i) for i in range(n))))
        c.ctx.oblige('lemma', 'arithmetic lemma ' + name, True, z3.Implies(h, q))

    def use(*a):
        h, q = f(*a)
        if c.phase == 'post':
            c.ctx.oblige('lemma', '%s: hypotheses of %s' % (c.con.label, name), c.g, h)
            c.ctx.add_assume(z3.Implies(c.g if isinstance(c.g, z3.BoolRef) else z3.BoolVal(c.g), q))
    return use


MX = 1 << 30


def ratz(low, T='i64'):
    out = []
    P = '(%s,%s)' % (T, T)

    def C(n, sig, fn):
        out.append(Contract(n, sig, fn))

    def gcd(c, a, b):
        c.requires(z3.And(a > -(1 << 63), b > -(1 << 63)), 'magnitudes representable')
        c.ensures(c.ret(T) == gcdz(c, a, b), 'greatest common divisor of the magnitudes')
    out.append(Contract('sprout::math::gcd', 'val:%s val:%s' % (T, T), gcd, verify=False))

    def ok(c, a):
        c.requires(z3.And(a[1] > 0, a[1] <= MX, a[0] >= -MX, a[0] <= MX), 'positive denominator, products in range')

    def addsub(name, sg):
        def f(c, a, b):
            ok(c, a)
            ok(c, b)
            n, d = c.ret(T, 0), c.ret(T, 1)
            c.ensures(d > 0, 'positive denominator')
            g = gcdz(c, a[1], b[1])
            p, q = a[1] / g, b[1] / g
            t = a[0] * q + sg * b[0] * p
            h = gcdz(c, t, g)
            v = g / h
            pure(c, 'quot', 4, lambda h, x, y, v: (z3.And(h > 0, x == h * v * y), x / h == v * y))(h, b[1], q, v)
            if not low:
                c.ensures(n * (a[1] * b[1]) == (a[0] * b[1] + sg * b[0] * a[1]) * d, 'value')
                return
            lowest(c, 'add_coprime', z3.And(cop(c, a), cop(c, b)), tdiv(t, h), p * (b[1] / h), n, d)
        C('sprout::operator' + name, '%s %s' % (P, P), f)
    addsub('+', 1)
    addsub('-', -1)

    def mul(c, a, b):
        ok(c, a)
        ok(c, b)
        n, d = c.ret(T, 0), c.ret(T, 1)
        g, h = gcdz(c, a[0], b[1]), gcdz(c, b[0], a[1])
        c.ensures(d > 0, 'positive denominator')
        c.ensures(n * (a[1] * b[1]) == (a[0] * b[0]) * d, 'value')
        lowest(c, 'mul_coprime', z3.And(cop(c, a), cop(c, b)), tdiv(a[0], g) * tdiv(b[0], h), (a[1] / h) * (b[1] / g), n, d)
    C('sprout::operator*', '%s %s' % (P, P), mul)

    def div(c, a, b):
        ok(c, a)
        ok(c, b)
        n, d = c.ret(T, 0), c.ret(T, 1)
        c.throws(b[0] == 0)
        g, h = gcdz(c, a[0], b[0]), gcdz(c, b[1], a[1])
        c.ensures(d > 0, 'positive denominator')
        c.ensures(n * (a[1] * b[0]) == (a[0] * b[1]) * d, 'value')
        s = z3.If(b[0] < 0, -1, 1)
        lowest(c, 'mul_coprime', z3.And(cop(c, a), cop(c, b), a[0] != 0), s * tdiv(a[0], g) * (b[1] / h), s * (a[1] / h) * tdiv(b[0], g), n, d)
        c.ensures(z3.Implies(a[0] == 0, z3.And(n == 0, d == a[1])), 'zero divided')
    C('sprout::operator/', '%s %s' % (P, P), div)
    return out


def tdiv(x, y):
    return z3.If(x >= 0, x / y, -((-x) / y))


def cop(c, a):
    return gcdz(c, a[0], a[1]) == 1


def lowest(c, name, hyp, n0, d0, n, d):
    """the fraction n0/d0 is in lowest terms by theorem `name` of gcd.lean; the result is that fraction"""
    c.axiom(z3.Implies(hyp, ZG(c, zabs(n0), zabs(d0)) == 1), post=True)
    c.ensures(z3.Implies(hyp, z3.And(n == n0, d == d0)), 'numerator and denominator divided by the common factors')
    c.ensures(z3.Implies(hyp, ZG(c, zabs(n), zabs(d)) == 1), 'lowest terms')


def lcms(T, signed):
    w = int(T.strip('ui'))
    mx = (1 << (w - signed)) - 1
    out = []

    def pre(c, *xs):
        if signed:
            c.requires(z3.And(*[x >= -mx for x in xs]), 'magnitudes representable')

    def ge(c, a, b):
        pre(c, a, b)
        x, y = zabs(a), zabs(b)
        g = gcdz(c, a, b)
        r = y % x
        c.axiom(z3.Implies(x == 0, g == y), post=True)
        c.axiom(z3.Implies(z3.And(x != 0, r == 0), g == x), post=True)
        c.axiom(z3.Implies(z3.And(x != 0, r != 0), g == ZG(c, x % r, r)), post=True)
        c.decreases(x)
        c.ensures(zabs(c.ret(T)) == g, 'magnitude is the greatest common divisor')
    s = 'v' if signed else 'u'
    out.append(Contract(M + 'gcd_euclidean', s + ' ' + s, ge))

    def lcm(c, a, b):
        pre(c, a, b)
        g = gcdz(c, a, b)
        v = zabs(a) / g * zabs(b)
        c.requires(z3.Implies(g > 0, v <= mx), 'least common multiple in range')
        c.ensures(c.ret(T) == z3.If(g == 0, 0, v), 'product of the magnitudes divided by the greatest common divisor')
    out.append(Contract('sprout::math::lcm', 'val:%s val:%s' % (T, T), lcm))
    return out


def gcdfacts(c, a, b):
    c.requires(z3.And(a > -(1 << 63), b > -(1 << 63)), 'magnitudes representable')
    g = gcdz(c, a, b)
    c.ensures(c.ret('i64') == g, 'greatest common divisor of the magnitudes')
    c.axiom(z3.Implies(g > 0, ZG(c, zabs(a) / g, zabs(b) / g) == 1), post=True)
    c.axiom(z3.Implies(a == 0, g == zabs(b)), post=True)


OPS = r"""
#include <sprout/rational.hpp>
typedef sprout::rational<long> Q; typedef sprout::detail::rational_construct_access<long> RA;
#define MXR (1 << 30)
#define ANYQ(q) ANY_IN(long, q##_n, -MXR, MXR); ANY_IN(long, q##_d, 1, MXR); Q q = RA::raw_construct(q##_n, q##_d)
#define SAME(x, y, t) ENSURE((x).numerator() == (y).numerator() && (x).denominator() == (y).denominator(), t)
LEMMA(make) { ANY_IN(long, n, -9223372036854775807L, 9223372036854775807L); ANY_IN(long, d, -9223372036854775807L, 9223372036854775807L); THROWS_IFF(d == 0); Q q(n, d);
  long g = sprout::gcd(n, d);
  if (d > 0) { ENSURE(q.numerator() * g == n && q.denominator() * g == d, "value kept, common factors removed"); } else { ENSURE(q.numerator() * g == -n && q.denominator() * g == -d, "value kept, common factors removed"); }
  ENSURE(q.denominator() > 0, "positive denominator"); ENSURE(sprout::gcd(q.numerator(), q.denominator()) == 1, "lowest terms"); }
LEMMA(make_int) { ANY(long, n); Q q(n); ENSURE(q.numerator() == n && q.denominator() == 1, "integer over one"); Q z; ENSURE(z.numerator() == 0 && z.denominator() == 1, "zero over one"); }
LEMMA(assign) { ANY_IN(long, n, -9223372036854775807L, 9223372036854775807L); ANY_IN(long, d, 1, 9223372036854775807L); Q a(n, d); Q b; b.assign(n, d); SAME(a, b, "assign is construction"); Q e; e = a; SAME(a, e, "copy assigned"); Q f(a); SAME(a, f, "copied"); f = n; ENSURE(f.numerator() == n && f.denominator() == 1, "integer assigned"); }
#define COMPOUND(w, o) LEMMA(w) { ANYQ(a); ANYQ(b); Q c = a o b; Q t = a; t o##= b; SAME(t, c, "compound assignment is the operation"); }   LEMMA(w##_self) { ANYQ(a); Q c = a o a; a o##= a; SAME(a, c, "compound assignment with itself"); }   LEMMA(w##_int) { ANYQ(a); ANY_IN(long, k, -MXR, MXR); Q c = a o Q(k); Q t = a; t o##= k; SAME(t, c, "compound assignment of an integer"); }   LEMMA(w##_mixed) { ANYQ(a); ANY_IN(long, k, -MXR, MXR); SAME(a o k, a o Q(k), "integer on the right"); SAME(k o a, Q(k) o a, "integer on the left"); }
COMPOUND(add, +)
COMPOUND(sub, -)
COMPOUND(mul, *)
LEMMA(div) { ANYQ(a); ANYQ(b); THROWS_IFF(b_n == 0); Q t = a; t /= b; Q c = a / b; SAME(t, c, "compound assignment is the operation"); }
LEMMA(div_self) { ANYQ(a); THROWS_IFF(a_n == 0); Q c = a / a; a /= a; SAME(a, c, "compound assignment with itself"); }
LEMMA(div_int) { ANYQ(a); ANY_IN(long, k, -MXR, MXR); THROWS_IFF(k == 0); Q t = a; t /= k; Q c = a / Q(k); SAME(t, c, "compound assignment of an integer"); SAME(a / k, c, "integer on the right"); }
LEMMA(div_left) { ANYQ(a); ANY_IN(long, k, -MXR, MXR); THROWS_IFF(a_n == 0); SAME(k / a, Q(k) / a, "integer on the left"); }
LEMMA(step) { ANYQ(a); Q t = a; Q u = ++t; ENSURE(t.numerator() == a_n + a_d && t.denominator() == a_d, "one added"); SAME(u, t, "value after"); t = a; u = t++; SAME(u, a, "value before"); ENSURE(t.numerator() == a_n + a_d && t.denominator() == a_d, "one added");
  t = a; u = --t; ENSURE(t.numerator() == a_n - a_d && t.denominator() == a_d, "one subtracted"); SAME(u, t, "value after"); t = a; u = t--; SAME(u, a, "value before"); ENSURE(t.numerator() == a_n - a_d && t.denominator() == a_d, "one subtracted"); }
LEMMA(unary) { ANYQ(a); SAME(+a, a, "unary plus"); Q t = -a; ENSURE(t.numerator() == -a_n && t.denominator() == a_d, "negated"); t = sprout::abs(a); ENSURE(t.numerator() == (a_n < 0 ? -a_n : a_n) && t.denominator() == a_d, "magnitude"); ENSURE(!a == (a_n == 0) && (bool)a == (a_n != 0), "zero test"); }
LEMMA(equal) { ANYQ(a); ANYQ(b); ANY_IN(long, k, -MXR, MXR); ENSURE((a == b) == (a_n == b_n && a_d == b_d) && (a != b) == !(a == b), "equality of fractions in lowest terms"); ENSURE((a == k) == (a_d == 1 && a_n == k) && (k == a) == (a == k) && (a != k) == !(a == k) && (k != a) == !(a == k), "equality with an integer"); }
"""
RAT = '#include <sprout/rational.hpp>\n'
for k, o in enumerate('+-*/'):
    RAT += 'sprout::rational<long> o%d_x(sprout::rational<long> const& a, sprout::rational<long> const& b) { return a %s b; }\n' % (k, o)
LESS = '#include <sprout/rational.hpp>\n'
for k, o in enumerate(('<', '>', '<=', '>=')):
    LESS += 'bool o%d_x(sprout::rational<long> const& a, sprout::rational<long> const& b) { return a %s b; }\n' % (k, o)
    LESS += 'bool o%d_y(sprout::rational<long> const& a, long b) { return a %s b; }\nbool o%d_z(long a, sprout::rational<long> const& b) { return a %s b; }\n' % (k, o, k, o)
BIG = 1 << 62


def units(tier):
    lcm = '#include <sprout/math/lcm.hpp>\nT l_x(T const& a, T const& b) { return sprout::lcm(a, b); }\n'
    gs = [gunit('u8', 'unsigned char', 8, False), gunit('u16', 'unsigned short', 16, False), gunit('u32', 'unsigned', 32, False), gunit('u64', 'unsigned long', 64, False),
          gunit('i8', 'signed char', 8, True), gunit('i16', 'short', 16, True), gunit('i32', 'int', 32, True), gunit('i64', 'long', 64, True)]
    ls = [Unit('lcm_' + t, lcm.replace('T ', n + ' '), lcms(('i%d' if s else 'ui%d') % w, s), ext=EXT) for t, n, w, s in (('u32', 'unsigned', 32, 0), ('u64', 'unsigned long', 64, 0), ('i32', 'int', 32, 1), ('i64', 'long', 64, 1))]
    gc = Contract('sprout::math::gcd', 'val:i64 val:i64', gcdfacts, verify=False)
    return gs + ls + [Unit('rat', RAT, ratz(False), ext=EXT), Unit('ratlow', RAT, ratz(True), ext=EXT), Unit('less', LESS, less(), ext=EXT), lemmas('ratops', OPS, [gc], mode='int', timeout=20)]




NAT = r'''
#include <svc/native.hpp>
#include <sprout/math/gcd.hpp>
#include <sprout/math/lcm.hpp>
#include <sprout/rational.hpp>
using namespace svc;
typedef __int128 Z; typedef unsigned __int128 UZ;
static Z zg(Z a, Z b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { Z t = a % b; a = b; b = t; } return a; }
static std::string zs(Z v) { bool n = v < 0; if (n) v = -v; std::string r; do { r.insert(r.begin(), '0' + (int)(v % 10)); v /= 10; } while (v); return (n ? "-" : "") + r; }
template<class T> T num(Run& R) { T v; do { v = any_int<T>(R.r); if (R.r.chance(3)) { Z k = R.r.range(1, 1000000); v = (T)(k * (1 + R.r.range(0, 1000))); } } while (std::is_signed<T>::value && v == std::numeric_limits<T>::min()); return v; }
template<class T> void ints(Run& R) {
  T a = num<T>(R), b = num<T>(R); if (R.r.chance(3)) { T k = num<T>(R); Z x = (Z)a % 1000 * k, y = (Z)b % 1000 * k; Z lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); if (x > lo && x <= hi && y > lo && y <= hi) { a = (T)x; b = (T)y; } }
  if (R.r.chance(12)) { Z f = 1, g = 1; for (long k = R.r.range(2, 90); k > 0; --k) { Z h = f + g; if (h > (Z)std::numeric_limits<T>::max()) break; f = g; g = h; } a = (T)f; b = (T)g; }
  R.note((std::uint64_t)a * 31 + b);
  Z g = zg(a, b); Z o = sprout::gcd(a, b); CK(o == g, "gcd", "a", zs(a), "b", zs(b), "got", zs(o), "expected", zs(g));
  auto mag = [](T x) { return (UZ)((Z)x < 0 ? -(Z)x : (Z)x); }; UZ l = g ? mag(a) / (UZ)g * mag(b) : 0; if (l <= (UZ)std::numeric_limits<T>::max()) { o = sprout::lcm(a, b); CK(o == (Z)l, "lcm", "a", zs(a), "b", zs(b), "got", zs(o), "expected", zs((Z)l)); }
}
template<class T> std::string qs(sprout::rational<T> const& q) { return zs(q.numerator()) + "/" + zs(q.denominator()); }
template<class T> void is(sprout::rational<T> const& q, Z n, Z d, char const* w, std::string const& in) {
  Z g = zg(n, d); if (d < 0) g = -g; n /= g; d /= g; if (n != (T)n || d != (T)d) return;
  CK(q.numerator() == n && q.denominator() == d, w, in, "got", qs(q), "expected", zs(n) + "/" + zs(d));
}
template<class T> void rats(Run& R) {
  typedef sprout::rational<T> Q; T const m = sizeof(T) == 8 ? (T)0x3fffffff : sizeof(T) == 4 ? (T)0x3fff : (T)7;
  T an, ad, bn, bd, k; auto in = [&](T x) { return (T)(x % (m + 1)); };
  an = in(num<T>(R)); ad = in(num<T>(R)); bn = in(num<T>(R)); bd = in(num<T>(R)); k = in(num<T>(R));
  if (R.r.chance(3)) { bn = (T)(an + R.r.range(-1, 1)); bd = (T)(ad + R.r.range(-1, 1)); bn = in(bn); bd = in(bd); }
  std::string s = "a=" + zs(an) + "/" + zs(ad) + " b=" + zs(bn) + "/" + zs(bd) + " k=" + zs(k);
  bool t = false; try { Q q(an, ad); is(q, an, ad, "construct", s); } catch (sprout::bad_rational&) { t = true; } CK(t == (ad == 0), "construction fails exactly for denominator zero", s);
  if (ad == 0 || bd == 0) return;
  Q a(an, ad), b(bn, bd); Z A = an, B = ad, C = bn, D = bd, K = k; if (B < 0) { A = -A; B = -B; } if (D < 0) { C = -C; D = -D; }
  is(a + b, A * D + C * B, B * D, "a + b", s); is(a - b, A * D - C * B, B * D, "a - b", s); is(a * b, A * C, B * D, "a * b", s); is(a + k, A + K * B, B, "a + k", s); is(k - a, K * B - A, B, "k - a", s); is(k * a, K * A, B, "k * a", s); is(a - k, A - K * B, B, "a - k", s);
  auto thrown = [&](std::function<void()> f) { try { f(); } catch (sprout::bad_rational&) { return true; } return false; };
  if (C) { is(a / b, A * D, B * C, "a / b", s); Q c = a; c /= b; is(c, A * D, B * C, "a /= b", s); is(k / b, K * D, C, "k / b", s); } else { CK(thrown([&] { (void)(a / b); }) && thrown([&] { Q c = a; c /= b; }), "division by zero is reported", s); }
  if (k) { is(a / k, A, B * K, "a / k", s); Q c = a; c /= k; is(c, A, B * K, "a /= k", s); } else CK(thrown([&] { (void)(a / k); }), "division by zero is reported", s);
  Q c = a; c += b; is(c, A * D + C * B, B * D, "a += b", s); c = a; c -= b; is(c, A * D - C * B, B * D, "a -= b", s); c = a; c *= b; is(c, A * C, B * D, "a *= b", s); c = a; c += k; is(c, A + K * B, B, "a += k", s); c = a; c -= k; is(c, A - K * B, B, "a -= k", s); c = a; c *= k; is(c, A * K, B, "a *= k", s);
  c = a; c += c; is(c, 2 * A, B, "a += a", s); c = a; c -= c; is(c, 0, 1, "a -= a", s); c = a; c *= c; is(c, A * A, B * B, "a *= a", s); if (A) { c = a; c /= c; is(c, 1, 1, "a /= a", s); }
  c = a; ++c; is(c, A + B, B, "++a", s); c = a; is(c--, A, B, "a--", s); is(c, A - B, B, "a-- after", s); is(-a, -A, B, "-a", s); is(sprout::abs(a), A < 0 ? -A : A, B, "abs", s);
  #define CMP(o) CK((a o b) == (A * D o C * B), "a " #o " b", s); CK((a o k) == (A o K * B), "a " #o " k", s); CK((k o a) == (K * B o A), "k " #o " a", s);
  CMP(<) CMP(>) CMP(<=) CMP(>=) CMP(==) CMP(!=)
  c = b; CK(c == b, "assignment", s);
}
int main(int argc, char** argv) { Run R(argc, argv);
  while (R.more()) { ints<signed char>(R); ints<unsigned char>(R); ints<short>(R); ints<unsigned short>(R); ints<int>(R); ints<unsigned>(R); ints<long>(R); ints<unsigned long long>(R); rats<int>(R); rats<long>(R); }
  return R.done(); }
'''


def natives(tier):
    return [Native('gcd_rational', NAT.replace('#include <svc/native.hpp>', '#include <functional>\n#include "native.hpp"'), cxx=('g++', 'clang++'), secs=(6, 60))]
