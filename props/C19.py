from svc.driver import lemmas

PRE = r'''
#include <cfloat>
#include <cmath>
#include <limits>
#define NAN_(x) ((x) != (x))
#define SAMEF(r, e) ((r) == (e) || (NAN_(r) && NAN_(e)))
template<class To, class F> inline bool fits(F e) { return e >= (F)std::numeric_limits<To>::min() && e < (F)(std::numeric_limits<To>::max() / 2 + 1) * 2; }   // the rounded value is representable in To
'''
TY = (('float', 'float', 'f', 'FLT_MIN', '__builtin_inff()', '16777216'), ('double', 'double', '', 'DBL_MIN', '__builtin_inf()', '9007199254740992'), ('ldouble', 'long double', 'l', 'LDBL_MIN', '__builtin_infl()', '9223372036854775807L'))
ROUNDERS = ('floor', 'ceil', 'trunc', 'round')


def inc(names):
    return PRE + ''.join('#include <sprout/math/%s.hpp>\n' % n for n in names)


def round_src():
    s = inc(ROUNDERS)
    for n, t, sf, *_ in TY:
        for f in ROUNDERS:
            s += 'LEMMA(%s_%s) { ANY(%s, x); %s r = sprout::math::%s(x), e = __builtin_%s%s(x); ENSURE(SAMEF(r, e), "%s of %s is the integer it is defined to be"); }\n' % (f, n, t, t, f, f, sf, f, t)
    s += 'LEMMA(round_of_int) { ANY(int, x); double v = x; ENSURE(' + ' && '.join('sprout::math::%s(x) == v' % f for f in ROUNDERS) + ', "rounding an integer gives that integer"); }\n'
    return s


def iround_src():
    s = inc(['i' + f for f in ROUNDERS] + ['lround', 'llround'])
    for n, t, sf, *_ in TY[:2]:
        for to in ('int', 'long', 'short', 'unsigned'):
            for f in ROUNDERS:
                if to == 'unsigned' and f != 'trunc':
                    continue
                s += 'LEMMA(i%s_%s_%s) { ANY(%s, x); %s e = __builtin_%s%s(x); REQUIRE(fits<%s>(e)); %s r = sprout::math::i%s<%s>(x); ENSURE((%s)r == e, "i%s<%s> of %s is the integer it is defined to be"); }\n' % (
                    f, n, to, t, t, f, sf, to, to, f, to, t, f, to, t)
        s += 'LEMMA(lround_%s) { ANY(%s, x); %s e = __builtin_round%s(x); REQUIRE(fits<long>(e)); long r = sprout::math::iround<long>(x); ENSURE(sprout::math::lround(x) == r && sprout::math::llround(x) == r, "lround and llround of %s are iround<long>"); }\n' % (n, t, t, sf, t)
    one = ' && '.join('sprout::math::i%s(x) == x' % f for f in ROUNDERS)
    s += 'LEMMA(iround_of_int) { ANY(int, x); ENSURE(%s, "rounding an integer to int gives that integer"); }\n' % one
    s += 'LEMMA(iround_of_long) { ANY_IN(long, x, -4503599627370496, 4503599627370496); ENSURE(%s, "rounding an integer to long gives that integer"); }\n' % one.replace('(x)', '<long>(x)')
    s += 'LEMMA(lround_of_int) { ANY(int, x); ENSURE(sprout::math::lround(x) == (long)x && sprout::math::llround(x) == (long long)x, "lround of an integer is that integer"); }\n'
    s += 'LEMMA(lround_of_long) { ANY_IN(long, x, -4503599627370496, 4503599627370496); long r = sprout::math::iround<long>(x); ENSURE(sprout::math::lround(x) == r && sprout::math::llround(x) == r, "lround of an integer is iround<long> of it"); }\n'
    return s


def cls_src():
    s = inc(['isnan', 'isinf', 'isfinite', 'isnormal', 'issubnormal', 'iszero', 'fpclassify', 'signbit', 'copysign', 'fabs', 'isgreater', 'isgreaterequal', 'isless', 'islessequal', 'islessgreater', 'isunordered', 'fmin', 'fmax', 'fdim'])
    T = r'''
LEMMA(classify_@) { ANY(TT, x); TT a = x < 0 ? -x : x; bool n = x != x, i = a == INF, z = x == 0, s = !n && !z && a < MIN;
  ENSURE(sprout::math::isnan(x) == n, "isnan"); ENSURE(sprout::math::isinf(x) == i, "isinf"); ENSURE(sprout::math::isfinite(x) == (!n && !i), "isfinite");
  ENSURE(sprout::math::iszero(x) == z, "iszero"); ENSURE((sprout::math::issubnormal)(x) == s, "issubnormal"); ENSURE(sprout::math::isnormal(x) == (!n && !i && !z && !s), "isnormal");
  ENSURE(sprout::math::fpclassify(x) == (n ? FP_NAN : i ? FP_INFINITE : z ? FP_ZERO : s ? FP_SUBNORMAL : FP_NORMAL), "fpclassify"); }
LEMMA(sign_@) { ANY(TT, x); ANY(TT, y); TT a = sprout::math::fabs(x); if (NAN_(x)) ENSURE(NAN_(a), "fabs of NaN"); else ENSURE(a == (x < 0 ? -x : x) && !sprout::math::signbit(a), "fabs is the magnitude");
  if (!NAN_(y)) { bool s = y < 0 || (y == 0 && TT(1) / y < 0); ENSURE(sprout::math::signbit(y) == s, "signbit is the sign, of zero too"); TT c = sprout::math::copysign(x, y);
    if (NAN_(x)) ENSURE(NAN_(c), "copysign of NaN"); else ENSURE(c == (s ? -a : a) && sprout::math::signbit(c) == s, "copysign takes the magnitude of x and the sign of y"); } }
LEMMA(compare_@) { ANY(TT, x); ANY(TT, y); ENSURE(sprout::math::isgreater(x, y) == (x > y), "isgreater"); ENSURE(sprout::math::isgreaterequal(x, y) == (x >= y), "isgreaterequal"); ENSURE(sprout::math::isless(x, y) == (x < y), "isless");
  ENSURE(sprout::math::islessequal(x, y) == (x <= y), "islessequal"); ENSURE(sprout::math::islessgreater(x, y) == (x < y || x > y), "islessgreater"); ENSURE(sprout::math::isunordered(x, y) == (NAN_(x) || NAN_(y)), "isunordered"); }
LEMMA(minmax_@) { ANY(TT, x); ANY(TT, y); TT l = sprout::math::fmin(x, y), h = sprout::math::fmax(x, y);
  TT le = NAN_(x) ? y : NAN_(y) ? x : x < y ? x : y, he = NAN_(x) ? y : NAN_(y) ? x : x < y ? y : x;
  ENSURE(SAMEF(l, le), "fmin is the smaller one, ignoring NaN"); ENSURE(SAMEF(h, he), "fmax is the larger one, ignoring NaN"); }
LEMMA(fdim_@) { ANY(TT, x); ANY(TT, y); TT d = sprout::math::fdim(x, y), de = NAN_(x) ? x : NAN_(y) ? y : x > y ? x - y : TT(0); ENSURE(SAMEF(d, de), "fdim is the positive difference"); }
'''
    for n, t, sf, mn, inf, *_ in TY:
        s += T.replace('@', n).replace('TT', t if ' ' not in t else 'LD').replace('MIN', mn).replace('INF', inf).replace('FP_' + inf + 'INITE', 'FP_INFINITE')
    s = s.replace('LEMMA(classify_float)', 'typedef long double LD;\nLEMMA(classify_float)', 1)
    s += r'''
LEMMA(mixed) { ANY(int, x); ANY(double, y); double v = x; ENSURE(SAMEF(sprout::math::fmin(x, y), sprout::math::fmin(v, y)) && SAMEF(sprout::math::fmax(y, x), sprout::math::fmax(y, v)) && SAMEF(sprout::math::fdim(x, y), sprout::math::fdim(v, y)), "an integer argument counts as a double");
  ENSURE(sprout::math::isless(x, y) == (v < y) && sprout::math::isgreater(y, x) == (y > v) && sprout::math::islessequal(x, y) == (v <= y) && sprout::math::isgreaterequal(x, y) == (v >= y) && sprout::math::islessgreater(x, y) == (v < y || v > y) && sprout::math::isunordered(x, y) == NAN_(y), "comparisons with an integer");
  ENSURE(sprout::math::fabs(x) == (v < 0 ? -v : v) && sprout::math::signbit(x) == (x < 0) && !sprout::math::isnan(x) && !sprout::math::isinf(x) && sprout::math::isfinite(x) && sprout::math::isnormal(x) == (x != 0) && sprout::math::iszero(x) == (x == 0) && sprout::math::fpclassify(x) == (x ? FP_NORMAL : FP_ZERO), "classification of an integer"); }
'''
    return s


def part_src():
    s = inc(['trunc', 'integer_part', 'fractional_part', 'frac_int', 'is_integer'])
    for n, t, sf, mn, inf, *_ in TY[:2]:
        s += r'''
LEMMA(parts_@) { ANY(TT, x); TT e = sprout::math::trunc(x), i = sprout::math::integer_part(x), f = sprout::math::fractional_part(x); bool fin = x - x == 0;
  ENSURE(SAMEF(i, e), "integer_part truncates"); TT g = NAN_(x) ? x : fin ? x - e : TT(0); ENSURE(SAMEF(f, g), "fractional_part is the rest");
  ENSURE(sprout::math::is_integer(x) == (fin && x == e), "is_integer"); }
LEMMA(parts_sum_@) { ANY(TT, x); REQUIRE(x - x == 0); ENSURE(sprout::math::integer_part(x) + sprout::math::fractional_part(x) == x, "the two parts add up to the value"); }
'''.replace('@', n).replace('TT', t).replace('#', sf)
    s += 'LEMMA(frac_int_double) { ANY(double, x); auto p = sprout::math::frac_int(x); double e = sprout::math::integer_part(x), f = sprout::math::fractional_part(x); ENSURE(SAMEF(p.second, e), "frac_int: integer part"); ENSURE(SAMEF(p.first, f), "frac_int: fraction"); }\n'
    return s


def cmp_src():
    s = inc(['equal_to', 'not_equal_to', 'less', 'greater', 'less_equal', 'greater_equal'])
    P = (('int', 'int'), ('int', 'unsigned'), ('unsigned', 'int'), ('long', 'unsigned'), ('unsigned long', 'int'), ('int', 'unsigned long'), ('short', 'unsigned char'), ('unsigned long', 'long'), ('signed char', 'unsigned'))
    for a, b in P:
        s += r'''
LEMMA(compare_@) { ANY(A, x); ANY(B, y); __int128 X = x, Y = y; ENSURE(sprout::math::less(x, y) == (X < Y), "less is by mathematical value"); ENSURE(sprout::math::greater(x, y) == (X > Y), "greater is by mathematical value");
  ENSURE(sprout::math::less_equal(x, y) == (X <= Y), "less_equal is by mathematical value"); ENSURE(sprout::math::greater_equal(x, y) == (X >= Y), "greater_equal is by mathematical value"); ENSURE(sprout::math::equal_to(x, y) == (X == Y), "equal_to is by mathematical value"); ENSURE(sprout::math::not_equal_to(x, y) == (X != Y), "not_equal_to is by mathematical value"); }
'''.replace('@', (a + '_' + b).replace(' ', '_')).replace('(A', '(' + a).replace('(B', '(' + b)
    s += r'''
LEMMA(compare_double) { ANY(double, x); ANY(double, y); REQUIRE(!NAN_(x) && !NAN_(y)); bool e = sprout::math::equal_to(x, y);
  ENSURE(sprout::math::less(x, y) == (!e && x < y) && sprout::math::greater(x, y) == (!e && x > y), "less and greater are by value and exclude equal_to"); ENSURE(sprout::math::less_equal(x, y) == (e || x < y) && sprout::math::greater_equal(x, y) == (e || x > y) && sprout::math::not_equal_to(x, y) == !e, "the other three follow from them"); }
LEMMA(equal_to_double) { ANY(double, x); ANY(double, y); REQUIRE(!NAN_(x) && !NAN_(y)); bool e = sprout::math::equal_to(x, y); if (x == y) ENSURE(e, "equal values are equal_to"); if (x - x != 0 && x != y) ENSURE(!e && !sprout::math::equal_to(y, x), "an infinity is equal_to nothing else"); }
'''
    return s


BUILTIN = ['-DSPROUT_HAS_CONSTEXPR_CMATH_FUNCTION', '-Wno-invalid-constexpr', '-fno-math-errno']
NF = ['-O1', '-fsanitize=float-cast-overflow']
# proved by the thorough command only (long solver times); the quick command evaluates them natively
SLOW = {'lemma_' + n for n in ('iround_double_long', 'iround_of_long', 'round_ldouble', 'parts_sum_double', 'parts_sum_float', 'lround_double', 'lround_of_long', 'lround_float', 'lround_of_int', 'frac_int_double', 'parts_double')}


def units(tier):
    us = []
    for name, src in (('round', round_src()), ('iround', iround_src()), ('classify', cls_src()), ('parts', part_src())):
        for sfx, fl in (('', []), ('_builtin', BUILTIN)):
            us.append(lemmas(name + sfx, src, mode='bv', timeout=60 if tier == 'quick' else 150, flags=fl, cxx=('clang++',) if not sfx else ('g++',), nflags=NF, secs=(2, 20), skip=SLOW if tier == 'quick' else ()))
            if sfx:
                us[-1].native.flags = [f for f in us[-1].native.flags if f != '-Wno-invalid-constexpr']
    us.append(lemmas('compare', cmp_src(), mode='bv', timeout=60, nflags=NF, secs=(2, 20)))
    return us
