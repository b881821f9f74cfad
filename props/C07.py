import z3
from svc.driver import lemmas
from svc.contract import Contract
from svc.core import BV

TYPES = ['unsigned char', 'unsigned short', 'unsigned', 'unsigned long', 'unsigned long long', 'signed char', 'short', 'int', 'long', 'char']
INC = r'''
#include <sprout/bit/operation.hpp>
#include <sprout/bit/bit_length.hpp>
#include <sprout/bit/bit_reverse.hpp>
#include <climits>
typedef unsigned long long u64;
'''
# x as an unsigned value, W its width, bit i of x
BODY = r'''
#define W ((int)(sizeof(T) * CHAR_BIT))
#define BIT(v, i) ((int)(((u64)(typename std::make_unsigned<T>::type)(v) >> (i)) & 1u))
template<class T> struct Spec {
  typedef typename std::make_unsigned<T>::type U;
  static u64 u(T x) { return (u64)(U)x; }
  static int pc(T x) { int s = 0; for (int i = 0; i < W; ++i) s += BIT(x, i); return s; }
  static u64 low(int n) { return n >= 64 ? ~0ull : ((1ull << n) - 1); }     // n ones
  static u64 all() { return low(W); }
};
template<class T> void counts() {
  typedef Spec<T> S;
  ANY(T, x);
  u64 v = S::u(x), nv = S::all() ^ v;
  { int r = sprout::clz(x); ENSURE(r >= 0 && r <= W && (r == W ? v == 0 : (v >> (W - 1 - r)) == 1), "clz is the number of leading zeros (width for zero)"); ENSURE(sprout::cntl0(x) == r, "cntl0 is clz"); }
  { int r = sprout::ctz(x); ENSURE(r >= 0 && r <= W && (r == W ? v == 0 : ((v >> r) & 1) == 1 && (v & S::low(r)) == 0), "ctz is the number of trailing zeros (width for zero)"); ENSURE(sprout::cntt0(x) == r, "cntt0 is ctz"); }
  { int r = sprout::cntl1(x); ENSURE(r >= 0 && r <= W && (r == W ? nv == 0 : (nv >> (W - 1 - r)) == 1), "cntl1 is the number of leading ones"); }
  { int r = sprout::cntt1(x); ENSURE(r >= 0 && r <= W && (r == W ? nv == 0 : ((nv >> r) & 1) == 1 && (nv & S::low(r)) == 0), "cntt1 is the number of trailing ones"); }
  { int r = sprout::clrsb(x); u64 d = (BIT(x, W - 1) ? nv : v); ENSURE(r >= 0 && r <= W - 1 && (r == W - 1 ? d == 0 : (d >> (W - 2 - r)) == 1), "clrsb is the number of redundant sign bits"); }
}
template<class T> void parity() { ANY(T, x); int s = 0; for (int i = 0; i < W; ++i) s ^= BIT(x, i); ENSURE(sprout::parity(x) == s, "parity is the parity of the number of ones"); }
template<class T> void pop() { ANY(T, x); ENSURE(sprout::popcount(x) == Spec<T>::pc(x), "popcount is the number of ones"); }
template<class T> void singlebit() {
  typedef Spec<T> S; ANY(T, x); ANY_IN(int, b, 0, W - 1); u64 v = S::u(x), m = 1ull << b;
  if (std::is_unsigned<T>::value || b < W - 1) {       // 1 << (width-1) is not portable for signed types
    ENSURE(sprout::testbit(x, b) == (BIT(x, b) == 1), "testbit reads bit b");
    ENSURE(S::u(sprout::setbit(x, b)) == (v | m), "setbit sets bit b only");
    ENSURE(S::u(sprout::rstbit(x, b)) == (v & ~m), "rstbit clears bit b only");
    ENSURE(S::u(sprout::flipbit(x, b)) == (v ^ m), "flipbit inverts bit b only");
    ENSURE(S::u(sprout::setbitsge(x, b)) == ((v | ~S::low(b)) & S::all()), "setbitsge sets the bits from b up");
    ENSURE(S::u(sprout::rstbitsge(x, b)) == (v & S::low(b)), "rstbitsge clears the bits from b up");
    ENSURE(S::u(sprout::flipbitsge(x, b)) == ((v ^ ~S::low(b)) & S::all()), "flipbitsge inverts the bits from b up");
  }
  if (std::is_unsigned<T>::value || b < W - 2) {
    ENSURE(S::u(sprout::setbitsle(x, b)) == (v | S::low(b + 1)), "setbitsle sets the bits up to b");
    ENSURE(S::u(sprout::rstbitsle(x, b)) == (v & ~S::low(b + 1)), "rstbitsle clears the bits up to b");
    ENSURE(S::u(sprout::flipbitsle(x, b)) == (v ^ S::low(b + 1)), "flipbitsle inverts the bits up to b");
  }
}
template<class T> void shifts() {
  typedef Spec<T> S; ANY(T, x); ANY_IN(int, s, 0, W - 1); u64 v = S::u(x);
  ENSURE(S::u(sprout::shlr(x, s)) == (v >> s), "shlr shifts in zeros from the left");
  ENSURE(S::u(sprout::shll(x, s)) == ((v << s) & S::all()), "shll shifts in zeros from the right");
  ENSURE(S::u(sprout::shal(x, s)) == ((v << s) & S::all()), "shal shifts in zeros from the right");
  ENSURE(S::u(sprout::shar(x, s)) == ((v >> s) | (BIT(x, W - 1) ? S::all() & ~S::low(W - s) : 0)), "shar replicates the sign bit");
}
template<class T> void rot() {
  typedef Spec<T> S; ANY(T, x); ANY_IN(int, s, 0, W - 1); u64 v = S::u(x);
  ENSURE(S::u(sprout::rotl(x, s)) == (s == 0 ? v : ((v << s) | (v >> (W - s))) & S::all()), "rotl rotates left");
  ENSURE(S::u(sprout::rotr(x, s)) == (s == 0 ? v : ((v >> s) | (v << (W - s))) & S::all()), "rotr rotates right");
  ENSURE(sprout::rotr(sprout::rotl(x, s), s) == x, "rotr undoes rotl");
}
template<class T> void masks() {
  typedef Spec<T> S; ANY(T, x); u64 v = S::u(x);
  if (std::is_signed<T>::value && sizeof(T) >= sizeof(int)) { REQUIRE(v != S::low(W - 1) && v != (1ull << (W - 1))); }    // x+1, x-1, -x overflow
  int t0 = 0, t1 = 0; bool a = true, b = true;
  for (int i = 0; i < W; ++i) { a = a && !BIT(x, i); b = b && BIT(x, i); t0 += a; t1 += b; }        // trailing zeros / ones
  u64 l1 = t0 == W ? 0 : 1ull << t0, l0 = t1 == W ? 0 : 1ull << t1;
  ENSURE(S::u(sprout::isols1b(x)) == l1, "isols1b isolates the lowest one");
  ENSURE(S::u(sprout::isols0b(x)) == l0, "isols0b isolates the lowest zero");
  ENSURE(S::u(sprout::rstls1b(x)) == (v & ~l1), "rstls1b clears the lowest one");
  ENSURE(S::u(sprout::setls0b(x)) == (v | l0), "setls0b sets the lowest zero");
  ENSURE(S::u(sprout::maskt0(x)) == S::low(t0), "maskt0 masks the trailing zeros");
  ENSURE(S::u(sprout::maskt1(x)) == S::low(t1), "maskt1 masks the trailing ones");
  ENSURE(S::u(sprout::maskt0ls1b(x)) == (S::low(t0) | l1), "maskt0ls1b masks the trailing zeros and the lowest one");
  ENSURE(S::u(sprout::maskt1ls0b(x)) == (S::low(t1) | l0), "maskt1ls0b masks the trailing ones and the lowest zero");
  ENSURE(S::u(sprout::sett0(x)) == (v | S::low(t0)), "sett0 sets the trailing zeros");
  ENSURE(S::u(sprout::rstt1(x)) == (v & ~S::low(t1)), "rstt1 clears the trailing ones");
}
template<class T> void rev() {
  typedef Spec<T> S; ANY(T, x); T r = sprout::bit_reverse(x); bool ok = true;
  for (int i = 0; i < W; ++i) ok = ok && BIT(r, i) == BIT(x, W - 1 - i);
  ENSURE(ok, "bit_reverse mirrors the bits"); ENSURE(sprout::bit_reverse(r) == x, "bit_reverse is an involution");
  ANY_IN(int, n, 1, W); T q = sprout::bit_reverse_in(x, n); ok = true;
  for (int i = 0; i < W; ++i) ok = ok && BIT(q, i) == (i < n ? BIT(x, n - 1 - i) : 0);
  ENSURE(ok, "bit_reverse_in mirrors the low bits");
}
template<class T> void len() {
  typedef Spec<T> S; ANY(T, x); u64 v = S::u(x); int r = (int)sprout::bit_length(x);
  ENSURE(r >= 0 && r <= W && (r == 0 ? v == 0 : (v >> (r - 1)) == 1), "bit_length is the position of the highest one");
}
'''


def popcount(c, n):
    w = n.size()
    c.decreases(z3.ZeroExt(64 - w, n))
    s = z3.BitVecVal(0, 32)
    for i in range(w):
        s = s + z3.ZeroExt(31, z3.Extract(i, i, n))
    c.ensures(c.ret('i32') == s, 'number of one bits')


def units(tier):
    out = []
    for builtin in (False, True):
        src = INC + BODY
        for t in TYPES:
            nm = t.replace(' ', '_')
            signed = not t.startswith('unsigned')
            for k in ('counts', 'parity', 'pop', 'singlebit', 'shifts', 'masks', 'rev', 'len') + (() if signed else ('rot',)):
                src += 'LEMMA(%s_%s) { %s<%s>(); }\n' % (k, nm, k, t)
        cs = [Contract('sprout::detail::popcount', ['v'], popcount, when=lambda f, d: f.params[0][0][1] in (8, 16, 32, 64))]
        fl = ['-DSPROUT_HAS_CONSTEXPR_BIT_OPERATION'] if builtin else ['-DSPROUT_CONFIG_DISABLE_BUILTIN_BIT_OPERATION']
        out.append(lemmas('bits_builtin' if builtin else 'bits_portable', src, cs, mode='bv', flags=fl, timeout=20, nstd='c++14'))
    return out
