from svc.driver import Unit, Native, lemmas
from . import numspec as K
from .iterspec import EXT

INC = '#include <sprout/cstdlib.hpp>\n#include <sprout/cinttypes.hpp>\n'
S = 'IT k_{n}(CH const* s, int b) {{ return sprout::str_to_int<IT>(s, b); }}\nIT a_{n}(CH const* s) {{ return sprout::ascii_to_int<IT>(s); }}\n'


def unit(name, ch, w, it, t):
    src = INC + (S.format(n='x')).replace('CH', ch).replace('IT', it)
    return Unit(name, src, K.cctype(w) + K.toint(w, t), ext=EXT)


def units(tier):
    return [lemmas('to_string', LEM, mode='int', timeout=60), unit('int', 'char', 'i8', 'int', 'i32'), unit('long', 'char', 'i8', 'long', 'i64'), unit('ulong', 'char', 'i8', 'unsigned long', 'ui64'),
            unit('wlong', 'wchar_t', 'i32', 'long', 'i64')]


LEM = r'''
#include <sprout/string.hpp>
#include <sprout/string/int_to_string.hpp>
// digits of a value with exactly D digits (sign Neg): position by position, most significant first
template<class T, int B, int D, bool Neg, class S> void chk(T v, S const& s) {
  const unsigned N = sprout::printed_integer_digits<T, B>::value;
  ENSURE(s.size() == D + Neg && D + Neg <= N, "length is the number of digits plus the sign");
  if (Neg) ENSURE(s[0] == '-', "minus sign for negative values");
  unsigned long long m = v, p = 1;   // negative values: the magnitude's digits are those of the truncated quotients, negated
  for (int k = 0; k < D; ++k, p *= B) { int c = s[D + Neg - 1 - k]; int d = Neg ? (int)-(((long long)v / (long long)p) % B) : (int)((m / p) % B); ENSURE(c == (d < 10 ? '0' + d : 'a' + (d - 10)), "character k from the right is digit k of the magnitude"); }
}
constexpr unsigned long long pw(int b, int e) { return e ? b * pw(b, e - 1) : 1; }
template<class T, int B, int D, bool Neg> void run() {
  const unsigned long long lo = D == 1 ? Neg : pw(B, D - 1), mx = Neg ? (unsigned long long)std::numeric_limits<T>::max() + 1 : (unsigned long long)std::numeric_limits<T>::max();
  const unsigned long long hi = mx / pw(B, D - 1) < (unsigned long long)B ? mx : pw(B, D) - 1;
  if (lo <= hi) {
    ANY_IN(T, v, (Neg ? (T)(0 - hi) : (T)lo), (Neg ? (T)(0 - lo) : (T)hi));
    if (B == 10) chk<T, B, D, Neg>(v, sprout::to_string(v)); else chk<T, B, D, Neg>(v, sprout::int_to_string<char, B>(v));
  }
}
LEMMA(to_string_10_signed_char_1) { run<signed char, 10, 1, false>(); }
LEMMA(to_string_10_signed_char_1m) { run<signed char, 10, 1, true>(); }
LEMMA(to_string_10_signed_char_2) { run<signed char, 10, 2, false>(); }
LEMMA(to_string_10_signed_char_2m) { run<signed char, 10, 2, true>(); }
LEMMA(to_string_10_signed_char_3) { run<signed char, 10, 3, false>(); }
LEMMA(to_string_10_signed_char_3m) { run<signed char, 10, 3, true>(); }
LEMMA(to_string_10_unsigned_char_1) { run<unsigned char, 10, 1, false>(); }
LEMMA(to_string_10_unsigned_char_2) { run<unsigned char, 10, 2, false>(); }
LEMMA(to_string_10_unsigned_char_3) { run<unsigned char, 10, 3, false>(); }
LEMMA(to_string_10_short_1) { run<short, 10, 1, false>(); }
LEMMA(to_string_10_short_1m) { run<short, 10, 1, true>(); }
LEMMA(to_string_10_short_2) { run<short, 10, 2, false>(); }
LEMMA(to_string_10_short_2m) { run<short, 10, 2, true>(); }
LEMMA(to_string_10_short_3) { run<short, 10, 3, false>(); }
LEMMA(to_string_10_short_3m) { run<short, 10, 3, true>(); }
LEMMA(to_string_10_short_4) { run<short, 10, 4, false>(); }
LEMMA(to_string_10_short_4m) { run<short, 10, 4, true>(); }
LEMMA(to_string_10_short_5) { run<short, 10, 5, false>(); }
LEMMA(to_string_10_short_5m) { run<short, 10, 5, true>(); }
LEMMA(to_string_3_short_1) { run<short, 3, 1, false>(); }
LEMMA(to_string_3_short_1m) { run<short, 3, 1, true>(); }
LEMMA(to_string_3_short_2) { run<short, 3, 2, false>(); }
LEMMA(to_string_3_short_2m) { run<short, 3, 2, true>(); }
LEMMA(to_string_3_short_3) { run<short, 3, 3, false>(); }
LEMMA(to_string_3_short_3m) { run<short, 3, 3, true>(); }
LEMMA(to_string_3_short_4) { run<short, 3, 4, false>(); }
LEMMA(to_string_3_short_4m) { run<short, 3, 4, true>(); }
LEMMA(to_string_3_short_5) { run<short, 3, 5, false>(); }
LEMMA(to_string_3_short_5m) { run<short, 3, 5, true>(); }
LEMMA(to_string_3_short_6) { run<short, 3, 6, false>(); }
LEMMA(to_string_3_short_6m) { run<short, 3, 6, true>(); }
LEMMA(to_string_3_short_7) { run<short, 3, 7, false>(); }
LEMMA(to_string_3_short_7m) { run<short, 3, 7, true>(); }
LEMMA(to_string_3_short_8) { run<short, 3, 8, false>(); }
LEMMA(to_string_3_short_8m) { run<short, 3, 8, true>(); }
LEMMA(to_string_3_short_9) { run<short, 3, 9, false>(); }
LEMMA(to_string_3_short_9m) { run<short, 3, 9, true>(); }
LEMMA(to_string_3_short_10) { run<short, 3, 10, false>(); }
LEMMA(to_string_3_short_10m) { run<short, 3, 10, true>(); }
LEMMA(to_string_10_unsigned_short_1) { run<unsigned short, 10, 1, false>(); }
LEMMA(to_string_10_unsigned_short_2) { run<unsigned short, 10, 2, false>(); }
LEMMA(to_string_10_unsigned_short_3) { run<unsigned short, 10, 3, false>(); }
LEMMA(to_string_10_unsigned_short_4) { run<unsigned short, 10, 4, false>(); }
LEMMA(to_string_10_unsigned_short_5) { run<unsigned short, 10, 5, false>(); }
LEMMA(to_string_10_int_1) { run<int, 10, 1, false>(); }
LEMMA(to_string_10_int_1m) { run<int, 10, 1, true>(); }
LEMMA(to_string_10_int_2) { run<int, 10, 2, false>(); }
LEMMA(to_string_10_int_2m) { run<int, 10, 2, true>(); }
LEMMA(to_string_10_int_3) { run<int, 10, 3, false>(); }
LEMMA(to_string_10_int_3m) { run<int, 10, 3, true>(); }
LEMMA(to_string_10_int_4) { run<int, 10, 4, false>(); }
LEMMA(to_string_10_int_4m) { run<int, 10, 4, true>(); }
LEMMA(to_string_10_int_5) { run<int, 10, 5, false>(); }
LEMMA(to_string_10_int_5m) { run<int, 10, 5, true>(); }
LEMMA(to_string_10_int_6) { run<int, 10, 6, false>(); }
LEMMA(to_string_10_int_6m) { run<int, 10, 6, true>(); }
LEMMA(to_string_10_int_7) { run<int, 10, 7, false>(); }
LEMMA(to_string_10_int_7m) { run<int, 10, 7, true>(); }
LEMMA(to_string_10_int_8) { run<int, 10, 8, false>(); }
LEMMA(to_string_10_int_8m) { run<int, 10, 8, true>(); }
LEMMA(to_string_10_int_9) { run<int, 10, 9, false>(); }
LEMMA(to_string_10_int_9m) { run<int, 10, 9, true>(); }
LEMMA(to_string_10_int_10) { run<int, 10, 10, false>(); }
LEMMA(to_string_10_int_10m) { run<int, 10, 10, true>(); }
LEMMA(to_string_16_int_1) { run<int, 16, 1, false>(); }
LEMMA(to_string_16_int_1m) { run<int, 16, 1, true>(); }
LEMMA(to_string_16_int_2) { run<int, 16, 2, false>(); }
LEMMA(to_string_16_int_2m) { run<int, 16, 2, true>(); }
LEMMA(to_string_16_int_3) { run<int, 16, 3, false>(); }
LEMMA(to_string_16_int_3m) { run<int, 16, 3, true>(); }
LEMMA(to_string_16_int_4) { run<int, 16, 4, false>(); }
LEMMA(to_string_16_int_4m) { run<int, 16, 4, true>(); }
LEMMA(to_string_16_int_5) { run<int, 16, 5, false>(); }
LEMMA(to_string_16_int_5m) { run<int, 16, 5, true>(); }
LEMMA(to_string_16_int_6) { run<int, 16, 6, false>(); }
LEMMA(to_string_16_int_6m) { run<int, 16, 6, true>(); }
LEMMA(to_string_16_int_7) { run<int, 16, 7, false>(); }
LEMMA(to_string_16_int_7m) { run<int, 16, 7, true>(); }
LEMMA(to_string_16_int_8) { run<int, 16, 8, false>(); }
LEMMA(to_string_16_int_8m) { run<int, 16, 8, true>(); }
LEMMA(to_string_10_unsigned_1) { run<unsigned, 10, 1, false>(); }
LEMMA(to_string_10_unsigned_2) { run<unsigned, 10, 2, false>(); }
LEMMA(to_string_10_unsigned_3) { run<unsigned, 10, 3, false>(); }
LEMMA(to_string_10_unsigned_4) { run<unsigned, 10, 4, false>(); }
LEMMA(to_string_10_unsigned_5) { run<unsigned, 10, 5, false>(); }
LEMMA(to_string_10_unsigned_6) { run<unsigned, 10, 6, false>(); }
LEMMA(to_string_10_unsigned_7) { run<unsigned, 10, 7, false>(); }
LEMMA(to_string_10_unsigned_8) { run<unsigned, 10, 8, false>(); }
LEMMA(to_string_10_unsigned_9) { run<unsigned, 10, 9, false>(); }
LEMMA(to_string_10_unsigned_10) { run<unsigned, 10, 10, false>(); }
LEMMA(to_string_8_unsigned_1) { run<unsigned, 8, 1, false>(); }
LEMMA(to_string_8_unsigned_2) { run<unsigned, 8, 2, false>(); }
LEMMA(to_string_8_unsigned_3) { run<unsigned, 8, 3, false>(); }
LEMMA(to_string_8_unsigned_4) { run<unsigned, 8, 4, false>(); }
LEMMA(to_string_8_unsigned_5) { run<unsigned, 8, 5, false>(); }
LEMMA(to_string_8_unsigned_6) { run<unsigned, 8, 6, false>(); }
LEMMA(to_string_8_unsigned_7) { run<unsigned, 8, 7, false>(); }
LEMMA(to_string_8_unsigned_8) { run<unsigned, 8, 8, false>(); }
LEMMA(to_string_8_unsigned_9) { run<unsigned, 8, 9, false>(); }
LEMMA(to_string_8_unsigned_10) { run<unsigned, 8, 10, false>(); }
LEMMA(to_string_8_unsigned_11) { run<unsigned, 8, 11, false>(); }
LEMMA(to_string_10_long_1) { run<long, 10, 1, false>(); }
LEMMA(to_string_10_long_1m) { run<long, 10, 1, true>(); }
LEMMA(to_string_10_long_2) { run<long, 10, 2, false>(); }
LEMMA(to_string_10_long_2m) { run<long, 10, 2, true>(); }
LEMMA(to_string_10_long_3) { run<long, 10, 3, false>(); }
LEMMA(to_string_10_long_3m) { run<long, 10, 3, true>(); }
LEMMA(to_string_10_long_4) { run<long, 10, 4, false>(); }
LEMMA(to_string_10_long_4m) { run<long, 10, 4, true>(); }
LEMMA(to_string_10_long_5) { run<long, 10, 5, false>(); }
LEMMA(to_string_10_long_5m) { run<long, 10, 5, true>(); }
LEMMA(to_string_10_long_6) { run<long, 10, 6, false>(); }
LEMMA(to_string_10_long_6m) { run<long, 10, 6, true>(); }
LEMMA(to_string_10_long_7) { run<long, 10, 7, false>(); }
LEMMA(to_string_10_long_7m) { run<long, 10, 7, true>(); }
LEMMA(to_string_10_long_8) { run<long, 10, 8, false>(); }
LEMMA(to_string_10_long_8m) { run<long, 10, 8, true>(); }
LEMMA(to_string_10_long_9) { run<long, 10, 9, false>(); }
LEMMA(to_string_10_long_9m) { run<long, 10, 9, true>(); }
LEMMA(to_string_10_long_10) { run<long, 10, 10, false>(); }
LEMMA(to_string_10_long_10m) { run<long, 10, 10, true>(); }
LEMMA(to_string_10_long_11) { run<long, 10, 11, false>(); }
LEMMA(to_string_10_long_11m) { run<long, 10, 11, true>(); }
LEMMA(to_string_10_long_12) { run<long, 10, 12, false>(); }
LEMMA(to_string_10_long_12m) { run<long, 10, 12, true>(); }
LEMMA(to_string_10_long_13) { run<long, 10, 13, false>(); }
LEMMA(to_string_10_long_13m) { run<long, 10, 13, true>(); }
LEMMA(to_string_10_long_14) { run<long, 10, 14, false>(); }
LEMMA(to_string_10_long_14m) { run<long, 10, 14, true>(); }
LEMMA(to_string_10_long_15) { run<long, 10, 15, false>(); }
LEMMA(to_string_10_long_15m) { run<long, 10, 15, true>(); }
LEMMA(to_string_10_long_16) { run<long, 10, 16, false>(); }
LEMMA(to_string_10_long_16m) { run<long, 10, 16, true>(); }
LEMMA(to_string_10_long_17) { run<long, 10, 17, false>(); }
LEMMA(to_string_10_long_17m) { run<long, 10, 17, true>(); }
LEMMA(to_string_10_long_18) { run<long, 10, 18, false>(); }
LEMMA(to_string_10_long_18m) { run<long, 10, 18, true>(); }
LEMMA(to_string_10_long_19) { run<long, 10, 19, false>(); }
LEMMA(to_string_10_long_19m) { run<long, 10, 19, true>(); }
LEMMA(to_string_10_unsigned_long_long_1) { run<unsigned long long, 10, 1, false>(); }
LEMMA(to_string_10_unsigned_long_long_2) { run<unsigned long long, 10, 2, false>(); }
LEMMA(to_string_10_unsigned_long_long_3) { run<unsigned long long, 10, 3, false>(); }
LEMMA(to_string_10_unsigned_long_long_4) { run<unsigned long long, 10, 4, false>(); }
LEMMA(to_string_10_unsigned_long_long_5) { run<unsigned long long, 10, 5, false>(); }
LEMMA(to_string_10_unsigned_long_long_6) { run<unsigned long long, 10, 6, false>(); }
LEMMA(to_string_10_unsigned_long_long_7) { run<unsigned long long, 10, 7, false>(); }
LEMMA(to_string_10_unsigned_long_long_8) { run<unsigned long long, 10, 8, false>(); }
LEMMA(to_string_10_unsigned_long_long_9) { run<unsigned long long, 10, 9, false>(); }
LEMMA(to_string_10_unsigned_long_long_10) { run<unsigned long long, 10, 10, false>(); }
LEMMA(to_string_10_unsigned_long_long_11) { run<unsigned long long, 10, 11, false>(); }
LEMMA(to_string_10_unsigned_long_long_12) { run<unsigned long long, 10, 12, false>(); }
LEMMA(to_string_10_unsigned_long_long_13) { run<unsigned long long, 10, 13, false>(); }
LEMMA(to_string_10_unsigned_long_long_14) { run<unsigned long long, 10, 14, false>(); }
LEMMA(to_string_10_unsigned_long_long_15) { run<unsigned long long, 10, 15, false>(); }
LEMMA(to_string_10_unsigned_long_long_16) { run<unsigned long long, 10, 16, false>(); }
LEMMA(to_string_10_unsigned_long_long_17) { run<unsigned long long, 10, 17, false>(); }
LEMMA(to_string_10_unsigned_long_long_18) { run<unsigned long long, 10, 18, false>(); }
LEMMA(to_string_10_unsigned_long_long_19) { run<unsigned long long, 10, 19, false>(); }
LEMMA(to_string_10_unsigned_long_long_20) { run<unsigned long long, 10, 20, false>(); }
'''


NAT = r'''
#include "native.hpp"
#include <cinttypes>
#include <sprout/cstdlib.hpp>
#include <sprout/cinttypes.hpp>
#include <sprout/string.hpp>
#include <sprout/string/int_to_string.hpp>
#include <sprout/string/string_to_int.hpp>
using namespace svc;
typedef __int128 Z;
static std::string zs(Z v) { bool n = v < 0; if (n) v = -v; std::string r; do { r.insert(r.begin(), '0' + (int)(v % 10)); v /= 10; } while (v); return (n ? "-" : "") + r; }
// the specification: white space, sign, prefix, digits, saturation
template<class T, class C> T ref(C const* s, int base, bool prefix) {
  while (*s == ' ' || (*s >= 9 && *s <= 13)) ++s;
  bool neg = false; if (*s == '+') ++s; else if (*s == '-' && std::is_signed<T>::value) { neg = true; ++s; }
  if (prefix) { if (s[0] == '0' && (base == 0 || base == 16) && (s[1] == 'x' || s[1] == 'X')) { s += 2; base = 16; } else if (base == 0) base = s[0] == '0' ? 8 : 10; }
  Z v = 0, hi = std::numeric_limits<T>::max(), lo = std::numeric_limits<T>::min();
  for (;; ++s) { int d = *s >= '0' && *s <= '9' ? *s - '0' : *s >= 'a' && *s <= 'z' ? *s - 'a' + 10 : *s >= 'A' && *s <= 'Z' ? *s - 'A' + 10 : 99; if (d >= base) break; if (v < (Z(1) << 100)) v = v * base + d; }
  if (neg) v = -v; return (T)(v > hi ? hi : v < lo ? lo : v);
}
template<class C> std::string sh(std::vector<C> const& v) { std::string r; for (auto c : v) r += c >= 32 && c < 127 ? std::string(1, (char)c) : "\\" + std::to_string((long)c); return r; }
#define EQ(x, y) do { Z o_ = (x), s_ = (y); CK(o_ == s_, #x, "text", sh(v), "base", base, "got", zs(o_), "expected", zs(s_)); } while (0)
template<class T, class C> void both(std::vector<C> const& v, C const* s, int base) {
  EQ((sprout::str_to_int<T>(s, base)), (ref<T>(s, base, true))); EQ((sprout::str_to_int<T>(s, nullptr, base)), (ref<T>(s, base, true)));
  EQ(sprout::ascii_to_int<T>(s), (ref<T>(s, 10, false)));
  if (v.size() < 60) { auto z = sprout::string_from_c_str<64>(s); EQ((sprout::string_to_int<T>(z, base)), (ref<T>(s, base, true))); EQ(sprout::from_string<T>(z), (ref<T>(s, 0, true))); }
}
template<class C> void parse(Run& R) {
  std::vector<C> v; int base = R.r.chance(3) ? 10 : R.r.chance(2) ? 0 : R.r.chance(2) ? 16 : (int)R.r.range(2, 36);
  for (int k = (int)R.r.range(0, 2); k > 0; --k) v.push_back(R.r.chance(2) ? ' ' : (C)R.r.range(9, 13));
  if (R.r.chance(2)) v.push_back("+--"[R.r.range(0, 2)]);
  if (R.r.chance(3)) { v.push_back('0'); if (R.r.chance(2)) v.push_back("xX"[R.r.range(0, 1)]); }
  int eb = base ? base : R.r.chance(2) ? 10 : 16;
  if (R.r.chance(2)) { // around the limits
    static const Z L[] = {Z(1) << 7, Z(1) << 8, Z(1) << 15, Z(1) << 16, Z(1) << 31, Z(1) << 32, Z(1) << 63, Z(1) << 64, 0, 10, 100, 1000000};
    Z x = L[R.r.range(0, 11)] + R.r.range(-3, 3); if (R.r.chance(5)) x *= eb; if (x < 0) x = -x;
    std::vector<C> d; do { int t = (int)(x % eb); d.insert(d.begin(), t < 10 ? '0' + t : (R.r.chance(2) ? 'a' : 'A') + t - 10); x /= eb; } while (x); v.insert(v.end(), d.begin(), d.end());
  } else for (int k = R.r.chance(6) ? gen_len(R.r, 80) : (int)R.r.range(0, 12); k > 0; --k) { int t = (int)R.r.range(0, R.r.chance(8) ? 35 : eb - 1); v.push_back(t < 10 ? '0' + t : (R.r.chance(2) ? 'a' : 'A') + t - 10); }
  if (R.r.chance(3)) v.push_back((C)R.r.range(1, 126)); if (R.r.chance(4)) v.push_back((C)any_int<signed char>(R.r));
  v.push_back(0); R.note(hash(v, base)); Buf<C> b(v); C const* s = b.cb();
  both<signed char>(v, s, base); both<short>(v, s, base); both<unsigned short>(v, s, base); both<int>(v, s, base); both<unsigned>(v, s, base); both<long>(v, s, base); both<unsigned long long>(v, s, base);
  EQ(sprout::atoi(s), ref<int>(s, 10, false)); EQ(sprout::atol(s), ref<long>(s, 10, false)); EQ(sprout::atoll(s), ref<long long>(s, 10, false));
  EQ(sprout::strtol(s, nullptr, base), ref<long>(s, base, true)); EQ(sprout::strtoll(s, nullptr, base), ref<long long>(s, base, true));
  EQ(sprout::strtoul(s, nullptr, base), ref<unsigned long>(s, base, true)); EQ(sprout::strtoull(s, nullptr, base), ref<unsigned long long>(s, base, true));
  EQ(sprout::strtoimax(s, nullptr, base), ref<std::intmax_t>(s, base, true)); EQ(sprout::strtoumax(s, nullptr, base), ref<std::uintmax_t>(s, base, true));
}
template<class T, int B, class S> void shown(T x, S const& s) {
  std::string e; unsigned __int128 m = x < 0 ? -(Z)x : (Z)x; do { int d = (int)(m % B); e.insert(e.begin(), d < 10 ? '0' + d : 'a' + d - 10); m /= B; } while (m); if (x < 0) e = "-" + e;
  bool ok = s.size() == e.size(); for (std::size_t i = 0; ok && i < e.size(); ++i) ok = (long)s[i] == e[i];
  CK(ok, "int_to_string", "value", zs(x), "base", B, "expected", e);
  CK((sprout::string_to_int<T>(s, B)) == x, "round trip through text", "value", zs(x), "base", B);
}
template<class T> void print(Run& R) {
  T x = any_int<T>(R.r); if (R.r.chance(3)) { x = 1; for (int k = (int)R.r.range(0, 20); k > 0; --k) x = (T)((unsigned long long)x * 10); x = (T)((unsigned long long)x - R.r.range(0, 1)); if (R.r.chance(2)) x = (T)(0 - (unsigned long long)x); }
  shown<T, 10>(x, sprout::to_string(x)); shown<T, 10>(x, sprout::to_wstring(x)); shown<T, 10>(x, sprout::to_u16string(x)); shown<T, 10>(x, sprout::to_u32string(x));
  shown<T, 2>(x, sprout::int_to_string<char, 2>(x)); shown<T, 3>(x, sprout::int_to_string<char, 3>(x)); shown<T, 5>(x, sprout::int_to_string<char, 5>(x)); shown<T, 7>(x, sprout::int_to_string<char, 7>(x));
  shown<T, 8>(x, sprout::int_to_string<char, 8>(x)); shown<T, 11>(x, sprout::int_to_string<char, 11>(x)); shown<T, 13>(x, sprout::int_to_string<char, 13>(x)); shown<T, 16>(x, sprout::int_to_string<char, 16>(x));
}
int main(int argc, char** argv) { Run R(argc, argv);
  while (R.more()) { parse<char>(R); parse<wchar_t>(R); print<signed char>(R); print<unsigned char>(R); print<short>(R); print<unsigned short>(R); print<int>(R); print<unsigned>(R); print<long>(R); print<unsigned long long>(R); }
  return R.done(); }
'''


def natives(tier):
    return [Native('number_text', NAT, secs=(8, 60))]
