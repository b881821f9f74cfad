"""sprout::bitset<N> against the bit-by-bit definition"""
from svc.driver import lemmas, Native
from svc.contract import Contract
from .C07 import popcount

NAT = r'''
#include "native.hpp"
#include <bitset>
#include <sprout/bitset.hpp>
using namespace svc;
template<std::size_t N> std::bitset<N> rnd(Rng& r) {
  std::bitset<N> b; switch (r.range(0, 5)) { case 0: break; case 1: b.set(); break; case 2: b.set(r.next() % N); break; case 3: b.set(); b.reset(r.next() % N); break;
    default: { int k = (int)r.range(1, 12); for (std::size_t i = 0; i < N; ++i) b[i] = r.chance(k); } } return b; }
template<std::size_t N> sprout::bitset<N> conv(std::bitset<N> const& b) { sprout::bitset<N> s; for (std::size_t i = 0; i < N; ++i) if (b[i]) s.set(i); return s; }
template<std::size_t N> std::bitset<N> unconv(sprout::bitset<N> const& s) { std::bitset<N> b; for (std::size_t i = 0; i < N; ++i) b[i] = s[i]; return b; }
template<class F> int thr(F f) { try { f(); return 0; } catch (std::out_of_range&) { return 1; } catch (std::overflow_error&) { return 2; } catch (std::invalid_argument&) { return 3; } }
#define EQ(x, e, what) do { auto svc_x = (x); auto svc_e = (e); CK(svc_x == svc_e, what, "N", N, in, "got", svc_x, "expected", svc_e); } while (0)
#define EB(x, e, what) EQ(unconv(x), e, what)
template<std::size_t N> void one(Run& R) {
  Rng& r = R.r; std::bitset<N> const a = rnd<N>(r), b = r.chance(5) ? a : rnd<N>(r); sprout::bitset<N> const x = conv(a), y = conv(b); std::string in = "a=" + a.to_string() + " b=" + b.to_string();
  R.note(std::hash<std::string>()(in)); EB(x, a, "set(i) / operator[]"); { sprout::bitset<N> z(x); EB(z, a, "copy"); z = y; EB(z, b, "assignment"); z = sprout::bitset<N>(x); EB(z, a, "move assignment"); }
  unsigned long long v = any_int<unsigned long long>(r); EB(sprout::bitset<N>(v), std::bitset<N>(v), "from integer");
  EB(x & y, a & b, "&"); EB(x | y, a | b, "|"); EB(x ^ y, a ^ b, "^"); EB(~x, ~a, "~"); EB(x.flip(), ~a, "flip const"); EB(x.set(), std::bitset<N>().set(), "set const"); EB(x.reset(), std::bitset<N>(), "reset const");
  { sprout::bitset<N> z(x); EB(z &= y, a & b, "&="); z = x; EB(z |= y, a | b, "|="); z = x; EB(z ^= y, a ^ b, "^="); z = x; z.flip(); EB(z, ~a, "flip"); z.set(); EQ(z.count(), N, "set"); CK(z.all(), "all after set", N); z.reset(); EQ(z.count(), 0u, "reset"); }
  for (int k = 0; k < 6; ++k) { std::size_t p = k == 0 ? r.next() % N : k == 1 ? (std::size_t)r.range(0, N + 3) : k == 2 ? (r.next() % (N / 64 + 1)) * 64 : k == 3 ? N - 1 : k == 4 ? any_int<std::size_t>(r) : 0; in = "a=" + a.to_string() + " n=" + std::to_string(p);
    EB(x << p, a << p, "<<"); EB(x >> p, a >> p, ">>"); sprout::bitset<N> z(x); EB(z <<= p, a << p, "<<="); z = x; EB(z >>= p, a >> p, ">>=");
    z = x; std::bitset<N> c = a; EQ(thr([&] { z.set(p); }), thr([&] { c.set(p); }), "set(i) throws"); EB(z, c, "set(i)"); EQ(thr([&] { z.reset(p); }), thr([&] { c.reset(p); }), "reset(i) throws"); EB(z, c, "reset(i)");
    EQ(thr([&] { z.flip(p); }), thr([&] { c.flip(p); }), "flip(i) throws"); EB(z, c, "flip(i)"); bool w = r.chance(2); EQ(thr([&] { z.set(p, w); }), p >= N, "set(i, v) throws"); if (p < N) c.set(p, w); EB(z, c, "set(i, v)");
    EQ(thr([&] { x.test(p); }), p >= N, "test throws"); EQ(thr([&] { x.set(p); }), p >= N, "set(i) const throws"); EQ(thr([&] { x.reset(p); }), p >= N, "reset(i) const throws"); EQ(thr([&] { x.flip(p); }), p >= N, "flip(i) const throws");
    if (p < N) { EQ(x.test(p), a.test(p), "test"); c = a; EB(x.set(p), c.set(p), "set(i) const"); EB(x.set(p, w), c.set(p, w), "set(i, v) const"); c = a; EB(x.reset(p), c.reset(p), "reset(i) const"); EB(x.flip(p), std::bitset<N>(a).flip(p), "flip(i) const");
      z = x; c = a; z[p] = w; c[p] = w; EB(z, c, "reference ="); std::size_t q = r.next() % N; z = x; c = a; z[p] = z[q]; c[p] = c[q]; EB(z, c, "reference = reference"); z[p].flip(); c[p].flip(); EB(z, c, "reference flip"); EQ(~z[p], !c[p], "reference ~"); EQ((bool)z[q], (bool)c[q], "reference read"); } }
  in = "a=" + a.to_string() + " b=" + b.to_string();
  EQ(x.count(), a.count(), "count"); EQ(x.size(), N, "size"); EQ(x.any(), a.any(), "any"); EQ(x.none(), a.none(), "none"); EQ(x.all(), a.all(), "all"); EQ(x == y, a == b, "=="); EQ(x != y, a != b, "!=");
  { unsigned long p = 0, q = 0; EQ(thr([&] { p = x.to_ulong(); }), thr([&] { q = a.to_ulong(); }), "to_ulong throws"); EQ(p, q, "to_ulong"); unsigned long long s = 0, t = 0; EQ(thr([&] { s = x.to_ullong(); }), thr([&] { t = a.to_ullong(); }), "to_ullong throws"); EQ(s, t, "to_ullong"); }
  EQ(x.to_string(), a.to_string(), "to_string"); EQ(x.to_string('.', '#'), a.to_string('.', '#'), "to_string(zero, one)");
  { std::size_t f = N; for (std::size_t i = N; i-- > 0; ) if (a[i]) f = i; EQ(x.find_first(), f, "find_first"); std::size_t p = r.next() % N, g = N; for (std::size_t i = N; i-- > p + 1; ) if (a[i]) g = i; in += " prev=" + std::to_string(p); EQ(x.find_next(p), g, "find_next"); }
  { std::string s = a.to_string(); if (r.chance(2)) s = s.substr(r.next() % (N + 1)); if (r.chance(3)) s += rnd<N>(r).to_string(); if (r.chance(4) && !s.empty()) s[r.next() % s.size()] = '2'; std::size_t p = r.range(0, s.size() + 1), n = r.chance(2) ? std::string::npos : (std::size_t)r.range(0, s.size() + 1); in = "s=" + s + " pos=" + std::to_string(p) + " n=" + std::to_string(n);
    sprout::bitset<N> z; std::bitset<N> c; EQ(thr([&] { z = sprout::bitset<N>(s, p, n); }), thr([&] { c = std::bitset<N>(s, p, n); }), "from string throws"); EB(z, c, "from string");
    EQ(thr([&] { z = sprout::bitset<N>(s, p, n, '1', '0'); }), thr([&] { c = std::bitset<N>(s, p, n, '1', '0'); }), "from string with zero, one throws"); EB(z, c, "from string with zero, one");
    EQ(thr([&] { z = sprout::bitset<N>(s.c_str()); }), thr([&] { c = std::bitset<N>(s.c_str()); }), "from characters throws"); EB(z, c, "from characters");
    EQ(thr([&] { z = sprout::bitset<N>(s); }), thr([&] { c = std::bitset<N>(s); }), "from whole string throws"); EB(z, c, "from whole string");
    std::istringstream i1(s + " 1"), i2(s + " 1"); z = x; c = a; i1 >> z; i2 >> c; EQ(i1.rdstate(), i2.rdstate(), ">> state"); EB(z, c, ">>"); std::ostringstream o; o << x; EQ(o.str(), a.to_string(), "<< stream"); }
  EQ(hash_value(x) == hash_value(conv(a)), true, "equal sets hash equally"); EQ(std::hash<sprout::bitset<N> >()(x) == std::hash<sprout::bitset<N> >()(conv(a)), true, "std::hash");
}
int main(int argc, char** argv) { Run R(argc, argv);
  while (R.more()) { switch (R.r.range(0, 7)) { case 0: one<1>(R); break; case 1: one<33>(R); break; case 2: one<63>(R); break; case 3: one<64>(R); break; case 4: one<65>(R); break; case 5: one<128>(R); break; case 6: one<129>(R); break; default: one<200>(R); } }
  return R.done(); }
'''


def natives(tier):
    return [Native('bitset_native', NAT, secs=(8, 60))]


SRC = r'''
#include <cstring>
#include <sprout/bitset.hpp>
typedef unsigned long word;
template<std::size_t N> struct W { static const std::size_t n = (N + 63) / 64; word w[n]; bool at(std::size_t i) const { return w[i / 64] >> (i % 64) & 1; } };
template<std::size_t N> word top() { return N % 64 ? ~(~word(0) << N % 64) : ~word(0); }
template<std::size_t N> sprout::bitset<N> mk(W<N> const& a) { sprout::bitset<N> b; static_assert(sizeof b == sizeof a, ""); std::memcpy((void*)&b, &a, sizeof a); return b; }
template<std::size_t N> W<N> un(sprout::bitset<N> const& b) { W<N> a; std::memcpy(&a, &b, sizeof a); return a; }
#define BITS(a) W<N> a; for (std::size_t svc_k = 0; svc_k < W<N>::n; ++svc_k) a.w[svc_k] = svc_any<word>(#a); REQUIRE((a.w[W<N>::n - 1] & ~top<N>()) == 0); sprout::bitset<N> a##s = mk<N>(a); sprout::bitset<N> const a##c = a##s
#define POS(i) ANY_IN(std::size_t, i, 0, N - 1)
#define SANE(r) ENSURE((un<N>(r).w[W<N>::n - 1] & ~top<N>()) == 0, #r " keeps the bits above N clear")
template<std::size_t N> void logic() {
  BITS(a); BITS(b); POS(i); ANY(unsigned long long, v);
  ENSURE(ac[i] == a.at(i), "operator[]"); ENSURE(ac.test(i) == a.at(i), "test");
  ENSURE(un<N>(ac & bc).at(i) == (a.at(i) & b.at(i)), "&"); ENSURE(un<N>(ac | bc).at(i) == (a.at(i) | b.at(i)), "|"); ENSURE(un<N>(ac ^ bc).at(i) == (a.at(i) ^ b.at(i)), "^");
  SANE(ac & bc); SANE(ac | bc); SANE(ac ^ bc); ENSURE(un<N>(~ac).at(i) == !a.at(i), "~"); SANE(~ac); ENSURE(un<N>(ac.set()).at(i), "set()"); SANE(ac.set()); ENSURE(!un<N>(ac.reset()).at(i), "reset()");
  sprout::bitset<N> t(ac); t &= bc; ENSURE(un<N>(t).at(i) == (a.at(i) & b.at(i)), "&="); t = ac; t |= bc; ENSURE(un<N>(t).at(i) == (a.at(i) | b.at(i)), "|="); t = ac; t ^= bc; ENSURE(un<N>(t).at(i) == (a.at(i) ^ b.at(i)), "^=");
  t = ac; t.flip(); ENSURE(un<N>(t).at(i) == !a.at(i), "flip()"); SANE(t); t.set(); ENSURE(un<N>(t).at(i), "set() in place"); SANE(t); t.reset(); ENSURE(!un<N>(t).at(i), "reset() in place"); SANE(t);
  ENSURE(un<N>(sprout::bitset<N>(v)).at(i) == (i < 64 && v >> (i & 63) & 1), "from integer"); SANE(sprout::bitset<N>(v));
}
template<std::size_t N> void single() {
  BITS(a); POS(i); POS(j); ANY(bool, v); bool o = a.at(j);
  ENSURE(un<N>(ac.set(i, v)).at(j) == (i == j ? v : o), "set(i, v)"); ENSURE(un<N>(ac.reset(i)).at(j) == (i != j && o), "reset(i)"); ENSURE(un<N>(ac.flip(i)).at(j) == (o != (i == j)), "flip(i)"); ENSURE(un<N>(ac.set(i)).at(j) == (o || i == j), "set(i)");
  sprout::bitset<N> t(ac); t.set(i, v); ENSURE(un<N>(t).at(j) == (i == j ? v : o), "set(i, v) in place"); SANE(t); t = ac; t.reset(i); ENSURE(un<N>(t).at(j) == (i != j && o), "reset(i) in place"); t = ac; t.flip(i); ENSURE(un<N>(t).at(j) == (o != (i == j)), "flip(i) in place"); SANE(t);
  t = ac; t[i] = v; ENSURE(un<N>(t).at(j) == (i == j ? v : o), "reference assignment"); t = ac; t[i].flip(); ENSURE(un<N>(t).at(j) == (o != (i == j)), "reference flip"); ENSURE(~as[i] == !a.at(i), "reference ~"); ENSURE((bool)as[i] == a.at(i), "reference read");
  POS(k); t = ac; t[i] = t[k]; ENSURE(un<N>(t).at(j) == (i == j ? a.at(k) : o), "reference = reference"); SANE(t);
}
template<std::size_t N> void shift() {
  BITS(a); POS(i); ANY(std::size_t, n);
  bool l = i >= n && a.at(i - n), r = n < N && i + n < N && a.at(i + n);
  ENSURE(un<N>(ac << n).at(i) == l, "<<"); ENSURE(un<N>(ac >> n).at(i) == r, ">>"); SANE(ac << n); SANE(ac >> n);
}
template<std::size_t N> void shift_in_place() {
  BITS(a); POS(i); ANY(std::size_t, n);
  bool l = i >= n && a.at(i - n), r = n < N && i + n < N && a.at(i + n);
  sprout::bitset<N> t(ac); t <<= n; ENSURE(un<N>(t).at(i) == l, "<<="); SANE(t); t = ac; t >>= n; ENSURE(un<N>(t).at(i) == r, ">>="); SANE(t);
}
template<std::size_t N> void count() { BITS(a); std::size_t c = 0; for (std::size_t k = 0; k < W<N>::n; ++k) c += __builtin_popcountl(a.w[k]); ENSURE(ac.count() == c, "count"); ENSURE(ac.size() == N, "size"); }
template<std::size_t N> void any() { BITS(a); bool any = false; for (std::size_t k = 0; k < W<N>::n; ++k) any = any || a.w[k] != 0; ENSURE(ac.any() == any, "any"); ENSURE(ac.none() == !any, "none"); }
template<std::size_t N> void all() { BITS(a); bool all = true; for (std::size_t k = 0; k < W<N>::n; ++k) all = all && a.w[k] == (k + 1 == W<N>::n ? top<N>() : ~word(0)); ENSURE(ac.all() == all, "all"); }
template<std::size_t N> void equality() { BITS(a); BITS(b); bool eq = true; for (std::size_t k = 0; k < W<N>::n; ++k) eq = eq && a.w[k] == b.w[k]; ENSURE((ac == bc) == eq, "=="); ENSURE((ac != bc) == !eq, "!="); }
template<std::size_t N> void find() {
  BITS(a); POS(i); POS(p); std::size_t f = ac.find_first(), g = ac.find_next(p);
  ENSURE(f <= N && (f == N || a.at(f)), "find_first is a set bit or N"); ENSURE(!(i < f && a.at(i)), "find_first: none set before"); ENSURE(g <= N && (g == N || (g > p && a.at(g))), "find_next is a later set bit or N"); ENSURE(!(p < i && i < g && a.at(i)), "find_next: none set between");
}
template<std::size_t N> void out_of_range_() { BITS(a); ANY(std::size_t, n); ANY(bool, v); THROWS_IFF(n >= N); as.set(n, v); SANE(as); }
template<std::size_t N> void out_of_range_reset() { BITS(a); ANY(std::size_t, n); THROWS_IFF(n >= N); as.reset(n); }
template<std::size_t N> void out_of_range_flip() { BITS(a); ANY(std::size_t, n); THROWS_IFF(n >= N); as.flip(n); }
template<std::size_t N> void out_of_range_test() { BITS(a); ANY(std::size_t, n); THROWS_IFF(n >= N); ENSURE(ac.test(n) == a.at(n), "test"); }
template<std::size_t N> void out_of_range_const() { BITS(a); ANY(std::size_t, n); ANY_IN(int, w, 0, 2); THROWS_IFF(n >= N); if (w == 0) ac.set(n); else if (w == 1) ac.reset(n); else ac.flip(n); }
template<std::size_t N> void to_ulong_() { BITS(a); bool big = false; for (std::size_t k = 1; k < W<N>::n; ++k) big = big || a.w[k] != 0; THROWS_IFF(big); ENSURE(ac.to_ulong() == a.w[0], "to_ulong"); ENSURE(ac.to_ullong() == a.w[0], "to_ullong"); }
template<std::size_t N> void to_ullong_() { BITS(a); bool big = false; for (std::size_t k = 1; k < W<N>::n; ++k) big = big || a.w[k] != 0; THROWS_IFF(big); ENSURE(ac.to_ullong() == a.w[0], "to_ullong"); }
'''
SIZES = (1, 33, 64, 65, 128, 129, 200)
PARTS = {'logic': 'logic', 'single': 'single', 'shift': 'shift shift_in_place', 'query': 'count any all equality', 'find': 'find', 'range': 'out_of_range_ out_of_range_reset out_of_range_flip out_of_range_test out_of_range_const to_ulong_ to_ullong_'}


def units(tier):
    return [lemmas('bitset_' + k, SRC + ''.join('LEMMA(%s%s%d) { %s<%d>(); }\n' % (f, '' if f[-1] == '_' else '_', n, f, n) for f in v.split() for n in SIZES), [Contract('sprout::detail::popcount', ['v'], popcount)] if k == 'query' else [], mode='bv', timeout=60, secs=(2, 20)) for k, v in PARTS.items()]
