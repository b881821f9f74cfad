"""sprout::basic_string (fixed capacity) and basic_string_view against std::basic_string"""
from svc.driver import Unit, Native, lemmas
from .iterspec import EXT
from .strspec import strs

NAT = r'''
#include "native.hpp"
#include <iterator>
#include <sstream>
#include <sprout/string.hpp>
#include <sprout/utility/string_view.hpp>
using namespace svc;
typedef std::string S; enum { N = 9 }; typedef sprout::basic_string<char, N> F; typedef sprout::basic_string<char, 5> G; typedef sprout::basic_string_view<char> V;
static S esc(S const& s) { S r; for (char c : s) r += c == 0 ? S("\\0") : S(1, c); return "\"" + r + "\""; }
static char ch(Rng& r) { return r.chance(6) ? (char)r.range(-128, -1) : (char)r.range('a', r.chance(2) ? 'b' : 'd'); }
static S gs(Rng& r, int mx) { S s; for (int k = (int)r.range(0, mx); k > 0; --k) s += ch(r); return s; }
static std::size_t gp(Rng& r, std::size_t n) { return r.chance(7) ? S::npos : r.chance(20) ? S::npos - (std::size_t)r.range(0, 12) : (std::size_t)r.range(0, n + 2); }
template<class T> S st(T const& f) { return S(f.data(), f.size()); }
template<std::size_t K> void inv(sprout::basic_string<char, K> const& f, const char* what, S const& in) { CK(f.size() <= K, what, in, "size", f.size()); for (std::size_t i = f.size(); i <= K; ++i) CK(f.data()[i] == 0, what, in, "not terminated and cleared behind the contents"); }
template<class X> int thr(X f) { try { f(); return 0; } catch (std::length_error&) { return 1; } catch (std::out_of_range&) { return 2; } }
static int sg(int x) { return x < 0 ? -1 : x > 0; }
#define EQ(x, e, what) do { auto svc_x = (x); auto svc_e = (e); CK(svc_x == svc_e, what, in, "got", svc_x, "expected", svc_e); } while (0)
// an operation whose result does not fit throws length_error and changes nothing
#define MOD(what, sop, fop) do { F g(f); S e(s); int svc_t = thr([&] { sop; }); bool over = !svc_t && e.size() > N; int svc_u = thr([&] { fop; }); if (over) { CK(svc_u != 0, what, in, "exceeding the capacity is not reported"); CK(st(g) == s, what, in, "changed by a failed call, got", esc(st(g))); } \
  else { CK((svc_u != 0) == (svc_t != 0), what, in, "exception", svc_u, "expected", svc_t); CK(st(g) == (svc_t ? s : e), what, in, "got", esc(st(g)), "expected", esc(svc_t ? s : e)); } inv(g, what, in); } while (0)
typedef sprout::basic_string<char, 12> Y; static Y const& mk(F const&, Y const& y) { return y; } static V mk(V const&, Y const& y) { return V(y.data(), y.size()); }
template<class X> void search(Rng& r, X const& f, S const& s, S const& t, const char* kind) {
  std::size_t p = gp(r, s.size()), n = t.empty() ? 0 : r.range(0, t.size()); char c = ch(r); S in = S(kind) + " s=" + esc(s) + " t=" + esc(t) + " pos=" + std::to_string((long)p) + " n=" + std::to_string(n) + " c=" + S(1, c); X o(f); Buf<char> tb(std::vector<char>(t.begin(), t.end())); const char* q = t.c_str();
#define FIND(name, dflt) EQ(f.name(q, p, n), s.name(q, p, n), #name "(s, pos, n)"); EQ(f.name(tb.cb(), p, t.size()), s.name(t, p), #name " reads only n characters"); EQ(f.name(q, p), s.name(q, p), #name "(s, pos)"); EQ(f.name(q), s.name(q), #name "(s)"); EQ(f.name(c, p), s.name(c, p), #name "(c, pos)"); EQ(f.name(c), s.name(c), #name "(c)"); \
  { sprout::basic_string<char, 12> y(q); EQ(f.name(mk(f, y), p), s.name(t, p), #name "(str, pos)"); EQ(f.name(mk(f, y)), s.name(t), #name "(str)"); }
  FIND(find, 0) FIND(rfind, 0) FIND(find_first_of, 0) FIND(find_last_of, 0) FIND(find_first_not_of, 0) FIND(find_last_not_of, 0)
  EQ(sg(f.compare(q)), sg(s.compare(q)), "compare(s)"); { std::size_t a = gp(r, s.size()), b = gp(r, s.size()); S in2 = in; in += " p1=" + std::to_string((long)a) + " n1=" + std::to_string((long)b); int u = 0, v = 0;
    EQ(thr([&] { u = f.compare(a, b, q); }), thr([&] { v = s.compare(a, b, q); }), "compare(pos, n, s) throws"); EQ(sg(u), sg(v), "compare(pos, n, s)"); EQ(thr([&] { u = f.compare(a, b, q, n); }), thr([&] { v = s.compare(a, b, q, n); }), "compare(pos, n, s, n2) throws"); EQ(sg(u), sg(v), "compare(pos, n, s, n2)");
    X g; S e; EQ(thr([&] { g = X(f.substr(a, b)); }), thr([&] { e = s.substr(a, b); }), "substr throws"); EQ(st(g), e, "substr"); in = in2; char out[32]; std::memset(out, 'Z', 32); u = v = 0; EQ(thr([&] { u = f.copy(out, b > 20 ? 20 : b, a); }), thr([&] { char t2[32]; v = s.copy(t2, b > 20 ? 20 : b, a); }), "copy throws"); EQ(u, v, "copy count"); if (a <= s.size()) EQ(S(out, u), s.substr(a, u), "copy"); CK(out[u] == 'Z', "copy writes no more", in); }
  EQ(f.size(), s.size(), "size"); EQ(f.length(), s.size(), "length"); EQ(f.empty(), s.empty(), "empty"); EQ(S(f.begin(), f.end()), s, "begin..end"); EQ(S(f.rbegin(), f.rend()), S(s.rbegin(), s.rend()), "rbegin..rend"); { S e = s; for (std::size_t i = 0; i < s.size(); ++i) EQ(f[i], s[i], "[]"); std::size_t i = gp(r, s.size()); char x = 0, y = 0; EQ(thr([&] { x = f.at(i); }), thr([&] { y = s.at(i); }), "at throws"); EQ(x, y, "at"); if (!s.empty()) { EQ(f.front(), s.front(), "front"); EQ(f.back(), s.back(), "back"); } }
}
template<class A, class B> void rel(A const& f, B const& g, S const& s, S const& t, const char* kind) { S in = S(kind) + " a=" + esc(s) + " b=" + esc(t);
  EQ(f == g, s == t, "=="); EQ(f != g, s != t, "!="); EQ(f < g, s < t, "<"); EQ(f > g, s > t, ">"); EQ(f <= g, s <= t, "<="); EQ(f >= g, s >= t, ">="); }
int main(int argc, char** argv) { Run R(argc, argv); Rng& r = R.r;
  while (R.more()) { S s = gs(r, N), t = r.chance(3) ? s.substr(r.range(0, s.size())) : gs(r, 12); if (r.chance(6)) { t = s; if (!t.empty() && r.chance(2)) t[r.next() % t.size()] = ch(r); } R.note(std::hash<S>()(s + "|" + t)); const char* q = t.c_str(); F const f(s.c_str()); S in = "s=" + esc(s) + " t=" + esc(t); EQ(st(f), s, "construction"); inv(f, "construction", in);
    std::size_t p = gp(r, t.size()), n = r.chance(2) ? r.range(0, t.size()) : gp(r, 12); char c = ch(r); in += " pos=" + std::to_string((long)p) + " n=" + std::to_string((long)n); std::size_t m = n < t.size() ? n : t.size();
    F const h(S(t, 0, N).c_str()); S const hs(t, 0, N); G const k(S(t, 0, 5).c_str()); S const ks(t, 0, 5);
    MOD("append(s)", e.append(q), g.append(q)); MOD("append(s, n)", e.append(q, m), g.append(q, m)); MOD("append(n, c)", n > 40 ? throw std::length_error("") : e.append(n, c), g.append(n, c)); MOD("append(str)", e.append(hs), g.append(h)); MOD("append(str, pos, n)", e.append(hs, p, n), g.append(h, p, n)); MOD("append(smaller)", e.append(ks), g.append(k)); MOD("append(self)", e.append(s), g.append(g));
    MOD("append(first, last)", e.append(t.begin(), t.end()), g.append(t.begin(), t.end())); { std::istringstream i(t); typedef std::istreambuf_iterator<char> It; if (s.size() + t.size() <= N) { MOD("append(input iterators)", e.append(t), g.append(It(i), It())); } else { F g(f); CK(thr([&] { g.append(It(i), It()); }) != 0, "append(input iterators): exceeding the capacity is not reported", in); } }
    MOD("append(il)", e.append({'x', 'y'}), g.append({'x', 'y'})); MOD("push_back", e.push_back(c), g.push_back(c)); if (!s.empty()) MOD("pop_back", e.pop_back(), g.pop_back()); MOD("clear", e.clear(), g.clear());
    MOD("assign(s)", e.assign(q), g.assign(q)); MOD("assign(s, n)", e.assign(q, m), g.assign(q, m)); MOD("assign(n, c)", n > 40 ? throw std::length_error("") : e.assign(n, c), g.assign(n, c)); MOD("assign(str)", e.assign(hs), g.assign(h)); MOD("assign(str, pos, n)", e.assign(hs, p, n), g.assign(h, p, n)); MOD("assign(smaller)", e.assign(ks), g.assign(k));
    MOD("assign(self, pos, n)", e.assign(S(s), p, n), g.assign(g, p, n)); if (!s.empty()) { std::size_t a = r.next() % s.size(), b = r.range(0, s.size() - a); MOD("assign(part of itself)", e = s.substr(a, b), g.assign(g.data() + a, b)); MOD("append(part of itself)", e += s.substr(a, b), g.append(g.data() + a, b)); }
    MOD("assign(first, last)", e.assign(t.begin(), t.end()), g.assign(t.begin(), t.end())); { std::istringstream i(t); typedef std::istreambuf_iterator<char> It; if (t.size() <= N) { MOD("assign(input iterators)", e.assign(t), g.assign(It(i), It())); } else { F g(f); CK(thr([&] { g.assign(It(i), It()); }) != 0, "assign(input iterators): exceeding the capacity is not reported", in); CK(g.size() <= N, "size", in); } }
    MOD("assign(il)", e.assign({'x', 'y'}), g.assign({'x', 'y'})); MOD("= str", e = hs, g = h); MOD("= smaller", e = ks, g = k); MOD("= s", e = q, g = q); MOD("= c", e = c, g = c); MOD("= il", (e = {'x', 'y', 'z'}), (g = {'x', 'y', 'z'})); MOD("resize(n, c)", n > 40 ? throw std::length_error("") : e.resize(n, c), g.resize(n, c)); MOD("swap", e = hs, { F z(h); g.swap(z); CK(st(z) == s, "swap other", in); inv(z, "swap", in); });
    MOD("write through [] and iterators", for (auto& x : e) ++x, for (auto& x : g) ++x); if (!s.empty()) MOD("front, back, at write", (e.front() = 'x', e.back() = 'y', e.at(0) = 'w'), (g.front() = 'x', g.back() = 'y', g.at(0) = 'w'));
#define NEW(what, cond, fexp, sexp) do { S svc_e0; int svc_u0 = thr([&] { svc_e0 = sexp; }); F g; int svc_u = thr([&] { g = F(fexp); }); if (!svc_u0 && svc_e0.size() > N) CK(svc_u != 0, what, in, "exceeding the capacity is not reported"); else { CK((svc_u != 0) == (svc_u0 != 0), what, in, "exception", svc_u, "expected", svc_u0); if (!svc_u0) { CK(st(g) == svc_e0, what, in, "got", esc(st(g)), "expected", esc(svc_e0)); inv(g, what, in); } } } while (0)
    NEW("from s", 1, q, t); NEW("from s, n", 1, F(q, n), t.substr(0, n)); NEW("from n, c", 1, F(n > 40 ? 40 : n, c), S(n > 40 ? 40 : n, c)); NEW("from range", 1, F(t.begin(), t.end()), t); { std::istringstream i(t); typedef std::istreambuf_iterator<char> It; NEW("from input range", 1, F(It(i), It()), t); } NEW("from str, pos, n", 1, F(h, p, n), S(hs, p, n)); NEW("from smaller", 1, F(k), ks); NEW("from smaller, pos, n", 1, F(k, p, n), S(ks, p, n)); NEW("from il", 1, (F{'x', 'y', 'z'}), S("xyz")); NEW("from array", 1, F("abcabc"), S("abcabc"));
    { Buf<char> tb(std::vector<char>(t.begin(), t.end())); NEW("from exact buffer", 1, F(tb.cb(), t.size()), t); MOD("assign(exact buffer)", e.assign(t), g.assign(tb.cb(), t.size())); MOD("append(exact buffer)", e.append(t), g.append(tb.cb(), t.size())); }
    MOD("<<= str", e += hs, g <<= h); MOD("<<= smaller", e += ks, g <<= k); MOD("<<= s", e += q, g <<= q); MOD("<<= c", e += c, g <<= c); MOD(">>= str", e = hs + e, g >>= h); MOD(">>= smaller", e = ks + e, g >>= k); MOD(">>= s", e = q + e, g >>= q); MOD(">>= c", e = c + e, g >>= c); MOD(">>= il", e = "xy" + e, (g >>= {'x', 'y'}));
    MOD("append(iterator, n)", e.append(hs.substr(0, m < hs.size() ? m : hs.size())), g.append(h.begin(), m < hs.size() ? m : hs.size())); MOD("assign(iterator, n)", e.assign(hs.substr(0, m < hs.size() ? m : hs.size())), g.assign(h.begin(), m < hs.size() ? m : hs.size())); MOD("assign(iterator)", e = hs, g.assign(h.begin())); MOD("append(iterator)", e += hs, g.append(h.begin())); MOD("= iterator", e = hs, g = h.begin());
#define ITF(name) EQ(f.name(h.begin()), s.name(hs), #name "(iterator)"); EQ(f.name(h.begin(), p), s.name(hs, p), #name "(iterator, pos)"); EQ(f.name(h.begin(), p, hs.size() / 2), s.name(hs.substr(0, hs.size() / 2), p), #name "(iterator, pos, n)");
    ITF(find) ITF(rfind) ITF(find_first_of) ITF(find_last_of) ITF(find_first_not_of) ITF(find_last_not_of) EQ(sg(f.compare(h.begin())), sg(s.compare(hs)), "compare(iterator)");
    { std::size_t i = gp(r, s.size()); F g(f); int u = thr([&] { *g.nth(i) = '!'; }); CK(u == (i < s.size() ? 0 : 2), "nth throws", in); if (!u) { S e(s); e[i] = '!'; EQ(st(g), e, "nth"); EQ(g.index_of(g.nth(i)), i, "index_of"); } }
    search(r, f, s, t, "string"); V const v(s.data(), s.size()), w(t.data(), t.size()); search(r, v, s, t, "string_view"); { S const big = t + s + t + s; std::size_t a = r.range(0, big.size()), n = r.range(0, big.size() - a), b = r.range(0, big.size()); V const part(big.data() + a, n); search(r, part, big.substr(a, n), big.substr(b, r.range(0, 4)), "view into a larger buffer"); } rel(f, h, s, hs, "string, string"); rel(f, k, s, ks, "string, smaller"); rel(f, q, s, t, "string, s"); rel(q, f, t, s, "s, string"); rel(v, w, s, t, "view, view"); rel(v, q, s, t, "view, s"); rel(q, v, t, s, "s, view"); EQ(hash_value(f) == hash_value(F(s.c_str())), true, "hash");
    { V x(v); if (!s.empty()) { std::size_t a = r.range(0, s.size()); x.remove_prefix(a); EQ(st(x), s.substr(a), "remove_prefix"); x = v; x.remove_suffix(a); EQ(st(x), s.substr(0, s.size() - a), "remove_suffix"); } x = V(q); EQ(st(x), t, "view of s"); x.clear(); EQ(x.size(), 0u, "view clear"); EQ(st(V(f)), s, "view of string"); }
    { auto a = f + h; EQ(st(a), s + hs, "string + string"); inv(a, "string + string", in); auto b = f + k; EQ(st(b), s + ks, "string + smaller"); inv(b, "+", in); auto d = f + c; EQ(st(d), s + c, "string + c"); inv(d, "+ c", in); auto e = c + f; EQ(st(e), c + s, "c + string"); inv(e, "c +", in); auto g = f + "xyz"; EQ(st(g), s + "xyz", "string + array"); inv(g, "+ array", in); auto i = "xyz" + f; EQ(st(i), "xyz" + s, "array + string"); inv(i, "array +", in); }
    { std::ostringstream o; o << f << '|' << v; EQ(o.str(), s + "|" + s, "<<"); std::istringstream i(s + " " + t); F g(h); S e; i >> g; std::istringstream i2(s + " " + t); i2 >> e; if (e.size() <= N) { EQ(st(g), e, ">>"); inv(g, ">>", in); } } }
  return R.done(); }
'''


SRCH = r"""
LEMMA(find_first_of) { SEARCH; Z e = first(p, f.n, in); ENSURE(fc.find_first_of(q.e, p, n) == e, "find_first_of(s, pos, n)"); ENSURE(fc.find_first_of(qc, p) == e, "find_first_of(str, pos)"); }
LEMMA(find_last_of) { SEARCH; Z e = last(LIM(p), in); ENSURE(fc.find_last_of(q.e, p, n) == e, "find_last_of(s, pos, n)"); ENSURE(fc.find_last_of(qc, p) == e, "find_last_of(str, pos)"); }
LEMMA(find_first_not_of) { SEARCH; Z e = first(p, f.n, out); ENSURE(fc.find_first_not_of(q.e, p, n) == e, "find_first_not_of(s, pos, n)"); ENSURE(fc.find_first_not_of(qc, p) == e, "find_first_not_of(str, pos)"); }
LEMMA(find_last_not_of) { SEARCH; Z e = last(LIM(p), out); ENSURE(fc.find_last_not_of(q.e, p, n) == e, "find_last_not_of(s, pos, n)"); ENSURE(fc.find_last_not_of(qc, p) == e, "find_last_not_of(str, pos)"); }
LEMMA(find_c) { STR(f, N); ANY(char, ch); ANY(Z, p); auto is = [&](Z i) { return f.e[i] == ch; }; auto no = [&](Z i) { return f.e[i] != ch; }; ENSURE(fc.find(ch, p) == first(p, f.n, is), "find(c, pos)"); ENSURE(fc.find_first_of(ch, p) == first(p, f.n, is), "find_first_of(c, pos)"); ENSURE(fc.rfind(ch, p) == last(LIM(p), is), "rfind(c, pos)"); ENSURE(fc.find_last_of(ch, p) == last(LIM(p), is), "find_last_of(c, pos)"); ENSURE(fc.find_first_not_of(ch, p) == first(p, f.n, no), "find_first_not_of(c, pos)"); ENSURE(fc.find_last_not_of(ch, p) == last(LIM(p), no), "find_last_not_of(c, pos)"); }
"""


VIEW = r"""
#define SPROUT_CONFIG_DISABLE_SUPPORT_TEMPORARY_CONTAINER_ITERATION
#include <sprout/utility/string_view.hpp>
typedef std::size_t Z; typedef sprout::basic_string_view<CH> V;
"""
for_n = ['find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of']
VIEW += ''.join('Z v_%s(CH const* d, Z l, CH const* s, Z p, Z n) { return V(d, l).%s(s, p, n); }\nZ vv_%s(CH const* d, Z l, CH const* s, Z p, Z n) { return V(d, l).%s(V(s, n), p); }\nZ v_%s_c(CH const* d, Z l, CH c, Z p) { return V(d, l).%s(c, p); }\n' % ((n,) * 6) for n in for_n)
VIEW += """
int v_compare(CH const* d, Z l, CH const* s, Z n) { return V(d, l).compare(V(s, n)); }
int v_compare_pos(CH const* d, Z l, Z p, Z k, CH const* s, Z n) { return V(d, l).compare(p, k, s, n); }
"""
VIEW += ''.join('bool v_%s(CH const* d, Z l, CH const* s, Z n) { return V(d, l) %s V(s, n); }\n' % x for x in (('eq', '=='), ('ne', '!='), ('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')))


PRE = r"""
#include <cstring>
#include <sprout/string.hpp>
#include <sprout/utility/string_view.hpp>
typedef std::size_t Z; enum { N = CAP }; typedef sprout::basic_string<char, N> F; typedef sprout::basic_string<char, N - 1> G;
template<Z K> struct Raw { char e[K + 1]; Z n; char at(Z i) const { return i < n ? e[i] : 0; } };
template<Z K> sprout::basic_string<char, K> mk(Raw<K> const& a) { sprout::basic_string<char, K> f; static_assert(sizeof f == sizeof a, ""); std::memcpy((void*)&f, &a, sizeof a); return f; }
template<Z K> Raw<K> un(sprout::basic_string<char, K> const& f) { Raw<K> a; std::memcpy(&a, &f, sizeof a); return a; }
#define STR(a, K) Raw<K> a; a.n = svc_any<Z>(#a " length"); REQUIRE(a.n <= K); for (Z svc_k = 0; svc_k <= K; ++svc_k) { char svc_c = svc_any<char>(#a); if (svc_k < K) REQUIRE(svc_c != 0); a.e[svc_k] = svc_k < a.n ? svc_c : 0; } sprout::basic_string<char, K> a##s = mk<K>(a); sprout::basic_string<char, K> const a##c = a##s
#define CHARS(q, K) ANY_ARR(char, q, K); for (Z svc_k = 0; svc_k < K; ++svc_k) REQUIRE(q[svc_k] != 0)
#define IS(f, len, at, what) do { Raw<N> svc_r = un<N>(f); ENSURE(svc_r.n == (len), what " length"); for (Z i = 0; i <= N; ++i) { ENSURE(svc_r.e[i] == (i < (len) ? (at) : 0), what " contents, terminated and cleared behind them"); } } while (0)
template<class M> Z first(Z lo, Z hi, M m) { for (Z i = 0; i <= N; ++i) if (i >= lo && i < hi && m(i)) return i; return Z(-1); }
template<class M> Z last(Z hi, M m) { Z r = Z(-1); for (Z i = 0; i <= N; ++i) if (i < hi && m(i)) r = i; return r; }
#define LIM(p) (f.n == 0 ? 0 : p < f.n - 1 ? p + 1 : f.n)
#define SEARCH STR(f, N); STR(q, 2); ANY(Z, p); Z n = q.n; auto hit = [&](Z i) { for (Z k = 0; k < 2; ++k) if (k < n && f.e[i + k] != q.e[k]) return false; return true; }; auto in = [&](Z i) { for (Z k = 0; k < 2; ++k) if (k < n && f.e[i] == q.e[k]) return true; return false; }; auto out = [&](Z i) { return !in(i); }; (void)hit; (void)in; (void)out
"""
MEM = r"""
LEMMA(append) { STR(f, N); CHARS(q, N + 1); ANY_IN(Z, n, 0, N + 1); THROWS_IFF(f.n + n > N); fs.append(q, n); IS(fs, f.n + n, i < f.n ? f.e[i] : q[i - f.n], "append(s, n)"); }
LEMMA(append_n) { STR(f, N); ANY(char, ch); ANY(Z, n); THROWS_IFF(n > N - f.n); fs.append(n, ch); IS(fs, f.n + n, i < f.n ? f.e[i] : ch, "append(n, c)"); }
LEMMA(append_str) { STR(f, N); STR(g, N); ANY(Z, p); ANY(Z, n); Z m = p > g.n ? 0 : n < g.n - p ? n : g.n - p; THROWS_IFF(p > g.n || f.n + m > N); fs.append(gc, p, n); IS(fs, f.n + m, i < f.n ? f.e[i] : g.e[p + i - f.n], "append(str, pos, n)"); }
LEMMA(append_smaller) { STR(f, N); STR(g, N - 1); THROWS_IFF(f.n + g.n > N); fs.append(gc); IS(fs, f.n + g.n, i < f.n ? f.e[i] : g.e[i - f.n], "append(smaller)"); }
LEMMA(append_self) { STR(f, N); THROWS_IFF(2 * f.n > N); fs.append(fs); IS(fs, 2 * f.n, i < f.n ? f.e[i] : f.e[i - f.n], "append(self)"); }
LEMMA(push_back) { STR(f, N); ANY(char, ch); THROWS_IFF(f.n == N); fs.push_back(ch); IS(fs, f.n + 1, i < f.n ? f.e[i] : ch, "push_back"); }
LEMMA(pop_back) { STR(f, N); REQUIRE(f.n > 0); fs.pop_back(); IS(fs, f.n - 1, f.e[i], "pop_back"); }
LEMMA(clear) { STR(f, N); fs.clear(); IS(fs, Z(0), 0, "clear"); }
LEMMA(assign) { STR(f, N); CHARS(q, N + 1); ANY_IN(Z, n, 0, N + 1); THROWS_IFF(n > N); fs.assign(q, n); IS(fs, n, q[i], "assign(s, n)"); }
LEMMA(assign_n) { STR(f, N); ANY(char, ch); ANY(Z, n); THROWS_IFF(n > N); fs.assign(n, ch); IS(fs, n, ch, "assign(n, c)"); }
LEMMA(assign_str) { STR(f, N); STR(g, N); ANY(Z, p); ANY(Z, n); Z m = p > g.n ? 0 : n < g.n - p ? n : g.n - p; THROWS_IFF(p > g.n); fs.assign(gc, p, n); IS(fs, m, g.e[p + i], "assign(str, pos, n)"); }
LEMMA(assign_self) { STR(f, N); ANY(Z, p); ANY(Z, n); Z m = p > f.n ? 0 : n < f.n - p ? n : f.n - p; THROWS_IFF(p > f.n); fs.assign(fs, p, n); IS(fs, m, f.e[p + i], "assign(self, pos, n)"); }
LEMMA(assign_smaller) { STR(f, N); STR(g, N - 1); fs = gc; IS(fs, g.n, g.e[i], "= smaller"); F h(gc); IS(h, g.n, g.e[i], "from smaller"); }
LEMMA(copy) { STR(f, N); F g(fc); IS(g, f.n, f.e[i], "copy"); STR(h, N); hs = fc; IS(hs, f.n, f.e[i], "="); hs = hs; IS(hs, f.n, f.e[i], "= self"); }
LEMMA(assign_char) { STR(f, N); ANY(char, ch); fs = ch; IS(fs, Z(1), ch, "= c"); }
LEMMA(resize) { STR(f, N); ANY(char, ch); ANY(Z, n); THROWS_IFF(n > N); fs.resize(n, ch); IS(fs, n, i < f.n ? f.e[i] : ch, "resize(n, c)"); }
LEMMA(resize0) { STR(f, N); ANY(Z, n); THROWS_IFF(n > N); fs.resize(n); IS(fs, n, i < f.n ? f.e[i] : 0, "resize(n)"); }
LEMMA(swap) { STR(f, N); STR(g, N); fs.swap(gs); IS(fs, g.n, g.e[i], "swap"); IS(gs, f.n, f.e[i], "swap other"); }
LEMMA(swap_self) { STR(f, N); fs.swap(fs); IS(fs, f.n, f.e[i], "swap self"); }
LEMMA(prepend) { STR(f, N); STR(g, N - 1); THROWS_IFF(f.n + g.n > N); fs >>= gc; IS(fs, f.n + g.n, i < g.n ? g.e[i] : f.e[i - g.n], ">>= str"); }
LEMMA(prepend_c) { STR(f, N); ANY(char, ch); THROWS_IFF(f.n == N); fs >>= ch; IS(fs, f.n + 1, i < 1 ? ch : f.e[i - 1], ">>= c"); }
LEMMA(from_n) { ANY(char, ch); ANY(Z, n); THROWS_IFF(n > N); F f(n, ch); IS(f, n, ch, "from n, c"); }
LEMMA(from_s) { CHARS(q, N + 2); ANY_IN(Z, l, 0, N + 1); q[l] = 0; THROWS_IFF(l > N); char const* s = q; F f(s); IS(f, l, q[i], "from s"); }
LEMMA(from_s_n) { CHARS(q, N + 1); ANY_IN(Z, n, 0, N + 1); THROWS_IFF(n > N); char const* s = q; F f(s, n); IS(f, n, q[i], "from s, n"); }
LEMMA(from_str_pos) { STR(g, N); ANY(Z, p); ANY(Z, n); Z m = p > g.n ? 0 : n < g.n - p ? n : g.n - p; THROWS_IFF(p > g.n); F f(gc, p, n); IS(f, m, g.e[p + i], "from str, pos, n"); }
LEMMA(from_smaller_pos) { STR(g, N - 1); ANY(Z, p); ANY(Z, n); Z m = p > g.n ? 0 : n < g.n - p ? n : g.n - p; THROWS_IFF(p > g.n); F f(gc, p, n); IS(f, m, g.e[p + i], "from smaller, pos, n"); }
LEMMA(substr) { STR(g, N); ANY(Z, p); ANY(Z, n); Z m = p > g.n ? 0 : n < g.n - p ? n : g.n - p; THROWS_IFF(p > g.n); F f(gc.substr(p, n)); IS(f, m, g.e[p + i], "substr"); }
LEMMA(access) { STR(f, N); ANY(Z, i); THROWS_IFF(i >= f.n); ENSURE(fc.at(i) == f.e[i], "at const"); ENSURE(&fs.at(i) == fs.data() + i, "at"); }
LEMMA(access2) { STR(f, N); ENSURE(fc.size() == f.n, "size"); ENSURE(fc.length() == f.n, "length"); ENSURE(fc.empty() == (f.n == 0), "empty"); ANY_IN(Z, i, 0, N); ENSURE(fc[i] == f.e[i], "[]"); ENSURE(fc.c_str()[i] == f.e[i], "c_str"); ENSURE(fc.end() - fc.begin() == (std::ptrdiff_t)f.n, "end - begin"); if (i < f.n) { ENSURE(fc.begin()[i] == f.e[i], "begin()[i]"); ENSURE(fc.rbegin()[i] == f.e[f.n - 1 - i], "rbegin()[i]"); ENSURE(fc.front() == f.e[0], "front"); ENSURE(fc.back() == f.e[f.n - 1], "back"); } }
LEMMA(copy_out) { STR(f, N); ANY_ARR(char, q, N + 1); ANY(Z, p); ANY(Z, n); Z m = p > f.n ? 0 : n < f.n - p ? n : f.n - p; char o[N + 1]; for (Z i = 0; i <= N; ++i) o[i] = q[i]; THROWS_IFF(p > f.n); Z r = fc.copy(o, n, p); ENSURE(r == m, "copy count"); for (Z i = 0; i <= N; ++i) { ENSURE(o[i] == (i < m ? f.e[p + i] : q[i]), "copy writes exactly the characters"); } }
LEMMA(view) { STR(f, N); ANY(Z, p); ANY(Z, n); Z m = p > f.n ? 0 : n < f.n - p ? n : f.n - p; sprout::string_view v(f.e, f.n); THROWS_IFF(p > f.n); sprout::string_view w = v.substr(p, n); ENSURE(w.data() == f.e + p, "view substr start"); ENSURE(w.size() == m, "view substr length"); }
LEMMA(view2) { STR(f, N); ANY_IN(Z, n, 0, N); REQUIRE(n <= f.n); sprout::string_view v(f.e, f.n), w(v); w.remove_prefix(n); ENSURE(w.data() == f.e + n, "remove_prefix start"); ENSURE(w.size() == f.n - n, "remove_prefix length"); w = v; w.remove_suffix(n); ENSURE(w.data() == f.e, "remove_suffix start"); ENSURE(w.size() == f.n - n, "remove_suffix length"); ENSURE(sprout::string_view(fc).data() == fc.data(), "view of string"); ENSURE(sprout::string_view(fc).size() == f.n, "view of string length"); ENSURE(v.empty() == (f.n == 0), "view empty"); w.clear(); ENSURE(w.size() == 0, "view clear"); }
LEMMA(array_init) { char q[N + 1]; for (Z i = 0; i < N; ++i) q[i] = svc_any<char>("q"); q[N] = 0; char h[N]; for (Z i = 0; i + 1 < N; ++i) h[i] = q[i]; h[N - 1] = 0; Z n = 0; while (q[n] != 0) ++n; Z m = n < N - 1 ? n : N - 1;
  F f = q; IS(f, n, q[i], "initialised by an array"); F g = h; IS(g, m, q[i], "initialised by a smaller array"); auto t = sprout::to_string(q); Raw<N> x = un<N>(t); ENSURE(x.n == n, "to_string of an array: length"); for (Z i = 0; i < N; ++i) ENSURE(x.e[i] == (i < n ? q[i] : 0), "to_string of an array: contents"); }
LEMMA(shift_c) { STR(f, N); ANY(char, ch); REQUIRE(ch != 0); THROWS_IFF(f.n == N); F r = fc << ch; IS(r, f.n + 1, i < f.n ? f.e[i] : ch, "<< character appends"); }
LEMMA(shift_back_c) { STR(f, N); ANY(char, ch); REQUIRE(ch != 0); THROWS_IFF(f.n == N); F r = fc >> ch; IS(r, f.n + 1, i == 0 ? ch : f.e[i - 1], ">> character prepends"); }
LEMMA(shift_str) { STR(f, N); STR(g, N - 1); THROWS_IFF(f.n + g.n > N); F r = fc << gc; IS(r, f.n + g.n, i < f.n ? f.e[i] : g.e[i - f.n], "<< string appends"); }
LEMMA(shift_back_str) { STR(f, N); STR(g, N - 1); THROWS_IFF(f.n + g.n > N); F r = fc >> gc; IS(r, f.n + g.n, i < g.n ? g.e[i] : f.e[i - g.n], ">> string prepends"); }
LEMMA(shift_ptr) { STR(f, N); STR(g, N); THROWS_IFF(f.n + g.n > N); F r = fc << gc.c_str(); IS(r, f.n + g.n, i < f.n ? f.e[i] : g.e[i - f.n], "<< C string appends"); }
LEMMA(shift_back_ptr) { STR(f, N); STR(g, N); THROWS_IFF(f.n + g.n > N); F r = fc >> gc.c_str(); IS(r, f.n + g.n, i < g.n ? g.e[i] : f.e[i - g.n], ">> C string prepends"); }
LEMMA(shrink_stretch) { STR(f, N); auto a = sprout::shrink<N - 2>(fc); Raw<N - 2> x = un<N - 2>(a); Z n = f.n < N - 2 ? f.n : N - 2; ENSURE(x.n == n, "shrink: length"); for (Z i = 0; i <= N - 2; ++i) ENSURE(x.e[i] == (i < n ? f.e[i] : 0), "shrink keeps the head"); F same = sprout::shrink<N>(fc); IS(same, f.n, f.e[i], "shrink to its own size");
  auto b = sprout::stretch<N + 2>(fc); Raw<N + 2> y = un<N + 2>(b); ENSURE(y.n == f.n, "stretch: length"); for (Z i = 0; i <= N + 2; ++i) ENSURE(y.e[i] == (i < f.n ? f.e[i] : 0), "stretch: contents, cleared behind them"); }
LEMMA(make_str) { ANY(char, a); ANY(char, b); ANY(char, d); REQUIRE(a != 0 && b != 0 && d != 0); auto m = sprout::make_string<char>(a, b, d); Raw<3> x = un<3>(m); ENSURE(x.n == 3 && x.e[0] == a && x.e[1] == b && x.e[2] == d && x.e[3] == 0, "make_string"); auto k = sprout::make_string(a, b); Raw<2> y = un<2>(k); ENSURE(y.n == 2 && y.e[0] == a && y.e[1] == b && y.e[2] == 0, "make_string of deduced type"); }
LEMMA(view_const) { STR(f, N); ANY(Z, n); Z m = n < f.n ? n : f.n; sprout::string_view const v(f.e, f.n); sprout::string_view w = v.remove_prefix(n); ENSURE(w.data() == f.e + m && w.size() == f.n - m, "remove_prefix of a const view"); w = v.remove_suffix(n); ENSURE(w.data() == f.e && w.size() == f.n - m, "remove_suffix of a const view");
  sprout::string_view x(f.e, f.n); x.remove_prefix(n); ENSURE(x.data() == f.e + m && x.size() == f.n - m, "remove_prefix clamps"); x = v; x.remove_suffix(n); ENSURE(x.data() == f.e && x.size() == f.n - m, "remove_suffix clamps"); }
LEMMA(view_at) { STR(f, N); ANY(Z, i); sprout::string_view const v(f.e, f.n); THROWS_IFF(i >= f.n); ENSURE(&v.at(i) == f.e + i, "view at"); }
LEMMA(view_parts) { STR(f, N); ANY(char, ch); sprout::string_view v(f.e, f.n); ENSURE(v.size() == f.n && v.length() == f.n && v.empty() == (f.n == 0), "view size"); ENSURE(v.data() == f.e && v.begin() == f.e && v.end() == f.e + f.n, "view range"); ENSURE(v.starts_with(ch) == (f.n && f.e[0] == ch), "starts_with(c)"); ENSURE(v.ends_with(ch) == (f.n && f.e[f.n - 1] == ch), "ends_with(c)");
  if (f.n) { ENSURE(&v.front() == f.e && &v.back() == f.e + f.n - 1 && &v[f.n - 1] == f.e + f.n - 1, "view front, back, []"); ENSURE(v.rbegin()[0] == f.e[f.n - 1], "view rbegin"); } F g = v.to_string<N>(); IS(g, f.n, f.e[i], "string of view"); }
LEMMA(view_ends) { STR(f, N); STR(g, N - 1); sprout::string_view v(f.e, f.n), w(g.e, g.n); bool a = g.n <= f.n, b = a; for (Z i = 0; i + 1 < N; ++i) if (i < g.n && g.n <= f.n) { a = a && f.e[i] == g.e[i]; b = b && f.e[f.n - g.n + i] == g.e[i]; } ENSURE(v.starts_with(w) == a, "starts_with"); ENSURE(v.ends_with(w) == b, "ends_with"); }
LEMMA(npos) { ANY(Z, x); Z const m = ~Z(0); auto const np = sprout::npos; ENSURE(Z(np) == m, "npos is the largest position"); ENSURE((x == np) == (x == m) && (np == x) == (x == m), "== npos"); ENSURE((x != np) == (x != m) && (np != x) == (x != m), "!= npos"); ENSURE((x < np) == (x < m) && (np < x) == (m < x), "< npos"); ENSURE((x > np) == (x > m) && (np > x) == (m > x), "> npos"); ENSURE((x <= np) == (x <= m) && (np <= x) == (m <= x), "<= npos"); ENSURE((x >= np) == (x >= m) && (np >= x) == (m >= x), ">= npos");
  ENSURE(np == np && !(np != np) && !(np < np) && !(np > np) && np <= np && np >= np, "npos and npos"); ANY(unsigned, y); ENSURE((y < np) == (y < ~0u) && (np < y) == false && (y <= np) && (np >= y) && (np <= y) == (y == ~0u), "npos of unsigned"); }
LEMMA(concat) { STR(f, N); STR(g, N - 1); auto r = fc + gc; Raw<N + N - 1> x = un<N + N - 1>(r); ENSURE(x.n == f.n + g.n, "+ length"); for (Z i = 0; i < N + N; ++i) { ENSURE(x.e[i] == (i < f.n ? f.e[i] : i < f.n + g.n ? g.e[i - f.n] : 0), "+ contents"); } }
LEMMA(concat_c) { STR(f, N); ANY(char, ch); REQUIRE(ch != 0); auto r = fc + ch; Raw<N + 1> x = un<N + 1>(r); ENSURE(x.n == f.n + 1, "+ c length"); for (Z i = 0; i < N + 2; ++i) { ENSURE(x.e[i] == (i < f.n ? f.e[i] : i == f.n ? ch : 0), "+ c contents"); } auto s = ch + fc; x = un<N + 1>(s); ENSURE(x.n == f.n + 1, "c + length"); for (Z i = 0; i < N + 2; ++i) { ENSURE(x.e[i] == (i == 0 ? ch : i <= f.n ? f.e[i - 1] : 0), "c + contents"); } }
"""


def natives(tier):
    return [Native('string_native', NAT, secs=(8, 60))]


def units(tier):
    return [Unit('view', VIEW.replace('CH', 'char'), strs('i8'), ext=EXT), Unit('wview', VIEW.replace('CH', 'wchar_t'), strs('i32'), ext=EXT),
            lemmas('string_members', (PRE + MEM).replace('CAP', '4' if tier == 'quick' else '7'), mode='bv'),
            lemmas('string_searches', (PRE + SRCH).replace('CAP', '2' if tier == 'quick' else '4'), mode='bv')]
