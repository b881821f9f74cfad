"""container-returning algorithms (sprout::fixed, sprout::fit) on arrays and sub ranges of arrays"""
from svc.driver import lemmas, Native

HEAD = r'''
#include "native.hpp"
#include <iterator>
#include <numeric>
#include <sprout/algorithm.hpp>
#include <sprout/algorithm/fixed.hpp>
#include <sprout/algorithm/fit.hpp>
#include <sprout/array.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/container.hpp>
#include <sprout/tuple.hpp>
#include <sprout/operation.hpp>
#include <sprout/random.hpp>
using namespace svc;
static std::uint64_t g_mask; static int g_key[32]; static int g_eqm; static std::string in;
struct P { constexpr P() {} bool operator()(int x) const { return g_mask >> (x & 31) & 1; } };
struct Lt { constexpr Lt() {} bool operator()(int a, int b) const { return g_key[a & 31] < g_key[b & 31]; } };
struct Eq { constexpr Eq() {} bool operator()(int a, int b) const { return g_eqm ? a % g_eqm == b % g_eqm : a == b; } };
struct F1 { int operator()(int a) const { return a * 5 + 11; } };
struct F2 { int operator()(int a, int b) const { return a * 31 + b * 7 + 3; } };
// iterators of each category over int const*
template<class Tag> struct Cat { typedef Tag iterator_category; typedef int value_type; typedef std::ptrdiff_t difference_type; typedef int const* pointer; typedef int const& reference;
  int const* p; Cat() : p(0) {} explicit Cat(int const* q) : p(q) {} reference operator*() const { return *p; } Cat& operator++() { ++p; return *this; } Cat operator++(int) { Cat t(*this); ++p; return t; }
  Cat& operator--() { --p; return *this; } Cat operator--(int) { Cat t(*this); --p; return t; } bool operator==(Cat o) const { return p == o.p; } bool operator!=(Cat o) const { return p != o.p; } };
typedef Cat<std::forward_iterator_tag> Fwd; typedef Cat<std::bidirectional_iterator_tag> Bid;
struct Out { std::vector<int> v; void put(int x) { v.push_back(x); } };
std::string str(std::vector<int> const& v) { std::string s = "{"; for (int x : v) s += std::to_string(x) + ","; return s + "}"; }
std::vector<int> orig;
template<class R> std::vector<int> all(R const& r) { return std::vector<int>(sprout::internal_begin(r), sprout::internal_end(r)); }
template<class R> std::size_t off(R const& r) { return sprout::internal_begin_offset(r); }
// fixed result: expected elements at the front of the (sub)range, everything else unchanged
template<class Res, class R> void fx(char const* what, R const& r, Res const& o, std::vector<int> e, bool back = false) {
  std::vector<int> x = all(o); std::size_t n = sprout::size(o), b = off(o), k = std::min(n, e.size());
  if (back) std::copy(e.end() - k, e.end(), x.begin() + b + n - k); else std::copy(e.begin(), e.begin() + k, x.begin() + b);
  CK(sprout::size(r) == n && off(r) == b, what, in, "size", sprout::size(r), "expected", n); CK(all(r) == x, what, in, "original", str(all(o)), "got", str(all(r)), "expected", str(x)); }
// fit result: exactly the expected elements
template<class Res, class R> void ft(char const* what, R const& r, Res const& o, std::vector<int> e, bool back = false, bool rest = true) {
  std::size_t n = sprout::size(o), k = std::min(n, e.size()); std::vector<int> x = back ? std::vector<int>(e.end() - k, e.end()) : std::vector<int>(e.begin(), e.begin() + k), g(sprout::begin(r), sprout::end(r));
  CK(g == x, what, in, "got", str(g), "expected", str(x)); if (rest) fx(what, sprout::sub_array<typename R::internal_type>(sprout::get_internal(r), off(o), off(o) + n), sprout::sub_array<typename R::internal_type>(sprout::get_internal(o), off(o), off(o) + n), e, back); }
'''
COPIES = r'''
#define B(name, args, e) do { std::vector<int> svc_e = e; fx("fixed::" #name, sprout::fixed::name args, o, svc_e); ft("fit::" #name, sprout::fit::name args, o, svc_e); fx("sprout::" #name, sprout::name args, o, svc_e); } while (0)
// the result container named by its type: the remaining elements are value-initialised
typedef sprout::array<int, 4> Res;
#define TY(name, args, e) do { std::vector<int> svc_e = e; Res svc_o = {{0, 0, 0, 0}}; fx("fixed::" #name "<Result>", sprout::fixed::name<Res> args, svc_o, svc_e); fx("sprout::" #name "<Result>", sprout::name<Res> args, svc_o, svc_e); } while (0)
#define BB(name, args, e) do { std::vector<int> svc_e = e; fx("fixed::" #name, sprout::fixed::name args, o, svc_e, true); ft("fit::" #name, sprout::fit::name args, o, svc_e, true); } while (0)
template<class F> std::vector<int> ref(F f) { std::vector<int> v; f(std::back_inserter(v)); return v; }
#define REF(...) ref([&](std::back_insert_iterator<std::vector<int> > d) { __VA_ARGS__; })
typedef std::vector<int> V;
void parted(char const* what, V const& g, V const& q, std::size_t c) { CK(std::is_permutation(g.begin(), g.end(), q.begin()) && std::all_of(g.begin(), g.begin() + c, P()) && std::none_of(g.begin() + c, g.end(), P()), what, in, "got", str(g)); }
template<class I, class O> void copies(Rng& r, O const& o, V const& s, V const& t, char const* cat) {
  Buf<int> S(s), T(t); I f(S.p), l(S.p + S.n), g(T.p), m(T.p + T.n); int n = (int)s.size(), k = (int)r.range(0, n), a = (int)r.range(0, 5), b = (int)r.range(0, 5); I mid(S.p + k);
  int lo = std::min(a, b), hi = std::max(a, b);
  in = std::string(cat) + " source=" + str(s) + " k=" + std::to_string(k) + " a=" + std::to_string(a) + " b=" + std::to_string(b) + " second=" + str(t) + " result=" + str(all(o)) + " from " + std::to_string(off(o)) + " size " + std::to_string(sprout::size(o));
  do { B(copy, (f, l, o), s); TY(copy, (f, l), s); } while (0); do { B(copy_n, (f, k, o), V(s.begin(), s.begin() + k)); TY(copy_n, (f, k), V(s.begin(), s.begin() + k)); } while (0); do { B(copy_if, (f, l, o, P()), REF(std::copy_if(s.begin(), s.end(), d, P()))); TY(copy_if, (f, l, P()), REF(std::copy_if(s.begin(), s.end(), d, P()))); } while (0);
  { V w, u; for (int x : s) { if (!P()(x)) break; w.push_back(x); } for (int x : s) { if (P()(x)) break; u.push_back(x); } do { B(copy_while, (f, l, o, P()), w); TY(copy_while, (f, l, P()), w); } while (0); do { B(copy_until, (f, l, o, P()), u); TY(copy_until, (f, l, P()), u); } while (0); }
  do { B(remove_copy, (f, l, o, a), REF(std::remove_copy(s.begin(), s.end(), d, a))); TY(remove_copy, (f, l, a), REF(std::remove_copy(s.begin(), s.end(), d, a))); } while (0); do { B(remove_copy_if, (f, l, o, P()), REF(std::remove_copy_if(s.begin(), s.end(), d, P()))); TY(remove_copy_if, (f, l, P()), REF(std::remove_copy_if(s.begin(), s.end(), d, P()))); } while (0);
  do { B(replace_copy, (f, l, o, a, b), REF(std::replace_copy(s.begin(), s.end(), d, a, b))); TY(replace_copy, (f, l, a, b), REF(std::replace_copy(s.begin(), s.end(), d, a, b))); } while (0); do { B(replace_copy_if, (f, l, o, P(), b), REF(std::replace_copy_if(s.begin(), s.end(), d, P(), b))); TY(replace_copy_if, (f, l, P(), b), REF(std::replace_copy_if(s.begin(), s.end(), d, P(), b))); } while (0);
  do { B(rotate_copy, (f, mid, l, o), REF(std::rotate_copy(s.begin(), s.begin() + k, s.end(), d))); TY(rotate_copy, (f, mid, l), REF(std::rotate_copy(s.begin(), s.begin() + k, s.end(), d))); } while (0);
  do { B(transform, (f, l, o, F1()), REF(std::transform(s.begin(), s.end(), d, F1()))); TY(transform, (f, l, F1()), REF(std::transform(s.begin(), s.end(), d, F1()))); } while (0); if (t.size() >= s.size()) do { B(transform, (f, l, g, o, F2()), REF(std::transform(s.begin(), s.end(), t.begin(), d, F2()))); TY(transform, (f, l, g, F2()), REF(std::transform(s.begin(), s.end(), t.begin(), d, F2()))); } while (0);
  do { B(unique_copy, (f, l, o), REF(std::unique_copy(s.begin(), s.end(), d))); TY(unique_copy, (f, l), REF(std::unique_copy(s.begin(), s.end(), d))); } while (0); do { B(unique_copy, (f, l, o, Eq()), REF(std::unique_copy(s.begin(), s.end(), d, Eq()))); TY(unique_copy, (f, l, Eq()), REF(std::unique_copy(s.begin(), s.end(), d, Eq()))); } while (0);
  { V q(s.begin(), s.begin() + std::min(s.size(), (std::size_t)sprout::size(o))); std::size_t c = std::count_if(q.begin(), q.end(), P()); auto x = sprout::fixed::partition_copy(f, l, o, P()); V g(sprout::begin(x), sprout::begin(x) + q.size()); fx("fixed::partition_copy keeps the rest", x, o, g); parted("fixed::partition_copy", g, q, c); auto y = sprout::fit::partition_copy(f, l, o, P()); CK(V(sprout::begin(y), sprout::end(y)) == V(g.begin(), g.begin() + c), "fit::partition_copy", in); }
  do { B(clamp_range_copy, (f, l, o, lo, hi), REF(std::transform(s.begin(), s.end(), d, [&](int x) { return x < lo ? lo : hi < x ? hi : x; }))); TY(clamp_range_copy, (f, l, lo, hi), REF(std::transform(s.begin(), s.end(), d, [&](int x) { return x < lo ? lo : hi < x ? hi : x; }))); } while (0);
  if (n) { int i = (int)r.range(0, n - 1), j = (int)r.range(0, n - 1); V w = s; std::swap(w[i], w[j]); in += " positions " + std::to_string(i) + "," + std::to_string(j); do { B(swap_element_copy, (f, l, o, I(S.p + i), I(S.p + j)), w); TY(swap_element_copy, (f, l, I(S.p + i), I(S.p + j)), w); } while (0); }
}
template<class I, class O> void copies_bid(Rng& r, O const& o, V const& s, char const* cat) {
  Buf<int> S(s); I f(S.p), l(S.p + S.n); in = std::string(cat) + " source=" + str(s) + " result=" + str(all(o)) + " from " + std::to_string(off(o)) + " size " + std::to_string(sprout::size(o));
  do { B(reverse_copy, (f, l, o), V(s.rbegin(), s.rend())); TY(reverse_copy, (f, l), V(s.rbegin(), s.rend())); } while (0); BB(copy_backward, (f, l, o), s);
  { V p, q; for (int x : s) (P()(x) ? p : q).push_back(x); V t2(p); t2.insert(t2.end(), q.begin(), q.end()); fx("fixed::stable_partition_copy", sprout::fixed::stable_partition_copy(f, l, o, P()), o, t2); ft("fit::stable_partition_copy", sprout::fit::stable_partition_copy(f, l, o, P()), o, p, false, false); }
}
template<class I, class O> void sets(Rng& r, O const& o, V s, V t, char const* cat) {
  for (int w = 0; w < 2; ++w) { if (w) { std::stable_sort(s.begin(), s.end(), Lt()); std::stable_sort(t.begin(), t.end(), Lt()); } else { std::sort(s.begin(), s.end()); std::sort(t.begin(), t.end()); }
    Buf<int> S(s), T(t); I f(S.p), l(S.p + S.n), g(T.p), m(T.p + T.n); in = std::string(cat) + " source=" + str(s) + " second=" + str(t) + " result=" + str(all(o)) + " from " + std::to_string(off(o)) + " size " + std::to_string(sprout::size(o));
#define SET(name) if (w) do { B(name, (f, l, g, m, o, Lt()), REF(std::name(s.begin(), s.end(), t.begin(), t.end(), d, Lt()))); TY(name, (f, l, g, m, Lt()), REF(std::name(s.begin(), s.end(), t.begin(), t.end(), d, Lt()))); } while (0); else do { B(name, (f, l, g, m, o), REF(std::name(s.begin(), s.end(), t.begin(), t.end(), d))); TY(name, (f, l, g, m), REF(std::name(s.begin(), s.end(), t.begin(), t.end(), d))); } while (0);
    SET(merge) SET(set_union) SET(set_intersection) SET(set_difference) SET(set_symmetric_difference) }
}
template<std::size_t N> void one(Run& R) {
  Rng& r = R.r; g_mask = r.chance(3) ? r.next() : r.chance(2) ? r.next() & r.next() : r.next() | r.next(); int w = (int)r.range(1, 6); for (int& k : g_key) k = (int)r.range(0, w); g_eqm = r.chance(2) ? 0 : (int)r.range(1, 4);
  int top = (int)r.range(1, 6); auto vec = [&](int n) { V v(n); for (int& x : v) x = (int)r.range(0, top); return v; };
  sprout::array<int, N> a; for (int& x : a) x = 100 + (int)r.range(0, 9); int i = (int)r.range(0, N), j = (int)r.range(0, N); if (i > j) std::swap(i, j); sprout::sub_array<sprout::array<int, N> > u(a, i, j);
  V s = vec((int)r.range(0, r.chance(3) ? 2 * N : N)), t = vec((int)r.range(0, N + 1)); if (r.chance(2)) t.resize(std::max(t.size(), s.size())); R.note(svc::hash(s));
  switch (r.range(0, 5)) {
    case 0: copies<int const*>(r, a, s, t, "pointer"); copies_bid<int const*>(r, a, s, "pointer"); sets<int const*>(r, a, s, t, "pointer"); break;
    case 1: copies<Fwd>(r, a, s, t, "forward"); sets<Fwd>(r, a, s, t, "forward"); break;
    case 2: copies<Bid>(r, a, s, t, "bidirectional"); copies_bid<Bid>(r, a, s, "bidirectional"); break;
    case 3: copies<int const*>(r, u, s, t, "pointer"); copies_bid<int const*>(r, u, s, "pointer"); sets<int const*>(r, u, s, t, "pointer"); break;
    case 4: copies<Fwd>(r, u, s, t, "forward"); sets<Fwd>(r, u, s, t, "forward"); break;
    default: copies<Bid>(r, u, s, t, "bidirectional"); copies_bid<Bid>(r, u, s, "bidirectional"); break; }
}
int main(int argc, char** argv) { Run R(argc, argv); while (R.more()) switch (R.r.range(0, 2)) { case 0: one<2>(R); break; default: one<5>(R); } return R.done(); }
'''
CONTS = r'''
typedef std::vector<int> V;
#define B(name, args, e) do { std::vector<int> svc_e = e; fx("fixed::" #name, sprout::fixed::name args, o, svc_e); ft("fit::" #name, sprout::fit::name args, o, svc_e); fx("sprout::" #name, sprout::name args, o, svc_e); } while (0)
#define S(st) ([&] { V v(s); auto b = v.begin(); auto e = v.end(); (void)b; (void)e; st; return v; }())
template<class R> V vals(R const& r) { return V(sprout::begin(r), sprout::end(r)); }
bool perm(V const& a, V const& b) { return a.size() == b.size() && std::is_permutation(a.begin(), a.end(), b.begin()); }
// a reordering result: the same elements, in the stated order, everything outside the (sub)range unchanged
#define ORD(name, args, cond, k) do { auto svc_x = sprout::fixed::name args; V v = vals(svc_x); fx("fixed::" #name " outside the range", svc_x, o, v); fx("sprout::" #name " like fixed::" #name, sprout::name args, o, v); CK(perm(v, s) && (cond), "fixed::" #name, in, "got", str(v)); \
  auto svc_y = sprout::fit::name args; v = V(v.begin(), v.begin() + (k)); CK(vals(svc_y) == v, "fit::" #name, in, "got", str(vals(svc_y)), "expected", str(v)); } while (0)
struct Gen { int s; template<class T> struct R; typedef unsigned result_type; unsigned operator()() { s = s * 1103515245 + 12345; return (unsigned)s >> 16 & 0x7fff; } static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return 0x7fff; } };
struct Step { int x; sprout::tuple<int, Step> operator()() const { return sprout::tuple<int, Step>(x, Step{x * 3 + 1}); } };
struct Unf { sprout::tuple<int, int> operator()(int x) const { return sprout::tuple<int, int>(x * 2 + 1, x + 5); } };
struct G0 { int operator()() const { return 7; } }; struct G1 { int operator()(int a) const { return a * 3 + 1; } }; struct G2 { int operator()(int a, int b) const { return a * 2 + b; } };
template<class O> void conts(Rng& r, O const& o) {
  V s = vals(o); int n = (int)s.size(), k = (int)r.range(0, n), a = (int)r.range(0, 5), b = (int)r.range(0, 5), lo = std::min(a, b), hi = std::max(a, b); auto mid = sprout::begin(o) + k; Lt lt; std::less<int> le;
  auto show = [&] { in = "container=" + str(all(o)) + " from " + std::to_string(off(o)) + " size " + std::to_string(n) + " k=" + std::to_string(k) + " a=" + std::to_string(a) + " b=" + std::to_string(b); }; show();
  B(fill, (o, a), V(n, a)); B(fill_n, (o, k, a), V(k, a)); B(reverse, (o), V(s.rbegin(), s.rend())); B(rotate, (o, mid), S(std::rotate(b, b + k, e)));
  { V v(s); v.erase(std::remove(v.begin(), v.end(), a), v.end()); B(remove, (o, a), v); v = s; v.erase(std::remove_if(v.begin(), v.end(), P()), v.end()); B(remove_if, (o, P()), v);
    v = s; v.erase(std::unique(v.begin(), v.end()), v.end()); B(unique, (o), v); v = s; v.erase(std::unique(v.begin(), v.end(), Eq()), v.end()); B(unique, (o, Eq()), v); }
  B(replace, (o, a, b), ([&] { V v(s); std::replace(v.begin(), v.end(), a, b); return v; }())); B(replace_if, (o, P(), b), ([&] { V v(s); std::replace_if(v.begin(), v.end(), P(), b); return v; }()));
  B(clamp_range, (o, lo, hi), ([&] { V v(s); for (int& x : v) x = x < lo ? lo : hi < x ? hi : x; return v; }()));
  { std::size_t c = std::count_if(s.begin(), s.end(), P()); ORD(partition, (o, P()), std::all_of(v.begin(), v.begin() + c, P()) && std::none_of(v.begin() + c, v.end(), P()), c); V w(s); std::stable_partition(w.begin(), w.end(), P()); ORD(stable_partition, (o, P()), v == w, c); }
  V w(s), u(s); std::stable_sort(w.begin(), w.end()); std::stable_sort(u.begin(), u.end(), lt);
  ORD(sort, (o), v == w, n); ORD(sort, (o, lt), std::is_sorted(v.begin(), v.end(), lt), n); ORD(stable_sort, (o), v == w, n); ORD(stable_sort, (o, lt), v == u, n);
  ORD(partial_sort, (o, mid), std::equal(w.begin(), w.begin() + k, v.begin()), k); ORD(partial_sort, (o, mid, lt), std::is_sorted(v.begin(), v.begin() + k, lt) && std::none_of(v.begin() + k, v.end(), [&](int x) { return k && lt(x, v[k - 1]); }), k);
  if (k < n) { ORD(nth_element, (o, mid), v[k] == w[k] && std::all_of(v.begin(), v.begin() + k, [&](int x) { return x <= v[k]; }) && std::all_of(v.begin() + k, v.end(), [&](int x) { return v[k] <= x; }), k + 1);
    ORD(nth_element, (o, mid, lt), std::none_of(v.begin(), v.begin() + k, [&](int x) { return lt(v[k], x); }) && std::none_of(v.begin() + k, v.end(), [&](int x) { return lt(x, v[k]); }), k + 1);
    int j = (int)r.range(0, n - 1); auto q = sprout::begin(o) + j; B(swap_element, (o, mid, q), S(std::swap(v[k], v[j]))); }
  ORD(make_heap, (o), std::is_heap(v.begin(), v.end()), n); ORD(make_heap, (o, lt), std::is_heap(v.begin(), v.end(), lt), n);
  ORD(make_partial_heap, (o, mid), std::is_heap(v.begin(), v.begin() + k) && (k == 0 || std::all_of(v.begin() + k, v.end(), [&](int x) { return v[0] <= x; })), k);
  { V v(s); bool f = std::next_permutation(v.begin(), v.end()); auto x = sprout::fixed::next_permutation(o); fx("fixed::next_permutation", x.first, o, v); CK(x.second == f, "fixed::next_permutation flag", in); auto y = sprout::fit::next_permutation(o); CK(vals(y.first) == v && y.second == f, "fit::next_permutation", in);
    v = s; f = std::prev_permutation(v.begin(), v.end(), lt); auto z = sprout::fixed::prev_permutation(o, lt); fx("fixed::prev_permutation", z.first, o, v); CK(z.second == f, "fixed::prev_permutation flag", in); }
  { sprout::minstd_rand0 const g(r.next() % 1000000 + 1); ORD(shuffle, (o, g), true, n); auto x = sprout::fixed::shuffle_result(o, g); CK(perm(vals(x.first), s), "fixed::shuffle_result", in); ORD(random_swap, (o, g), true, n); }
  B(generate, (o, Step{a}), ([&] { V v(n); int c = a; for (int& x : v) { x = c; c = c * 3 + 1; } return v; }())); B(generate_n, (o, k, Step{a}), ([&] { V v(k); int c = a; for (int& x : v) { x = c; c = c * 3 + 1; } return v; }()));
  B(unfold, (o, Unf(), a), ([&] { V v(n); int c = a; for (int& x : v) { x = c * 2 + 1; c += 5; } return v; }())); B(unfold_n, (o, k, Unf(), a), ([&] { V v(k); int c = a; for (int& x : v) { x = c * 2 + 1; c += 5; } return v; }()));
  B(recurrence, (o, G0()), V(n, 7)); if (n >= 1) B(recurrence, (o, G1(), a), ([&] { V v(1, a); while ((int)v.size() < n) v.push_back(v.back() * 3 + 1); return v; }())); if (n >= 2) B(recurrence, (o, G2(), a, b), ([&] { V v{a, b}; while ((int)v.size() < n) v.push_back(v[v.size() - 2] * 2 + v.back()); return v; }()));
  B(recurrence_n, (o, k, G0()), V(k, 7)); if (k >= 2) B(recurrence_n, (o, k, G2(), a, b), ([&] { V v{a, b}; while ((int)v.size() < k) v.push_back(v[v.size() - 2] * 2 + v.back()); return v; }()));
}
template<class O> void mids(Rng& r, O const& o, int mode) { // o has been given the precondition
  V s = vals(o); int n = (int)s.size(); std::string base = "container=" + str(all(o)) + " from " + std::to_string(off(o)) + " size " + std::to_string(n); V w(s); Lt lt;
  if (mode < 100) { int k = mode; in = base + " middle " + std::to_string(k); auto mid = sprout::begin(o) + k; std::inplace_merge(w.begin(), w.begin() + k, w.end(), lt); ORD(inplace_merge, (o, mid, lt), v == w, n); }
  else if (mode == 100) { in = base; ORD(push_heap, (o, lt), std::is_heap(v.begin(), v.end(), lt), n); }
  else { in = base; ORD(pop_heap, (o, lt), std::is_heap(v.begin(), v.end() - 1, lt) && std::none_of(v.begin(), v.end(), [&](int x) { return lt(v.back(), x); }), n - 1); ORD(sort_heap, (o, lt), std::is_sorted(v.begin(), v.end(), lt), n); }
}
template<std::size_t N> void one(Run& R) {
  Rng& r = R.r; g_mask = r.chance(3) ? r.next() : r.chance(2) ? r.next() & r.next() : r.next() | r.next(); int w = (int)r.range(1, 6); for (int& k : g_key) k = (int)r.range(0, w); g_eqm = r.chance(2) ? 0 : (int)r.range(1, 4);
  int top = (int)r.range(0, 6); sprout::array<int, N> a; for (int& x : a) x = (int)r.range(0, top); R.note(svc::hash(std::vector<int>(a.begin(), a.end()))); int i = (int)r.range(0, N), j = (int)r.range(0, N); if (i > j) std::swap(i, j); bool sub = r.chance(2); if (!sub) { i = 0; j = N; }
  if (sub) conts(r, sprout::sub_array<sprout::array<int, N> >(a, i, j)); else conts(r, a);
  int k = (int)r.range(0, j - i); Lt lt; auto b = a.begin() + i, e = a.begin() + j;
  auto go = [&](int m) { if (sub) mids(r, sprout::sub_array<sprout::array<int, N> >(a, i, j), m); else mids(r, a, m); };
  std::stable_sort(b, b + k, lt); std::stable_sort(b + k, e, lt); go(k);
  if (j > i) { std::make_heap(b, e - 1, lt); go(100); std::make_heap(b, e, lt); go(101); }
}
int main(int argc, char** argv) { Run R(argc, argv); while (R.more()) switch (R.r.range(0, 2)) { case 0: one<1>(R); break; default: one<4>(R); } return R.done(); }
'''


def natives(tier):
    return [Native('fixed_copies_native', HEAD + COPIES, std='c++17', flags=['-O0'], secs=(8, 60)), Native('fixed_containers_native', HEAD + CONTS, std='c++17', flags=['-O0'], secs=(8, 60))]


SRC = r'''
#include <iterator>
#include <sprout/algorithm.hpp>
#include <sprout/algorithm/fixed.hpp>
#include <sprout/algorithm/fit.hpp>
#include <sprout/array.hpp>
#include <sprout/sub_array.hpp>
#include <sprout/container.hpp>
#include <sprout/tuple.hpp>
struct P { int m; bool operator()(int x) const { return x < m; } };
struct Lt { int m, k; int key(int x) const { return (x < m ? 0 : 1) + (x < k ? 0 : 1); } bool operator()(int a, int b) const { return key(a) < key(b); } };
struct F1 { unsigned k; int operator()(int a) const { return (int)((unsigned)a + k); } };
struct F2 { int operator()(int a, int b) const { return (int)((unsigned)a - (unsigned)b); } };
template<class Tag> struct Cat { typedef Tag iterator_category; typedef int value_type; typedef std::ptrdiff_t difference_type; typedef int const* pointer; typedef int const& reference;
  int const* p; Cat() : p(0) {} explicit Cat(int const* q) : p(q) {} reference operator*() const { return *p; } Cat& operator++() { ++p; return *this; } Cat operator++(int) { Cat t(*this); ++p; return t; }
  Cat& operator--() { --p; return *this; } Cat operator--(int) { Cat t(*this); --p; return t; } bool operator==(Cat o) const { return p == o.p; } bool operator!=(Cat o) const { return p != o.p; } };
typedef Cat<std::forward_iterator_tag> Fwd; typedef Cat<std::bidirectional_iterator_tag> Bid; typedef int const* Ptr;
enum { M = NN + 1 };  // sources may be longer than the result
struct Out { int v[M]; int n; Out() : n(0) { for (int i = 0; i < M; ++i) v[i] = 0; } void put(int x) { for (int i = 0; i < M; ++i) if (i == n) v[i] = x; ++n; } };
// result container: an array, or the part [b, e) of one
#define RES ANY_ARR(int, res, NN); sprout::array<int, NN> o; for (int svc_k = 0; svc_k < NN; ++svc_k) o[svc_k] = res[svc_k]; int const b = 0, size = NN
#define SUB ANY_ARR(int, res, NN); ANY_IN(int, b, 0, NN); ANY_IN(int, e, 0, NN); REQUIRE(b <= e); int const size = e - b; sprout::array<int, NN> o0; for (int svc_k = 0; svc_k < NN; ++svc_k) o0[svc_k] = res[svc_k]; sprout::sub_array<sprout::array<int, NN> > const o(o0, b, e)
#define SRC ANY_ARR(int, s, M); ANY_IN(int, n, 0, M)
#define SRC2 ANY_ARR(int, t, NN); ANY_IN(int, m, 0, NN)
template<class R> int at(R const& r, int i) { return *(sprout::internal_begin(r) + i); }
// the elements of x at the front of the result range, everything else unchanged
#define FX(r, x, what) do { auto const svc_r = (r); ENSURE((int)sprout::size(svc_r) == size, what " size"); ENSURE((int)sprout::internal_begin_offset(svc_r) == b, what " start"); for (int svc_k = 0; svc_k < NN; ++svc_k) { int svc_j = svc_k - b; ENSURE(at(svc_r, svc_k) == (svc_j >= 0 && svc_j < size && svc_j < x.n ? x.v[svc_j < 0 ? 0 : svc_j] : res[svc_k]), what); } } while (0)
#define FT(r, x, what) do { auto const svc_r = (r); int svc_n = x.n < size ? x.n : size; ENSURE((int)sprout::size(svc_r) == svc_n, what " size"); for (int svc_k = 0; svc_k < NN; ++svc_k) if (svc_k < svc_n) ENSURE(*(sprout::begin(svc_r) + svc_k) == x.v[svc_k], what); } while (0)
#define BOTH(name, args, x) FX(sprout::fixed::name args, x, "fixed::" #name); FT(sprout::fit::name args, x, "fit::" #name)
#define ALL for (int i = 0; i < M; ++i) if (i < n)
'''
# name -> (iterators, lemma body); RR stands for the result container
COPY = {
    'copy': ('PFB', 'RR; SRC; II f(s), l(s + n); Out x; ALL x.put(s[i]); BOTH(copy, (f, l, o), x);'),
    'copy_n': ('PFB', 'RR; SRC; II f(s); Out x; ALL x.put(s[i]); BOTH(copy_n, (f, n, o), x);'),
    'copy_if': ('PF', 'RR; SRC; ANY(int, pm); P p{pm}; II f(s), l(s + n); Out x; ALL if (p(s[i])) x.put(s[i]); BOTH(copy_if, (f, l, o, p), x);'),
    'copy_while': ('PF', 'RR; SRC; ANY(int, pm); P p{pm}; II f(s), l(s + n); Out x; bool go = true; ALL { go = go && p(s[i]); if (go) x.put(s[i]); } BOTH(copy_while, (f, l, o, p), x);'),
    'copy_until': ('PF', 'RR; SRC; ANY(int, pm); P p{pm}; II f(s), l(s + n); Out x; bool go = true; ALL { go = go && !p(s[i]); if (go) x.put(s[i]); } BOTH(copy_until, (f, l, o, p), x);'),
    'remove_copy': ('PF', 'RR; SRC; ANY(int, v); II f(s), l(s + n); Out x; ALL if (s[i] != v) x.put(s[i]); BOTH(remove_copy, (f, l, o, v), x);'),
    'remove_copy_if': ('PF', 'RR; SRC; ANY(int, pm); P p{pm}; II f(s), l(s + n); Out x; ALL if (!p(s[i])) x.put(s[i]); BOTH(remove_copy_if, (f, l, o, p), x);'),
    'replace_copy': ('PF', 'RR; SRC; ANY(int, v); ANY(int, w); II f(s), l(s + n); Out x; ALL x.put(s[i] == v ? w : s[i]); BOTH(replace_copy, (f, l, o, v, w), x);'),
    'replace_copy_if': ('PF', 'RR; SRC; ANY(int, pm); ANY(int, w); P p{pm}; II f(s), l(s + n); Out x; ALL x.put(p(s[i]) ? w : s[i]); BOTH(replace_copy_if, (f, l, o, p, w), x);'),
    'transform': ('PF', 'RR; SRC; ANY(unsigned, k); F1 g{k}; II f(s), l(s + n); Out x; ALL x.put(g(s[i])); BOTH(transform, (f, l, o, g), x);'),
    'transform2': ('PF', 'RR; SRC; ANY_ARR(int, t, M); F2 g; II f(s), l(s + n), h(t); Out x; ALL x.put(g(s[i], t[i])); BOTH(transform, (f, l, h, o, g), x);'),
    'unique_copy': ('PF', 'RR; SRC; II f(s), l(s + n); Out x; ALL if (i == 0 || s[i] != s[i ? i - 1 : 0]) x.put(s[i]); BOTH(unique_copy, (f, l, o), x);'),
    'rotate_copy': ('PFB', 'RR; SRC; ANY_IN(int, k, 0, M); REQUIRE(k <= n); II f(s), h(s + k), l(s + n); Out x; ALL if (i >= k) x.put(s[i]); ALL if (i < k) x.put(s[i]); BOTH(rotate_copy, (f, h, l, o), x);'),
    'clamp_range_copy': ('PF', 'RR; SRC; ANY(int, v); ANY(int, w); REQUIRE(v <= w); II f(s), l(s + n); Out x; ALL x.put(s[i] < v ? v : w < s[i] ? w : s[i]); BOTH(clamp_range_copy, (f, l, o, v, w), x);'),
    'swap_element_copy': ('PF', 'RR; SRC; ANY_IN(int, j, 0, M); ANY_IN(int, k, 0, M); REQUIRE(j < n && k < n); II f(s), l(s + n), p(s + j), q(s + k); Out x; ALL x.put(i == j ? s[k] : i == k ? s[j] : s[i]); BOTH(swap_element_copy, (f, l, o, p, q), x);'),
    'reverse_copy': ('PB', 'RR; SRC; II f(s), l(s + n); Out x; for (int i = M; i-- > 0; ) if (i < n) x.put(s[i]); BOTH(reverse_copy, (f, l, o), x);'),
    'copy_backward': ('PB', 'RR; SRC; II f(s), l(s + n); auto const r = sprout::fixed::copy_backward(f, l, o); int from = n > size ? size : n; for (int i = 0; i < NN; ++i) { int d = b + size - i; bool in = d >= 1 && d <= from; ENSURE(at(r, i) == (in ? s[in ? n - d : 0] : res[i]), "copy_backward"); }'),
}
# sorted inputs that fit: the fit result is sorted and holds every value v as often as the operation says; the fixed result is that followed by the old elements
def setop(name, count):
    return ('RR; ANY_ARR(int, s, NN); ANY_ARR(int, t, NN); ANY_IN(int, n, 0, NN); ANY_IN(int, m, 0, NN); REQUIRE(n + m <= size); for (int i = 0; i + 1 < NN; ++i) { if (i + 1 < n) REQUIRE(s[i] <= s[i + 1]); if (i + 1 < m) REQUIRE(t[i] <= t[i + 1]); } '
            'II f(s), l(s + n), g(t), h(t + m); ANY(int, v); int cs = 0, ct = 0, c = 0; for (int i = 0; i < NN; ++i) { if (i < n && s[i] == v) ++cs; if (i < m && t[i] == v) ++ct; } '
            'auto const r = sprout::fit::NAME(f, l, g, h, o); int k = (int)sprout::size(r); ENSURE(k >= 0 && k <= size, "fit NAME size"); ENSURE((int)sprout::internal_begin_offset(r) == b, "fit NAME start"); '
            'int w[NN]; for (int i = 0; i < NN; ++i) { w[i] = i < k ? *(sprout::begin(r) + (i < k ? i : 0)) : 0; if (i < k && w[i] == v) ++c; if (i && i < k) ENSURE(w[i ? i - 1 : 0] <= w[i], "fit NAME is sorted"); } ENSURE(c == (COUNT), "fit NAME count of each value"); '
            'auto const x = sprout::fixed::NAME(f, l, g, h, o); ENSURE((int)sprout::size(x) == size, "fixed NAME size"); for (int i = 0; i < NN; ++i) { int d = i - b; ENSURE(at(x, i) == (d >= 0 && d < k ? w[d < 0 ? 0 : d] : res[i]), "fixed NAME"); }').replace('NAME', name).replace('COUNT', count)


SETS = {n: ('PF', setop(n, c)) for n, c in (('merge', 'cs + ct'), ('set_union', 'cs > ct ? cs : ct'), ('set_intersection', 'cs < ct ? cs : ct'), ('set_difference', 'cs > ct ? cs - ct : 0'), ('set_symmetric_difference', 'cs > ct ? cs - ct : ct - cs'))}
EL = 'for (int i = 0; i < NN; ++i) if (i >= b && i < b + size) '
CONT = {
    'fill': ('P', 'RR; ANY(int, v); Out x; for (int i = 0; i < NN; ++i) if (i < size) x.put(v); BOTH(fill, (o, v), x); ANY_IN(int, k, 0, NN); REQUIRE(k <= size); Out y; for (int i = 0; i < NN; ++i) if (i < k) y.put(v); BOTH(fill_n, (o, k, v), y);'),
    'reverse': ('P', 'RR; Out x; for (int i = NN; i-- > 0; ) if (i >= b && i < b + size) x.put(res[i]); BOTH(reverse, (o), x);'),
    'rotate': ('P', 'RR; ANY_IN(int, k, 0, NN); REQUIRE(k <= size); Out x; ' + EL + 'if (i - b >= k) x.put(res[i]); ' + EL + 'if (i - b < k) x.put(res[i]); BOTH(rotate, (o, sprout::begin(static_cast<decltype(o) const&>(o)) + k), x);'),
    'remove': ('P', 'RR; ANY(int, v); Out x; ' + EL + 'if (res[i] != v) x.put(res[i]); BOTH(remove, (o, v), x);'),
    'remove_if': ('P', 'RR; ANY(int, pm); P p{pm}; Out x; ' + EL + 'if (!p(res[i])) x.put(res[i]); BOTH(remove_if, (o, p), x);'),
    'replace': ('P', 'RR; ANY(int, v); ANY(int, w); Out x; ' + EL + 'x.put(res[i] == v ? w : res[i]); BOTH(replace, (o, v, w), x);'),
    'replace_if': ('P', 'RR; ANY(int, pm); ANY(int, w); P p{pm}; Out x; ' + EL + 'x.put(p(res[i]) ? w : res[i]); BOTH(replace_if, (o, p, w), x);'),
    'unique': ('P', 'RR; Out x; ' + EL + 'if (i == b || res[i] != res[i ? i - 1 : 0]) x.put(res[i]); BOTH(unique, (o), x);'),
    'swap_element': ('P', 'RR; ANY_IN(int, j, 0, NN); ANY_IN(int, k, 0, NN); REQUIRE(j < size && k < size); auto h = sprout::begin(static_cast<decltype(o) const&>(o)); Out x; ' + EL + 'x.put(i - b == j ? res[b + k] : i - b == k ? res[b + j] : res[i]); BOTH(swap_element, (o, h + j, h + k), x);'),
}
ORDERS = {
    'stable_partition_copy': ('PB', 'RR; SRC; ANY(int, pm); P p{pm}; II f(s), l(s + n); Out x, y; ALL if (p(s[i])) { x.put(s[i]); y.put(s[i]); } ALL if (!p(s[i])) x.put(s[i]); FX(sprout::fixed::stable_partition_copy(f, l, o, p), x, "stable_partition_copy"); FT(sprout::fit::stable_partition_copy(f, l, o, p), y, "fit stable_partition_copy");'),
    'stable_partition': ('P', 'RR; ANY(int, pm); P p{pm}; Out x, y; ' + EL + 'if (p(res[i])) { x.put(res[i]); y.put(res[i]); } ' + EL + 'if (!p(res[i])) x.put(res[i]); FX(sprout::fixed::stable_partition(o, p), x, "stable_partition"); FT(sprout::fit::stable_partition(o, p), y, "fit stable_partition");'),
    'stable_sort': ('P', 'RR; ANY(int, km); ANY(int, kn); Lt lt{km, kn}; Out x; int y[NN]; int c = 0; for (int q = 0; q < 3; ++q) ' + EL + 'if (lt.key(res[i]) == q) x.put(res[i]); BOTH(stable_sort, (o, lt), x);'),
}
ITS = {'P': ('pointer', 'Ptr'), 'F': ('forward', 'Fwd'), 'B': ('bidirectional', 'Bid')}


def text(part, r, quick):
    return ''.join('LEMMA(%s_%s_%s) { %s }\n' % (name, ITS[i][0], {'RES': 'array', 'SUB': 'sub'}[r], b.replace('RR;', r + ';').replace('II ', ITS[i][1] + ' ')) for name, (its, b) in part.items() for i in its
                   if not ('set_' in name and (quick and name != 'set_union' or r == 'SUB' and 'inter' in name)) and not (quick and r == 'SUB' and i != 'P' and name not in ('copy', 'copy_n', 'transform', 'unique_copy')))


NS = {'copies': (3, 2, 4, 2), 'sets': (2, 2, 3, 2), 'containers': (5, 2, 6, 3), 'orders': (2, 1, 3, 2)}  # sizes: quick array, quick sub range, thorough array, thorough sub range


def units(tier):
    return [lemmas('fixed_%s_%s' % (k, t), '#define NN %d\n' % NS[k][2 * (tier != 'quick') + q] + SRC + text(v, r, tier == 'quick'), std='c++17', nstd='c++17', mode='bv', step_limit=2000000)
            for k, v in (('copies', COPY), ('sets', SETS), ('containers', CONT), ('orders', ORDERS)) for q, t, r in ((0, 'array', 'RES'), (1, 'sub', 'SUB'))]
