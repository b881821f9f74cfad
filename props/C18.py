from svc.driver import lemmas

PRE = r'''
#include <stdexcept>
#include <tuple>
#include <utility>
#include <array>
struct M { int v; M() : v(0) {} M(int x) : v(x) {} M(M const& o) : v(o.v) {} M(M&& o) : v(o.v) { o.v = -1; } M& operator=(M const& o) { v = o.v; return *this; }
  M& operator=(M&& o) { if (this != &o) { v = o.v; o.v = -1; } return *this; } };
inline bool operator==(M const& a, M const& b) { return a.v == b.v; }
inline bool operator<(M const& a, M const& b) { return a.v < b.v; }
#define SAME6(a, b, lt, eq) do { ENSURE((a == b) == (eq), "== as specified"); ENSURE((a != b) == !(eq), "!= is its negation"); ENSURE((a < b) == (lt), "< as specified"); \
  ENSURE((a <= b) == ((lt) || (eq)), "<= is < or =="); ENSURE((a > b) == (!(lt) && !(eq)), "> is the rest"); ENSURE((a >= b) == !(lt), ">= is not <"); } while (0)
'''

OPT = PRE + r'''
#include <sprout/optional.hpp>
#include <sprout/utility/swap.hpp>
#include <sprout/utility/move.hpp>
typedef sprout::optional<int> O; typedef sprout::optional<M> OM;
inline O opt(bool e, int v) { return e ? O(v) : O(); }
inline OM optm(bool e, int v) { return e ? OM(M(v)) : OM(); }
#define HAS(o, e, x, name) do { ENSURE(bool(o) == (e), name ": engaged"); ENSURE(!(o) == !(e), name ": operator!"); ENSURE((o).is_initialized() == (e), name ": is_initialized"); if (e) ENSURE(*(o) == (x), name ": value"); } while (0)
#define ABM(T, MK) ANY(bool, ea); ANY(bool, eb); ANY(int, x); ANY(int, y); T a = MK(ea, x), b = MK(eb, y)
LEMMA(optional_build) {
  ANY(int, x); ANY(bool, c); O n; HAS(n, false, 0, "default"); O m((sprout::nullopt)); HAS(m, false, 0, "nullopt"); O v(x); HAS(v, true, x, "value"); O cv(c, x); HAS(cv, c, x, "conditional value");
  O e((sprout::in_place), x); HAS(e, true, x, "in_place"); O cp(cv); HAS(cp, c, x, "copy"); HAS(cv, c, x, "copy keeps its source"); O mv(sprout::move(cv)); HAS(mv, c, x, "move");
  sprout::optional<long> w(mv); HAS(w, c, (long)x, "converting copy"); sprout::optional<long> w2((O(mv))); HAS(w2, c, (long)x, "converting move");
}
LEMMA(optional_build_class) { ANY(bool, e); ANY(int, x); REQUIRE(x != -1); OM a = optm(e, x); HAS(a, e, M(x), "class value"); OM b(a); HAS(b, e, M(x), "copy"); HAS(a, e, M(x), "copy keeps its source"); OM c(sprout::move(a)); HAS(c, e, M(x), "move"); }
template<class T, T (*MK)(bool, int), class V> inline void assigns() {
  { ABM(T, MK); a = b; HAS(a, eb, V(y), "copy assignment"); HAS(b, eb, V(y), "copy assignment keeps its source"); }
  { ABM(T, MK); a = sprout::move(b); HAS(a, eb, V(y), "move assignment"); }
  { ABM(T, MK); a.assign(b); HAS(a, eb, V(y), "assign"); b = sprout::nullopt; HAS(b, false, V(0), "nullopt assignment"); HAS(a, eb, V(y), "not shared"); a.assign(sprout::nullopt); HAS(a, false, V(0), "assign nullopt"); }
  { ABM(T, MK); V u(y); a = u; HAS(a, true, V(y), "value assignment"); a.reset(); HAS(a, false, V(0), "reset"); a.reset(V(x)); HAS(a, true, V(x), "reset to a value"); a.reset(sprout::nullopt); HAS(a, false, V(0), "reset to nullopt"); }
  { ABM(T, MK); a.emplace(y); HAS(a, true, V(y), "emplace"); }
  { ABM(T, MK); a.swap(b); HAS(a, eb, V(y), "swap: left"); HAS(b, ea, V(x), "swap: right"); sprout::swap(a, b); HAS(a, ea, V(x), "swap back: left"); HAS(b, eb, V(y), "swap back: right"); }
  { ANY(bool, ea); ANY(int, x); T a = MK(ea, x); T const& r = a; a = r; HAS(a, ea, V(x), "self assignment"); a.swap(a); HAS(a, ea, V(x), "self swap"); }
}
LEMMA(optional_assign) { assigns<O, opt, int>(); }
LEMMA(optional_assign_class) { assigns<OM, optm, M>(); }
LEMMA(optional_convert_assign) { ABM(O, opt); sprout::optional<long> w((long)x); w = b; HAS(w, eb, (long)y, "converting assignment"); w.assign(a); HAS(w, ea, (long)x, "converting assign"); }
LEMMA(optional_read) {
  ANY(bool, e); ANY(int, x); ANY(int, d); O a = opt(e, x); O const& k = a; int const& dr = d;
  ENSURE(k.get_value_or(dr) == (e ? x : d), "get_value_or"); ENSURE(a.get_value_or(d) == (e ? x : d), "get_value_or of a non-const one"); ENSURE(k.value_or(dr) == (e ? x : d), "value_or"); ENSURE(sprout::get_value_or(k, dr) == (e ? x : d), "free get_value_or");
  ENSURE((k.get_pointer() != 0) == e, "get_pointer is null exactly if empty"); ENSURE((a.get_ptr() != 0) == e, "get_ptr is null exactly if empty"); ENSURE(k.size() == (e ? 1u : 0u), "size"); ENSURE(k.empty() == !e, "empty");
  if (e) { ENSURE(k.get() == x && k.value() == x && *k == x && *k.get_pointer() == x && *k.operator->() == x && sprout::get(k) == x, "every observer reads the value"); *a = d; ENSURE(k.get() == d, "write through operator*"); a.get() = x; ENSURE(*k == x, "write through get");
    a.value() = d; ENSURE(*k == d, "write through value"); *a.get_pointer() = x; ENSURE(*k == x, "write through the pointer"); }
}
LEMMA(optional_get_throws) { ANY(bool, e); ANY(int, x); O a = opt(e, x); THROWS_IFF(!e); int r = a.get(); ENSURE(r == x, "get reads the value"); }
LEMMA(optional_value_throws) { ANY(bool, e); ANY(int, x); O const a = opt(e, x); THROWS_IFF(!e); int r = a.value(); ENSURE(r == x, "value reads the value"); }
LEMMA(optional_range) {
  ANY(bool, e); ANY(int, x); O a = opt(e, x); O const& k = a; int n = 0; bool ok = true;
  for (auto i = k.begin(); i != k.end(); ++i) { ++n; ok = ok && *i == x; } for (auto i = a.begin(); i != a.end(); ++i) { ++n; ok = ok && *i == x; } for (auto i = k.cbegin(); i != k.cend(); ++i) { ++n; ok = ok && *i == x; }
  ENSURE(n == (e ? 3 : 0) && ok, "iteration visits the value exactly once if there is one");
}
LEMMA(optional_rrange) { ANY(bool, e); ANY(int, x); O a = opt(e, x); O const& k = a; int n = 0; bool ok = true; for (auto i = k.rbegin(); i != k.rend(); ++i) { ++n; ok = ok && *i == x; } ENSURE(n == (e ? 1 : 0) && ok, "reverse iteration visits the value exactly once if there is one"); }
LEMMA(optional_order) {
  ABM(O, opt); bool eq = ea == eb && (!ea || x == y), lt = eb && (!ea || x < y); SAME6(a, b, lt, eq);
  O n; sprout::nullopt_t z = sprout::nullopt; SAME6(a, z, false, !ea); SAME6(z, a, ea, !ea); 
}
'''

VAR = PRE + r'''
#include <sprout/variant.hpp>
#include <sprout/utility/swap.hpp>
#include <sprout/utility/move.hpp>
typedef sprout::variant<int, unsigned char, M> V;
inline V mk(int w, int x) { return w == 0 ? V(x) : w == 1 ? V((unsigned char)x) : V(M(x)); }
inline bool has(V const& v, int w, int x) { return v.which() == w && (w == 0 ? sprout::get<int>(v) == x : w == 1 ? sprout::get<unsigned char>(v) == (unsigned char)x : sprout::get<M>(v).v == x); }
inline long val(int w, int x) { return w == 0 ? x : w == 1 ? 1000L + (unsigned char)x : x - 7L; }
struct Vis { typedef long result_type; long operator()(int x) const { return x; } long operator()(unsigned char x) const { return 1000L + x; } long operator()(M const& x) const { return x.v - 7L; } };
struct Mut { typedef void result_type; int y; void operator()(int& x) const { x = y; } void operator()(unsigned char& x) const { x = (unsigned char)y; } void operator()(M& x) const { x.v = y; } };
#define TWO ANY_IN(int, w, 0, 2); ANY_IN(int, u, 0, 2); ANY(int, x); ANY(int, y); V a = mk(w, x), b = mk(u, y)
LEMMA(variant_build) { TWO; V d; ENSURE(d.which() == 0 && sprout::get<int>(d) == 0, "default holds a zero first alternative"); ENSURE(has(a, w, x) && !a.empty(), "construction from a value holds that alternative"); V c(a); ENSURE(has(c, w, x) && has(a, w, x), "copy"); V m(sprout::move(a)); ENSURE(has(m, w, x), "move"); (void)b; }
LEMMA(variant_copy) { TWO; a = b; ENSURE(has(a, u, y) && has(b, u, y), "copy assignment"); V const& r = a; a = r; ENSURE(has(a, u, y), "self assignment"); }
LEMMA(variant_move) { TWO; a = sprout::move(b); ENSURE(has(a, u, y), "move assignment"); }
LEMMA(variant_value) { TWO; a = x; ENSURE(has(a, 0, x), "assignment of the first alternative"); a = (unsigned char)y; ENSURE(has(a, 1, y), "assignment of the second alternative"); M m(y); a = m; ENSURE(has(a, 2, y) && m.v == y, "assignment of the third alternative"); (void)b; }
LEMMA(variant_swap) { TWO; a.swap(b); ENSURE(has(a, u, y) && has(b, w, x), "swap"); sprout::swap(a, b); ENSURE(has(a, w, x) && has(b, u, y), "swap back"); }
LEMMA(variant_order) { TWO; int xx = w == 1 ? (unsigned char)x : x, yy = u == 1 ? (unsigned char)y : y; bool eq = w == u && xx == yy, lt = w < u || (w == u && xx < yy); SAME6(a, b, lt, eq); }
LEMMA(variant_visit) { TWO; V const& k = a; ENSURE(k.apply_visitor(Vis()) == val(w, x), "the visitor sees the held alternative"); ENSURE(a.apply_visitor(Vis()) == val(w, x), "also of a non-const variant"); ENSURE(sprout::apply_visitor(Vis(), k) == val(w, x), "free apply_visitor"); Mut m; m.y = y; a.apply_visitor(m); ENSURE(has(a, w, y), "the visitor can change the held alternative"); (void)b; }
LEMMA(variant_get) { ANY(int, x); ANY(int, y); V a(x); ENSURE(sprout::get<int>(a) == x && a.get<int>() == x && a.get_at<0>() == x && sprout::tuples::get<0>(a) == x, "get reads"); a.get<int>() = y; ENSURE(has(a, 0, y), "get writes"); a.get_at<0>() = x; ENSURE(has(a, 0, x), "get_at writes"); }
'''

TUP = PRE + r'''
#include <sprout/tuple.hpp>
#include <sprout/utility/pair.hpp>
#include <sprout/utility/swap.hpp>
#include <sprout/utility/move.hpp>
typedef sprout::tuples::tuple<int, unsigned char, M> T; typedef sprout::pair<int, M> P;
using sprout::tuples::get;
struct X { int a; unsigned char b; int c; };
#define ANYX(n) ANY(int, n##0); ANY(unsigned char, n##1); ANY(int, n##2); T n(n##0, n##1, M(n##2))
#define IS(t, n, name) ENSURE(get<0>(t) == n##0 && get<1>(t) == n##1 && get<2>(t).v == n##2, name)
#define PX(n) ANY(int, n##1); ANY(int, n##2); P n(n##1, M(n##2))
#define PIS(p, n, name) ENSURE((p).first == n##1 && (p).second.v == n##2, name)
LEMMA(tuple_build) { ANYX(a); IS(a, a, "elements in order"); T d; ENSURE(get<0>(d) == 0 && get<1>(d) == 0 && get<2>(d).v == 0, "value-initialised"); T c(a); IS(c, a, "copy"); IS(a, a, "copy keeps its source"); T m(sprout::move(a)); IS(m, a, "move");
  sprout::tuples::tuple<long, int, M> w(c); IS(w, a, "converting copy"); T s(get<0>(c), get<1>(c), get<2>(c)); IS(s, a, "from lvalues"); IS(c, a, "lvalues kept"); }
LEMMA(tuple_assign) { ANYX(a); ANYX(b); T c(a); c = b; IS(c, b, "copy assignment"); IS(b, b, "source kept"); c = sprout::move(a); IS(c, a, "move assignment"); T const& r = c; c = r; IS(c, a, "self assignment"); sprout::tuples::tuple<long, int, M> w; w = b; IS(w, b, "converting assignment"); IS(b, b, "source kept by the conversion"); }
LEMMA(tuple_pair) { PX(p); sprout::tuples::tuple<int, M> t(p); ENSURE(get<0>(t) == p1 && get<1>(t).v == p2, "tuple from pair"); PX(q); t = q; ENSURE(get<0>(t) == q1 && get<1>(t).v == q2, "pair assigned to tuple"); PIS(q, q, "pair kept"); P r(t); PIS(r, q, "pair from tuple"); P s; s = t; PIS(s, q, "tuple assigned to pair"); ENSURE(get<0>(t) == q1 && get<1>(t).v == q2, "tuple kept"); ENSURE(get<0>(p) == p1 && get<1>(p).v == p2, "get of a pair"); P u; u = sprout::move(t); PIS(u, q, "tuple moved to pair");
  sprout::tuples::tuple<int, M> z(q); P v(sprout::move(z)); PIS(v, q, "pair from a moved tuple"); z = sprout::move(v); ENSURE(get<0>(z) == q1 && get<1>(z).v == q2, "pair moved to tuple"); }
LEMMA(tuple_swap) { ANYX(a); ANYX(b); a.swap(b); IS(a, b, "swap: left"); IS(b, a, "swap: right"); sprout::swap(a, b); IS(a, a, "swap back: left"); IS(b, b, "swap back: right"); }
LEMMA(tuple_order) { ANYX(a); ANYX(b); bool eq = a0 == b0 && a1 == b1 && a2 == b2, lt = a0 < b0 || (a0 == b0 && (a1 < b1 || (a1 == b1 && a2 < b2))); SAME6(a, b, lt, eq); }
LEMMA(tuple_tie) { ANYX(a); int x = 0; unsigned char y = 0; M z; sprout::tuples::tie(x, y, z) = a; ENSURE(x == a0 && y == a1 && z.v == a2, "tie"); IS(a, a, "source kept"); x = 0; z.v = 0; sprout::tuples::tie(x, sprout::tuples::ignore, z) = a; ENSURE(x == a0 && z.v == a2 && y == a1, "tie with ignore"); }
LEMMA(tuple_make) { ANYX(a); auto t = sprout::tuples::make_tuple(a0, a1, M(a2)); IS(t, a, "make_tuple"); auto s = static_cast<std::tuple<int, unsigned char, M> >(a); ENSURE(std::get<0>(s) == a0 && std::get<1>(s) == a1 && std::get<2>(s).v == a2, "to std::tuple"); get<0>(t) = a1; get<2>(t) = M(a0); ENSURE(get<0>(t) == a1 && get<1>(t) == a1 && get<2>(t).v == a0, "get writes one element");
  auto f = sprout::tuples::forward_as_tuple(a0, a1); get<0>(f) = 5; ENSURE(a0 == 5, "forward_as_tuple refers to its arguments"); }
struct Sum { long operator()(int x, unsigned char y, M const& z) const { return x * 3L + y * 5L + z.v; } };
LEMMA(tuple_apply) { ANYX(a); ENSURE(sprout::tuples::apply(Sum(), a) == a0 * 3L + a1 * 5L + a2, "apply passes the elements in order"); ENSURE(sprout::make_fused(Sum())(a) == a0 * 3L + a1 * 5L + a2, "fused passes the elements in order"); IS(a, a, "source kept"); }
LEMMA(pair_build) { PX(p); PIS(p, p, "both members"); P d; ENSURE(d.first == 0 && d.second.v == 0, "value-initialised"); P c(p); PIS(c, p, "copy"); PIS(p, p, "source kept"); P m(sprout::move(p)); PIS(m, p, "move"); sprout::pair<long, M> w(c); PIS(w, p, "converting copy"); PIS(c, p, "source kept by the conversion");
  auto k = sprout::make_pair(p1, M(p2)); PIS(k, p, "make_pair"); std::pair<int, M> s = static_cast<std::pair<int, M> >(c); PIS(s, p, "to std::pair"); P pw(std::piecewise_construct, sprout::tuples::make_tuple(p1), sprout::tuples::make_tuple(p2)); PIS(pw, p, "piecewise"); }
LEMMA(pair_assign) { PX(a); PX(b); P c(a); c = b; PIS(c, b, "copy assignment"); PIS(b, b, "source kept"); c = sprout::move(a); PIS(c, a, "move assignment"); P const& r = c; c = r; PIS(c, a, "self assignment"); sprout::pair<long, M> w; w = b; PIS(w, b, "converting assignment"); PIS(b, b, "source kept by the conversion"); w = sprout::move(c); PIS(w, a, "converting move"); }
LEMMA(pair_swap) { PX(a); PX(b); a.swap(b); PIS(a, b, "swap: left"); PIS(b, a, "swap: right"); sprout::swap(a, b); PIS(a, a, "swap back: left"); PIS(b, b, "swap back: right"); }
LEMMA(pair_order) { PX(a); PX(b); bool eq = a1 == b1 && a2 == b2, lt = a1 < b1 || (a1 == b1 && a2 < b2); SAME6(a, b, lt, eq); }
'''

ARR = PRE + r'''
#include <sprout/array.hpp>
#include <sprout/utility/swap.hpp>
#include <sprout/utility/move.hpp>
typedef sprout::array<int, 3> A;
#define ANYA(n) ANY_ARR(int, n##v, 3); A n = {{n##v[0], n##v[1], n##v[2]}}
#define IS(t, n, name) ENSURE((t)[0] == n##v[0] && (t)[1] == n##v[1] && (t)[2] == n##v[2], name)
LEMMA(array_access) {
  ANYA(a); ANY_IN(std::size_t, i, 0, 2); ANY(int, x); A const& k = a; ENSURE(k[i] == av[i] && a[i] == av[i] && k.at(i) == av[i] && a.at(i) == av[i] && *k.nth(i) == av[i] && *a.nth(i) == av[i] && k.data()[i] == av[i] && a.c_array()[i] == av[i], "element access");
  ENSURE(k.front() == av[0] && a.front() == av[0] && k.back() == av[2] && a.back() == av[2] && k.size() == 3 && k.max_size() == 3 && !k.empty(), "ends and size"); ENSURE(k.index_of(k.nth(i)) == i && a.index_of(a.begin() + i) == i, "index_of"); ENSURE(sprout::tuples::get<1>(k) == av[1], "tuple get");
  std::size_t n = 0; bool ok = true; for (auto p = k.begin(); p != k.end(); ++p) { ok = ok && *p == av[n]; ++n; } for (auto p = a.rbegin(); p != a.rend(); ++p) { --n; ok = ok && *p == av[n]; } ENSURE(n == 0 && ok, "iteration in both directions"); for (auto p = k.crbegin(); p != k.crend(); ++p) { ok = ok && *p == av[2 - n]; ++n; } ENSURE(n == 3 && ok, "constant reverse iteration");
  a.at(i) = x; av[i] = x; IS(a, a, "write through at"); *(a.begin() + i) = 7; av[i] = 7; IS(a, a, "write through an iterator");
}
LEMMA(array_at_throws) { ANYA(a); ANY(std::size_t, i); THROWS_IFF(i >= 3); int x = a.at(i); ENSURE(x == av[i], "at"); }
LEMMA(array_at_const_throws) { ANYA(a); ANY(std::size_t, i); A const& k = a; THROWS_IFF(i >= 3); int x = k.at(i); ENSURE(x == av[i], "at"); }
LEMMA(array_nth_throws) { ANYA(a); ANY(std::size_t, i); THROWS_IFF(i >= 3); int x = *a.nth(i); ENSURE(x == av[i], "nth"); }
LEMMA(array_nth_const_throws) { ANYA(a); ANY(std::size_t, i); A const& k = a; THROWS_IFF(i >= 3); int x = *k.nth(i); ENSURE(x == av[i], "nth"); }
LEMMA(array_rangecheck) { ANYA(a); ANY(std::size_t, i); THROWS_IFF(i >= 3); a.rangecheck(i); ENSURE(true, "in range"); }
LEMMA(array_change) { ANYA(a); ANYA(b); ANY(int, x); A c(a); c = b; IS(c, b, "assignment"); a.swap(b); IS(a, b, "swap: left"); IS(b, a, "swap: right"); sprout::swap(a, b); IS(a, a, "swap back: left"); IS(b, b, "swap back: right"); a.swap(a); IS(a, a, "self swap"); A const& k = a; A f = k.fill(x); ENSURE(f[0] == x && f[1] == x && f[2] == x, "fill of a const one returns a copy"); IS(a, a, "which leaves it"); a.fill(x); ENSURE(a[0] == x && a[1] == x && a[2] == x, "fill"); b.assign(x); ENSURE(b[0] == x && b[1] == x && b[2] == x, "assign");
  sprout::array<long, 3> w; w = c; IS(w, b, "converting assignment"); IS(c, b, "source kept"); }
LEMMA(array_convert) { ANYA(a); std::array<int, 3> s = a; IS(s, a, "to std::array"); IS(sprout::to_array(s), a, "from std::array"); IS(sprout::to_array(av), a, "from a C array"); IS(sprout::to_array(a), a, "identity"); A m = sprout::make_array<int>(av[0], av[1], av[2]); IS(m, a, "make_array"); }
LEMMA(array_order) { ANYA(a); ANYA(b); bool eq = av[0] == bv[0] && av[1] == bv[1] && av[2] == bv[2], lt = av[0] < bv[0] || (av[0] == bv[0] && (av[1] < bv[1] || (av[1] == bv[1] && av[2] < bv[2]))); SAME6(a, b, lt, eq); }
LEMMA(array_empty) { sprout::array<int, 0> z = {{}}; ENSURE(z.size() == 0 && z.empty() && z.begin() == z.end(), "an array of no elements is empty"); z.fill(3); ENSURE(z.begin() == z.end(), "and can be filled"); }
'''

TRI = PRE + r'''
#include <sprout/logic/tribool.hpp>
typedef sprout::logic::tribool B; enum { F, T, I };
inline B mk(int v) { B b; b.value = v == F ? B::false_value : v == T ? B::true_value : B::indeterminate_value; return b; }
#define TWO ANY_IN(int, x, 0, 2); ANY_IN(int, y, 0, 2); ANY(bool, p); B a = mk(x), b = mk(y)
#define IS(e, v, name) ENSURE((int)(e).value == (int)(v), name)
LEMMA(tribool_build) { TWO; IS(B(), F, "default is false"); IS(B(p), p ? T : F, "from bool"); IS(B(sprout::logic::indeterminate), I, "from the keyword"); ENSURE(sprout::logic::indeterminate(a) == (x == I), "indeterminate"); (void)b; }
LEMMA(tribool_not) { TWO; IS(!a, x == F ? T : x == T ? F : I, "negation"); (void)b; (void)p; }
LEMMA(tribool_and) { TWO; IS(a && b, x == F || y == F ? F : x == T && y == T ? T : I, "conjunction"); IS(a && p, !p ? F : x, "conjunction with bool"); IS(p && a, !p ? F : x, "conjunction of bool"); IS(a && sprout::logic::indeterminate, x == F ? F : I, "conjunction with unknown"); IS(sprout::logic::indeterminate && a, x == F ? F : I, "conjunction of unknown"); }
LEMMA(tribool_or) { TWO; IS(a || b, x == T || y == T ? T : x == F && y == F ? F : I, "disjunction"); IS(a || p, p ? T : x, "disjunction with bool"); IS(p || a, p ? T : x, "disjunction of bool"); IS(a || sprout::logic::indeterminate, x == T ? T : I, "disjunction with unknown"); IS(sprout::logic::indeterminate || a, x == T ? T : I, "disjunction of unknown"); }
LEMMA(tribool_eq) { TWO; IS(a == b, x == I || y == I ? I : x == y ? T : F, "equality"); IS(a != b, x == I || y == I ? I : x == y ? F : T, "inequality"); int q = p ? T : F; IS(a == p, x == I ? I : x == q ? T : F, "equality with bool"); IS(p == a, x == I ? I : x == q ? T : F, "equality of bool"); IS(a != p, x == I ? I : x == q ? F : T, "inequality with bool"); IS(p != a, x == I ? I : x == q ? F : T, "inequality of bool");
  IS(a == sprout::logic::indeterminate, I, "equality with unknown"); IS(sprout::logic::indeterminate == a, I, "equality of unknown"); IS(a != sprout::logic::indeterminate, I, "inequality with unknown"); IS(sprout::logic::indeterminate != a, I, "inequality of unknown"); }
LEMMA(tribool_test) { TWO; bool t = a ? true : false; ENSURE(t == (x == T), "tested as a condition it is true only if true"); (void)b; (void)p; }
'''


def units(tier):
    return [lemmas('optional', OPT, mode='bv'), lemmas('variant', VAR, mode='bv'), lemmas('tuple_pair', TUP, mode='bv'), lemmas('array', ARR, mode='bv'), lemmas('tribool', TRI, mode='bv')]
