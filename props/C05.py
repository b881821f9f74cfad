from svc.driver import Unit, Native, lemmas
from svc.cxx import ITERS
from . import iterspec as S, seqspec as Q, algspec as G

H = lambda *a: ''.join('#include <sprout/algorithm/%s.hpp>\n' % x for x in a)
EXT_H = H('min_element', 'max_element', 'minmax_element')
EXTI = ''.join(('template {0} sprout::min_element<{0},Cmp>({0},{0},Cmp);\ntemplate {0} sprout::min_element<{0}>({0},{0});\n'
                'template {0} sprout::max_element<{0},Cmp>({0},{0},Cmp);\ntemplate {0} sprout::max_element<{0}>({0},{0});\n').format(i) for i in ('Ra', 'Fwd'))
MMI = ''.join(('template sprout::pair<{0},{0}> sprout::minmax_element<{0},Cmp>({0},{0},Cmp);\n'
               'template sprout::pair<{0},{0}> sprout::minmax_element<{0}>({0},{0});\n').format(i) for i in ('Ra', 'Fwd'))
ORD_H = H('is_sorted', 'is_sorted_until', 'is_heap', 'is_heap_until')
ORDI = ''.join(('template bool sprout::is_sorted<{0},Cmp>({0},{0},Cmp);\ntemplate bool sprout::is_sorted<{0}>({0},{0});\n'
                'template {0} sprout::is_sorted_until<{0},Cmp>({0},{0},Cmp);\ntemplate {0} sprout::is_sorted_until<{0}>({0},{0});\n').format(i) for i in ('Ra', 'Fwd'))
HPI = ''.join(('template bool sprout::is_heap<{0},Cmp>({0},{0},Cmp);\ntemplate bool sprout::is_heap<{0}>({0},{0});\n'
               'template {0} sprout::is_heap_until<{0},Cmp>({0},{0},Cmp);\ntemplate {0} sprout::is_heap_until<{0}>({0},{0});\n').format(i) for i in ('Ra',))


def units(tier):
    return [Unit('min', ITERS + EXT_H + EXTI, G.extreme_c('min_element', None) + G.extreme_c('max_element', None), ext=S.EXT),
            Unit('minmax', ITERS + EXT_H + MMI, G.minmax_c() , ext=S.EXT),
            Unit('sorted', ITERS + ORD_H + ORDI, G.sorted_c(), ext=S.EXT),
            Unit('heap', ITERS + ORD_H + HPI, G.heap_c(), ext=S.EXT),
            lemmas('values', VALUES, mode='bv', secs=(2, 10))]


NAT = r'''
#include "natalg.hpp"
''' + EXT_H + ORD_H + H('min', 'max', 'minmax', 'clamp') + r'''
using namespace svc;
template<class I> void go(Run& R, std::vector<E> const& va, const char* cat) {
  Cmp lt; long n = va.size();
  Buf<E> A(va); E* a = A.begin(); E const* sa = A.cb(); E const* se = A.ce();
  I f = Mk<I>::at(a), l = Mk<I>::at(a + n);
  #define EQ(x, y) do { long o_ = (x), s = (y); CK(o_ == s, #x, "iterator", cat, "a", show(va), "keys", g_key[0], g_key[1], g_key[2], g_key[3], "got", o_, "expected", s); } while (0)
  #define POS(fn, ...) EQ(raw(sprout::fn(f, l, ##__VA_ARGS__)) - a, std::fn(sa, se, ##__VA_ARGS__) - sa)
  POS(min_element); POS(min_element, lt); POS(max_element); POS(max_element, lt);
  EQ(raw(sprout::minmax_element(f, l).first) - a, std::minmax_element(sa, se).first - sa); EQ(raw(sprout::minmax_element(f, l).second) - a, std::minmax_element(sa, se).second - sa);
  EQ(raw(sprout::minmax_element(f, l, lt).first) - a, std::minmax_element(sa, se, lt).first - sa); EQ(raw(sprout::minmax_element(f, l, lt).second) - a, std::minmax_element(sa, se, lt).second - sa);
  POS(is_sorted_until); POS(is_sorted_until, lt);
  EQ(sprout::is_sorted(f, l), std::is_sorted(sa, se)); EQ(sprout::is_sorted(f, l, lt), std::is_sorted(sa, se, lt));
}
void heap(Run& R, std::vector<E> const& va) {
  Cmp lt; const char* cat = "random access";
  Buf<E> A(va); E* a = A.begin(); E const* sa = A.cb(); E const* se = A.ce(); E const* f = a; E const* l = a + va.size();
  POS(is_heap_until); POS(is_heap_until, lt);
  EQ(sprout::is_heap(f, l), std::is_heap(sa, se)); EQ(sprout::is_heap(f, l, lt), std::is_heap(sa, se, lt));
}
int main(int argc, char** argv) {
  Run R(argc, argv);
  while (R.more()) {
    shake(R.r); Cmp lt;
    std::vector<E> a = gen_vec<E>(R.r, gen_len(R.r, 600));
    switch (R.r.range(0, 5)) {
      case 0: std::sort(a.begin(), a.end()); break; case 1: std::sort(a.begin(), a.end(), lt); break;
      case 2: std::make_heap(a.begin(), a.end()); break; case 3: std::make_heap(a.begin(), a.end(), lt); break;
    }
    if (!a.empty() && R.r.chance(3)) a[R.r.chance(3) ? a.size() - 1 : R.r.range(0, a.size() - 1)] ^= 1;
    R.note(hash(a));
    go<E const*>(R, a, "random access"); go<Fwd>(R, a, "forward"); go<Bid>(R, a, "bidirectional"); heap(R, a);
    E x = (E)R.r.range(-5, 40), y = (E)R.r.range(-5, 40), z = (E)R.r.range(-5, 40); const char* cat = "values"; std::vector<E> va{x, y, z};
    #define REF(e, s) CK(&(e) == &(s), #e, "x", x, "y", y, "z", z, "keys", g_key[x & 31], g_key[y & 31], g_key[z & 31])
    REF(sprout::min(x, y), std::min(x, y)); REF(sprout::max(x, y), std::max(x, y)); REF(sprout::min(x, y, lt), std::min(x, y, lt)); REF(sprout::max(x, y, lt), std::max(x, y, lt));
    REF(sprout::minmax(x, y).first, std::minmax(x, y).first); REF(sprout::minmax(x, y).second, std::minmax(x, y).second);
    REF(sprout::minmax(x, y, lt).first, std::minmax(x, y, lt).first); REF(sprout::minmax(x, y, lt).second, std::minmax(x, y, lt).second);
    if (!(z < y)) REF(sprout::clamp(x, y, z), (x < y ? y : z < x ? z : x));
    if (!lt(z, y)) REF(sprout::clamp(x, y, z, lt), (lt(x, y) ? y : lt(z, x) ? z : x));
    E u = (E)R.r.range(-5, 40), w = (E)R.r.range(-5, 40);
    EQ(sprout::min({x, y, z, u, w}), std::min({x, y, z, u, w})); EQ(sprout::max({x, y, z, u, w}), std::max({x, y, z, u, w}));
    EQ(sprout::min({x, y, z, u, w}, lt), std::min({x, y, z, u, w}, lt)); EQ(sprout::max({x, y, z, u, w}, lt), std::max({x, y, z, u, w}, lt));
    EQ(sprout::minmax({x, y, z, u, w}, lt).first, std::minmax({x, y, z, u, w}, lt).first); EQ(sprout::minmax({x, y, z, u, w}, lt).second, std::minmax({x, y, z, u, w}, lt).second);
  }
  return R.done();
}
'''


VALUES = r"""
#include <sprout/algorithm/min.hpp>
#include <sprout/algorithm/max.hpp>
#include <sprout/algorithm/minmax.hpp>
#include <sprout/algorithm/clamp.hpp>
struct Div { bool operator()(int a, int b) const { return (a >> 4) < (b >> 4); } };      // equivalent values that can be told apart
struct Gt { bool operator()(int a, int b) const { return a > b; } };
template<class C> inline void two(int const& x, int const& y, int const& z, C c) {
  ENSURE(&sprout::min(x, y, c) == (c(y, x) ? &y : &x), "min is the smaller one, the first of equivalent ones"); ENSURE(&sprout::max(x, y, c) == (c(x, y) ? &y : &x), "max is the larger one, the first of equivalent ones");
  auto p = sprout::minmax(x, y, c); ENSURE(&p.first == (c(y, x) ? &y : &x), "minmax: smaller one"); ENSURE(&p.second == (c(y, x) ? &x : &y), "minmax: larger one");
  if (!c(z, y)) ENSURE(&sprout::clamp(x, y, z, c) == (c(x, y) ? &y : c(z, x) ? &z : &x), "clamp is the nearest value in [low, high]");
}
LEMMA(two_by) { ANY(int, x); ANY(int, y); ANY(int, z); two(x, y, z, Div()); two(x, y, z, Gt()); }
LEMMA(two_less) { ANY(int, x); ANY(int, y); ANY(int, z); ENSURE(&sprout::min(x, y) == (y < x ? &y : &x) && &sprout::max(x, y) == (x < y ? &y : &x), "min and max by <"); auto p = sprout::minmax(x, y); ENSURE(&p.first == (y < x ? &y : &x) && &p.second == (y < x ? &x : &y), "minmax by <");
  if (y <= z) ENSURE(&sprout::clamp(x, y, z) == (x < y ? &y : z < x ? &z : &x), "clamp by <"); }
template<class C> inline void list(C c) {
  ANY(int, a); ANY(int, b); ANY(int, d); ANY(int, e); int v[4] = {a, b, d, e}; int lo = 0, hi = 0, hl = 0; for (int i = 1; i < 4; ++i) { if (c(v[i], v[lo])) lo = i; if (c(v[hi], v[i])) hi = i; if (!c(v[i], v[hl])) hl = i; }
  ENSURE(sprout::min({a, b, d, e}, c) == v[lo], "min of a list is the first smallest"); ENSURE(sprout::max({a, b, d, e}, c) == v[hi], "max of a list is the first largest");
  auto p = sprout::minmax({a, b, d, e}, c); ENSURE(p.first == v[lo], "minmax of a list: first smallest"); ENSURE(p.second == v[hl], "minmax of a list: last largest");
}
LEMMA(list_div) { list(Div()); }
LEMMA(list_gt) { list(Gt()); }
LEMMA(list_less) { ANY(int, a); ANY(int, b); ANY(int, d); int lo = a < b ? a : b, hi = a < b ? b : a; lo = lo < d ? lo : d; hi = hi < d ? d : hi; ENSURE(sprout::min({a, b, d}) == lo && sprout::max({a, b, d}) == hi, "min and max of a list by <"); auto p = sprout::minmax({a, b, d}); ENSURE(p.first == lo && p.second == hi, "minmax of a list by <"); ENSURE(sprout::min({a}) == a && sprout::max({a}) == a, "single element"); }
"""


def natives(tier):
    return [Native('extremes', NAT, secs=(8, 60), std='gnu++14')]
