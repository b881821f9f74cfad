from svc.driver import Unit, Native
from svc.cxx import ITERS
from . import iterspec as S, seqspec as Q, algspec as G

H = lambda *a: ''.join('#include <sprout/algorithm/%s.hpp>\n' % x for x in a)
EQ = ITERS + H('equal') + ''.join('template bool sprout::equal<{0},{0},BPred>({0},{0},{0},BPred);\n'
                                  'template bool sprout::equal<{0},{0},BPred>({0},{0},{0},{0},BPred);\n'
                                  'template bool sprout::equal<{0},{0}>({0},{0},{0});\ntemplate bool sprout::equal<{0},{0}>({0},{0},{0},{0});\n'.format(i) for i in ('Ra', 'Fwd'))
MM = ITERS + H('mismatch') + ''.join('template sprout::pair<{0},{0}> sprout::mismatch<{0},{0},BPred>({0},{0},{0},BPred);\n'
                                     'template sprout::pair<{0},{0}> sprout::mismatch<{0},{0},BPred>({0},{0},{0},{0},BPred);\n'
                                     'template sprout::pair<{0},{0}> sprout::mismatch<{0},{0}>({0},{0},{0});\n'
                                     'template sprout::pair<{0},{0}> sprout::mismatch<{0},{0}>({0},{0},{0},{0});\n'.format(i) for i in ('Ra', 'Fwd'))
LX = ITERS + H('lexicographical_compare', 'tristate_lexicographical_compare') + ''.join(
    'template bool sprout::lexicographical_compare<{0},{0},Cmp>({0},{0},{0},{0},Cmp);\n'
    'template int sprout::tristate_lexicographical_compare<{0},{0},Cmp>({0},{0},{0},{0},Cmp);\n'
    'template bool sprout::lexicographical_compare<{0},{0}>({0},{0},{0},{0});\n'
    'template int sprout::tristate_lexicographical_compare<{0},{0}>({0},{0},{0},{0});\n'
    'template int sprout::tristate_lexicographical_compare<{0},E,{0},E,Cmp>({0},{0},E const&,{0},{0},E const&,Cmp);\n'
    'template int sprout::tristate_lexicographical_compare<{0},E,{0},E>({0},{0},E const&,{0},{0},E const&);\n'.format(i) for i in ('Ra', 'Fwd'))


def units(tier):
    return [Unit('equal', EQ, G.equal_c(), ext=S.EXT), Unit('mismatch', MM, Q.mismatch_parts(), ext=S.EXT), Unit('lex', LX, G.lex_c() + G.motion(), ext=S.EXT)]


NAT = r'''
#include "natalg.hpp"
''' + H('equal', 'mismatch', 'lexicographical_compare', 'tristate_lexicographical_compare', 'includes', 'is_permutation') + r'''
using namespace svc;
template<class I, class J> void go(Run& R, std::vector<E> const& va, std::vector<E> const& vb, const char* cat) {
  Buf<E> A(va), B(vb);
  E* a = A.begin(); E* b = B.begin(); long n = va.size(), m = vb.size();
  E const* sa = A.cb(); E const* se = A.ce(); E const* sb = B.cb(); E const* sbe = B.ce();
  I f = Mk<I>::at(a), l = Mk<I>::at(a + n); J g = Mk<J>::at(b), k = Mk<J>::at(b + m);
  BPred bp; Cmp lt;
  #define SHOW "iterator", cat, "a", show(va), "b", show(vb), "mod", g_eqm, "keys", g_key[0], g_key[1], g_key[2], g_key[3]
  #define EQ(x, y) do { long o = (x), s = (y); CK(o == s, #x, SHOW, "got", o, "expected", s); } while (0)
  EQ(sprout::equal(f, l, g, k), std::equal(sa, se, sb, sbe)); EQ(sprout::equal(f, l, g, k, bp), std::equal(sa, se, sb, sbe, bp));
  if (n <= m) {
    EQ(sprout::equal(f, l, g), std::equal(sa, se, sb)); EQ(sprout::equal(f, l, g, bp), std::equal(sa, se, sb, bp));
    EQ(raw(sprout::mismatch(f, l, g).first) - a, std::mismatch(sa, se, sb).first - sa); EQ(raw(sprout::mismatch(f, l, g).second) - b, std::mismatch(sa, se, sb).second - sb);
    EQ(raw(sprout::mismatch(f, l, g, bp).first) - a, std::mismatch(sa, se, sb, bp).first - sa); EQ(raw(sprout::mismatch(f, l, g, bp).second) - b, std::mismatch(sa, se, sb, bp).second - sb);
    if (n < 60) { EQ(sprout::is_permutation(f, l, g), std::is_permutation(sa, se, sb)); EQ(sprout::is_permutation(f, l, g, bp), std::is_permutation(sa, se, sb, bp)); }
  }
  EQ(raw(sprout::mismatch(f, l, g, k).first) - a, std::mismatch(sa, se, sb, sbe).first - sa); EQ(raw(sprout::mismatch(f, l, g, k).second) - b, std::mismatch(sa, se, sb, sbe).second - sb);
  EQ(raw(sprout::mismatch(f, l, g, k, bp).first) - a, std::mismatch(sa, se, sb, sbe, bp).first - sa); EQ(raw(sprout::mismatch(f, l, g, k, bp).second) - b, std::mismatch(sa, se, sb, sbe, bp).second - sb);
  if (n < 60 && m < 60) { EQ(sprout::is_permutation(f, l, g, k), std::is_permutation(sa, se, sb, sbe)); EQ(sprout::is_permutation(f, l, g, k, bp), std::is_permutation(sa, se, sb, sbe, bp)); }
  bool x = std::lexicographical_compare(sa, se, sb, sbe), y = std::lexicographical_compare(sb, sbe, sa, se);
  EQ(sprout::lexicographical_compare(f, l, g, k), x); EQ(sprout::tristate_lexicographical_compare(f, l, g, k), x ? -1 : y ? 1 : 0);
  x = std::lexicographical_compare(sa, se, sb, sbe, lt), y = std::lexicographical_compare(sb, sbe, sa, se, lt);
  EQ(sprout::lexicographical_compare(f, l, g, k, lt), x); EQ(sprout::tristate_lexicographical_compare(f, l, g, k, lt), x ? -1 : y ? 1 : 0);
  E d = n ? sa[n - 1] : 7, e = m ? sb[m - 1] : 7; // terminated sequences: both or neither contain their terminator
  if (n && m) for (int w = 0; w < 2; ++w) {
    auto is = [&](E v, E t) { return w ? !lt(v, t) && !lt(t, v) : v == t; };
    auto less = [&](E v, E t) { return w ? lt(v, t) : v < t; };
    for (int q = 0; q < 2; ++q) {
      E dd = q ? -31415 : d, ee = q ? -31416 : e;
      E const* ta = std::find_if(sa, se, [&](E v) { return is(v, dd); }); E const* tb = std::find_if(sb, sbe, [&](E v) { return is(v, ee); });
      if ((ta == se) != (tb == sbe)) continue;
      bool u = std::lexicographical_compare(sa, ta, sb, tb, less), v = std::lexicographical_compare(sb, tb, sa, ta, less);
      if (w) EQ(sprout::tristate_lexicographical_compare(f, l, dd, g, k, ee, lt), u ? -1 : v ? 1 : 0);
      else EQ(sprout::tristate_lexicographical_compare(f, l, dd, g, k, ee), u ? -1 : v ? 1 : 0);
    }
  }
}
template<class I, class J> void inc(Run& R, std::vector<E> va, std::vector<E> vb, const char* cat) {
  Cmp lt; bool o = R.r.chance(2);
  if (o) { std::sort(va.begin(), va.end()); std::sort(vb.begin(), vb.end()); } else { std::sort(va.begin(), va.end(), lt); std::sort(vb.begin(), vb.end(), lt); }
  Buf<E> A(va), B(vb);
  E* a = A.begin(); E* b = B.begin(); long n = va.size(), m = vb.size();
  I f = Mk<I>::at(a), l = Mk<I>::at(a + n); J g = Mk<J>::at(b), k = Mk<J>::at(b + m);
  if (o) EQ(sprout::includes(f, l, g, k), std::includes(A.cb(), A.ce(), B.cb(), B.ce()));
  else EQ(sprout::includes(f, l, g, k, lt), std::includes(A.cb(), A.ce(), B.cb(), B.ce(), lt));
}
int main(int argc, char** argv) {
  Run R(argc, argv);
  while (R.more()) {
    shake(R.r);
    int mode = (int)R.r.range(0, 5), n = gen_len(R.r, 400), m = R.r.chance(3) ? gen_len(R.r, 400) : n + (int)R.r.range(-1, 1); if (m < 0) m = 0;
    std::vector<E> a = gen_vec<E>(R.r, n, mode), b = gen_vec<E>(R.r, m, mode);
    if (R.r.chance(2)) {
      for (int i = 0; i < n && i < m; ++i) b[i] = a[i];
      if (R.r.chance(3)) for (int i = m - 1; i > 0; --i) std::swap(b[i], b[R.r.range(0, i)]);
      if (m && R.r.chance(2)) b[R.r.chance(3) ? m - 1 : R.r.range(0, m - 1)] ^= 1;
    } else if (R.r.chance(2)) { b.clear(); for (int i = 0; i < n; ++i) if (R.r.chance(2)) b.push_back(a[i]); if (!b.empty() && R.r.chance(4)) b[R.r.range(0, b.size() - 1)] ^= 1; }
    R.note(hash(a, hash(b)));
    go<E const*, E const*>(R, a, b, "random access"); go<Fwd, Fwd>(R, a, b, "forward");
    go<E const*, Fwd>(R, a, b, "random access/forward");
    inc<E const*, E const*>(R, a, b, "random access"); inc<Fwd, Fwd>(R, a, b, "forward"); inc<E const*, Fwd>(R, a, b, "random access/forward");
  }
  return R.done();
}
'''


def natives(tier):
    return [Native('comparisons', NAT, secs=(8, 60))]
