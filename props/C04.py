from svc.driver import Unit, Native
from svc.cxx import ITERS
from . import iterspec as S, seqspec as Q, algspec as G

H = lambda *a: ''.join('#include <sprout/algorithm/%s.hpp>\n' % x for x in a)
INC = H('lower_bound', 'upper_bound', 'equal_range', 'binary_search', 'partition_point')
INST = ''.join(('template {0} sprout::lower_bound<{0},E,Cmp>({0},{0},E const&,Cmp);\ntemplate {0} sprout::lower_bound<{0},E>({0},{0},E const&);\n'
                'template {0} sprout::upper_bound<{0},E,Cmp>({0},{0},E const&,Cmp);\ntemplate {0} sprout::upper_bound<{0},E>({0},{0},E const&);\n'
                'template sprout::pair<{0},{0}> sprout::equal_range<{0},E,Cmp>({0},{0},E const&,Cmp);\n'
                'template sprout::pair<{0},{0}> sprout::equal_range<{0},E>({0},{0},E const&);\n'
                'template bool sprout::binary_search<{0},E,Cmp>({0},{0},E const&,Cmp);\ntemplate bool sprout::binary_search<{0},E>({0},{0},E const&);\n'
                ).format(i) for i in ('Ra', 'Fwd'))
PP = ''.join('template {0} sprout::partition_point<{0},Pred>({0},{0},Pred);\n'.format(i) for i in ('Ra', 'Fwd', 'Bid'))
DI = '#include <sprout/iterator/distance.hpp>\n#include <sprout/iterator/next.hpp>\n#include <sprout/iterator/prev.hpp>\n#include <sprout/iterator/advance.hpp>\n'


def units(tier):
    cs, ppc, ppi = G.ordered()
    cs2, ppc2, ppi2 = G.ordered()
    return [Unit('bounds', ITERS + INC + INST, cs + G.motion(), ext=S.EXT),
            Unit('pp14', ITERS + H('partition_point') + PP, [ppc] + G.motion(), ext=S.EXT),
            Unit('pp11', ITERS + H('partition_point') + PP, [Q.Contract('sprout::partition_point', 'A A', ppc.fn), ppi] + G.motion(), ext=S.EXT, std='c++11')]


NAT = r'''
#include "natalg.hpp"
''' + INC + DI + r'''
using namespace svc;
template<class I> void go(Run& R, std::vector<E> va, const char* cat) {
  BPred bp; Cmp lt; Pred p; long n = va.size();
  E v = n && R.r.chance(2) ? va[R.r.range(0, n - 1)] : (E)R.r.range(-1, 40);
  for (int o = 0; o < 2; ++o) {
    if (o) std::sort(va.begin(), va.end()); else std::sort(va.begin(), va.end(), lt);
    Buf<E> A(va); E* a = A.begin(); E const* sa = A.cb(); E const* se = A.ce();
    I f = Mk<I>::at(a), l = Mk<I>::at(a + n);
    #define EQ(x, y) do { long o_ = (x), s = (y); CK(o_ == s, #x, "iterator", cat, "a", show(va), "v", v, "mask", g_mask, "got", o_, "expected", s); } while (0)
    if (o) {
      EQ(raw(sprout::lower_bound(f, l, v)) - a, std::lower_bound(sa, se, v) - sa); EQ(raw(sprout::upper_bound(f, l, v)) - a, std::upper_bound(sa, se, v) - sa);
      EQ(raw(sprout::equal_range(f, l, v).first) - a, std::equal_range(sa, se, v).first - sa); EQ(raw(sprout::equal_range(f, l, v).second) - a, std::equal_range(sa, se, v).second - sa);
      EQ(sprout::binary_search(f, l, v), std::binary_search(sa, se, v));
    } else {
      EQ(raw(sprout::lower_bound(f, l, v, lt)) - a, std::lower_bound(sa, se, v, lt) - sa); EQ(raw(sprout::upper_bound(f, l, v, lt)) - a, std::upper_bound(sa, se, v, lt) - sa);
      EQ(raw(sprout::equal_range(f, l, v, lt).first) - a, std::equal_range(sa, se, v, lt).first - sa); EQ(raw(sprout::equal_range(f, l, v, lt).second) - a, std::equal_range(sa, se, v, lt).second - sa);
      EQ(sprout::binary_search(f, l, v, lt), std::binary_search(sa, se, v, lt));
    }
  }
  std::stable_partition(va.begin(), va.end(), p);
  Buf<E> A(va); E* a = A.begin(); E const* sa = A.cb(); E const* se = A.ce();
  I f = Mk<I>::at(a), l = Mk<I>::at(a + n);
  EQ(raw(sprout::partition_point(f, l, p)) - a, std::partition_point(sa, se, p) - sa);
}
int main(int argc, char** argv) {
  Run R(argc, argv);
  while (R.more()) {
    shake(R.r);
    std::vector<E> a = gen_vec<E>(R.r, gen_len(R.r, 600));
    R.note(hash(a));
    go<E const*>(R, a, "random access"); go<Fwd>(R, a, "forward"); go<Bid>(R, a, "bidirectional");
  }
  return R.done();
}
'''


def natives(tier):
    return [Native('binary_search', NAT, secs=(6, 60)), Native('binary_search11', NAT.replace('int main', '\nint main'), std='c++11', secs=(4, 30))]
