from svc.driver import Unit, Native
from svc.cxx import ITERS
from . import iterspec as S

T = ['all_of', 'any_of', 'none_of', 'one_of']
INC = ''.join('#include <sprout/algorithm/%s.hpp>\n#include <sprout/algorithm/%s_equal.hpp>\n' % (x, x) for x in T) + \
    '#include <sprout/algorithm/count.hpp>\n#include <sprout/algorithm/count_if.hpp>\n#include <sprout/algorithm/is_partitioned.hpp>\n'
INST = ''
for it in ('Ra', 'Fwd'):
    for x in T:
        INST += 'template bool sprout::%s<%s,Pred>(%s,%s,Pred);\n' % (x, it, it, it)
        INST += 'template bool sprout::%s_equal<%s,E>(%s,%s,E const&);\n' % (x, it, it, it)
    INST += 'template std::ptrdiff_t sprout::count<%s,E>(%s,%s,E const&);\n' % (it, it, it)
    INST += 'template std::ptrdiff_t sprout::count_if<%s,Pred>(%s,%s,Pred);\n' % (it, it, it)
    INST += 'template bool sprout::is_partitioned<%s,Pred>(%s,%s,Pred);\n' % (it, it, it)


def units(tier):
    cs = []
    for x, w in (('all_of', 'all'), ('any_of', 'any'), ('none_of', 'none')):
        cs += S.quant(x, 'pred', w) + S.quant(x + '_equal', 'value', w)
    cs += S.one_of_like('one_of', 'pred') + S.one_of_like('one_of_equal', 'value')
    cs += S.count_like('count', 'value') + S.count_like('count_if', 'pred')
    cs += S.is_partitioned_c()
    cs += S.find_like('find_if_not', 'pred', True)[:2]
    return [Unit('quant', ITERS + INC + INST, cs, ext=S.EXT)]


NAT = r'''
#include "natalg.hpp"
''' + INC + r'''
using namespace svc;
template<class I> void go(Run& R, std::vector<E> const& va, const char* cat) {
  Buf<E> A(va); E* a = A.begin(); long n = va.size(); E const* sa = A.cb(); E const* se = A.ce();
  I f = Mk<I>::at(a), l = Mk<I>::at(a + n); Pred p;
  E v = n && R.r.chance(2) ? va[R.r.range(0, n - 1)] : (E)R.r.range(-1, 3);
  long c = std::count(sa, se, v), ci = std::count_if(sa, se, p);
  #define EQ(x, y) do { long o = (x), s = (y); CK(o == s, #x, "iterator", cat, "a", show(va), "v", v, "mask", g_mask, "got", o, "expected", s); } while (0)
  EQ(sprout::count(f, l, v), c); EQ(sprout::count_if(f, l, p), ci);
  EQ(sprout::all_of(f, l, p), ci == n); EQ(sprout::any_of(f, l, p), ci > 0); EQ(sprout::none_of(f, l, p), ci == 0); EQ(sprout::one_of(f, l, p), ci == 1);
  EQ(sprout::all_of_equal(f, l, v), c == n); EQ(sprout::any_of_equal(f, l, v), c > 0); EQ(sprout::none_of_equal(f, l, v), c == 0); EQ(sprout::one_of_equal(f, l, v), c == 1);
  EQ(sprout::is_partitioned(f, l, p), std::is_partitioned(sa, se, p));
}
int main(int argc, char** argv) {
  Run R(argc, argv);
  while (R.more()) {
    shake(R.r);
    std::vector<E> a = gen_vec<E>(R.r, gen_len(R.r, 600));
    if (R.r.chance(3)) { Pred p; std::stable_partition(a.begin(), a.end(), p); if (!a.empty() && R.r.chance(3)) a[R.r.range(0, a.size() - 1)] ^= 1; }
    R.note(hash(a));
    go<E const*>(R, a, "random access"); go<Fwd>(R, a, "forward"); go<Bid>(R, a, "bidirectional");
  }
  return R.done();
}
'''


def natives(tier):
    return [Native('quantifiers', NAT, secs=(6, 60))]
