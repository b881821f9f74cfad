from svc.driver import Unit, Native
from svc.cxx import ITERS
from . import iterspec as S
from . import seqspec as Q

SRC = ITERS + r'''
#include <sprout/algorithm/find.hpp>
#include <sprout/algorithm/find_if.hpp>
#include <sprout/algorithm/find_if_not.hpp>
template Ra sprout::find<Ra,E>(Ra,Ra,E const&);
template Fwd sprout::find<Fwd,E>(Fwd,Fwd,E const&);
template Ra sprout::find_if<Ra,Pred>(Ra,Ra,Pred);
template Fwd sprout::find_if<Fwd,Pred>(Fwd,Fwd,Pred);
template Ra sprout::find_if_not<Ra,Pred>(Ra,Ra,Pred);
template Fwd sprout::find_if_not<Fwd,Pred>(Fwd,Fwd,Pred);
'''
ADJ = ITERS + r'''
#include <sprout/algorithm/adjacent_find.hpp>
#include <sprout/algorithm/find_first_of.hpp>
template Ra sprout::adjacent_find<Ra,BPred>(Ra,Ra,BPred);
template Fwd sprout::adjacent_find<Fwd,BPred>(Fwd,Fwd,BPred);
template Ra sprout::adjacent_find<Ra>(Ra,Ra);
template Fwd sprout::adjacent_find<Fwd>(Fwd,Fwd);
template Ra sprout::find_first_of<Ra,Ra,BPred>(Ra,Ra,Ra,Ra,BPred);
template Fwd sprout::find_first_of<Fwd,Fwd,BPred>(Fwd,Fwd,Fwd,Fwd,BPred);
'''
SEARCH = ITERS + r'''
#include <sprout/algorithm/search.hpp>
template Ra sprout::search<Ra,Ra>(Ra,Ra,Ra,Ra);
template Fwd sprout::search<Fwd,Fwd>(Fwd,Fwd,Fwd,Fwd);
template Ra sprout::search<Ra,Ra,BPred>(Ra,Ra,Ra,Ra,BPred);
template Fwd sprout::search<Fwd,Fwd,BPred>(Fwd,Fwd,Fwd,Fwd,BPred);
'''
FEND = ITERS + r'''
#include <sprout/algorithm/find_end.hpp>
template Ra sprout::find_end<Ra,Ra>(Ra,Ra,Ra,Ra);
template Fwd sprout::find_end<Fwd,Fwd>(Fwd,Fwd,Fwd,Fwd);
template Bid sprout::find_end<Bid,Bid>(Bid,Bid,Bid,Bid);
template Ra sprout::find_end<Ra,Ra,BPred>(Ra,Ra,Ra,Ra,BPred);
template Fwd sprout::find_end<Fwd,Fwd,BPred>(Fwd,Fwd,Fwd,Fwd,BPred);
template Bid sprout::find_end<Bid,Bid,BPred>(Bid,Bid,Bid,Bid,BPred);
'''
SN = ITERS + r'''
#include <sprout/algorithm/search_n.hpp>
#include <sprout/algorithm/find.hpp>
template Ra sprout::search_n<Ra,int,E>(Ra,Ra,int,E const&);
template Fwd sprout::search_n<Fwd,int,E>(Fwd,Fwd,int,E const&);
template Ra sprout::search_n<Ra,int,E,BPred>(Ra,Ra,int,E const&,BPred);
template Fwd sprout::search_n<Fwd,int,E,BPred>(Fwd,Fwd,int,E const&,BPred);
'''


def units(tier):
    return [Unit('find', SRC, S.find_like('find', 'value') + S.find_like('find_if', 'pred') + S.find_like('find_if_not', 'pred', True), ext=S.EXT),
            Unit('adjacent', ADJ, Q.adjacent_find_c() + Q.find_first_of_c(), ext=S.EXT),
            Unit('search', SEARCH, Q.search_c() + Q.search_one_c(0) + Q.mismatch_parts()[:1] + Q.mismatch_parts()[2:3], ext=S.EXT),
            Unit('find_end', FEND, Q.find_end_c() + Q.search_one_c(0) + Q.mismatch_parts()[:1] + Q.mismatch_parts()[2:3], ext=S.EXT),
            Unit('search_n', SN, Q.search_n_c() + S.find_like('find', 'value'), ext=S.EXT)]


NAT = r'''
#include "natalg.hpp"
#include <sprout/algorithm/find.hpp>
#include <sprout/algorithm/find_if.hpp>
#include <sprout/algorithm/find_if_not.hpp>
#include <sprout/algorithm/adjacent_find.hpp>
#include <sprout/algorithm/find_first_of.hpp>
#include <sprout/algorithm/find_end.hpp>
#include <sprout/algorithm/search.hpp>
#include <sprout/algorithm/search_n.hpp>
#include <sprout/array.hpp>
using namespace svc;
template<class I, class J> void go(Run& R, std::vector<E> const& va, std::vector<E> const& vb, const char* cat) {
  Buf<E> A(va), B(vb);
  E* a = A.begin(); E* b = B.begin(); long n = va.size(), m = vb.size();
  E const* sa = A.cb(); E const* se = A.ce(); E const* sb = B.cb(); E const* sbe = B.ce();
  I f = Mk<I>::at(a), l = Mk<I>::at(a + n); J g = Mk<J>::at(b), k = Mk<J>::at(b + m);
  E v = n && R.r.chance(2) ? va[R.r.range(0, n - 1)] : (E)R.r.range(-1, 3);
  int cnt = (int)R.r.range(0, 5); BPred bp; Pred p;
  #define EQ(x, y) do { long o = raw(x) - a, s = (y) - sa; CK(o == s, #x, "iterator", cat, "a", show(va), "b", show(vb), "v", v, "count", cnt, "mask", g_mask, "mod", g_eqm, "got", o, "expected", s); } while (0)
  EQ(sprout::find(f, l, v), std::find(sa, se, v));
  EQ(sprout::find_if(f, l, p), std::find_if(sa, se, p));
  EQ(sprout::find_if_not(f, l, p), std::find_if_not(sa, se, p));
  EQ(sprout::adjacent_find(f, l), std::adjacent_find(sa, se));
  EQ(sprout::adjacent_find(f, l, bp), std::adjacent_find(sa, se, bp));
  EQ(sprout::find_first_of(f, l, g, k), std::find_first_of(sa, se, sb, sbe));
  EQ(sprout::find_first_of(f, l, g, k, bp), std::find_first_of(sa, se, sb, sbe, bp));
  EQ(sprout::search(f, l, g, k), std::search(sa, se, sb, sbe));
  EQ(sprout::search(f, l, g, k, bp), std::search(sa, se, sb, sbe, bp));
  EQ(sprout::find_end(f, l, g, k), std::find_end(sa, se, sb, sbe));
  EQ(sprout::find_end(f, l, g, k, bp), std::find_end(sa, se, sb, sbe, bp));
  EQ(sprout::search_n(f, l, cnt, v), std::search_n(sa, se, cnt, v));
  EQ(sprout::search_n(f, l, cnt, v, bp), std::search_n(sa, se, cnt, v, bp));
}
int main(int argc, char** argv) {
  Run R(argc, argv);
  while (R.more()) {
    shake(R.r);
    int mode = (int)R.r.range(0, 5), n = gen_len(R.r, 600), m = R.r.chance(2) ? (int)R.r.range(0, 4) : gen_len(R.r, 40);
    std::vector<E> a = gen_vec<E>(R.r, n, mode), b = gen_vec<E>(R.r, m, mode);
    if (n && m && m <= n && R.r.chance(2)) {        // make the second an actual piece of the first, sometimes at the end, sometimes perturbed
      int at = R.r.chance(3) ? n - m : R.r.chance(3) ? 0 : (int)R.r.range(0, n - m);
      std::copy(a.begin() + at, a.begin() + at + m, b.begin());
      if (R.r.chance(4)) b[R.r.range(0, m - 1)] ^= 1;
    }
    R.note(hash(a, hash(b)));
    go<E const*, E const*>(R, a, b, "random access"); go<Fwd, Fwd>(R, a, b, "forward"); go<Bid, Bid>(R, a, b, "bidirectional");
    go<E const*, Fwd>(R, a, b, "random access/forward"); go<Bid, E const*>(R, a, b, "bidirectional/random access");
  }
  return R.done();
}
'''


def natives(tier):
    return [Native('linear_search', NAT, secs=(8, 60))]
