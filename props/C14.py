import z3
from svc.driver import Unit, Native, lemmas
from svc.contract import Contract
from . import C13, iterspec as I, sortspec as S
from .C13 import PRE

LEAN = ['bag.lean']
HDR = ''.join('#include <sprout/algorithm/cxx14/%s.hpp>\n' % x for x in '''inplace_merge make_heap next_permutation nth_element partial_sort partial_sort_copy pop_heap prev_permutation push_heap random_shuffle random_swap
 shuffle sort sort_heap stable_sort sample bogo_sort bozo_sort'''.split())

NAT = PRE + r'''
#include <random>
static bool ok(V const& v) { return std::is_sorted(v.begin(), v.end(), Cmp()); }
static V ids(V v) { std::sort(v.begin(), v.end()); return v; }
#define PERM(got, what) CK(ids(got) == ids(a), what " keeps the elements", cat, in, "got", vs(got))
template<class I> void ra(Run& R, V const& a, char const* cat) {
  long n = (long)a.size(); std::string in = "a=" + vs(a); long m = R.r.range(0, n);
  { W<I> w(a); sprout::sort(w.f(), w.l(), Cmp()); V g = w.get(); CK(ok(g), "sort", cat, in, "got", vs(g)); PERM(g, "sort"); }
  { W<I> w(a); sprout::sort(w.f(), w.l()); V e = ids(a); SAME(w.get(), e, "sort by <", in); }
  { W<I> w(a); sprout::stable_sort(w.f(), w.l(), Cmp()); SAME(w.get(), srt(a), "stable_sort", in); W<I> u(a); sprout::stable_sort(u.f(), u.l()); SAME(u.get(), ids(a), "stable_sort by <", in); }
  { W<I> w(a); sprout::partial_sort(w.f(), w.at(m), w.l(), Cmp()); V g = w.get(), s = srt(a); PERM(g, "partial_sort"); for (long i = 0; i < m; ++i) CK(!Cmp()(g[i], s[i]) && !Cmp()(s[i], g[i]), "partial_sort", cat, in, "middle", m, "got", vs(g)); }
  { long k = R.r.range(0, n + 3); W<I> w(a); W<I> o((V(k, Z))); I r = sprout::partial_sort_copy(w.f(), w.l(), o.f(), o.l(), Cmp()); long c = std::min(k, n); V g = o.get(), s = srt(a); SAMEN(o.pos(r), c, "partial_sort_copy", in); SAME(w.get(), a, "partial_sort_copy source", in);
    for (long i = 0; i < k; ++i) CK(i < c ? !Cmp()(g[i], s[i]) && !Cmp()(s[i], g[i]) : g[i] == Z, "partial_sort_copy", cat, in, "got", vs(g)); }
  { if (m == n && n) --m; W<I> w(a); sprout::nth_element(w.f(), w.at(m), w.l(), Cmp()); V g = w.get(), s = srt(a); PERM(g, "nth_element"); if (m < n) { CK(!Cmp()(g[m], s[m]) && !Cmp()(s[m], g[m]), "nth_element value", cat, in, "nth", m, "got", vs(g)); for (long i = 0; i < n; ++i) CK(i < m ? !Cmp()(g[m], g[i]) : !Cmp()(g[i], g[m]), "nth_element partition", cat, in, "nth", m, "got", vs(g)); } }
  { W<I> w(a); sprout::make_heap(w.f(), w.l(), Cmp()); V g = w.get(); CK(std::is_heap(g.begin(), g.end(), Cmp()), "make_heap", cat, in, "got", vs(g)); PERM(g, "make_heap");
    W<I> s(g); sprout::sort_heap(s.f(), s.l(), Cmp()); V h = s.get(); CK(ok(h), "sort_heap", cat, in, "got", vs(h)); PERM(h, "sort_heap");
    if (n) { W<I> p(g); sprout::pop_heap(p.f(), p.l(), Cmp()); h = p.get(); CK(std::is_heap(h.begin(), h.end() - 1, Cmp()) && h.back() == g[0], "pop_heap", cat, in, "got", vs(h)); PERM(h, "pop_heap");
      V q = a; std::make_heap(q.begin(), q.end() - 1, Cmp()); W<I> u(q); sprout::push_heap(u.f(), u.l(), Cmp()); h = u.get(); CK(std::is_heap(h.begin(), h.end(), Cmp()), "push_heap", cat, in, "got", vs(h)); PERM(h, "push_heap"); } }
  { W<I> w(a); sprout::make_heap(w.f(), w.l()); V g = w.get(); CK(std::is_heap(g.begin(), g.end()), "make_heap by <", cat, in); sprout::sort_heap(w.f(), w.l()); SAME(w.get(), ids(a), "sort_heap by <", in); }
  std::mt19937 e((unsigned)R.r.next());
  { W<I> w(a); sprout::shuffle(w.f(), w.l(), e); PERM(w.get(), "shuffle"); W<I> u(a); sprout::random_swap(u.f(), u.l(), e); V g = u.get(); long d = 0; for (long i = 0; i < n; ++i) d += g[i] != a[i]; PERM(g, "random_swap"); CK(d == 0 || d == 2, "random_swap exchanges at most two elements", cat, in, "got", vs(g)); W<I> x(a); sprout::random_shuffle(x.f(), x.l(), [&](long k) { return (long)(e() % k); }); PERM(x.get(), "random_shuffle"); }
  { long k = R.r.range(0, n + 2), c = std::min(k, n); W<I> w(a); W<I> o((V(k, Z))); I r = sprout::sample(w.f(), w.l(), o.f(), k, e); SAMEN(o.pos(r), c, "sample", in); V g = o.pre(r), s = ids(a), h = ids(g); CK(std::includes(s.begin(), s.end(), h.begin(), h.end()), "sample takes elements of the population", cat, in, "got", vs(g)); }
  if (n <= 4) { W<I> w(a); sprout::bogo_sort(w.f(), w.l(), e, Cmp()); CK(ok(w.get()), "bogo_sort", cat, in); PERM(w.get(), "bogo_sort"); W<I> u(a); sprout::bozo_sort(u.f(), u.l(), e, Cmp()); CK(ok(u.get()), "bozo_sort", cat, in); PERM(u.get(), "bozo_sort"); }
}
template<class I> void bid(Run& R, V const& a, char const* cat) {
  long n = (long)a.size(); std::string in = "a=" + vs(a); long m = R.r.range(0, n);
  { V s = a; std::stable_sort(s.begin(), s.begin() + m, Cmp()); std::stable_sort(s.begin() + m, s.end(), Cmp()); W<I> w(s); sprout::inplace_merge(w.f(), w.at(m), w.l(), Cmp()); SAME(w.get(), srt(s), "inplace_merge", in); }
  for (int k = 0; k < 2; ++k) { V s(a.begin(), a.begin() + std::min<long>(n, R.r.chance(3) ? 200 : 6)); if (k) s = srt(s); W<I> w(s), u(s); V e = s, f = s; bool p = std::next_permutation(e.begin(), e.end(), Cmp()), q = std::prev_permutation(f.begin(), f.end(), Cmp());
    CK(sprout::next_permutation(w.f(), w.l(), Cmp()) == p, "next_permutation result", cat, "a=" + vs(s)); SAME(w.get(), e, "next_permutation", vs(s)); CK(sprout::prev_permutation(u.f(), u.l(), Cmp()) == q, "prev_permutation result", cat, "a=" + vs(s)); SAME(u.get(), f, "prev_permutation", vs(s)); }
}
int main(int argc, char** argv) { Run R(argc, argv);
  while (R.more()) { shake(R.r); V a = gen(R.r, R.r.chance(60) ? (int)R.r.range(990, 2100) : gen_len(R.r, 300)); R.note(hash(a)); if (R.r.chance(8)) for (std::size_t i = 0; i < a.size(); ++i) a[i] = (int)((i < a.size() / 2 ? i : a.size() - i) % 32 << 12 | (i & 4095));
    ra<int*>(R, a, "pointer"); ra<RAI>(R, a, "random access"); bid<int*>(R, a, "pointer"); bid<B>(R, a, "bidirectional"); }
  return R.done(); }
'''


def src(names, text):
    t = C13.ITERS + ''.join('#include <sprout/algorithm/cxx14/%s.hpp>\n' % n for n in names.split())
    for i, x in enumerate(text.split(';')):
        if x.strip():
            t += 'void call_%d(int* f, int* l, int* m, int* a, int* b, Cmp& lt) { sprout::%s; }\n' % (i, x.strip())
    return t


def units(tier):
    u = lambda name, cs, names, text, **k: Unit(name, src(names, text), cs, ext=I.EXT, **k)
    return [
        u('small', S.swap_c() + S.sort345(), 'sort', 'detail::sort5<Cmp&>(f, l, m, a, b, lt)'),
        u('insertion', S.swap_c() + S.sort345() + S.insertion(), 'sort', 'detail::insertion_sort_3<Cmp&>(f, l, lt); detail::insertion_sort_incomplete<Cmp&>(f, l, lt)'),
        u('heap', S.swap_c() + S.heaps(), 'push_heap pop_heap make_heap sort_heap partial_sort', 'push_heap(f, l, lt); pop_heap(f, l, lt); make_heap(f, l, lt); sort_heap(f, l, lt); partial_sort(f, m, l, lt)'),
    ]


def natives(tier):
    return [Native('sort_native', NAT.replace('@HDR@', HDR), secs=(8, 60))]
