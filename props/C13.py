import z3
from svc.driver import Unit, Native, lemmas
from svc.cxx import ITERS
from svc.contract import Contract
from . import iterspec as S, mutspec as M

HDR = ''.join('#include <sprout/algorithm/cxx14/%s.hpp>\n' % x for x in '''clamp_range copy copy_backward copy_if copy_n copy_until copy_while fill fill_n for_each for_each_n gather generate generate_n
 iter_swap merge move move_backward partition partition_copy remove remove_copy remove_copy_if remove_if replace replace_copy replace_copy_if replace_if reverse reverse_copy rotate rotate_copy
 set_difference set_intersection set_symmetric_difference set_union stable_partition swap_ranges transform unique unique_copy'''.split())

# element: key in the high bits, identity in the low ones, so that stability shows
LEAN = ['bag.lean']
PRE = r'''
#include "native.hpp"
#include <algorithm>
#include <iterator>
#include <functional>
@HDR@
using namespace svc;
template<class C, bool RA = false> struct It {
  typedef C iterator_category; typedef int value_type; typedef std::ptrdiff_t difference_type; typedef int* pointer; typedef int& reference;
  int* p; int* lo; int* hi;
  It() : p(), lo(), hi() {} It(int* p_, int* l, int* h) : p(p_), lo(l), hi(h) {}
  int& operator*() const { CK(p >= lo && p < hi, "access outside the range"); return *p; }
  It& operator++() { CK(p < hi, "iterator moved past the end"); ++p; return *this; } It operator++(int) { It t = *this; ++*this; return t; }
  It& operator--() { CK(p > lo, "iterator moved before the begin"); --p; return *this; } It operator--(int) { It t = *this; --*this; return t; }
  It& operator+=(std::ptrdiff_t n) { CK(n <= hi - p && n >= lo - p, "iterator moved out of the range"); p += n; return *this; } It& operator-=(std::ptrdiff_t n) { return *this += -n; }
  friend It operator+(It a, std::ptrdiff_t n) { return a += n; } friend It operator-(It a, std::ptrdiff_t n) { return a -= n; } friend std::ptrdiff_t operator-(It a, It b) { return a.p - b.p; }
  int& operator[](std::ptrdiff_t n) const { return *(*this + n); }
  friend bool operator==(It a, It b) { return a.p == b.p; } friend bool operator!=(It a, It b) { return a.p != b.p; } friend bool operator<(It a, It b) { return a.p < b.p; } friend bool operator>(It a, It b) { return a.p > b.p; } friend bool operator<=(It a, It b) { return a.p <= b.p; } friend bool operator>=(It a, It b) { return a.p >= b.p; }
};
typedef It<std::forward_iterator_tag> F; typedef It<std::bidirectional_iterator_tag> B; typedef It<std::random_access_iterator_tag> RAI;
typedef std::vector<int> V;
static int g_key[32]; static std::uint64_t g_mask; static int g_mod;
static void shake(Rng& r) { int w = r.chance(3) ? 1 : (int)r.range(0, 31); for (auto& k : g_key) k = (int)r.range(0, w); g_mask = r.chance(3) ? r.next() : r.chance(2) ? (r.next() & r.next()) : (r.next() | r.next()); g_mod = (int)r.range(1, 6); }
struct Cmp { bool operator()(int a, int b) const { return g_key[(a >> 12) & 31] < g_key[(b >> 12) & 31]; } };
struct Pr { bool operator()(int a) const { return (g_mask >> ((a >> 12) & 63)) & 1; } };
struct BP { bool operator()(int a, int b) const { return (a >> 12) % g_mod == (b >> 12) % g_mod; } };
static V gen(Rng& r, int n) { V v(n); int w = r.chance(2) ? (int)r.range(0, 3) : 31, i = (int)r.range(0, 1) * 2048; bool tag = !r.chance(4); for (auto& x : v) x = ((int)r.range(0, w) << 12) | (tag ? (i++ & 4095) : 0);
  switch (r.range(0, 7)) { case 0: std::stable_sort(v.begin(), v.end(), Cmp()); break; case 1: std::stable_sort(v.rbegin(), v.rend(), Cmp()); break; default: ; } return v; }
static V srt(V v) { std::stable_sort(v.begin(), v.end(), Cmp()); return v; }
static std::string vs(V const& v) { std::string s = "["; for (std::size_t i = 0; i < v.size(); ++i) { if (i > 70) { s += "..."; break; } s += (i ? "," : "") + std::to_string(v[i] >> 12) + "." + std::to_string(v[i] & 4095); } return s + "] n=" + std::to_string(v.size()); }
template<class I> struct Mk { static I at(int* p, int* lo, int* hi) { return I(p, lo, hi); } static int* raw(I i) { return i.p; } };
template<> struct Mk<int*> { static int* at(int* p, int*, int*) { return p; } static int* raw(int* p) { return p; } };
// a working copy of a range
template<class I> struct W { Buf<int> b; W(V const& v) : b(v) {} I at(long k) { return Mk<I>::at(b.begin() + k, b.begin(), b.end()); } I f() { return at(0); } I l() { return at((long)b.n); } V get() { return V(b.begin(), b.end()); } V pre(I e) { return V(b.begin(), Mk<I>::raw(e)); } long pos(I e) { return Mk<I>::raw(e) - b.begin(); } };
static const int Z = -7;
#define OUT(n) V(n, Z)
#define SAME(got, exp, what, in) do { V gv_ = (got), ev_ = (exp); CK(gv_ == ev_, what, cat, "input", in, "got", vs(gv_), "expected", vs(ev_)); } while (0)
#define SAMEN(got, exp, what, in) do { long gn_ = (got), en_ = (exp); CK(gn_ == en_, what, cat, "input", in, "got", gn_, "expected", en_); } while (0)
'''

NAT = PRE + r'''
// output of exactly m elements into a buffer of exactly that size; nothing else written
#define OUTPUT(call, ref, what) do { V e_; { V& o_ = e_; (void)o_; ref; } W<I> w_((V(e_.size(), Z))); I r_ = w_.f(); { I o = w_.f(); r_ = call; } SAME(w_.get(), e_, what, in); SAMEN(w_.pos(r_), (long)e_.size(), what, in); } while (0)
#define BACK std::back_inserter(o_)
template<class I, class J> void fwd(Run& R, V const& a, V const& b, char const* cat) {
  long n = (long)a.size(); std::string in = "a=" + vs(a) + " b=" + vs(b);
  W<J> A(a), Bb(b); J f = A.f(), l = A.l(); V sa = srt(a), sb = srt(b); W<J> SA(sa), SB(sb); long m = R.r.range(0, n);
  int x = n ? a[R.r.range(0, n - 1)] : 0, y = 99 << 12;
  auto eq = [&](int t) { return t == x; };
  OUTPUT(sprout::copy(f, l, o), std::copy(a.begin(), a.end(), BACK), "copy"); OUTPUT(sprout::move(f, l, o), std::copy(a.begin(), a.end(), BACK), "move");
  OUTPUT(sprout::copy_n(f, m, o), std::copy_n(a.begin(), m, BACK), "copy_n"); OUTPUT(sprout::copy_if(f, l, o, Pr()), std::copy_if(a.begin(), a.end(), BACK, Pr()), "copy_if");
  auto st = std::find_if_not(a.begin(), a.end(), Pr()), su = std::find_if(a.begin(), a.end(), Pr());
  OUTPUT(sprout::copy_while(f, l, o, Pr()).second, std::copy(a.begin(), st, BACK), "copy_while"); OUTPUT(sprout::copy_until(f, l, o, Pr()).second, std::copy(a.begin(), su, BACK), "copy_until");
  OUTPUT(sprout::remove_copy(f, l, o, x), std::remove_copy(a.begin(), a.end(), BACK, x), "remove_copy"); OUTPUT(sprout::remove_copy_if(f, l, o, Pr()), std::remove_copy_if(a.begin(), a.end(), BACK, Pr()), "remove_copy_if");
  OUTPUT(sprout::replace_copy(f, l, o, x, y), std::replace_copy(a.begin(), a.end(), BACK, x, y), "replace_copy"); OUTPUT(sprout::replace_copy_if(f, l, o, Pr(), y), std::replace_copy_if(a.begin(), a.end(), BACK, Pr(), y), "replace_copy_if");
  OUTPUT(sprout::rotate_copy(f, A.at(m), l, o), std::rotate_copy(a.begin(), a.begin() + m, a.end(), BACK), "rotate_copy");
  OUTPUT(sprout::unique_copy(f, l, o), std::unique_copy(a.begin(), a.end(), BACK), "unique_copy"); OUTPUT(sprout::unique_copy(f, l, o, BP()), std::unique_copy(a.begin(), a.end(), BACK, BP()), "unique_copy with predicate");
  OUTPUT(sprout::transform(f, l, o, [](int t) { return t * 3 + 1; }), std::transform(a.begin(), a.end(), BACK, [](int t) { return t * 3 + 1; }), "transform");
  { long k = std::min(a.size(), b.size()); OUTPUT(sprout::transform(f, A.at(k), Bb.f(), o, [](int t, int u) { return t * 3 - u; }), std::transform(a.begin(), a.begin() + k, b.begin(), BACK, [](int t, int u) { return t * 3 - u; }), "binary transform"); }
  OUTPUT(sprout::merge(SA.f(), SA.l(), SB.f(), SB.l(), o, Cmp()), std::merge(sa.begin(), sa.end(), sb.begin(), sb.end(), BACK, Cmp()), "merge");
  OUTPUT(sprout::set_union(SA.f(), SA.l(), SB.f(), SB.l(), o, Cmp()), std::set_union(sa.begin(), sa.end(), sb.begin(), sb.end(), BACK, Cmp()), "set_union");
  OUTPUT(sprout::set_intersection(SA.f(), SA.l(), SB.f(), SB.l(), o, Cmp()), std::set_intersection(sa.begin(), sa.end(), sb.begin(), sb.end(), BACK, Cmp()), "set_intersection");
  OUTPUT(sprout::set_difference(SA.f(), SA.l(), SB.f(), SB.l(), o, Cmp()), std::set_difference(sa.begin(), sa.end(), sb.begin(), sb.end(), BACK, Cmp()), "set_difference");
  OUTPUT(sprout::set_symmetric_difference(SA.f(), SA.l(), SB.f(), SB.l(), o, Cmp()), std::set_symmetric_difference(sa.begin(), sa.end(), sb.begin(), sb.end(), BACK, Cmp()), "set_symmetric_difference");
  { int lo = (int)R.r.range(0, 20) << 12, hi = lo + ((int)R.r.range(0, 12) << 12); OUTPUT(sprout::clamp_range(f, l, o, lo, hi), for (int t : a) o_.push_back(t < lo ? lo : hi < t ? hi : t), "clamp_range"); }
  { V t, u; for (int v : a) (Pr()(v) ? t : u).push_back(v); W<I> T(OUT(t.size())), U(OUT(u.size())); auto r = sprout::partition_copy(f, l, T.f(), U.f(), Pr()); SAME(T.get(), t, "partition_copy true", in); SAME(U.get(), u, "partition_copy false", in); SAMEN(T.pos(r.first), (long)t.size(), "partition_copy", in); SAMEN(U.pos(r.second), (long)u.size(), "partition_copy", in); }
  SAME(A.get(), a, "source unchanged", in);
  SAMEN(A.pos(sprout::copy_while(f, l, W<I>(OUT(n)).f(), Pr()).first), st - a.begin(), "copy_while source position", in);
  SAMEN(A.pos(sprout::copy_until(f, l, W<I>(OUT(n)).f(), Pr()).first), su - a.begin(), "copy_until source position", in);
  { int c = 0; V s; sprout::for_each(f, l, [&](int t) { s.push_back(t); ++c; }); SAME(s, a, "for_each", in); s.clear(); auto r = sprout::for_each_n(f, m, [&](int t) { s.push_back(t); CK((long)s.size() <= m, "for_each_n visits too many", in); }); SAME(s, V(a.begin(), a.begin() + m), "for_each_n", in); SAMEN(A.pos(r), m, "for_each_n", in); }
}
#define INPLACE(call, ref, what) do { V e_ = a; ref; W<I> w(a); I f = w.f(), l = w.l(); (void)f; (void)l; call; SAME(w.get(), e_, what, in); } while (0)
// prefix up to the returned end
#define SHRINK(call, ref, what) do { V e_ = a; e_.erase(ref, e_.end()); W<I> w(a); I f = w.f(), l = w.l(); I r_ = call; SAME(w.pre(r_), e_, what, in); } while (0)
template<class I> void inplace(Run& R, V const& a, V const& b, char const* cat) {
  long n = (long)a.size(); std::string in = "a=" + vs(a) + " b=" + vs(b); long m = R.r.range(0, n); int x = n ? a[R.r.range(0, n - 1)] : 0, y = 99 << 12;
  INPLACE(sprout::fill(f, l, y), std::fill(e_.begin(), e_.end(), y), "fill"); INPLACE(SAMEN(w.pos(sprout::fill_n(f, m, y)), m, "fill_n", in), std::fill_n(e_.begin(), m, y), "fill_n");
  { int c = 0, d = 0; INPLACE(sprout::generate(f, l, [&] { return ++c; }), std::generate(e_.begin(), e_.end(), [&] { return ++d; }), "generate"); c = d = 0; INPLACE(SAMEN(w.pos(sprout::generate_n(f, m, [&] { return ++c; })), m, "generate_n", in), std::generate_n(e_.begin(), m, [&] { return ++d; }), "generate_n"); }
  INPLACE(sprout::replace(f, l, x, y), std::replace(e_.begin(), e_.end(), x, y), "replace"); INPLACE(sprout::replace_if(f, l, Pr(), y), std::replace_if(e_.begin(), e_.end(), Pr(), y), "replace_if");
  SHRINK(sprout::remove(f, l, x), std::remove(e_.begin(), e_.end(), x), "remove"); SHRINK(sprout::remove_if(f, l, Pr()), std::remove_if(e_.begin(), e_.end(), Pr()), "remove_if");
  SHRINK(sprout::unique(f, l), std::unique(e_.begin(), e_.end()), "unique"); SHRINK(sprout::unique(f, l, BP()), std::unique(e_.begin(), e_.end(), BP()), "unique with predicate");
  INPLACE(SAMEN(w.pos(sprout::rotate(f, w.at(m), l)), n - m, "rotate", in), std::rotate(e_.begin(), e_.begin() + m, e_.end()), "rotate");
  { W<I> w(a); V e(a); I r = sprout::partition(w.f(), w.l(), Pr()); long k = std::count_if(a.begin(), a.end(), Pr()); SAMEN(w.pos(r), k, "partition", in); V g = w.get(); CK(std::is_partitioned(g.begin(), g.end(), Pr()), "partition", cat, in, "got", vs(g)); std::sort(g.begin(), g.end()); std::sort(e.begin(), e.end()); SAME(g, e, "partition keeps the elements", in); }
  { long k = std::min(a.size(), b.size()); W<I> w(a), u(b); I r = sprout::swap_ranges(w.f(), w.at(k), u.f()); V e = a, g = b; std::swap_ranges(e.begin(), e.begin() + k, g.begin()); SAME(w.get(), e, "swap_ranges", in); SAME(u.get(), g, "swap_ranges", in); SAMEN(u.pos(r), k, "swap_ranges", in); }
  if (n) { long i = R.r.range(0, n - 1), j = R.r.range(0, n - 1); INPLACE(sprout::iter_swap(w.at(i), w.at(j)), std::swap(e_[i], e_[j]), "iter_swap"); }
  { long p = R.r.range(0, n), q = R.r.range(p, n), d = R.r.range(0, p); INPLACE(SAMEN(w.pos(sprout::copy(w.at(p), w.at(q), w.at(d))), d + q - p, "copy down", in), std::copy(e_.begin() + p, e_.begin() + q, e_.begin() + d), "copy onto itself downwards"); }
}
template<class I> void bidi(Run& R, V const& a, V const& b, char const* cat) {
  long n = (long)a.size(); std::string in = "a=" + vs(a) + " b=" + vs(b); long m = R.r.range(0, n);
  INPLACE(sprout::reverse(f, l), std::reverse(e_.begin(), e_.end()), "reverse"); { W<I> A(a); I f = A.f(), l = A.l(); OUTPUT(sprout::reverse_copy(f, l, o), std::reverse_copy(a.begin(), a.end(), BACK), "reverse_copy"); }
  INPLACE(SAMEN(w.pos(sprout::stable_partition(f, l, Pr())), std::count_if(a.begin(), a.end(), Pr()), "stable_partition", in), std::stable_partition(e_.begin(), e_.end(), Pr()), "stable_partition");
  { std::function<bool(int)> np = [](int x) { return !Pr()(x); }; W<I> w(a); V e = a; auto q = std::stable_partition(e.begin(), e.begin() + m, np); auto r = std::stable_partition(e.begin() + m, e.end(), Pr()); struct P { typedef int argument_type; bool operator()(int x) const { return Pr()(x); } }; auto s = sprout::gather(w.f(), w.l(), w.at(m), P()); SAME(w.get(), e, "gather", in); SAMEN(w.pos(s.first), q - e.begin(), "gather", in); SAMEN(w.pos(s.second), r - e.begin(), "gather", in); }
  { W<I> A(a); W<I> o(OUT(n)); I r = sprout::copy_backward(A.f(), A.l(), o.l()); SAME(o.get(), a, "copy_backward", in); SAMEN(o.pos(r), 0, "copy_backward", in); W<I> o2(OUT(n)); r = sprout::move_backward(A.f(), A.l(), o2.l()); SAME(o2.get(), a, "move_backward", in); SAMEN(o2.pos(r), 0, "move_backward", in); }
  { long p = R.r.range(0, n), q = R.r.range(p, n), d = R.r.range(q, n); INPLACE(SAMEN(w.pos(sprout::copy_backward(w.at(p), w.at(q), w.at(d))), d - (q - p), "copy up", in), std::copy_backward(e_.begin() + p, e_.begin() + q, e_.begin() + d), "copy_backward onto itself upwards"); }
}
int main(int argc, char** argv) { Run R(argc, argv);
  while (R.more()) { shake(R.r); V a = gen(R.r, gen_len(R.r, 200)), b = gen(R.r, gen_len(R.r, 60)); R.note(hash(a) * 3 + hash(b));
    fwd<int*, int*>(R, a, b, "pointer"); fwd<F, F>(R, a, b, "forward"); inplace<int*>(R, a, b, "pointer"); inplace<F>(R, a, b, "forward"); inplace<B>(R, a, b, "bidirectional"); bidi<int*>(R, a, b, "pointer"); bidi<B>(R, a, b, "bidirectional"); bidi<RAI>(R, a, b, "random access"); }
  return R.done(); }
'''


MI = r"""
struct MI { typedef std::forward_iterator_tag iterator_category; typedef E value_type; typedef std::ptrdiff_t difference_type; typedef E* pointer; typedef E& reference;
  E* p; MI() : p() {} explicit MI(E* q) : p(q) {} E& operator*() const { return *p; } MI& operator++() { ++p; return *this; } MI operator++(int) { MI t(*this); ++p; return t; }
  friend bool operator==(MI const& a, MI const& b) { return a.p == b.p; } friend bool operator!=(MI const& a, MI const& b) { return a.p != b.p; } };
"""


def src(names, text, fw=True):
    """callers that instantiate the algorithms: pointers and (when fw) one-pass-capable forward iterators"""
    t = ITERS + MI + ''.join('#include <sprout/algorithm/cxx14/%s.hpp>\n' % n for n in names.split())
    for k, (s, d) in enumerate((('Ra', 'E*'),) + ((('Fwd', 'MI'),) if fw else ())):
        for i, x in enumerate(text.split(';')):
            if x.strip():
                t += 'void call_%d_%d(%s f, %s l, %s g, %s h, %s r, %s q, %s e, int x, int y, std::ptrdiff_t n) { sprout::%s; }\n' % (k, i, s, s, s, s, d, d, d, x.strip())
    return t


def units(tier):
    u = lambda name, cs, names, text, **k: Unit(name, src(names, text, **k), cs, ext=S.EXT)
    return [
        u('stream', M.streams(), 'copy move transform replace_copy replace_copy_if clamp_range copy_n rotate_copy copy_while copy_until',
          'copy(f, l, r); move(f, l, r); transform(f, l, r, Op1()); transform(f, l, g, r, Op2()); replace_copy(f, l, r, x, y); replace_copy_if(f, l, r, Pred(), y);'
          'clamp_range(f, l, r, x, y); clamp_range(f, l, r, x, y, Cmp()); copy_n(f, n, r); rotate_copy(f, g, l, r); copy_while(f, l, r, Pred()); copy_until(f, l, r, Pred())'),
        u('stream_bidirectional', M.streams(), 'copy_backward move_backward reverse_copy', 'copy_backward(f, l, r); move_backward(f, l, r); reverse_copy(f, l, r)', fw=False),
        u('filter', M.filtered(), 'copy_if remove_copy remove_copy_if remove remove_if',
          'copy_if(f, l, r, Pred()); remove_copy(f, l, r, x); remove_copy_if(f, l, r, Pred()); remove(r, e, x); remove_if(r, e, Pred())'),
        u('inplace', M.inplace(), 'fill fill_n replace replace_if iter_swap reverse', 'fill(r, e, x); fill_n(r, n, x); replace(r, e, x, y); replace_if(r, e, Pred(), x); iter_swap(r, e)'),
        u('reverse', M.inplace(), 'iter_swap reverse', 'reverse(r, e)', fw=False),
        u('groups', M.groups(), 'unique unique_copy partition_copy', 'unique(r, e); unique(r, e, BPred()); unique_copy(f, l, r); unique_copy(f, l, r, BPred()); partition_copy(f, l, r, q, Pred())'),
        u('rotate', M.rotation() + M.inplace(), 'rotate', 'rotate(r, e, q)'),
        u('merge', M.merging() + M.streams(), 'merge', 'merge(f, l, g, h, r); merge(f, l, g, h, r, Cmp())'),
        u('swap_ranges', M.swaps(), 'swap_ranges', 'swap_ranges(r, e, q)'),
    ]


def natives(tier):
    return [Native('mutate_native', NAT.replace('@HDR@', HDR), secs=(8, 60))]
