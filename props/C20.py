"""running folds: partial sums, scans, adjacent differences, iota - container-returning (fixed, fit) and writing through an output iterator"""
from svc.contract import Contract
from svc.cxx import ITERS
from svc.driver import lemmas, Native, Unit
from . import C17, iterspec as S
from .C06 import ext2
from .C13 import MI
from .iterspec import *
from .mutspec import W, N, frame, only

INC = '#include <sprout/numeric.hpp>\n#include <sprout/numeric/fixed.hpp>\n#include <sprout/numeric/fit.hpp>\n#include <sprout/numeric/cxx14.hpp>\n'
COMMON = r'''
struct Op { int k; int operator()(int a, int b) const { return (int)(((unsigned)a ^ (unsigned)k) - (unsigned)b); } };
struct Un { int k; int operator()(int a) const { return a ^ k; } };
'''
NAT = C17.HEAD.replace('#include <numeric>', '#include <numeric>\n' + INC) + COMMON + r'''
typedef std::vector<int> V;
typedef sprout::array<int, 4> Res; typedef sprout::array<int, 1> One;
#define B(name, args, noargs, e) do { V svc_e = e; fx("fixed::" #name, sprout::fixed::name args, o, svc_e); ft("fit::" #name, sprout::fit::name args, o, svc_e); fx("sprout::" #name, sprout::name args, o, svc_e); \
  Res svc_o = {{0, 0, 0, 0}}; fx("fixed::" #name "<Result>", sprout::fixed::name<Res> noargs, svc_o, svc_e); fx("sprout::" #name "<Result>", sprout::name<Res> noargs, svc_o, svc_e); One svc_w = {{0}}; fx("fixed::" #name "<Result> of one", sprout::fixed::name<One> noargs, svc_w, svc_e); } while (0)
// through an output iterator: exactly these elements, nothing else written
#define OUT(name, args, e) do { V svc_e = e; Buf<int> d(V(svc_e.size(), -77)); O d0(d.p); O svc_r = sprout::name args; CK(svc_r == O(d.p + d.n), #name " returned position", in); V g(d.p, d.p + d.n); CK(g == svc_e, #name, in, "got", str(g), "expected", str(svc_e)); } while (0)
template<class U> V run(V const& s, bool have, int init, bool excl, Op op, U u) { V v; if (have) v.push_back(init); int a = init; for (std::size_t i = 0; i < s.size(); ++i) { a = i || have ? op(a, u(s[i])) : u(s[i]); v.push_back(a); } if (excl) v.pop_back(); return v; }
struct WOut { typedef std::forward_iterator_tag iterator_category; typedef int value_type; typedef std::ptrdiff_t difference_type; typedef int* pointer; typedef int& reference; int* p; WOut() : p() {} explicit WOut(int* q) : p(q) {} int& operator*() const { return *p; } WOut& operator++() { ++p; return *this; } WOut operator++(int) { WOut t(*this); ++p; return t; } bool operator==(WOut x) const { return p == x.p; } bool operator!=(WOut x) const { return p != x.p; } };
typedef int* POut;
template<class I, class C> void conts(Rng& r, C const& o, V const& s, char const* cat) {
  Buf<int> S(s); I f(S.p), l(S.p + S.n); Op op{(int)r.range(-9, 9)}; Un un{(int)r.range(-9, 9)}; int a = (int)r.range(-5, 5); auto id = [](int x) { return x; };
  in = std::string(cat) + " source=" + str(s) + " init=" + std::to_string(a) + " result=" + str(all(o)) + " from " + std::to_string(off(o)) + " size " + std::to_string(sprout::size(o));
  V ps(s), ad(s), es; std::partial_sum(s.begin(), s.end(), ps.begin()); std::adjacent_difference(s.begin(), s.end(), ad.begin()); es.push_back(a); for (int x : s) es.push_back(es.back() + x); es.pop_back();
  V ado(s); for (std::size_t i = 1; i < s.size(); ++i) ado[i] = op(s[i], s[i - 1]);
  B(partial_sum, (f, l, o), (f, l), ps); B(inclusive_scan, (f, l, o), (f, l), ps); B(adjacent_difference, (f, l, o), (f, l), ad); B(exclusive_scan, (f, l, o, a), (f, l, a), es);
  B(partial_sum, (f, l, o, op), (f, l, op), run(s, false, 0, false, op, id)); B(inclusive_scan, (f, l, o, op), (f, l, op), run(s, false, 0, false, op, id)); B(adjacent_difference, (f, l, o, op), (f, l, op), ado);
  B(inclusive_scan, (f, l, o, op, a), (f, l, op, a), run(s, true, a, false, op, id)); B(exclusive_scan, (f, l, o, a, op), (f, l, a, op), run(s, true, a, true, op, id));
  B(transform_inclusive_scan, (f, l, o, op, un), (f, l, op, un), run(s, false, 0, false, op, un)); B(transform_inclusive_scan, (f, l, o, op, un, a), (f, l, op, un, a), run(s, true, a, false, op, un)); B(transform_exclusive_scan, (f, l, o, a, op, un), (f, l, a, op, un), run(s, true, a, true, op, un));
  { int n = (int)sprout::size(o); V e(n); std::iota(e.begin(), e.end(), a); fx("fixed::iota", sprout::fixed::iota(o, a), o, e); fx("sprout::iota", sprout::iota(o, a), o, e); ft("fit::iota", sprout::fit::iota(o, a), o, e); V e4(4); std::iota(e4.begin(), e4.end(), a); Res z = {{0, 0, 0, 0}}; fx("fixed::iota<Result>", sprout::fixed::iota<Res>(a), z, e4); fx("sprout::iota<Result>", sprout::iota<Res>(a), z, e4); }
}
template<class I, class O> void outs(Rng& r, V const& s, char const* cat) {
  Buf<int> S(s); I f(S.p), l(S.p + S.n); Op op{(int)r.range(-9, 9)}; Un un{(int)r.range(-9, 9)}; int a = (int)r.range(-5, 5); auto id = [](int x) { return x; };
  in = std::string(cat) + " source=" + str(s) + " init=" + std::to_string(a);
  V ps(s), ad(s), es; std::partial_sum(s.begin(), s.end(), ps.begin()); std::adjacent_difference(s.begin(), s.end(), ad.begin()); es.push_back(a); for (int x : s) es.push_back(es.back() + x); es.pop_back();
  V ado(s); for (std::size_t i = 1; i < s.size(); ++i) ado[i] = op(s[i], s[i - 1]);
  OUT(partial_sum, (f, l, d0), ps); OUT(inclusive_scan, (f, l, d0), ps); OUT(adjacent_difference, (f, l, d0), ad); OUT(exclusive_scan, (f, l, d0, a), es);
  OUT(partial_sum, (f, l, d0, op), run(s, false, 0, false, op, id)); OUT(inclusive_scan, (f, l, d0, op), run(s, false, 0, false, op, id)); OUT(adjacent_difference, (f, l, d0, op), ado);
  OUT(inclusive_scan, (f, l, d0, op, a), run(s, true, a, false, op, id)); OUT(exclusive_scan, (f, l, d0, a, op), run(s, true, a, true, op, id));
  OUT(transform_inclusive_scan, (f, l, d0, op, un), run(s, false, 0, false, op, un)); OUT(transform_inclusive_scan, (f, l, d0, op, un, a), run(s, true, a, false, op, un)); OUT(transform_exclusive_scan, (f, l, d0, a, op, un), run(s, true, a, true, op, un));
  { V e(s); std::iota(e.begin(), e.end(), a); Buf<int> d(V(s.size(), -77)); sprout::iota(O(d.p), O(d.p + d.n), a); V g(d.p, d.p + d.n); CK(g == e, "iota", in, "got", str(g)); }
}
template<std::size_t N> void one(Run& R) {
  Rng& r = R.r; auto vec = [&](int n) { V v(n); for (int& x : v) x = (int)r.range(-6, 6); return v; };
  sprout::array<int, N> a; for (int& x : a) x = 100 + (int)r.range(0, 9); int i = (int)r.range(0, N), j = (int)r.range(0, N); if (i > j) std::swap(i, j); sprout::sub_array<sprout::array<int, N> > u(a, i, j);
  V s = vec((int)r.range(0, r.chance(3) ? 2 * N : N)), t = vec((int)r.range(0, r.chance(4) ? 200 : 12)); R.note(svc::hash(s) ^ svc::hash(t));
  switch (r.range(0, 3)) { case 0: conts<int const*>(r, a, s, "pointer"); break; case 1: conts<Fwd>(r, a, s, "forward"); break; case 2: conts<int const*>(r, u, s, "pointer"); break; default: conts<Fwd>(r, u, s, "forward"); break; }
  outs<int const*, POut>(r, t, "pointer"); outs<Fwd, WOut>(r, t, "forward");
}
int main(int argc, char** argv) { Run R(argc, argv); while (R.more()) switch (R.r.range(0, 2)) { case 0: one<2>(R); break; default: one<5>(R); } return R.done(); }
'''


def natives(tier):
    return [Native('scan_native', NAT, std='c++17', flags=['-O0'], secs=(8, 60))]



# ------------------------------------------------------------------------------ through output iterators, every length
EL = ITERS.replace('typedef int E;', 'enum E : int {}; E operator+(E, E); E operator-(E, E);')


def src():
    t = EL + MI + INC.replace('#include <sprout/numeric/fixed.hpp>\n#include <sprout/numeric/fit.hpp>\n', '')
    calls = 'partial_sum(f, l, r); partial_sum(f, l, r, Op2()); inclusive_scan(f, l, r); inclusive_scan(f, l, r, Op2()); inclusive_scan(f, l, r, Op2(), x); exclusive_scan(f, l, r, x); exclusive_scan(f, l, r, x, Op2());' \
            'adjacent_difference(f, l, r); adjacent_difference(f, l, r, Op2()); transform_inclusive_scan(f, l, r, Op2(), Op1()); transform_inclusive_scan(f, l, r, Op2(), Op1(), x); transform_exclusive_scan(f, l, r, x, Op2(), Op1())'
    for k, (a, d) in enumerate((('Ra', 'E*'), ('Fwd', 'MI'))):
        for i, x in enumerate(calls.split(';')):
            t += 'void call_%d_%d(%s f, %s l, %s r, E x) { sprout::%s; }\n' % (k, i, a, a, d, x.strip())
    return t


def scans():
    out = []

    def op(nm):
        return lambda c, x, y: c.ctx.uf('Op2' if 'Op2' in c.ctx.dem(c.fname) else nm, (I, I, I))(x, y)

    def cs(name, init=False, excl=False, un=False, diff=False, loops=True):
        f2 = op('Minus' if diff else 'Plus')
        el = (lambda c, x: c.ctx.uf('Op1', (I, I))(x)) if un else (lambda c, x: x)
        late = 1 if init else 0        # element k of the result uses source element k - late

        def head(c, f, x):
            return x[0] if init else el(c, c.A('A')[f])

        def rec(c, X, f, r, k):
            A = c.A('A')
            if diff:
                return f2(c, A[f + (k - r)], A[f + (k - r) - 1])
            return f2(c, X[k - 1], el(c, A[f + (k - r) - late]))

        def total(f, l):
            return (l - f) + 1 if init and not excl else l - f

        def api(c, f, l, r, *x):
            m = total(f, l)
            c.requires(zand(f <= l, r + m <= c.n('W')), 'valid range and room for the output')
            c.assigns('W')
            X = c.A('W')
            c.ensures(c.ret('W') == r + m, 'returns the end of the output')
            c.ensures(zimp(m > 0, X[r] == head(c, f, x)), 'first element')
            c.ensures(c.forall(r + 1, r + m, lambda k: X[k] == rec(c, X, f, r, k)), 'every further element continues the one before it')
            c.ensures(frame(c, 'W', r, r + m), 'nothing else is written')

        def lp(L):
            c = L.c
            f, l, r = L.a[:3]
            x = L.a[3:]
            X, p, q = L.A('W'), L.p('first'), L.p('result')
            A = c.A('A')
            r0 = [('position', zand(f <= p, p < l, q - r == p - f + (1 if init and not excl else 0))), ('first element', X[r] == head(c, f, x)),
                  ('written so far', c.forall(r + 1, q + 1, lambda k: X[k] == rec(c, X, f, r, k))), ('rest unchanged', frame(c, 'W', r, q + 1, X, L.old('W')))]
            if diff:
                return r0 + [('previous element', L.v('acc') == A[p])]
            r0.append(('running value', L.v('sum') == X[q]))
            if excl:
                r0.append(('pending element', L.v('temp') == el(c, A[p])))
            return r0
        sig = 'A A W' + (' val:i32' if init else '')
        lb = N + name + (' init' if init else '')
        out.append(Contract(N + name, sig, api, regs=W, loops=only(name, lp, lambda L: L.a[1] - L.p('first')) if loops else None, label=lb))
    cs('partial_sum')
    cs('inclusive_scan', loops=False)
    cs('inclusive_scan', init=True)
    cs('exclusive_scan', init=True, excl=True)
    cs('adjacent_difference', diff=True)
    cs('transform_inclusive_scan', un=True)
    cs('transform_inclusive_scan', init=True, un=True)
    cs('transform_exclusive_scan', init=True, excl=True, un=True)
    return out


EXT = dict(S.EXT)
EXT.update({r'^operator\+\(E': ext2('Plus'), r'^operator-\(E': ext2('Minus')})


def iota_c():
    def api(c, f, l, x):
        c.requires(zand(f <= l, x + (l - f) < 2**31), 'valid range, values representable')
        c.assigns('W')
        X = c.A('W')
        c.ensures(c.forall(f, l, lambda k: X[k] == x + (k - f)), 'consecutive values')
        c.ensures(frame(c, 'W', f, l), 'nothing else is written')

    def lp(L):
        c, (f, l, x) = L.c, L.a
        X, p = L.A('W'), L.p('first')
        return [('position', zand(f <= p, p <= l, L.v('value') == x + (p - f))), ('written so far', c.forall(f, p, lambda k: X[k] == x + (k - f))), ('rest unchanged', frame(c, 'W', f, p, X, L.old('W')))]
    return [Contract(N + 'iota', 'W W val:i32', api, regs=W, loops=only('iota', lp, lambda L: L.a[1] - L.p('first')))]


IOTA = ITERS + MI + '#include <sprout/numeric/cxx14/iota.hpp>\nvoid c0(int* f, int* l, int x) { sprout::iota(f, l, x); }\nvoid c1(MI f, MI l, int x) { sprout::iota(f, l, x); }\n'

# ------------------------------------------------------------------------------ into containers: for each container size, every content, source length up to one more, initial value and operation parameter
SRC = C17.SRC.replace('#include <iterator>', '#include <iterator>\n' + INC, 1) + COMMON + r"""
#define RUN(x, have, init, excl, op, el) do { int svc_a = init; if (have) x.put(svc_a); ALL { int svc_e = el(s[i]); svc_a = i || have ? op(svc_a, svc_e) : svc_e; if (!(excl && i == n - 1)) x.put(svc_a); } } while (0)
#define ID(v) (v)
#define UN(v) un(v)
#define ADD(a, b) ((int)((unsigned)(a) + (unsigned)(b)))
#define OPS ANY(int, k); Op op{k}
#define EACH(name, args, x) BOTH(name, args, x); FX(sprout::name args, x, "sprout::" #name)
// small elements: the default operations are signed additions
#define SMALL for (int svc_k = 0; svc_k < M; ++svc_k) REQUIRE(s[svc_k] >= -1000 && s[svc_k] <= 1000)
"""
BODY = {
    'partial_sum': 'RR; SRC; SMALL; II f(s), l(s + n); Out x; RUN(x, false, 0, false, ADD, ID); EACH(partial_sum, (f, l, o), x); FX(sprout::fixed::inclusive_scan(f, l, o), x, "fixed::inclusive_scan"); FT(sprout::fit::inclusive_scan(f, l, o), x, "fit::inclusive_scan");',
    'partial_sum_op': 'RR; SRC; OPS; II f(s), l(s + n); Out x; RUN(x, false, 0, false, op, ID); EACH(partial_sum, (f, l, o, op), x); FX(sprout::fixed::inclusive_scan(f, l, o, op), x, "fixed::inclusive_scan"); FT(sprout::fit::inclusive_scan(f, l, o, op), x, "fit::inclusive_scan");',
    'inclusive_scan_init': 'RR; SRC; OPS; ANY(int, a); II f(s), l(s + n); Out x; if (n) RUN(x, true, a, false, op, ID); else x.put(a); EACH(inclusive_scan, (f, l, o, op, a), x);',
    'exclusive_scan': 'RR; SRC; SMALL; ANY_IN(int, a, -1000, 1000); II f(s), l(s + n); Out x; if (n) RUN(x, true, a, true, ADD, ID); EACH(exclusive_scan, (f, l, o, a), x);',
    'exclusive_scan_op': 'RR; SRC; OPS; ANY(int, a); II f(s), l(s + n); Out x; if (n) RUN(x, true, a, true, op, ID); EACH(exclusive_scan, (f, l, o, a, op), x);',
    'adjacent_difference': 'RR; SRC; SMALL; II f(s), l(s + n); Out x; ALL x.put(i ? s[i] - s[i ? i - 1 : 0] : s[i]); EACH(adjacent_difference, (f, l, o), x);',
    'adjacent_difference_op': 'RR; SRC; OPS; II f(s), l(s + n); Out x; ALL x.put(i ? op(s[i], s[i ? i - 1 : 0]) : s[i]); EACH(adjacent_difference, (f, l, o, op), x);',
    'transform_inclusive_scan': 'RR; SRC; OPS; ANY(int, h); Un un{h}; II f(s), l(s + n); Out x; RUN(x, false, 0, false, op, UN); EACH(transform_inclusive_scan, (f, l, o, op, un), x);',
    'transform_inclusive_scan_init': 'RR; SRC; OPS; ANY(int, h); Un un{h}; ANY(int, a); II f(s), l(s + n); Out x; if (n) RUN(x, true, a, false, op, UN); else x.put(a); EACH(transform_inclusive_scan, (f, l, o, op, un, a), x);',
    'transform_exclusive_scan': 'RR; SRC; OPS; ANY(int, h); Un un{h}; ANY(int, a); II f(s), l(s + n); Out x; if (n) RUN(x, true, a, true, op, UN); EACH(transform_exclusive_scan, (f, l, o, a, op, un), x);',
    'iota': 'RR; ANY_IN(int, a, -1000, 1000); Out x; int n = size; ALL x.put(a + i); FX(sprout::fixed::iota(o, a), x, "fixed::iota"); FT(sprout::fit::iota(o, a), x, "fit::iota"); FX(sprout::iota(o, a), x, "sprout::iota");',
}


def text(r):
    return ''.join('LEMMA(%s_%s_%s) { %s }\n' % (name, it, {'RES': 'array', 'SUB': 'sub'}[r], b.replace('RR;', r + ';').replace('II ', ty + ' ')) for name, b in BODY.items() for it, ty in (('ra', 'Ptr'), ('fwd', 'Fwd')) if not (name == 'iota' and it == 'fwd'))


def units(tier):
    q = tier == 'quick'
    return [Unit('scan_ranges', src(), scans(), ext=EXT), Unit('iota', IOTA, iota_c(), ext=S.EXT)] + \
        [lemmas('scan_' + t, '#define NN %d\n' % nn + SRC + text(r), std='c++17', nstd='c++17', mode='bv', step_limit=2000000) for t, r, nn in (('array', 'RES', 3 if q else 4), ('sub', 'SUB', 2 if q else 3), ('one', 'RES', 1), ('one_sub', 'SUB', 1))]
