from svc.driver import Unit, Native
from svc.cxx import ITERS
from svc.contract import Contract
from . import iterspec as S
from .iterspec import *

# the element type has opaque + and * so that the default operations are as arbitrary as user supplied ones
EL = ITERS.replace('typedef int E;', 'enum E : int {}; E operator+(E, E); E operator*(E, E);').replace(
    'struct Op2 {', 'struct Op2b { E operator()(E, E) const; }; struct Op2 {')
INC = ''.join('#include <sprout/numeric/%s.hpp>\n' % x for x in ('accumulate', 'inner_product', 'reduce', 'transform_reduce')) + \
    '#include <sprout/algorithm/fold_while.hpp>\n#include <sprout/algorithm/fold_until.hpp>\n'
INST = ''
for it in ('Ra', 'Fwd'):
    INST += '''
template E sprout::accumulate<{0},E,Op2>({0},{0},E,Op2); template E sprout::accumulate<{0},E>({0},{0},E);
template E sprout::reduce<{0}>({0},{0}); template E sprout::reduce<{0},E>({0},{0},E); template E sprout::reduce<{0},E,Op2>({0},{0},E,Op2);
template E sprout::inner_product<{0},{0},E,Op2,Op2b>({0},{0},{0},E,Op2,Op2b); template E sprout::inner_product<{0},{0},E>({0},{0},{0},E);
template E sprout::transform_reduce<{0},{0},E,Op2,Op2b>({0},{0},{0},E,Op2,Op2b); template E sprout::transform_reduce<{0},{0},E>({0},{0},{0},E);
template E sprout::transform_reduce<{0},E,Op2,Op1>({0},{0},E,Op2,Op1);
template E sprout::fold_while<{0},E,Op2,Pred>({0},{0},E,Op2,Pred); template E sprout::fold_until<{0},E,Op2,Pred>({0},{0},E,Op2,Pred);
'''.format(it)


def ext2(nm):
    def f(ctx, g, mem, vals, rt):
        r = ctx.uf(nm, (I, I, I))(i32(ctx, vals[-2]), i32(ctx, vals[-1]))
        ctx.add_assume(z3.And(r >= -2**31, r < 2**31))
        ctx.setrng(r, -2**31, 2**31 - 1)
        return r, g, mem
    return f


EXT = dict(S.EXT)
EXT.update({r'^Op2b::operator\(\)': ext2('Op2b'), r'^operator\+\(E': ext2('Plus'), r'^operator\*\(E': ext2('Times')})


def fa(v, body, pat):
    try:
        return z3.ForAll([v], body, patterns=[pat])
    except z3.Z3Exception:      # a pattern may not contain an if-then-else
        return z3.ForAll([v], body)


def op(c, x, y):
    d = c.ctx.dem(c.fname)
    return c.ctx.uf('Op2' if 'Op2' in d else 'Plus', (I, I, I))(x, y)


def op_b(c, x, y):
    d = c.ctx.dem(c.fname)
    return c.ctx.uf('Op2b' if 'Op2b' in d else 'Times', (I, I, I))(x, y)


def plain(c, i, o):
    return c.A('A')[i]


def un(c, i, o):
    return c.ctx.uf('Op1', (I, I))(c.A('A')[i])


def prod(c, i, o):
    return op_b(c, c.A('A')[i], c.A('B')[i + o])


def fold(c, elem, nm, stop=None):
    """Fold(L, o, i, x): x combined with elements i..L-1 in order (o: offset of the second sequence); stops early at stop(x)"""
    key = '%s_%s_%s' % (nm, 'b' if 'Op2' in c.ctx.dem(c.fname) else 'd', c.A('A').t)
    if elem is prod:
        key += '_%s' % c.A('B').t
    F = c.ctx.uf('Fold_' + key, (I, I, I, I, I))
    L, o, i, x = z3.Ints('L o i x')
    c.axiom(z3.ForAll([L, o, x], F(L, o, L, x) == x, patterns=[F(L, o, L, x)]))
    if stop:
        c.axiom(z3.ForAll([L, o, i, x], zimp(stop(c, x), F(L, o, i, x) == x), patterns=[F(L, o, i, x)]))

    def unfold(o, i, x):
        b = zimp(i < L, F(L, o, i, x) == F(L, o, i + 1, op(c, x, elem(c, i, o))))
        if stop:
            b = zimp(znot(stop(c, x)), b)
        c.axiom(fa(L, b, F(L, o, i, x)))
    return F, unfold


def folds(name, elem, ra=None, B=False, stop=None, dflt=False, apiname=None, when=None):
    Bs = ' B' if B else ''
    cs = []

    def off(f2, f):
        return (f2 - f) if B else 0

    def api(c, f, l, *r):
        f2, x = (r[0], r[1]) if B else (0, r[0])
        c.requires(f <= l, 'valid range')
        if B:
            c.requires(f2 + (l - f) <= c.n('B'), 'valid second range')
        F, _ = fold(c, elem, name, stop)
        c.ensures(c.ret('i32') == F(l, off(f2, f), f, x), 'left fold of the whole range in order')
    w = when or (lambda f, d: True)
    cs.append(Contract('sprout::' + (apiname or name), 'A A%s val:i32' % Bs, api, when=lambda f, d: w(f, d) and 'tag*' not in d, label='sprout::%s %s' % (name, elem.__name__)))
    if ra:
        def raf(c, f, l, *r):
            f2 = r[0] if B else 0
            p, x = r[-2], r[-1]
            c.requires(zand(f < l, 2 * p <= l - f, l - f <= 2 * p + 1), 'non-empty range, pivot is the middle')
            if B:
                c.requires(f2 + (l - f) <= c.n('B'), 'valid second range')
            c.decreases(l - f)
            F, unfold = fold(c, elem, name)
            o = off(f2, f)
            unfold(o, f, x)
            L = z3.Int('L')
            y = c.ret('i32')
            c.ensures(fa(L, zimp(l <= L, F(L, o, f, x) == F(L, o, l, y)), F(L, o, l, y)), 'continuing after the result equals continuing from the start')
            c.ensures(F(l, o, f, x) == y, 'left fold of the range')
        cs.append(Contract(D(ra), 'A A%s v val:i32' % Bs, raf, when=w, label=ra + ' ' + elem.__name__))

    def done(c, s, a):
        d = s[0] == a[0]
        return zor(d, stop(c, s[-1])) if stop else d

    def o_(s):
        return (s[1] - s[0]) if B else 0

    def rel(c, s, t, a):
        F, unfold = fold(c, elem, name, stop)
        unfold(o_(s), s[0], s[-1])
        r = zand(s[0] <= t[0], F(a[0], o_(s), s[0], s[-1]) == F(a[0], o_(s), t[0], t[-1]))
        return zand(r, t[1] - s[1] == t[0] - s[0]) if B else r

    def inv(c, s, a):
        return s[1] + (a[0] - s[0]) <= c.n('B') if B else z3.BoolVal(True)
    for x in scan(apiname or name, 'A,B,i32' if B else 'A,i32', 'A', done, rel, inv):
        x.when = (lambda f, d: w(f, d) and (('tuple<' in d) == B))
        x.label = x.name + ' ' + elem.__name__
        cs.append(x)
    return cs


def units(tier):
    np_ = lambda f, d: 'Op1' not in d
    cs = folds('accumulate', plain, 'accumulate_ra')
    cs += folds('inner_product', prod, 'inner_product_ra', B=True)
    cs += folds('transform_reduce', prod, 'transform_reduce_ra', B=True, when=np_)
    cs += folds('transform_reduce1', un, 'transform_reduce_ra', apiname='transform_reduce', when=lambda f, d: 'Op1' in d)
    cs += folds('fold_while', plain, stop=lambda c, x: znot(P(c, x)))
    cs += folds('fold_until', plain, stop=lambda c, x: P(c, x))

    def red(c, f, l, *x):
        c.requires(f <= l, 'valid range')
        F, _ = fold(c, plain, 'accumulate')
        c.ensures(c.ret('i32') == F(l, 0, f, x[0] if x else 0), 'left fold of the whole range in order')
    cs += [Contract('sprout::reduce', 'A A val:i32', red, label='reduce with initial value'), Contract('sprout::reduce', 'A A', red, label='reduce from the value-initialised element')]
    return [Unit('folds', EL + INC + INST, cs, ext=EXT)]


NAT = r'''
#include "natalg.hpp"
#include <numeric>
''' + INC + r'''
using namespace svc;
typedef unsigned long U;
struct O2 { U operator()(U x, U y) const { return x * 31 + y + 1; } }; struct O2b { U operator()(U x, U y) const { return x * 7 - y; } }; struct O1 { U operator()(U x) const { return x * 5 + 3; } };
struct St { bool operator()(U x) const { return x % 97 < 60; } };
template<class I> void go(Run& R, std::vector<E> const& va, std::vector<E> const& vb, const char* cat) {
  Buf<E> A(va), B(vb); long n = va.size(); I f = Mk<I>::at(A.begin()), l = Mk<I>::at(A.begin() + n), f2 = Mk<I>::at(B.begin()); U x0 = R.r.next();
  #define EQ(x, y) do { U o = (x), s = (y); CK(o == s, #x, "iterator", cat, "a", show(va), "b", show(vb), "got", o, "expected", s); } while (0)
  U a = x0, ip = x0, t1 = x0, d = 0, dp = 0, fw = x0, fu = x0;
  for (long i = 0; i < n; ++i) { a = O2()(a, va[i]); ip = O2()(ip, O2b()(va[i], vb[i])); t1 = O2()(t1, O1()(va[i])); d += va[i]; dp += (U)va[i] * (U)vb[i]; if (St()(fw)) fw = O2()(fw, va[i]); if (!St()(fu)) fu = O2()(fu, va[i]); }
  EQ(sprout::accumulate(f, l, x0, O2()), a); EQ(sprout::reduce(f, l, x0, O2()), a); EQ(sprout::accumulate(f, l, U()), d); EQ(sprout::reduce(f, l, U()), d); EQ((U)sprout::reduce(f, l), d);
  EQ(sprout::inner_product(f, l, f2, x0, O2(), O2b()), ip); EQ(sprout::transform_reduce(f, l, f2, x0, O2(), O2b()), ip); EQ(sprout::transform_reduce(f, l, x0, O2(), O1()), t1);
  EQ(sprout::inner_product(f, l, f2, U()), dp); EQ(sprout::transform_reduce(f, l, f2, U()), dp);
  EQ(sprout::fold_while(f, l, x0, O2(), St()), fw); EQ(sprout::fold_until(f, l, x0, O2(), St()), fu);
}
int main(int argc, char** argv) {
  Run R(argc, argv);
  while (R.more()) {
    long n = gen_len(R.r, 600); std::vector<E> a = gen_vec<E>(R.r, n), b = gen_vec<E>(R.r, n);
    for (auto& x : a) if (x < 0) x = -(x + 1); for (auto& x : b) if (x < 0) x = -(x + 1);
    for (auto& x : a) x &= 0x3fff; for (auto& x : b) x &= 0x3fff;
    R.note(hash(a) * 3 + hash(b));
    go<E const*>(R, a, b, "random access"); go<Fwd>(R, a, b, "forward"); go<Bid>(R, a, b, "bidirectional");
  }
  return R.done();
}
'''


def natives(tier):
    return [Native('folds_native', NAT, secs=(6, 60))]
