"""Contracts of the sorting and heap algorithms. Bag(A, lo, hi) is the multiset of the elements of A in [lo, hi): its two
properties used here (an exchange inside the interval leaves it unchanged; equal bags have the same members) are proved in bag.lean.
A position that takes part in an exchange is marked so that the prover looks at it."""
import z3
from svc.contract import Contract, inv
from .iterspec import *
from .mutspec import W, N, frame, only

AR = z3.ArraySort(I, I)
D = N + 'detail::'


def raw(X):
    """the array, under a name of its own when it is a compound term (so that it can stand in patterns)"""
    t = X.t if hasattr(X, 't') else X
    if z3.is_const(t):
        return t
    return named(X.ctx, t)


def named(ctx, t):
    k = ('named', t.get_id())
    if k not in ctx.ufs:
        n = ctx.fresh('arr', sort=t.sort())
        ctx.ufs[k] = (n, t)
        ctx.add_assume(n == t)
    return ctx.ufs[k][0]


def bagf(c):
    return c.ctx.uf('Bag', (AR, I, I, I))


def mark(c, *i):
    M = c.ctx.uf('Mark', (I, Bo))
    return zand(*[M(x) for x in i])


def swo(c):
    """Cmp is a strict weak order"""
    if 'Cmp' not in c.ctx.dem(c.fname):
        return
    x, y, z = z3.Ints('x y z')
    C = lambda p, q: c.ctx.uf('Cmp', (I, I, Bo))(p, q)
    c.axiom(z3.ForAll([x, y], znot(zand(C(x, y), C(y, x))), patterns=[C(x, y)]), post=True)
    c.axiom(z3.ForAll([x, y, z], zimp(C(x, y), zor(C(x, z), C(z, y))), patterns=[z3.MultiPattern(C(x, y), C(x, z)), z3.MultiPattern(C(x, y), C(z, y))]), post=True)


def bag_axioms(c):
    Bg, M = bagf(c), c.ctx.uf('Mark', (I, Bo))
    A, B = z3.Consts('A B', AR)
    lo, hi, a, b, k = z3.Ints('lo hi a b k')
    c.axiom(z3.ForAll([a], M(a), patterns=[M(a)]), post=True)
    inr = lambda x: zand(lo <= x, x < hi)
    d = c.ctx.uf('dif', (AR, AR, I, I, I, I, I))(A, B, lo, hi, a, b)      # some other position where the two differ, if there is one
    c.axiom(z3.ForAll([A, B, lo, hi, a, b], zimp(zand(inr(a), inr(b), B[a] == A[b], B[b] == A[a], zor(znot(inr(d)), d == a, d == b, A[d] == B[d])), Bg(A, lo, hi) == Bg(B, lo, hi)),
                      patterns=[z3.MultiPattern(Bg(A, lo, hi), Bg(B, lo, hi), M(a), M(b))]), post=True)


def members(c, f, l, X, O):
    """every element of X in [f,l) is an element of O in [f,l) when the bags are equal (bag.lean)"""
    s = c.ctx.uf('src%d' % c.ctx.fresh_n, (I, I))
    k = z3.Int('k?%d' % c.ctx.fresh_n)
    c.ctx.fresh_n += 1
    c.ctx.add_assume(zimp(bagf(c)(X, f, l) == bagf(c)(O, f, l), z3.ForAll([k], zimp(zand(f <= k, k < l), zand(f <= s(k), s(k) < l, X[k] == O[s(k)])), patterns=[X[k]])))


def perm(c, f, l, X, O):
    Bg = bagf(c)
    lo, hi = z3.Ints('lo?%d hi?%d' % (c.ctx.fresh_n, c.ctx.fresh_n))
    c.ctx.fresh_n += 1
    return zand(Bg(X, f, l) == Bg(O, f, l), z3.ForAll([lo, hi], zimp(zand(lo <= f, l <= hi), Bg(X, lo, hi) == Bg(O, lo, hi)), patterns=[Bg(X, lo, hi), Bg(O, lo, hi)]))


def sorted_(c, f, l, X):
    i, j = z3.Ints('i?%d j?%d' % (c.ctx.fresh_n, c.ctx.fresh_n))
    c.ctx.fresh_n += 1
    return z3.ForAll([i, j], zimp(zand(f <= i, i < j, j < l), znot(Cmp(c, X[j], X[i]))), patterns=[z3.MultiPattern(X[i], X[j])])


def swap_c():
    def f(c, a, b):
        c.requires(zand(a < c.n('W'), b < c.n('W')), 'both refer to elements')
        bag_axioms(c)
        O = raw(c.old('W'))
        c.assigns('W')
        X = raw(c.A('W'))
        k = z3.Int('k?%d' % c.ctx.fresh_n)
        c.ctx.fresh_n += 1
        c.ensures(zand(X[a] == O[b], X[b] == O[a]), 'the two elements are exchanged')
        c.ensures(z3.ForAll([k], zimp(zand(k != a, k != b), X[k] == O[k]), patterns=[X[k]]), 'nothing else is written')
        lo, hi = z3.Ints('lo hi')
        Bg = bagf(c)
        c.ensures(zand(mark(c, a, b), z3.ForAll([lo, hi], zimp(zand(lo <= a, a < hi, lo <= b, b < hi), Bg(X, lo, hi) == Bg(O, lo, hi)), patterns=[Bg(X, lo, hi), Bg(O, lo, hi)])), 'same elements')
    return [Contract(N + 'swap', 'el:W el:W', f, regs=W)]


def sort345():
    out = []

    def mk(n):
        def f(c, *x):
            x = x[:n]
            c.requires(zand(*[p < c.n('W') for p in x]), 'all refer to elements')
            c.requires(zand(*[x[i] < x[i + 1] for i in range(n - 1)]), 'distinct positions in order')
            swo(c)
            bag_axioms(c)
            O = raw(c.old('W'))
            c.assigns('W')
            X = raw(c.A('W'))
            c.ensures(zand(*[znot(Cmp(c, X[x[j]], X[x[i]])) for i in range(n) for j in range(i + 1, n)]), 'the elements are in order')
            k = z3.Int('k?%d' % c.ctx.fresh_n)
            c.ctx.fresh_n += 1
            c.ensures(z3.ForAll([k], zimp(zand(*[k != p for p in x]), X[k] == O[k]), patterns=[X[k]]), 'nothing else is written')
            c.ensures(perm(c, x[0], x[-1] + 1, X, O), 'same elements')
            r = c.ret('ui32')
            c.ensures(zand(0 <= r, r <= {3: 2, 4: 5, 5: 9}[n]), 'number of exchanges')
            srt = zand(*[znot(Cmp(c, O[x[j]], O[x[i]])) for i in range(n) for j in range(i + 1, n)])
            c.ensures(zimp(r == 0, zand(*[X[p] == O[p] for p in x])), 'no exchange: unchanged')
            c.ensures(zimp(srt, r == 0), 'in order: no exchange')
        out.append(Contract(D + 'sort%d' % n, ' '.join(['W'] * n) + ' _', f, regs=W, ret='ui32'))
    mk(3)
    mk(4)
    mk(5)
    return out


def insertion():
    """insertion_sort_3 and insertion_sort_incomplete"""
    out = []

    def virt(X, h, t):
        return z3.Store(X, h, t)

    def mk(name, incomplete):
        def api(c, f, l, *_):
            c.requires(zand(f <= l) if incomplete else f + 3 <= l, 'valid range' if incomplete else 'at least three elements')
            swo(c)
            bag_axioms(c)
            O = raw(c.old('W'))
            c.assigns('W')
            X = raw(c.A('W'))
            if incomplete:
                c.ensures(zimp(c.ret('bool'), sorted_(c, f, l, X)), 'true: sorted')
            else:
                c.ensures(sorted_(c, f, l, X), 'sorted')
            c.ensures(frame(c, 'W', f, l, X, O), 'nothing else is written')
            c.ensures(perm(c, f, l, X, O), 'same elements')

        def lp(b, k):
            if b != D + name:
                return None

            def outer(L):
                c, f, l = L.c, L.a[0], L.a[1]
                X, O, i, j = raw(L.A('W')), raw(L.old('W')), L.p('i'), L.p('j')
                return [('position', zand(f + 3 <= i, i <= l, j == i - 1)), ('sorted so far', sorted_(c, f, i, X)), ('rest unchanged', frame(c, 'W', f, i, X, O)), ('same elements', perm(c, f, l, X, O))]

            def inner(L):
                c, f, l = L.c, L.a[0], L.a[1]
                X, O, i, j, k2, t = raw(L.A('W')), raw(L.old('W')), L.p('i'), L.p('j'), L.p('k'), L.v('t', 32)
                V = virt(X, j, t)
                a = z3.Int('a?%d' % c.ctx.fresh_n)
                c.ctx.fresh_n += 1
                return [('position', zand(f + 3 <= i, i < l, f <= k2, k2 == j - 1, j <= i)),
                        ('sorted but for the gap', zand(sorted_(c, f, j, X), z3.ForAll([a], zimp(zand(j < a, a <= i), Cmp(c, t, X[a])), patterns=[X[a]]), Cmp(c, t, X[k2]))),
                        ('sorted around the gap', sorted_gap(c, f, i + 1, j, X)),
                        ('rest unchanged', frame(c, 'W', f, i + 1, X, O)), ('same elements', zand(mark(c, j, k2), perm(c, f, l, V, O)))]
            return inv(outer, lambda L: L.a[1] - L.p('i')) if k == 0 else inv(inner, lambda L: L.p('j') - L.a[0])
        out.append(Contract(D + name, 'W W _', api, regs=W, loops=lp, ret='bool' if incomplete else None))
    mk('insertion_sort_3', False)
    mk('insertion_sort_incomplete', True)
    return out


def sorted_gap(c, f, l, h, X):
    """sorted when position h is left out"""
    i, j = z3.Ints('i?%d j?%d' % (c.ctx.fresh_n, c.ctx.fresh_n))
    c.ctx.fresh_n += 1
    return z3.ForAll([i, j], zimp(zand(f <= i, i < j, j < l, i != h, j != h), znot(Cmp(c, X[j], X[i]))), patterns=[z3.MultiPattern(X[i], X[j])])


# ------------------------------------------------------------------- heaps
def kid(f, a, b):
    """b is a child of a in the heap rooted at f"""
    return zor(b - f == 2 * (a - f) + 1, b - f == 2 * (a - f) + 2)


def edges(c, f, l, X, a_not=None, no=None):
    """every parent is not less than its children (edges touching `no` / starting at `a_not` left out)"""
    a, b = z3.Ints('a?%d b?%d' % (c.ctx.fresh_n, c.ctx.fresh_n))
    c.ctx.fresh_n += 1
    g = [f <= a, a < b, b < l, kid(f, a, b)]
    if a_not is not None:
        g.append(a != a_not)
    if no is not None:
        g += [a != no, b != no]
    return z3.ForAll([a, b], zimp(zand(*g), znot(Cmp(c, X[a], X[b]))), patterns=[z3.MultiPattern(X[a], X[b])])


def below(c, f, l, X, v, strict=False):
    """no element of [f,l) is greater than v"""
    a = z3.Int('a?%d' % c.ctx.fresh_n)
    c.ctx.fresh_n += 1
    return z3.ForAll([a], zimp(zand(f <= a, a < l), znot(Cmp(c, v, X[a]))), patterns=[X[a]])


def root_max(c, f, l, X):
    """consequence of the heap order, by induction along the path to the root (bag.lean)"""
    c.axiom(zimp(zand(edges(c, f, l, X), f < l), below(c, f, l, X, X[f])), post=True)


def heaps():
    out = []

    def pre(c):
        swo(c)
        bag_axioms(c)
        return raw(c.old('W'))

    def done(c, f, l, X, O):
        c.ensures(frame(c, 'W', f, l, X, O), 'nothing else is written')
        c.ensures(perm(c, f, l, X, O), 'same elements')
        if c.phase == 'call':
            members(c, f, l, X, O)

    def pb(c, f, l, n):
        c.requires(zand(f <= l, n == l - f), 'length of the range')
        O = pre(c)
        c.requires(edges(c, f, l - 1, O), 'all but the last element form a heap')
        c.assigns('W')
        X = raw(c.A('W'))
        c.ensures(edges(c, f, l, X), 'heap')
        done(c, f, l, X, O)

    def pbl(L):
        c, (f, l) = L.c, L.a[:2]
        X, O, h, q, t, n = raw(L.A('W')), raw(L.old('W')), L.p('last'), L.p('ptr'), L.v('t', 32), L.v('len')
        b = z3.Int('b?%d' % c.ctx.fresh_n)
        c.ctx.fresh_n += 1
        return [('position', zand(f < h, h < l, f <= q, q - f == n, kid(f, q, h), Cmp(c, X[q], t))),
                ('heap but for the gap', edges(c, f, l, X, no=h)),
                ('the gap fits its children', z3.ForAll([b], zimp(zand(h < b, b < l, kid(f, h, b)), zand(znot(Cmp(c, t, X[b])), znot(Cmp(c, X[q], X[b])))), patterns=[X[b]])),
                ('rest unchanged', frame(c, 'W', f, l, X, O)), ('same elements', zand(mark(c, h, q), perm(c, f, l, z3.Store(X, h, t), O)))]
    out.append(Contract(D + 'push_heap_back', 'W W _ v', pb, regs=W, loops=only('detail::push_heap_back', pbl, lambda L: L.p('last') - L.a[0])))

    def pf(c, f, l, n):
        c.requires(zand(n >= 0, f + n <= c.n('W')), 'length of the range')
        O = pre(c)
        c.requires(edges(c, f, f + n, O, a_not=f), 'a heap but for the first element')
        c.assigns('W')
        X = raw(c.A('W'))
        c.ensures(edges(c, f, f + n, X), 'heap')
        done(c, f, f + n, X, O)

    def pfl(L):
        c, f, n = L.c, L.a[0], L.a[2]
        l = f + n
        X, O, h, q, t = raw(L.A('W')), raw(L.old('W')), L.p('pp'), L.p('cp'), L.v('t', 32)
        b, g = z3.Ints('b?%d g?%d' % (c.ctx.fresh_n, c.ctx.fresh_n))
        c.ctx.fresh_n += 1
        return [('position', zand(f <= h, h < q, q < l, L.v('c') == q - f, kid(f, h, q), Cmp(c, t, X[q]))),
                ('heap but for the gap', edges(c, f, l, X, no=h)),
                ('the greatest child', z3.ForAll([b], zimp(zand(h < b, b < l, kid(f, h, b)), znot(Cmp(c, X[q], X[b]))), patterns=[X[b]])),
                ('the parent of the gap', z3.ForAll([g], zimp(zand(f <= g, g < h, kid(f, g, h)), znot(Cmp(c, X[g], X[q]))), patterns=[X[g]])),
                ('the gap fits its parent', z3.ForAll([g], zimp(zand(f <= g, g < h, kid(f, g, h)), znot(Cmp(c, X[g], t))), patterns=[X[g]])),
                ('rest unchanged', frame(c, 'W', f, l, X, O)), ('same elements', zand(mark(c, h, q), perm(c, f, l, z3.Store(X, h, t), O)))]
    out.append(Contract(D + 'push_heap_front', 'W W _ v', pf, regs=W, loops=only('detail::push_heap_front', pfl, lambda L: L.a[0] + L.a[2] - L.p('pp'))))

    def mh(c, f, l, *_):
        c.requires(f <= l, 'valid range')
        O = pre(c)
        c.assigns('W')
        X = raw(c.A('W'))
        c.ensures(edges(c, f, l, X), 'heap')
        done(c, f, l, X, O)

    def mhl(L):
        c, (f, l) = L.c, L.a[:2]
        X, O, i, q = raw(L.A('W')), raw(L.old('W')), L.v('i'), L.p('last')
        return [('position', zand(i >= 1, i <= l - f, q == f + i)), ('heap so far', edges(c, f, q, X)), ('rest unchanged', frame(c, 'W', f, l, X, O)), ('same elements', perm(c, f, l, X, O))]
    out.append(Contract(D + 'make_heap', 'W W _', mh, regs=W, loops=only('detail::make_heap', mhl, lambda L: L.a[1] - L.a[0] - L.v('i'))))

    def ph(c, f, l, n):
        c.requires(zand(f <= l, n == l - f), 'length of the range')
        O = pre(c)
        c.requires(edges(c, f, l, O), 'heap')
        c.assigns('W')
        X = raw(c.A('W'))
        c.ensures(edges(c, f, l - 1, X), 'the others form a heap')
        c.ensures(zimp(f < l, X[l - 1] == O[f]), 'the greatest is last')
        done(c, f, l, X, O)
    out.append(Contract(D + 'pop_heap', 'W W _ v', ph, regs=W))

    def over(c, f, m, l, X):
        """nothing in [m,l) is less than anything in [f,m)"""
        a, b = z3.Ints('a?%d b?%d' % (c.ctx.fresh_n, c.ctx.fresh_n))
        c.ctx.fresh_n += 1
        return z3.ForAll([a, b], zimp(zand(f <= a, a < m, m <= b, b < l), znot(Cmp(c, X[b], X[a]))), patterns=[z3.MultiPattern(X[a], X[b])])

    def sh(c, f, l, *_):
        c.requires(f <= l, 'valid range')
        O = pre(c)
        c.requires(edges(c, f, l, O), 'heap')
        c.assigns('W')
        X = raw(c.A('W'))
        c.ensures(sorted_(c, f, l, X), 'sorted')
        done(c, f, l, X, O)

    def shl(L):
        c, (f, l) = L.c, L.a[:2]
        X, O, q = raw(L.A('W')), raw(L.old('W')), L.p('last')
        root_max(c, f, q, X)
        return [('position', zand(f <= q, q <= l, L.v('len') == q - f)), ('heap in front', edges(c, f, q, X)), ('the root is greatest', zimp(f < q, below(c, f, q, X, X[f]))), ('sorted behind', sorted_(c, q, l, X)), ('nothing behind is less', over(c, f, q, l, X)),
                ('rest unchanged', frame(c, 'W', f, l, X, O)), ('same elements', perm(c, f, l, X, O))]
    out.append(Contract(D + 'sort_heap', 'W W _', sh, regs=W, loops=only('detail::sort_heap', shl, lambda L: L.v('len'))))

    def ps(c, f, m, l, *_):
        c.requires(zand(f <= m, m <= l), 'valid range')
        O = pre(c)
        c.assigns('W')
        X = raw(c.A('W'))
        c.ensures(sorted_(c, f, m, X), 'the first part is sorted')
        c.ensures(over(c, f, m, l, X), 'nothing behind it is less')
        done(c, f, l, X, O)

    def psl(L):
        c, (f, m, l) = L.c, L.a[:3]
        X, O, i = raw(L.A('W')), raw(L.old('W')), L.p('i')
        root_max(c, f, m, X)
        b = z3.Int('b?%d' % c.ctx.fresh_n)
        c.ctx.fresh_n += 1
        return [('position', zand(m <= i, i <= l)), ('heap in front', edges(c, f, m, X)), ('the root is greatest', zimp(f < m, below(c, f, m, X, X[f]))), ('nothing seen is less than the root', z3.ForAll([b], zimp(zand(f < m, m <= b, b < i), znot(Cmp(c, X[b], X[f]))), patterns=[X[b]])),
                ('rest unchanged', frame(c, 'W', f, l, X, O)), ('same elements', perm(c, f, l, X, O))]
    out.append(Contract(D + 'partial_sort', 'W W W _', ps, regs=W, loops=only('detail::partial_sort', psl, lambda L: L.a[2] - L.p('i'))))
    return out
