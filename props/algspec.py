"""Contracts: iterator motion, ordered searches, comparisons, extremes, order predicates."""
from .iterspec import *
from .seqspec import *
from svc.contract import inv


def motion(bid=False, it='A'):
    """distance / next / prev; for non-random-access iterators the recursions behind them"""
    def dist(c, a, b):
        c.requires(a <= b, 'valid range')
        c.ensures(c.ret('i64') == b - a, 'number of increments')

    def nxt(c, a, n):
        c.requires(zand(a + n >= 0, a + n <= c.n(it)), 'stays inside the sequence')
        if not bid:
            c.requires(n >= 0, 'forward only')
        c.ensures(c.ret(it) == a + n, 'moves n positions')

    def prv(c, a, n):
        c.requires(zand(a - n >= 0, a - n <= c.n(it)), 'stays inside the sequence')
        c.ensures(c.ret(it) == a - n, 'moves n positions back')

    def n2(c, a, n):
        c.requires(zand(n >= 1, a + n <= c.n(it)), 'n positive')
        c.decreases(n)
        c.ensures(c.ret(it) == a + n, 'moves n positions')

    def n2neg(c, a, n):
        c.requires(zand(n <= -1, a + n >= 0), 'n negative')
        c.decreases(-n)
        c.ensures(c.ret(it) == a + n, 'moves n positions')

    def p2(c, a, n):
        c.requires(zand(n >= 1, a - n >= 0), 'n positive')
        c.decreases(n)
        c.ensures(c.ret(it) == a - n, 'moves n positions back')

    def p2neg(c, a, n):
        c.requires(zand(n <= -1, a - n <= c.n(it)), 'n negative')
        c.decreases(-n)
        c.ensures(c.ret(it) == a - n, 'moves n positions back')
    nonra = lambda f, d: 'It<' in d
    K = 'sprout::iterator_detail::'
    ds = scan('@', it + ',i64', it, lambda c, s, a: s[0] == a[0],
              lambda c, s, t, a: zand(s[0] <= t[0], t[1] - s[1] == t[0] - s[0]), lambda c, s, a: zand(s[1] >= 0, s[1] <= s[0]))
    ds[0].name = ds[0].label = ds[0].group = K + 'iterator_distance_impl_1'
    ds[1].name = ds[1].label = ds[1].group = K + 'iterator_distance_impl'
    out = [Contract('sprout::distance', [it, it], dist, when=nonra), Contract('sprout::next', [it, 'v'], nxt, when=nonra, label='sprout::next/2'),
           Contract('sprout::prev', [it, 'v'], prv, when=nonra, label='sprout::prev/2'),
           Contract(K + 'next_impl_2', [it, 'v'], n2), Contract(K + 'next_impl_2_neg', [it, 'v'], n2neg),
           Contract(K + 'prev_impl_2', [it, 'v'], p2), Contract(K + 'prev_impl_2_neg', [it, 'v'], p2neg)] + ds
    for x in out:
        x.optional = True
    return out


# ------------------------------------------------------------------------------------------------ ordered search
def ordered():
    def lt(c, i, v):
        return Cmp(c, c.A('A')[i], v)

    def gt(c, i, v):
        return Cmp(c, v, c.A('A')[i])

    def part_lt(c, f, l, v):
        c.requires(c.forall2(f, l, lambda i, j: zimp(lt(c, j, v), lt(c, i, v))), 'partitioned by element < value')

    def part_gt(c, f, l, v):
        c.requires(c.forall2(f, l, lambda i, j: zimp(gt(c, i, v), gt(c, j, v))), 'partitioned by value < element')

    def lb_post(c, f, l, v, r):
        c.ensures(zand(f <= r, r <= l), 'result in [first,last]')
        c.ensures(c.forall(f, r, lambda i: lt(c, i, v)), 'everything before is less')
        c.ensures(c.forall(r, l, lambda i: znot(lt(c, i, v))), 'nothing from the result on is less')

    def ub_post(c, f, l, v, r):
        c.ensures(zand(f <= r, r <= l), 'result in [first,last]')
        c.ensures(c.forall(f, r, lambda i: znot(gt(c, i, v))), 'nothing before is greater')
        c.ensures(c.forall(r, l, lambda i: gt(c, i, v)), 'everything from the result on is greater')

    def excl(c, f, l, v):
        c.requires(c.forall(f, l, lambda i: znot(zand(lt(c, i, v), gt(c, i, v)))), 'asymmetric')

    def mk(pre, post, two=False):
        def api(c, f, l, v):
            c.requires(f <= l, 'valid range')
            pre(c, f, l, v)
            post(c, f, l, v)

        def det(c, f, n, v):
            c.requires(zand(n >= 0, f + n <= c.n('A')), 'valid range')
            pre(c, f, f + n, v)
            c.decreases(n)
            post(c, f, f + n, v)
        return api, det
    lb = mk(part_lt, lambda c, f, l, v: lb_post(c, f, l, v, c.ret('A')))
    ub = mk(part_gt, lambda c, f, l, v: ub_post(c, f, l, v, c.ret('A')))

    def er_pre(c, f, l, v):
        part_lt(c, f, l, v)
        part_gt(c, f, l, v)
        excl(c, f, l, v)

    def er_post(c, f, l, v):
        lb_post(c, f, l, v, c.ret('A', 0))
        ub_post(c, f, l, v, c.ret('A', 1))
    er = mk(er_pre, er_post)

    def bs_post(c, f, l, v):
        r = c.ret('bool')
        eqv = lambda i: zand(znot(lt(c, i, v)), znot(gt(c, i, v)))
        c.ensures(zimp(r, c.exists(f, l, eqv)), 'true: an equivalent element exists')
        c.ensures(zimp(znot(r), c.forall(f, l, lambda i: znot(eqv(i)))), 'false: no equivalent element exists')
    bs = mk(er_pre, bs_post)

    def pp(c, f, l):
        A = c.A('A')
        c.requires(f <= l, 'valid range')
        c.requires(c.forall2(f, l, lambda i, j: zimp(P(c, A[j]), P(c, A[i]))), 'partitioned by the predicate')
        r = c.ret('A')
        c.ensures(zand(f <= r, r <= l), 'result in [first,last]')
        c.ensures(c.forall(f, r, lambda i: P(c, A[i])), 'everything before satisfies')
        c.ensures(c.forall(r, l, lambda i: znot(P(c, A[i]))), 'nothing from the result on satisfies')

    def pp_loops(base, k):
        if base != 'sprout::partition_point':
            return None

        def f(L):
            c = L.c
            A = L.A('A')
            f0, l0 = L.a[0], L.a[1]
            x, n = L.p('first'), L.v('len')
            return [('window', zand(f0 <= x, n >= 0, x + n <= l0)),
                    ('before satisfies', c.forall(f0, x, lambda i: P(c, A[i]))),
                    ('after does not', c.forall(x + n, l0, lambda i: znot(P(c, A[i]))))]
        return inv(f, lambda L: L.v('len'))

    def pp_impl(c, f, l, mid):
        A = c.A('A')
        c.requires(zand(f <= mid, mid <= l, zimp(f < l, mid < l)), 'mid inside')
        c.requires(c.forall2(f, l, lambda i, j: zimp(P(c, A[j]), P(c, A[i]))), 'partitioned by the predicate')
        c.decreases(l - f)
        r = c.ret('A')
        c.ensures(zand(f <= r, r <= l), 'result in [first,last]')
        c.ensures(c.forall(f, r, lambda i: P(c, A[i])), 'everything before satisfies')
        c.ensures(c.forall(r, l, lambda i: znot(P(c, A[i]))), 'nothing from the result on satisfies')
    ppc = Contract('sprout::partition_point', 'A A', pp, loops=pp_loops)
    ppi = Contract(D('partition_point_impl'), 'A A A', pp_impl)
    V = 'A A val:i32'
    W = 'A v val:i32'
    cs = []
    for n, (a, d) in (('lower_bound', lb), ('upper_bound', ub), ('equal_range', er)):
        cs += [Contract('sprout::' + n, V, a), Contract(D(n), W, d)]
    return cs + [Contract('sprout::binary_search', V, bs[0])], ppc, ppi


# ------------------------------------------------------------------------------------------------ equal / lexicographical
def equal_c():
    def pm(c, i, j):
        return BP(c, c.A('A')[i], c.A('B')[j])

    def allm(c, f1, l1, f2):
        return c.forall(f1, l1, lambda i: pm(c, i, f2 + (i - f1)))

    def somem(c, f1, l1, f2):
        return c.exists(f1, l1, lambda i: znot(pm(c, i, f2 + (i - f1))))

    def api3(c, f1, l1, f2):
        c.requires(zand(f1 <= l1, f2 + (l1 - f1) <= c.n('B')), 'valid ranges')
        r = c.ret('bool')
        c.ensures(zimp(r, allm(c, f1, l1, f2)), 'true: all corresponding elements match')
        c.ensures(zimp(znot(r), somem(c, f1, l1, f2)), 'false: some corresponding elements differ')

    def api4(c, f1, l1, f2, l2):
        c.requires(zand(f1 <= l1, f2 <= l2), 'valid ranges')
        r = c.ret('bool')
        same = l1 - f1 == l2 - f2
        c.ensures(zimp(r, zand(same, allm(c, f1, l1, f2))), 'true: equal length and all corresponding elements match')
        c.ensures(zimp(zand(znot(r), same), somem(c, f1, l1, f2)), 'false: different length or some corresponding elements differ')

    def ra(c, first, last, f2, pivot):
        c.requires(zand(first < last, 2 * pivot <= last - first, last - first <= 2 * pivot + 1), 'pivot is the middle')
        c.requires(f2 + (last - first) <= c.n('B'), 'valid second range')
        c.decreases(last - first)
        r = c.ret('bool')
        c.ensures(zimp(r, allm(c, first, last, f2)), 'all match')
        c.ensures(zimp(znot(r), somem(c, first, last, f2)), 'some differ')

    def rel(c, s, t, a):
        return zand(s[0] <= t[0], t[0] - s[0] == t[1] - s[1], allm(c, s[0], t[0], s[1]), zimp(znot(t[2]), zand(t[0] < a[0], znot(pm(c, t[0], t[1])))))
    return [Contract('sprout::equal', 'A A B', api3, label='equal/3'), Contract('sprout::equal', 'A A B B', api4, label='equal/4'),
            Contract(D('equal_impl_ra'), 'A A B v', ra)] + \
        scan('equal', 'A,B,bool', 'A', lambda c, s, a: zor(znot(s[2]), s[0] == a[0]), rel, lambda c, s, a: s[1] + (a[0] - s[0]) <= c.n('B')) + \
        scan('equal2', 'A,B,bool', 'A B', lambda c, s, a: zor(znot(s[2]), s[0] == a[0], s[1] == a[1]),
             lambda c, s, t, a: zand(rel(c, s, t, a), zimp(znot(t[2]), t[1] < a[1])), lambda c, s, a: s[1] <= a[1])


def lex_c():
    def eqv(c, i, j):
        A, Bv = c.A('A'), c.A('B')
        return zand(znot(Cmp(c, A[i], Bv[j])), znot(Cmp(c, Bv[j], A[i])))

    def less(c, i, j):
        return Cmp(c, c.A('A')[i], c.A('B')[j])

    def more(c, i, j):
        return zand(znot(less(c, i, j)), Cmp(c, c.A('B')[j], c.A('A')[i]))

    def alleq(c, f1, e1, f2):
        return c.forall(f1, e1, lambda i: eqv(c, i, f2 + (i - f1)))

    def is_less(c, f1, l1, f2, l2):
        n = zif(l1 - f1 < l2 - f2, l1 - f1, l2 - f2)
        return zor(c.exists(f1, f1 + n, lambda i: zand(less(c, i, f2 + (i - f1)), alleq(c, f1, i, f2)), 'm'),
                   zand(l1 - f1 < l2 - f2, alleq(c, f1, l1, f2)))

    def is_more(c, f1, l1, f2, l2):
        n = zif(l1 - f1 < l2 - f2, l1 - f1, l2 - f2)
        return zor(c.exists(f1, f1 + n, lambda i: zand(more(c, i, f2 + (i - f1)), alleq(c, f1, i, f2)), 'm'),
                   zand(l1 - f1 > l2 - f2, alleq(c, f1, f1 + (l2 - f2), f2)))

    def is_same(c, f1, l1, f2, l2):
        return zand(l1 - f1 == l2 - f2, alleq(c, f1, l1, f2))

    def api(c, f1, l1, f2, l2):
        c.requires(zand(f1 <= l1, f2 <= l2), 'valid ranges')
        r = c.ret('bool')
        c.ensures(zimp(r, is_less(c, f1, l1, f2, l2)), 'true: less at the first difference, or a proper prefix')
        c.ensures(zimp(znot(r), zor(is_more(c, f1, l1, f2, l2), is_same(c, f1, l1, f2, l2))), 'false: greater at the first difference, equal, or an extension')

    def tri(c, f1, l1, f2, l2):
        c.requires(zand(f1 <= l1, f2 <= l2), 'valid ranges')
        r = c.ret('i32')
        c.ensures(zand(r >= -1, r <= 1), 'result is -1, 0 or 1')
        c.ensures(zimp(r == -1, is_less(c, f1, l1, f2, l2)), 'negative: first sequence is less')
        c.ensures(zimp(r == 1, is_more(c, f1, l1, f2, l2)), 'positive: first sequence is greater')
        c.ensures(zimp(r == 0, is_same(c, f1, l1, f2, l2)), 'zero: equivalent sequences')

    def ra(c, f1, f2, n, found):
        c.requires(zimp(found == 2, zand(n >= 1, f1 + n <= c.n('A'), f2 + n <= c.n('B'))), 'valid ranges')
        c.decreases(zif(found != 2, 0, n))
        r = c.ret('i32')
        c.ensures(zimp(found != 2, r == found), 'already decided')
        nf = found == 2
        c.ensures(zimp(nf, zor(r == -1, r == 1, r == 2)), 'tristate')
        c.ensures(zimp(zand(nf, r == -1), c.exists(f1, f1 + n, lambda i: zand(less(c, i, f2 + (i - f1)), alleq(c, f1, i, f2)), 'm')), 'less')
        c.ensures(zimp(zand(nf, r == 1), c.exists(f1, f1 + n, lambda i: zand(more(c, i, f2 + (i - f1)), alleq(c, f1, i, f2)), 'm')), 'greater')
        c.ensures(zimp(zand(nf, r == 2), alleq(c, f1, f1 + n, f2)), 'equivalent')

    def done(c, s, a):
        return zor(s[1] == a[1], s[0] == a[0])

    def rel(c, s, t, a):
        k = t[0] - s[0]
        cont = zand(k >= 0, t[1] - s[1] == k, alleq(c, s[0], t[0], s[1]))
        # decided: one iterator jumped to its end while the other stays at the difference
        e = t[1] - s[1]
        lessd = zand(t[0] == a[0], e >= 0, t[1] < a[1], s[0] + e < a[0], less(c, s[0] + e, t[1]), alleq(c, s[0], s[0] + e, s[1]))
        mored = zand(t[1] == a[1], k >= 0, t[0] < a[0], s[1] + k < a[1], more(c, t[0], s[1] + k), alleq(c, s[0], t[0], s[1]))
        return zor(cont, lessd, mored)
    # with terminators: an element equivalent to its delimiter ends its sequence and precedes everything but the other terminator
    def end1(c, i, d):
        return zand(znot(Cmp(c, c.A('A')[i], d)), znot(Cmp(c, d, c.A('A')[i])))

    def end2(c, j, d):
        return zand(znot(Cmp(c, c.A('B')[j], d)), znot(Cmp(c, d, c.A('B')[j])))

    def dsame(c, i, j, d, e):
        return zand(end1(c, i, d), end2(c, j, e))

    def dless(c, i, j, d, e):
        return zand(znot(end2(c, j, e)), zor(end1(c, i, d), less(c, i, j)))

    def dmore(c, i, j, d, e):
        return zand(znot(end1(c, i, d)), zor(end2(c, j, e), more(c, i, j)))

    def dgo(c, f1, e1, f2, d, e):
        return c.forall(f1, e1, lambda i: zand(znot(end1(c, i, d)), znot(end2(c, f2 + (i - f1), e)), eqv(c, i, f2 + (i - f1))))

    def dfirst(c, what, f1, n, f2, d, e):
        return c.exists(f1, f1 + n, lambda i: zand(what(c, i, f2 + (i - f1), d, e), dgo(c, f1, i, f2, d, e)), 'm')

    def trid(c, f1, l1, d, f2, l2, e):
        c.requires(zand(f1 <= l1, f2 <= l2), 'valid ranges')
        r = c.ret('i32')
        n = zif(l1 - f1 < l2 - f2, l1 - f1, l2 - f2)
        c.ensures(zand(r >= -1, r <= 1), 'result is -1, 0 or 1')
        c.ensures(zimp(r == -1, zor(dfirst(c, dless, f1, n, f2, d, e), zand(l1 - f1 < l2 - f2, dgo(c, f1, l1, f2, d, e)))), 'negative: first sequence is less or ends first')
        c.ensures(zimp(r == 1, zor(dfirst(c, dmore, f1, n, f2, d, e), zand(l1 - f1 > l2 - f2, dgo(c, f1, f1 + n, f2, d, e)))), 'positive: first sequence is greater or ends later')
        c.ensures(zimp(r == 0, zor(dfirst(c, dsame, f1, n, f2, d, e), zand(l1 - f1 == l2 - f2, dgo(c, f1, l1, f2, d, e)))), 'zero: equivalent up to both ends')

    def rad(c, f1, d, f2, e, n, found):
        c.requires(zimp(found == 2, zand(n >= 1, f1 + n <= c.n('A'), f2 + n <= c.n('B'))), 'valid ranges')
        c.decreases(zif(found != 2, 0, n))
        r = c.ret('i32')
        c.ensures(zimp(found != 2, r == found), 'already decided')
        nf = found == 2
        c.ensures(zimp(nf, zor(r == -1, r == 0, r == 1, r == 2)), 'tristate')
        for v, w, t in ((-1, dless, 'less'), (1, dmore, 'greater'), (0, dsame, 'both end')):
            c.ensures(zimp(zand(nf, r == v), dfirst(c, w, f1, n, f2, d, e)), t)
        c.ensures(zimp(zand(nf, r == 2), dgo(c, f1, f1 + n, f2, d, e)), 'undecided')

    def donad(c, s, a):
        return zor(s[1] == a[2], s[0] == a[0])

    def reld(c, s, t, a):
        d, e = a[1], a[3]
        k, m = t[0] - s[0], t[1] - s[1]
        cont = zand(k >= 0, m == k, dgo(c, s[0], t[0], s[1], d, e))
        lessd = zand(t[0] == a[0], m >= 0, t[1] < a[2], s[0] + m < a[0], dless(c, s[0] + m, t[1], d, e), dgo(c, s[0], s[0] + m, s[1], d, e))
        mored = zand(t[1] == a[2], k >= 0, t[0] < a[0], s[1] + k < a[2], dmore(c, t[0], s[1] + k, d, e), dgo(c, s[0], t[0], s[1], d, e))
        same = zand(t[0] == a[0], t[1] == a[2], c.exists(s[0], a[0], lambda i: zand(s[1] + (i - s[0]) < a[2], dsame(c, i, s[1] + (i - s[0]), d, e), dgo(c, s[0], i, s[1], d, e)), 'm'))
        return zor(cont, lessd, mored, same)
    K = ' val:i32'
    return [Contract('sprout::lexicographical_compare', 'A A B B', api), Contract('sprout::tristate_lexicographical_compare', 'A A B B', tri),
            Contract(D('lexicographical_compare_impl_ra'), 'A B v v', ra),
            Contract('sprout::tristate_lexicographical_compare', 'A A' + K + ' B B' + K, trid, label='tristate/delimiters'),
            Contract(D('tristate_lexicographical_compare_2_impl_ra'), 'A' + K + ' B' + K + ' v v', rad)] + \
        scan('lexicographical_compare', 'A,B', 'A B', done, rel, lambda c, s, a: s[1] <= a[1]) + \
        scan('tristate_lexicographical_compare', 'A,B', 'A' + K + ' B' + K, donad, reld, lambda c, s, a: s[1] <= a[2])


# ------------------------------------------------------------------------------------------------ extremes
def minel_post(c, f, l, r, val=False):
    A = c.A('A')
    c.ensures(zand(f <= r, r < l), 'result in the range')
    c.ensures(c.forall(f, l, lambda i: znot(Cmp(c, A[i], A[r]))), 'nothing is less than the result')
    c.ensures(c.forall(f, r, lambda i: Cmp(c, A[r], A[i])), 'first such element')


def maxel_post(c, f, l, r, last=False):
    A = c.A('A')
    c.ensures(zand(f <= r, r < l), 'maximum in the range')
    c.ensures(c.forall(f, l, lambda i: znot(Cmp(c, A[r], A[i]))), 'nothing is greater than the maximum')
    if last:
        c.ensures(c.forall(r + 1, l, lambda i: Cmp(c, A[i], A[r])), 'last such element')
    else:
        c.ensures(c.forall(f, r, lambda i: Cmp(c, A[i], A[r])), 'first such element')


def swo(c):
    strict_weak(c)


def extreme_c(name, post):
    """min_element / max_element"""
    def better(c, r, i):
        A = c.A('A')
        return zand(znot(Cmp(c, A[i], A[r])) if name == 'min_element' else znot(Cmp(c, A[r], A[i])))

    def strictly(c, r, i):
        A = c.A('A')
        return Cmp(c, A[r], A[i]) if name == 'min_element' else Cmp(c, A[i], A[r])

    def api(c, f, l):
        c.requires(f <= l, 'valid range')
        swo(c)
        r = c.ret('A')
        c.ensures(zimp(f == l, r == l), 'last for an empty range')
        A = c.A('A')
        c.ensures(zimp(f < l, zand(f <= r, r < l)), 'result in the range')
        c.ensures(zimp(f < l, c.forall(f, l, lambda i: better(c, r, i))), 'no element beats the result')
        c.ensures(zimp(f < l, c.forall(f, r, lambda i: strictly(c, r, i))), 'first such element')

    def ra(c, f, l, pivot):
        c.requires(zand(f < l, 2 * pivot <= l - f, l - f <= 2 * pivot + 1), 'pivot is the middle')
        swo(c)
        c.decreases(l - f)
        r = c.ret('A')
        c.ensures(zand(f <= r, r < l), 'result in the range')
        c.ensures(c.forall(f, l, lambda i: better(c, r, i)), 'no element beats the result')
        c.ensures(c.forall(f, r, lambda i: strictly(c, r, i)), 'first such element')

    def rel(c, s, t, a):
        return zand(s[0] <= t[0], zor(t[1] == s[1], zand(s[0] <= t[1], t[1] < t[0])),
                    better(c, t[1], s[1]), zimp(t[1] != s[1], strictly(c, t[1], s[1])),
                    c.forall(s[0], t[0], lambda i: better(c, t[1], i)),
                    c.forall(s[0], zif(t[1] == s[1], s[0], t[1]), lambda i: strictly(c, t[1], i)))
    return [Contract('sprout::' + name, 'A A', api), Contract(D(name + '_impl_ra'), 'A A v', ra)] + \
        scan(name, 'A,A', 'A', lambda c, s, a: s[0] == a[0], rel, lambda c, s, a: s[1] < s[0], extra_req=lambda c, a: swo(c))


def minmax_c():
    def q(c, m, M, f, l):
        A = c.A('A')
        return zand(f <= m, m < l, f <= M, M < l,
                    c.forall(f, l, lambda i: zand(znot(Cmp(c, A[i], A[m])), znot(Cmp(c, A[M], A[i])))),
                    c.forall(f, m, lambda i: Cmp(c, A[m], A[i])), c.forall(M + 1, l, lambda i: Cmp(c, A[i], A[M])))

    def api(c, f, l):
        c.requires(f <= l, 'valid range')
        swo(c)
        m, M = c.ret('A', 0), c.ret('A', 1)
        c.ensures(zimp(f == l, zand(m == f, M == f)), 'empty range')
        c.ensures(zimp(f < l, q(c, m, M, f, l)), 'first minimum and last maximum')

    def ra(c, f, half):
        c.requires(zand(half >= 1, f + 2 * half <= c.n('A')), 'range of 2*half elements')
        swo(c)
        c.decreases(half)
        c.ensures(q(c, c.ret('A', 0), c.ret('A', 1), f, f + 2 * half), 'first minimum and last maximum')

    def rel(c, s, t, a):
        A = c.A('A')
        inn = lambda x: zand(s[0] <= x, x < t[0])
        return zand(s[0] <= t[0], zor(t[1] == s[1], inn(t[1])), zor(t[2] == s[2], inn(t[2])),
                    znot(Cmp(c, A[s[1]], A[t[1]])), zimp(t[1] != s[1], Cmp(c, A[t[1]], A[s[1]])), znot(Cmp(c, A[t[2]], A[s[2]])),
                    c.forall(s[0], t[0], lambda i: zand(znot(Cmp(c, A[i], A[t[1]])), znot(Cmp(c, A[t[2]], A[i])))),
                    c.forall(s[0], zif(t[1] == s[1], s[0], t[1]), lambda i: Cmp(c, A[t[1]], A[i])),
                    c.forall(zif(t[2] == s[2], s[0], t[2] + 1), t[0], lambda i: Cmp(c, A[i], A[t[2]])))
    return [Contract('sprout::minmax_element', 'A A', api), Contract(D('minmax_element_impl_ra'), 'A v', ra)] + \
        scan('minmax_element', 'A,A,A', 'A', lambda c, s, a: s[0] == a[0], rel, lambda c, s, a: zand(s[1] < s[0], s[2] < s[0]),
             extra_req=lambda c, a: swo(c), steps_le=True)


def sorted_c():
    def bad(c, i):
        A = c.A('A')
        return Cmp(c, A[i + 1], A[i])

    def api(c, f, l):
        c.requires(f <= l, 'valid range')
        r = c.ret('bool')
        c.ensures(zimp(r, c.forall(f, l - 1, lambda i: znot(bad(c, i)))), 'true: no element is less than its predecessor')
        c.ensures(zimp(znot(r), c.exists(f, l - 1, lambda i: bad(c, i))), 'false: some element is less than its predecessor')

    def ra(c, f, l, pivot):
        c.requires(zand(f < l, l < c.n('A'), 2 * pivot <= l - f, l - f <= 2 * pivot + 1), 'pivot is the middle')
        c.decreases(l - f)
        r = c.ret('bool')
        c.ensures(zimp(r, c.forall(f, l, lambda i: znot(bad(c, i)))), 'no element is less than its predecessor')
        c.ensures(zimp(znot(r), c.exists(f, l, lambda i: bad(c, i))), 'some element is less than its predecessor')

    def until(c, f, l):
        c.requires(f <= l, 'valid range')
        r = c.ret('A')
        c.ensures(zand(f <= r, r <= l, zimp(f < l, f < r)), 'result in the range')
        c.ensures(c.forall(f, r - 1, lambda i: znot(bad(c, i))), 'sorted up to the result')
        c.ensures(zimp(r < l, bad(c, r - 1)), 'result is less than its predecessor unless last')
    ura = ra_found('is_sorted_until_impl_ra', 'A A v A', lambda c, A, i, a: bad(c, i), exclusive=True)

    def inv_(c, s, a):
        return zand(s[0] < s[1], zor(s[1] == s[0] + 1, zand(s[1] == a[0], bad(c, s[0]))))

    def rel(c, s, u, a):
        return zand(s[0] <= u[0], c.forall(s[0], u[0], lambda i: znot(bad(c, i))))
    return [Contract('sprout::is_sorted', 'A A', api), Contract(D('is_sorted_impl_ra'), 'A A v', ra),
            Contract('sprout::is_sorted_until', 'A A', until), ura] + \
        scan('is_sorted_until', 'A,A', 'A', lambda c, s, a: s[1] == a[0], rel, inv_, remaining=lambda c, s, a: a[0] - s[1], pos=1)


def heap_c():
    def bad(c, f, k):
        A = c.A('A')
        return Cmp(c, A[f + (k - f - 1) / 2], A[k])

    def is_heap(c, f, l):
        c.requires(f <= l, 'valid range')
        r = c.ret('bool')
        c.ensures(zimp(r, c.forall(f + 1, l, lambda k: znot(bad(c, f, k)))), 'true: no parent is less than its child')
        c.ensures(zimp(znot(r), c.exists(f + 1, l, lambda k: bad(c, f, k))), 'false: some parent is less than its child')

    def until(c, f, l):
        c.requires(f <= l, 'valid range')
        r = c.ret('A')
        c.ensures(zand(f <= r, r <= l), 'result in the range')
        c.ensures(c.forall(f + 1, r, lambda k: znot(bad(c, f, k))), 'heap up to the result')
        c.ensures(zimp(r < l, zand(r > f, bad(c, f, r))), 'result violates the heap order unless last')

    def rec(c, it, first, last, pivot, found):
        c.requires(zand(first >= 1, first <= last, it + last <= c.n('A')), 'valid range')
        nf = found == first
        c.requires(zimp(nf, zand(first < last, 2 * pivot <= last - first, last - first <= 2 * pivot + 1)), 'pivot is the middle')
        c.decreases(zif(found != first, 0, last - first))
        r = c.ret('i64')
        c.ensures(zimp(znot(nf), r == found), 'already found')
        c.ensures(zimp(nf, zand(first <= r, r <= last)), 'result in the range')
        c.ensures(zimp(nf, c.forall(it + first, it + r, lambda k: znot(bad(c, it, k)))), 'heap up to the result')
        c.ensures(zimp(zand(nf, r < last), bad(c, it, it + r)), 'violation at the result unless last')
    return [Contract('sprout::is_heap', 'A A', is_heap), Contract('sprout::is_heap_until', 'A A', until),
            Contract(D('is_heap_until_impl'), 'A v v v v', rec)]
