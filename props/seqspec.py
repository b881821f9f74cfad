"""Contracts of the two-sequence searches (regions A and B are int arrays, BP an arbitrary binary predicate)."""
import z3
from svc.contract import Contract
from svc.core import Cat, UNDEF
from .iterspec import *


def bindp(c, v, t, at, make=False, mem=None, nm='pred'):
    """sprout::binder1st<BPred,int> coerced to one i64: the bound value lives in bytes 4..7"""
    ctx = c.ctx
    if make:
        return Cat([(0, 4, UNDEF), (4, 4, ctx.tyconst(nm, ('i', 32)))], 8)
    for o, s, x in v.parts:
        if o == 4 and s == 4:
            return ctx.val(ctx.plain(x, 32), 32)
    raise Exception('binder layout')


def find_if_bind(which='binder1st', R='B'):
    """find_if with one argument of a binary predicate bound: test(i) = BP(bound, x[i]) or BP(x[i], bound)"""
    def is_bind(f, dem):
        return which in dem

    def test(c, A, i, a):
        return BP(c, a[-1], A[i]) if which == 'binder1st' else BP(c, A[i], a[-1])

    def api(c, first, last, v):
        c.requires(first <= last, 'valid range')
        first_match(c, c.A(R), first, last, c.ret(R), lambda i: test(c, c.A(R), i, (v,)))

    def ra(c, first, last, v, pivot, found):
        A = c.A(R)
        c.requires(first <= last, 'valid range')
        c.requires(zimp(found == first, zand(first < last, 2 * pivot <= last - first, last - first <= 2 * pivot + 1)), 'pivot is the middle')
        c.decreases(zif(found != first, 0, last - first))
        r = c.ret(R)
        nf = found == first
        t = lambda i: test(c, A, i, (v,))
        c.ensures(zimp(znot(nf), r == found), 'already found')
        c.ensures(zimp(nf, zand(first <= r, r <= last, c.forall(first, r, lambda i: znot(t(i))), zimp(r < last, t(r)))), 'first match')

    def done(c, s, a):
        return zor(s[1], s[0] == a[0])

    def rel(c, s, t, a):
        A = c.A(R)
        return zand(s[0] <= t[0], c.forall(s[0], t[0], lambda i: znot(test(c, A, i, a))), zimp(t[1], zand(t[0] < a[0], test(c, A, t[0], a))))
    cs = [Contract('sprout::find_if', [R, R, bindp], api, when=is_bind, label='sprout::find_if(%s)' % which),
          Contract(D('find_if_impl_ra'), [R, R, bindp, 'v', R], ra, when=is_bind, label='find_if_impl_ra(%s)' % which)]
    for x in scan('find_if', R + ',bool', R, done, rel):
        x.sig = x.sig[:-1] + [bindp, 'v']
        x.when = is_bind
        x.label += '(%s)' % which
        cs.append(x)
    return cs


def adjacent_find_c():
    def t(c, i):
        A = c.A('A')
        return BP(c, A[i], A[i + 1])

    def api(c, first, last):
        c.requires(first <= last, 'valid range')
        r = c.ret('A')
        c.ensures(zand(first <= r, r <= last), 'result in [first,last]')
        c.ensures(c.forall(first, zif(r < last, r, last - 1), lambda i: znot(t(c, i))), 'no earlier matching pair')
        c.ensures(zimp(r < last, zand(r + 1 < last, t(c, r))), 'result starts a matching pair unless last')
    ra = ra_found('adjacent_find_impl_ra', 'A A v A', lambda c, A, i, a: t(c, i), exclusive=True)

    def done(c, s, a):
        return s[1] == a[0]

    def inv(c, s, a):
        return zand(s[0] < s[1], zor(s[1] == s[0] + 1, zand(s[1] == a[0], t(c, s[0]))))

    def rel(c, s, u, a):
        return zand(s[0] <= u[0], c.forall(s[0], u[0], lambda i: znot(t(c, i))))
    return [Contract('sprout::adjacent_find', 'A A', api), ra] + scan('adjacent_find', 'A,A', 'A', done, rel, inv,
                                                                      remaining=lambda c, s, a: a[0] - s[1], pos=1)


def find_first_of_c():
    def test(c, A, i, a):
        f2, l2 = a[-2], a[-1]
        Bv = c.A('B')
        return c.exists(f2, l2, lambda j: BP(c, A[i], Bv[j]), 'j')

    def api(c, f1, l1, f2, l2):
        c.requires(zand(f1 <= l1, f2 <= l2), 'valid ranges')
        A = c.A('A')
        first_match(c, A, f1, l1, c.ret('A'), lambda i: test(c, A, i, (f2, l2)))

    def req(c, a):
        c.requires(a[-2] <= a[-1], 'valid second range')
    ra0 = ra_found('find_first_of_impl_ra', 'A A B B v A', test)

    def ra(c, f, l, f2, l2, p, fd):
        c.requires(f2 <= l2, 'valid second range')
        ra0.fn(c, f, l, f2, l2, p, fd)

    def done(c, s, a):
        return zor(s[1], s[0] == a[0])

    def rel(c, s, t, a):
        A = c.A('A')
        return zand(s[0] <= t[0], c.forall(s[0], t[0], lambda i: znot(test(c, A, i, a))), zimp(t[1], zand(t[0] < a[0], test(c, A, t[0], a))))
    return [Contract('sprout::find_first_of', 'A A B B', api),
            Contract(D('find_first_of_impl_ra'), 'A A B B v A', ra)] + \
        scan('find_first_of', 'A,bool', 'A B B', done, rel, extra_req=req) + find_if_bind()


# ------------------------------------------------------------------------------------------------ mismatch
def mismatch_parts():
    def pm(c, i, j):
        return BP(c, c.A('A')[i], c.A('B')[j])

    def post(c, f1, f2, n, r1, r2):
        """r1,r2: first position where the sequences differ within n elements"""
        c.ensures(zand(f1 <= r1, r1 <= f1 + n, r2 - f2 == r1 - f1), 'both results advance equally')
        c.ensures(c.forall(f1, r1, lambda i: pm(c, i, f2 + (i - f1))), 'equal before the result')
        c.ensures(zimp(r1 < f1 + n, znot(pm(c, r1, r2))), 'different at the result unless exhausted')

    def api3(c, f1, l1, f2):
        c.requires(zand(f1 <= l1, f2 + (l1 - f1) <= c.n('B')), 'valid ranges')
        post(c, f1, f2, l1 - f1, c.ret('A', 0), c.ret('B', 1))

    def api4(c, f1, l1, f2, l2):
        c.requires(zand(f1 <= l1, f2 <= l2), 'valid ranges')
        post(c, f1, f2, zif(l1 - f1 < l2 - f2, l1 - f1, l2 - f2), c.ret('A', 0), c.ret('B', 1))

    def ra(c, first, last, first2, pivot, found):
        c.requires(zand(first <= last, first2 + (last - first) <= c.n('B')), 'valid range')
        c.requires(zimp(found == first, zand(first < last, 2 * pivot <= last - first, last - first <= 2 * pivot + 1)), 'pivot is the middle')
        c.decreases(zif(found != first, 0, last - first))
        r = c.ret('A')
        nf = found == first
        c.ensures(zimp(znot(nf), r == found), 'already found')
        c.ensures(zimp(nf, zand(first <= r, r <= last)), 'result in [first,last]')
        c.ensures(zimp(nf, c.forall(first, r, lambda i: pm(c, i, first2 + (i - first)))), 'equal before the result')
        c.ensures(zimp(zand(nf, r < last), znot(pm(c, r, first2 + (r - first)))), 'different at the result unless last')

    def done3(c, s, a):
        return zor(s[2], s[0] == a[0])

    def done4(c, s, a):
        return zor(s[2], s[0] == a[0], s[1] == a[1])

    def rel(c, s, t, a):
        return zand(s[0] <= t[0], t[0] - s[0] == t[1] - s[1], c.forall(s[0], t[0], lambda i: pm(c, i, s[1] + (i - s[0]))),
                    zimp(t[2], znot(pm(c, t[0], t[1]))), zimp(t[2], t[0] < a[0]))

    def inv3(c, s, a):
        return s[1] + (a[0] - s[0]) <= c.n('B')

    def inv4(c, s, a):
        return zand(s[1] <= a[1], s[0] <= a[0])

    def rel4(c, s, t, a):
        return zand(rel(c, s, t, a), zimp(t[2], t[1] < a[1]))
    return [Contract('sprout::mismatch', 'A A B', api3, label='mismatch/3'),
            Contract('sprout::mismatch', 'A A B B', api4, label='mismatch/4'),
            Contract(D('mismatch_impl_ra'), 'A A B v A', ra)] + \
        scan('mismatch', 'A,B,bool', 'A', done3, rel, inv3) + \
        scan('mismatch2', 'A,B,bool', 'A B', done4, rel4, inv4)


# ------------------------------------------------------------------------------------------------ search / find_end
def match_at(c, i, last1, f2, l2):
    return zand(i + (l2 - f2) <= last1, c.forall(i, i + (l2 - f2), lambda k: BP(c, c.A('A')[k], c.A('B')[f2 + (k - i)]), 'k'))


def search_one_c(ra):
    def api(c, f1, l1, f2, l2):
        c.requires(zand(f1 <= l1, f2 <= l2), 'valid ranges')
        r = c.ret('A')
        c.ensures(zand(f1 <= r, r <= l1), 'result in [first,last]')
        c.ensures(zimp(zand(r == f1, f1 < l1), match_at(c, f1, l1, f2, l2)), 'first means the sequence occurs there')
        c.ensures(zimp(r != f1, znot(match_at(c, f1, l1, f2, l2))), 'otherwise it does not occur there')
        c.ensures(zimp(zand(r != f1, r == l1), l2 - f2 >= l1 - f1), 'last means the rest is not longer than the sequence')
    out = [Contract(D('search_one'), 'A A B B', api, when=lambda f, d: d.rstrip().endswith('BPred)') and 'tag*' not in d)]

    def done(c, s, a):
        return s[2]

    def inv(c, s, a):
        return zand(a[2] <= s[0], s[0] <= a[0], s[1] <= a[1])

    def rel(c, s, t, a):
        l1, l2, f1_ = a
        A, Bv = c.A('A'), c.A('B')

        def all_(n):
            return c.forall(s[0], s[0] + n, lambda k: BP(c, A[k], Bv[s[1] + (k - s[0])]), 'k')
        hit = zand(t[0] == f1_, l2 - s[1] <= l1 - s[0], all_(l2 - s[1]))
        k = t[0] - 1 - s[0]
        miss = zor(zand(t[0] == l1, l1 - s[0] < l2 - s[1]),
                   zand(k >= 0, k < l2 - s[1], k < l1 - s[0], znot(BP(c, A[s[0] + k], Bv[s[1] + k]))))
        cont = zand(t[0] >= s[0], t[0] - s[0] == t[1] - s[1], all_(t[0] - s[0]))
        return zif(t[2], zor(hit, zand(zor(t[0] > f1_, f1_ == l1), miss)), cont)
    out += scan('search_one', 'A,B,bool', 'A B A', done, rel, inv)
    return out


def search_c():
    def m(c, i, a, l1):
        return match_at(c, i, l1, a[-2], a[-1])

    def api(c, f1, l1, f2, l2):
        c.requires(zand(f1 <= l1, f2 <= l2), 'valid ranges')
        r = c.ret('A')
        first_match(c, c.A('A'), f1, l1, r, lambda i: match_at(c, i, l1, f2, l2), 'occurrence')

    def ra(c, f1, l1, f2, l2, pivot, l1_, searched):
        c.requires(zand(f1 < l1, l1 <= l1_, f2 <= l2), 'valid ranges')
        live = znot(zor(searched < f1, searched == l1_))
        c.requires(zimp(live, zand(2 * pivot <= l1 - f1, l1 - f1 <= 2 * pivot + 1)), 'pivot is the middle')
        c.decreases(zif(live, l1 - f1, 0))
        r = c.ret('A')
        c.ensures(zimp(znot(live), r == searched), 'already decided')
        c.ensures(zimp(live, zand(f1 <= r, r <= l1_)), 'result in range')
        c.ensures(zimp(zand(live, r < l1), zand(match_at(c, r, l1_, f2, l2), c.forall(f1, r, lambda i: znot(match_at(c, i, l1_, f2, l2))))),
                  'first occurrence')
        c.ensures(zimp(zand(live, r >= l1), c.forall(f1, zif(r == l1_, l1_, l1), lambda i: znot(match_at(c, i, l1_, f2, l2)))), 'no occurrence')

    def done(c, s, a):
        return zor(s[1], s[0] == a[0])

    def req(c, a):
        c.requires(a[-2] <= a[-1], 'valid second range')

    def rel(c, s, t, a):
        return zand(s[0] <= t[0], c.forall(s[0], t[0], lambda i: znot(m(c, i, a, a[0]))),
                    zimp(t[1], zor(t[0] == a[0], m(c, t[0], a, a[0]))))
    return [Contract('sprout::search', 'A A B B', api), Contract(D('search_impl_ra'), 'A A B B v A A', ra)] + \
        scan('search', 'A,bool', 'A B B', done, rel, extra_req=req)


def find_end_c():
    def api(c, f1, l1, f2, l2):
        c.requires(zand(f1 <= l1, f2 <= l2), 'valid ranges')
        r = c.ret('A')
        c.ensures(zand(f1 <= r, r <= l1), 'result in [first,last]')
        c.ensures(zimp(f2 == l2, r == l1), 'empty sequence gives last')
        c.ensures(zimp(zand(f2 < l2, r < l1), match_at(c, r, l1, f2, l2)), 'the sequence occurs at the result')
        c.ensures(zimp(f2 < l2, c.forall(zif(r < l1, r + 1, f1), l1, lambda i: znot(match_at(c, i, l1, f2, l2)))), 'no later occurrence')

    def ra(c, f1, l1, f2, l2, pivot, l1_, searched):
        c.requires(zand(f1 < l1, l1 <= l1_, f2 < l2), 'valid ranges')
        live = searched == l1_
        c.requires(zimp(live, zand(2 * pivot <= l1 - f1, l1 - f1 <= 2 * pivot + 1)), 'pivot is the middle')
        c.decreases(zif(live, l1 - f1, 0))
        r = c.ret('A')
        c.ensures(zimp(znot(live), r == searched), 'already decided')
        c.ensures(zimp(live, zor(r == l1_, zand(f1 <= r, r < l1))), 'result in range')
        c.ensures(zimp(zand(live, r != l1_), match_at(c, r, l1_, f2, l2)), 'occurs there')
        c.ensures(zimp(live, c.forall(zif(r != l1_, r + 1, f1), l1, lambda i: znot(match_at(c, i, l1_, f2, l2)))), 'no later occurrence')

    def done_f(c, s, a):
        return s[0] == a[0]

    def req(c, a):
        c.requires(a[-2] < a[-1], 'non-empty second range')

    def inv_f(c, s, a):
        return s[1] <= a[0]

    def rel_f(c, s, t, a):
        m = lambda i: match_at(c, i, a[0], a[1], a[2])
        none = t[1] == s[1]
        return zand(s[0] <= t[0], zor(zand(none, c.forall(s[0], t[0], lambda i: znot(m(i)))),
                                      zand(s[0] <= t[1], t[1] < t[0], m(t[1]), c.forall(t[1] + 1, t[0], lambda i: znot(m(i))))))

    # bidirectional: state (end of candidate window, found)
    def mend(c, e, a):
        """the sequence occurs with its end at e, inside [first1, ...)"""
        f1, l1, f2, l2 = a
        n = l2 - f2
        return zand(e - n >= f1, c.forall(e - n, e, lambda k: BP(c, c.A('A')[k], c.A('B')[l2 - (e - k)]), 'k'))

    def mst(c, i, a):
        f1, l1, f2, l2 = a
        return zand(i >= f1, c.forall(i, i + (l2 - f2), lambda k: BP(c, c.A('A')[k], c.A('B')[f2 + (k - i)]), 'k'))

    def done_b(c, s, a):
        return zor(s[1] != a[1], s[0] == a[0])

    def req_b(c, a):
        c.requires(zand(a[0] <= a[1], a[2] < a[3]), 'valid ranges, non-empty second range')

    def inv_b(c, s, a):
        return zand(a[0] <= s[0], s[0] <= a[1], a[0] <= s[1], s[1] <= a[1])

    def rel_b(c, s, t, a):
        n = a[3] - a[2]
        return zand(t[0] <= s[0], a[0] <= t[0],
                    zimp(t[1] == a[1], c.forall(t[0] + 1 - n, s[0] + 1 - n, lambda i: znot(mst(c, i, a)))),
                    zimp(t[1] != a[1], zand(t[1] == t[0] - n, mend(c, t[0], a),
                                            c.forall(t[0] + 1 - n, s[0] + 1 - n, lambda i: znot(mst(c, i, a))))))

    def rev(c, s, a):
        return s[0] - a[0]

    # search_one_rev: does the sequence end at last1 ?
    def one_rev(c, f1, l1, f2, l2):
        c.requires(zand(f1 <= l1, f2 < l2), 'valid ranges')
        p = c.ret('A', 0)
        ex = c.ret('bool', 1)
        a = (f1, l1, f2, l2)
        m = mend(c, l1, a)
        c.ensures(zand(f1 <= p, p <= l1), 'result in range')
        c.ensures(zimp(m, zand(p == l1 - (l2 - f2), znot(ex))), 'occurrence ends at last')
        c.ensures(zimp(znot(m), p == l1), 'no occurrence ends at last')
        c.ensures(zimp(ex, l1 - f1 < l2 - f2), 'exhausted')

    def done_r(c, s, a):
        return s[2]

    def inv_r(c, s, a):
        return zand(a[0] <= s[0], a[1] <= s[1])

    def rel_r(c, s, t, a):
        A, Bv = c.A('A'), c.A('B')
        return zand(t[0] <= s[0], s[0] - t[0] == s[1] - t[1],
                    c.forall(t[0], s[0], lambda k: BP(c, A[k], Bv[s[1] - (s[0] - k)]), 'k'),
                    zimp(t[2], zor(t[1] == a[1], t[0] == a[0], znot(BP(c, A[t[0] - 1], Bv[t[1] - 1])))))
    return [Contract('sprout::find_end', 'A A B B', api), Contract(D('find_end_impl_ra'), 'A A B B v A A', ra)] + \
        scan('find_end', 'A,A', 'A B B', done_f, rel_f, inv_f, extra_req=req) + \
        scan('find_end', 'A,A', 'A A B B', done_b, rel_b, inv_b, remaining=rev, suffix=('_impl_bi1', '_impl_bi'), extra_req=req_b) + \
        [Contract(D('search_one_rev'), 'A A B B', one_rev)] + \
        scan('search_one_rev', 'A,B,bool', 'A B', done_r, rel_r, inv_r, remaining=rev)


def search_n_c():
    def pv(c, i, v):
        return BP(c, c.A('A')[i], v)

    def run_(c, i, last, k, v):
        return zand(i + k <= last, c.forall(i, i + k, lambda j: pv(c, j, v), 'j'))

    def api(c, first, last, count, v):
        c.requires(zand(first <= last, count >= 0), 'valid range')
        r = c.ret('A')
        first_match(c, c.A('A'), first, last, r, lambda i: run_(c, i, last, count, v), 'run')

    def ra(c, cur, last, count, v, ln, searched):
        stop = zor(cur - searched >= count, searched == last)
        c.requires(zand(searched <= last, count >= 1), 'searched in range')
        c.requires(zand(ln >= 1, cur + ln <= last), 'window inside the range')
        c.requires(zor(searched == last, zand(searched <= cur, searched + count <= last)), 'room for the run')
        c.requires(zimp(znot(stop), c.forall(searched, cur, lambda j: pv(c, j, v))), 'the run so far matches')
        c.decreases(zif(stop, 0, ln))
        r = c.ret('A')
        c.ensures(zimp(stop, r == searched), 'already decided')
        ns = znot(stop)
        c.ensures(zimp(ns, zor(r == last, zand(searched <= r, r <= cur + ln, r + count <= last))), 'result in range')
        c.ensures(zimp(ns, c.forall(searched, r, lambda i: znot(run_(c, i, last, count, v)))), 'no earlier run')
        e = zif(r + count < cur + ln, r + count, cur + ln)
        c.ensures(zimp(zand(ns, r != last), c.forall(r, e, lambda j: pv(c, j, v))), 'the run so far matches')

    def done(c, s, a):
        return zor(s[2] == a[1], s[0] == a[0])

    def inv(c, s, a):
        return zand(s[2] == s[0] - s[1], s[2] >= 0, s[2] <= a[1], c.forall(s[1], s[0], lambda j: pv(c, j, a[2])))

    def rel(c, s, t, a):
        return zand(s[0] <= t[0], s[1] <= t[1], c.forall(s[1], t[1], lambda i: znot(run_(c, i, a[0], a[1], a[2]))))

    def req(c, a):
        c.requires(a[1] >= 1, 'positive count')
    return [Contract('sprout::search_n', 'A A v val:i32', api), Contract(D('search_n_impl_ra'), 'A A v val:i32 v A', ra)] + \
        scan('search_n', 'A,A,i32', 'A v val:i32', done, rel, inv, extra_req=req) + find_if_bind('binder2nd', 'A')
