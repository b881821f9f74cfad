"""Contracts of the search and comparison functions behind sprout::basic_string and basic_string_view.
Region A: the characters of the string, B: the characters searched for."""
import z3
from svc.contract import Contract
from svc.core import Cat
from .iterspec import *
from .seqspec import *
from . import cstrspec as K

NPOS = 2 ** 64 - 1
SD = 'sprout::string_detail::'


def strs(W, wrap=True):
    regs = {'A': W, 'B': W}
    V = 'val:' + W
    bits = 8 if W == 'i8' else 32
    out = [x for x in K.indexed(W) if 'tristate' in x.name]
    key = (lambda x: zif(x < 0, x + 256, x)) if W == 'i8' else (lambda x: x)
    less = lambda x, y: zand(key(x) < key(y))

    def C(n, sig, fn, **k):
        x = Contract(n, sig, fn, regs=regs, **k)
        out.append(x)
        return x

    def nonz(c, R, lo, hi):
        X = c.A(R)
        return c.forall(lo, hi, lambda i: X[i] != 0, 'z')

    # ---- char_traits
    def bindc(c, v, t, at, make=False, mem=None, nm='op'):
        """binder2nd<char_traits_eq, Char>: the bound character is the last member"""
        ctx = c.ctx
        b = bits // 8
        if make:
            from svc.core import UNDEF
            return Cat([(0, b, UNDEF), (b, b, ctx.tyconst(nm, ('i', bits)))], 2 * b)
        for o, s, x in v.parts:
            if o == b and s == b:
                return ctx.val(ctx.plain(x, bits), bits)
        raise Exception('binder layout')

    def isb(f, dem):
        return 'binder2nd<sprout::detail::char_traits_eq' in dem

    def find_if(c, f, l, v):
        c.requires(f <= l, 'valid range')
        first_match(c, c.A('A'), f, l, c.ret('A'), lambda i: c.A('A')[i] == v)

    def ra(c, first, last, v, pivot, found):
        A = c.A('A')
        c.requires(first <= last, 'valid range')
        c.requires(zimp(found == first, zand(first < last, 2 * pivot <= last - first, last - first <= 2 * pivot + 1)), 'pivot is the middle')
        c.decreases(zif(found != first, 0, last - first))
        r = c.ret('A')
        nf = found == first
        c.ensures(zimp(znot(nf), r == found), 'already found')
        c.ensures(zimp(nf, zand(first <= r, r <= last, c.forall(first, r, lambda i: A[i] != v), zimp(r < last, A[r] == v))), 'first match')
    out.append(K.ix(Contract('sprout::find_if', ['A', 'A', 'BIND'], find_if, when=isb), regs))
    out.append(K.ix(Contract(D('find_if_impl_ra'), ['A', 'A', 'BIND', 'v', 'A'], ra, when=isb), regs))
    for x in out[-2:]:
        x.sig = [bindc if s == 'BIND' else s for s in x.sig]
        x.when = isb
    # the pieces of a difference
    def same(c, p, q, n):
        A, Bv = c.A('A'), c.A('B')
        return c.forall(p, p + n, lambda i: A[i] == Bv[q + (i - p)], 'm')

    def dif(c, p, q, k, lt):
        return zand(same(c, p, q, k), lt(c.A('A')[p + k], c.A('B')[q + k]))

    def clean(c, p, n, q, m):
        c.requires(zand(p + n <= c.n('A'), q + m <= c.n('B')), 'readable')
        c.requires(zand(nonz(c, 'A', p, p + n), nonz(c, 'B', q, q + m)), 'no terminator inside the strings')

    def compare(c, p, q, n):
        clean(c, p, n, q, n)
        r = c.ret('i32')
        c.ensures(zimp(r < 0, c.exists(0, n, lambda k: dif(c, p, q, k, less))), 'negative: smaller at the first difference')
        c.ensures(zimp(r > 0, c.exists(0, n, lambda k: dif(c, p, q, k, lambda x, y: less(y, x)))), 'positive: greater at the first difference')
        c.ensures(zimp(r == 0, same(c, p, q, n)), 'zero: equal')
    C('sprout::char_traits::compare', 'A B u', compare)

    # ---- results
    def first(c, r, lo, hi, M, what):
        """the first position in [lo,hi) where M holds, npos if none"""
        c.ensures(zor(r == NPOS, zand(lo <= r, r < hi)), 'a position in range or npos')
        c.ensures(zimp(r == NPOS, c.forall(lo, hi, lambda i: znot(M(i)))), 'npos only without ' + what)
        c.ensures(zimp(r != NPOS, M(r)), 'the result is ' + what)
        c.ensures(zimp(r != NPOS, c.forall(lo, r, lambda i: znot(M(i)))), 'and the first')

    def last(c, r, hi, M, what):
        """the last position in [0,hi)"""
        c.ensures(zor(r == NPOS, zand(0 <= r, r < hi)), 'a position in range or npos')
        c.ensures(zimp(r == NPOS, c.forall(0, hi, lambda i: znot(M(i)))), 'npos only without ' + what)
        c.ensures(zimp(r != NPOS, M(r)), 'the result is ' + what)
        c.ensures(zimp(r != NPOS, c.forall(r + 1, hi, lambda i: znot(M(i)))), 'and the last')

    def match(c, d, s, n):
        """ghost predicate M(d, i, s, n), by definition: the n characters at s of B are those at d + i of A"""
        A, Bv = c.A('A'), c.A('B')
        f = c.ctx.uf('M_%s_%s' % (A.t, Bv.t), (I, I, I, I, z3.BoolSort()))
        x = z3.Ints('md mi ms mn')
        c.axiom(z3.ForAll(x, f(*x) == same(c, x[0] + x[1], x[2], x[3]), patterns=[f(*x)]), post=True)
        return lambda i: f(*[z3.IntVal(v) if isinstance(v, int) else v for v in (d, i, s, n)])

    def inset(c, d, s, n):
        A, Bv = c.A('A'), c.A('B')
        return lambda i: c.exists(0, n, lambda k: Bv[s + k] == A[d + i], 'k')

    def lim(pos, len_):
        return zif(len_ == 0, 0, zif(pos < len_ - 1, pos + 1, len_))

    U = lambda c: c.ret('ui64')

    def find_1(c, d, ln, s, pos, n):
        clean(c, d, ln, s, n)
        c.requires(zand(n >= 1, n <= ln), 'not longer than the string')
        c.decreases(zif(pos <= ln - n, ln - n - pos + 1, 0))
        first(c, U(c), pos, ln - n + 1, match(c, d, s, n), 'an occurrence')

    def find(c, d, ln, s, pos, n):
        clean(c, d, ln, s, n)
        first(c, U(c), pos, ln - n + 1, match(c, d, s, n), 'an occurrence')

    def rfind_1(c, d, ln, s, pos, n):
        clean(c, d, ln, s, n)
        c.requires(pos + n <= ln, 'position')
        c.decreases(pos)
        last(c, U(c), pos + 1, match(c, d, s, n), 'an occurrence')

    def rfind(c, d, ln, s, pos, n):
        clean(c, d, ln, s, n)
        last(c, U(c), zif(n > ln, 0, zif(pos < ln - n, pos + 1, ln - n + 1)), match(c, d, s, n), 'an occurrence')
    C(SD + 'find_impl_1', 'A u B u u', find_1)
    C(SD + 'find_impl', 'A u B u u', find)
    C(SD + 'rfind_impl_1', 'A u B u u', rfind_1)
    C(SD + 'rfind_impl', 'A u B u u', rfind)

    # ---- one character
    def room(c, d, ln):
        c.requires(d + ln <= c.n('A'), 'readable')

    def is_c(c, d, v):
        A = c.A('A')
        return lambda i: A[d + i] == v

    def not_c(c, d, v):
        A = c.A('A')
        return lambda i: A[d + i] != v

    def find_c_1(c, d, ln, p):
        room(c, d, ln)
        c.requires(zand(d <= p, p <= d + ln), 'position')
        r = U(c)
        c.ensures(r == zif(p == d + ln, NPOS, p - d), 'the index of the position')

    def find_c(c, d, ln, v, pos):
        room(c, d, ln)
        first(c, U(c), pos, ln, is_c(c, d, v), 'the character')

    def rfind_c_1(c, d, ln, v):
        room(c, d, ln)
        c.decreases(ln)
        last(c, U(c), ln, is_c(c, d, v), 'the character')

    def rfind_c(c, d, ln, v, pos):
        room(c, d, ln)
        last(c, U(c), lim(pos, ln), is_c(c, d, v), 'the character')

    def fno_c(c, d, ln, v, pos):
        room(c, d, ln)
        c.decreases(zif(pos < ln, ln - pos, 0))
        first(c, U(c), pos, ln, not_c(c, d, v), 'a different character')

    def lno_c_1(c, d, ln, v, pos):
        room(c, d, ln + 1)
        c.decreases(ln)
        last(c, U(c), ln + 1, not_c(c, d, v), 'a different character')

    def lno_c(c, d, ln, v, pos):
        room(c, d, ln)
        last(c, U(c), lim(pos, ln), not_c(c, d, v), 'a different character')
    C(SD + 'find_c_impl_1', 'A u A', find_c_1)
    C(SD + 'find_c_impl', 'A u %s u' % V, find_c)
    C(SD + 'rfind_c_impl_1', 'A u %s' % V, rfind_c_1)
    C(SD + 'rfind_c_impl', 'A u %s u' % V, rfind_c)
    C(SD + 'find_first_not_of_c_impl', 'A u %s u' % V, fno_c)
    C(SD + 'find_last_not_of_c_impl_1', 'A u %s u' % V, lno_c_1)
    C(SD + 'find_last_not_of_c_impl', 'A u %s u' % V, lno_c)

    # ---- a set of characters
    def sets(name, neg):
        what = 'a character outside the set' if neg else 'a character of the set'

        def M(c, d, s, n):
            f = inset(c, d, s, n)
            return (lambda i: znot(f(i))) if neg else f

        def both(c, d, ln, s, n):
            c.requires(zand(d + ln <= c.n('A'), s + n <= c.n('B')), 'readable')

        def ff(c, d, ln, s, pos, n):
            both(c, d, ln, s, n)
            c.decreases(zif(pos < ln, ln - pos, 0))
            first(c, U(c), pos, ln, M(c, d, s, n), what)

        def fl1(c, d, ln, s, pos, n):
            both(c, d, ln + 1, s, n)
            c.decreases(ln)
            last(c, U(c), ln + 1, M(c, d, s, n), what)

        def fl(c, d, ln, s, pos, n):
            both(c, d, ln, s, n)
            last(c, U(c), lim(pos, ln), M(c, d, s, n), what)
        C(SD + 'find_first_%s_impl' % name, 'A u B u u', ff)
        C(SD + 'find_last_%s_impl_1' % name, 'A u B u u', fl1)
        C(SD + 'find_last_%s_impl' % name, 'A u B u u', fl)
        if wrap:
            C('v_find_first_' + name, 'A u B u u', lambda c, d, ln, s, pos, n: (both(c, d, ln, s, n), first(c, U(c), pos, ln, M(c, d, s, n), what)))
            C('v_find_last_' + name, 'A u B u u', fl)
            # a view argument
            C('vv_find_first_' + name, 'A u B u u', lambda c, d, ln, s, pos, n: (both(c, d, ln, s, n), first(c, U(c), pos, ln, M(c, d, s, n), what)))
            C('vv_find_last_' + name, 'A u B u u', fl)
    sets('of', False)
    sets('not_of', True)

    # ---- comparison
    def lex(c, r, p, n1, q, n2):
        m = zif(n1 < n2, n1, n2)
        c.ensures(zimp(r < 0, zor(c.exists(0, m, lambda k: dif(c, p, q, k, less)), zand(n1 < n2, same(c, p, q, m)))), 'negative: lexicographically smaller')
        c.ensures(zimp(r > 0, zor(c.exists(0, m, lambda k: dif(c, p, q, k, lambda x, y: less(y, x))), zand(n2 < n1, same(c, p, q, m)))), 'positive: lexicographically greater')
        c.ensures(zimp(r == 0, zand(n1 == n2, same(c, p, q, m))), 'zero: equal')

    def cmp1(c, v, n1, n2):
        r = c.ret('i32')
        c.ensures(r == zif(v != 0, v, zif(n1 < n2, -1, zif(n2 < n1, 1, 0))), 'the first difference, then the lengths')
    C(SD + 'compare_impl_1', 'val:i32 u u', cmp1)

    def cmpi(c, d, p1, n1, s, n2):
        c.requires(d + p1 + n1 <= c.n('A'), 'readable')
        clean(c, d + p1, n1, s, n2)
        lex(c, c.ret('i32'), d + p1, n1, s, n2)
    C(SD + 'compare_impl', 'A u u B u', cmpi)
    if wrap:
        for p in ('v_', 'vv_'):
            C(p + 'find', 'A u B u u', find)
            C(p + 'rfind', 'A u B u u', rfind)
        C('v_find_c', 'A u %s u' % V, find_c)
        C('v_rfind_c', 'A u %s u' % V, rfind_c)
        C('v_find_first_of_c', 'A u %s u' % V, find_c)
        C('v_find_last_of_c', 'A u %s u' % V, rfind_c)
        C('v_find_first_not_of_c', 'A u %s u' % V, lambda c, d, ln, v, pos: (room(c, d, ln), first(c, U(c), pos, ln, not_c(c, d, v), 'a different character')))
        C('v_find_last_not_of_c', 'A u %s u' % V, lno_c)

        def vcmp(c, d, n1, s, n2):
            clean(c, d, n1, s, n2)
            lex(c, c.ret('i32'), d, n1, s, n2)

        def vcmp_p(c, d, ln, pos, n1, s, n2):
            clean(c, d, ln, s, n2)
            c.throws(pos > ln)
            e = zif(pos > ln, 0, zif(n1 < ln - pos, n1, ln - pos))
            lex(c, c.ret('i32'), d + pos, e, s, n2)
        C('v_compare', 'A u B u', vcmp)
        C('v_compare_pos', 'A u u u B u', vcmp_p)

        def rel(name, f):
            def fn(c, d, n1, s, n2):
                clean(c, d, n1, s, n2)
                r = c.ret('bool')
                m = zif(n1 < n2, n1, n2)
                lt = zor(c.exists(0, m, lambda k: dif(c, d, s, k, less)), zand(n1 < n2, same(c, d, s, m)))
                gt = zor(c.exists(0, m, lambda k: dif(c, d, s, k, lambda x, y: less(y, x))), zand(n2 < n1, same(c, d, s, m)))
                eq = zand(n1 == n2, same(c, d, s, m))
                yes, no = f(lt, eq, gt)
                c.ensures(zimp(r, yes), 'true only if it holds')
                c.ensures(zimp(znot(r), no), 'false only if it does not')
            C('v_' + name, 'A u B u', fn)
        rel('eq', lambda l, e, g: (e, zor(l, g)))
        rel('ne', lambda l, e, g: (zor(l, g), e))
        rel('lt', lambda l, e, g: (l, zor(e, g)))
        rel('le', lambda l, e, g: (zor(l, e), g))
        rel('gt', lambda l, e, g: (g, zor(l, e)))
        rel('ge', lambda l, e, g: (zor(e, g), l))
    return out
