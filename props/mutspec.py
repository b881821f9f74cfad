"""Contracts of the in-place and copying algorithms (algorithm/cxx14) on pointers: regions W (destination, writable) and A, B (sources)."""
import z3
from svc.contract import Contract, inv
from .iterspec import *

W = {'W': 'w:i32', 'A': 'i32', 'B': 'i32', 'V': 'w:i32'}
N = 'sprout::'
PAT = False


def frame(c, R, lo, hi, X=None, O=None):
    X, O = c.A(R) if X is None else X, c.old(R) if O is None else O
    j = z3.Int('j?%d' % c.ctx.fresh_n)
    c.ctx.fresh_n += 1
    return z3.ForAll([j], zimp(zor(j < lo, j >= hi), X[j] == O[j]), patterns=[X[j], O[j]] if PAT else [])


def op1(c, x):
    return c.ctx.uf('Op1', (I, I))(x)


def op2(c, x, y):
    return c.ctx.uf('Op2', (I, I, I))(x, y)


def only(name, f, dec=None, base=None):
    """loop specification for the loop of function `name`"""
    def g(b, k):
        return inv(f, dec) if b == (base or N + name) else None
    return g


def streams():
    """one output element per input element"""
    out = []

    def cs(name, sig, elem, args=lambda a: a, ret=True, back=False, names=('first', 'last', 'result')):
        """*result++ = elem(*first++) for the whole range"""
        def api(c, f, l, r, *x):
            c.requires(f <= l, 'valid range')
            A = c.A('A')
            if back:
                c.requires(r - (l - f) >= 0, 'room for the output')
                lo, hi = r - (l - f), r
            else:
                c.requires(r + (l - f) <= c.n('W'), 'room for the output')
                lo, hi = r, r + (l - f)
            c.assigns('W')
            X = c.A('W')
            if ret:
                c.ensures(c.ret('W') == (lo if back else hi), 'returns the end of the output')
            c.ensures(c.forall(lo, hi, lambda k: X[k] == elem(c, A[f + (k - lo)], *x)), 'every element of the range in order')
            c.ensures(frame(c, 'W', lo, hi), 'nothing else is written')

        def lp(L):
            c = L.c
            f, l, r = L.a[:3]
            x = L.a[3:]
            A, X = c.A('A'), L.A('W')
            q = L.p(names[2])
            if back:
                p = L.p(names[1])
                return [('position', zand(f <= p, p <= l, q - r == p - l)), ('written so far', c.forall(q, r, lambda k: X[k] == elem(c, A[p + (k - q)], *x))), ('rest unchanged', frame(c, 'W', q, r, X, L.old('W')))]
            p = L.p(names[0])
            return [('position', zand(f <= p, p <= l, q - r == p - f)), ('written so far', c.forall(r, q, lambda k: X[k] == elem(c, A[f + (k - r)], *x))), ('rest unchanged', frame(c, 'W', r, q, X, L.old('W')))]
        out.append(Contract(N + name, sig, api, regs=W, loops=only(name, lp, (lambda L: L.p(names[1]) - L.a[0]) if back else (lambda L: L.a[1] - L.p(names[0])))))
    ident = lambda c, x: x
    cs('copy', 'A A W', ident)
    cs('move', 'A A W', ident)
    cs('copy_backward', 'A A W', ident, back=True)
    cs('move_backward', 'A A W', ident, back=True)
    cs('transform', 'A A W', lambda c, x: op1(c, x))
    cs('replace_copy', 'A A W val:i32 val:i32', lambda c, x, o, n: zif(x == o, n, x))
    cs('replace_copy_if', 'A A W val:i32', lambda c, x, n: zif(P(c, x), n, x))
    cs('clamp_range', 'A A W val:i32 val:i32', lambda c, x, lo, hi: zif(Cmp(c, x, lo), lo, zif(Cmp(c, hi, x), hi, x)))

    def rev(c, f, l, r):
        c.requires(zand(f <= l, r + (l - f) <= c.n('W')), 'valid range and room for the output')
        A = c.A('A')
        c.assigns('W')
        X = c.A('W')
        c.ensures(c.ret('W') == r + (l - f), 'returns the end of the output')
        c.ensures(c.forall(r, r + (l - f), lambda k: X[k] == A[l - 1 - (k - r)]), 'the elements in reverse order')
        c.ensures(frame(c, 'W', r, r + (l - f)), 'nothing else is written')

    def revl(L):
        c, (f, l, r) = L.c, L.a
        A, X, p, q = c.A('A'), L.A('W'), L.p('last'), L.p('result')
        return [('position', zand(f <= p, p <= l, q - r == l - p)), ('written so far', c.forall(r, q, lambda k: X[k] == A[l - 1 - (k - r)])), ('rest unchanged', frame(c, 'W', r, q, X, L.old('W')))]
    out.append(Contract(N + 'reverse_copy', 'A A W', rev, regs=W, loops=only('reverse_copy', revl, lambda L: L.p('last') - L.a[0])))

    def cn(c, f, n, r):
        c.requires(zand(f + n <= c.n('A'), r + n <= c.n('W')), 'n elements and room for the output')
        m = zif(n < 0, 0, n)
        A = c.A('A')
        c.assigns('W')
        X = c.A('W')
        c.ensures(c.ret('W') == r + m, 'returns the end of the output')
        c.ensures(c.forall(r, r + m, lambda k: X[k] == A[f + (k - r)]), 'n elements in order')
        c.ensures(frame(c, 'W', r, r + m), 'nothing else is written')

    def cnl(L):
        c, (f, n, r) = L.c, L.a
        A, X, p, q = c.A('A'), L.A('W'), L.p('first'), L.p('result')
        i = L.v('i')
        return [('position', zand(i >= 0, zor(i <= n, i == 0), q - r == i, p - f == i)), ('written so far', c.forall(r, q, lambda k: X[k] == A[f + (k - r)])), ('rest unchanged', frame(c, 'W', r, q, X, L.old('W')))]
    out.append(Contract(N + 'copy_n', 'A v W', cn, regs=W, loops=only('copy_n', cnl, lambda L: zif(L.a[1] < 0, 0, L.a[1]) - L.v('i'))))

    def rc(c, f, m, l, r):
        c.requires(zand(f <= m, m <= l, r + (l - f) <= c.n('W')), 'valid range and room for the output')
        A = c.A('A')
        c.assigns('W')
        X = c.A('W')
        c.ensures(c.ret('W') == r + (l - f), 'returns the end of the output')
        c.ensures(c.forall(r, r + (l - m), lambda k: X[k] == A[m + (k - r)]), 'the elements from middle on come first')
        c.ensures(c.forall(r + (l - m), r + (l - f), lambda k: X[k] == A[f + (k - r - (l - m))]), 'then the elements before middle')
        c.ensures(frame(c, 'W', r, r + (l - f)), 'nothing else is written')
    out.append(Contract(N + 'rotate_copy', 'A A A W', rc, regs=W))

    def t2(c, f, l, g, r):
        c.requires(zand(f <= l, g + (l - f) <= c.n('B'), r + (l - f) <= c.n('W')), 'valid ranges and room for the output')
        A, Bb = c.A('A'), c.A('B')
        c.assigns('W')
        X = c.A('W')
        c.ensures(c.ret('W') == r + (l - f), 'returns the end of the output')
        c.ensures(c.forall(r, r + (l - f), lambda k: X[k] == op2(c, A[f + (k - r)], Bb[g + (k - r)])), 'the operation on corresponding elements in order')
        c.ensures(frame(c, 'W', r, r + (l - f)), 'nothing else is written')

    def t2l(L):
        c, (f, l, g, r) = L.c, L.a
        A, Bb, X, p, s, q = c.A('A'), c.A('B'), L.A('W'), L.p('first1'), L.p('first2'), L.p('result')
        return [('position', zand(f <= p, p <= l, q - r == p - f, s - g == p - f)), ('written so far', c.forall(r, q, lambda k: X[k] == op2(c, A[f + (k - r)], Bb[g + (k - r)]))), ('rest unchanged', frame(c, 'W', r, q, X, L.old('W')))]
    out.append(Contract(N + 'transform', 'A A B W', t2, regs=W, loops=only('transform', t2l, lambda L: L.a[1] - L.p('first1'))))

    def cw(name, stop):
        def f_(c, f, l, r):
            c.requires(zand(f <= l, r + (l - f) <= c.n('W')), 'valid range and room for the output')
            A = c.A('A')
            c.assigns('W')
            X = c.A('W')
            e, q = c.ret('A', 0), c.ret('W', 1)
            c.ensures(zand(f <= e, e <= l, q - r == e - f), 'both positions advance together')
            c.ensures(c.forall(f, e, lambda k: znot(stop(c, A[k]))), 'no earlier element stops')
            c.ensures(zimp(e < l, stop(c, A[e])), 'stops at the first such element')
            c.ensures(c.forall(r, q, lambda k: X[k] == A[f + (k - r)]), 'the elements before it in order')
            c.ensures(frame(c, 'W', r, q), 'nothing else is written')

        def lp(L):
            c, (f, l, r) = L.c, L.a
            A, X, p, q = c.A('A'), L.A('W'), L.p('first'), L.p('result')
            return [('position', zand(f <= p, p <= l, q - r == p - f)), ('none stops so far', c.forall(f, p, lambda k: znot(stop(c, A[k])))), ('written so far', c.forall(r, q, lambda k: X[k] == A[f + (k - r)])), ('rest unchanged', frame(c, 'W', r, q, X, L.old('W')))]
        out.append(Contract(N + name, 'A A W', f_, regs=W, ret='A,W', loops=only(name, lp, lambda L: L.a[1] - L.p('first'))))
    cw('copy_while', lambda c, x: znot(P(c, x)))
    cw('copy_until', P)
    return out


def filtered():
    """the satisfying elements in order: output position = number of satisfying elements before"""
    out = []

    def cf(name, sig, keep, inplace=False):
        R = 'W' if inplace else 'A'

        def S(c, A, x):
            """ghost prefix count of kept elements; the facts used: step and monotonicity (by induction)"""
            s = c.ctx.uf('K_%s' % name, (I, I))
            i, j = z3.Ints('i j')
            c.axiom(z3.ForAll([i], s(i + 1) == s(i) + zif(keep(c, A[i], *x), 1, 0), patterns=[s(i + 1)]), post=True)
            c.axiom(z3.ForAll([i, j], zimp(i <= j, zand(s(i) <= s(j), s(j) - s(i) <= j - i)), patterns=[z3.MultiPattern(s(i), s(j))]), post=True)
            return s

        def spec(c, f, e, r, X, A, s, x):
            """after reading [f,e)"""
            j = z3.Int('j?%d' % c.ctx.fresh_n)
            c.ctx.fresh_n += 1
            return z3.ForAll([j], zimp(zand(f <= j, j < e, keep(c, A[j], *x)), X[r + (s(j) - s(f))] == A[j]), patterns=[A[j]])

        def api(c, f, l, *x):
            if inplace:
                r = f
            else:
                r, x = x[0], x[1:]
            c.requires(f <= l, 'valid range')
            A = c.old(R)
            s = S(c, A, x)
            if not inplace:
                c.requires(r + (s(l) - s(f)) <= c.n('W'), 'room for the output')
            c.assigns('W')
            X = c.A('W')
            q = c.ret('W')
            c.ensures(q == r + (s(l) - s(f)), 'as many elements as are kept')
            c.ensures(spec(c, f, l, r, X, A, s, x), 'each kept element is at its place')
            c.ensures(frame(c, 'W', f if inplace else r, l if inplace else q), 'nothing else is written')

        def lp(L):
            c = L.c
            f, l, x = L.a[0], L.a[1], L.a[2:]
            if inplace:
                r = f
            else:
                r, x = x[0], x[1:]
            A, X, p, q = c.old(R), L.A('W'), L.p('first'), L.p('result')
            s = S(c, A, x)
            o = [('position', zand(f <= p, p <= l, q - r == s(p) - s(f))), ('kept so far', spec(c, f, p, r, X, A, s, x))]
            if inplace:
                o += [('unread part unchanged', c.forall(p, l, lambda k: X[k] == A[k])), ('rest unchanged', frame(c, 'W', f, l, X, L.old('W')))]
            else:
                o += [('rest unchanged', frame(c, 'W', r, q, X, L.old('W')))]
            return o
        out.append(Contract(N + name, sig, api, regs=W, loops=only(name, lp, lambda L: L.a[1] - L.p('first'))))
    cf('copy_if', 'A A W', lambda c, x: P(c, x))
    cf('remove_copy_if', 'A A W', lambda c, x: znot(P(c, x)))
    cf('remove_copy', 'A A W val:i32', lambda c, x, v: x != v)
    cf('remove_if', 'W W', lambda c, x: znot(P(c, x)), inplace=True)
    cf('remove', 'W W val:i32', lambda c, x, v: x != v, inplace=True)
    return out


def inplace():
    out = []

    def each(name, sig, new):
        """every element x of [f,l) becomes new(x)"""
        def api(c, f, l, *x):
            c.requires(f <= l, 'valid range')
            O = c.old('W')
            c.assigns('W')
            X = c.A('W')
            c.ensures(c.forall(f, l, lambda k: X[k] == new(c, O[k], *x)), 'every element is as specified')
            c.ensures(frame(c, 'W', f, l), 'nothing else is written')

        def lp(L):
            c = L.c
            f, l, x = L.a[0], L.a[1], L.a[2:]
            X, O, p = L.A('W'), L.old('W'), L.p('first')
            return [('position', zand(f <= p, p <= l)), ('done so far', c.forall(f, p, lambda k: X[k] == new(c, O[k], *x))), ('rest unchanged', frame(c, 'W', f, p, X, O))]
        out.append(Contract(N + name, sig, api, regs=W, loops=only(name, lp, lambda L: L.a[1] - L.p('first'))))
    each('fill', 'W W val:i32', lambda c, o, v: v)
    each('replace', 'W W val:i32 val:i32', lambda c, o, a, b: zif(o == a, b, o))
    each('replace_if', 'W W val:i32', lambda c, o, b: zif(P(c, o), b, o))

    def fn(c, f, n, v):
        m = zif(n < 0, 0, n)
        c.requires(n > -2**63, 'n has a predecessor')
        c.requires(f + m <= c.n('W'), 'n elements')
        c.assigns('W')
        X = c.A('W')
        c.ensures(c.ret('W') == f + m, 'returns the end of the written part')
        c.ensures(c.forall(f, f + m, lambda k: X[k] == v), 'n elements have the value')
        c.ensures(frame(c, 'W', f, f + m), 'nothing else is written')

    def fnl(L):
        c, (f, n0, v) = L.c, L.a
        X, O, p, n = L.A('W'), L.old('W'), L.p('first'), L.v('n')
        m = zif(n0 < 0, 0, n0)
        return [('position', zand(p >= f, p - f <= m, zif(n0 < 0, n == n0, zand(n >= 0, p - f == n0 - n)))), ('done so far', c.forall(f, p, lambda k: X[k] == v)), ('rest unchanged', frame(c, 'W', f, p, X, O))]
    out.append(Contract(N + 'fill_n', 'W v val:i32', fn, regs=W, loops=only('fill_n', fnl, lambda L: zif(L.v('n') < 0, 0, L.v('n')))))

    def sw(c, a, b):
        c.requires(zand(a < c.n('W'), b < c.n('W')), 'both refer to elements')
        O = c.old('W')
        c.assigns('W')
        X = c.A('W')
        k = z3.Int('k?%d' % c.ctx.fresh_n)
        c.ctx.fresh_n += 1
        c.ensures(zand(X[a] == O[b], X[b] == O[a]), 'the two elements are exchanged')
        c.ensures(z3.ForAll([k], zimp(zand(k != a, k != b), X[k] == O[k])), 'nothing else is written')
    out.append(Contract(N + 'iter_swap', 'W W', sw, regs=W))

    def rv(c, f, l):
        c.requires(f <= l, 'valid range')
        O = c.old('W')
        c.assigns('W')
        X = c.A('W')
        c.ensures(c.forall(f, l, lambda k: X[k] == O[l - 1 - (k - f)]), 'the elements in reverse order')
        c.ensures(frame(c, 'W', f, l), 'nothing else is written')

    def rvl(L):
        c, (f, l) = L.c, L.a
        X, O, p, q = L.A('W'), L.old('W'), L.p('first'), L.p('last')
        return [('position', zand(f <= p, p - f == l - q, p <= q)), ('ends exchanged', zand(c.forall(f, p, lambda k: X[k] == O[l - 1 - (k - f)]), c.forall(q, l, lambda k: X[k] == O[l - 1 - (k - f)]))),
                ('middle unchanged', c.forall(p, q, lambda k: X[k] == O[k])), ('rest unchanged', frame(c, 'W', f, l, X, O))]
    out.append(Contract(N + 'reverse', 'W W', rv, regs=W, loops=only('reverse', rvl, lambda L: L.p('last') - L.p('first'))))
    return out


def swaps():
    def sr(c, f, l, g):
        c.requires(zand(f <= l, g + (l - f) <= c.n('V')), 'valid ranges')
        O, Q = c.old('W'), c.old('V')
        c.assigns('W')
        c.assigns('V')
        X, Y = c.A('W'), c.A('V')
        c.ensures(c.ret('V') == g + (l - f), 'returns the end of the second range')
        c.ensures(c.forall(f, l, lambda k: X[k] == Q[g + (k - f)]), 'the first range has the elements of the second')
        c.ensures(c.forall(g, g + (l - f), lambda k: Y[k] == O[f + (k - g)]), 'and conversely')
        c.ensures(zand(frame(c, 'W', f, l), frame(c, 'V', g, g + (l - f))), 'nothing else is written')

    def lp(L):
        c, (f, l, g) = L.c, L.a
        X, Y, O, Q, p, q = L.A('W'), L.A('V'), L.old('W'), L.old('V'), L.p('first1'), L.p('first2')
        return [('position', zand(f <= p, p <= l, q - g == p - f)), ('exchanged so far', zand(c.forall(f, p, lambda k: X[k] == Q[g + (k - f)]), c.forall(g, q, lambda k: Y[k] == O[f + (k - g)]))), ('rest unchanged', zand(frame(c, 'W', f, p, X, O), frame(c, 'V', g, q, Y, Q)))]
    return [Contract(N + 'swap_ranges', 'W W V', sr, regs=W, loops=only('swap_ranges', lp, lambda L: L.a[1] - L.p('first1')))]


def groups():
    """unique, unique_copy: the first element of each group; partition_copy: two filtered outputs"""
    out = []

    def uq(name, sig, inplace):
        R = 'W' if inplace else 'A'

        def ghost(c, f):
            """H(i): position of the element kept last among [f,i]; s(i): number of kept elements among [f,i)"""
            A = c.old(R)
            H, s = c.ctx.uf('H_' + name, (I, I)), c.ctx.uf('K_' + name, (I, I))
            i, j = z3.Ints('i j')
            same = lambda a, b: BP(c, a, b)
            c.axiom(H(f) == f, post=True)
            c.axiom(z3.ForAll([i], zimp(i >= f, H(i + 1) == zif(same(A[H(i)], A[i + 1]), H(i), i + 1)), patterns=[H(i + 1)]), post=True)
            c.axiom(z3.ForAll([i], zimp(i >= f, s(i + 1) == s(i) + zif(H(i) == i, 1, 0)), patterns=[s(i + 1)]), post=True)
            c.axiom(z3.ForAll([i], zimp(i >= f, zand(f <= H(i), H(i) <= i)), patterns=[H(i)]), post=True)
            c.axiom(s(f) == 0, post=True)
            c.axiom(z3.ForAll([i, j], zimp(zand(f <= i, i <= j), zand(s(i) <= s(j), s(j) - s(i) <= j - i)), patterns=[z3.MultiPattern(s(i), s(j))]), post=True)
            return A, H, s

        def placed(c, f, e, r, X, A, H, s):
            j = z3.Int('j?%d' % c.ctx.fresh_n)
            c.ctx.fresh_n += 1
            return z3.ForAll([j], zimp(zand(f <= j, j < e, H(j) == j), X[r + s(j)] == A[j]), patterns=[s(j)])

        def api(c, f, l, *x):
            r = f if inplace else x[0]
            c.requires(f <= l, 'valid range')
            A, H, s = ghost(c, f)
            if not inplace:
                c.requires(r + s(l) <= c.n('W'), 'room for the output')
            c.assigns('W')
            X, q = c.A('W'), c.ret('W')
            c.ensures(q == r + s(l), 'one element per group')
            c.ensures(placed(c, f, l, r, X, A, H, s), 'the first element of each group, in order')
            c.ensures(frame(c, 'W', f if inplace else r, l if inplace else q), 'nothing else is written')

        def lp(L):
            c, f, l = L.c, L.a[0], L.a[1]
            r = f if inplace else L.a[2]
            A, H, s = ghost(c, f)
            X, p, q, v = L.A('W'), L.p('first'), L.p('result'), L.v('value', 32)
            o = [('position', zand(f < p, p <= l)), ('representative', v == A[H(p - 1)])]
            if inplace:
                o += [('count', q - r == s(H(p - 1))), ('kept so far', placed(c, f, H(p - 1), r, X, A, H, s)), ('representative is the last kept', zand(s(p) == s(H(p - 1)) + 1, H(H(p - 1)) == H(p - 1))), ('unread part unchanged', c.forall(p, l, lambda k: X[k] == A[k])), ('rest unchanged', frame(c, 'W', f, l, X, L.old('W')))]
                j = z3.Int('jj')
                o += [('no kept element between', z3.ForAll([j], zimp(zand(H(p - 1) < j, j < p), H(j) != j), patterns=[H(j)]))]
            else:
                o += [('count', q - r == s(p)), ('kept so far', placed(c, f, p, r, X, A, H, s)), ('rest unchanged', frame(c, 'W', r, q, X, L.old('W')))]
            return o
        out.append(Contract(N + name, sig, api, regs=W, loops=only(name, lp, lambda L: L.a[1] - L.p('first'))))
    uq('unique', 'W W', True)
    uq('unique_copy', 'A A W', False)

    def pcg(c, f):
        A = c.old('A')
        s = c.ctx.uf('K_pc', (I, I))
        i, j = z3.Ints('i j')
        c.axiom(z3.ForAll([i], s(i + 1) == s(i) + zif(P(c, A[i]), 1, 0), patterns=[s(i + 1)]), post=True)
        c.axiom(z3.ForAll([i, j], zimp(i <= j, zand(s(i) <= s(j), s(j) - s(i) <= j - i)), patterns=[z3.MultiPattern(s(i), s(j))]), post=True)
        return A, s

    def both(c, f, e, t, u, X, Y, A, s):
        j = z3.Int('j?%d' % c.ctx.fresh_n)
        c.ctx.fresh_n += 1
        return z3.ForAll([j], zimp(zand(f <= j, j < e), zif(P(c, A[j]), X[t + s(j) - s(f)] == A[j], Y[u + (j - f) - (s(j) - s(f))] == A[j])), patterns=[A[j]])

    def pc(c, f, l, t, u):
        c.requires(f <= l, 'valid range')
        A, s = pcg(c, f)
        n = s(l) - s(f)
        c.requires(zand(t + n <= c.n('W'), u + (l - f) - n <= c.n('V')), 'room for both outputs')
        c.assigns('W')
        c.assigns('V')
        X, Y = c.A('W'), c.A('V')
        c.ensures(zand(c.ret('W', 0) == t + n, c.ret('V', 1) == u + (l - f) - n), 'returns the ends of both outputs')
        c.ensures(both(c, f, l, t, u, X, Y, A, s), 'every element is in its output, in order')
        c.ensures(zand(frame(c, 'W', t, t + n), frame(c, 'V', u, u + (l - f) - n)), 'nothing else is written')

    def pcl(L):
        c, (f, l, t, u) = L.c, L.a
        A, s = pcg(c, f)
        X, Y, p, q, w = L.A('W'), L.A('V'), L.p('first'), L.p('out_true'), L.p('out_false')
        return [('position', zand(f <= p, p <= l, q - t == s(p) - s(f), w - u == (p - f) - (s(p) - s(f)))), ('placed so far', both(c, f, p, t, u, X, Y, A, s)), ('rest unchanged', zand(frame(c, 'W', t, q, X, L.old('W')), frame(c, 'V', u, w, Y, L.old('V'))))]
    out.append(Contract(N + 'partition_copy', 'A A W V', pc, regs=W, ret='W,V', loops=only('partition_copy', pcl, lambda L: L.a[1] - L.p('first'))))
    return out


def rotation():
    def final(O, f, m, l):
        return lambda k: zif(k - f < l - m, O[m + (k - f)], O[f + (k - f) - (l - m)])

    def api(c, f, m, l):
        c.requires(zand(f <= m, m <= l), 'valid range')
        O = c.old('W')
        c.assigns('W')
        X = c.A('W')
        c.ensures(c.ret('W') == f + (l - m), 'returns where the former first element is')
        c.ensures(c.forall(f, l, lambda k: X[k] == final(O, f, m, l)(k)), 'the elements from middle on, then those before')
        c.ensures(frame(c, 'W', f, l), 'nothing else is written')

    def lp(b, k):
        if b != N + 'rotate':
            return None

        def f_(L):
            c, (f, m0, l) = L.c, L.a
            O, X, p, q, m = L.old('W'), L.A('W'), L.p('first'), L.p('first2'), L.p('middle')
            F = final(O, f, m0, l)
            # what is still to come: [q,l), then [m,q), then [p,m)
            rest = lambda x: zif(x - p < l - q, X[q + (x - p)], zif(x - p < l - m, X[m + (x - p) - (l - q)], X[p + (x - p) - (l - m)]))
            o = [('position', zand(f <= p, p < m, m <= q, q < l)), ('done so far', c.forall(f, p, lambda x: X[x] == F(x))), ('still to come', c.forall(p, l, lambda x: rest(x) == F(x))), ('rest unchanged', frame(c, 'W', f, l, X, O))]
            if k == 0:
                o.append(('as many done as seen of the second part', p - f == q - m0))
            return o
        return inv(f_, lambda L: L.a[2] - L.p('first'))
    return [Contract(N + 'rotate', 'W W W', api, regs=W, loops=lp)]


def merging():
    """element-exact: A[i] lands after the smaller elements of B, B[j] after the elements of A that are not greater (stable)"""
    def ghost(c, a):
        A, B = c.old('A'), c.old('B')
        f, l, g, h = a[:4]
        lt = lambda x, y: Cmp(c, x, y)
        LB, UB = c.ctx.uf('LB', (I, I)), c.ctx.uf('UB', (I, I))
        i, j, x, y, z = z3.Ints('i j x y z')
        if 'Cmp' in c.ctx.dem(c.fname):
            C = lambda p, q: c.ctx.uf('Cmp', (I, I, Bo))(p, q)
            c.axiom(z3.ForAll([x, y], znot(zand(C(x, y), C(y, x))), patterns=[C(x, y)]), post=True)
            c.axiom(z3.ForAll([x, y, z], zimp(C(x, y), zor(C(x, z), C(z, y))), patterns=[z3.MultiPattern(C(x, y), C(x, z)), z3.MultiPattern(C(x, y), C(z, y))]), post=True)
        ri, rj = zand(f <= i, i < l), zand(g <= j, j < h)
        c.axiom(z3.ForAll([i, j], zimp(zand(ri, rj), lt(B[j], A[i]) == (j - g < LB(i))), patterns=[z3.MultiPattern(A[i], B[j])]), post=True)
        c.axiom(z3.ForAll([i, j], zimp(zand(ri, rj), lt(B[j], A[i]) == (i - f >= UB(j))), patterns=[z3.MultiPattern(A[i], B[j])]), post=True)
        c.axiom(z3.ForAll([i], zimp(ri, zand(0 <= LB(i), LB(i) <= h - g)), patterns=[LB(i)]), post=True)
        c.axiom(z3.ForAll([j], zimp(rj, zand(0 <= UB(j), UB(j) <= l - f)), patterns=[UB(j)]), post=True)
        return A, B, LB, UB, lt

    def placed(c, a, p, q, X, G):
        A, B, LB, UB, lt = G
        f, l, g, h, r = a
        i, j = z3.Ints('i?%d j?%d' % (c.ctx.fresh_n, c.ctx.fresh_n))
        c.ctx.fresh_n += 1
        return zand(z3.ForAll([i], zimp(zand(f <= i, i < p), X[r + (i - f) + LB(i)] == A[i]), patterns=[A[i]]),
                    z3.ForAll([j], zimp(zand(g <= j, j < q), X[r + (j - g) + UB(j)] == B[j]), patterns=[B[j]]))

    def api(c, *a):
        f, l, g, h, r = a
        c.requires(zand(f <= l, g <= h, r + (l - f) + (h - g) <= c.n('W')), 'valid ranges and room for the output')
        G = ghost(c, a)
        A, B, LB, UB, lt = G
        i, j = z3.Ints('i j')
        c.requires(zand(z3.ForAll([i, j], zimp(zand(f <= i, i <= j, j < l), znot(lt(A[j], A[i])))), z3.ForAll([i, j], zimp(zand(g <= i, i <= j, j < h), znot(lt(B[j], B[i]))))), 'both sources are sorted')
        c.assigns('W')
        X = c.A('W')
        e = r + (l - f) + (h - g)
        c.ensures(c.ret('W') == e, 'returns the end of the output')
        c.ensures(placed(c, a, l, h, X, G), 'every element is at its place in the merged order')
        c.ensures(frame(c, 'W', r, e), 'nothing else is written')

    def lp(L):
        c, a = L.c, L.a
        f, l, g, h, r = a
        G = ghost(c, a)
        A, B, LB, UB, lt = G
        X, p, q, w = L.A('W'), L.p('first1'), L.p('first2'), L.p('result')
        i, j = z3.Ints('i j')
        return [('position', zand(f <= p, p <= l, g <= q, q <= h, w - r == (p - f) + (q - g))),
                ('taken elements come before the rest', zand(z3.ForAll([i, j], zimp(zand(p <= i, i < l, g <= j, j < q), lt(B[j], A[i])), patterns=[z3.MultiPattern(A[i], B[j])]),
                                                             z3.ForAll([i, j], zimp(zand(f <= i, i < p, q <= j, j < h), znot(lt(B[j], A[i]))), patterns=[z3.MultiPattern(A[i], B[j])]))),
                ('placed so far', placed(c, a, p, q, X, G)), ('rest unchanged', frame(c, 'W', r, w, X, L.old('W')))]
    return [Contract(N + 'merge', 'A A B B W', api, regs=W, loops=only('merge', lp, lambda L: (L.a[1] - L.p('first1')) + (L.a[3] - L.p('first2'))))]
