"""Contracts of the C string functions. Region A/B: arrays whose last element is a terminator (an earlier one may exist)."""
import re
from .iterspec import *
from .seqspec import *
from svc.contract import Contract, inv


def term(c, R, p):
    c.requires(zand(p < c.n(R), c.A(R)[c.n(R) - 1] == 0), 'terminated string ' + R)


def zpos(c, R, p):
    """ghost: position of the first terminator at or after p (exists because the region ends in one)"""
    A = c.A(R)
    f = c.ctx.uf('Z_%s' % A.t, (I, I))
    i = z3.Int('i')
    z = f(p)
    c.axiom(zimp(zand(p < c.n(R), 0 <= p, A[c.n(R) - 1] == 0), zand(p <= z, z < c.n(R), A[z] == 0, c.forall(p, z, lambda i: A[i] != 0, 'z'))), post=True)
    return z


def cstr(W):
    """W: 'i8' (char) or 'i32' (wchar_t)"""
    regs = {'A': W, 'B': W}
    V = 'val:' + W
    key = (lambda x: zif(x < 0, x + 256, x)) if W == 'i8' else (lambda x: x)
    conv = (lambda x: zif(x % 256 >= 128, x % 256 - 256, x % 256)) if W == 'i8' else (lambda x: x)
    out = []

    def C(n, sig, fn, **k):
        x = Contract(n, sig, fn, regs=regs, **k)
        out.append(x)
        return x

    def rem(c, s, a):
        return c.n('A') - 1 - s[0]

    def sc(name, st, mid, done, rel, inv=None, two=False, **k):
        def req(c, a):
            c.requires(c.A('A')[c.n('A') - 1] == 0, 'terminated string A')
            if two:
                c.requires(c.A('B')[c.n('B') - 1] == 0, 'terminated string B')
        for x in scan(name, st, mid, done, rel, inv, remaining=rem, extra_req=req, **k):
            x.regs = regs
            out.append(x)

    def nonz(c, lo, hi):
        A = c.A('A')
        return c.forall(lo, hi, lambda i: A[i] != 0)

    # --- strlen
    def strlen(c, p):
        term(c, 'A', p)
        r = c.ret('i64')
        A = c.A('A')
        c.ensures(zand(r >= 0, p + r < c.n('A')), 'length inside the object')
        c.ensures(A[p + r] == 0, 'a terminator follows the counted characters')
        c.ensures(nonz(c, p, p + r), 'no terminator among the counted characters')
    C('sprout::strlen', 'A', strlen)
    C(D('strlen'), 'A', strlen)
    sc('strlen', 'A,i64', '', lambda c, s, a: c.A('A')[s[0]] == 0,
       lambda c, s, t, a: zand(s[0] <= t[0], t[1] - s[1] == t[0] - s[0], nonz(c, s[0], t[0])), lambda c, s, a: zand(s[1] >= 0, s[1] <= s[0]))

    # --- strchr
    def dstrchr(c, p, v):
        term(c, 'A', p)
        A = c.A('A')
        r = c.ret('A')
        c.ensures(zand(p <= r, r < c.n('A')), 'result inside the string')
        c.ensures(c.forall(p, r, lambda i: zand(A[i] != 0, A[i] != v)), 'neither the character nor a terminator before the result')
        c.ensures(zor(A[r] == v, A[r] == 0), 'the result is the character or the terminator')
    C(D('strchr'), 'A ' + V, dstrchr)

    def strchr(c, p, v):
        term(c, 'A', p)
        A = c.A('A')
        v = conv(v)
        nul, r = c.retn('A')
        z = zpos(c, 'A', p)
        c.ensures(zimp(nul, c.forall(p, z + 1, lambda i: A[i] != v)), 'null only if the character does not occur, terminator included')
        c.ensures(zimp(znot(nul), zand(p <= r, r <= z, A[r] == v)), 'otherwise the result is an occurrence')
        c.ensures(zimp(znot(nul), c.forall(p, r, lambda i: A[i] != v)), 'and the first one')
    C('sprout::strchr', 'A v', strchr)
    sc('strchr', 'A,bool', V, lambda c, s, a: zor(s[1], c.A('A')[s[0]] == 0),
       lambda c, s, t, a: zand(s[0] <= t[0], c.forall(s[0], t[0], lambda i: zand(c.A('A')[i] != 0, c.A('A')[i] != a[0])), zimp(t[1], c.A('A')[t[0]] == a[0])))

    # --- strrchr
    def strrchr(c, p, v):
        term(c, 'A', p)
        A = c.A('A')
        v = conv(v)
        nul, r = c.retn('A')
        z = zpos(c, 'A', p)
        c.ensures(zimp(nul, c.forall(p, z + 1, lambda i: A[i] != v)), 'null only if the character does not occur, terminator included')
        c.ensures(zimp(znot(nul), zand(p <= r, r <= z, A[r] == v)), 'otherwise the result is an occurrence')
        c.ensures(zimp(znot(nul), c.forall(r + 1, z + 1, lambda i: A[i] != v)), 'and the last one')
    C('sprout::strrchr', 'A v', strrchr)
    C(D('strrchr'), 'A ' + V, strrchr)

    def rrel(c, s, t, a):
        A = c.A('A')
        return zand(s[0] <= t[0], nonz(c, s[0], t[0]),
                    zor(zand(t[1] == s[1], c.forall(s[0], t[0], lambda i: A[i] != a[0])),
                        zand(s[0] <= t[1], t[1] < t[0], A[t[1]] == a[0], c.forall(t[1] + 1, t[0], lambda i: A[i] != a[0]))))
    sc('strrchr', 'A,A', V, lambda c, s, a: c.A('A')[s[0]] == 0, rrel, lambda c, s, a: zand(s[1] <= s[0]))

    # --- strcmp
    def cmp_post(c, p, q):
        A, Bv = c.A('A'), c.A('B')
        r = c.ret('i32')
        i = z3.Int('i')

        def differ(k):
            return zand(nonz(c, p, k), c.forall(p, k, lambda i: A[i] == Bv[q + (i - p)]), A[k] != Bv[q + (k - p)])
        za = zpos(c, 'A', p)
        c.ensures(zimp(r == 0, zand(c.forall(p, za + 1, lambda i: zand(q + (i - p) < c.n('B'), A[i] == Bv[q + (i - p)])))), 'zero: the strings are equal')
        c.ensures(zimp(r < 0, c.exists(p, za + 1, lambda k: zand(c.forall(p, k, lambda i: A[i] == Bv[q + (i - p)]), key(A[k]) < key(Bv[q + (k - p)])))), 'negative: the first differing character is smaller')
        c.ensures(zimp(r > 0, c.exists(p, za + 1, lambda k: zand(c.forall(p, k, lambda i: A[i] == Bv[q + (i - p)]), key(A[k]) > key(Bv[q + (k - p)])))), 'positive: the first differing character is greater')

    def strcmp(c, p, q):
        term(c, 'A', p)
        term(c, 'B', q)
        cmp_post(c, p, q)
    if W == 'i8':
        C('sprout::strcmp', 'A B', strcmp)
        C(D('strcmp'), 'A B', strcmp)
    else:
        kz = None

        def wcmp(c, p, q):
            # wide characters compare as the element type; the terminator still ends the shorter string
            term(c, 'A', p)
            term(c, 'B', q)
            A, Bv = c.A('A'), c.A('B')
            r = c.ret('i32')
            za = zpos(c, 'A', p)
            lt = lambda x, y: zor(zand(x == 0, y != 0), zand(x != 0, y != 0, x < y))
            c.ensures(zimp(r == 0, zand(c.forall(p, za + 1, lambda i: zand(q + (i - p) < c.n('B'), A[i] == Bv[q + (i - p)])))), 'zero: the strings are equal')
            c.ensures(zimp(r < 0, c.exists(p, za + 1, lambda k: zand(c.forall(p, k, lambda i: A[i] == Bv[q + (i - p)]), lt(A[k], Bv[q + (k - p)])))), 'negative: the first differing character is smaller')
            c.ensures(zimp(r > 0, c.exists(p, za + 1, lambda k: zand(c.forall(p, k, lambda i: A[i] == Bv[q + (i - p)]), lt(Bv[q + (k - p)], A[k])))), 'positive: the first differing character is greater')
        C('sprout::strcmp', 'A B', wcmp)
        C(D('strcmp'), 'A B', wcmp)

    def crel(c, s, t, a):
        A, Bv = c.A('A'), c.A('B')
        return zand(s[0] <= t[0], t[0] - s[0] == t[1] - s[1], nonz(c, s[0], t[0]), c.forall(s[0], t[0], lambda i: A[i] == Bv[s[1] + (i - s[0])]),
                    zor(t[2] == 0, zand(A[t[0]] != 0, Bv[t[1]] != 0, zor(zand(t[2] == -1, key(A[t[0]]) < key(Bv[t[1]])), zand(t[2] == 1, key(A[t[0]]) > key(Bv[t[1]]))))))
    sc('strcmp', 'A,B,i32', '', lambda c, s, a: zor(s[2] != 0, c.A('A')[s[0]] == 0, c.A('B')[s[1]] == 0), crel, lambda c, s, a: s[1] < c.n('B'), two=True)

    # --- strspn / strcspn / strpbrk
    def inset(c, x, q):
        Bv = c.A('B')
        return c.exists(q, zpos(c, 'B', q), lambda j: Bv[j] == x, 'j')

    def spn(name, neg):
        ins = (lambda c, x, q: znot(inset(c, x, q))) if neg else inset

        def f(c, p, q):
            term(c, 'A', p)
            term(c, 'B', q)
            A = c.A('A')
            r = c.ret('i64')
            z = zpos(c, 'A', p)
            c.ensures(zand(r >= 0, p + r <= z), 'length inside the string')
            c.ensures(c.forall(p, p + r, lambda i: ins(c, A[i], q)), 'all counted characters qualify')
            c.ensures(zimp(p + r < z, znot(ins(c, A[p + r], q))), 'the next character does not')
        C('sprout::' + name, 'A B', f)
        C(D(name), 'A B', f)

        def rel(c, s, t, a):
            A = c.A('A')
            return zand(s[0] <= t[0], t[1] - s[1] == t[0] - s[0], c.forall(s[0], t[0], lambda i: zand(A[i] != 0, ins(c, A[i], a[0]))),
                        zimp(t[2], zand(A[t[0]] != 0, znot(ins(c, A[t[0]], a[0])))))
        sc(name, 'A,i64,bool', 'B', lambda c, s, a: zor(s[2], c.A('A')[s[0]] == 0), rel, lambda c, s, a: zand(s[1] >= 0, s[1] <= s[0], a[0] < c.n('B')), two=True)
    spn('strspn', False)
    spn('strcspn', True)

    def strpbrk(c, p, q):
        term(c, 'A', p)
        term(c, 'B', q)
        A = c.A('A')
        nul, r = c.retn('A')
        z = zpos(c, 'A', p)
        c.ensures(zimp(nul, c.forall(p, z, lambda i: znot(inset(c, A[i], q)))), 'null only if no character of the set occurs')
        c.ensures(zimp(znot(nul), zand(p <= r, r < z, inset(c, A[r], q))), 'otherwise a character of the set')
        c.ensures(zimp(znot(nul), c.forall(p, r, lambda i: znot(inset(c, A[i], q)))), 'and the first one')
    C('sprout::strpbrk', 'A B', strpbrk)

    def dstrpbrk(c, p, q):
        term(c, 'A', p)
        term(c, 'B', q)
        A = c.A('A')
        r = c.ret('A')
        z = zpos(c, 'A', p)
        c.ensures(zand(p <= r, r <= z), 'inside the string')
        c.ensures(c.forall(p, r, lambda i: znot(inset(c, A[i], q))), 'no character of the set before')
        c.ensures(zimp(r < z, inset(c, A[r], q)), 'a character of the set unless at the terminator')
    C(D('strpbrk'), 'A B', dstrpbrk)

    def prel(c, s, t, a):
        A = c.A('A')
        return zand(s[0] <= t[0], c.forall(s[0], t[0], lambda i: zand(A[i] != 0, znot(inset(c, A[i], a[0])))), zimp(t[1], zand(A[t[0]] != 0, inset(c, A[t[0]], a[0]))))
    sc('strpbrk', 'A,bool', 'B', lambda c, s, a: zor(s[1], c.A('A')[s[0]] == 0), prel, lambda c, s, a: a[0] < c.n('B'), two=True)

    # --- strstr
    def matches(c, i, p, q):
        """the string at q of B occurs at position i of the string at p of A"""
        za, zb = zpos(c, 'A', p), zpos(c, 'B', q)
        A, Bv = c.A('A'), c.A('B')
        return zand(i + (zb - q) <= za, c.forall(i, i + (zb - q), lambda k: A[k] == Bv[q + (k - i)], 'k'))

    def one(c, p, q):
        term(c, 'A', p)
        term(c, 'B', q)
        za, zb = zpos(c, 'A', p), zpos(c, 'B', q)
        c.requires(p < za, 'not at the end')
        r = c.ret('A')
        c.ensures(zand(p <= r, r <= za), 'inside the string')
        c.ensures(zimp(r == p, matches(c, p, p, q)), 'start: the sequence occurs here')
        c.ensures(zimp(r != p, znot(matches(c, p, p, q))), 'otherwise it does not occur here')
        c.ensures(zimp(zand(r != p, r == za), zb - q >= za - p), 'end: the rest is not longer than the sequence')
    C(D('strstr_one'), 'A B', one)

    def orel(c, s, t, a):
        f1 = a[0]
        A, Bv = c.A('A'), c.A('B')
        za, zb = zpos(c, 'A', s[0]), zpos(c, 'B', s[1])
        all_ = lambda n: c.forall(s[0], s[0] + n, lambda k: A[k] == Bv[s[1] + (k - s[0])], 'k')
        k = t[0] - 1 - s[0]
        hit = zand(t[0] == f1, zb - s[1] <= za - s[0], all_(zb - s[1]))
        miss = zor(zand(t[0] == za, za - s[0] < zb - s[1]), zand(k >= 0, k < zb - s[1], k < za - s[0], A[s[0] + k] != Bv[s[1] + k]))
        cont = zand(t[0] >= s[0], t[0] - s[0] == t[1] - s[1], t[0] <= za, t[1] <= zb, all_(t[0] - s[0]))
        return zif(t[2], zor(hit, zand(t[0] > f1, miss)), cont)
    sc('strstr_one', 'A,B,bool', 'A', lambda c, s, a: s[2], orel,
       lambda c, s, a: zand(a[0] <= s[0], s[1] < c.n('B'), zpos(c, 'A', a[0]) > a[0], zpos(c, 'A', a[0]) >= s[0], zpos(c, 'A', a[0]) == zpos(c, 'A', s[0])), two=True)

    def strstr(c, p, q):
        term(c, 'A', p)
        term(c, 'B', q)
        nul, r = c.retn('A')
        za = zpos(c, 'A', p)
        c.ensures(zimp(nul, c.forall(p, za + 1, lambda i: znot(matches(c, i, p, q)))), 'null only if the sequence does not occur')
        c.ensures(zimp(znot(nul), zand(p <= r, r <= za, matches(c, r, p, q))), 'otherwise an occurrence')
        c.ensures(zimp(znot(nul), c.forall(p, r, lambda i: znot(matches(c, i, p, q)))), 'and the first one')
    C('sprout::strstr', 'A B', strstr)

    def dstrstr(c, p, q):
        term(c, 'A', p)
        term(c, 'B', q)
        r = c.ret('A')
        za = zpos(c, 'A', p)
        c.ensures(zand(p <= r, r <= za), 'inside the string')
        c.ensures(zimp(c.A('B')[q] == 0, r == p), 'the empty sequence occurs at the start')
        c.ensures(c.forall(p, r, lambda i: znot(matches(c, i, p, q))), 'no occurrence before')
        c.ensures(zimp(r < za, matches(c, r, p, q)), 'an occurrence unless at the terminator')
    C(D('strstr'), 'A B', dstrstr)

    def srel(c, s, t, a):
        A = c.A('A')
        za = zpos(c, 'A', s[0])
        return zand(s[0] <= t[0], t[0] <= za, c.forall(s[0], t[0], lambda i: znot(matches(c, i, s[0], a[0]))), zimp(t[1], zor(t[0] == za, matches(c, t[0], s[0], a[0]))))
    sc('strstr', 'A,bool', 'B', lambda c, s, a: zor(s[1], c.A('A')[s[0]] == 0), srel, lambda c, s, a: zand(a[0] < c.n('B'), c.A('B')[a[0]] != 0), two=True)

    # --- writing functions: destination region W (distinct from the source)
    wregs = {'A': W, 'W': 'w:' + W}

    def CW(n, sig, fn, **k):
        out.append(Contract(n, sig, fn, regs=wregs, **k))

    def src(c, q):
        c.requires(zand(q < c.n('A'), c.A('A')[c.n('A') - 1] == 0), 'terminated source')
        return zpos(c, 'A', q)

    def frame(c, lo, hi, X=None, O=None):
        X, O = X or c.A('W'), O or c.old('W')
        j = z3.Int('j?%d' % c.ctx.fresh_n)
        c.ctx.fresh_n += 1
        return z3.ForAll([j], zimp(zor(j < lo, j >= hi), X[j] == O[j]))

    def copied(c, d, q, n, X=None):
        X, A = X or c.A('W'), c.A('A')
        return c.forall(d, d + n, lambda k: X[k] == A[q + (k - d)])

    def lv(L):
        return L.p('s1'), L.p('s2')

    def strcpy(c, d, q):
        z = src(c, q)
        c.requires(d + (z - q) < c.n('W'), 'room for the copy')
        c.assigns('W')
        r = c.ret('W')
        c.ensures(r == d, 'returns the destination')
        c.ensures(copied(c, d, q, z - q + 1), 'the string and its terminator are copied')
        c.ensures(frame(c, d, d + (z - q) + 1), 'nothing else is written')

    def strcpy_l(base, k):
        if base != D('strcpy'):
            return None

        def f(L):
            d, q = L.a
            c = L.c
            s1, s2 = lv(L)
            return [('position', zand(s1 - d == s2 - q, q <= s2, s2 <= zpos(c, 'A', q))), ('copied so far', copied(c, d, q, s2 - q, L.A('W'))), ('rest unchanged', frame(c, d, s1, L.A('W'), L.old('W')))]
        return inv(f, lambda L: zpos(L.c, 'A', L.a[1]) + 1 - L.p('s2'))
    CW('sprout::strcpy', 'W A', strcpy)
    CW(D('strcpy'), 'W A', strcpy, loops=strcpy_l)

    def strncpy(c, d, q, n):
        A = c.A('A')
        c.requires(q < c.n('A'), 'source not empty')
        e = zif(zpos(c, 'A', q) - q < n, zpos(c, 'A', q) - q, n)
        c.requires(zand(A[c.n('A') - 1] == 0), 'terminated source')
        c.requires(zand(n >= 0, d + n <= c.n('W')), 'room for n characters')
        c.assigns('W')
        r = c.ret('W')
        c.ensures(r == d, 'returns the destination')
        c.ensures(copied(c, d, q, e), 'the characters before the terminator, at most n, are copied')
        c.ensures(c.forall(d + e, d + n, lambda k: c.A('W')[k] == 0), 'the rest of the n characters is filled with terminators')
        c.ensures(frame(c, d, d + n), 'nothing else is written')

    def strncpy_l(base, k):
        if base != D('strncpy'):
            return None

        def f(L):
            d, q, n0 = L.a
            c = L.c
            s1, s2, n = L.p('s1'), L.p('s2'), L.v('n')
            z = zpos(c, 'A', q)
            X = L.A('W')
            i = n0 - n
            e = zif(z - q < n0, z - q, n0)
            return [('position', zand(n >= 0, i >= 0, s1 - d == i)), ('rest unchanged', frame(c, d, s1, X, L.old('W')))] + (
                [('copied so far', zand(copied(c, d, q, i, X), s2 == q + i, i <= z - q))] if k == 0 else
                [('filled so far', zand(i >= e, copied(c, d, q, e, X), c.forall(d + e, d + i, lambda k: X[k] == 0)))])
        return inv(f, lambda L: L.v('n'))
    CW('sprout::strncpy', 'W A v', strncpy)
    CW(D('strncpy'), 'W A v', strncpy, loops=strncpy_l)

    def dpos(c, d):
        return zpos_old(c, 'W', d)

    def zpos_old(c, R, p):
        A = c.old(R)
        f = c.ctx.uf('Z_%s' % A.t, (I, I))
        z = f(p)
        c.axiom(zimp(zand(p < c.n(R), 0 <= p, A[c.n(R) - 1] == 0), zand(p <= z, z < c.n(R), A[z] == 0, c.forall(p, z, lambda i: A[i] != 0, 'z'))), post=True)
        return z

    def strcat(c, d, q):
        z = src(c, q)
        c.requires(zand(d < c.n('W'), c.old('W')[c.n('W') - 1] == 0), 'terminated destination')
        e = dpos(c, d)
        c.requires(e + (z - q) < c.n('W'), 'room for the copy')
        c.assigns('W')
        r = c.ret('W')
        c.ensures(r == d, 'returns the destination')
        c.ensures(copied(c, e, q, z - q + 1), 'the string and its terminator are appended at the old terminator')
        c.ensures(frame(c, e, e + (z - q) + 1), 'nothing else is written')

    def strcat_l(base, k):
        if base != D('strcat'):
            return None

        def f(L):
            d, q = L.a
            c = L.c
            e = dpos(c, d)
            if k == 0:
                return [('position', zand(d <= L.p('s1'), L.p('s1') <= e)), ('unchanged', frame(c, d, d, L.A('W'), L.old('W')))]
            s1, s2 = lv(L)
            return [('position', zand(s1 - e == s2 - q, q <= s2, s2 <= zpos(c, 'A', q))), ('copied so far', copied(c, e, q, s2 - q, L.A('W'))), ('rest unchanged', frame(c, e, s1, L.A('W'), L.old('W')))]
        return inv(f, (lambda L: dpos(L.c, L.a[0]) - L.p('s1')) if k == 0 else (lambda L: zpos(L.c, 'A', L.a[1]) + 1 - L.p('s2')))
    CW('sprout::strcat', 'W A', strcat)
    CW(D('strcat'), 'W A', strcat, loops=strcat_l)

    def strncat(c, d, q, n):
        c.requires(q < c.n('A'), 'source not empty')
        c.requires(zand(c.A('A')[c.n('A') - 1] == 0), 'terminated source')
        z = zpos(c, 'A', q)
        c.requires(zand(d < c.n('W'), c.old('W')[c.n('W') - 1] == 0), 'terminated destination')
        e = dpos(c, d)
        m = zif(z - q < n, z - q, n)
        c.requires(zand(n >= 0, e + m < c.n('W')), 'room for the copy')
        c.assigns('W')
        r = c.ret('W')
        c.ensures(r == d, 'returns the destination')
        c.ensures(copied(c, e, q, m), 'at most n characters are appended at the old terminator')
        c.ensures(c.A('W')[e + m] == 0, 'and a terminator')
        c.ensures(frame(c, e, e + m + 1), 'nothing else is written')

    def strncat_l(base, k):
        if base != D('strncat'):
            return None

        def f(L):
            d, q, n0 = L.a
            c = L.c
            e = dpos(c, d)
            if k == 0:
                return [('position', zand(d <= L.p('s1'), L.p('s1') <= e)), ('unchanged', frame(c, d, d, L.A('W'), L.old('W')))]
            s1, s2 = lv(L)
            n = L.v('n')
            i = n0 - n
            return [('position', zand(n >= 0, i >= 0, s1 - e == i, s2 == q + i, i <= zpos(c, 'A', q) - q)), ('copied so far', copied(c, e, q, i, L.A('W'))), ('rest unchanged', frame(c, e, s1, L.A('W'), L.old('W')))]
        return inv(f, (lambda L: dpos(L.c, L.a[0]) - L.p('s1')) if k == 0 else (lambda L: L.v('n')))
    CW('sprout::strncat', 'W A v', strncat)
    CW(D('strncat'), 'W A v', strncat, loops=strncat_l)
    return out


# ---------------------------------------------------------------------------------------- ptr_index_iterator (pointer, index)
class Ix:
    """view of a contract over plain iterators as one over (pointer, index) iterators: position = pointer + index.
    All iterators of one range share the pointer (the iterator compares indices only)."""

    def __init__(self, c, base, kinds):
        self.c, self.base, self.kinds = c, base, kinds

    def __getattr__(self, k):
        return getattr(self.c, k)

    def ret(self, kind, key=0):
        k = 0
        for x in self.kinds[:key]:
            k += 2 if x in self.base else 1
        if kind not in self.base:
            return self.c.ret(kind, k)
        p = self.c.ret(kind, k)
        i = self.c.ret('i64', k + 1)
        self.c.ensures(p == self.base[kind], 'result keeps the pointer of its range')
        return p + i


def ix(con, regs):
    up = lambda s: re.sub(r'\b([AB])\b', r'\1,i64', s)
    sig = []
    for s in con.sig:
        sig.append('(' + up(s) + ')' if s in ('A', 'B') else up(s) if s.startswith('(') else s)
    kinds = con.ret.split(',') if con.ret else ['A']

    def fn(c, *a):
        base = {}
        out = []

        def one(R, p, i):
            if R in base:
                c.requires(p == base[R], 'iterators of one range')
            else:
                base[R] = p
            c.requires(zand(0 <= p, p <= c.n(R), p + i >= 0, p + i <= c.n(R)), 'iterator inside the object')
            return p + i
        for s, v in zip(con.sig, a):
            if s in ('A', 'B'):
                out.append(one(s, v[0], v[1]))
            elif s.startswith('('):
                o, k = [], 0
                for kd in s[1:-1].split(','):
                    if kd in ('A', 'B'):
                        o.append(one(kd, v[k], v[k + 1]))
                        k += 2
                    else:
                        o.append(v[k])
                        k += 1
                out.append(tuple(o))
            else:
                out.append(v)
        con.fn(Ix(c, base, kinds), *out)
    return Contract(con.name, sig, fn, regs=regs, ret=up(con.ret) if con.ret else None, loops=con.loops, label=con.label)


def indexed(W, uns=False):
    """strlen(s, n), strncmp, memchr, memcmp and what they are built on"""
    regs = {'A': W, 'B': W}
    key = (lambda x: zif(x < 0, x + 256, x)) if W == 'i8' else (lambda x: x)
    V = 'val:' + W
    out = []

    def test(c, A, i, a):
        return A[i] == a[-1]

    def find(c, first, last, v):
        A = c.A('A')
        c.requires(first <= last, 'valid range')
        first_match(c, A, first, last, c.ret('A'), lambda i: test(c, A, i, (v,)))
    fd = [Contract('sprout::find', 'A A ' + V, find), ra_found('find_impl_ra', 'A A %s v A' % V, test)]
    out += [ix(x, regs) for x in fd]

    def dif(c, p, q, k, lt):
        """first difference of the n-character prefixes at offset k, nothing ended before"""
        A, Bv = c.A('A'), c.A('B')
        return zand(c.forall(p, p + k, lambda i: zand(A[i] == Bv[q + (i - p)], A[i] != 0)), lt(A[p + k], Bv[q + k]))
    less = lambda x, y: zor(zand(x == 0, y != 0), zand(x != 0, y != 0, key(x) < key(y)))

    def same(c, p, q, n):
        A, Bv = c.A('A'), c.A('B')
        return c.forall(p, p + n, lambda i: zand(A[i] == Bv[q + (i - p)], A[i] != 0))

    def upto(c, p, q, n):
        A, Bv = c.A('A'), c.A('B')
        return c.exists(0, n, lambda k: zand(c.forall(p, p + k, lambda i: zand(A[i] == Bv[q + (i - p)], A[i] != 0)), A[p + k] == 0, Bv[q + k] == 0))

    def t2(c, f1, d1, f2, d2, n, found):
        c.requires(zand(d1 == 0, d2 == 0), 'delimiters')
        c.requires(zimp(found == 2, zand(n >= 1, f1 + n <= c.n('A'), f2 + n <= c.n('B'))), 'valid ranges')
        c.decreases(zif(found != 2, 0, n))
        r = c.ret('i32')
        nf = found == 2
        c.ensures(zimp(znot(nf), r == found), 'already decided')
        c.ensures(zimp(nf, zand(r >= -1, r <= 2)), 'state')
        c.ensures(zimp(zand(nf, r == -1), c.exists(0, n, lambda k: dif(c, f1, f2, k, less))), 'less')
        c.ensures(zimp(zand(nf, r == 1), c.exists(0, n, lambda k: dif(c, f1, f2, k, lambda x, y: less(y, x)))), 'greater')
        c.ensures(zimp(zand(nf, r == 0), upto(c, f1, f2, n)), 'equal up to the terminators')
        c.ensures(zimp(zand(nf, r == 2), same(c, f1, f2, n)), 'equal so far, no terminator')
    out.append(ix(Contract(D('tristate_lexicographical_compare_2_impl_ra'), 'A %s B %s v v' % (V, V), t2), regs))

    def ncmp(c, p, q, n):
        c.requires(zand(n >= 0, p + n <= c.n('A'), q + n <= c.n('B')), 'readable')
        r = c.ret('i32')
        c.ensures(zimp(r < 0, c.exists(0, n, lambda k: dif(c, p, q, k, less))), 'negative: smaller at the first difference among the first n characters')
        c.ensures(zimp(r > 0, c.exists(0, n, lambda k: dif(c, p, q, k, lambda x, y: less(y, x)))), 'positive: greater at the first difference')
        c.ensures(zimp(r == 0, zor(same(c, p, q, n), upto(c, p, q, n))), 'zero: equal up to n characters or the terminators')
    out.append(Contract('sprout::strncmp', 'A B v', ncmp, regs=regs))

    def nlen(c, p, n):
        c.requires(zand(n >= 0, p + n <= c.n('A')), 'readable')
        r = c.ret('i64')
        A = c.A('A')
        c.ensures(zand(r >= 0, r <= n), 'at most n')
        c.ensures(c.forall(p, p + r, lambda i: A[i] != 0), 'no terminator among the counted characters')
        c.ensures(zimp(r < n, A[p + r] == 0), 'followed by a terminator unless n characters were counted')
    out.append(Contract('sprout::strlen', 'A v', nlen, regs=regs))

    # memory functions
    def eqb(c, p, q, n):
        A, Bv = c.A('A'), c.A('B')
        return c.forall(p, p + n, lambda i: A[i] == Bv[q + (i - p)])

    def mdif(c, p, q, k, sw):
        x, y = key(c.A('A')[p + k]), key(c.A('B')[q + k])
        return zand(eqb(c, p, q, k), (y < x) if sw else (x < y))

    def mra(c, f1, f2, n, found):
        c.requires(zimp(found == 2, zand(n >= 1, f1 + n <= c.n('A'), f2 + n <= c.n('B'))), 'valid ranges')
        c.decreases(zif(found != 2, 0, n))
        r = c.ret('i32')
        nf = found == 2
        c.ensures(zimp(znot(nf), r == found), 'already decided')
        c.ensures(zimp(nf, zor(r == -1, r == 1, r == 2)), 'state')
        c.ensures(zimp(zand(nf, r == -1), c.exists(0, n, lambda k: mdif(c, f1, f2, k, False))), 'less')
        c.ensures(zimp(zand(nf, r == 1), c.exists(0, n, lambda k: mdif(c, f1, f2, k, True))), 'greater')
        c.ensures(zimp(zand(nf, r == 2), eqb(c, f1, f2, n)), 'equal so far')
    out.append(ix(Contract(D('lexicographical_compare_impl_ra'), 'A B v v', mra), regs))

    def mcmp(c, p, q, n):
        c.requires(zand(n >= 0, p + n <= c.n('A'), q + n <= c.n('B')), 'readable')
        r = c.ret('i32')
        c.ensures(zimp(r < 0, c.exists(0, n, lambda k: mdif(c, p, q, k, False))), 'negative: the first differing byte is smaller')
        c.ensures(zimp(r > 0, c.exists(0, n, lambda k: mdif(c, p, q, k, True))), 'positive: the first differing byte is greater')
        c.ensures(zimp(r == 0, eqb(c, p, q, n)), 'zero: equal bytes')
    out.append(Contract('sprout::memcmp', 'A B v', mcmp, regs=regs))
    out.append(Contract('sprout::wmemcmp', 'A B v', mcmp, regs=regs))
    conv = (lambda x: zif(x % 256 >= 128, x % 256 - 256, x % 256)) if W == 'i8' else (lambda x: x)

    def mchr(c, p, v, n):
        v = conv(v)
        A = c.A('A')
        c.requires(zand(n >= 0, p + n <= c.n('A')), 'readable')
        nul, r = c.retn('A')
        c.ensures(zimp(nul, c.forall(p, p + n, lambda i: A[i] != v)), 'null only if the value does not occur')
        c.ensures(zimp(znot(nul), zand(p <= r, r < p + n, A[r] == v, c.forall(p, r, lambda i: A[i] != v))), 'otherwise its first occurrence')
    out.append(Contract('sprout::memchr', 'A v v', mchr, regs=regs))
    out.append(Contract('sprout::wmemchr', 'A v v', mchr, regs=regs))
    return out
