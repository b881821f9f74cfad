"""Contracts for the recursive (C++11 style) algorithms over iterators. Regions A and B are arrays of int.

Two shapes recur: `X_impl_ra` (divide at a pivot, random access) and `X_impl` / `X_impl_1` (a scan carried in a
(iterator, state) pair whose step count doubles). `scan` builds the contracts of the second shape from a transition
relation; the rest are written out."""
import z3
from svc.contract import Contract
from svc.core import And, Or, Not, Implies

I = z3.IntSort()
Bo = z3.BoolSort()
zand, zor, znot, zimp, zif = z3.And, z3.Or, z3.Not, z3.Implies, z3.If


def ext_pred(ctx, g, mem, vals, rt):
    return ctx.uf('P', (I, Bo))(i32(ctx, vals[1])), g, mem


def ext_cmp(ctx, g, mem, vals, rt):
    return ctx.uf('Cmp', (I, I, Bo))(i32(ctx, vals[1]), i32(ctx, vals[2])), g, mem


def ext_bpred(ctx, g, mem, vals, rt):
    return ctx.uf('BP', (I, I, Bo))(i32(ctx, vals[1]), i32(ctx, vals[2])), g, mem


def ext_op2(ctx, g, mem, vals, rt):
    r = ctx.uf('Op2', (I, I, I))(i32(ctx, vals[1]), i32(ctx, vals[2]))
    ctx.add_assume(z3.And(r >= -2**31, r < 2**31))
    ctx.setrng(r, -2**31, 2**31 - 1)
    return r, g, mem


def ext_op1(ctx, g, mem, vals, rt):
    r = ctx.uf('Op1', (I, I))(i32(ctx, vals[1]))
    ctx.add_assume(z3.And(r >= -2**31, r < 2**31))
    ctx.setrng(r, -2**31, 2**31 - 1)
    return r, g, mem


def i32(ctx, v):
    return ctx.val(ctx.plain(v, 32), 32)


EXT = {r'^Pred::operator\(\)': ext_pred, r'^Cmp::operator\(\)': ext_cmp, r'^BPred::operator\(\)': ext_bpred,
       r'^Op2::operator\(\)': ext_op2, r'^Op1::operator\(\)': ext_op1}


def P(c, x):
    return c.ctx.uf('P', (I, Bo))(x)


def Cmp(c, x, y):
    if 'Cmp' not in c.ctx.dem(c.fname):      # default overload / sprout::less
        return x < y
    return c.ctx.uf('Cmp', (I, I, Bo))(x, y)


def BP(c, x, y):
    if 'BPred' not in c.ctx.dem(c.fname):    # default overload / sprout::equal_to
        return x == y
    return c.ctx.uf('BP', (I, I, Bo))(x, y)


def strict_weak(c):
    """Cmp is a strict weak order"""
    x, y, z = z3.Ints('x y z')
    c.requires(z3.ForAll([x], znot(Cmp(c, x, x))), 'irreflexive')
    c.requires(z3.ForAll([x, y, z], zimp(zand(Cmp(c, x, y), Cmp(c, y, z)), Cmp(c, x, z))), 'transitive')
    c.requires(z3.ForAll([x, y, z], zimp(zand(znot(Cmp(c, x, y)), znot(Cmp(c, y, z))), znot(Cmp(c, x, z)))),
               'incomparability transitive')


NOSWO = []


def D(n):
    return 'sprout::detail::' + n


def prefix(c, name, A, ind):
    """ghost prefix count: S(0)=0, S(i+1)=S(i)+ind(i)"""
    S = c.ctx.uf(name, (I, I))
    i = z3.Int('i')
    c.axiom(z3.ForAll([i], S(i + 1) == S(i) + zif(ind(i), 1, 0), patterns=[S(i + 1)]))
    c.axiom(z3.ForAll([i], S(i + 1) == S(i) + zif(ind(i), 1, 0), patterns=[S(i)]) if False else z3.BoolVal(True))
    return S


# ---------------------------------------------------------------------------------------- generic doubling scan
def scan(name, st, mid, done, rel, inv=None, remaining=None, suffix=('_impl_1', '_impl'), tup=False, ret=None, pos=0,
         stop_any=False, extra_req=None, steps_le=False):
    """contracts of <name>_impl_1 / <name>_impl.
    st: kinds of the state struct in logical order, e.g. 'A,bool'; tup: memory order is reversed (sprout::tuple)
    mid: signature of the arguments between the state and n, e.g. 'A val:i32'
    done(c, s, args): scan stops; rel(c, s, t, args): transition relation s ->* t (reflexive, transitive)
    inv(c, s, args): representation invariant of the state; remaining(c, s, args): elements left (>= 0)"""
    kinds = st.split(',')
    order = list(range(len(kinds)))
    memk = list(reversed(kinds)) if tup else kinds
    memstr = ','.join(memk)
    L = len(kinds)

    def norm(t):
        return tuple(reversed(t)) if tup else tuple(t)

    def rets(c):
        r = [c.ret(k, i) for i, k in enumerate(memk)]
        return norm(r)
    inv = inv or (lambda c, s, a: z3.BoolVal(True))
    remaining = remaining or (lambda c, s, a: a[0] - s[0])

    def eqst(s, t):
        return zand(*[x == y for x, y in zip(s, t)])

    def split(a):
        return norm(a[0]), list(a[1:-1]), a[-1]

    def impl_1(c, *a):
        s, args, n = split(a)
        if extra_req:
            extra_req(c, args)
        c.requires(n >= 1, 'n positive')
        c.requires(remaining(c, s, args) >= 0, 'valid range')
        c.requires(inv(c, s, args), 'state invariant')
        c.decreases(n)
        t = rets(c)
        d = done(c, s, args)
        c.ensures(zimp(d, eqst(s, t)), 'a finished scan is returned unchanged')
        nd = znot(d)
        c.ensures(remaining(c, t, args) >= 0, 'result inside the range')
        c.ensures(zimp(nd, rel(c, s, t, args)), 'steps follow the specification')
        c.ensures(zimp(nd, inv(c, t, args)), 'state invariant kept')
        c.ensures(zimp(nd, zor(done(c, t, args), (remaining(c, t, args) <= remaining(c, s, args) - n) if steps_le else
                                remaining(c, t, args) == remaining(c, s, args) - n)), 'n steps unless finished')

    def impl(c, *a):
        s, args, n = split(a)
        if extra_req:
            extra_req(c, args)
        c.requires(n >= 1, 'n positive')
        c.requires(remaining(c, s, args) >= 0, 'valid range')
        c.requires(inv(c, s, args), 'state invariant')
        c.requires(zor(done(c, s, args), n <= 1 + zif(s[pos] >= 0, s[pos], 0)) if remaining.__name__ != 'rev' else
                   zor(done(c, s, args), n <= 1 + c.n('A') - s[pos]), 'n bounded by progress')
        c.decreases(zif(done(c, s, args), 0, remaining(c, s, args)))
        t = rets(c)
        d = done(c, s, args)
        c.ensures(zimp(d, eqst(s, t)), 'a finished scan is returned unchanged')
        nd = znot(d)
        c.ensures(remaining(c, t, args) >= 0, 'result inside the range')
        c.ensures(zimp(nd, rel(c, s, t, args)), 'steps follow the specification')
        c.ensures(zimp(nd, inv(c, t, args)), 'state invariant kept')
        c.ensures(done(c, t, args), 'scan finished')
    sig = ('(%s) %s v' % (memstr, mid)).split()
    return [Contract(D(name + suffix[0]), sig, impl_1, ret=memstr), Contract(D(name + suffix[1]), sig, impl, ret=memstr)]


def first_scan(name, mid, test, hit=True):
    """scan state (it, flag): stops at the first element where test holds, leaving flag == hit"""
    def done(c, s, a):
        return zor(s[1] if hit else znot(s[1]), s[0] == a[0])

    def rel(c, s, t, a):
        A = c.A('A')
        h = t[1] if hit else znot(t[1])
        return zand(s[0] <= t[0], c.forall(s[0], t[0], lambda i: znot(test(c, A, i, a))),
                    zimp(h, zand(t[0] < a[0], test(c, A, t[0], a))))
    return scan(name, 'A,bool', mid, done, rel)


def ra_pivot(name, sig, post, nonempty=True, ret=None, unpack=None):
    """divide-and-conquer at pivot over a non-empty range; post(c, first, last, args, result)"""
    def fn(c, *a):
        first, last = a[0], a[1]
        pivot, rest = a[-1], a[2:-1]
        c.requires(zand(first < last, 2 * pivot <= last - first, last - first <= 2 * pivot + 1), 'pivot is the middle')
        c.decreases(last - first)
        post(c, first, last, rest)
    return Contract(D(name), sig, fn)


def ra_found(name, sig, test, val=False, nargs=0, exclusive=False):
    """pivot search carrying the position found so far (== first: nothing found yet).
    exclusive: the test looks at element i and i+1, the range is closed (last is dereferenceable)"""
    def fn(c, *a):
        first, last, pivot, found = a[0], a[1], a[-2], a[-1]
        args = list(a[2:-2])
        A = c.A('A')
        c.requires(first <= last, 'valid range')
        if exclusive:
            c.requires(last < A.n, 'last is dereferenceable')
        c.requires(zimp(found == first, zand(first < last, 2 * pivot <= last - first, last - first <= 2 * pivot + 1)), 'pivot is the middle')
        c.decreases(zif(found != first, 0, last - first))
        r = c.ret('A')
        nf = found == first
        c.ensures(zimp(znot(nf), r == found), 'already found')
        c.ensures(zimp(nf, zand(first <= r, r <= last)), 'result in [first,last]')
        c.ensures(zimp(nf, c.forall(first, r, lambda i: znot(test(c, A, i, args)))), 'no earlier match')
        c.ensures(zimp(zand(nf, r < last), test(c, A, r, args)), 'result matches unless last')
    return Contract(D(name), sig, fn)


def first_match(c, A, first, last, r, t, what='match'):
    c.ensures(zand(first <= r, r <= last), 'result in [first,last]')
    c.ensures(c.forall(first, r, lambda i: znot(t(i))), 'no earlier ' + what)
    c.ensures(zimp(r < last, t(r)), 'result is a %s unless last' % what)


# ------------------------------------------------------------------------------------------------ find family
def find_like(qual, kind, neg=False):
    val = kind == 'value'
    V = 'val:i32 ' if val else ''

    def test(c, A, i, a):
        if val:
            return A[i] == a[-1]
        p = P(c, A[i])
        return znot(p) if neg else p

    def api(c, first, last, *v):
        A = c.A('A')
        c.requires(first <= last, 'valid range')
        first_match(c, A, first, last, c.ret('A'), lambda i: test(c, A, i, v))
    return [Contract('sprout::' + qual, 'A A ' + V, api),
            ra_found(qual + '_impl_ra', 'A A %sv A' % V, test)] + first_scan(qual, 'A ' + V, test)


# ------------------------------------------------------------------------------------------------ quantifiers
def quant(qual, kind, which):
    """all_of / any_of / none_of (predicate) and *_equal (value)"""
    val = kind == 'value'
    V = 'val:i32 ' if val else ''

    def t(c, A, i, a):
        return A[i] == a[-1] if val else P(c, A[i])

    # boolean result: all t / no t / exists t ; the scan stops at the first "decider"
    def decider(c, A, i, a):
        return znot(t(c, A, i, a)) if which == 'all' else t(c, A, i, a)

    def res(c, A, f, l, a):
        # value of "no decider in [f,l)"
        return c.forall(f, l, lambda i: znot(decider(c, A, i, a)))

    def some(c, A, f, l, a):
        return c.exists(f, l, lambda i: decider(c, A, i, a))

    pos = which in ('all', 'none')

    def post(c, f, l, a):
        A = c.A('A')
        r = c.ret('bool')
        c.ensures(zimp(r if pos else znot(r), res(c, A, f, l, a)), 'every element decides the same way')
        c.ensures(zimp(znot(r) if pos else r, some(c, A, f, l, a)), 'a deciding element exists')

    def api(c, first, last, *v):
        c.requires(first <= last, 'valid range')
        post(c, first, last, v)
    return [Contract('sprout::' + qual, 'A A ' + V, api),
            ra_pivot(qual + '_impl_ra', 'A A %sv' % V, post)] + first_scan(qual, 'A ' + V, decider, hit=not pos)


def count_like(qual, kind):
    val = kind == 'value'
    V = 'val:i32 ' if val else ''

    def S(c, a):
        A = c.A('A')
        return prefix(c, 'Cnt_' + kind + ('_' + str(a[-1]) if val else '') + '_' + str(A.t), A,
                      (lambda i: A[i] == a[-1]) if val else (lambda i: P(c, A[i])))

    def api(c, first, last, *v):
        c.requires(first <= last, 'valid range')
        s = S(c, v)
        c.ensures(c.ret('i64') == s(last) - s(first), 'number of matching elements')

    def ra(c, first, *a):
        size = a[-1]
        c.requires(zand(size >= 1, first + size <= c.n('A')), 'non-empty range')
        c.decreases(size)
        s = S(c, a[:-1])
        r = c.ret('i64')
        c.ensures(r == s(first + size) - s(first), 'number of matching elements')
        c.ensures(zand(0 <= r, r <= size), 'count bounded by length')

    def done(c, s, a):
        return s[0] == a[0]

    def rel(c, s, t, a):
        f = S(c, a)
        return zand(s[0] <= t[0], t[1] - s[1] == f(t[0]) - f(s[0]), t[1] >= s[1])

    def inv(c, s, a):
        return zand(0 <= s[1], s[1] <= s[0])
    return [Contract('sprout::' + qual, 'A A ' + V, api),
            Contract(D(qual + '_impl_ra'), 'A %sv' % V, ra)] + scan(qual, 'A,i64', 'A ' + V, done, rel, inv)


def one_of_like(qual, kind, part=False):
    """one_of (exactly one element satisfies), is_partitioned uses another state relation"""
    val = kind == 'value'
    V = 'val:i32 ' if val else ''

    def t(c, A, i, a):
        return A[i] == a[-1] if val else P(c, A[i])

    def S(c, a):
        A = c.A('A')
        return prefix(c, 'Cnt_' + kind + ('_' + str(a[-1]) if val else '') + '_' + str(A.t), A, lambda i: t(c, A, i, a))

    def exactly_one(c, first, last, v):
        A = c.A('A')
        r = c.ret('bool')
        k = c.exists(first, last, lambda i: t(c, A, i, v))
        uniq = c.forall2(first, last, lambda i, j: znot(zand(t(c, A, i, v), t(c, A, j, v))))
        two = c.exists(first, last, lambda i: zand(t(c, A, i, v), c.exists(i + 1, last, lambda j: t(c, A, j, v), 'j')))
        c.ensures(zimp(r, zand(k, uniq)), 'true: one element satisfies the predicate and no two do')
        c.ensures(zimp(znot(r), zor(two, c.forall(first, last, lambda i: znot(t(c, A, i, v))))),
                  'false: no element or two elements satisfy the predicate')

    def api(c, first, last, *v):
        c.requires(first <= last, 'valid range')
        exactly_one(c, first, last, v)

    def none_ra(c, f, l, a):
        A = c.A('A')
        r = c.ret('bool')
        c.ensures(r == c.forall(f, l, lambda i: znot(t(c, A, i, a))), 'no element satisfies the predicate')

    def one_ra(c, f, l, a):
        exactly_one(c, f, l, a)

    def done(c, s, a):
        return zor(s[1] > 1, s[0] == a[0])

    def rel(c, s, t_, a):
        A = c.A('A')
        f0, f1, k0, k1, last = s[0], t_[0], s[1], t_[1], a[0]
        # k: number of hits so far, saturating at 2 (the second hit stops the scan on its position)
        none = c.forall(f0, f1, lambda i: znot(t(c, A, i, a)))
        one = zand(c.exists(f0, f1, lambda i: t(c, A, i, a)),
                   c.forall2(f0, f1, lambda i, j: znot(zand(t(c, A, i, a), t(c, A, j, a)))))
        return zand(f0 <= f1, k0 <= k1,
                    zimp(zand(k0 == 0, k1 == 0), none), zimp(zand(k0 == 1, k1 == 1), none),
                    zimp(zand(k0 == 0, k1 == 1), one),
                    zimp(k1 == 2, zand(f1 < last, t(c, A, f1, a))),
                    zimp(zand(k0 == 0, k1 == 2), c.exists(f0, f1, lambda i: t(c, A, i, a))))

    def inv(c, s, a):
        return zand(0 <= s[1], s[1] <= 2)
    return [Contract('sprout::' + qual, 'A A ' + V, api),
            ra_pivot(qual + '_impl_ra_1', 'A A %sv' % V, none_ra),
            ra_pivot(qual + '_impl_ra', 'A A %sv' % V, one_ra)] + scan(qual, 'A,i64', 'A ' + V, done, rel, inv)


def is_partitioned_c():
    def t(c, i):
        return P(c, c.A('A')[i])

    def sorted_(c, f, l):
        return c.forall2(f, l, lambda i, j: zimp(t(c, j), t(c, i)))

    def api(c, first, last):
        c.requires(first <= last, 'valid range')
        r = c.ret('bool')
        c.ensures(zimp(r, sorted_(c, first, last)), 'true means no satisfying element follows a non-satisfying one')
        c.ensures(zimp(sorted_(c, first, last), r), 'false means some satisfying element follows a non-satisfying one')

    def done(c, s, a):
        return zor(s[1] > 1, s[0] == a[0])

    def rel(c, s, u, a):
        f0, f1, k0, k1, last = s[0], u[0], s[1], u[1], a[0]
        return zand(f0 <= f1, k0 <= k1,
                    zimp(k1 == 0, c.forall(f0, f1, lambda i: t(c, i))),
                    zimp(k0 == 1, c.forall(f0, f1, lambda i: znot(t(c, i)))),
                    zimp(zand(k0 == 0, k1 >= 1), c.exists(f0, f1, lambda p: zand(
                        c.forall(f0, p, lambda i: t(c, i), 'i'), c.forall(p, f1, lambda i: znot(t(c, i)), 'j')))),
                    zimp(k1 == 2, zand(f1 < last, t(c, f1))))

    def inv(c, s, a):
        return zand(0 <= s[1], s[1] <= 2)
    return [Contract('sprout::is_partitioned', 'A A', api)] + scan('is_partitioned', 'A,i64', 'A', done, rel, inv)
