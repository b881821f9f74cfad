"""Symbolic executor / verification-condition generator over LLVM IR produced from /repo's headers.

Two arithmetic modes:
  'int' - mathematical integers (canonical signed representation) with explicit no-overflow obligations for nsw/nuw
          operations and explicit modular wrap for the operations C++ defines modulo 2^n;
  'bv'  - bit vectors (bit-exact), IEEE floats.
Calls to a function that has a contract are replaced by the contract; every other call is inlined (so extracting a
helper changes nothing); recursion without a contract only unfolds while the path condition is satisfiable, up to a
limit, after which the executor refuses (Unsupported) rather than guessing.
"""
import re
import time
import bisect
import z3
from .llparse import func_body

INT, BV = 'int', 'bv'


class Unsupported(Exception):
    pass


class MissingContract(Unsupported):
    pass


# ------------------------------------------------------------------ values
def _multi_pattern(*args):
    """z3.MultiPattern drops its last references to the terms before the pattern is made; keep them"""
    arr = (z3.Ast * len(args))(*[a.as_ast() for a in args])
    return z3.PatternRef(z3.Z3_mk_pattern(args[0].ctx.ref(), len(args), arr), args[0].ctx)


z3.MultiPattern = _multi_pattern
z3.z3.MultiPattern = _multi_pattern


class Region:
    _n = 0

    def __init__(self, kind, name, size=None, elem=None, esize=None, n=None, writable=True):
        Region._n += 1
        self.id = Region._n
        self.kind = kind          # 'obj' (cells), 'arr' (SMT array), 'fn'
        self.name = name
        self.size = size          # obj: byte size (python int) or None
        self.elem = elem          # arr: element scalar type
        self.esize = esize
        self.n = n                # arr: length
        self.writable = writable
        self.lo = 0

    def __repr__(self):
        return '<%s %s#%d>' % (self.kind, self.name, self.id)


class Off:
    """byte offset c + k*e"""
    __slots__ = ('c', 'k', 'e')

    def __init__(self, c, k=0, e=None):
        if e is not None and isinstance(e, int):
            c += k * e
            e = None
        self.c, self.k, self.e = c, (k if e is not None else 0), e


class Ptr:
    """list of (cond, region-or-None, Off); conditions are exhaustive and exclusive on the paths where it is used"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


def isz0(v):
    return (isinstance(v, int) and not isinstance(v, bool) and v == 0) or (z3.is_bv_value(v) and v.as_long() == 0)


class Addr:
    """result of ptrtoint"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class SInt:
    """i64 value c + k*e (difference of addresses)"""
    __slots__ = ('o',)

    def __init__(self, o):
        self.o = o


class Cat:
    """integer made of adjacent memory cells [(off,size,val)]"""
    __slots__ = ('parts', 'size')

    def __init__(self, parts, size):
        self.parts, self.size = parts, size


class Undef:
    pass


UNDEF = Undef()


def isz(x):
    return isinstance(x, z3.AstRef)


def same_val(a, b):
    """syntactically the same value"""
    if a is b:
        return True
    if isinstance(a, z3.AstRef) and isinstance(b, z3.AstRef):
        return a.eq(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, (int, str, float)):
        return a == b
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, Region):
        return a.id == b.id
    if isinstance(a, (Off, Ptr, Addr, SInt, Cat)):
        return all(same_val(getattr(a, n), getattr(b, n)) for n in a.__slots__)
    return False


def same_mem(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same_val(a[o], b[o]) for o in a)
    return same_val(a, b)


def mn(w):
    return -(1 << (w - 1))


def mx(w):
    return (1 << (w - 1)) - 1


def canon(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def And(*a):
    r = []
    for x in a:
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(*r)


def Or(*a):
    r = []
    for x in a:
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(*r)


def Not(x):
    if x is True:
        return False
    if x is False:
        return True
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if a is True:
        return b
    if a is False or b is True:
        return True
    if b is False:
        return Not(a)
    return z3.Implies(a, b)


def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


class Oblig:
    __slots__ = ('name', 'kind', 'assume', 'guard', 'goal', 'fn', 'n_assume', 'extra')

    def __init__(self, name, kind, n_assume, guard, goal, fn):
        self.name, self.kind, self.n_assume, self.guard, self.goal, self.fn = name, kind, n_assume, guard, goal, fn


FPS = {'float': lambda: z3.Float32(), 'double': lambda: z3.Float64(), 'x86_fp80': lambda: z3.FPSort(15, 64),
       'half': lambda: z3.Float16()}
RNE = z3.RNE()


class Frame:
    __slots__ = ('f', 'env', 'allocas', 'depth')

    def __init__(self, f):
        self.f = f
        self.env = {}
        self.allocas = []


class State:
    """result of executing something: guard + memory"""
    __slots__ = ('g', 'mem')

    def __init__(self, g, mem):
        self.g, self.mem = g, mem


class Ctx:
    def __init__(self, mod, mode, contracts=None, ext=None, demangle=None, max_depth=400, unroll=4096, loops=None,
                 assert_ok=False):
        self.mod = mod
        self.mode = mode
        self.contracts = contracts or (lambda fname: None)
        self.ext = ext or {}
        self.loops = loops or (lambda fname, ordinal: None)
        self.dem = demangle or (lambda s: s)
        self.assume = []          # list of z3 Bool
        self.obls = []
        self.rng = {}
        self.quot = {}
        self.keep = []
        self.fresh_n = 0
        self.ufs = {}
        self.throws = []          # (guard, descr)
        self.stack = []
        self.max_depth = max_depth
        self.unroll = unroll
        self.globals = {}
        self.called = set()       # functions whose body was inlined
        self.used_contracts = set()
        self.trusted = set()
        self.qs = z3.Solver()
        self.qs.set('timeout', 400)
        self.qs_n = 0
        self.cur = None           # contract instance under verification
        self.assert_ok = assert_ok
        self.fnregions = {}
        self.steps = 0
        self.step_limit = 400000
        self.t_end = time.time() + 150
        self.interval_discharged = 0
        self.symdepth = {}
        self.qcache = {}
        self.interesting = set()

    # ---------------------------------------------------------- basics
    def fresh(self, name, ty=None, sort=None):
        self.fresh_n += 1
        nm = '%s!%d' % (name, self.fresh_n)
        if sort is not None:
            return z3.Const(nm, sort)
        return self.tyconst(nm, ty)

    def tyconst(self, nm, ty):
        if ty[0] == 'i':
            if ty[1] == 1:
                return z3.Bool(nm)
            if self.mode == INT:
                v = z3.Int(nm)
                self.setrng(v, mn(ty[1]), mx(ty[1]))
                self.assume.append(z3.And(v >= mn(ty[1]), v <= mx(ty[1])))
                return v
            return z3.BitVec(nm, ty[1])
        if ty[0] in FPS:
            return z3.Const(nm, FPS[ty[0]]())
        raise Unsupported('fresh of type %r' % (ty,))

    def setrng(self, e, lo, hi):
        if isz(e):
            self.keep.append(e)
            i = e.get_id()
            if i in self.rng:
                a, b = self.rng[i]
                lo, hi = max(lo, a), min(hi, b)
            self.rng[i] = (lo, hi)

    def learn(self, e, pos=True):
        """interval facts from an unconditional assumption (x <= const and the like)"""
        if z3.is_not(e):
            return self.learn(e.arg(0), not pos)
        if z3.is_and(e) and pos or z3.is_or(e) and not pos:
            for x in e.children():
                self.learn(x, pos)
            return
        if not (z3.is_le(e) or z3.is_ge(e) or z3.is_lt(e) or z3.is_gt(e)) or e.arg(0).sort() != z3.IntSort():
            return
        a, b = e.arg(0), e.arg(1)
        k = 'le' if z3.is_le(e) else 'ge' if z3.is_ge(e) else 'lt' if z3.is_lt(e) else 'gt'
        if z3.is_int_value(a):
            a, b = b, a
            k = {'le': 'ge', 'ge': 'le', 'lt': 'gt', 'gt': 'lt'}[k]
        if not z3.is_int_value(b) or z3.is_int_value(a):
            return
        if not pos:
            k = {'le': 'gt', 'ge': 'lt', 'lt': 'ge', 'gt': 'le'}[k]
        n = b.as_long()
        big = 1 << 200
        lo, hi = {'le': (-big, n), 'lt': (-big, n - 1), 'ge': (n, big), 'gt': (n + 1, big)}[k]
        if a.get_id() in self.rng:
            self.setrng(a, lo, hi)
        if z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_add(a.arg(1)) and a.arg(1).num_args() == 2 and z3.is_const(a.arg(2)):
            # unsigned view If(x < 0, x + 2^w, x)
            m = [c.as_long() for c in a.arg(1).children() if z3.is_int_value(c)]
            if len(m) == 1 and m[0] > 0 and m[0] & (m[0] - 1) == 0:
                self.setrng(a, max(lo, 0), min(hi, m[0] - 1))
                l2, h2 = self.rng[a.get_id()]
                if h2 < m[0] // 2:
                    self.setrng(a.arg(2), l2, h2)
                elif l2 >= m[0] // 2:
                    self.setrng(a.arg(2), l2 - m[0], h2 - m[0])

    def getrng(self, e, w):
        if isinstance(e, int):
            return e, e
        r = self.rng.get(e.get_id())
        return r if r else (mn(w), mx(w))

    def idxsort(self):
        return z3.IntSort() if self.mode == INT else z3.BitVecSort(64)

    def idx(self, e):
        if isinstance(e, int):
            return z3.IntVal(e) if self.mode == INT else z3.BitVecVal(e, 64)
        return e

    def val(self, e, w):
        if isinstance(e, bool):
            return z3.BoolVal(e)
        if isinstance(e, int):
            return z3.IntVal(e) if self.mode == INT else z3.BitVecVal(e, w)
        return e

    def add_assume(self, e):
        if e is True:
            return
        self.assume.append(B(e))

    def sync_qs(self):
        while self.qs_n < len(self.assume):
            a = self.assume[self.qs_n]
            self.qs_n += 1
            if not has_quant(a):
                self.qs.add(a)

    def valid(self, g, c):
        """quick entailment test, only used for simplification (a 'False' answer is always safe)"""
        if c is True or g is False:
            return True
        if c is False and g is True:
            return False
        self.sync_qs()
        g, c = B(g), B(c)
        self.keep += [g, c]
        key = (g.get_id(), c.get_id(), self.qs_n)
        if key in self.qcache:
            return self.qcache[key]
        r = self.qs.check(g, z3.Not(c)) == z3.unsat
        self.qcache[key] = r
        return r

    def feasible(self, g):
        if isinstance(g, bool):
            return g
        self.sync_qs()
        self.keep.append(g)
        key = ('f', g.get_id(), self.qs_n)
        if key in self.qcache:
            return self.qcache[key]
        r = self.qs.check(g) != z3.unsat
        self.qcache[key] = r
        return r

    def oblige(self, kind, name, g, goal, quick=True):
        if g is False or goal is True:
            self.interval_discharged += 1
            return
        fn = self.stack[-1] if self.stack else ''
        self.obls.append(Oblig(name, kind, len(self.assume), B(g), B(goal), fn))

    # ---------------------------------------------------------- operands
    def op(self, fr, t, v):
        k = v[0]
        if k == 'loc':
            try:
                return fr.env[v[1]]
            except KeyError:
                raise Unsupported('no value for %%%s in %s' % (v[1], fr.f.name))
        return self.const(t, v)

    def const(self, t, v):
        k = v[0]
        t = self.mod.resolve(t) if t[0] == 'named' else t
        if k == 'int':
            if t[1] == 1:
                return bool(v[1] & 1)
            return canon(v[1], t[1])
        if k == 'null':
            return Ptr([(True, None, Off(0))])
        if k == 'undef':
            if t[0] in ('struct', 'array'):
                n = len(t[1]) if t[0] == 'struct' else t[1]
                return [self.const(t[1][i] if t[0] == 'struct' else t[2], v) for i in range(n)]
            return UNDEF
        if k == 'zero':
            if t[0] == 'struct':
                return [self.const(x, v) for x in t[1]]
            if t[0] == 'array':
                return [self.const(t[2], v) for _ in range(t[1])]
            if t[0] == 'i':
                return False if t[1] == 1 else 0
            if t[0] == 'ptr':
                return self.const(t, ('null',))
            if t[0] in FPS:
                return z3.FPVal(0, FPS[t[0]]())
            raise Unsupported('zero %r' % (t,))
        if k == 'fp':
            return self.fpconst(t, v[1])
        if k == 'glob':
            return Ptr([(True, self.global_region(v[1]), Off(0))])
        if k == 'agg':
            return [self.const(a, b) for a, b in v[1]]
        if k == 'cstr':
            return [canon(x, 8) for x in v[1]]
        if k == 'cgep':
            ops = v[2]
            base = self.const(ops[0][0], ops[0][1])
            return self.gep(True, v[1], base, [(a, self.const(a, b)) for a, b in ops[1:]], False)
        if k == 'ccast':
            return self.cast(True, v[1], v[2], self.const(v[2], v[3]), v[4])
        if k == 'cbin':
            return self.binop(True, v[1], v[2], self.const(v[2], v[3]), self.const(v[2], v[4]), set())
        raise Unsupported('const %r' % (v,))

    def fpconst(self, t, s):
        import struct
        srt = FPS[t[0]]()
        if s.startswith('0xK'):
            b = int(s[3:], 16)
            sign, exp, sig = b >> 79, (b >> 64) & 0x7fff, b & ((1 << 64) - 1)
            return z3.simplify(z3.fpFP(z3.BitVecVal(sign, 1), z3.BitVecVal(exp, 15),
                                       z3.BitVecVal(sig & ((1 << 63) - 1), 63))) if False else \
                self.fp80(sign, exp, sig)
        if s.startswith('0x'):
            b = int(s[2:], 16)
        else:
            b = struct.unpack('<Q', struct.pack('<d', float(s)))[0]
        d = z3.fpBVToFP(z3.BitVecVal(b, 64), z3.Float64())
        if t[0] == 'double':
            return z3.simplify(d)
        return z3.simplify(z3.fpFPToFP(RNE, d, srt))

    def fp80(self, sign, exp, sig):
        # x86_fp80 with explicit integer bit -> FPSort(15,64)
        return z3.simplify(z3.fpFP(z3.BitVecVal(sign, 1), z3.BitVecVal(exp, 15), z3.BitVecVal(sig & ((1 << 63) - 1), 63)))

    def global_region(self, name):
        if name in self.globals:
            return self.globals[name]
        if name in self.mod.funcs or name in self.mod.decls:
            r = Region('fn', name)
            self.globals[name] = r
            return r
        g = self.mod.globals.get(name)
        if g is None or g.ty is None:
            r = Region('obj', name, size=None, writable=False)
            self.globals[name] = r
            self.gcells = getattr(self, 'gcells', {})
            self.gcells[r.id] = {}
            return r
        r = Region('obj', name, size=self.mod.size(g.ty), writable=not g.const)
        self.globals[name] = r
        self.gcells = getattr(self, 'gcells', {})
        cells = {}
        if g.init is not None and g.const:
            self.fill(cells, 0, g.ty, self.const(g.ty, g.init))
        elif g.init is not None and not g.const:
            # mutable global: contents unknown unless the harness owns it
            cells = {}
        self.gcells[r.id] = cells
        return r

    def fill(self, cells, off, t, v):
        t = self.mod.resolve(t)
        if t[0] in ('struct', 'array'):
            n = len(t[1]) if t[0] == 'struct' else t[1]
            for i in range(n):
                o, x = self.mod.field_off(t, i)
                self.fill(cells, off + o, x, v[i])
            return
        cells[off] = (self.mod.size(t), v, t)

    # ---------------------------------------------------------- merge
    def ite(self, c, a, b, ty=None):
        if c is True:
            return a
        if c is False:
            return b
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return self.mergeptr([(c, a), (Not(c), b)])
        if isinstance(a, Addr) and isinstance(b, Addr):
            return Addr(self.mergeptr([(c, a.p), (Not(c), b.p)]))
        if isinstance(a, Addr) and isz0(b):
            b = Addr(Ptr([(True, None, Off(0))]))
            return self.ite(c, a, b)
        if isinstance(b, Addr) and isz0(a):
            return self.ite(c, Addr(Ptr([(True, None, Off(0))])), b)
        if isinstance(a, (Addr, Ptr)) or isinstance(b, (Addr, Ptr)):
            raise Unsupported('merge pointer with integer')
        if isinstance(a, Cat) and isinstance(b, Cat):
            if [p[:2] for p in a.parts] == [p[:2] for p in b.parts]:
                return Cat([(p[0], p[1], self.ite(c, p[2], q[2])) for p, q in zip(a.parts, b.parts)], a.size)
            a, b = self.plain(a, 8 * a.size), self.plain(b, 8 * b.size)
        if isinstance(a, Cat):
            a = self.plain(a, 8 * a.size)
        if isinstance(b, Cat):
            b = self.plain(b, 8 * b.size)
        if isinstance(a, SInt) or isinstance(b, SInt):
            if isinstance(a, SInt) and isinstance(b, SInt) and a.o.k == b.o.k and a.o.c == b.o.c:
                return SInt(Off(a.o.c, a.o.k, z3.If(c, self.idx(a.o.e), self.idx(b.o.e))))
            a, b = self.plain(a, 64), self.plain(b, 64)
        if isinstance(a, list):
            return [self.ite(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, bool) or isinstance(b, bool) or (isz(a) and z3.is_bool(a)):
            if isinstance(a, bool) and isinstance(b, bool) and a == b:
                return a
            if a is True:
                return Or(c, b)
            if a is False:
                return And(Not(c), b)
            if b is True:
                return Or(Not(c), a)
            if b is False:
                return And(c, a)
            return z3.If(c, B(a), B(b))
        if isinstance(a, int) and isinstance(b, int):
            if a == b:
                return a
            if self.mode == INT:
                r = z3.If(c, z3.IntVal(a), z3.IntVal(b))
                self.setrng(r, min(a, b), max(a, b))
                return r
            if ty is None:
                raise Unsupported('ite width')
            return z3.If(c, z3.BitVecVal(a, ty[1]), z3.BitVecVal(b, ty[1]))
        if isinstance(a, int):
            a2 = z3.IntVal(a) if self.mode == INT else z3.BitVecVal(a, b.size())
            b2 = b
        elif isinstance(b, int):
            b2 = z3.IntVal(b) if self.mode == INT else z3.BitVecVal(b, a.size())
            a2 = a
        else:
            a2, b2 = a, b
        if a2.eq(b2):
            return a2
        r = z3.If(c, a2, b2)
        if self.mode == INT and z3.is_int(r):
            la = (a, a) if isinstance(a, int) else self.rng.get(a.get_id())
            lb = (b, b) if isinstance(b, int) else self.rng.get(b.get_id())
            if la and lb:
                self.setrng(r, min(la[0], lb[0]), max(la[1], lb[1]))
        return r

    def mergeptr(self, gs):
        by = {}
        for c, p in gs:
            for c2, r, o in p.alts:
                cc = And(c, c2)
                if cc is False:
                    continue
                by.setdefault(None if r is None else r.id, []).append((cc, r, o))
        alts = []
        for k, l in by.items():
            c0, r, o = l[0]
            for c1, _, o1 in l[1:]:
                o = self.iteoff(c1, o1, o)
                c0 = Or(c0, c1)
            alts.append((c0, r, o))
        if len(alts) == 1:
            alts = [(True, alts[0][1], alts[0][2])]
        return Ptr(alts)

    def iteoff(self, c, a, b):
        if a.c == b.c and a.k == b.k and (a.e is b.e or (isz(a.e) and isz(b.e) and a.e.eq(b.e))):
            return a
        from math import gcd
        # bring to common c, k
        if a.k == 0 and b.k == 0:
            k = abs(a.c - b.c)
            return Off(b.c, a.c - b.c, z3.If(c, self.idx(1), self.idx(0))) if False else \
                self._iteoff(c, a, b, gcd(a.c, b.c) or 1)
        g = gcd(a.k, b.k)
        return self._iteoff(c, a, b, gcd(gcd(g, a.c), b.c) or 1)

    def _iteoff(self, c, a, b, g):
        ea, eb = self.offidx(a, g), self.offidx(b, g)
        return Off(0, g, z3.If(c, self.idx(ea), self.idx(eb)))

    def offidx(self, o, s):
        """offset divided by s (must divide)"""
        if o.c % s or o.k % s:
            raise Unsupported('misaligned offset c=%d k=%d / %d' % (o.c, o.k, s))
        if o.e is None:
            return o.c // s
        m = o.k // s
        e = o.e if m == 1 else o.e * m
        c = o.c // s
        return e if c == 0 else e + c

    def offadd(self, a, b):
        from math import gcd
        if a.e is None:
            return Off(a.c + b.c, b.k, b.e)
        if b.e is None:
            return Off(a.c + b.c, a.k, a.e)
        g = gcd(a.k, b.k)
        ea = a.e if a.k == g else a.e * (a.k // g)
        eb = b.e if b.k == g else b.e * (b.k // g)
        return Off(a.c + b.c, g, z3.simplify(ea + eb))

    def offneg(self, a):
        return Off(-a.c, a.k, None if a.e is None else -a.e)

    def offsub(self, a, b):
        from math import gcd
        if b.e is None:
            return Off(a.c - b.c, a.k, a.e)
        if a.e is None:
            return Off(a.c - b.c, b.k, z3.simplify(-b.e))
        g = gcd(a.k, b.k)
        ea = a.e if a.k == g else a.e * (a.k // g)
        eb = b.e if b.k == g else b.e * (b.k // g)
        return Off(a.c - b.c, g, z3.simplify(ea - eb))

    def same_layout(self, cs):
        """split cells of different versions of an object at each other's boundaries"""
        lay = {tuple(sorted((o, x[0]) for o, x in c.items())) for _, c in cs}
        if len(lay) == 1:
            return cs
        cuts = sorted({b for l in lay for o, s in l for b in (o, o + s)})
        out = []
        for g, c in cs:
            n = None
            for o, x in c.items():
                lo, hi = bisect.bisect_right(cuts, o), bisect.bisect_left(cuts, o + x[0])
                if lo < hi:
                    pts = [o] + cuts[lo:hi] + [o + x[0]]
                    try:
                        pieces = [(a, (b - a, self.b2i(self.subval(x[1], x[0], a - o, b - a), b - a), None)) for a, b in zip(pts, pts[1:])]
                    except Unsupported:
                        continue
                    n = dict(c) if n is None else n
                    del n[o]
                    n.update(pieces)
            out.append((g, c if n is None else n))
        return out

    def merge_mem(self, edges):
        if len(edges) == 1:
            return dict(edges[0][1])
        ids = set()
        for g, m in edges:
            ids |= m.keys()
        out = {}
        for i in ids:
            cs = [(g, m[i]) for g, m in edges if i in m]
            c0 = cs[0][1]
            if all(c is c0 for _, c in cs):
                out[i] = c0
                continue
            if isinstance(c0, dict):
                cs = self.same_layout(cs)
                c0 = cs[0][1]
                offs = {}
                for _, c in cs:
                    for o, x in c.items():
                        offs.setdefault(o, set()).add(x[0])
                new = {}
                for o, sizes in offs.items():
                    if len(sizes) != 1:
                        # incompatible layouts in a dead union/variant storage: poison
                        new[o] = (max(sizes), None, None)
                        continue
                    sz = sizes.pop()
                    acc = None
                    first = True
                    ty = None
                    for g, c in reversed(cs):
                        x = c.get(o)
                        v = UNDEF if x is None else x[1]
                        t = None if x is None else x[2]
                        ty = ty or t
                        if first:
                            acc, first = v, False
                        elif acc is v:
                            continue
                        elif acc is None or v is None:
                            acc = None
                        else:
                            try:
                                acc = self.ite(g, v, acc, ('i', 8 * sz))
                            except Unsupported:
                                acc = None
                    new[o] = (sz, acc, ty)
                out[i] = new
            else:
                acc = cs[-1][1]
                for g, c in reversed(cs[:-1]):
                    acc = acc if acc is c or acc.eq(c) else z3.If(B(g), c, acc)
                out[i] = acc
        return out

    # ---------------------------------------------------------- plain ints
    def plain(self, v, w):
        if v is UNDEF:
            return self.fresh('undef', ('i', w))
        if isinstance(v, SInt):
            o = v.o
            if o.e is None:
                return o.c
            e = o.e * o.k if o.k != 1 else o.e
            e = e + o.c if o.c else e
            return e
        if isinstance(v, Cat):
            if self.mode == BV:
                parts = sorted(v.parts, key=lambda p: -p[0])
                l = [self.bvbytes(p[2], p[1]) for p in parts]
                return z3.simplify(z3.Concat(*l)) if len(l) > 1 else l[0]
            acc = 0
            parts = sorted(v.parts)
            for i, (o, s, x) in enumerate(parts):
                x = self.plain(x, 8 * s)
                if i < len(parts) - 1:
                    x = self.uns(True, x, 8 * s)
                acc = acc + x * (1 << (8 * o))
            return acc
        if isinstance(v, (Addr, Ptr)):
            raise Unsupported('pointer used as integer')
        return v

    def bvbytes(self, v, size):
        v = self.plain(v, 8 * size)
        if isinstance(v, bool):
            return z3.BitVecVal(int(v), 8 * size)
        if isinstance(v, int):
            return z3.BitVecVal(v, 8 * size)
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, 8 * size), z3.BitVecVal(0, 8 * size))
        if z3.is_fp(v):
            return fpbits(v)
        return v

    def uns(self, g, x, w):
        """unsigned view in int mode"""
        if isinstance(x, int):
            return x & ((1 << w) - 1)
        lo, hi = self.getrng(x, w)
        if lo >= 0:
            return x
        if self.valid(g, x >= 0):
            return x
        r = z3.If(x < 0, x + (1 << w), x)
        self.setrng(r, 0, (1 << w) - 1)
        return r

    def wrap(self, g, e, w, lo, hi):
        """canonical signed representation of math integer e with known interval"""
        if isinstance(e, int):
            return canon(e, w)
        if lo >= mn(w) and hi <= mx(w):
            self.setrng(e, lo, hi)
            return e
        if self.valid(g, z3.And(e >= mn(w), e <= mx(w))):
            return e
        M = 1 << w
        if lo >= mn(w) - M and hi <= mx(w) + M:
            r = e
            if hi > mx(w):
                r = z3.If(e > mx(w), e - M, r)
            if lo < mn(w):
                r = z3.If(e < mn(w), e + M, r)
        else:
            u = e % M
            r = z3.If(u > mx(w), u - M, u)
        self.setrng(r, mn(w), mx(w))
        return r

    def wrapu(self, g, e, w):
        """e is a non-negative value < 2^w in unsigned view -> canonical signed"""
        if isinstance(e, int):
            return canon(e, w)
        lo, hi = self.rng.get(e.get_id(), (0, (1 << w) - 1))
        if hi <= mx(w):
            return e
        if self.valid(g, e <= mx(w)):
            return e
        r = z3.If(e > mx(w), e - (1 << w), e)
        self.setrng(r, mn(w), mx(w))
        return r

    # ---------------------------------------------------------- arithmetic
    def binop(self, g, op, t, a, b, fl):
        if t[0] in FPS:
            return self.fpbin(op, a, b)
        if t[0] != 'i':
            raise Unsupported('binop on %r' % (t,))
        w = t[1]
        if w == 1:
            a = self.fresh('undef', t) if a is UNDEF else a
            b = self.fresh('undef', t) if b is UNDEF else b
            if op == 'and':
                return And(a, b)
            if op == 'or':
                return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, bool) and isinstance(b, bool):
                    return a != b
                if a is False:
                    return b
                if b is False:
                    return a
                if a is True:
                    return Not(b)
                if b is True:
                    return Not(a)
                return z3.Xor(B(a), B(b))
            raise Unsupported('i1 ' + op)
        # pointer differences
        if isinstance(a, Addr) or isinstance(b, Addr):
            return self.addrop(g, op, a, b, w)
        if isinstance(a, SInt) or isinstance(b, SInt):
            r = self.sintop(g, op, a, b, w)
            if r is not None:
                return r
        if isinstance(a, Cat) or isinstance(b, Cat):
            r = self.catop(op, a, b, w)
            if r is not None:
                return r
        a, b = self.plain(a, w), self.plain(b, w)
        if isinstance(a, int) and isinstance(b, int):
            return self.cbinop(g, op, w, a, b, fl)
        if self.mode == BV:
            return self.bvbin(g, op, w, a, b, fl)
        return self.intbin(g, op, w, a, b, fl)

    def addrop(self, g, op, a, b, w):
        if op == 'sub' and isinstance(a, Addr) and isinstance(b, Addr):
            pa, pb = a.p, b.p
            res = None
            for ca, ra, oa in pa.alts:
                for cb, rb, ob in pb.alts:
                    c = And(ca, cb)
                    if c is False:
                        continue
                    same = (ra is rb)
                    if not same:
                        self.oblige('ptr', 'pointer difference within one object', And(g, c), False)
                        continue
                    s = self.offsub(oa, ob)
                    v = SInt(s) if s.e is not None else s.c
                    res = v if res is None else self.ite(c, v, res, ('i', 64))
            if res is None:
                raise Unsupported('pointer difference')
            return res
        raise Unsupported('address arithmetic ' + op)

    def sintop(self, g, op, a, b, w):
        if op in ('sdiv', 'udiv') and isinstance(a, SInt) and isinstance(b, int) and b > 0:
            o = a.o
            if o.c % b == 0 and o.k % b == 0 and op == 'sdiv':
                c, k, e = o.c // b, o.k // b, o.e
                e = e * k if k != 1 else e
                e = e + c if c else e
                if self.mode == INT:
                    self.setrng(e, -(1 << 61), 1 << 61)
                return e
        if op == 'ashr' and isinstance(a, SInt) and isinstance(b, int):
            return self.sintop(g, 'sdiv', a, 1 << b, w)
        if op == 'mul' and isinstance(a, SInt) and isinstance(b, int):
            return SInt(Off(a.o.c * b, a.o.k * b, a.o.e))
        if op in ('add', 'sub'):
            oa = a.o if isinstance(a, SInt) else Off(a) if isinstance(a, int) else None
            ob = b.o if isinstance(b, SInt) else Off(b) if isinstance(b, int) else None
            if oa is not None and ob is not None:
                r = self.offadd(oa, ob) if op == 'add' else self.offsub(oa, ob)
                return SInt(r) if r.e is not None else r.c
        return None

    def catop(self, op, a, b, w):
        if op in ('lshr', 'ashr') and isinstance(a, Cat) and isinstance(b, int) and b % 8 == 0 and b > 0:
            k = b // 8
            parts = [(o - k, s, v) for o, s, v in a.parts if o >= k]
            if sum(p[1] for p in parts) == a.size - k and op == 'lshr':
                parts.append((a.size - k, k, 0))
                return Cat(parts, a.size)
        if op == 'or' and isinstance(a, Cat) and isinstance(b, Cat):
            # merge zero parts
            if [p[:2] for p in sorted(a.parts)] == [p[:2] for p in sorted(b.parts)]:
                parts = []
                for p, q in zip(sorted(a.parts), sorted(b.parts)):
                    if isinstance(p[2], int) and p[2] == 0:
                        parts.append(q)
                    elif isinstance(q[2], int) and q[2] == 0:
                        parts.append(p)
                    else:
                        return None
                return Cat(parts, a.size)
        if op == 'shl' and isinstance(a, Cat) and isinstance(b, int) and b % 8 == 0:
            k = b // 8
            parts = [(o + k, s, v) for o, s, v in a.parts if o + k < a.size]
            if all(o + s <= a.size for o, s, _ in parts):
                parts.append((0, k, 0))
                return Cat(parts, a.size)
        if op == 'and' and isinstance(a, Cat) and isinstance(b, int):
            parts = []
            m = b & ((1 << w) - 1)
            for o, s, v in sorted(a.parts):
                mm = (m >> (8 * o)) & ((1 << 8 * s) - 1)
                if mm == 0:
                    parts.append((o, s, 0))
                elif mm == (1 << 8 * s) - 1:
                    parts.append((o, s, v))
                else:
                    return None
            return Cat(parts, a.size)
        return None

    def cbinop(self, g, op, w, a, b, fl):
        M = (1 << w) - 1
        ua, ub = a & M, b & M
        if op in ('add', 'sub', 'mul'):
            r = a + b if op == 'add' else a - b if op == 'sub' else a * b
            if 'nsw' in fl and not (mn(w) <= r <= mx(w)):
                self.oblige('overflow', 'no signed overflow in ' + op, g, False)
            ur = ua + ub if op == 'add' else ua - ub if op == 'sub' else ua * ub
            if 'nuw' in fl and not (0 <= ur <= M):
                self.oblige('overflow', 'no unsigned overflow in ' + op, g, False)
            return canon(r, w)
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            if b == 0:
                self.oblige('div', 'divisor non-zero', g, False)
                return self.fresh('div0', ('i', w))
            if op[0] == 'u':
                return canon(ua // ub if op == 'udiv' else ua % ub, w)
            if a == mn(w) and b == -1:
                self.oblige('overflow', 'no overflow in division', g, False)
            q = abs(a) // abs(b)
            q = q if (a < 0) == (b < 0) else -q
            return canon(q if op == 'sdiv' else a - q * b, w)
        if op in ('shl', 'lshr', 'ashr'):
            if not 0 <= ub < w:
                self.oblige('shift', 'shift amount below the width', g, False)
                return self.fresh('badshift', ('i', w))
            if op == 'shl':
                r = a << ub
                if 'nsw' in fl and not (mn(w) <= r <= mx(w)):
                    self.oblige('overflow', 'no signed overflow in shl', g, False)
                return canon(r, w)
            return canon(ua >> ub, w) if op == 'lshr' else a >> ub
        if op == 'and':
            return canon(ua & ub, w)
        if op == 'or':
            return canon(ua | ub, w)
        if op == 'xor':
            return canon(ua ^ ub, w)
        raise Unsupported(op)

    def bvbin(self, g, op, w, a, b, fl):
        A, Bv = self.val(a, w), self.val(b, w)
        if op in ('add', 'sub', 'mul'):
            r = A + Bv if op == 'add' else A - Bv if op == 'sub' else A * Bv
            if 'nsw' in fl:
                if op == 'add':
                    ok = z3.And(z3.BVAddNoOverflow(A, Bv, True), z3.BVAddNoUnderflow(A, Bv))
                elif op == 'sub':
                    ok = z3.And(z3.BVSubNoOverflow(A, Bv), z3.BVSubNoUnderflow(A, Bv, True))
                else:
                    ok = z3.And(z3.BVMulNoOverflow(A, Bv, True), z3.BVMulNoUnderflow(A, Bv))
                self.oblige('overflow', 'no signed overflow in ' + op, g, ok)
            return r
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            if not isinstance(b, int) or b == 0:
                self.oblige('div', 'divisor non-zero', g, Bv != 0)
            if op in ('sdiv', 'srem') and not (isinstance(b, int) and b != -1):
                self.oblige('overflow', 'no overflow in division', g, z3.Not(z3.And(A == mn(w), Bv == -1)))
            return {'sdiv': lambda: A / Bv, 'srem': lambda: z3.SRem(A, Bv), 'udiv': lambda: z3.UDiv(A, Bv),
                    'urem': lambda: z3.URem(A, Bv)}[op]()
        if op in ('shl', 'lshr', 'ashr'):
            if not (isinstance(b, int) and 0 <= b < w):
                self.oblige('shift', 'shift amount below the width', g, z3.ULT(Bv, w))
            if op == 'shl':
                r = A << Bv
                if 'nsw' in fl:
                    self.oblige('overflow', 'no signed overflow in shl', g, (r >> Bv) == A)
                return r
            return z3.LShR(A, Bv) if op == 'lshr' else A >> Bv
        if op == 'and':
            return A & Bv
        if op == 'or':
            return A | Bv
        if op == 'xor':
            return A ^ Bv
        raise Unsupported(op)

    def intbin(self, g, op, w, a, b, fl):
        la, ha = self.getrng(a, w)
        lb, hb = self.getrng(b, w)
        if op in ('add', 'sub', 'mul'):
            if op == 'add':
                e, lo, hi = a + b, la + lb, ha + hb
            elif op == 'sub':
                e, lo, hi = a - b, la - hb, ha - lb
            else:
                e = a * b
                c = [la * lb, la * hb, ha * lb, ha * hb]
                lo, hi = min(c), max(c)
            if 'nsw' in fl:
                if lo < mn(w) or hi > mx(w):
                    self.oblige('overflow', 'no signed overflow in ' + op, g, z3.And(e >= mn(w), e <= mx(w)))
                else:
                    self.interval_discharged += 1
                self.setrng(e, max(lo, mn(w)), min(hi, mx(w)))
                if 'nuw' in fl:
                    self.oblige('overflow', 'no unsigned overflow in ' + op, g, e >= 0)
                return e
            return self.wrap(g, e, w, lo, hi)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not isinstance(b, int) or b == 0:
                self.oblige('div', 'divisor non-zero', g, b != 0 if isz(b) else (b != 0))
            if op[0] == 'u':
                ua, ub = self.uns(g, a, w), self.uns(g, b, w)
                d = self.quot.get(ua.get_id()) if isz(ua) and isinstance(ub, int) and ub > 0 else None
                if op == 'udiv' and d is not None and d[1] == 'u':   # (x / c) / b == x / (c * b)
                    ua, ub = d[2], d[3] * ub
                    b = ub
                ula, uha = self.urng(ua, w)
                if op == 'udiv':
                    e = ua / ub if isz(ua) else z3.IntVal(ua) / ub
                    if isinstance(b, int) and b > 0:
                        if ula // b == uha // b:
                            return canon(ula // b, w)
                        self.setrng(e, ula // b, uha // b)
                        self.quot[e.get_id()] = (e, 'u', ua, b)
                    else:
                        self.setrng(e, 0, uha)
                else:
                    e = ua % ub if isz(ua) else z3.IntVal(ua) % ub
                    self.setrng(e, 0, (self.urng(ub, w)[1]))
                return self.wrapu(g, e, w)
            if not (isinstance(b, int) and b != -1):
                self.oblige('overflow', 'no overflow in division', g, z3.Not(z3.And(self.val(a, w) == mn(w), self.val(b, w) == -1)))
            d = self.quot.get(a.get_id()) if op == 'sdiv' and isz(a) and isinstance(b, int) and b > 0 else None
            if d is not None and d[1] == 's':   # (x / c) / b == x / (c * b), truncating
                a, b = d[2], d[3] * b
                la, ha = self.getrng(a, w)
            A, Bz = self.val(a, w), (z3.IntVal(b) if isinstance(b, int) else self.val(b, w))
            apos = la >= 0 or self.valid(g, A >= 0)
            bpos = lb > 0 or self.valid(g, Bz > 0)
            absb = Bz if bpos else z3.If(Bz < 0, -Bz, Bz)
            if apos:
                q = A / absb
                q = q if bpos else z3.If(Bz < 0, -q, q)
                r = A % absb
            elif ha <= 0 and isinstance(b, int) and b > 0:
                q = -((-A) / absb)
                r = -((-A) % absb)
            else:
                absa = z3.If(A < 0, -A, A)
                q0 = absa / absb
                q = z3.If(A < 0, -q0, q0) if bpos else z3.If((A < 0) != (Bz < 0), -q0, q0)
                r0 = absa % absb
                r = z3.If(A < 0, -r0, r0)
            if op == 'sdiv':
                m = max(abs(la), abs(ha))
                if isinstance(b, int) and b > 0:
                    t = lambda x: x // b if x >= 0 else -(-x // b)
                    if t(la) == t(ha):
                        return t(la)
                    self.setrng(q, t(la), t(ha))
                    self.quot[q.get_id()] = (q, 's', a, b)
                else:
                    self.setrng(q, 0 if (apos and bpos) else -m, m)
                return q
            mb = max(abs(lb), abs(hb)) - 1
            self.setrng(r, 0 if apos else -mb, mb)
            return r
        if op in ('shl', 'lshr', 'ashr'):
            if not isinstance(b, int):
                raise Unsupported('symbolic shift in int mode')
            if not 0 <= b < w:
                self.oblige('shift', 'shift amount below the width', g, False)
                return self.fresh('badshift', ('i', w))
            if op == 'shl':
                return self.intbin(g, 'mul', w, a, 1 << b, fl) if b < w - 1 else self.wrap(g, a * (1 << b), w, mn(w) << b, mx(w) << b)
            if op == 'ashr':
                e = a / (1 << b)
                self.setrng(e, la >> b, ha >> b)
                return e
            ua = self.uns(g, a, w)
            e = ua / (1 << b)
            l2, h2 = self.urng(ua, w)
            self.setrng(e, l2 >> b, h2 >> b)
            return self.wrapu(g, e, w)
        if op in ('and', 'or', 'xor'):
            if isinstance(a, int) and not isinstance(b, int):
                a, b = b, a
                la, ha = self.getrng(a, w)
            if isinstance(b, int):
                if op == 'xor' and b == -1:
                    e = -1 - a
                    self.setrng(e, -1 - ha, -1 - la)
                    return e
                if op == 'xor' and b == 0 or op == 'or' and b == 0 or op == 'and' and b == -1:
                    return a
                if op == 'and' and b == 0:
                    return 0
                if op == 'and' and b > 0 and (b & (b + 1)) == 0:
                    if la >= 0 and ha <= b:
                        return a
                    e = a % (b + 1)
                    self.setrng(e, 0, b)
                    return e
                if op == 'and' and b < 0 and ((-b) & (-b - 1)) == 0:
                    e = a - a % (-b)
                    self.setrng(e, (la // -b) * -b, ha)
                    return e
            # bit-blast generically
            x = z3.Int2BV(self.val(a, w), w)
            y = z3.Int2BV(self.val(b, w), w)
            r = x & y if op == 'and' else x | y if op == 'or' else x ^ y
            e = z3.BV2Int(r, True)
            lo, hi = mn(w), mx(w)
            if la >= 0 and lb >= 0:
                lo = 0
                hi = min(ha, hb) if op == 'and' else (1 << max(ha.bit_length(), hb.bit_length())) - 1
            self.setrng(e, lo, hi)
            return e
        raise Unsupported(op)

    def urng(self, e, w):
        if isinstance(e, int):
            return e, e
        r = self.rng.get(e.get_id(), (0, (1 << w) - 1))
        return max(0, r[0]), r[1]

    def fpbin(self, op, a, b):
        if op == 'fadd':
            return z3.fpAdd(RNE, a, b)
        if op == 'fsub':
            return z3.fpSub(RNE, a, b)
        if op == 'fmul':
            return z3.fpMul(RNE, a, b)
        if op == 'fdiv':
            return z3.fpDiv(RNE, a, b)
        raise Unsupported(op)

    def icmp(self, g, pred, t, a, b):
        if t[0] == 'ptr' or isinstance(a, Addr) or isinstance(b, Addr):
            return self.pcmp(g, pred, a, b)
        w = t[1]
        if w == 1:
            a, b = B(a), B(b)
            if pred == 'eq':
                return simp(a == b)
            if pred == 'ne':
                return simp(a != b)
            raise Unsupported('i1 icmp ' + pred)
        if isinstance(a, SInt) or isinstance(b, SInt):
            oa = a.o if isinstance(a, SInt) else Off(a) if isinstance(a, int) else None
            ob = b.o if isinstance(b, SInt) else Off(b) if isinstance(b, int) else None
            if oa is not None and ob is not None and pred in ('eq', 'ne', 'slt', 'sle', 'sgt', 'sge'):
                return self.offcmp(pred, oa, ob)
        a, b = self.plain(a, w), self.plain(b, w)
        if isinstance(a, int) and isinstance(b, int):
            M = (1 << w) - 1
            if pred[0] == 'u':
                a, b = a & M, b & M
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[
                pred if pred in ('eq', 'ne') else pred[1:]]
        if self.mode == BV:
            A, C = self.val(a, w), self.val(b, w)
            return {'eq': lambda: A == C, 'ne': lambda: A != C, 'slt': lambda: A < C, 'sle': lambda: A <= C,
                    'sgt': lambda: A > C, 'sge': lambda: A >= C, 'ult': lambda: z3.ULT(A, C),
                    'ule': lambda: z3.ULE(A, C), 'ugt': lambda: z3.UGT(A, C), 'uge': lambda: z3.UGE(A, C)}[pred]()
        if pred[0] == 'u':
            a, b = self.uns(g, a, w), self.uns(g, b, w)
            pred = 's' + pred[1:]
            ra, rb = self.urng(a, w), self.urng(b, w)
        else:
            ra, rb = self.getrng(a, w), self.getrng(b, w)
        if pred in ('eq', 'ne') and (ra[1] < rb[0] or rb[1] < ra[0]):
            return pred == 'ne'
        if pred == 'slt' or pred == 'sge':
            if ra[1] < rb[0]:
                return pred == 'slt'
            if ra[0] >= rb[1]:
                return pred == 'sge'
        if pred == 'sgt' or pred == 'sle':
            if ra[0] > rb[1]:
                return pred == 'sgt'
            if ra[1] <= rb[0]:
                return pred == 'sle'
        return {'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b,
                'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()

    def offcmp(self, pred, oa, ob):
        if oa.e is None and ob.e is None:
            a, b = oa.c, ob.c
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[
                pred if pred in ('eq', 'ne') else pred[1:]]
        from math import gcd
        g = gcd(gcd(oa.k, ob.k), gcd(oa.c, ob.c)) or 1
        a, b = self.idx(self.offidx(oa, g)), self.idx(self.offidx(ob, g))
        p = pred if pred in ('eq', 'ne') else pred[1:]
        return simp({'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b,
                     'gt': lambda: a > b, 'ge': lambda: a >= b}[p]())

    def pcmp(self, g, pred, a, b):
        if isinstance(a, Addr):
            a = a.p
        if isinstance(b, Addr):
            b = b.p
        if a is UNDEF or b is UNDEF:
            return self.fresh('undef', ('i', 1))
        if isinstance(a, int) and a == 0:
            a = Ptr([(True, None, Off(0))])
        if isinstance(b, int) and b == 0:
            b = Ptr([(True, None, Off(0))])
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise Unsupported('pointer compare')
        res = None
        for ca, ra, oa in a.alts:
            for cb, rb, ob in b.alts:
                c = And(ca, cb)
                if c is False:
                    continue
                if ra is rb:
                    v = self.offcmp(pred, oa, ob)
                elif pred in ('eq', 'ne'):
                    v = pred == 'ne'
                else:
                    self.oblige('ptr', 'ordered pointer comparison within one object', And(g, c), False)
                    v = False
                res = v if res is None else self.ite(c, v, res)
        return res

    def fcmp(self, pred, a, b):
        uno = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        base = {'eq': lambda: z3.fpEQ(a, b), 'ne': lambda: z3.Not(z3.fpEQ(a, b)), 'lt': lambda: z3.fpLT(a, b),
                'le': lambda: z3.fpLEQ(a, b), 'gt': lambda: z3.fpGT(a, b), 'ge': lambda: z3.fpGEQ(a, b)}
        if pred == 'uno':
            return uno
        if pred == 'ord':
            return z3.Not(uno)
        if pred == 'true':
            return True
        if pred == 'false':
            return False
        r = base[pred[1:]]()
        if pred[0] == 'o':
            return z3.And(z3.Not(uno), r) if pred == 'one' else r
        return z3.Or(uno, r)

    def cast(self, g, op, t, v, t2):
        if (isinstance(v, bool) or (isz(v) and z3.is_bool(v))) and t[0] == 'i' and t[1] != 1 and op in ('trunc', 'zext', 'sext'):
            if t2 == ('i', 1):
                return v
            v = self.cast(g, 'zext', ('i', 1), v, t)
        if op == 'bitcast':
            if t == t2:
                return v
            if t[0] in FPS and t2[0] == 'i':
                return fpbits(v)
            if t2[0] == 'x86_fp80':
                raise Unsupported('fp80 reinterpretation')
            if t2[0] in FPS and t[0] == 'i':
                return z3.fpBVToFP(self.val(self.plain(v, t[1]), t[1]), FPS[t2[0]]())
            if t[0] == 'ptr' and t2[0] == 'ptr':
                return v
            raise Unsupported('bitcast')
        if op == 'ptrtoint':
            return Addr(v)
        if op == 'inttoptr':
            if isinstance(v, Addr):
                return v.p
            if isinstance(v, int) and v == 0:
                return Ptr([(True, None, Off(0))])
            if isinstance(v, Cat) and len(v.parts) == 1:
                return v.parts[0][2]
            raise Unsupported('inttoptr')
        if op in ('fptrunc', 'fpext'):
            return z3.fpFPToFP(RNE, v, FPS[t2[0]]())
        if op in ('sitofp', 'uitofp'):
            if t[1] == 1:
                x = z3.If(B(v), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
                return z3.fpUnsignedToFP(RNE, x, FPS[t2[0]]()) if op == 'uitofp' else z3.fpSignedToFP(RNE, x, FPS[t2[0]]())
            v = self.plain(v, t[1])
            if isinstance(v, int):
                return z3.FPVal(v if op == 'sitofp' else v & ((1 << t[1]) - 1), FPS[t2[0]]())
            if self.mode == INT:
                raise Unsupported('int to fp in int mode')
            return z3.fpSignedToFP(RNE, v, FPS[t2[0]]()) if op == 'sitofp' else z3.fpUnsignedToFP(RNE, v, FPS[t2[0]]())
        if op in ('fptosi', 'fptoui'):
            if self.mode == INT:
                raise Unsupported('fp to int in int mode')
            w = t2[1]
            srt = z3.BitVecSort(w)
            rz = z3.RTZ()
            # in-range obligation
            fs = v.sort()
            if op == 'fptosi':
                lo = z3.FPVal(float(-(2 ** (w - 1))), fs)
                hi = z3.FPVal(float(2 ** (w - 1)), fs)
                tr = z3.fpRoundToIntegral(rz, v)
                self.oblige('fpconv', 'float to signed conversion in range', g,
                            z3.And(z3.fpGEQ(tr, lo), z3.fpLT(tr, hi)))
                return z3.fpToSBV(rz, v, srt)
            hi = z3.FPVal(float(2 ** w), fs)
            tr = z3.fpRoundToIntegral(rz, v)
            self.oblige('fpconv', 'float to unsigned conversion in range', g,
                        z3.And(z3.fpGEQ(tr, z3.FPVal(0.0, fs)), z3.fpLT(tr, hi)))
            return z3.fpToUBV(rz, v, srt)
        w, w2 = t[1], t2[1]
        if v is UNDEF:
            v = self.fresh('undef', t)
        if w == 1:
            if isinstance(v, bool):
                return (int(v) if op == 'zext' else -int(v))
            one = 1 if op == 'zext' else -1
            if self.mode == INT:
                r = z3.If(v, z3.IntVal(one), z3.IntVal(0))
                self.setrng(r, min(0, one), max(0, one))
                return r
            return z3.If(v, z3.BitVecVal(one, w2), z3.BitVecVal(0, w2))
        if isinstance(v, Addr):
            if w2 == 64:
                return v
            raise Unsupported('cast of address')
        if isinstance(v, Cat) and op == 'trunc' and w2 % 8 == 0:
            k = w2 // 8
            parts = [p for p in v.parts if p[0] < k]
            if all(p[0] + p[1] <= k for p in parts) and sum(p[1] for p in parts) == k:
                return parts[0][2] if len(parts) == 1 else Cat(parts, k)
        if op == 'zext' and self.mode == INT and w2 == 64 and w in (8, 16, 32) and isz(v) and self.getrng(v, w)[0] < 0 \
                and False:
            pass
        v = self.plain(v, w)
        if w2 == 1:
            if isinstance(v, int):
                return bool(v & 1)
            return (v % 2 == 1) if self.mode == INT else (z3.Extract(0, 0, v) == 1)
        if isinstance(v, int):
            if op == 'zext':
                return canon(v & ((1 << w) - 1), w2)
            return canon(v, w2)
        if self.mode == BV:
            if op == 'zext':
                return z3.ZeroExt(w2 - w, v)
            if op == 'sext':
                return z3.SignExt(w2 - w, v)
            return z3.Extract(w2 - 1, 0, v)
        lo, hi = self.getrng(v, w)
        if op == 'sext':
            return v
        if op == 'zext':
            return self.uns(g, v, w)
        # trunc
        return self.wrap(g, v, w2, lo, hi)

    # ---------------------------------------------------------- memory
    def gep(self, g, bt, base, idx, inbounds):
        if isinstance(base, (Addr,)):
            base = base.p
        if base is UNDEF:
            raise Unsupported('gep on undef')
        if not isinstance(base, Ptr):
            raise Unsupported('gep base %r' % (base,))
        off = Off(0)
        t = bt
        first = True
        for it, iv in idx:
            if first:
                s = self.mod.size(t)
                first = False
            else:
                rt = self.mod.resolve(t)
                if rt[0] == 'struct':
                    o, t = self.mod.field_off(rt, iv)
                    off = Off(off.c + o, off.k, off.e)
                    continue
                s = self.mod.size(rt[2])
                t = rt[2]
            w = it[1]
            if isinstance(iv, SInt):
                d = Off(iv.o.c * s, iv.o.k * s, iv.o.e)
            else:
                iv = self.plain(iv, w)
                if isinstance(iv, int):
                    d = Off(iv * s)
                else:
                    if self.mode == BV and w < 64:
                        iv = z3.SignExt(64 - w, iv)
                    d = Off(0, s, iv)
            off = self.offadd(off, d)
        alts = []
        for c, r, o in base.alts:
            no = self.offadd(o, off)
            if r is None:
                if not (no.e is None and no.c == 0):
                    # null + nonzero
                    if off.e is None and off.c == 0:
                        pass
                    elif inbounds:
                        ze = True if off.e is None and off.c == 0 else False
                        if off.e is not None:
                            ze = self.idx(self.offidx(off, 1)) == self.idx(0)
                        self.oblige('ptr', 'no arithmetic on null pointer', And(g, c), ze)
                    no = Off(0)
            elif inbounds:
                self.bounds(And(g, c), r, no, 'pointer arithmetic stays inside the object')
            alts.append((c, r, no))
        return Ptr(alts)

    def bounds(self, g, r, o, what, access=0):
        if r.kind == 'arr':
            if o.c % r.esize or o.k % r.esize:
                raise Unsupported('sub-element pointer into array')
            i = self.offidx(o, r.esize)
            n = r.n
            if n is None:
                return
            i, n = self.idx(i), self.idx(n)
            hi = i < n if access else i <= n
            self.oblige('bounds', what, g, And(simp(i >= self.idx(r.lo)), simp(hi)))
            return
        if r.size is None:
            return
        sz = r.size - access
        if o.e is None:
            if not (0 <= o.c <= sz):
                self.oblige('bounds', what, g, False)
            return
        if self.mode == INT:
            e = self.offidx(o, 1)
            self.oblige('bounds', what, g, z3.And(e >= 0, e <= sz))
        else:
            # c + k*e within [0,sz]; e signed 64
            klo = -(o.c // o.k)
            lo = -(-(0 - o.c) // o.k)
            hi = (sz - o.c) // o.k
            lo = (-o.c + o.k - 1) // o.k
            self.oblige('bounds', what, g, z3.And(o.e >= lo, o.e <= hi))

    def content(self, mem, r):
        if r.id in mem:
            return mem[r.id]
        gc = getattr(self, 'gcells', {})
        if r.id in gc:
            return gc[r.id]
        raise Unsupported('access to dead or unknown object ' + repr(r))

    def load(self, g, mem, t, p, volatile=False):
        t = self.mod.resolve(t)
        if p is UNDEF or not isinstance(p, Ptr):
            raise Unsupported('load through non-pointer')
        if t[0] in ('struct', 'array'):
            n = len(t[1]) if t[0] == 'struct' else t[1]
            out = []
            for i in range(n):
                o, x = self.mod.field_off(t, i)
                out.append(self.load(g, mem, x, Ptr([(c, r, self.offadd(off, Off(o))) for c, r, off in p.alts])))
            return out
        sz = self.mod.access_size(t)
        res = None
        for c, r, o in p.alts:
            gg = And(g, c)
            if r is None:
                self.oblige('null', 'no null dereference', gg, False)
                continue
            v = self.load1(gg, mem, t, sz, r, o)
            res = v if res is None else self.ite(c, v, res, t if t[0] == 'i' else None)
        if res is None:
            if t[0] == 'ptr':
                res = Ptr([(True, None, Off(0))])
            else:
                res = self.fresh('nullload', t)
        return res

    def load1(self, g, mem, t, sz, r, o):
        if r.kind == 'fn':
            raise Unsupported('load from function')
        self.bounds(g, r, o, 'read inside the object', sz if r.kind == 'obj' else 1)
        if r.kind == 'arr':
            if sz != r.esize:
                raise Unsupported('array element size mismatch')
            a = self.content(mem, r)
            i = self.idx(self.offidx(o, r.esize))
            v = z3.Select(a, i)
            return self.elem_out(r, v, t)
        cells = self.content(mem, r)
        if o.e is None:
            return self.cell_load(r, cells, t, sz, o.c)
        # symbolic offset into an object: enumerate candidate cells
        cand = []
        for off, (s, v, ct) in sorted(cells.items()):
            if (off - o.c) % o.k == 0 and s == sz:
                cand.append((off, (off - o.c) // o.k))
        if r.size is not None and o.k > 0:
            # positions not stored as one value of this size (part of a wider or several narrower ones, or uninitialised)
            have = {off for off, _ in cand}
            off, n = o.c % o.k, 0
            while off + sz <= r.size:
                if off not in have:
                    n += 1
                    if n > 600:
                        raise Unsupported('symbolic read of large object')
                    ix = (off - o.c) // o.k
                    if self.has_cell(cells, off, sz) and self.feasible(And(g, o.e == self.idx(ix))):
                        cand.append((off, ix))
                off += o.k
            cand.sort()
        if not cand:
            if r.size is not None:
                return self.fresh('uninit', t) if t[0] != 'ptr' else UNDEF
            raise Unsupported('symbolic read of opaque object ' + repr(r))
        res = None
        if len(cand) > 8 and t[0] == 'i' and not any(off not in cells or cells[off][0] != sz or isinstance(cells[off][1], (Ptr, Addr, list, Cat)) or cells[off][1] is UNDEF
                                                     or cells[off][1] is None for off, _ in cand):
            # array term
            w = t[1]
            srt = z3.IntSort() if self.mode == INT else z3.BitVecSort(w)
            if (self.mode != INT or all(isinstance(cells[off][1], int) for off, _ in cand)) and \
                    [ix for _, ix in cand] == list(range(len(cand))):
                leaves = [self.val(self.plain(cells[off][1], w), w) for off, _ in cand]
                v = self.mux(o.e, leaves)
                if self.mode == INT:
                    vals = [cells[off][1] for off, _ in cand]
                    self.setrng(v, min(vals), max(vals))
                return v
            key = ('tbl', r.id, id(cells), o.c, o.k)
            if key not in self.ufs:
                base = z3.K(self.idxsort(), self.val(0, w))
                for off, ix in cand:
                    base = z3.Store(base, self.idx(ix), self.val(self.plain(cells[off][1], w), w))
                self.ufs[key] = (base, cells)
            v = z3.Select(self.ufs[key][0], o.e)
            if self.mode == INT:
                vals = [cells[off][1] for off, _ in cand]
                if all(isinstance(x, int) for x in vals):
                    self.setrng(v, min(0, min(vals)), max(0, max(vals)))
                self.assume.append(z3.And(v >= mn(w), v <= mx(w)))
            return v
        for off, ix in cand:
            v = self.cell_load(r, cells, t, sz, off)
            if res is None:
                res = v
            else:
                res = self.ite(o.e == self.idx(ix), v, res, t if t[0] == 'i' else None)
        return res

    def mux(self, e, leaves):
        """balanced selection tree leaves[e] (e in range by a separate obligation)"""
        if self.mode == INT:
            def tree(lo, hi):
                if hi - lo == 1:
                    return leaves[lo]
                m = (lo + hi) // 2
                a, b = tree(lo, m), tree(m, hi)
                return a if a.eq(b) else z3.If(e < m, a, b)
            return tree(0, len(leaves))
        k = 0
        cur = leaves
        while len(cur) > 1:
            c = z3.Extract(k, k, e) == 1
            nxt = []
            for i in range(0, len(cur), 2):
                a = cur[i]
                b = cur[i + 1] if i + 1 < len(cur) else a
                nxt.append(a if a.eq(b) else z3.If(c, b, a))
            cur = nxt
            k += 1
        return cur[0]

    def elem_out(self, r, v, t):
        if t[0] == 'i' and self.mode == INT:
            w = t[1]
            if r.elem[0] == 'i' and r.elem[1] == w:
                if v.get_id() not in self.rng:
                    self.setrng(v, mn(w), mx(w))
                    self.assume.append(z3.And(v >= mn(w), v <= mx(w)))
        if t != r.elem:
            raise Unsupported('array element type mismatch')
        return v

    def conv_out(self, v, t, sz):
        """value stored in a cell of the same size -> requested type"""
        if v is UNDEF:
            if t[0] == 'ptr':
                return UNDEF
            return self.fresh('uninit', t)
        if v is None:
            raise Unsupported('poisoned cell read')
        if isinstance(v, Cat) and t[0] == 'ptr' and len(v.parts) == 1:
            return self.conv_out(v.parts[0][2], t, sz)
        if t[0] == 'ptr':
            if isinstance(v, Addr):
                return v.p
            if isinstance(v, Ptr):
                return v
            if isinstance(v, int) and v == 0:
                return Ptr([(True, None, Off(0))])
            raise Unsupported('load pointer from integer cell')
        if t[0] == 'i':
            if isinstance(v, Ptr):
                return Addr(v)
            if isz(v) and z3.is_fp(v):
                return fpbits(v)
            if t[1] == 1 and not isinstance(v, bool) and not (isz(v) and z3.is_bool(v)):
                return self.cast(True, 'trunc', ('i', 8), v, t)
            if t[1] == 8 and (isinstance(v, bool) or (isz(v) and z3.is_bool(v))):
                return self.cast(True, 'zext', ('i', 1), v, t)
            return v
        if t[0] in FPS:
            if isz(v) and z3.is_fp(v):
                return v
            if t[0] == 'x86_fp80':
                raise Unsupported('fp80 reinterpretation')
            v = self.plain(v, 8 * sz)
            return z3.fpBVToFP(self.val(v, 8 * sz), FPS[t[0]]())
        raise Unsupported('cell type')

    def cell_load(self, r, cells, t, sz, off):
        x = cells.get(off)
        if x is not None and x[0] == sz:
            return self.conv_out(x[1], t, sz)
        if x is None and r.size is None:
            raise Unsupported('read of opaque global ' + r.name)
        # gather
        ov = [(o, c) for o, c in cells.items() if o < off + sz and o + c[0] > off]
        if not ov:
            if not r.writable or r.name.startswith('param'):
                pass
            return UNDEF if t[0] == 'ptr' else self.fresh('uninit', t)
        if len(ov) == 1 and ov[0][0] <= off and ov[0][0] + ov[0][1][0] >= off + sz:
            o, c = ov[0]
            return self.conv_out(self.subval(c[1], c[0], off - o, sz), t, sz)
        ov.sort(key=lambda z: z[0])
        parts = []
        pos = off
        for o, c in ov:
            if o > pos:
                parts.append((pos - off, o - pos, UNDEF))
                pos = o
            if o < pos:
                lo = pos - o
                n = min(c[0] - lo, off + sz - pos)
                parts.append((pos - off, n, self.subval(c[1], c[0], lo, n)))
                pos += n
                continue
            if o + c[0] <= off + sz:
                parts.append((o - off, c[0], c[1]))
                pos = o + c[0]
            else:
                n = off + sz - o
                parts.append((o - off, n, self.subval(c[1], c[0], 0, n)))
                pos = off + sz
        if pos < off + sz:
            parts.append((pos - off, off + sz - pos, UNDEF))
        parts = [(o, s, self.b2i(v, s)) for o, s, v in parts]
        c = Cat(parts, sz)
        if t[0] == 'i':
            return c
        if t[0] in FPS and self.mode == BV and t[0] != 'x86_fp80':
            return z3.fpBVToFP(self.val(self.plain(c, 8 * sz), 8 * sz), FPS[t[0]]())
        raise Unsupported('gather load of %r' % (t,))

    def b2i(self, v, s):
        if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
            return self.cast(True, 'zext', ('i', 1), v, ('i', 8 * s))
        return v

    def subval(self, v, size, lo, n):
        """bytes [lo,lo+n) of a value of given size (little endian)"""
        if v is UNDEF or v is None:
            return v
        if lo == 0 and n == size:
            return v
        if isinstance(v, Cat):
            parts = [p for p in v.parts if p[0] < lo + n and p[0] + p[1] > lo]
            if all(p[0] >= lo and p[0] + p[1] <= lo + n for p in parts):
                if len(parts) == 1 and parts[0][1] == n:
                    return parts[0][2]
                return Cat([(p[0] - lo, p[1], p[2]) for p in parts], n)
            if len(parts) == 1:
                p = parts[0]
                return self.subval(p[2], p[1], lo - p[0], n)
            v = self.plain(v, 8 * size)
        if isinstance(v, (Ptr, Addr)):
            raise Unsupported('bytes of a pointer')
        v = self.plain(v, 8 * size)
        if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
            v = self.b2i(v, size)
        if isinstance(v, int):
            return canon((v & ((1 << 8 * size) - 1)) >> (8 * lo), 8 * n)
        if self.mode == BV:
            if z3.is_fp(v):
                v = fpbits(v)
            return z3.Extract(8 * (lo + n) - 1, 8 * lo, v)
        u = v / (1 << (8 * lo)) if lo else v
        lo_, hi_ = self.getrng(v, 8 * size)
        return self.wrap(True, u, 8 * n, lo_ >> (8 * lo), hi_ >> (8 * lo))

    def store(self, g, mem, t, v, p):
        t = self.mod.resolve(t)
        if p is UNDEF or not isinstance(p, Ptr):
            raise Unsupported('store through non-pointer')
        if t[0] in ('struct', 'array'):
            n = len(t[1]) if t[0] == 'struct' else t[1]
            for i in range(n):
                o, x = self.mod.field_off(t, i)
                self.store(g, mem, x, v[i], Ptr([(c, r, self.offadd(off, Off(o))) for c, r, off in p.alts]))
            return
        sz = self.mod.access_size(t)
        multi = len(p.alts) > 1
        for c, r, o in p.alts:
            gg = And(g, c)
            if r is None:
                self.oblige('null', 'no null dereference', gg, False)
                continue
            if not r.writable:
                self.oblige('frame', 'no write to read-only object ' + r.name, gg, False)
                continue
            self.bounds(gg, r, o, 'write inside the object', sz if r.kind == 'obj' else 1)
            if r.kind == 'arr':
                if t != r.elem:
                    raise Unsupported('array element type mismatch (store)')
                a = self.content(mem, r)
                i = self.idx(self.offidx(o, r.esize))
                na = z3.Store(a, i, self.val(self.plain(v, 8 * sz), 8 * sz) if t[0] == 'i' else v)
                mem[r.id] = z3.If(B(c), na, a) if multi else na
                continue
            cells = dict(self.content(mem, r))
            if o.e is None:
                old = None
                if multi:
                    old = self.cell_load(r, cells, t, sz, o.c)
                    self.cell_store(cells, o.c, sz, self.ite(c, v, old, t), t)
                else:
                    self.cell_store(cells, o.c, sz, v, t)
            else:
                hit = False
                lim = r.size
                if lim is None:
                    raise Unsupported('symbolic store to opaque object')
                if o.k <= 0:
                    raise Unsupported('symbolic store scale')
                off = o.c % o.k
                cnt = 0
                while off + sz <= lim:
                    ix = (off - o.c) // o.k
                    old = self.cell_load(r, cells, t, sz, off) if self.has_cell(cells, off, sz) else self.fresh('uninit', t) if t[0] == 'i' else UNDEF
                    cc = And(c, o.e == self.idx(ix))
                    self.cell_store(cells, off, sz, self.ite(cc, v, old, t) if old is not UNDEF else v, t)
                    off += o.k
                    cnt += 1
                    if cnt > 600:
                        raise Unsupported('symbolic store to large object')
            mem[r.id] = cells

    def has_cell(self, cells, off, sz):
        return any(o < off + sz and o + c[0] > off for o, c in cells.items())

    def cell_store(self, cells, off, sz, v, t):
        x = cells.get(off)
        if x is not None and x[0] == sz:
            cells[off] = (sz, v, t)
            return
        for o in list(cells):
            c = cells[o]
            if o < off + sz and o + c[0] > off:
                del cells[o]
                if o < off:
                    cells[o] = (off - o, self.subval(c[1], c[0], 0, off - o), None)
                e = o + c[0]
                if e > off + sz:
                    n = e - (off + sz)
                    cells[off + sz] = (n, self.subval(c[1], c[0], off + sz - o, n), None)
        if isinstance(v, Cat):
            for o, s, pv in v.parts:
                cells[off + o] = (s, pv, None)
            return
        cells[off] = (sz, v, t)

    def memcpy(self, g, mem, d, s, n, move=False):
        if isz(n) or isinstance(n, (SInt, Cat)):
            raise Unsupported('symbolic memcpy')
        if n == 0:
            return
        if len(d.alts) != 1 or len(s.alts) != 1:
            edges = []
            for cd, rd, od in d.alts:
                for cs, rs, os_ in s.alts:
                    gg = And(cd, cs)
                    if gg is False:
                        continue
                    m2 = dict(mem)
                    self.memcpy(And(g, gg), m2, Ptr([(True, rd, od)]), Ptr([(True, rs, os_)]), n, move)
                    edges.append((gg, m2))
            out = self.merge_mem(edges)
            mem.clear()
            mem.update(out)
            return
        _, rd, od = d.alts[0]
        _, rs, os_ = s.alts[0]
        if rd is None or rs is None:
            self.oblige('null', 'no null memcpy', g, False)
            return
        if rd.kind != 'obj' or rs.kind != 'obj' or od.e is not None or os_.e is not None:
            raise Unsupported('memcpy on symbolic array')
        if not rd.writable:
            self.oblige('frame', 'no write to read-only object ' + rd.name, g, False)
            return
        self.bounds(g, rs, os_, 'memcpy source in bounds', n)
        self.bounds(g, rd, od, 'memcpy destination in bounds', n)
        src = self.content(mem, rs)
        cells = dict(self.content(mem, rd))
        new = {}
        for o, c in src.items():
            if o < os_.c + n and o + c[0] > os_.c:
                lo = max(o, os_.c)
                hi = min(o + c[0], os_.c + n)
                v = c[1] if (lo == o and hi == o + c[0]) else self.subval(c[1], c[0], lo - o, hi - lo)
                new[lo - os_.c] = (hi - lo, v, c[2] if (lo == o and hi == o + c[0]) else None)
        # clear dest range
        self.cell_store(cells, od.c, n, UNDEF, None)
        del cells[od.c]
        for o, c in new.items():
            cells[od.c + o] = c
        mem[rd.id] = cells

    def memset(self, g, mem, d, v, n):
        if isz(n) or not isinstance(v, int):
            raise Unsupported('symbolic memset')
        if n == 0:
            return
        if len(d.alts) != 1:
            raise Unsupported('memset merged')
        _, rd, od = d.alts[0]
        if rd is None or rd.kind != 'obj' or od.e is not None:
            raise Unsupported('memset on symbolic array')
        cells = dict(self.content(mem, rd))
        self.bounds(g, rd, od, 'memset in bounds', n)
        self.cell_store(cells, od.c, n, UNDEF, None)
        del cells[od.c]
        # lay out by existing typed access size lazily: store one wide constant
        b = v & 0xff
        o = 0
        while o < n:
            m = min(n - o, 8 if n > 8 and od.c % 8 == 0 else n)
            cells[od.c + o] = (m, canon(int.from_bytes(bytes([b]) * m, 'little'), 8 * m), None)
            o += m
        mem[rd.id] = cells

    # ---------------------------------------------------------- execution
    def call_function(self, name, args, g, mem, sym=False):
        """inline. returns (value, guard_out, mem_out)"""
        f = func_body(self.mod, name)
        if len(self.stack) >= self.max_depth:
            raise Unsupported('inline depth exceeded at ' + self.dem(name))
        rec = sum(1 for x in self.stack if x == name)
        if rec >= 3 and not self.feasible(g):
            return None, False, mem
        if rec > self.unroll_rec(name):
            raise MissingContract('unbounded recursion without contract: ' + self.dem(name))
        self.called.add(name)
        self.stack.append(name)
        fr = Frame(f)
        for (t, at, nm), v in zip(f.params, args):
            if 'byval' in at:
                # callee gets a copy
                r = Region('obj', nm, size=self.mod.size(at['byval']))
                mem = dict(mem)
                mem[r.id] = {}
                fr.allocas.append(r)
                np = Ptr([(True, r, Off(0))])
                self.memcpy(g, mem, np, v, r.size)
                v = np
            fr.env[nm] = v
        rets = []
        self.run(fr, g, mem, rets)
        self.stack.pop()
        for r in fr.allocas:
            for x in rets:
                x[2].pop(r.id, None)
        if not rets:
            return None, False, mem
        if len(rets) == 1:
            return rets[0][1], rets[0][0], rets[0][2]
        gs = Or(*[x[0] for x in rets])
        v = rets[-1][1]
        if v is not None:
            for gg, vv, _ in reversed(rets[:-1]):
                v = self.ite(gg, vv, v, f.ret if f.ret[0] == 'i' else None) if not isinstance(vv, list) else \
                    self.ite_ty(gg, vv, v, f.ret)
        m = self.merge_mem([(x[0], x[2]) for x in rets])
        return v, gs, m

    def ite_ty(self, c, a, b, t):
        t = self.mod.resolve(t)
        if t[0] == 'struct':
            return [self.ite_ty(c, x, y, tt) for x, y, tt in zip(a, b, t[1])]
        if t[0] == 'array':
            return [self.ite_ty(c, x, y, t[2]) for x, y in zip(a, b)]
        return self.ite(c, a, b, t if t[0] == 'i' else None)

    def unroll_rec(self, name):
        return self.unroll

    def loopinfo(self, f):
        li = getattr(f, 'li', None)
        if li is not None:
            return li
        succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            if t.op == 'br':
                s = [x for x in (t.a[1], t.a[2]) if x]
            elif t.op == 'switch':
                s = [t.a[2]] + [l for _, l in t.a[3]]
            elif t.op == 'invoke':
                s = [t.a[3]]
            else:
                s = []
            succ[b] = s
        # rpo + back edges via iterative dfs
        entry = f.order[0]
        color = {}
        post = []
        back = []
        st = [(entry, iter(succ[entry]))]
        color[entry] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if s not in color:
                    color[s] = 1
                    st.append((s, iter(succ[s])))
                    break
                elif color[s] == 1:
                    back.append((b, s))
            else:
                color[b] = 2
                post.append(b)
                st.pop()
        rpo = post[::-1]
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                pred[s].append(b)
        loops = {}
        for b, h in back:
            body = loops.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work += pred[x]
        # innermost header for each block
        inner = {}
        for h, body in sorted(loops.items(), key=lambda kv: -len(kv[1])):
            for b in body:
                inner.setdefault(b, []).append(h)     # outermost .. innermost
        heads = [b for b in rpo if b in loops]
        f.li = (rpo, loops, inner, {h: i for i, h in enumerate(heads)})
        return f.li

    def run(self, fr, g, mem, rets):
        f = fr.f
        rpo, loops, inner, ords = self.loopinfo(f)
        pend = {b: [] for b in rpo}
        pend[rpo[0]].append((None, g, mem, {}))
        self.run_blocks(fr, rpo, pend, set(rpo), None, rets)

    def run_blocks(self, fr, blocks, pend, inside, header, rets):
        """process blocks in RPO; edges leaving `inside` or returning to `header` stay in pend (accumulated)"""
        f = fr.f
        rpo, loops, inner, ords = self.loopinfo(f)
        done = set()
        for b in blocks:
            if b in done:
                continue
            if b in loops and b != header:
                body = loops[b]
                done |= body
                if pend[b]:
                    self.run_loop(fr, b, body, pend, rets)
                continue
            done.add(b)
            inc = pend[b]
            if not inc:
                continue
            pend[b] = []
            self.exec_block(fr, b, inc, pend, rets)

    def join(self, fr, b, inc):
        inc = [e for e in inc if e[1] is not False]
        if not inc:
            return None
        if len(inc) == 1:
            g, mem = inc[0][1], dict(inc[0][2])
        else:
            g = Or(*[e[1] for e in inc])
            if isz(g):
                g = simp_guard(g)
            mem = self.merge_mem([(e[1], e[2]) for e in inc])
        f = fr.f
        vals = {}
        for ins in f.blocks[b]:
            if ins.op != 'phi':
                break
            t = ins.a[0]
            acc = inc[-1][3][ins.res]
            for e in reversed(inc[:-1]):
                v = e[3][ins.res]
                acc = self.ite_ty(e[1], v, acc, t) if isinstance(v, list) else self.ite(e[1], v, acc, t if t[0] == 'i' else None)
            vals[ins.res] = acc
        fr.env.update(vals)
        return g, mem

    def run_loop(self, fr, h, body, pend, rets):
        f = fr.f
        rpo, loops, inner, ords = self.loopinfo(f)
        order = [b for b in rpo if b in body]
        spec = self.loops(f.name, ords[h])
        if spec is not None:
            return self.run_loop_inv(fr, h, body, order, pend, rets, spec)
        it = 0
        while True:
            inc = [e for e in pend[h] if e[1] is not False]
            pend[h] = []
            if not inc:
                return
            it += 1
            if it > 3 or it > self.unroll:
                gg = Or(*[e[1] for e in inc])
                if not isinstance(gg, bool) and not self.feasible(gg):
                    return
            if it > self.unroll:
                raise MissingContract('loop without invariant exceeds the unrolling limit in ' + self.dem(f.name))
            loc = {b: [] for b in rpo}
            loc[h] = inc
            self.exec_one(fr, h, loc, rets)
            self.run_blocks(fr, order[1:], loc, body, h, rets)
            for b, l in loc.items():
                if l:
                    pend[b] += l

    def exec_one(self, fr, b, loc, rets):
        inc = loc[b]
        loc[b] = []
        self.exec_block(fr, b, inc, loc, rets)

    def run_loop_inv(self, fr, h, body, order, pend, rets, spec):
        """invariant cut: spec(api) -> list of (name, formula)"""
        f = fr.f
        inc = pend[h]
        pend[h] = []
        j = self.join(fr, h, inc)
        if j is None:
            return
        g, mem = j
        phis = [i for i in f.blocks[h] if i.op == 'phi']
        entry_vals = {i.res: fr.env[i.res] for i in phis}
        for nm, fo in spec(self, fr, mem, g, entry_vals, entry_vals, mem):
            self.oblige('invariant', 'loop invariant holds on entry: ' + nm, g, fo)
        # the objects that an iteration changes are found by trial: an object is taken to be unchanged by the loop only if
        # it is untouched at every back edge of the run that is kept
        changed = set()
        dec0 = getattr(spec, 'dec', None)
        env0 = dict(fr.env)
        while True:
            snap = (len(self.assume), len(self.obls), len(self.throws), len(rets), dict(self.quot), dict(self.qcache), self.qs_n, self.interval_discharged, dict(self.ufs))
            lvl = self.qs.num_scopes()
            self.qs.push()
            mem2 = dict(mem)
            for rid, c in list(mem2.items()):
                if rid in changed:
                    if isinstance(c, dict):
                        mem2[rid] = {o: (s, self.havoc_cell(v, t), t) for o, (s, v, t) in c.items()}
                    else:
                        mem2[rid] = self.fresh('A_' + self.regs[rid].name, sort=c.sort())
            hv = {}
            for i in phis:
                t = i.a[0]
                v = entry_vals[i.res]
                if t[0] == 'ptr':
                    if len(v.alts) != 1 or v.alts[0][1] is None:
                        raise Unsupported('loop pointer phi with several objects')
                    _, r, o = v.alts[0]
                    if r.kind != 'arr':
                        raise Unsupported('loop pointer phi into object')
                    e = self.fresh('idx', sort=self.idxsort())
                    hv[i.res] = Ptr([(True, r, Off(0, r.esize, e))])
                else:
                    hv[i.res] = self.fresh(i.res, t)
            fr.env = dict(env0)
            fr.env.update(hv)
            for nm, fo in spec(self, fr, mem2, g, hv, entry_vals, mem):
                self.add_assume(Implies(g, fo))
            d0 = dec0(self, fr, mem2, hv) if dec0 else None
            loc = {b: [] for b in f.order}
            # execute header with havocked values: emulate a single incoming edge
            loc[h] = [('loop', g, mem2, dict(hv))]
            self.exec_one(fr, h, loc, rets)
            self.run_blocks(fr, order[1:], loc, body, h, rets)
            back = [e for e in loc[h] if e[1] is not False]
            loc[h] = []
            more = {rid for e in back for rid, c in mem2.items() if rid not in changed and not same_mem(c, e[2].get(rid))}
            if not more:
                break
            changed |= more
            self.qs.pop(self.qs.num_scopes() - lvl)
            na, no, nt, nr, self.quot, self.qcache, self.qs_n, self.interval_discharged, self.ufs = snap
            del self.assume[na:], self.obls[no:], self.throws[nt:], rets[nr:]
        for e in back:
            sv = dict(fr.env)
            fr.env.update(e[3])
            for nm, fo in spec(self, fr, e[2], e[1], e[3], entry_vals, mem):
                self.oblige('invariant', 'loop invariant preserved: ' + nm, e[1], fo)
            if dec0:
                d1 = dec0(self, fr, e[2], e[3])
                self.oblige('decreases', 'loop variant decreases', e[1], z3.And(d1 < d0, d0 >= 0) if isz(d0) or isz(d1) else (d1 < d0 and d0 >= 0))
            fr.env = sv
        for b, l in loc.items():
            if l:
                pend[b] += l

    def havoc_cell(self, v, t):
        if t[0] == 'ptr':
            if isinstance(v, Ptr) and len(v.alts) == 1 and v.alts[0][1] is not None:
                r = v.alts[0][1]
                if r.kind == 'arr':
                    return Ptr([(True, r, Off(0, r.esize, self.fresh('idx', sort=self.idxsort())))])
                return v if r.kind == 'obj' and getattr(self, 'keep_obj_ptr', False) else UNDEF
            return UNDEF
        if t[0] == 'i' or t[0] in FPS:
            return self.fresh('hv', t)
        return UNDEF

    def exec_block(self, fr, b, inc, pend, rets):
        j = self.join(fr, b, inc)
        if j is None:
            return
        g, mem = j
        f = fr.f
        env = fr.env
        for ins in f.blocks[b]:
            self.steps += 1
            if self.steps % 500 == 0 and time.time() > self.t_end:
                raise Unsupported('time limit of the generator')
            if self.steps > self.step_limit:
                raise Unsupported('step limit')
            op = ins.op
            a = ins.a
            if op == 'phi':
                continue
            if op == 'br':
                if a[0] is None:
                    self.edge(fr, b, a[1], g, mem, pend)
                else:
                    c = self.op(fr, ('i', 1), a[0])
                    if c is UNDEF:
                        c = self.fresh('undef', ('i', 1))
                    if c is True:
                        self.edge(fr, b, a[1], g, mem, pend)
                    elif c is False:
                        self.edge(fr, b, a[2], g, mem, pend)
                    else:
                        c = simp(c)
                        self.edge(fr, b, a[1], And(g, c), mem, pend)
                        self.edge(fr, b, a[2], And(g, Not(c)), mem, pend)
                return
            if op == 'switch':
                t, cv, d, cases = a
                c = self.plain(self.op(fr, t, cv), t[1])
                rest = True
                by = {}
                for kv, l in cases:
                    e = self.icmp(g, 'eq', t, c, canon(kv, t[1]))
                    by.setdefault(l, []).append(e)
                    rest = And(rest, Not(e))
                for l, es in by.items():
                    self.edge(fr, b, l, And(g, Or(*es)), mem, pend)
                self.edge(fr, b, d, And(g, rest), mem, pend)
                return
            if op == 'ret':
                v = None if a[0] is None else self.op(fr, a[0], a[1])
                if v is UNDEF and a[0][0] == 'i':
                    v = self.fresh('undef', a[0])
                rets.append((g, v, mem))
                return
            if op == 'unreachable':
                self.oblige('unreachable', 'unreachable code is not reached', g, False)
                return
            if op in ('call', 'invoke'):
                r = self.do_call(fr, ins, g, mem)
                if r is None:
                    return          # does not return
                v, g, mem = r
                if g is False:
                    return
                if ins.res is not None:
                    env[ins.res] = v
                if op == 'invoke':
                    self.edge(fr, b, a[3], g, mem, pend)
                    return
                continue
            if op == 'unsupported':
                raise Unsupported('instruction: ' + ins.text.strip()[:160])
            if op == 'store':
                t, v, pt = a[0], a[1], a[2]
                val = self.op(fr, t, v)
                self.store(g, mem, t, val, self.op(fr, ('ptr',), pt))
                continue
            env[ins.res] = self.eval(fr, ins, g, mem)

    def edge(self, fr, src, dst, g, mem, pend):
        if g is False:
            return
        f = fr.f
        vals = {}
        for ins in f.blocks[dst]:
            if ins.op != 'phi':
                break
            t = ins.a[0]
            for v, l in ins.a[1]:
                if l == src:
                    vals[ins.res] = self.op(fr, t, v)
                    break
            else:
                raise Unsupported('phi without edge')
        pend[dst].append((src, g, dict(mem), vals))

    def eval(self, fr, ins, g, mem):
        op, a = ins.op, ins.a
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd',
                  'fsub', 'fmul', 'fdiv', 'frem'):
            return self.binop(g, op, a[0], self.op(fr, a[0], a[1]), self.op(fr, a[0], a[2]), a[3])
        if op == 'icmp':
            return self.icmp(g, a[0], a[1], self.op(fr, a[1], a[2]), self.op(fr, a[1], a[3]))
        if op == 'fcmp':
            return self.fcmp(a[0], self.op(fr, a[1], a[2]), self.op(fr, a[1], a[3]))
        if op == 'fneg':
            return z3.fpNeg(self.op(fr, a[0], a[1]))
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptrunc', 'fpext', 'fptoui', 'fptosi',
                  'uitofp', 'sitofp'):
            return self.cast(g, op, a[0], self.op(fr, a[0], a[1]), a[2])
        if op == 'select':
            c = self.op(fr, a[0], a[1]) if len(a) == 5 else self.op(fr, ('i', 1), a[0])
            if len(a) == 5:
                t, x, y = a[2], self.op(fr, a[2], a[3]), self.op(fr, a[2], a[4])
            else:
                t, x, y = a[1], self.op(fr, a[1], a[2]), self.op(fr, a[1], a[3])
            return self.ite(c, x, y, t if t[0] == 'i' else None)
        if op == 'alloca':
            t = a[0]
            n = 1
            if len(a) > 1 and a[1] is not None:
                n = a[1] if isinstance(a[1], int) else None
            r = Region('obj', ins.res, size=self.mod.size(t))
            mem[r.id] = {}
            fr.allocas.append(r)
            return Ptr([(True, r, Off(0))])
        if op == 'load':
            return self.load(g, mem, a[0], self.op(fr, ('ptr',), a[1]))
        if op == 'getelementptr':
            bt, ops, fl = a
            base = self.op(fr, ops[0][0], ops[0][1])
            return self.gep(g, bt, base, [(t, self.op(fr, t, v)) for t, v in ops[1:]], 'inbounds' in fl)
        if op == 'extractvalue':
            v = self.op(fr, a[0], a[1])
            if v is UNDEF:
                return UNDEF
            for i in a[2]:
                v = v[i]
            return v
        if op == 'insertvalue':
            t, v, t2, w, idx = a
            v = self.op(fr, t, v)
            w = self.op(fr, t2, w)

            def ins_(x, ix):
                x = list(x)
                x[ix[0]] = w if len(ix) == 1 else ins_(x[ix[0]], ix[1:])
                return x
            return ins_(v, idx)
        if op == 'freeze':
            v = self.op(fr, a[0], a[1])
            return self.fresh('undef', a[0]) if v is UNDEF else v
        raise Unsupported('instruction ' + op)

    # ---------------------------------------------------------- calls
    NOOP = re.compile(r'^llvm\.(lifetime|dbg|assume|experimental\.noalias|invariant)|^__cxa_free_exception$'
                      r'|^_ZNSt\d+.*(error|range|argument)C[12]E|^_ZNSt9exception|^_ZNSt\w*(error|_of_range|_argument)D[012]Ev'
                      r'|^_ZNSaIcEC[12]|^_ZNSaIcED[12]|^__cxa_begin_catch|^__cxa_end_catch|^__cxa_guard')

    def do_call(self, fr, ins, g, mem):
        rt, callee, args, normal, unwind = ins.a
        if callee[0] == 'glob':
            name = callee[1]
        else:
            p = self.op(fr, ('ptr',), callee)
            if not isinstance(p, Ptr) or len(p.alts) != 1 or p.alts[0][1] is None or p.alts[0][1].kind != 'fn':
                raise Unsupported('indirect call')
            name = p.alts[0][1].name
        if name.startswith('llvm.dbg') or name.startswith('llvm.lifetime') or name.startswith('llvm.experimental'):
            return None if False else (None, g, mem)
        vals = [self.op(fr, t, v) if v is not None else None for t, at, v in args]
        return self.call_named(name, rt, args, vals, g, mem)

    def call_named(self, name, rt, args, vals, g, mem):
        if name in self.ext:
            r = self.ext[name](self, g, mem, vals, rt)
            if r is not None:
                return r
        if name in self.mod.funcs:
            con = self.contracts(name)
            if con is not None:
                return con.at_call(self, name, vals, args, g, mem)
            if 'assertion_failed' in name:      # SPROUT_ASSERT: reaching it is a failed obligation
                self.oblige('assert', 'SPROUT_ASSERT holds', g, False)
                return None
            return self.call_function(name, vals, g, mem)
        if name.startswith('llvm.'):
            return self.intrinsic(name, rt, args, vals, g, mem)
        if name in ('__cxa_throw', '_ZSt17__throw_bad_allocv') or name.startswith('_ZSt') and '__throw_' in name:
            self.throws.append((g, name, list(self.stack)))
            return None
        if name == '__cxa_allocate_exception':
            r = Region('obj', 'exc', size=None)
            mem = dict(mem)
            mem[r.id] = {}
            return Ptr([(True, r, Off(0))]), g, mem
        if name in ('abort', '__assert_fail', '_ZSt9terminatev', '__clang_call_terminate', '_ZSt4abortv', 'exit'):
            self.oblige('assert', 'abort/assertion failure is not reached', g, False)
            return None
        if name.startswith('svc_'):
            return self.lemma_call(name, vals, g, mem)
        if self.NOOP.match(name):
            return None if rt[0] != 'void' and False else ((UNDEF if rt[0] != 'void' else None), g, mem)
        # strlen-like libc / unknown externals
        if name in ('fdim', 'fdimf', 'fdiml') and len(vals) == 2:      # C library: positive difference
            x, y = vals
            return z3.If(z3.fpIsNaN(x), x, z3.If(z3.fpIsNaN(y), y, z3.If(z3.fpGT(x, y), z3.fpSub(RNE, x, y), z3.FPVal(0.0, x.sort())))), g, mem
        raise Unsupported('call to external function ' + self.dem(name))

    def cstring(self, p):
        try:
            _, r, o = p.alts[0]
            cells = self.gcells[r.id]
            out = []
            i = o.c
            while True:
                c = cells[i][1]
                if not isinstance(c, int) or c == 0:
                    break
                out.append(chr(c & 255))
                i += 1
            return ''.join(out)
        except Exception:
            return '?'

    def lemma_call(self, name, vals, g, mem):
        """vocabulary of svc/lemma.hpp"""
        if name.startswith('svc_any'):
            k = name[7:]
            ty = {'f': ('float',), 'd': ('double',), 'l': ('x86_fp80',)}.get(k) or ('i', int(k))
            self.tape = getattr(self, 'tape', [])
            v = self.tyconst('%s_%d' % (self.cstring(vals[0]), len(self.tape)), ty)
            self.tape.append((ty, v))
            return v, g, mem
        if name == 'svc_assume':
            if g is True:
                self.add_assume(vals[0] if not isinstance(vals[0], bool) else z3.BoolVal(vals[0]))
                if isz(vals[0]) and self.mode == INT:
                    self.learn(vals[0])
                return None, g, mem
            return None, And(g, vals[0]), mem
        if name == 'svc_assert':
            self.oblige('ensures', '%s ensures: %s' % (self.stack[0] if self.stack else '', self.cstring(vals[1])), g, vals[0])
            return None, g, mem
        if name == 'svc_throws':
            self.throw_spec = Or(getattr(self, 'throw_spec', False), And(g, vals[0]))
            return None, g, mem
        raise Unsupported('unknown lemma primitive ' + name)

    def uf(self, name, sorts):
        if name not in self.ufs:
            self.ufs[name] = z3.Function(name, *sorts)
        return self.ufs[name]

    def intrinsic(self, name, rt, args, vals, g, mem):
        base = name.split('.')[1]
        full = name[5:]
        if base in ('memcpy', 'memmove'):
            mem = dict(mem)
            self.memcpy(g, mem, vals[0], vals[1], vals[2])
            return None, g, mem
        if base == 'memset':
            mem = dict(mem)
            self.memset(g, mem, vals[0], vals[1], vals[2])
            return None, g, mem
        if base in ('lifetime', 'dbg', 'assume', 'invariant', 'experimental'):
            return None, g, mem
        if base == 'trap':
            self.oblige('assert', 'trap is not reached', g, False)
            return None
        if base == 'is' and full.startswith('is.constant'):
            return False, g, mem
        if base == 'expect':
            return vals[0], g, mem
        if base in ('ctlz', 'cttz', 'ctpop', 'bswap', 'fshl', 'fshr', 'bitreverse'):
            w = rt[1]
            v = self.plain(vals[0], w)
            if isinstance(v, int):
                u = v & ((1 << w) - 1)
                if base == 'ctpop':
                    return bin(u).count('1'), g, mem
                if base == 'ctlz':
                    if u == 0 and vals[1] is True:
                        self.oblige('ub', 'clz argument non-zero', g, False)
                    return w - u.bit_length(), g, mem
                if base == 'cttz':
                    if u == 0 and vals[1] is True:
                        self.oblige('ub', 'ctz argument non-zero', g, False)
                    return (w if u == 0 else (u & -u).bit_length() - 1), g, mem
                if base == 'bswap':
                    return canon(int.from_bytes(u.to_bytes(w // 8, 'little'), 'big'), w), g, mem
            if self.mode == INT:
                raise Unsupported('bit intrinsic in int mode')
            v = self.val(v, w)
            if base == 'ctpop':
                r = popcount(v, w)
            elif base == 'ctlz':
                if vals[1] is True:
                    self.oblige('ub', 'clz argument non-zero', g, v != 0)
                r = z3.BitVecVal(w, w)
                for i in range(w):
                    r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(w - 1 - i, w), r)
            elif base == 'cttz':
                if vals[1] is True:
                    self.oblige('ub', 'ctz argument non-zero', g, v != 0)
                r = z3.BitVecVal(w, w)
                for i in reversed(range(w)):
                    r = z3.If(z3.Extract(i, i, v) == 1, z3.BitVecVal(i, w), r)
            elif base == 'bswap':
                r = z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(w // 8)])
            elif base == 'fshl':
                lo = self.val(self.plain(vals[1], w), w)
                s = z3.URem(self.val(self.plain(vals[2], w), w), w)
                cc = z3.Concat(v, lo) << z3.ZeroExt(w, s)
                r = z3.Extract(2 * w - 1, w, cc)
            elif base == 'fshr':
                lo = self.val(self.plain(vals[1], w), w)
                s = z3.URem(self.val(self.plain(vals[2], w), w), w)
                r = z3.Extract(w - 1, 0, z3.LShR(z3.Concat(v, lo), z3.ZeroExt(w, s)))
            else:
                raise Unsupported(name)
            return r, g, mem
        if base in ('abs', 'smax', 'smin', 'umax', 'umin'):
            w = rt[1]
            x = vals[0]
            if base == 'abs':
                if vals[1] is True:
                    self.oblige('overflow', 'abs of minimum value', g, Not(self.icmp(g, 'eq', rt, x, mn(w))))
                neg = self.binop(g, 'sub', rt, 0, x, set())
                return self.ite(self.icmp(g, 'slt', rt, x, 0), neg, x, rt), g, mem
            p = {'smax': 'sgt', 'smin': 'slt', 'umax': 'ugt', 'umin': 'ult'}[base]
            return self.ite(self.icmp(g, p, rt, x, vals[1]), x, vals[1], rt), g, mem
        if base in ('fabs',):
            return z3.fpAbs(vals[0]), g, mem
        if base in ('floor', 'ceil', 'trunc', 'rint', 'nearbyint', 'round', 'roundeven'):
            rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'rint': RNE, 'nearbyint': RNE,
                  'round': z3.RNA(), 'roundeven': RNE}[base]
            return z3.fpRoundToIntegral(rm, vals[0]), g, mem
        if base in ('lround', 'llround'):
            fs, w = vals[0].sort(), rt[1]
            if self.mode == INT:
                raise Unsupported('fp to int in int mode')
            r = z3.fpRoundToIntegral(z3.RNA(), vals[0])
            self.oblige('fpconv', base + ' result in range', g, z3.And(z3.fpGEQ(r, z3.FPVal(float(-(2 ** (w - 1))), fs)), z3.fpLT(r, z3.FPVal(float(2 ** (w - 1)), fs))))
            return z3.fpToSBV(z3.RTZ(), r, z3.BitVecSort(w)), g, mem
        if base in ('minnum', 'maxnum'):
            x, y = vals
            lt = z3.fpLT(x, y) if base == 'minnum' else z3.fpGT(x, y)
            either = z3.And(z3.fpEQ(x, y), self.fresh('zerochoice', sort=z3.BoolSort()))
            return z3.If(z3.fpIsNaN(y), x, z3.If(z3.fpIsNaN(x), y, z3.If(z3.Or(lt, either), x, y))), g, mem
        if base == 'copysign':
            x, y = vals
            sx = z3.If(z3.fpIsNaN(y), self.fresh('nansign', sort=z3.BoolSort()), z3.fpIsNegative(y))
            return z3.If(sx, z3.fpNeg(z3.fpAbs(x)), z3.fpAbs(x)), g, mem
        if base in ('sadd', 'ssub', 'smul', 'uadd', 'usub', 'umul') and 'with.overflow' in name:
            w = args[0][0][1]
            o = {'add': 'add', 'sub': 'sub', 'mul': 'mul'}[base[1:]]
            x, y = self.plain(vals[0], w), self.plain(vals[1], w)
            if self.mode == INT:
                if base[0] == 's':
                    e = x + y if o == 'add' else x - y if o == 'sub' else x * y
                    ov = Or(e < mn(w), e > mx(w))
                    return [self.wrap(g, e, w, mn(w) * (1 << w), mx(w) * (1 << w)) if isz(e) else canon(e, w), ov], g, mem
            else:
                X, Y = self.val(x, w), self.val(y, w)
                sg = base[0] == 's'
                if o == 'add':
                    r = X + Y
                    ok = z3.And(z3.BVAddNoOverflow(X, Y, sg), z3.BVAddNoUnderflow(X, Y) if sg else z3.BoolVal(True))
                elif o == 'sub':
                    r = X - Y
                    ok = z3.And(z3.BVSubNoOverflow(X, Y) if sg else z3.BoolVal(True), z3.BVSubNoUnderflow(X, Y, sg))
                else:
                    r = X * Y
                    ok = z3.And(z3.BVMulNoOverflow(X, Y, sg), z3.BVMulNoUnderflow(X, Y) if sg else z3.BoolVal(True))
                return [r, z3.Not(ok)], g, mem
        if base == 'objectsize':
            return -1, g, mem
        if base == 'is' and 'fpclass' in name:
            m = vals[1]
            x = vals[0]
            c = []
            if m & 3:
                c.append(z3.fpIsNaN(x))
            for bit, fnn, neg in ((2, z3.fpIsInf, True), (3, z3.fpIsNormal, True), (4, z3.fpIsSubnormal, True),
                                  (5, z3.fpIsZero, True), (6, z3.fpIsZero, False), (7, z3.fpIsSubnormal, False),
                                  (8, z3.fpIsNormal, False), (9, z3.fpIsInf, False)):
                if m >> bit & 1:
                    c.append(z3.And(fnn(x), z3.fpIsNegative(x) if neg else z3.fpIsPositive(x)))
            return z3.Or(*c), g, mem
        raise Unsupported('intrinsic ' + name)


def fpbits(v):
    b = z3.fpToIEEEBV(v)
    if b.size() == 79:      # x86_fp80: explicit integer bit
        ex = z3.Extract(77, 63, b)
        return z3.Concat(z3.Extract(78, 63, b), z3.If(ex == 0, z3.BitVecVal(0, 1), z3.BitVecVal(1, 1)), z3.Extract(62, 0, b))
    return b


def popcount(v, w):
    r = z3.BitVecVal(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
    return r


def simp(e):
    if isinstance(e, bool):
        return e
    s = z3.simplify(e)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return e


def simp_guard(e):
    """collapse (g & c) | (g & !c)"""
    if z3.is_or(e) and e.num_args() == 2:
        a, b = e.arg(0), e.arg(1)
        ca = list(a.children()) if z3.is_and(a) else [a]
        cb = list(b.children()) if z3.is_and(b) else [b]
        if len(ca) == len(cb):
            diff = [(x, y) for x, y in zip(ca, cb) if not x.eq(y)]
            if len(diff) == 1:
                x, y = diff[0]
                if (z3.is_not(x) and x.arg(0).eq(y)) or (z3.is_not(y) and y.arg(0).eq(x)):
                    rest = [p for p, q in zip(ca, cb) if p.eq(q)]
                    return And(*rest)
    return e


def has_quant(e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st += x.children()
    return False
