"""Contracts on IR functions: matching, verification of one function against its contract, use at call sites."""
import re
import z3
from . import core
from .core import Ctx, Region, Ptr, Off, Addr, SInt, Cat, UNDEF, Unsupported, And, Or, Not, Implies, B, INT, BV, isz
from .llparse import func_body

MAXN = 1 << 59          # bound on the number of elements of an array object (address-space fact, stated assumption)


def parse_ty(s):
    if re.fullmatch(r'i\d+', s):
        return ('i', int(s[1:]))
    if s == 'bool':
        return ('i', 1)
    return (s,)


def strip_templates(s):
    """remove template argument lists, keeping operator<, <<, <=, ->, >> names"""
    out = []
    d = 0
    i = 0
    while i < len(s):
        if d == 0:
            m = re.match(r'operator\s*(<=>|<<=|>>=|<<|>>|<=|>=|<|>|->\*|->|\(\))', s[i:])
            if m:
                k = m.end()
                if m.group(1) in ('<<', '<<=') and s[i + k:i + k + 1] not in ('<', '(', ' ', ''):
                    k -= len(m.group(1)) - 1        # operator<<long>: operator< with a template argument list
                out.append(s[i:i + k])
                i += k
                continue
        ch = s[i]
        if ch == '<':
            d += 1
        elif ch == '>' and s[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return ''.join(out)


def base_name(dem):
    """qualified name without return type, template arguments and parameters"""
    s = strip_templates(dem)
    s = s.replace('operator()', 'operator@call')
    s = re.sub(r' \[clone.*', '', s)
    s = re.sub(r'\[abi:\w+\]', '', s)
    s = re.sub(r'( const| volatile|&|&&)+$', '', s).strip()
    if s.endswith(')'):
        d = 0
        for i in range(len(s) - 1, -1, -1):
            if s[i] == ')':
                d += 1
            elif s[i] == '(':
                d -= 1
                if d == 0:
                    s = s[:i].rstrip()
                    break
    # drop return type: last space at paren depth 0, unless operator
    s = s.replace('(anonymous namespace)', '{anon}')
    k = s.rfind('operator ')
    head = s if k < 0 else s[:k]
    d = 0
    pos = -1
    for i, ch in enumerate(head):
        if ch == '(':
            d += 1
        elif ch == ')':
            d -= 1
        elif ch == ' ' and d == 0:
            pos = i
    s = s[pos + 1:]
    return s.replace('operator@call', 'operator()').lstrip('*&').strip()


class PtrView:
    def __init__(self, ctx, r, i):
        self.ctx, self.r, self.i = ctx, r, i


class ArrView:
    """array contents at a given memory state"""

    def __init__(self, ctx, r, term):
        self.ctx, self.r, self.t = ctx, r, term
        self.n = ctx.idx(r.n) if r.n is not None else None

    def __getitem__(self, i):
        return z3.Select(self.t, self.ctx.idx(i))


class Contract:
    """sig: list of parameter descriptors (see module doc of props); fn(c, *views) states the specification."""

    def __init__(self, name, sig, fn, regs=None, nargs=None, when=None, group=None, label=None, ret=None, instances=True,
                 mode=None, loops=None, trusted=False, verify=True, timeout=None, weak=False, lemma=False):
        self.lemma = lemma
        self.weak = weak      # obligations known to be beyond the solvers: 'unknown' is not an alarm
        self.name = name
        if isinstance(sig, str):
            sig = sig.split()
        self.sig = sig
        self.fn = fn
        self.regs = regs or {}
        self.nargs = len(sig) if nargs is None else nargs
        self.when = when
        self.group = group or name
        self.label = label or name
        self.mode = mode
        self.loops = loops
        self.trusted = trusted
        self.verify = verify
        self.timeout = timeout
        self.hits = 0
        self.res_cache = {}
        self.ret = ret

    def matches(self, f, base, dem):
        if base != self.name or not (self.when is None or self.when(f, dem)):
            return False
        return self.resolve(f) is not None

    def resolve(self, f):
        """abstract signature -> one descriptor per IR parameter (None if it does not fit).
        'A'/'B' iterator by value or reference; '(A,bool)' struct by reference, byval or split over registers; 'el:A' reference to an element;
        'val:i32' scalar by value or reference; other descriptors apply to one IR parameter unchanged"""
        if f.name in self.res_cache:
            return self.res_cache[f.name]
        out = []
        ps = list(f.params)
        i = 0
        ok = True
        if ps and 'sret' in ps[0][1]:
            out.append('sret:' + (self.ret or ''))
            i = 1
        for s in self.sig:
            if callable(s):
                out.append(s)
                i += 1
                continue
            if i >= len(ps):
                ok = False
                break
            t, at, nm = ps[i]
            byref = t[0] == 'ptr' and ('dereferenceable' in at or 'byval' in at)
            if s.startswith('('):
                if byref:
                    out.append('&' + s)
                    i += 1
                    continue
                kinds = s[1:-1].split(',')
                for j, kd in enumerate(kinds):
                    if i >= len(ps):
                        ok = False
                        break
                    t, at, nm = ps[i]
                    if kd[0].isupper() and t[0] != 'ptr':
                        ok = False
                        break
                    out.append(('grp', j, len(kinds), kd))
                    i += 1
                if not ok:
                    break
                continue
            if s[0].isupper():
                if t[0] != 'ptr':
                    ok = False
                    break
                out.append('&' + s if byref else s)
            elif s.startswith('io:'):           # iterator by reference, read and written; its final value is c.out(i)
                if t[0] != 'ptr':
                    ok = False
                    break
                out.append('!' + s[3:])
            elif s.startswith('el:'):           # reference to an element of a region
                if t[0] != 'ptr':
                    ok = False
                    break
                out.append(s[3:])
            elif s.startswith('val:'):
                out.append('&' + s[4:] if t[0] == 'ptr' else ('u' if s[4] == 'u' else 'v'))
            elif s == 'v' or s == 'u':
                if t[0] == 'ptr':
                    ok = False
                    break
                out.append(s)
            else:
                if (s.startswith('&') and t[0] != 'ptr'):
                    ok = False
                    break
                out.append(s)
            i += 1
        if i != len(ps):
            ok = False
        self.res_cache[f.name] = out if ok else None
        return self.res_cache[f.name]

    # -------------------------------------------------------------- use at call sites
    def at_call(self, ctx, fname, vals, args, g, mem):
        ctx.used_contracts.add(self.label)
        mem = dict(mem)
        c = Call(self, ctx, 'call', g, mem, fname)
        f = ctx.mod.funcs[fname]
        views = c.views(self.resolve(f), vals, f.params)
        c.rt = f.ret
        self.fn(c, *views)
        rv = c.result_value(f.ret)
        c.flush()
        gout = g
        if c.throw_cond is not False:
            ctx.throws.append((And(g, c.throw_cond), 'callee ' + self.label, list(ctx.stack)))
            gout = And(g, Not(c.throw_cond))
        return rv, gout, c.mem


def struct_leaves(ctx, spec):
    out = []
    off = 0
    for kd in spec.split(','):
        if kd.strip('{}')[0].isupper():
            ty = ('ptr',)
        elif kd == 'bool':
            ty = ('i', 8)
        else:
            ty = parse_ty(kd[1:] if kd.startswith('u') else kd)
        s = ctx.mod.size(ty)
        off = (off + s - 1) // s * s
        out.append((kd, off, ty))
        off += s
    return out


class _Skip:
    pass


SKIP = _Skip()


class Call:
    """API visible to specification functions"""

    def __init__(self, con, ctx, phase, g, mem, fname):
        self.con, self.ctx, self.phase, self.g, self.mem, self.fname = con, ctx, phase, g, mem, fname
        self.regs = {}
        self.rets = {}
        self.retorder = []
        self.actual = None
        self.pending = []
        self.measure = None
        self.throw_cond = False
        self.sret = None
        self.oldmem = mem
        self.names = {}
        self.ios = []
        self.outs = {}

    def out(self, i):
        """final value of the i-th iterator parameter passed by reference"""
        name, v = self.ios[i]
        ctx = self.ctx
        if self.phase == 'post':
            return self.ptrview(name, ctx.load(self.g, self.mem, ('ptr',), v))
        if i not in self.outs:
            r = self.regs[name]
            e = ctx.fresh('out_' + name, sort=ctx.idxsort())
            self.pending.append(And(ctx.idx(0) <= e, e <= ctx.idx(r.n)))
            self.outs[i] = e
            if self.phase == 'call':
                (_, o, off), = v.alts
                (at, (sz, _, ty)), = self.mem[o.id].items()
                self.mem = dict(self.mem)
                self.mem[o.id] = {at: (sz, Ptr([(True, r, Off(0, r.esize, e))]), ty)}
        return self.outs[i]

    # ---- parameters
    def views(self, sig, vals, params):
        out = []
        grp = []
        for s, v, (t, at, nm) in zip(sig, vals, params):
            if isinstance(s, tuple):
                kd = s[3]
                if kd == 'bool' and t == ('i', 8):
                    v = self.ctx.cast(self.g, 'trunc', t, v, ('i', 1))
                grp.append(self.view_ret(kd, v))
                if s[1] == s[2] - 1:
                    out.append(tuple(grp))
                    grp = []
                continue
            x = self.view(s, v, t, at)
            if x is not SKIP:
                out.append(x)
        return out

    def view(self, s, v, t, at):
        ctx = self.ctx
        if callable(s):
            return s(self, v, t, at)
        if s == '_':
            return SKIP
        if s == 'v':
            if t[0] == 'i' and t[1] > 1:
                v = ctx.plain(v, t[1])
                return ctx.val(v, t[1])
            if t[0] == 'i':
                v = ctx.fresh('undef', t) if v is UNDEF else v
                return B(v)
            return v
        if s == 'u':      # unsigned view (int mode)
            v = ctx.plain(v, t[1])
            if ctx.mode == INT:
                return ctx.val(ctx.uns(self.g, v, t[1]), t[1])
            return ctx.val(v, t[1])
        if s.startswith('sret:'):
            self.sret = (v, s[5:].split(','))
            return SKIP
        if s.startswith('!'):
            self.ios.append((s[1:], v))
            return self.ptrview(s[1:], ctx.load(self.g, self.mem, ('ptr',), v))
        if s.startswith('&('):
            out = []
            for kd, off, ty in struct_leaves(ctx, s[2:-1]):
                x = ctx.load(self.g, self.mem, ty, Ptr([(a, r, ctx.offadd(o, Off(off))) for a, r, o in v.alts]))
                out.append(self.view_ret(kd, x))
            return tuple(out)
        if s.startswith('&'):
            k = s[1:]
            if k[0] in '{' or k[0].isupper():
                p = ctx.load(self.g, self.mem, ('ptr',), v)
                return self.ptrview(k.strip('{}'), p)
            ty = parse_ty(k.lstrip('u') if k.startswith('ui') else k)
            x = ctx.load(self.g, self.mem, ty, v)
            if ty == ('i', 1):
                return B(x)
            if ty[0] == 'i':
                x = ctx.plain(x, ty[1])
                if k.startswith('u') and ctx.mode == INT:
                    x = ctx.uns(self.g, x, ty[1])
                return ctx.val(x, ty[1])
            return x
        return self.ptrview(s.strip('{}'), v)

    def ptrview(self, name, p):
        ctx = self.ctx
        if isinstance(p, Addr):
            p = p.p
        if isinstance(p, Cat) and len(p.parts) == 1:
            p = p.parts[0][2]
        if not isinstance(p, Ptr) or len(p.alts) != 1 or p.alts[0][1] is None:
            if isinstance(p, Ptr):
                live = [a for a in p.alts if ctx.feasible(And(self.g, a[0]))]
                if len(live) == 1 and live[0][1] is not None:
                    p = Ptr([(True,) + live[0][1:]])
                else:
                    raise Unsupported('pointer argument with several objects at contract call')
            else:
                raise Unsupported('pointer argument is not a pointer')
        _, r, o = p.alts[0]
        if r.kind != 'arr':
            raise Unsupported('contract call on a non-array object ' + repr(r))
        if name in self.regs:
            if self.regs[name] is not r:
                raise Unsupported('contract call: arguments point into different objects')
        else:
            self.regs[name] = r
        return ctx.idx(ctx.offidx(o, r.esize))

    # ---- specification primitives
    def A(self, name):
        r = self.regs[name]
        return ArrView(self.ctx, r, self.ctx.content(self.mem, r))

    def old(self, name):
        r = self.regs[name]
        return ArrView(self.ctx, r, self.ctx.content(self.oldmem, r))

    def n(self, name):
        return self.ctx.idx(self.regs[name].n)

    def requires(self, e, name='precondition'):
        if self.phase == 'pre':
            self.ctx.add_assume(e)
        elif self.phase == 'call':
            self.ctx.oblige('requires', '%s requires: %s' % (self.con.label, name), self.g, e)

    def ensures(self, e, name='postcondition'):
        if self.phase == 'post':
            self.ctx.oblige('ensures', '%s ensures: %s' % (self.con.label, name), self.g, e)
        elif self.phase == 'call':
            self.pending.append(Implies(self.g, e))

    def axiom(self, e, post=False):
        """definition of a ghost function (conservative by construction)"""
        if post or self.phase in ('pre', 'call'):
            k = ('axiom', e.sexpr())
            if k not in self.ctx.ufs:
                self.ctx.ufs[k] = True
                self.ctx.add_assume(e)

    def lemma(self, e, name='lemma'):
        """proved at this point (obligation) and then available"""
        if self.phase in ('post',):
            self.ctx.oblige('lemma', '%s: %s' % (self.con.label, name), self.g, e)
            self.ctx.add_assume(Implies(self.g, e))

    def decreases(self, *m):
        if self.phase == 'pre':
            self.ctx.cur_measure = (self.con.group, m)
        elif self.phase == 'call':
            cur = getattr(self.ctx, 'cur_measure', None)
            if cur and cur[0] == self.con.group and self.ctx.recursive(self.fname):
                lt = False
                eq = True
                ctx_int = self.ctx.mode == INT
                for a, b in zip(m, cur[1]):
                    a, b = self.ctx.idx(a), self.ctx.idx(b)
                    lt = Or(lt, And(eq, a < b, a >= 0) if ctx_int else And(eq, z3.ULT(a, b)))
                    eq = And(eq, a == b)
                self.ctx.oblige('decreases', '%s: recursion terminates' % self.con.label, self.g, lt)

    def throws(self, cond):
        """function throws only if cond; when used at a call, it throws exactly if cond"""
        self.throw_cond = cond

    def assigns(self, name):
        """array region `name` may be modified"""
        r = self.regs[name]
        if self.phase == 'call':
            if not hasattr(self, 'havocked'):
                self.havocked = set()
            if r.id not in self.havocked:
                self.havocked.add(r.id)
                self.oldmem = dict(self.oldmem)
                self.mem = dict(self.mem)
                srt = self.ctx.content(self.mem, r).sort()
                self.mem[r.id] = self.ctx.fresh('A_' + r.name, sort=srt)

    def forall(self, lo, hi, f, name='i'):
        i = z3.Const('%s?%d' % (name, self.ctx.fresh_n), self.ctx.idxsort())
        self.ctx.fresh_n += 1
        return z3.ForAll([i], z3.Implies(z3.And(self.ctx.idx(lo) <= i, i < self.ctx.idx(hi)), f(i)))

    def exists(self, lo, hi, f, name='e'):
        i = z3.Const('%s?%d' % (name, self.ctx.fresh_n), self.ctx.idxsort())
        self.ctx.fresh_n += 1
        return z3.Exists([i], z3.And(self.ctx.idx(lo) <= i, i < self.ctx.idx(hi), f(i)))

    def forall2(self, lo, hi, f):
        """for all i<j in [lo,hi)"""
        i = z3.Const('i?%d' % self.ctx.fresh_n, self.ctx.idxsort())
        j = z3.Const('j?%d' % self.ctx.fresh_n, self.ctx.idxsort())
        self.ctx.fresh_n += 1
        return z3.ForAll([i, j], z3.Implies(z3.And(self.ctx.idx(lo) <= i, i < j, j < self.ctx.idx(hi)), f(i, j)))

    # ---- results
    def ret(self, kind, key=0):
        ctx = self.ctx
        if self.phase == 'post':
            v = self.actual[key]
            return self.view_ret(kind, v)
        if key in self.rets:
            return self.rets[key][2]
        if kind.strip('{}')[0].isupper() and not kind.startswith('&'):
            r = self.regs[kind.strip('{}')]
            e = ctx.fresh('r_' + kind.strip('{}'), sort=ctx.idxsort())
            v = Ptr([(True, r, Off(0, r.esize, e))])
            view = e
        else:
            k = kind[1:] if kind.startswith('u') else kind
            ty = parse_ty(k)
            v = ctx.fresh('r', ty)
            view = B(v) if ty == ('i', 1) else v
            if kind.startswith('u') and ctx.mode == INT:
                view = ctx.uns(True, v, ty[1])
        self.rets[key] = (kind, v, view)
        return view

    def retn(self, kind, key=0):
        """nullable pointer result: (is null, index)"""
        ctx = self.ctx
        r = self.regs[kind]
        if self.phase == 'post':
            p = self.actual[key]
            if isinstance(p, Addr):
                p = p.p
            nul, ix = [], None
            for c, rr, o in p.alts:
                c = B(c)
                if rr is None:
                    nul.append(c)
                elif rr is r:
                    e = ctx.idx(ctx.offidx(o, r.esize))
                    ix = e if ix is None else z3.If(c, e, ix)
                elif ctx.feasible(And(self.g, c)):
                    raise Unsupported('result points into another object')
            return z3.Or(*nul) if nul else z3.BoolVal(False), ix if ix is not None else ctx.idx(0)
        if key in self.rets:
            return self.rets[key][2]
        b = ctx.fresh('rnull', ('i', 1))
        b = B(b)
        e = ctx.fresh('r_' + kind, sort=ctx.idxsort())
        v = Ptr([(b, None, Off(0)), (z3.Not(b), r, Off(0, r.esize, e))])
        self.rets[key] = (kind, v, (b, e))
        return b, e

    def view_ret(self, kind, v):
        ctx = self.ctx
        if kind.strip('{}')[0].isupper():
            return self.ptrview(kind.strip('{}'), v)
        k = kind[1:] if kind.startswith('u') else kind
        ty = parse_ty(k)
        if ty == ('i', 1):
            if not isinstance(v, bool) and not (isz(v) and z3.is_bool(v)):
                v = ctx.cast(self.g, 'trunc', ('i', 8), v, ty)
            return B(v)
        if ty[0] == 'i':
            v = ctx.plain(v, ty[1])
            if kind.startswith('u') and ctx.mode == INT:
                v = ctx.uns(self.g, v, ty[1])
            return ctx.val(v, ty[1])
        return v

    def result_value(self, rt):
        """call phase: build IR return value from declared results"""
        ctx = self.ctx
        if self.sret is not None:
            p, kinds = self.sret
            if len(p.alts) != 1:
                raise Unsupported('sret merged')
            off = 0
            for i, kd in enumerate(kinds):
                if i not in self.rets:
                    self.ret(kd, i)
                v = self.rets[i][1]
                ty = ('ptr',) if kd.strip('{}')[0].isupper() else parse_ty(kd[1:] if kd.startswith('u') else kd)
                if ty == ('i', 1):
                    ty = ('i', 8)
                    v = ctx.cast(True, 'zext', ('i', 1), v, ty)
                s = ctx.mod.size(ty)
                off = (off + s - 1) // s * s
                ctx.store(self.g, self.mem, ty, v, Ptr([(True, p.alts[0][1], ctx.offadd(p.alts[0][2], Off(off)))]))
                off += s
            return None
        t = ctx.mod.resolve(rt) if rt[0] == 'named' else rt
        if t[0] == 'void':
            return None
        if t[0] == 'struct':
            out = []
            for i, x in enumerate(t[1]):
                y = self.rets[i][1] if i in self.rets else (UNDEF if x[0] == 'ptr' else ctx.fresh('r', x))
                if i in self.rets and self.rets[i][0] == 'bool' and x != ('i', 1):
                    y = ctx.cast(True, 'zext', ('i', 1), y, x)
                out.append(y)
            return out
        if 0 in self.rets:
            if len(self.rets) > 1:      # struct of several scalars coerced into one integer
                parts = []
                off = 0
                for k in sorted(self.rets):
                    kd, v, _ = self.rets[k]
                    ty = parse_ty(kd[1:] if kd.startswith('u') else kd)
                    if ty == ('i', 1):
                        v = ctx.cast(True, 'zext', ('i', 1), v, ('i', 8))
                        ty = ('i', 8)
                    s = ctx.mod.size(ty)
                    off = (off + s - 1) // s * s
                    parts.append((off, s, v))
                    off += s
                return Cat(parts, (t[1] + 7) // 8)
            return self.rets[0][1]
        return UNDEF if t[0] == 'ptr' else ctx.fresh('r', t)

    def flush(self):
        for e in self.pending:
            self.ctx.add_assume(e)

    # ghost functions
    def uf(self, name, *sorts):
        return self.ctx.uf(name, sorts)


# ---------------------------------------------------------------------- parameter creation for verification
def make_param(ctx, c, s, t, at, nm, mem, elems):
    """returns IR value for parameter described by s"""
    if isinstance(s, tuple):
        kd = s[3]
        if kd[0].isupper():
            return arr_ptr(ctx, c, kd, nm, mem, elems)
        if kd == 'bool':
            b = ctx.tyconst(nm, ('i', 1))
            return ctx.cast(True, 'zext', ('i', 1), b, t) if t != ('i', 1) else b
        return ctx.tyconst(nm, t)
    if callable(s):
        return s(c, None, t, at, make=True, mem=mem, nm=nm)
    if s.startswith('sret:'):
        sz = ctx.mod.size(at['sret']) if 'sret' in at else 64
        r = Region('obj', 'sret', size=sz)
        mem[r.id] = {}
        return Ptr([(True, r, Off(0))])
    if s == '_':
        if t[0] == 'ptr':
            r = Region('obj', 'param_' + nm, size=max(at.get('dereferenceable', 1), 1), writable=False)
            mem[r.id] = {}
            return Ptr([(True, r, Off(0))])
        if t[0] == 'void':
            return None
        return ctx.fresh(nm, t)
    if s in ('v', 'u'):
        return ctx.tyconst(nm, t)
    if s.startswith('&('):
        ls = struct_leaves(ctx, s[2:-1])
        r = Region('obj', 'param_' + nm, size=(max(o + ctx.mod.size(t) for _, o, t in ls) + max(ctx.mod.align(t) for _, o, t in ls) - 1) // max(ctx.mod.align(t) for _, o, t in ls) * max(ctx.mod.align(t) for _, o, t in ls), writable=False)
        cells = {}
        for i, (kd, off, ty) in enumerate(ls):
            if ty == ('ptr',):
                cells[off] = (8, arr_ptr(ctx, c, kd.strip('{}'), '%s_%d' % (nm, i), mem, elems), ty)
            elif kd == 'bool':
                b = ctx.tyconst('%s_%d' % (nm, i), ('i', 1))
                cells[off] = (1, ctx.cast(True, 'zext', ('i', 1), b, ('i', 8)), ('i', 8))
            else:
                cells[off] = (ctx.mod.size(ty), ctx.tyconst('%s_%d' % (nm, i), ty), ty)
        mem[r.id] = cells
        return Ptr([(True, r, Off(0))])
    if s.startswith('!'):
        r = Region('obj', 'io_' + nm, size=8, writable=True)
        mem[r.id] = {0: (8, arr_ptr(ctx, c, s[1:], nm, mem, elems), ('ptr',))}
        return Ptr([(True, r, Off(0))])
    if s.startswith('&'):
        k = s[1:]
        sz = at.get('dereferenceable', 8)
        r = Region('obj', 'param_' + nm, size=sz, writable=False)
        if k[0] == '{' or k[0].isupper():
            v = arr_ptr(ctx, c, k.strip('{}'), nm, mem, elems)
            mem[r.id] = {0: (8, v, ('ptr',))}
        else:
            ty = parse_ty(k[1:] if k.startswith('ui') else k)
            v = ctx.tyconst(nm, ty)
            mem[r.id] = {0: (ctx.mod.size(ty), v, ty)}
        return Ptr([(True, r, Off(0))])
    return arr_ptr(ctx, c, s.strip('{}'), nm, mem, elems)


def arr_ptr(ctx, c, name, nm, mem, elems):
    if name not in c.regs:
        spec = elems.get(name, 'i32')
        wr = spec.startswith('w:')
        ty = parse_ty(spec[2:] if wr else spec)
        n = z3.Const('n_' + name, ctx.idxsort())
        ctx.add_assume(z3.And(n >= 0, n <= MAXN))
        if ctx.mode == INT:
            ctx.setrng(n, 0, MAXN)
        r = Region('arr', name, elem=ty, esize=ctx.mod.size(ty), n=n, writable=wr)
        c.regs[name] = r
        if ty[0] == 'i':
            es = z3.IntSort() if ctx.mode == INT else z3.BitVecSort(ty[1])
        else:
            es = core.FPS[ty[0]]()
        mem[r.id] = z3.Const('arr_' + name, z3.ArraySort(ctx.idxsort(), es))
        ctx.regs = getattr(ctx, 'regs', {})
        ctx.regs[r.id] = r
    r = c.regs[name]
    e = z3.Const('p_' + nm, ctx.idxsort())
    ctx.add_assume(z3.And(e >= 0, e <= r.n))
    if ctx.mode == INT:
        ctx.setrng(e, 0, MAXN)
    return Ptr([(True, r, Off(0, r.esize, e))])


def verify(ctx, con, fname):
    """generate the obligations of function fname against contract con. returns dict with pre-state info"""
    f = func_body(ctx.mod, fname)
    mem = {}
    c = Call(con, ctx, 'pre', True, mem, fname)
    args = []
    sig = con.resolve(f)
    for s, (t, at, nm) in zip(sig, f.params):
        args.append(make_param(ctx, c, s, t, at, nm, mem, con.regs))
    views = c.views(sig, args, f.params)
    c.rt = f.ret
    ctx.stack = []
    ctx.cur_call, ctx.cur_views = c, views
    con.fn(c, *views)
    ctx.n_pre = len(ctx.assume)
    pre_regs = c.regs
    ctx.cur = con
    mem0 = dict(mem)
    val, g, m2 = ctx.call_function(fname, args, True, mem)
    ctx.stack = [fname]
    # exceptions
    if hasattr(ctx, 'throw_spec'):
        c.throw_cond = ctx.throw_spec
    for tg, what, st in ctx.throws:
        ctx.oblige('throw', '%s: exception only as specified' % con.label, tg, c.throw_cond)
    ctx.n_body = len(ctx.assume)
    if g is not False:
        p = Call(con, ctx, 'post', g, m2, fname)
        p.oldmem = mem0
        p.ios = c.ios
        p.regs = dict(pre_regs)
        p.rt = f.ret
        p.actual = actual_results(ctx, f, val, m2, con, args, g)
        con.fn(p, *views)
        if hasattr(ctx, 'throw_spec'):
            p.throw_cond = ctx.throw_spec
        if p.throw_cond is not False:
            ctx.oblige('throw', '%s: exception raised whenever specified' % con.label, g, Not(p.throw_cond))
    ctx.ret_guard = g
    return {'views': views, 'params': [nm for _, _, nm in f.params], 'regs': pre_regs}


def actual_results(ctx, f, val, mem, con, args, g):
    for s, v in zip(con.resolve(f), args):
        if isinstance(s, str) and s.startswith('sret:'):
            out = {}
            off = 0
            for i, kd in enumerate(s[5:].split(',')):
                ty = ('ptr',) if kd.strip('{}')[0].isupper() else parse_ty(kd[1:] if kd.startswith('u') else kd)
                lt = ('i', 8) if ty == ('i', 1) else ty
                sz = ctx.mod.size(lt)
                off = (off + sz - 1) // sz * sz
                out[i] = ctx.load(g, mem, lt, Ptr([(True, v.alts[0][1], Off(off))]))
                off += sz
            return out
    if isinstance(val, list):
        out = {}

        def flat(x):
            for y in x:
                if isinstance(y, list):
                    flat(y)
                else:
                    out[len(out)] = y
        flat(val)
        return out
    if isinstance(val, Cat):
        return LazyCat(ctx, val)
    return LazyVal(ctx, val)


class LazyVal(dict):
    def __init__(self, ctx, v):
        dict.__init__(self)
        self[0] = v


class LazyCat(dict):
    def __init__(self, ctx, v):
        dict.__init__(self)
        if len(v.parts) == 1:
            self[0] = v.parts[0][2]
        else:
            for i, (o, s, x) in enumerate(sorted(p for p in v.parts if p[2] is not UNDEF)):
                self[i] = x


# ---------------------------------------------------------------------- loop invariants
class LoopView:
    """values of the loop variables, found by the names the front end gives them (x, x.addr, x.sroa.*)"""

    def __init__(self, ctx, fr, mem, g, phis, entry, mem0):
        self.ctx, self.fr, self.mem, self.g, self.phis, self.entry, self.mem0 = ctx, fr, mem, g, phis, entry, mem0
        self.c, self.a = ctx.cur_call, ctx.cur_views

    def raw(self, name, mem=None, phis=None):
        mem = self.mem if mem is None else mem
        phis = self.phis if phis is None else phis
        for rx in (re.escape(name), re.escape(name) + r'\d+'):        # a shadowed name gets a number from the front end
            for k in phis:
                if k == name or re.match(rx + r'\.(addr\.)?(sroa\.|\d)', k):
                    return phis[k], None
            for k in list(self.fr.env):
                if re.fullmatch(rx + r'(\.addr)?', k):
                    v = self.fr.env.get(k)
                    if isinstance(v, Ptr) and len(v.alts) == 1 and v.alts[0][1] is not None and v.alts[0][1].kind == 'obj':
                        cells = mem.get(v.alts[0][1].id, {})
                        if len(cells) == 1:
                            (o, (s, x, t)), = cells.items()
                            return x, t
            for k in self.fr.env:
                if re.match(rx + r'\.(addr\.)?(sroa\.|\d)', k):
                    return self.fr.env[k], None
            if name in self.fr.env:
                break
        v = self.fr.env.get(name)
        if v is not None:
            return v, None
        if name != 'retval' and 'retval' in self.fr.env:      # a local that the front end builds in the return slot
            return self.raw('retval', mem, phis)
        raise Unsupported('loop variable %s not found' % name)

    def p(self, name, R=None):
        x = self.raw(name)[0]
        if isinstance(x, Cat):
            x = x.parts[0][2]
        if not isinstance(x, Ptr) or len(x.alts) != 1 or x.alts[0][1] is None or x.alts[0][1].kind != 'arr':
            raise Unsupported('loop variable %s is not a simple pointer' % name)
        return self.ctx.idx(self.ctx.offidx(x.alts[0][2], x.alts[0][1].esize))

    def v(self, name, w=64):
        x = self.raw(name)[0]
        return self.ctx.val(self.ctx.plain(x, w), w)

    def A(self, R):
        r = self.c.regs[R]
        return ArrView(self.ctx, r, self.ctx.content(self.mem, r))

    def old(self, R):
        r = self.c.regs[R]
        return ArrView(self.ctx, r, self.ctx.content(self.c.oldmem, r))


def inv(f, dec=None):
    """loop specification from f(LoopView) -> [(name, formula)]; dec(LoopView) -> variant"""
    def spec(ctx, fr, mem, g, phis, entry, mem0):
        return f(LoopView(ctx, fr, mem, g, phis, entry, mem0))
    if dec:
        spec.dec = lambda ctx, fr, mem, phis: dec(LoopView(ctx, fr, mem, True, phis, phis, mem))
    return spec
