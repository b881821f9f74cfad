"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang emits for Sprout instantiations.

Only the subset clang -O0 + sroa produces for integer/pointer/float scalar code is accepted; anything else is
kept as an ('unsupported', text) instruction, which makes the executor refuse (never silently skip).
"""
import re

TOK = re.compile(r'''
 (?P<str>c?"(?:[^"\\]|\\.)*")
|(?P<loc>%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+)
|(?P<glob>@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)
|(?P<meta>![-a-zA-Z$._0-9]*)
|(?P<attr>\#\d+)
|(?P<com>\$[-a-zA-Z$._0-9"]+)
|(?P<num>0x[KLMHR]?[0-9A-Fa-f]+|-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
|(?P<word>[a-zA-Z_][-a-zA-Z$._0-9]*)
|(?P<dots>\.\.\.)
|(?P<p>[(){}\[\]<>=,*:|])
|(?P<ws>\s+)
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise ParseError('tok %r' % s[i:i + 60])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        i = m.end()
    return out


# types: ('i',n) ('ptr',) ('float',) ('double',) ('x86_fp80',) ('void',) ('struct',[t..],packed) ('named',name)
#        ('array',n,t) ('vec',n,t) ('label',) ('metadata',)
class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if self.peek() != s:
            raise ParseError('expected %r got %r in %r' % (s, self.t[self.i:self.i + 6], ' '.join(x[1] for x in self.t)))
        self.i += 1

    def type(self):
        k = self.peek()
        if k is None:
            raise ParseError('eof type')
        if self.kind() == 'loc':
            self.next()
            t = ('named', unq(k[1:]))
        elif re.fullmatch(r'i\d+', k):
            self.next()
            t = ('i', int(k[1:]))
        elif k == 'ptr':
            self.next()
            if self.peek() == 'addrspace':
                raise ParseError('addrspace')
            t = ('ptr',)
        elif k in ('float', 'double', 'x86_fp80', 'void', 'label', 'metadata', 'half', 'fp128', 'token'):
            self.next()
            t = (k,)
        elif k == '{':
            self.next()
            el = []
            while not self.accept('}'):
                el.append(self.type())
                self.accept(',')
            t = ('struct', tuple(el), False)
        elif k == '<':
            self.next()
            if self.peek() == '{':
                self.next()
                el = []
                while not self.accept('}'):
                    el.append(self.type())
                    self.accept(',')
                self.expect('>')
                t = ('struct', tuple(el), True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif k == '[':
            self.next()
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('array', n, e)
        else:
            raise ParseError('type? %r in %r' % (k, ' '.join(x[1] for x in self.t)[:200]))
        # function type "ret (args)" appears in calls to varargs
        return t

    ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'inreg', 'noalias', 'nocapture', 'readonly', 'writeonly',
             'readnone', 'returned', 'nest', 'immarg', 'noreturn', 'nounwind', 'dead_on_unwind', 'writable',
             'allocptr', 'swiftself', 'nofree', 'allocalign'}

    def attrs(self):
        """parameter attributes -> dict"""
        a = {}
        while True:
            k = self.peek()
            if k in self.ATTRS:
                self.next()
                a[k] = True
            elif k in ('align',):
                self.next()
                if self.accept('('):
                    a['align'] = int(self.next())
                    self.expect(')')
                else:
                    a['align'] = int(self.next())
            elif k in ('dereferenceable', 'dereferenceable_or_null'):
                self.next()
                self.expect('(')
                a[k] = int(self.next())
                self.expect(')')
            elif k in ('sret', 'byval', 'byref', 'elementtype', 'inalloca', 'preallocated'):
                self.next()
                self.expect('(')
                a[k] = self.type()
                self.expect(')')
            else:
                return a

    def value(self, ty):
        """operand value -> tuple"""
        k = self.kind()
        v = self.peek()
        if k == 'loc':
            self.next()
            return ('loc', unq(v[1:]))
        if k == 'glob':
            self.next()
            return ('glob', unq(v[1:]))
        if k == 'num':
            self.next()
            if ty[0] == 'i':
                return ('int', int(v))
            return ('fp', v)
        if k == 'str':
            self.next()
            return ('cstr', cstr(v))
        if v in ('true', 'false'):
            self.next()
            return ('int', 1 if v == 'true' else 0)
        if v == 'null':
            self.next()
            return ('null',)
        if v in ('undef', 'poison'):
            self.next()
            return ('undef',)
        if v == 'zeroinitializer':
            self.next()
            return ('zero',)
        if v == 'none':
            self.next()
            return ('none',)
        if v == '{' or v == '[' or v == '<':
            close = {'{': '}', '[': ']', '<': '>'}[v]
            self.next()
            packed = False
            if v == '<' and self.peek() == '{':
                self.next()
                close = '}'
                packed = True
            el = []
            while not self.accept(close):
                t = self.type()
                el.append((t, self.value(t)))
                self.accept(',')
            if packed:
                self.expect('>')
            return ('agg', el)
        if v == 'getelementptr':
            self.next()
            while self.peek() in ('inbounds', 'nuw', 'nusw') or self.peek() == 'inrange':
                self.next()
                if self.peek() == '(' and self.peek(1) != 'i8' and self.kind(1) == 'num':
                    while self.next() != ')':
                        pass
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = []
            while True:
                if self.peek() == 'inrange':
                    self.next()
                t = self.type()
                ops.append((t, self.value(t)))
                if not self.accept(','):
                    break
            self.expect(')')
            return ('cgep', bt, ops)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.next()
            self.expect('(')
            t = self.type()
            x = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ccast', v, t, x, t2)
        if v in ('add', 'sub', 'mul', 'xor', 'shl'):
            self.next()
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            t = self.type()
            x = self.value(t)
            self.expect(',')
            t2 = self.type()
            y = self.value(t2)
            self.expect(')')
            return ('cbin', v, t, x, y)
        raise ParseError('value? %r' % (self.t[self.i:self.i + 8],))

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


def unq(s):
    if s.startswith('"'):
        s = s[1:-1]
        s = re.sub(r'\\([0-9A-Fa-f]{2})', lambda m: chr(int(m.group(1), 16)), s)
    return s


def cstr(v):
    assert v.startswith('c"')
    s = v[2:-1]
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return out


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []      # (type, attrs, name)
        self.ret = None
        self.blocks = {}      # label -> list of instr
        self.order = []
        self.noreturn = False


class Instr:
    __slots__ = ('op', 'res', 'a', 'text')

    def __init__(self, op, res, a, text):
        self.op = op
        self.res = res
        self.a = a
        self.text = text


class Global:
    def __init__(self, name, ty, init, const):
        self.name = name
        self.ty = ty
        self.init = init
        self.const = const


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}

    # ---- layout (x86-64 data layout) ----
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
            if t is None:
                raise ParseError('opaque type')
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = t[1]
            return 1 if n <= 8 else 2 if n <= 16 else 4 if n <= 32 else 8 if n <= 64 else 16
        if k == 'ptr' or k == 'double':
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80' or k == 'fp128':
            return 16
        if k == 'struct':
            if t[2]:
                return 1
            return max([self.align(x) for x in t[1]] or [1])
        if k == 'array':
            return self.align(t[2])
        if k == 'vec':
            return self.size(t)
        raise ParseError('align %r' % (t,))

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = self.align(t)
            return (n + a - 1) // a * a
        if k == 'ptr' or k == 'double':
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80' or k == 'fp128':
            return 16
        if k == 'struct':
            off = 0
            for x in t[1]:
                a = 1 if t[2] else self.align(x)
                off = (off + a - 1) // a * a + self.size(x)
            a = self.align(t)
            return (off + a - 1) // a * a
        if k == 'array':
            return t[1] * self.size(t[2])
        if k == 'vec':
            return t[1] * self.size(t[2])
        raise ParseError('size %r' % (t,))

    def access_size(self, t):
        """bytes a load or store of the scalar type t touches (an i24 touches three of its four)"""
        t = self.resolve(t)
        return (t[1] + 7) // 8 if t[0] == 'i' else self.size(t)

    def field_off(self, t, i):
        t = self.resolve(t)
        if t[0] == 'array' or t[0] == 'vec':
            return i * self.size(t[2]), t[2]
        off = 0
        for j, x in enumerate(t[1]):
            a = 1 if t[2] else self.align(x)
            off = (off + a - 1) // a * a
            if j == i:
                return off, x
            off += self.size(x)
        raise ParseError('field')

    def leaves(self, t, base=0):
        """flatten a type to [(offset, scalar type)]"""
        t = self.resolve(t)
        if t[0] == 'struct':
            out = []
            for i in range(len(t[1])):
                o, x = self.field_off(t, i)
                out += self.leaves(x, base + o)
            return out
        if t[0] in ('array', 'vec'):
            out = []
            s = self.size(t[2])
            for i in range(t[1]):
                out += self.leaves(t[2], base + i * s)
            return out
        return [(base, t)]


CASTS = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp',
         'sitofp'}
BINS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
        'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'nneg',
         'inbounds', 'samesign', 'nusw'}


def parse_instr(line, mod):
    toks = tokenize(line)
    p = P(toks, mod)
    res = None
    if p.kind() == 'loc' and p.peek(1) == '=':
        res = unq(p.next()[1:])
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()

    def mk(*a):
        return Instr(op, res, a, line)

    if op in BINS:
        fl = set()
        while p.peek() in FLAGS:
            fl.add(p.next())
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return mk(t, a, b, fl)
    if op == 'fneg':
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        return mk(t, p.value(t))
    if op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS:
            p.next()
        pred = p.next()
        t = p.type()
        a = p.value(t)
        p.expect(',')
        b = p.value(t)
        return mk(pred, t, a, b)
    if op in CASTS:
        fl = set()
        while p.peek() in FLAGS:
            fl.add(p.next())
        t = p.type()
        a = p.value(t)
        p.expect('to')
        t2 = p.type()
        return mk(t, a, t2, fl)
    if op == 'ret':
        if p.peek() == 'void':
            return mk(None, None)
        t = p.type()
        return mk(t, p.value(t))
    if op == 'br':
        if p.accept('label'):
            return mk(None, unq(p.next()[1:]), None)
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        a = unq(p.next()[1:])
        p.expect(',')
        p.expect('label')
        b = unq(p.next()[1:])
        return mk(c, a, b)
    if op == 'switch':
        t = p.type()
        c = p.value(t)
        p.expect(',')
        p.expect('label')
        d = unq(p.next()[1:])
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], unq(p.next()[1:])))
        return mk(t, c, d, cases)
    if op == 'unreachable':
        return mk()
    if op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            l = unq(p.next()[1:])
            p.expect(']')
            inc.append((v, l))
            if not p.accept(','):
                break
        return mk(t, inc)
    if op == 'select':
        while p.peek() in FLAGS:
            p.next()
        tc, c = p.tv()
        p.expect(',')
        t, a = p.tv()
        p.expect(',')
        t2, b = p.tv()
        return mk(c, t, a, b)
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        n = None
        while p.accept(','):
            if p.accept('align'):
                p.next()
            else:
                nt = p.type()
                n = (nt, p.value(nt))
        return mk(t, n)
    if op == 'load':
        p.accept('volatile')
        t = p.type()
        p.expect(',')
        _, a = p.tv()
        return mk(t, a)
    if op == 'store':
        p.accept('volatile')
        t = p.type()
        v = p.value(t)
        p.expect(',')
        _, a = p.tv()
        return mk(t, v, a)
    if op == 'getelementptr':
        fl = set()
        while p.peek() in FLAGS:
            fl.add(p.next())
        bt = p.type()
        p.expect(',')
        ops = []
        while True:
            if p.kind() == 'meta' or p.peek() is None:
                break
            ops.append(p.tv())
            if not p.accept(','):
                break
        return mk(bt, ops, fl)
    if op in ('call', 'invoke'):
        while p.peek() in FLAGS:
            p.next()
        while p.peek() in ('fastcc', 'ccc', 'coldcc'):
            p.next()
        p.attrs()
        rt = p.type()
        if p.peek() == '(':          # function type (varargs)
            d = 0
            while True:
                x = p.next()
                d += x == '('
                d -= x == ')'
                if d == 0:
                    break
        if p.peek() == 'asm':
            raise ParseError('asm')
        callee = p.value(('ptr',))
        p.expect('(')
        args = []
        while not p.accept(')'):
            t = p.type()
            if t == ('metadata',):
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    x = p.next()
                    d += x == '('
                    d -= x == ')'
                args.append((t, {}, None))
            else:
                at = p.attrs()
                args.append((t, at, p.value(t)))
            p.accept(',')
        normal = unwind = None
        noret = False
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.expect('to')
            p.expect('label')
            normal = unq(p.next()[1:])
            p.expect('unwind')
            p.expect('label')
            unwind = unq(p.next()[1:])
        return mk(rt, callee, args, normal, unwind)
    if op == 'extractvalue':
        t, v = p.tv()
        idx = []
        while p.accept(','):
            if p.kind() == 'meta':
                break
            idx.append(int(p.next()))
        return mk(t, v, idx)
    if op == 'insertvalue':
        t, v = p.tv()
        p.expect(',')
        t2, w = p.tv()
        idx = []
        while p.accept(','):
            if p.kind() == 'meta':
                break
            idx.append(int(p.next()))
        return mk(t, v, t2, w, idx)
    if op == 'freeze':
        t, v = p.tv()
        return mk(t, v)
    if op in ('landingpad', 'resume', 'cleanup', 'catch', 'fence', 'va_arg', 'extractelement', 'insertelement',
              'shufflevector', 'cmpxchg', 'atomicrmw'):
        return Instr('unsupported', res, (), line)
    return Instr('unsupported', res, (), line)


TERM = {'ret', 'br', 'switch', 'unreachable', 'invoke', 'resume'}


def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    fn = None
    bodies = []
    while i < n:
        ln = lines[i]
        i += 1
        s = ln.strip()
        if not s or s.startswith(';') or s.startswith('source_filename') or s.startswith('target ') \
                or s.startswith('!') or s.startswith('attributes') or s.startswith('$'):
            continue
        if s.startswith('%') and ' = type ' in s:
            name, rest = s.split(' = type ', 1)
            if rest.strip() == 'opaque':
                mod.types[unq(name[1:])] = None
            else:
                mod.types[unq(name[1:])] = P(tokenize(rest), mod).type()
            continue
        if s.startswith('@'):
            parse_global(s, mod)
            continue
        if s.startswith('declare'):
            f = parse_header(s, mod)
            mod.decls[f.name] = f
            continue
        if s.startswith('define'):
            f = parse_header(s, mod)
            body = []
            while lines[i].strip() != '}':
                body.append(lines[i])
                i += 1
            i += 1
            bodies.append((f, body))
            mod.funcs[f.name] = f
            continue
    mod._bodies = {f.name: b for f, b in bodies}
    return mod


def func_body(mod, name):
    """parse function bodies lazily"""
    f = mod.funcs[name]
    if f.order:
        return f
    cur = None
    pend = None
    body = mod._bodies[name]
    k = 0
    while k < len(body):
        ln = body[k]
        k += 1
        s = ln.strip()
        if not s or s.startswith(';'):
            continue
        m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
        if m:
            cur = unq(m.group(1))
            f.blocks[cur] = []
            f.order.append(cur)
            continue
        if cur is None:
            cur = '0entry'
            f.blocks[cur] = []
            f.order.append(cur)
        # multi-line constructs: switch [...], invoke ... \n to label, landingpad clauses
        if ' switch ' in ' ' + s and s.endswith('['):
            while True:
                t = body[k].strip()
                k += 1
                s += ' ' + t
                if t.startswith(']'):
                    break
        elif re.search(r'(^|= )invoke ', s):
            s += ' ' + body[k].strip()
            k += 1
        elif '= landingpad' in s:
            while body[k].strip().startswith(('catch', 'filter', 'cleanup')):
                k += 1
        # strip trailing metadata
        s2 = re.sub(r'(, ![a-zA-Z0-9._]+ !\d+)+$', '', s)
        try:
            ins = parse_instr(s2, mod)
        except ParseError as e:
            ins = Instr('unsupported', None, (), s + ' ## ' + str(e)[:200])
        f.blocks[cur].append(ins)
    return f


LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
        'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'default', 'hidden', 'protected',
        'unnamed_addr', 'local_unnamed_addr', 'externally_initialized', 'thread_local'}


def parse_global(s, mod):
    m = re.match(r'^(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+) = (.*)$', s)
    name = unq(m.group(1)[1:])
    rest = m.group(2)
    try:
        p = P(tokenize(rest), mod)
        ext = False
        while p.peek() in LINK:
            if p.next() in ('external', 'extern_weak'):
                ext = True
        k = p.next()
        if k not in ('constant', 'global'):
            return
        t = p.type()
        init = None
        if not ext:
            init = p.value(t)
        mod.globals[name] = Global(name, t, init, k == 'constant')
    except ParseError:
        mod.globals[name] = Global(name, None, None, False)


def parse_header(s, mod):
    s0 = s
    p = P(tokenize(s), mod)
    p.next()
    while p.peek() in LINK or p.peek() in ('fastcc', 'ccc'):
        p.next()
    p.attrs()
    rt = p.type()
    name = unq(p.next()[1:])
    f = Func(name)
    f.ret = rt
    p.expect('(')
    k = 0
    while not p.accept(')'):
        if p.peek() == '...':
            p.next()
            f.vararg = True
            continue
        t = p.type()
        at = p.attrs()
        nm = None
        if p.kind() == 'loc':
            nm = unq(p.next()[1:])
        else:
            nm = str(k)
        f.params.append((t, at, nm))
        k += 1
        p.accept(',')
    f.noreturn = 'noreturn' in s0
    return f
