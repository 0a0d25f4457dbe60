"""Reader for textual LLVM IR (LLVM 18, opaque pointers).

Functions are decoded lazily, the first time the engine enters them.
Anything that is not understood raises IRError: the check then ends with an
error exit, never with a verdict.
"""
import re
import struct
from fractions import Fraction


class IRError(Exception):
    pass


TOK = re.compile(r'''
   \s+
 | ;.*
 | (?P<cstr>c"[^"]*")
 | (?P<name>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]*))
 | (?P<attr>\#\d+)
 | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<str>"[^"]*")
 | (?P<num>[-+]?\d+\.\d*(?:[eE][-+]?\d+)?|0x[0-9A-Fa-f]+|0xK[0-9A-Fa-f]+|[-+]?\d+)
 | (?P<dots>\.\.\.)
 | (?P<id>[a-zA-Z_][-a-zA-Z0-9_.]*)
 | (?P<p>[()\[\]{}<>,=*|:])
''', re.X)


def tokenize(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise IRError('token? ' + s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        if k:
            out.append(m.group(k))
    return out


def unq(name):
    """strip sigil and quotes"""
    r = name[1:]
    if r.startswith('"'):
        r = r[1:-1]
    return r


# --- types -------------------------------------------------------------
# ('i',N) ('double',) ('float',) ('x86_fp80',) ('ptr',) ('void',) ('label',)
# ('struct',(T..),packed) ('array',n,T) ('vec',n,T) ('named',name)

VOID = ('void',)
PTR = ('ptr',)
DOUBLE = ('double',)


class Cur:
    __slots__ = ('t', 'i', 'm')

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise IRError('expected %s got %s in %s' % (x, y, ' '.join(self.t[:40])))

    # -- types
    def type(self):
        x = self.next()
        if x == 'ptr':
            if self.peek() == 'addrspace':
                raise IRError('addrspace')
            t = PTR
        elif x[0] == 'i' and x[1:].isdigit():
            t = ('i', int(x[1:]))
        elif x in ('double', 'float', 'void', 'label', 'x86_fp80', 'metadata', 'token', 'half', 'fp128'):
            t = (x,)
        elif x == '{':
            t = self._struct('}', False)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                t = self._struct('}', True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('array', n, e)
        elif x[0] == '%':
            t = ('named', unq(x))
        else:
            raise IRError('type? ' + x + ' in ' + ' '.join(self.t[:30]))
        # function type suffix  T (args)
        if self.peek() == '(' and x not in ('metadata',):
            # only valid in call signatures of varargs functions; skip it
            self._skip_parens()
            t = ('fn', t)
        return t

    def _skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def _struct(self, close, packed):
        el = []
        if not self.accept(close):
            while True:
                el.append(self.type())
                if self.accept(close):
                    break
                self.expect(',')
        return ('struct', tuple(el), packed)

    ATTR1 = {'noundef', 'nonnull', 'readonly', 'readnone', 'writeonly', 'nocapture', 'noalias', 'signext', 'zeroext',
             'inreg', 'returned', 'immarg', 'nest', 'swiftself', 'nofree', 'noreturn', 'writable', 'dead_on_unwind',
             'allocptr', 'allocalign', 'range', 'captures'}

    def skip_attrs(self):
        """parameter / return attributes; returns dict of interesting ones"""
        while True:
            x = self.peek()
            if x in self.ATTR1:
                self.next()
                if self.peek() == '(' and x in ('range', 'captures'):
                    self._skip_parens()
            elif x == 'align':
                self.next()
                if self.peek() == '(':
                    self._skip_parens()
                else:
                    self.next()
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'preallocated',
                       'inalloca', 'elementtype', 'initializes', 'nofpclass', 'memory', 'allocsize'):
                if x == 'byval':
                    # pointer to a caller-made copy: the callee may modify it,
                    # clang has already made the copy at the call site
                    pass
                self.next()
                self._skip_parens()
            else:
                return

    # -- values
    def value(self, ty):
        x = self.next()
        if x[0] == '%':
            return ('r', unq(x))
        if x[0] == '@':
            return ('g', unq(x))
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x == 'null':
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef', ty)
        if x == 'zeroinitializer':
            return ('zero', ty)
        if x == 'none':
            return ('null',)
        c = x[0]
        if c.isdigit() or c in '-+':
            if ty[0] == 'i':
                return ('c', int(x) & ((1 << ty[1]) - 1))
            if ty[0] in ('double', 'float', 'x86_fp80'):
                return ('f', fconst(x))
            raise IRError('number of type %s' % (ty,))
        if x.startswith('c"'):
            return ('str', cstring(x[2:-1]))
        if x in ('{', '[', '<'):
            if x == '<' and self.peek() == '{':
                self.next()
                vals = self._agg('}')
                self.expect('>')
            else:
                vals = self._agg({'{': '}', '[': ']', '<': '>'}[x])
            return ('agg', ty, vals)
        if x in ('getelementptr',):
            while self.peek() in ('inbounds', 'inrange', 'nuw', 'nusw'):
                self.next()
                if self.peek() == '(' and self.peek(1) and re.match(r'[-\d]', self.peek(1)):
                    self._skip_parens()
            self.expect('(')
            bt = self.type()
            ops = []
            while self.accept(','):
                if self.peek() == 'inrange':
                    self.next()
                t = self.type()
                ops.append((t, self.value(t)))
            self.expect(')')
            return ('cgep', bt, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('ccast', x, t, v, t2)
        if x in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
            while self.peek() in ('nsw', 'nuw'):
                self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('cbin', x, t, a, b)
        if x == 'icmp':
            pred = self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('cicmp', pred, t, a, b)
        if x in ('dso_local_equivalent', 'no_cfi'):
            return self.value(ty)
        raise IRError('value? ' + x + ' in ' + ' '.join(self.t[:40]))

    def _agg(self, close):
        vals = []
        if self.accept(close):
            return vals
        while True:
            t = self.type()
            vals.append((t, self.value(t)))
            if self.accept(close):
                return vals
            self.expect(',')

    def typed(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)


def fconst(x):
    if x.startswith('0xK') or x.startswith('0xL') or x.startswith('0xM'):
        raise IRError('extended float constant')
    if x.startswith('0x'):
        v = struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0]
        if v != v or v in (float('inf'), float('-inf')):
            return ('special', v)
        return Fraction(v)
    return Fraction(float(x))


def cstring(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('utf-8', 'surrogateescape')
            i += 1
    return bytes(out)


class Func:
    __slots__ = ('name', 'lines', 'head', 'args', 'ret', 'blocks', 'entry', 'mod', 'decoded', 'info')

    def __init__(self, name, head, lines, mod):
        self.name = name
        self.head = head
        self.lines = lines
        self.mod = mod
        self.decoded = False
        self.info = {}


class Module:
    def __init__(self, path):
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}     # name -> (type, init value ast | None, const)
        self.aliases = {}
        self.ctors = []
        self._size = {}
        self._layout = {}
        with open(path, encoding='utf-8', errors='surrogateescape') as f:
            self._scan(f.read().split('\n'))

    def _scan(self, lines):
        i, n = 0, len(lines)
        while i < n:
            L = lines[i]
            if L.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', L)
                nm = unq('@' + m.group(1))
                self.funcs[nm] = Func(nm, L, lines[i + 1:j], self)
                i = j + 1
                continue
            if L.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', L)
                self.decls[unq('@' + m.group(1))] = L
            elif L.startswith('%'):
                c = Cur(tokenize(L), self)
                nm = unq(c.next())
                c.expect('=')
                c.expect('type')
                if c.peek() == 'opaque':
                    self.types[nm] = ('struct', (), False)
                else:
                    self.types[nm] = c.type()
            elif L.startswith('@'):
                self._global(L)
            i += 1

    def _global(self, L):
        m = re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', L)
        nm = unq('@' + m.group(1))
        c = Cur(tokenize(m.group(2)), self)
        ext = False
        tls = False
        while True:
            x = c.peek()
            if x in ('global', 'constant'):
                c.next()
                break
            if x == 'alias':
                c.next()
                c.type()
                c.expect(',')
                t = c.type()
                self.aliases[nm] = c.value(t)
                return
            if x in ('external', 'extern_weak'):
                ext = True
            if x == 'thread_local':
                tls = True
            c.next()
            if c.peek() == '(':
                c._skip_parens()
        ty = c.type()
        init = None
        if not ext:
            init = c.value(ty)
        if nm == 'llvm.global_ctors':
            if init[0] == 'agg':
                for t, v in init[2]:
                    self.ctors.append((v[2][0][1][1], v[2][1][1][1]))
                self.ctors.sort()
            return
        self.globals[nm] = (ty, init, ext)

    # --- layout -----------------------------------------------------------
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def size(self, t):
        s = self._size.get(t)
        if s is None:
            s = self._sizealign(t)
            self._size[t] = s
        return s[0]

    def align(self, t):
        self.size(t)
        return self._size[t][1]

    def _sizealign(self, t):
        k = t[0]
        if k == 'named':
            r = self.resolve(t)
            return self.size(r), self.align(r)
        if k == 'i':
            b = (t[1] + 7) // 8
            a = 1
            while a < b:
                a *= 2
            a = min(a, 16)
            return (b + a - 1) // a * a, a
        if k == 'double':
            return 8, 8
        if k == 'float':
            return 4, 4
        if k in ('x86_fp80', 'fp128'):
            return 16, 16
        if k == 'ptr':
            return 8, 8
        if k == 'array':
            return t[1] * self.size(t[2]), self.align(t[2])
        if k == 'vec':
            s = t[1] * self.size(t[2])
            return s, s
        if k == 'struct':
            off, al = 0, 1
            for e in t[1]:
                a = 1 if t[2] else self.align(e)
                off = (off + a - 1) // a * a + self.size(e)
                al = max(al, a)
            return (off + al - 1) // al * al, al
        raise IRError('size of %s' % (t,))

    def offsets(self, t):
        """field offsets of a struct type"""
        t = self.resolve(t)
        o = self._layout.get(t)
        if o is None:
            o = []
            off = 0
            for e in t[1]:
                a = 1 if t[2] else self.align(e)
                off = (off + a - 1) // a * a
                o.append(off)
                off += self.size(e)
            self._layout[t] = o
        return o

    # --- functions ------------------------------------------------------
    def decode(self, f):
        if f.decoded:
            return
        toks = tokenize(f.head)
        # header: find '@name' then '('
        k = next(i for i, x in enumerate(toks) if x[0] == '@' and unq(x) == f.name)
        # return type: parse from tokens before k, skipping linkage words
        c = Cur(toks, self)
        c.next()
        while True:
            x = c.peek()
            if x in ('void', 'ptr', 'double', 'float', 'x86_fp80', '{', '[', '<') or x[0] == '%' or \
                    re.fullmatch(r'i\d+', x):
                break
            c.next()
            if c.peek() == '(':
                c._skip_parens()
            elif x == 'align':
                c.next()
        f.ret = c.type()
        c.i = k + 1
        c.expect('(')
        args = []
        cnt = 0
        if not c.accept(')'):
            while True:
                if c.peek() == '...':
                    c.next()
                else:
                    t = c.type()
                    c.skip_attrs()
                    if c.peek() and c.peek()[0] == '%':
                        nm = unq(c.next())
                        if nm.isdigit():
                            cnt = int(nm) + 1
                    else:
                        nm = str(cnt)
                        cnt += 1
                    args.append((t, nm))
                if c.accept(')'):
                    break
                c.expect(',')
        f.args = args
        blocks = {}
        cur = None
        label = None
        lines = f.lines
        i, n = 0, len(lines)
        LAB = re.compile(r'^("[^"]*"|[-a-zA-Z$._0-9]+):')
        while i < n:
            L = lines[i]
            i += 1
            if not L.strip() or L.lstrip().startswith(';'):
                continue
            m = LAB.match(L)
            if m and not L.startswith(' '):
                label = m.group(1)
                if label.startswith('"'):
                    label = label[1:-1]
                cur = blocks[label] = []
                if f.__dict__ if hasattr(f, '__dict__') else False:
                    pass
                if len(blocks) == 1:
                    f.entry = label
                continue
            if cur is None:
                label = str(cnt)
                f.entry = label
                cur = blocks[label] = []
            while i < n and lines[i].startswith('          '):
                L += ' ' + lines[i].strip()
                i += 1
            if L.lstrip().startswith('switch ') and not L.rstrip().endswith(']') and '[' in L and ']' not in L.split('[', 1)[1]:
                while True:
                    L += ' ' + lines[i].strip()
                    i += 1
                    if lines[i - 1].strip().startswith(']'):
                        break
            cur.append(self._instr(L))
        f.blocks = blocks
        f.decoded = True

    def _instr(self, L):
        toks = tokenize(L)
        # cut metadata:  ", !foo !5"
        for j, x in enumerate(toks):
            if x[0] == '!' and j > 0 and toks[j - 1] == ',' and 'metadata' not in toks[max(0, j - 2):j]:
                toks = toks[:j - 1]
                break
        c = Cur(toks, self)
        dest = None
        if toks[0][0] == '%' and len(toks) > 1 and toks[1] == '=':
            dest = unq(toks[0])
            c.i = 2
        op = c.next()
        if op in ('tail', 'musttail', 'notail'):
            op = c.next()
        if op in ('add', 'sub', 'mul', 'shl', 'udiv', 'sdiv', 'urem', 'srem', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while c.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract',
                               'afn', 'reassoc'):
                fl.add(c.next())
            t = c.type()
            a = c.value(t)
            c.expect(',')
            b = c.value(t)
            return ('bin', dest, op, t, a, b, fl)
        if op == 'fneg':
            while c.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                c.next()
            t = c.type()
            return ('fneg', dest, t, c.value(t))
        if op in ('icmp', 'fcmp'):
            while c.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'samesign'):
                c.next()
            pred = c.next()
            t = c.type()
            a = c.value(t)
            c.expect(',')
            b = c.value(t)
            return (op, dest, pred, t, a, b)
        if op == 'load':
            while c.peek() in ('volatile', 'atomic'):
                c.next()
            t = c.type()
            c.expect(',')
            pt, p = c.typed()
            return ('load', dest, t, p)
        if op == 'store':
            while c.peek() in ('volatile', 'atomic'):
                c.next()
            t, v = c.typed()
            c.expect(',')
            pt, p = c.typed()
            return ('store', None, t, v, p)
        if op == 'getelementptr':
            while c.peek() in ('inbounds', 'nuw', 'nusw'):
                c.next()
            bt = c.type()
            c.expect(',')
            ops = []
            while True:
                ops.append(c.typed())
                if not c.accept(','):
                    break
            return ('gep', dest, bt, ops[0][1], ops[1:])
        if op == 'alloca':
            t = c.type()
            n = ('c', 1)
            while c.accept(','):
                if c.peek() == 'align':
                    c.next()
                    c.next()
                else:
                    nt = c.type()
                    n = c.value(nt)
            return ('alloca', dest, t, n)
        if op == 'br':
            if c.peek() == 'label':
                c.next()
                return ('br', None, unq(c.next()))
            t = c.type()
            v = c.value(t)
            c.expect(',')
            c.expect('label')
            a = unq(c.next())
            c.expect(',')
            c.expect('label')
            b = unq(c.next())
            return ('cbr', None, v, a, b)
        if op == 'switch':
            t = c.type()
            v = c.value(t)
            c.expect(',')
            c.expect('label')
            d = unq(c.next())
            c.expect('[')
            cases = []
            while not c.accept(']'):
                ct = c.type()
                cv = c.value(ct)
                c.expect(',')
                c.expect('label')
                cases.append((cv[1], unq(c.next())))
            return ('switch', None, t, v, d, cases)
        if op == 'phi':
            while c.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                c.next()
            t = c.type()
            inc = {}
            while True:
                c.expect('[')
                v = c.value(t)
                c.expect(',')
                lab = unq(c.next())
                c.expect(']')
                inc[lab] = v
                if not c.accept(','):
                    break
            return ('phi', dest, t, inc)
        if op == 'select':
            while c.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
                c.next()
            ct, cv = c.typed()
            c.expect(',')
            t, a = c.typed()
            c.expect(',')
            t2, b = c.typed()
            return ('select', dest, t, cv, a, b)
        if op in ('call', 'invoke'):
            while c.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fastcc', 'ccc',
                               'coldcc'):
                c.next()
            c.skip_attrs()
            t = c.type()
            if t[0] == 'fn':
                t = t[1]
            if c.peek() == 'asm':
                raise IRError('inline asm')
            fnv = c.value(PTR)
            c.expect('(')
            args = []
            if not c.accept(')'):
                while True:
                    at = c.type()
                    if at[0] == 'metadata':
                        # skip a metadata operand
                        d = 0
                        while c.peek() not in (',', ')') or d:
                            x = c.next()
                            if x == '(':
                                d += 1
                            elif x == ')':
                                d -= 1
                        args.append((at, ('undef', at)))
                    else:
                        c.skip_attrs()
                        args.append((at, c.value(at)))
                    if c.accept(')'):
                        break
                    c.expect(',')
            if op == 'call':
                return ('call', dest, t, fnv, args, None, None)
            while c.peek() != 'to':
                c.next()
            c.next()
            c.expect('label')
            a = unq(c.next())
            c.expect('unwind')
            c.expect('label')
            b = unq(c.next())
            return ('call', dest, t, fnv, args, a, b)
        if op == 'landingpad':
            t = c.type()
            clauses = []
            while c.peek() is not None:
                x = c.next()
                if x == 'cleanup':
                    clauses.append(('cleanup', None))
                elif x in ('catch', 'filter'):
                    tt = c.type()
                    clauses.append((x, c.value(tt)))
                else:
                    raise IRError('landingpad ' + x)
            return ('landingpad', dest, clauses)
        if op == 'resume':
            t, v = c.typed()
            return ('resume', None, v)
        if op == 'ret':
            if c.peek() == 'void':
                return ('ret', None, None, None)
            t, v = c.typed()
            return ('ret', None, t, v)
        if op == 'unreachable':
            return ('unreachable', None)
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                  'fpext', 'fptrunc', 'addrspacecast'):
            while c.peek() in ('nneg', 'nuw', 'nsw', 'fast', 'nnan', 'ninf', 'nsz', 'contract'):
                c.next()
            t = c.type()
            v = c.value(t)
            c.expect('to')
            t2 = c.type()
            return ('cast', dest, op, t, v, t2)
        if op == 'freeze':
            t, v = c.typed()
            return ('freeze', dest, t, v)
        if op == 'extractvalue':
            t, v = c.typed()
            idx = []
            while c.accept(','):
                idx.append(int(c.next()))
            return ('extractvalue', dest, v, idx)
        if op == 'insertvalue':
            t, v = c.typed()
            c.expect(',')
            t2, e = c.typed()
            idx = []
            while c.accept(','):
                idx.append(int(c.next()))
            return ('insertvalue', dest, t, v, e, idx)
        if op == 'extractelement':
            t, v = c.typed()
            c.expect(',')
            t2, k = c.typed()
            return ('extractelement', dest, t, v, k)
        if op == 'insertelement':
            t, v = c.typed()
            c.expect(',')
            t2, e = c.typed()
            c.expect(',')
            t3, k = c.typed()
            return ('insertelement', dest, t, v, e, k)
        if op == 'shufflevector':
            t, v = c.typed()
            c.expect(',')
            t2, w = c.typed()
            c.expect(',')
            t3, k = c.typed()
            return ('shufflevector', dest, t, v, w, k, t3)
        if op == 'fence':
            return ('nop', None)
        if op == 'cmpxchg' or op == 'atomicrmw':
            return ('unsupported', dest, L)
        return ('unsupported', dest, L)
