"""Symbolic execution of LLVM IR over exact domains; generator of proof
obligations.

Value domain
  iN      Python int | z3 BitVec | Poly (mathematical integer) | Ptr
  i1      0/1 | z3 Bool | Atom
  double  Fraction | Poly | special float (inf/nan)
  ptr     Ptr(obj, offset)
  struct  tuple
Memory is a set of objects; an object maps offsets to (size, value).
"""
import re
import subprocess
import sys
from fractions import Fraction
import itertools
import z3
from . import llir, poly, logic
from .llir import IRError
from .poly import Poly
from .logic import Atom, PathCond


class EngineError(Exception):
    """the engine cannot give an answer (error exit, never a verdict)"""


class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts          # list of functions(state) applying the assumption


class PathEnd(Exception):
    """this path stops (infeasible or cut)"""


class _Undef:
    def __repr__(self):
        return 'undef'


UNDEF = _Undef()


class Ptr:
    __slots__ = ('o', 'off')

    def __init__(self, o, off):
        self.o = o
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.o, self.off)

    def __eq__(self, x):
        return isinstance(x, Ptr) and x.o == self.o and type(x.off) is type(self.off) and x.off == self.off

    def __hash__(self):
        return hash((self.o, self.off if isinstance(self.off, int) else 0))


NULL = Ptr(0, 0)


class Cat:
    """a wide value made of cells: [(off, size, value)]"""
    __slots__ = ('parts', 'size')

    def __init__(self, parts, size):
        self.parts = parts
        self.size = size


class PBits:
    """an integer some bits of which are undefined (bit fields)"""
    __slots__ = ('val', 'known')

    def __init__(self, val, known):
        self.val = val
        self.known = known

    def __repr__(self):
        return 'PBits(%x/%x)' % (self.val, self.known)

    def __eq__(self, x):
        return type(x) is PBits and (x.val, x.known) == (self.val, self.known)

    def __hash__(self):
        return hash((self.val, self.known))


def pbits(val, known, mask):
    known &= mask
    if known == mask:
        return val & mask
    return PBits(val & known, known) if known else UNDEF


def pb_bin(o, x, y, w, mask):
    def parts(v):
        return (v.val, v.known) if type(v) is PBits else (0, 0) if v is UNDEF else (v, mask)
    (a, ka), (b, kb) = parts(x), parts(y)
    if o == 'and':
        return pbits(a & b, (ka & kb) | (ka & ~a) | (kb & ~b), mask)
    if o == 'or':
        return pbits(a | b, (ka & kb) | a | b, mask)
    if o == 'xor':
        return pbits(a ^ b, ka & kb, mask)
    if o == 'shl' and type(y) is int and y < w:
        return pbits(a << y, (ka << y) | ((1 << y) - 1), mask)
    if o == 'lshr' and type(y) is int and y < w:
        return pbits(a >> y, (ka >> y) | (mask & ~(mask >> y)), mask)
    return UNDEF


class Obj:
    __slots__ = ('size', 'cells', 'zero', 'owner', 'name', 'alive', 'const', 'base', 'kind')

    def __init__(self, size, name, owner, base, kind='heap'):
        self.size = size
        self.cells = {}
        self.zero = ()
        self.owner = owner
        self.name = name
        self.alive = True
        self.const = False
        self.base = base
        self.kind = kind

    def clone(self, owner):
        o = Obj(self.size, self.name, owner, self.base, self.kind)
        o.cells = dict(self.cells)
        o.zero = self.zero
        o.alive = self.alive
        o.const = self.const
        return o


class Frame:
    __slots__ = ('cf', 'block', 'i', 'R', 'dest', 'unwind', 'normal', 'allocas', 'onret', 'fid')

    def copy(self):
        f = Frame()
        f.cf = self.cf
        f.block = self.block
        f.i = self.i
        f.R = list(self.R)
        f.dest = self.dest
        f.unwind = self.unwind
        f.normal = self.normal
        f.allocas = list(self.allocas)
        f.onret = self.onret
        f.fid = self.fid
        return f


class State:
    __slots__ = ('frames', 'mem', 'base', 'pc', 'exc', 'ghost', 'eng', 'sid', 'ret', 'trace', 'cuts', 'nobj', 'addr',
                 'caught', 'steps')
    counter = 0

    def __init__(self, eng):
        State.counter += 1
        self.sid = State.counter
        self.eng = eng
        self.frames = []
        self.mem = {}
        self.base = {}
        self.pc = PathCond()
        self.exc = None
        self.ghost = {}
        self.ret = None
        self.trace = []
        self.cuts = ()
        self.nobj = 1
        self.addr = 0x10000
        self.caught = []
        self.steps = 0

    def fork(self):
        s = State(self.eng)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.base = self.base
        s.pc = self.pc.copy()
        s.exc = self.exc
        s.ghost = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v)
                   for k, v in self.ghost.items()}
        s.trace = list(self.trace)
        s.cuts = self.cuts
        s.nobj = self.nobj
        s.addr = self.addr
        s.caught = list(self.caught)
        s.steps = self.steps
        # both must copy objects before writing
        self.sid = State.counter = State.counter + 1
        return s

    def freeze(self):
        """make the current memory the shared base of later states"""
        b = dict(self.base)
        b.update(self.mem)
        self.base = b
        self.mem = {}
        State.counter += 1
        self.sid = State.counter

    # -- objects ------------------------------------------------------
    def new_obj(self, size, name, kind='heap'):
        k = self.nobj
        self.nobj += 1
        o = Obj(size, name, self.sid, self.addr, kind)
        self.addr += (size + 63) // 64 * 64 + 64
        self.mem[k] = o
        return k

    def obj(self, k):
        o = self.mem.get(k)
        if o is None:
            o = self.base.get(k)
        return o

    def wobj(self, k):
        o = self.mem.get(k)
        if o is None:
            o = self.base.get(k)
            if o is None:
                raise EngineError('write through invalid pointer object %s' % (k,))
        if o.owner != self.sid:
            o = o.clone(self.sid)
            self.mem[k] = o
        return o

    def fail(self, what):
        self.eng.safety_failure(self, what)

    # -- load/store ---------------------------------------------------
    def check(self, p, size, what):
        if not isinstance(p, Ptr):
            raise EngineError('%s through %r' % (what, p))
        if p.o == 0:
            self.fail('null pointer %s' % what)
        o = self.mem.get(p.o)
        if o is None:
            o = self.base.get(p.o)
        if o is None:
            raise EngineError('%s through pointer to %r' % (what, p))
        if not o.alive:
            self.fail('%s of freed memory (%s)' % (what, o.name))
        off = p.off
        if type(off) is not int:
            off = self.eng.concretize(self, off, 64, 'address')
            if off >= 1 << 63:
                off -= 1 << 64
        if off < 0 or off + size > o.size:
            self.fail('out of bounds %s: offset %d size %d of %s (size %s)' % (what, off, size, o.name, o.size))
        return o, off

    def load(self, p, size, isint=True):
        if type(p) is Ptr and type(p.off) is int:
            o = self.mem.get(p.o)
            if o is None:
                o = self.base.get(p.o)
            if o is not None and o.alive:
                c = o.cells.get(p.off)
                if c is not None and c[0] == size:
                    return c[1]
        o, off = self.check(p, size, 'read')
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return c[1]
        return self._slow_load(o, off, size)

    def _slow_load(self, o, off, size):
        # collect overlapping cells
        parts = []
        for k in range(off - 31, off + size):
            c = o.cells.get(k)
            if c is not None and k + c[0] > off:
                parts.append((k, c[0], c[1]))
        if not parts:
            for a, b in o.zero:
                if a <= off and off + size <= b:
                    return 0
            # partially zero?
            return UNDEF
        if len(parts) == 1 and parts[0][0] <= off and parts[0][0] + parts[0][1] >= off + size:
            k, n, v = parts[0]
            return extract_bytes(v, n, off - k, size)
        # fill holes
        full = []
        pos = off
        for k, n, v in parts:
            a, b = max(k, off), min(k + n, off + size)
            if a > pos:
                full.append((pos, a - pos, self._hole(o, pos, a - pos)))
            if a == k and b == k + n:
                full.append((k, n, v))
            else:
                full.append((a, b - a, extract_bytes(v, n, a - k, b - a)))
            pos = b
        if pos < off + size:
            full.append((pos, off + size - pos, self._hole(o, pos, off + size - pos)))
        if all(type(v) is int for _, _, v in full):
            r = 0
            for k, n, v in full:
                r |= v << (8 * (k - off))
            return r
        if all(type(v) is int or z3.is_bv(v) for _, _, v in full):
            bs = []
            for k, n, v in reversed(full):
                bs.append(z3.BitVecVal(v, 8 * n) if type(v) is int else
                          (v if v.size() == 8 * n else z3.ZeroExt(8 * n - v.size(), v)))
            return z3.Concat(*bs)
        return Cat([(k - off, n, v) for k, n, v in full], size)

    def _hole(self, o, off, n):
        for a, b in o.zero:
            if a <= off and off + n <= b:
                return 0
        return UNDEF

    def store(self, p, size, v):
        o, off = self.check(p, size, 'write')
        if self.cuts:
            self.eng.log_write(self, p.o, off, size, v)
        if o.const:
            self.fail('write to constant %s' % o.name)
        if o.owner != self.sid:
            o = self.wobj(p.o)
        if type(v) is Cat and size == v.size:
            self._clear(o, off, size)
            for k, n, x in v.parts:
                if x is not UNDEF:
                    o.cells[off + k] = (n, x)
            return
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            o.cells[off] = (size, v)
            return
        self._clear(o, off, size)
        o.cells[off] = (size, v)

    def _clear(self, o, off, size):
        cells = o.cells
        if not cells:
            return
        if size > 256 and len(cells) < size:
            ks = [k for k in cells if off - 31 <= k < off + size]
        else:
            ks = range(off - 31, off + size)
        for k in ks:
            c = cells.get(k)
            if c is None:
                continue
            n, v = c
            if k + n <= off:
                continue
            del cells[k]
            if k < off:
                x = extract_bytes(v, n, 0, off - k)
                cells[k] = (off - k, x)
            if k + n > off + size:
                x = extract_bytes(v, n, off + size - k, k + n - off - size)
                cells[off + size] = (k + n - off - size, x)

    def memset(self, p, byte, n):
        if n == 0:
            return
        o, off = self.check(p, n, 'memset')
        if self.cuts:
            for k in range(off, off + n, 8):
                self.eng.log_write(self, p.o, k, min(8, off + n - k), 0 if byte == 0 else UNDEF)
        o = self.wobj(p.o)
        self._clear(o, off, n)
        if byte == 0:
            o.zero = _addrange(o.zero, off, off + n)
        else:
            for k in range(off, off + n):
                o.cells[k] = (1, byte)

    def memcpy(self, d, s, n):
        if n == 0:
            return
        so, soff = self.check(s, n, 'memcpy read')
        do, doff = self.check(d, n, 'memcpy write')
        do = self.wobj(d.o)
        if d.o == s.o:
            so = do
        # collect source
        src = []
        if n > 4 * len(so.cells):
            ks = sorted(k for k in so.cells if soff - 31 <= k < soff + n)
        else:
            ks = range(soff - 31, soff + n)
        for k in ks:
            c = so.cells.get(k)
            if c is None:
                continue
            m, v = c
            a, b = max(k, soff), min(k + m, soff + n)
            if a >= b:
                continue
            if a == k and b == k + m:
                src.append((k - soff, m, v))
            else:
                src.append((a - soff, b - a, extract_bytes(v, m, a - k, b - a)))
        zr = [(max(a, soff) - soff, min(b, soff + n) - soff) for a, b in so.zero if max(a, soff) < min(b, soff + n)]
        self._clear(do, doff, n)
        # the destination range loses its old default
        do.zero = _subrange(do.zero, doff, doff + n)
        for a, b in zr:
            do.zero = _addrange(do.zero, doff + a, doff + b)
        for k, m, v in src:
            do.cells[doff + k] = (m, v)
        if self.cuts:
            for a, b in zr:
                for k in range(a, b, 8):
                    self.eng.log_write(self, d.o, doff + k, min(8, b - k), 0)
            for k, m, v in src:
                self.eng.log_write(self, d.o, doff + k, m, v)


def _addrange(z, a, b):
    out = []
    for x, y in z:
        if y < a or x > b:
            out.append((x, y))
        else:
            a, b = min(a, x), max(b, y)
    out.append((a, b))
    return tuple(out)


def _subrange(z, a, b):
    out = []
    for x, y in z:
        if y <= a or x >= b:
            out.append((x, y))
        else:
            if x < a:
                out.append((x, a))
            if y > b:
                out.append((b, y))
    return tuple(out)


def extract_bytes(v, n, a, m):
    """bytes a..a+m of a value of n bytes"""
    if v is UNDEF:
        return UNDEF
    if type(v) is int:
        return (v >> (8 * a)) & ((1 << (8 * m)) - 1)
    if type(v) is PBits:
        return pbits(v.val >> (8 * a), v.known >> (8 * a), (1 << (8 * m)) - 1)
    if z3.is_bv(v):
        if v.size() < 8 * n:
            v = z3.ZeroExt(8 * n - v.size(), v)
        return z3.Extract(8 * (a + m) - 1, 8 * a, v)
    if type(v) is Cat:
        r = []
        for k, s, x in v.parts:
            if k >= a and k + s <= a + m:
                r.append((k - a, s, x))
            elif k + s <= a or k >= a + m:
                continue
            else:
                return Cat2(v, a, m)
        if len(r) == 1 and r[0][0] == 0 and r[0][1] == m:
            return r[0][2]
        if all(type(x) is int for _, _, x in r):
            t = 0
            for k, s, x in r:
                t |= x << (8 * k)
            return t
        return Cat(r, m)
    if isinstance(v, Fraction):
        import struct
        if n == 8:
            b = struct.pack('<d', float(v))
            return int.from_bytes(b[a:a + m], 'little')
    if isinstance(v, Poly) and (n, m) == (8, 4) and all(0 < c < 2 ** 31 for c in v.t.values()) and \
            all(poly.SYMS[k].sort == 'int' and poly.SYMS[k].arg in ('pos', 'nonneg') for k in v.symbols()):
        return v if a == 0 else 0       # a non-negative 32-bit number
    raise EngineError('partial access to %r (%d bytes) [%d,%d)' % (v, n, a, a + m))


def Cat2(v, a, m):
    r = []
    for k, s, x in v.parts:
        lo, hi = max(k, a), min(k + s, a + m)
        if lo < hi:
            r.append((lo - a, hi - lo, x if (lo == k and hi == k + s) else extract_bytes(x, s, lo - k, hi - lo)))
    return Cat(r, m)


def to_signed(x, w):
    return x - (1 << w) if x >> (w - 1) else x


# --- compiled functions ----------------------------------------------------
class Block:
    __slots__ = ('label', 'code', 'phis', 'func', 'cut', 'n')


class CFunc:
    __slots__ = ('name', 'f', 'blocks', 'entry', 'nslots', 'template', 'argslots', 'loops', 'slotnames', 'succ')


RET = object()
SWITCH = object()


class Engine:
    def __init__(self, module, verbose=False):
        self.mod = module
        self.cfuncs = {}
        self.gobj = {}
        self.fobj = {}
        self.hooks = {}            # mangled name -> handler
        self.hook_patterns = []    # (regex on demangled, handler)
        self.demangled = None
        self.verbose = verbose
        self.wlog = None
        self.cut_loops = set()
        self.loop_inv = None
        self.max_steps = 50_000_000
        self.obligations = []
        self.called = set()
        self.hooked = set()
        self.initial = State(self)
        self.divs = []
        self.mathint = False
        self.undef_ok = True
        self._init_globals()
        self.div_policy = 'oblige'

    # --- demangling --------------------------------------------------------
    def demangle(self):
        if self.demangled is None:
            names = sorted(set(self.mod.funcs) | set(self.mod.decls))
            r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
            self.demangled = dict(zip(names, r.stdout.split('\n')))
        return self.demangled

    def add_contract(self, pattern, handler):
        """functions whose demangled name matches are replaced by the handler"""
        d = self.demangle()
        rx = re.compile(pattern)
        hit = [n for n, m in d.items() if rx.search(m) and (n in self.mod.funcs or n in self.mod.decls)]
        for n in hit:
            self.hooks[n] = handler
        return hit

    # --- globals ---------------------------------------------------------
    def _init_globals(self):
        S = self.initial
        m = self.mod
        for n in m.globals:
            ty, init, ext = m.globals[n]
            try:
                size = m.size(ty)
            except IRError:
                size = 8
            k = S.new_obj(size, '@' + n, 'global')
            self.gobj[n] = k
        self.pending_globals = dict(m.globals)
        for n, (ty, init, ext) in m.globals.items():
            if ext or init is None:
                continue
            self._ginit(S, self.gobj[n], 0, ty, init)

    def fptr(self, name):
        k = self.fobj.get(name)
        if k is None:
            k = ('fn', name)
            self.fobj[name] = k
        return Ptr(k, 0)

    def _ginit(self, S, k, off, ty, v):
        m = self.mod
        o = S.mem[k]
        tag = v[0]
        if tag == 'zero':
            o.zero = _addrange(o.zero, off, off + m.size(ty))
            return
        if tag == 'undef':
            return
        t = m.resolve(ty)
        if tag == 'agg':
            if t[0] == 'struct':
                for (et, ev), eo in zip(v[2], m.offsets(t)):
                    self._ginit(S, k, off + eo, et, ev)
            else:
                es = m.size(t[2])
                for i, (et, ev) in enumerate(v[2]):
                    self._ginit(S, k, off + i * es, et, ev)
            return
        if tag == 'str':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
            return
        o.cells[off] = (m.size(ty), self.const(ty, v))

    def const(self, ty, v):
        tag = v[0]
        if tag == 'c':
            return v[1]
        if tag == 'f':
            c = v[1]
            if isinstance(c, tuple):
                return c[1]
            return c
        if tag == 'null':
            return NULL
        if tag == 'undef':
            t = self.mod.resolve(ty)
            if t[0] == 'struct':
                return tuple(self.const(e, ('undef', e)) for e in t[1])
            if t[0] in ('array', 'vec'):
                return tuple(UNDEF for _ in range(t[1]))
            return UNDEF
        if tag == 'zero':
            t = self.mod.resolve(ty)
            if t[0] == 'i':
                return 0
            if t[0] in ('double', 'float'):
                return Fraction(0)
            if t[0] == 'ptr':
                return NULL
            if t[0] == 'struct':
                return tuple(self.const(e, ('zero', e)) for e in t[1])
            if t[0] in ('array', 'vec'):
                return tuple(self.const(t[2], ('zero', t[2])) for _ in range(t[1]))
        if tag == 'agg':
            return tuple(self.const(t, x) for t, x in v[2])
        if tag == 'g':
            return self.gptr(v[1])
        if tag == 'cgep':
            base = self.const(llir.PTR, v[2][0][1])
            off = self._gep_const(v[1], [(t, self.const(t, x)) for t, x in v[2][1:]])
            return Ptr(base.o, base.off + off)
        if tag == 'ccast':
            x = self.const(v[2], v[3])
            if v[1] == 'trunc' and type(x) is int:
                return x & ((1 << v[4][1]) - 1)
            return x
        if tag == 'cbin':
            a, b = self.const(v[2], v[3]), self.const(v[2], v[4])
            w = v[2][1]
            if isinstance(a, Ptr) and isinstance(b, Ptr) and v[1] == 'sub':
                if a.o == b.o:
                    return (a.off - b.off) & ((1 << w) - 1)
                return UNDEF
            if isinstance(a, Ptr) and v[1] == 'add':
                return Ptr(a.o, a.off + to_signed(b, w))
            if type(a) is int and type(b) is int:
                return {'add': a + b, 'sub': a - b, 'mul': a * b, 'and': a & b, 'or': a | b, 'xor': a ^ b,
                        'shl': a << b, 'lshr': a >> b}[v[1]] & ((1 << w) - 1)
        if tag == 'cicmp':
            a, b = self.const(v[2], v[3]), self.const(v[2], v[4])
            if v[1] == 'eq':
                return int(a == b)
            if v[1] == 'ne':
                return int(a != b)
        if tag == 'str':
            return tuple(v[1])
        raise EngineError('constant %r' % (v,))

    def gptr(self, name):
        m = self.mod
        if name in m.funcs or name in m.decls:
            return self.fptr(name)
        if name in m.aliases:
            return self.const(llir.PTR, m.aliases[name])
        return Ptr(self.gobj[name], 0)

    def _gep_const(self, bt, idx):
        m = self.mod
        off = 0
        t = bt
        first = True
        for it, i in idx:
            if first:
                off += to_signed(i, it[1]) * m.size(t)
                first = False
                continue
            t = m.resolve(t)
            if t[0] == 'struct':
                off += m.offsets(t)[i]
                t = t[1][i]
            else:
                t = t[2]
                off += to_signed(i, it[1]) * m.size(t)
        return off

    # --- compilation to closures ----------------------------------------------
    def cfunc(self, name):
        c = self.cfuncs.get(name)
        if c is None:
            c = self.cfuncs[name] = self._compile(self.mod.funcs[name])
        return c

    def _compile(self, f):
        self.mod.decode(f)
        cf = CFunc()
        cf.name = f.name
        cf.f = f
        slots = {}
        tmpl = []
        consts = {}

        def slot(name):
            k = slots.get(name)
            if k is None:
                k = slots[name] = len(tmpl)
                tmpl.append(None)
            return k

        def op(ty, v):
            if v[0] == 'r':
                return slot(v[1])
            key = (ty, repr(v))
            k = consts.get(key)
            if k is None:
                k = consts[key] = len(tmpl)
                tmpl.append(self.const(ty, v))
            return k
        cf.argslots = [slot(n) for t, n in f.args]
        cf.blocks = {}
        for lab in f.blocks:
            b = Block()
            b.label = lab
            b.func = f.name
            b.cut = None
            b.n = 0
            cf.blocks[lab] = b
        for lab, ins in f.blocks.items():
            b = cf.blocks[lab]
            b.phis = []
            b.code = []
            for I in ins:
                if I[0] == 'phi':
                    inc = {cf.blocks[l]: op(I[2], v) for l, v in I[3].items() if l in cf.blocks}
                    b.phis.append((slot(I[1]), inc, I[2]))
                else:
                    b.code.append(self._comp_instr(cf, b, I, slot, op, len(b.code)))
        cf.entry = cf.blocks[f.entry]
        cf.template = tmpl
        cf.slotnames = slots
        cf.loops = None
        return cf

    def _comp_instr(self, cf, blk, I, slot, op, idx):
        k = I[0]
        eng = self
        if k == 'bin':
            _, d, o, t, a, b, fl = I
            d, a, b = slot(d), op(t, a), op(t, b)
            if t[0] == 'vec':
                fs = BIN_F if o[0] == 'f' else BIN_I
                et = t[2]
                g = scalar_bin(eng, o, et, fl)

                def f(S, R):
                    R[d] = tuple(g(S, x, y) for x, y in zip(R[a], R[b]))
                return f
            g = scalar_bin(eng, o, t, fl)
            if t[0] == 'i':
                mask = (1 << t[1]) - 1
                if o == 'add':
                    def f(S, R):
                        x, y = R[a], R[b]
                        if type(x) is int and type(y) is int:
                            R[d] = (x + y) & mask
                        else:
                            R[d] = g(S, x, y)
                    return f
                if o == 'mul':
                    def f(S, R):
                        x, y = R[a], R[b]
                        if type(x) is int and type(y) is int:
                            R[d] = (x * y) & mask
                        else:
                            R[d] = g(S, x, y)
                    return f

            def f(S, R):
                R[d] = g(S, R[a], R[b])
            return f
        if k == 'fneg':
            _, d, t, a = I
            d, a = slot(d), op(t, a)

            def f(S, R):
                x = R[a]
                if type(x) is tuple:
                    R[d] = tuple(-y for y in x)
                else:
                    R[d] = x if x is UNDEF else -x if type(x) is not int else Fraction(0) if x == 0 else eng.bad(x)
            return f
        if k == 'icmp':
            _, d, pred, t, a, b = I
            d, a, b = slot(d), op(t, a), op(t, b)
            if t[0] == 'ptr':
                def f(S, R):
                    R[d] = ptr_cmp(S, pred, R[a], R[b])
                return f
            if t[0] != 'i':
                raise EngineError('icmp on %s' % (t,))
            w = t[1]

            def f(S, R):
                x, y = R[a], R[b]
                if type(x) is int and type(y) is int:
                    R[d] = icmp_int(pred, x, y, w)
                else:
                    R[d] = icmp_sym(S, pred, x, y, w)
            return f
        if k == 'fcmp':
            _, d, pred, t, a, b = I
            d, a, b = slot(d), op(t, a), op(t, b)

            def f(S, R):
                R[d] = fcmp(S, pred, R[a], R[b])
            return f
        if k == 'load':
            _, d, t, p = I
            d, p = slot(d), op(llir.PTR, p)
            rt = self.mod.resolve(t)
            if rt[0] in ('struct', 'array', 'vec'):
                def f(S, R):
                    R[d] = eng.load_agg(S, R[p], rt)
                return f
            conv = loader(rt)
            size = self.mod.size(t)

            def f(S, R):
                v = S.load(R[p], size)
                R[d] = conv(v)
            return f
        if k == 'store':
            _, _, t, v, p = I
            v, p = op(t, v), op(llir.PTR, p)
            rt = self.mod.resolve(t)
            if rt[0] in ('struct', 'array', 'vec'):
                def f(S, R):
                    eng.store_agg(S, R[p], rt, R[v])
                return f
            size = self.mod.size(t)

            def f(S, R):
                x = R[v]
                if type(x) is Atom:
                    x = int(eng.decide(S, x))
                S.store(R[p], size, x)
            return f
        if k == 'gep':
            _, d, bt, base, idx_ = I
            d, base = slot(d), op(llir.PTR, base)
            m = self.mod
            coff = 0
            dyn = []
            t = bt
            first = True
            for it, iv in idx_:
                if first:
                    sz = m.size(t)
                    first = False
                else:
                    t = m.resolve(t)
                    if t[0] == 'struct':
                        if iv[0] != 'c':
                            raise EngineError('struct gep')
                        coff += m.offsets(t)[iv[1]]
                        t = t[1][iv[1]]
                        continue
                    t = t[2]
                    sz = m.size(t)
                if iv[0] == 'c':
                    coff += to_signed(iv[1], it[1]) * sz
                else:
                    dyn.append((op(it, iv), it[1], sz))
            if not dyn:
                def f(S, R):
                    p = R[base]
                    if type(p) is not Ptr:
                        p = as_ptr(p)
                    R[d] = Ptr(p.o, p.off + coff) if type(p.off) is int else Ptr(p.o, padd(p.off, coff))
                return f
            if len(dyn) == 1:
                s1, w1, z1 = dyn[0]
                half = 1 << (w1 - 1)
                full = 1 << w1

                def f(S, R):
                    p = R[base]
                    i = R[s1]
                    if type(p) is not Ptr:
                        p = as_ptr(p)
                    if type(i) is int and type(p.off) is int:
                        if i >= half:
                            i -= full
                        R[d] = Ptr(p.o, p.off + coff + i * z1)
                    else:
                        R[d] = Ptr(p.o, padd(padd(p.off, pmul(i, w1, z1)), coff))
                return f

            def f(S, R):
                p = R[base]
                if type(p) is not Ptr:
                    p = as_ptr(p)
                off = padd(p.off, coff)
                for s1, w1, z1 in dyn:
                    off = padd(off, pmul(R[s1], w1, z1))
                R[d] = Ptr(p.o, off)
            return f
        if k == 'alloca':
            _, d, t, n = I
            d, n = slot(d), op(('i', 64), n)
            size = self.mod.size(t)
            nm = '%s:%s' % (cf.name, I[1])

            def f(S, R):
                o = S.new_obj(size * R[n], nm, 'stack')
                S.frames[-1].allocas.append(o)
                R[d] = Ptr(o, 0)
            return f
        if k == 'br':
            tgt = cf.blocks[I[2]]

            def f(S, R):
                return tgt
            return f
        if k == 'cbr':
            _, _, v, a, b = I
            v = op(('i', 1), v)
            ta, tb = cf.blocks[a], cf.blocks[b]

            def f(S, R):
                c = R[v]
                if type(c) is not int:
                    c = eng.decide(S, c)
                return ta if c else tb
            return f
        if k == 'switch':
            _, _, t, v, dl, cases = I
            v = op(t, v)
            td = cf.blocks[dl]
            cs = {c: cf.blocks[l] for c, l in cases}
            w = t[1]

            def f(S, R):
                x = R[v]
                if type(x) is int:
                    return cs.get(x, td)
                if x is UNDEF:
                    raise EngineError('switch on undef')
                for c, b in cs.items():
                    if eng.decide(S, icmp_sym(S, 'eq', x, c, w)):
                        return b
                return td
            return f
        if k == 'select':
            _, d, t, c, a, b = I
            d, c, a, b = slot(d), op(('i', 1), c), op(t, a), op(t, b)
            w = t[1] if t[0] == 'i' else None

            def f(S, R):
                x = R[c]
                if type(x) is int:
                    R[d] = R[a] if x else R[b]
                elif type(x) is tuple:
                    R[d] = tuple(p if q else r for q, p, r in zip(x, R[a], R[b]))
                else:
                    p, q = R[a], R[b]
                    if p is q:
                        R[d] = p
                        return
                    if w and z3.is_expr(x) and (type(p) is int or z3.is_expr(p)) and (type(q) is int or z3.is_expr(q)):
                        if w == 1:
                            R[d] = z3.If(x, tobool(p), tobool(q))
                        else:
                            R[d] = z3.If(x, tobv(p, w), tobv(q, w))
                    else:
                        R[d] = p if eng.decide(S, x) else q
            return f
        if k == 'cast':
            _, d, o, t, v, t2 = I
            d, v = slot(d), op(t, v)
            if t[0] == 'vec':
                g1 = caster(eng, o, t[2], t2[2])

                def f(S, R):
                    R[d] = tuple(g1(S, x) for x in R[v])
                return f
            g = caster(eng, o, t, t2)

            def f(S, R):
                R[d] = g(S, R[v])
            return f
        if k == 'freeze':
            d, v = slot(I[1]), op(I[2], I[3])
            tt = self.mod.resolve(I[2])

            def f(S, R):
                x = R[v]
                if x is UNDEF:
                    x = 0 if tt[0] == 'i' else Fraction(0) if tt[0] == 'double' else NULL
                R[d] = x
            return f
        if k == 'extractvalue':
            _, d, v, ix = I
            d, v = slot(d), op(None, v)

            def f(S, R):
                x = R[v]
                for i in ix:
                    x = x[i]
                R[d] = x
            return f
        if k == 'insertvalue':
            _, d, t, v, e, ix = I
            d, v, e = slot(d), op(t, v), op(None if e[0] == 'r' else self._subtype(t, ix), e)

            def f(S, R):
                R[d] = _insert(R[v], R[e], ix)
            return f
        if k == 'extractelement':
            _, d, t, v, kk = I
            d, v, kk = slot(d), op(t, v), op(('i', 64), kk)

            def f(S, R):
                R[d] = R[v][R[kk]]
            return f
        if k == 'insertelement':
            _, d, t, v, e, kk = I
            d, v, e, kk = slot(d), op(t, v), op(t[2], e), op(('i', 64), kk)

            def f(S, R):
                x = list(R[v]) if R[v] is not UNDEF else [UNDEF] * t[1]
                x[R[kk]] = R[e]
                R[d] = tuple(x)
            return f
        if k == 'shufflevector':
            _, d, t, v, w_, kk, t3 = I
            d, v, w_ = slot(d), op(t, v), op(t, w_)
            mask = self.const(t3, kk)

            def f(S, R):
                x = (tuple(R[v]) if R[v] is not UNDEF else (UNDEF,) * t[1]) + \
                    (tuple(R[w_]) if R[w_] is not UNDEF else (UNDEF,) * t[1])
                R[d] = tuple(UNDEF if i is UNDEF else x[i] for i in mask)
            return f
        if k == 'call':
            return self._comp_call(cf, I, slot, op, idx)
        if k == 'ret':
            if I[3] is None:
                def f(S, R):
                    return eng.do_return(S, None)
                return f
            v = op(I[2], I[3])

            def f(S, R):
                return eng.do_return(S, R[v])
            return f
        if k == 'unreachable':
            def f(S, R):
                S.fail('unreachable code reached in ' + cf.name)
            return f
        if k == 'landingpad':
            d = slot(I[1])
            cl = [(c, None if v is None else self.const(llir.PTR, v)) for c, v in I[2]]

            def f(S, R):
                exc = S.exc
                sel = 0
                for c, v in cl:
                    if c == 'catch':
                        if eng.exc_match(S, exc, v):
                            sel = eng.typeid(v)
                            break
                R[d] = (exc['ptr'], sel)
            f.landing = cl
            blk.cut = ('lp', cl)
            return f
        if k == 'resume':
            v = op(None, I[2])

            def f(S, R):
                return eng.unwind(S)
            return f
        if k == 'nop':
            return lambda S, R: None
        if k == 'unsupported':
            txt = I[2]

            def f(S, R):
                raise EngineError('unsupported instruction: ' + txt)
            return f
        raise EngineError('instr ' + k)

    def _subtype(self, t, ix):
        for i in ix:
            t = self.mod.resolve(t)
            t = t[1][i] if t[0] == 'struct' else t[2]
        return t

    def bad(self, x):
        raise EngineError('bad operand %r' % (x,))

    def _comp_call(self, cf, I, slot, op, idx):
        _, dest, t, fn, args, normal, unwind = I
        eng = self
        d = slot(dest) if dest is not None else None
        av = [op(at, v) for at, v in args]
        nb = cf.blocks[normal] if normal else None
        ub = cf.blocks[unwind] if unwind else None
        nxt = idx + 1
        if fn[0] == 'g':
            name = fn[1]
            while name in self.mod.aliases:
                name = self.mod.aliases[name][1]
            if name.startswith('llvm.'):
                h = intrinsic(self, name, [at for at, _ in args], t)

                def f(S, R):
                    r = h(S, [R[a] for a in av])
                    if d is not None:
                        R[d] = r
                    if nb is not None:
                        return nb
                return f
            fs = None
        else:
            name = None
            fs = op(llir.PTR, fn)

        def f(S, R):
            if name is None:
                p = R[fs]
                if not isinstance(p, Ptr) or not isinstance(p.o, tuple):
                    raise EngineError('indirect call through %r' % (p,))
                nm = p.o[1]
            else:
                nm = name
            fr = S.frames[-1]
            fr.i = nxt
            return eng.do_call(S, nm, [R[a] for a in av], d, nb, ub)
        return f

    # --- calls -------------------------------------------------------------
    def do_call(self, S, name, args, d, nb, ub):
        h = self.hooks.get(name)
        if h is None and name not in self.mod.funcs:
            h = EXTERN.get(name)
            if h is None:
                h = extern_pattern(name)
            if h is None:
                raise EngineError('call of unknown external function ' + name)
        if h is not None:
            fr = S.frames[-1]
            fr.dest, fr.normal, fr.unwind = d, nb, ub
            if name in self.hooks:
                self.hooked.add(name)
            r = h(self, S, args)
            if r is SWITCH:
                return SWITCH
            if isinstance(r, CallFn):
                self.push(S, r.name, r.args)
                S.frames[-1].onret = r.onret
                return SWITCH
            if d is not None:
                fr.R[d] = r
            if nb is not None:
                return nb
            return None
        fr = S.frames[-1]
        fr.dest, fr.normal, fr.unwind = d, nb, ub
        self.push(S, name, args)
        return SWITCH

    def push(self, S, name, args):
        cf = self.cfunc(name)
        self.called.add(name)
        if len(S.frames) > 400:
            raise EngineError('call depth')
        fr = Frame()
        fr.cf = cf
        fr.block = cf.entry
        fr.i = 0
        fr.R = list(cf.template)
        fr.dest = fr.unwind = fr.normal = None
        fr.allocas = []
        fr.onret = None
        fr.fid = len(S.frames)
        for s, a in zip(cf.argslots, args):
            fr.R[s] = a
        S.frames.append(fr)

    def pop(self, S):
        while S.cuts and S.cuts[-1][2] == len(S.frames):
            S.cuts = S.cuts[:-1]
        fr = S.frames.pop()
        for o in fr.allocas:
            x = S.mem.get(o)
            if x is not None:
                del S.mem[o]
        return fr

    def do_return(self, S, v):
        fr = S.frames[-1]
        if fr.onret is not None:
            v = fr.onret(self, S, v)
        self.pop(S)
        if not S.frames:
            S.ret = v
            return RET
        c = S.frames[-1]
        if c.dest is not None:
            c.R[c.dest] = v
        if c.normal is not None:
            self.goto(c, c.normal)
            c.normal = None
        return SWITCH

    def goto(self, fr, target, cut=False):
        prev = fr.block
        if self.cut_loops and not cut and (fr.cf.name, target.label) in self.cut_loops:
            raise EngineError('header of a cut loop reached through a call')
        if target.phis:
            R = fr.R
            vals = [R[inc[prev]] for s, inc, t in target.phis]
            for (s, inc, t), v in zip(target.phis, vals):
                R[s] = v
        fr.block = target
        fr.i = 0

    # --- exceptions ---------------------------------------------------------
    def throw(self, S, tinfo, ptr):
        S.exc = {'ti': tinfo, 'ptr': ptr}
        return self.unwind(S, first=True)

    def unwind(self, S, first=False):
        """find the next frame with an unwind destination"""
        if not first:
            self.pop(S)
        while S.frames:
            fr = S.frames[-1]
            if fr.unwind is not None:
                ub = fr.unwind
                cl = ub.cut[1] if ub.cut and ub.cut[0] == 'lp' else []
                if any(c == 'cleanup' for c, _ in cl) or any(c == 'catch' and self.exc_match(S, S.exc, v)
                                                             for c, v in cl):
                    fr.unwind = None
                    self.goto(fr, ub)
                    return SWITCH
            self.pop(S)
        S.ret = ('uncaught', S.exc)
        return RET

    def exc_match(self, S, exc, v):
        if v is None or (isinstance(v, Ptr) and v.o == 0):
            return True
        ti = exc['ti']
        return self.ti_derives(S, ti, v)

    def ti_derives(self, S, ti, base):
        if ti == base:
            return True
        if not isinstance(ti, Ptr):
            return False
        o = S.obj(ti.o)
        if o is None:
            return False
        for off, (n, v) in sorted(o.cells.items()):
            if off >= 16 and isinstance(v, Ptr) and v.o != 0 and v != ti:
                if self.ti_derives(S, v, base):
                    return True
        return False

    def typeid(self, v):
        if v is None or v.o == 0:
            return 1
        return 2 + v.o if isinstance(v.o, int) else 2

    # --- decisions ---------------------------------------------------------
    def decide(self, S, c):
        if type(c) is int:
            return bool(c)
        if c is UNDEF:
            raise EngineError('branch on undefined value in %s' % S.frames[-1].cf.name)
        pc = S.pc
        if type(c) is Atom:
            k = pc.known(c)
            if k is not None:
                return k
            n = c.neg()
            ft, wt = logic.feasible(pc, c)
            ff, wf = logic.feasible(pc, n)
            if ft and ff:
                def yes(T):
                    if wt is not None:
                        T.pc.wit = dict(wt)
                    T.pc.assume(c)

                def no(T):
                    if wf is not None:
                        T.pc.wit = dict(wf)
                    T.pc.assume(n)
                raise Fork([yes, no])
            if ft:
                pc.assume(c)
                return True
            if ff:
                pc.assume(n)
                return False
            raise PathEnd('infeasible')
        if z3.is_expr(c):
            g = z3.simplify(c)
            if z3.is_true(g):
                return True
            if z3.is_false(g):
                return False
            h = g.get_id()
            kn = pc.bvknown.get(h)
            if kn is not None and kn[1].eq(g):
                return kn[0]
            rt, _, _ = logic.bv_check(pc, [g])
            rf, _, _ = logic.bv_check(pc, [z3.Not(g)])
            ft, ff = rt != 'unsat', rf != 'unsat'
            if ft and ff:
                def yes(T):
                    T.pc.assume(g)
                    T.pc.bvknown[h] = (True, g)

                def no(T):
                    T.pc.assume(z3.Not(g))
                    T.pc.bvknown[h] = (False, g)
                raise Fork([yes, no])
            if ft:
                pc.bvknown[h] = (True, g)
                return True
            if ff:
                pc.bvknown[h] = (False, g)
                return False
            raise PathEnd('infeasible')
        raise EngineError('decide on %r' % (c,))

    def concretize(self, S, v, w, what):
        """fork over the values of a symbolic integer"""
        if type(v) is int:
            return v
        if z3.is_expr(v):
            g = z3.simplify(v)
            if z3.is_bv_value(g):
                return g.as_long()
            key = g.get_id()
            kn = S.pc.vals.get(key)
            if kn is not None and kn[1].eq(g):
                return kn[0]
            vals = []
            extra = []
            while True:
                r, m, _ = logic.bv_check(S.pc, extra, want_model=True)
                if r == 'unknown':
                    raise EngineError('cannot enumerate %s' % what)
                if r == 'unsat':
                    break
                x = m.eval(g, model_completion=True).as_long()
                vals.append(x)
                extra.append(g != x)
                if len(vals) > 512:
                    raise EngineError('too many values for %s' % what)
            if not vals:
                raise PathEnd('infeasible')

            def mk(x):
                def f(T):
                    T.pc.assume(g == x)
                    T.pc.vals[key] = (x, g)
                return f
            if len(vals) == 1:
                S.pc.vals[key] = (vals[0], g)
                return vals[0]
            raise Fork([mk(x) for x in vals])
        if isinstance(v, Poly):
            if v.is_const():
                return int(v.const_value()) & ((1 << w) - 1)
            key = v.key()
            kn = S.pc.vals.get(key)
            if kn is not None:
                return kn
            p = logic.reduce_eqs(S.pc, v)
            if p.is_const():
                c = p.const_value()
                return int(c) & ((1 << w) - 1)
            vals = self.enum_int(S, v)

            def mk(x):
                def f(T):
                    T.pc.assume(Atom('eq', v - x))
                    T.pc.vals[key] = x & ((1 << w) - 1)
                return f
            if not vals:
                raise PathEnd('infeasible')
            if len(vals) == 1:
                S.pc.vals[key] = vals[0] & ((1 << w) - 1)
                S.pc.assume(Atom('eq', v - vals[0]))
                return vals[0] & ((1 << w) - 1)
            raise Fork([mk(x) for x in vals])
        raise EngineError('concretize %r (%s)' % (v, what))

    def enum_int(self, S, v, limit=300):
        atoms = []
        vals = []
        while True:
            r, m, _ = logic.z3_query(S.pc, [Atom('eq', v - v)] + atoms if False else (atoms or [Atom('le', v - v)]),
                                     10, want_model=True) if atoms else self._first(S, v)
            if r == 'unknown':
                raise EngineError('cannot enumerate symbolic index')
            if r == 'unsat':
                return vals
            w = dict(m)
            x = logic.evalp(v, w)
            vals.append(int(x))
            atoms.append(Atom('ne', v - int(x)))
            if len(vals) > limit:
                raise EngineError('too many values for symbolic index')

    def _first(self, S, v):
        # any model of the facts on v's symbols
        return logic.z3_query(S.pc, [('or', [Atom('le', v), Atom('gt', v)])], 10, want_model=True)

    # --- aggregates ---------------------------------------------------------
    def load_agg(self, S, p, t):
        m = self.mod
        if t[0] == 'struct':
            r = []
            for e, o in zip(t[1], m.offsets(t)):
                r.append(self._load1(S, Ptr(p.o, padd(p.off, o)), e))
            return tuple(r)
        es = m.size(t[2])
        return tuple(self._load1(S, Ptr(p.o, padd(p.off, i * es)), t[2]) for i in range(t[1]))

    def _load1(self, S, p, t):
        t = self.mod.resolve(t)
        if t[0] in ('struct', 'array', 'vec'):
            return self.load_agg(S, p, t)
        return loader(t)(S.load(p, self.mod.size(t)))

    def store_agg(self, S, p, t, v):
        m = self.mod
        if t[0] == 'struct':
            for e, o, x in zip(t[1], m.offsets(t), v):
                self._store1(S, Ptr(p.o, padd(p.off, o)), e, x)
        else:
            es = m.size(t[2])
            if v is UNDEF:
                v = (UNDEF,) * t[1]
            for i in range(t[1]):
                self._store1(S, Ptr(p.o, padd(p.off, i * es)), t[2], v[i])

    def _store1(self, S, p, t, v):
        t = self.mod.resolve(t)
        if t[0] in ('struct', 'array', 'vec'):
            self.store_agg(S, p, t, v)
        else:
            S.store(p, self.mod.size(t), v)

    # --- failures ------------------------------------------------------------
    def safety_failure(self, S, what):
        """a memory error, failed assertion or forbidden call on this path"""
        S.ret = ('failed', what)
        raise PathFail(what)

    # --- running -------------------------------------------------------------
    def run(self, S, name, args, max_paths=20000):
        """all paths of name(args) from state S; returns the final states"""
        self.push(S, name, args)
        todo = [S]
        done = []
        while todo:
            T = todo.pop()
            r = self._run_path(T, todo)
            if r is not None:
                done.append(r)
                if len(done) > max_paths:
                    raise EngineError('too many paths')
        return done

    def _run_path(self, S, todo):
        steps = 0
        while True:
            fr = S.frames[-1]
            code = fr.block.code
            i = fr.i
            R = fr.R
            try:
                while True:
                    r = code[i](S, R)
                    if r is None:
                        i += 1
                        continue
                    if type(r) is Block:
                        # jump
                        steps += 1
                        if steps > self.max_steps:
                            raise EngineError('step limit')
                        prev = fr.block
                        if S.cuts and S.cuts[-1][2] == len(S.frames) and r not in S.cuts[-1][3]:
                            S.cuts = S.cuts[:-1]
                        if self.cut_loops and (fr.cf.name, r.label) in self.cut_loops:
                            if not self.at_cut(S, fr, prev, r):
                                return None
                            code = r.code
                            i = 0
                            continue
                        if self.loopwatch:
                            self.watch(S, fr, r)
                        if r.phis:
                            if len(r.phis) == 1:
                                s, inc, t = r.phis[0]
                                R[s] = R[inc[prev]]
                            else:
                                vals = [R[inc[prev]] for s, inc, t in r.phis]
                                for (s, inc, t), v in zip(r.phis, vals):
                                    R[s] = v
                        fr.block = r
                        code = r.code
                        i = 0
                        continue
                    break
            except Fork as F:
                fr = S.frames[-1]
                fr.i = i
                if self.cut_rx is not None and i == len(code) - 1:
                    self.mark_cut(fr)
                n = len(F.alts)
                alts = []
                for q, a in enumerate(F.alts):
                    T = S if q == n - 1 else S.fork()
                    alts.append((T, a))
                for T, a in alts:
                    a(T)
                    todo.append(T)
                return None
            except PathFail as e:
                S.ret = ('failed', str(e))
                return S
            except PathEnd:
                return None
            if r is SWITCH:
                continue
            if r is RET:
                return S
            raise EngineError('result %r' % (r,))

    loopwatch = False

    def watch(self, S, fr, r):
        pass

    # --- loop cuts -------------------------------------------------------------
    # A loop whose exit depends on symbolic values is cut at its header: at the
    # first arrival everything the loop assigns (header phis, written memory)
    # is replaced by fresh values restricted by the invariant, the body is run
    # once from there, and a path that comes back to the header ends (after the
    # invariant is checked).  The written memory is found by iteration to a
    # fixed point (run_with_cuts).
    cut_rx = None

    def loops_of(self, cf):
        """{header block: set of body blocks}"""
        if cf.loops is not None:
            return cf.loops
        succ = {}
        for lab, ins in cf.f.blocks.items():
            I = ins[-1]
            if I[0] == 'br':
                t = [I[2]]
            elif I[0] == 'cbr':
                t = [I[3], I[4]]
            elif I[0] == 'switch':
                t = [I[4]] + [l for c, l in I[5]]
            elif I[0] == 'call':
                t = [x for x in (I[5], I[6]) if x]
            else:
                t = []
            succ[lab] = t
        order, seen = [], set()
        stack = [(cf.f.entry, iter(succ[cf.f.entry]))]
        seen.add(cf.f.entry)
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    stack.append((m, iter(succ[m])))
                    break
            else:
                order.append(n)
                stack.pop()
        order.reverse()
        pred = {n: [] for n in order}
        for n in order:
            for m in succ[n]:
                pred[m].append(n)
        dom = {n: set(order) for n in order}
        dom[cf.f.entry] = {cf.f.entry}
        ch = True
        while ch:
            ch = False
            for n in order[1:]:
                d = set.intersection(*[dom[q] for q in pred[n]]) | {n} if pred[n] else {n}
                if d != dom[n]:
                    dom[n] = d
                    ch = True
        loops = {}
        for n in order:
            for h in succ[n]:
                if h in dom[n]:
                    body = loops.setdefault(h, {h})
                    st = [n]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += pred[x]
        cf.loops = {cf.blocks[h]: {cf.blocks[x] for x in body} for h, body in loops.items()}
        cf.succ = {cf.blocks[n]: [cf.blocks[m] for m in succ[n]] for n in order}
        return cf.loops

    def mark_cut(self, fr):
        """a fork at a branch: does it decide about leaving a loop?"""
        if not self.cut_rx.search(self.demangle().get(fr.cf.name, fr.cf.name)):
            return
        new = False
        for h, body in self.loops_of(fr.cf).items():
            if fr.block in body and any(t not in body for t in fr.cf.succ[fr.block]):
                k = (fr.cf.name, h.label)
                if k not in self.cut_loops:
                    self.cut_loops.add(k)
                    new = True
        if new:
            raise CutRestart()

    def log_write(self, S, o, off, size, v):
        for key, nobj, depth, body in S.cuts:
            if type(o) is int and o < nobj:
                k = 'p' if isinstance(v, Ptr) else 'f' if isinstance(v, (Fraction, float)) else \
                    'z' if type(v) is int and v == 0 else 'i' if type(v) is int or isinstance(v, z3.ExprRef) else \
                    'u' if v is UNDEF else 'c'
                if isinstance(v, Poly):
                    k = 'm' if any(poly.SYMS[x].sort == 'int' for x in v.symbols()) else 'f'
                self.wlog.setdefault(key, {}).setdefault((o, off, size), set()).add((k, v.o, v.off) if k == 'p' else k)
            elif type(o) is not int:
                raise EngineError('write to %r in a cut loop' % (o,))

    def at_cut(self, S, fr, prev, blk):
        """arrival at the header of a cut loop"""
        key = (fr.cf.name, blk.label)
        body = self.loops_of(fr.cf)[blk]
        self.goto(fr, blk, True)
        if prev in body:
            # back edge: the invariant must be preserved; the path ends
            if self.loop_inv is not None:
                self.loop_inv(self, S, fr, blk, 'preserve')
            self.cut_backs += 1
            return False
        if self.loop_inv is not None:
            self.loop_inv(self, S, fr, blk, 'establish')
        for s, inc, t in blk.phis:
            fr.R[s] = self.havoc_value(t, fr.R[s], '%s' % blk.label)
        for (o, off, size), kinds in sorted(self.cut_writes.get(key, {}).items(), key=repr):
            self.havoc_cell(S, o, off, size, kinds)
        S.cuts = S.cuts + ((key, S.nobj, len(S.frames), body),)
        S.ghost['cut'] = True
        if self.loop_inv is not None:
            self.loop_inv(self, S, fr, blk, 'assume')
        return True

    def havoc_value(self, t, v, name):
        if t[0] == 'double':
            return poly.var('h_%s_%d' % (name, len(poly.SYMS)))
        if t[0] == 'i':
            if t[1] == 1:
                return z3.Bool('h_%s_%d' % (name, len(poly.SYMS) + next(FRESH)))
            if self.mathint:
                return Poly({(poly.new_symbol('h_' + name, 'int').id,): 1})
            return z3.BitVec('h_%s_%d' % (name, next(FRESH)), t[1])
        if t[0] == 'ptr' and getattr(self.loop_inv, 'pointers', False):
            return UNDEF        # given by the invariant
        raise EngineError('a cut loop changes a value of type %s' % (t,))

    def havoc_cell(self, S, o, off, size, kinds):
        ob = S.obj(o)
        if ob is None or not ob.alive:
            return
        ks = {k if type(k) is str else 'p' for k in kinds}
        if ks == {'p'}:
            c = ob.cells.get(off)
            if len(kinds) == 1 and c is not None and c[0] == size and c[1] == Ptr(*list(kinds)[0][1:]):
                return
            # assigned before it is read, or the read fails
            v = UNDEF
        elif 'p' in ks or 'c' in ks:
            raise EngineError('a cut loop writes mixed values to %s+%d' % (ob.name, off))
        elif 'f' in ks:
            v = poly.var('h_%s_%d_%d' % (ob.name, off, len(poly.SYMS)))
        elif 'm' in ks:
            v = Poly({(poly.new_symbol('h_%s_%d' % (ob.name, off), 'int').id,): 1})
        else:
            c = ob.cells.get(off)
            if c is not None and c[0] == size and isinstance(c[1], (Fraction, float, Poly)):
                v = poly.var('h_%s_%d_%d' % (ob.name, off, len(poly.SYMS)))
            elif ks == {'z'} and size == 8:
                v = UNDEF
            else:
                v = z3.BitVec('h_%s_%d_%d' % (ob.name, off, next(FRESH)), 8 * size)
        cuts, S.cuts = S.cuts, ()
        try:
            if v is UNDEF:
                S._clear(S.wobj(o), off, size)
                S.wobj(o).zero = _subrange(S.wobj(o).zero, off, off + size)
            else:
                S.store(Ptr(o, off), size, v)
        finally:
            S.cuts = cuts

    cut_writes = {}
    cut_backs = 0


class CutRestart(Exception):
    """another loop has to be cut: start over"""


FRESH = itertools.count(1)


class PathFail(Exception):
    pass


class CallFn:
    """returned by a handler that wants to call an IR function"""

    def __init__(self, name, args, onret=None):
        self.name = name
        self.args = args
        self.onret = onret


def _insert(x, e, ix):
    x = list(x)
    if len(ix) == 1:
        x[ix[0]] = e
    else:
        x[ix[0]] = _insert(x[ix[0]], e, ix[1:])
    return tuple(x)


def as_ptr(p):
    if type(p) is int and 0 <= p < 4096:
        return Ptr(0, p) if p else NULL
    raise EngineError('pointer expected: %r' % (p,))


def padd(a, b):
    """address arithmetic on int | Poly | BV64"""
    if type(a) is int and type(b) is int:
        return a + b
    if isinstance(a, Poly) or isinstance(b, Poly):
        if z3.is_expr(a) or z3.is_expr(b):
            raise EngineError('mixed symbolic address')
        return _np(poly.to_poly(a) + poly.to_poly(b))
    return tobv(a, 64) + tobv(b, 64)


def _np(p):
    if isinstance(p, Poly) and p.is_const():
        return int(p.const_value())
    return p


def pmul(i, w, z):
    if type(i) is int:
        return to_signed(i, w) * z
    if isinstance(i, Poly):
        return i.scale(z)
    if z3.is_bv(i):
        x = i
        if x.size() < 64:
            x = z3.SignExt(64 - x.size(), x)
        return x * z
    raise EngineError('index %r' % (i,))


def tobv(x, w):
    if type(x) is int:
        return z3.BitVecVal(x & ((1 << w) - 1), w)
    if z3.is_bool(x):
        return z3.If(x, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    if z3.is_bv(x):
        if x.size() != w:
            raise EngineError('width %d vs %d' % (x.size(), w))
        return x
    raise EngineError('bit-vector expected: %r' % (x,))


def tobool(x):
    if type(x) is int:
        return z3.BoolVal(bool(x))
    return x


def loader(t):
    """conversion of a stored cell to a value of scalar type t"""
    k = t[0]
    if k == 'i':
        w = t[1]

        def f(v):
            if type(v) is int or isinstance(v, Poly):
                if w == 1 and isinstance(v, int):
                    return v & 1
                return v
            if z3.is_expr(v):
                if w == 1 and z3.is_bv(v):
                    return z3.Extract(0, 0, v) == 1
                if z3.is_bool(v) and w > 1:
                    return tobv(v, w)
                if z3.is_bv(v) and w < v.size():
                    return z3.Extract(w - 1, 0, v)
                return v
            if isinstance(v, Fraction) and w == 64:
                import struct
                return int.from_bytes(struct.pack('<d', float(v)), 'little')
            return v
        return f
    if k == 'double':
        def f(v):
            if type(v) is int:
                if v == 0:
                    return Fraction(0)
                import struct
                return Fraction(struct.unpack('<d', v.to_bytes(8, 'little'))[0])
            return v
        return f
    if k == 'ptr':
        def f(v):
            if type(v) is int:
                if v == 0:
                    return NULL
                raise EngineError('integer as pointer')
            return v
        return f
    return lambda v: v


# --- comparisons ---------------------------------------------------------------
def icmp_int(pred, x, y, w):
    if pred == 'eq':
        return 1 if x == y else 0
    if pred == 'ne':
        return 1 if x != y else 0
    if pred[0] == 's':
        h = 1 << (w - 1)
        if x & h:
            x -= h << 1
        if y & h:
            y -= h << 1
    p = pred[1:]
    if p == 'lt':
        return 1 if x < y else 0
    if p == 'le':
        return 1 if x <= y else 0
    if p == 'gt':
        return 1 if x > y else 0
    return 1 if x >= y else 0


PREDS = {'eq': 'eq', 'ne': 'ne', 'slt': 'lt', 'sle': 'le', 'sgt': 'gt', 'sge': 'ge'}


def as_mint(x, w, signed=True):
    if isinstance(x, Poly):
        return x
    if type(x) is int:
        return Poly.const(to_signed(x, w) if signed else x)
    raise EngineError('integer expected: %r' % (x,))


def icmp_sym(S, pred, x, y, w):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if type(x) is PBits or type(y) is PBits:
        d = pb_bin('xor', x, y, w, (1 << w) - 1) if type(x) in (int, PBits) and type(y) in (int, PBits) else UNDEF
        if type(d) is PBits and d.val and pred in ('eq', 'ne'):
            return int(pred == 'ne')
        return UNDEF
    if type(x) is Ptr or type(y) is Ptr:
        return ptr_cmp(S, pred, x if type(x) is Ptr else NULL if x == 0 else x, y if type(y) is Ptr else NULL if y == 0 else y)
    if (type(x) is Cat or type(y) is Cat) and pred in ('eq', 'ne') and w == 64:
        same = True
        for k in (0, 4):
            a, b = (extract_bytes(v, 8, k, 4) for v in (x, y))
            t = icmp_int('eq', a, b, 32) if type(a) is int and type(b) is int else icmp_sym(S, 'eq', a, b, 32)
            if not S.eng.decide(S, t):
                same = False
                break
        return int(same == (pred == 'eq'))
    if isinstance(x, Poly) or isinstance(y, Poly):
        eng = S.eng
        if pred[0] == 'u':
            # unsigned comparison of mathematical integers
            xi = as_mint(x, w, signed=isinstance(x, Poly) or x < (1 << (w - 1)) or True)
            yi = as_mint(y, w)
            xn = eng.decide(S, mkatom('lt', xi))
            yn = eng.decide(S, mkatom('lt', yi))
            if xn != yn:
                # the negative one is the larger unsigned number
                lt = yn
                return int(lt) if pred[1:] in ('lt', 'le') else int(not lt)
            return mkatom(pred[1:], xi - yi)
        return mkatom(PREDS[pred], as_mint(x, w) - as_mint(y, w))
    if type(x) is Atom or type(y) is Atom:
        x = int(S.eng.decide(S, x)) if type(x) is Atom else x
        y = int(S.eng.decide(S, y)) if type(y) is Atom else y
        if type(x) is int and type(y) is int:
            return icmp_int(pred, x, y, w)
    if w == 1:
        a, b = tobool(x), tobool(y)
        if pred == 'eq':
            return a == b
        if pred == 'ne':
            return a != b
        a, b = tobv(a, 1), tobv(b, 1)
    else:
        a, b = tobv(x, w), tobv(y, w)
    return {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
            'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
            'sgt': lambda: a > b, 'sge': lambda: a >= b}[pred]()


def mkatom(op, p):
    if p.is_const():
        return 1 if logic.sgn(p.const_value()) in logic.OPS[op] else 0
    return Atom(op, p)


def ptr_cmp(S, pred, x, y):
    if type(x) is not Ptr:
        if x is UNDEF or y is UNDEF:
            return UNDEF
        x = as_ptr(x)
    if type(y) is not Ptr:
        if y is UNDEF:
            return UNDEF
        y = as_ptr(y)
    if x.o == y.o:
        a, b = x.off, y.off
        if type(a) is int and type(b) is int:
            return icmp_int(pred if pred in ('eq', 'ne') else 's' + pred[1:], a & ((1 << 64) - 1), b & ((1 << 64) - 1), 64)
        if isinstance(a, Poly) or isinstance(b, Poly):
            d = poly.to_poly(a) - poly.to_poly(b)
            return mkatom({'eq': 'eq', 'ne': 'ne'}.get(pred) or pred[1:], d)
        return icmp_sym(S, pred, a, b, 64)
    if pred == 'eq':
        return 0
    if pred == 'ne':
        return 1

    def addr(p):
        if p.o == 0:
            return p.off
        if isinstance(p.o, tuple):
            return 0x1000 + p.off
        return S.obj(p.o).base + p.off
    return icmp_int(pred, addr(x), addr(y), 64)


def isspecial(x):
    return isinstance(x, float)


def fcmp(S, pred, x, y):
    if type(x) is tuple:
        return tuple(fcmp(S, pred, a, b) for a, b in zip(x, y))
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if pred == 'true':
        return 1
    if pred == 'false':
        return 0
    if isinstance(x, float) or isinstance(y, float):
        if isinstance(x, Poly) or isinstance(y, Poly):
            # finite symbolic value against inf/nan
            s = x if isinstance(x, float) else y
            if s != s:
                return 1 if pred[0] == 'u' else 0
            if isinstance(x, Poly):
                x = 0.0
            if isinstance(y, Poly):
                y = 0.0
        nan = x != x or y != y
        if pred == 'ord':
            return int(not nan)
        if pred == 'uno':
            return int(nan)
        if nan:
            return 1 if pred[0] == 'u' else 0
        p = pred[1:]
        return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p])
    if pred == 'ord':
        return 1
    if pred == 'uno':
        return 0
    p = pred[1:]
    if type(x) is Fraction and type(y) is Fraction:
        return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p])
    return mkatom(p, poly.to_poly(x) - poly.to_poly(y))


# --- arithmetic -------------------------------------------------------------
BIN_F = {}
BIN_I = {}


def scalar_bin(eng, o, t, fl):
    if o[0] == 'f':
        return {'fadd': fadd, 'fsub': fsub, 'fmul': fmul, 'fdiv': fdiv}.get(o) or unsupported(o)
    w = t[1]
    mask = (1 << w) - 1
    return lambda S, x, y: ibin(S, o, x, y, w, mask, fl)


def unsupported(o):
    def f(S, x, y):
        raise EngineError('unsupported operation ' + o)
    return f


def _fl(x):
    if isinstance(x, Poly) and x.is_const():
        return Fraction(x.const_value())
    return x


def _fx(x):
    """operand of a floating point operation"""
    if type(x) is int:
        return Fraction(x) if x == 0 else None
    return x


def fadd(S, x, y):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if isinstance(x, float) or isinstance(y, float):
        return _fspecial(lambda a, b: a + b, x, y)
    return _fl(x + y)


def fsub(S, x, y):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if isinstance(x, float) or isinstance(y, float):
        return _fspecial(lambda a, b: a - b, x, y)
    return _fl(x - y)


def fmul(S, x, y):
    if x is UNDEF or y is UNDEF:
        # 0 * undef would be fine, everything else is not
        return UNDEF
    if isinstance(x, float) or isinstance(y, float):
        return _fspecial(lambda a, b: a * b, x, y)
    return _fl(x * y)


def _fspecial(f, x, y):
    if x != x or y != y:
        return float('nan')
    if isinstance(x, Poly) or isinstance(y, Poly):
        raise EngineError('symbolic operand with inf/nan')
    return f(float(x), float(y))


def _div0(S, x):
    """x / (+0)"""
    x = poly.to_poly(x)
    if S.eng.decide(S, mkatom('gt', x)):
        return float('inf')
    if S.eng.decide(S, mkatom('lt', x)):
        return float('-inf')
    return float('nan')


def fdiv(S, x, y):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if isinstance(x, float) or isinstance(y, float):
        if isinstance(y, float) or y != 0:
            return _fspecial(lambda a, b: a / b, x, y)
    if isinstance(y, Poly):
        if not S.eng.nonzero(S, y, 'division'):
            return _div0(S, x)
        r = logic.reduce_eqs(S.pc, y) if S.pc.eqs else y
        return _fl(poly.to_poly(x) * poly.inverse(y))
    if y == 0:
        return _div0(S, x)
    return _fl(x / y)


def _nonzero(self, S, p, what):
    """may the path continue with a non-zero divisor?  'fork' explores the
    zero case too (the result is not a number there); 'assume' records the
    divisor as an implicit precondition of the contract"""
    if p.is_const():
        return p.const_value() != 0
    if 0 not in S.pc.signs_of(p):
        return True
    if self.div_policy == 'fork':
        return not self.decide(S, Atom('eq', p))
    q, _ = logic.monic(p)
    self.divs.append((q, [S.frames[-1].cf.name]))
    S.pc.assume(Atom('ne', p))
    return True


Engine.nonzero = _nonzero


def ibin(S, o, x, y, w, mask, fl):
    if type(x) is int and type(y) is int:
        if o == 'add':
            return (x + y) & mask
        if o == 'sub':
            return (x - y) & mask
        if o == 'mul':
            return (x * y) & mask
        if o == 'and':
            return x & y
        if o == 'or':
            return x | y
        if o == 'xor':
            return x ^ y
        if o == 'shl':
            return (x << y) & mask if y < w else S.fail('shift amount %d' % y)
        if o == 'lshr':
            return x >> y if y < w else S.fail('shift amount %d' % y)
        if o == 'ashr':
            return (to_signed(x, w) >> y) & mask if y < w else S.fail('shift amount %d' % y)
        if o in ('udiv', 'urem'):
            if y == 0:
                S.fail('integer division by zero')
            return x // y if o == 'udiv' else x % y
        a, b = to_signed(x, w), to_signed(y, w)
        if b == 0:
            S.fail('integer division by zero')
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return (q if o == 'sdiv' else a - q * b) & mask
    if x is UNDEF or y is UNDEF or type(x) is PBits or type(y) is PBits:
        if type(x) is Atom:
            x = int(S.eng.decide(S, x))
        if type(y) is Atom:
            y = int(S.eng.decide(S, y))
        if all(type(v) in (int, PBits) or v is UNDEF for v in (x, y)):
            return pb_bin(o, x, y, w, mask)
        return UNDEF
    eng = S.eng
    if type(x) is Atom or type(y) is Atom:
        if w == 1 and o in ('and', 'or', 'xor'):
            a, b = x, y
            if type(a) is int:
                a, b = b, a
            if o == 'xor' and type(b) is int:
                return a.neg() if b else a
            if o == 'and':
                if type(b) is int:
                    return a if b else 0
                return int(eng.decide(S, a) and eng.decide(S, b))
            if o == 'or':
                if type(b) is int:
                    return 1 if b else a
                return int(eng.decide(S, a) or eng.decide(S, b))
        x = int(eng.decide(S, x)) if type(x) is Atom else x
        y = int(eng.decide(S, y)) if type(y) is Atom else y
        return ibin(S, o, x, y, w, mask, fl)
    if type(x) is Cat or type(y) is Cat:
        return ibin_cat(S, o, x, y, w)
    if type(x) is Ptr or type(y) is Ptr:
        if o == 'sub':
            if type(x) is Ptr and type(y) is Ptr:
                if x.o == y.o:
                    if type(x.off) is int and type(y.off) is int:
                        return (x.off - y.off) & mask
                    return _np(poly.to_poly(x.off) - poly.to_poly(y.off))
                if type(x.off) is int and type(y.off) is int:
                    ax = 0 if x.o == 0 else S.obj(x.o).base
                    ay = 0 if y.o == 0 else S.obj(y.o).base
                    return (ax + x.off - ay - y.off) & mask
            if type(x) is Ptr and type(y) is int:
                return Ptr(x.o, padd(x.off, -to_signed(y, w)))
        if o == 'add':
            if type(y) is Ptr:
                x, y = y, x
            if type(y) is int:
                return Ptr(x.o, padd(x.off, to_signed(y, w)))
        if o in ('and', 'lshr', 'or', 'xor') and type(y) is int:
            # alignment tests on addresses
            return ibin(S, o, (S.obj(x.o).base if x.o else 0) + x.off, y, w, mask, fl)
        raise EngineError('pointer arithmetic %s %r %r' % (o, x, y))
    if isinstance(x, Poly) or isinstance(y, Poly):
        if z3.is_expr(x) or z3.is_expr(y):
            if z3.is_bool(x):
                x = int(eng.decide(S, x))
            if z3.is_bool(y):
                y = int(eng.decide(S, y))
            if z3.is_expr(x) or z3.is_expr(y):
                raise EngineError('mixed integer domains')
        return mibin(S, o, x, y, w, fl)
    # bit-vectors
    if w == 1:
        a, b = tobool(x), tobool(y)
        if o == 'and':
            return z3.simplify(z3.And(a, b))
        if o == 'or':
            return z3.simplify(z3.Or(a, b))
        if o in ('xor', 'add', 'sub'):
            return z3.simplify(z3.Xor(a, b))
        raise EngineError('i1 ' + o)
    a, b = tobv(x, w), tobv(y, w)
    if o == 'add':
        return a + b
    if o == 'sub':
        return a - b
    if o == 'mul':
        return a * b
    if o == 'and':
        return a & b
    if o == 'or':
        return a | b
    if o == 'xor':
        return a ^ b
    if o in ('shl', 'lshr', 'ashr'):
        eng.bv_safety(S, z3.ULT(b, w), 'shift amount out of range')
        return a << b if o == 'shl' else (z3.LShR(a, b) if o == 'lshr' else a >> b)
    eng.bv_safety(S, b != 0, 'integer division by zero')
    if o == 'udiv':
        return z3.UDiv(a, b)
    if o == 'urem':
        return z3.URem(a, b)
    if o == 'sdiv':
        return a / b
    if o == 'srem':
        return z3.SRem(a, b)
    raise EngineError(o)


def _bv_safety(self, S, cond, what):
    g = z3.simplify(cond)
    if z3.is_true(g):
        return
    if not self.decide(S, g):
        S.fail(what)


Engine.bv_safety = _bv_safety


def ibin_cat(S, o, x, y, w):
    """shifts/masks used to split coerced arguments"""
    if type(x) is Cat and type(y) is int:
        if o in ('lshr', 'ashr') and y % 8 == 0:
            n = x.size - y // 8
            v = extract_bytes(x, x.size, y // 8, n)
            return widen(v, n, x.size)
        if o == 'shl' and y % 8 == 0:
            k = y // 8
            v = extract_bytes(x, x.size, 0, x.size - k)
            parts = v.parts if type(v) is Cat else [(0, x.size - k, v)]
            return Cat([(0, k, 0)] + [(a + k, b, c) for a, b, c in parts], x.size)
        if o == 'and':
            if y == (1 << (w // 2)) - 1:
                v = extract_bytes(x, x.size, 0, x.size // 2)
                return widen(v, x.size // 2, x.size)
            hi = ((1 << (w // 2)) - 1) << (w // 2)
            if y == hi:
                v = extract_bytes(x, x.size, x.size // 2, x.size // 2)
                return Cat([(0, x.size // 2, 0), (x.size // 2, x.size // 2, v)], x.size)
    if o in ('or', 'add', 'xor'):
        # disjoint combination
        def parts(v):
            if type(v) is Cat:
                return list(v.parts)
            n = w // 8
            if type(v) is int:
                return [(0, n // 2, v & ((1 << (4 * n)) - 1)), (n // 2, n // 2, v >> (4 * n))]
            if isinstance(v, Poly):
                # zero extended half
                return [(0, n // 2, v), (n // 2, n // 2, 0)]
            raise EngineError('or of %r' % (v,))
        a, b = parts(x), parts(y)
        cuts = {k: (n, v) for k, n, v in a}
        out = []
        if len(a) == len(b) and all(p[0] == q[0] and p[1] == q[1] for p, q in zip(a, b)):
            for p, q in zip(a, b):
                if type(p[2]) is int and p[2] == 0:
                    out.append(q)
                elif type(q[2]) is int and q[2] == 0:
                    out.append(p)
                elif o != 'add' and type(p[2]) is int and type(q[2]) is int:
                    out.append((p[0], p[1], p[2] | q[2] if o == 'or' else p[2] ^ q[2]))
                elif o != 'add' and (p[2] is UNDEF or q[2] is UNDEF):
                    out.append((p[0], p[1], UNDEF))
                elif o == 'add' and all(type(t) is int or isinstance(t, Poly) for t in (p[2], q[2])):
                    h = 8 * p[1]        # no carry between the halves
                    out.append((p[0], p[1], _np2(as_mint(p[2], h) + as_mint(q[2], h), h)))
                else:
                    raise EngineError('overlapping or')
            return Cat(out, w // 8)
    raise EngineError('operation %s on coerced value %r %r' % (o, x, y))


def widen(v, n, m):
    """zero extension of an n-byte value to m bytes"""
    if type(v) is int:
        return v
    if z3.is_bv(v):
        return z3.ZeroExt(8 * m - v.size(), v)
    if type(v) is Cat:
        return Cat(list(v.parts) + [(n, m - n, 0)], m)
    if isinstance(v, Poly):
        return v
    return Cat([(0, n, v), (n, m - n, 0)], m)


def mibin(S, o, x, y, w, fl):
    """mathematical integers"""
    eng = S.eng
    a, b = as_mint(x, w), as_mint(y, w)
    if o == 'add' or (o == 'or' and 'disjoint' in fl):
        return _np2(a + b, w)
    if o == 'sub':
        return _np2(a - b, w)
    if o == 'mul':
        if w == 64 and b.is_const() and b.const_value() == 0x100000001 and not a.is_const():
            return Cat([(0, 4, a), (4, 4, a)], 8)       # a coerced pair of equal numbers
        return _np2(a * b, w)
    if o == 'shl':
        if w == 64 and b.is_const() and b.const_value() == 32 and not a.is_const():
            return Cat([(0, 4, 0), (4, 4, a)], 8)       # upper half of a coerced pair
        if b.is_const():
            return _np2(a.scale(2 ** int(b.const_value())), w)
        if a.is_const() and eng.pow2 is not None:
            return _np2(eng.pow2(S, b).scale(a.const_value()), w)
        e = eng.concretize(S, b, w, 'shift amount')
        return _np2(a.scale(2 ** e), w)
    if o in ('sdiv', 'udiv', 'srem', 'urem', 'lshr', 'ashr'):
        if o in ('lshr', 'ashr'):
            if not b.is_const():
                raise EngineError('symbolic shift')
            b = Poly.const(2 ** int(b.const_value()))
        q, r = divmod_sym(S, a, b, o)
        return _np2(q if o in ('sdiv', 'udiv', 'lshr', 'ashr') else r, w)
    if o == 'xor' and b.is_const() and b.const_value() == -1:
        return _np2(-a - 1, w)
    if o == 'and' and b.is_const():
        m = int(b.const_value())
        if w == 64 and m == 0xffffffff and all(abs(c) < 2 ** 31 for c in a.t.values()) and eng.decide(S, mkatom('ge', a)):
            return _np2(a, w)       # a 32-bit number
        if m > 0 and (m & (m + 1)) == 0:
            q, r = divmod_sym(S, a, Poly.const(m + 1), 'ashr')
            return _np2(r, w)
        if m < 0 and ((-m) & (-m - 1)) == 0:
            q, r = divmod_sym(S, a, Poly.const(-m), 'ashr')
            return _np2(a - r, w)
    raise EngineError('operation %s on mathematical integers %r %r' % (o, a, b))


Engine.pow2 = None


def _np2(p, w):
    if p.is_const():
        return int(p.const_value()) & ((1 << w) - 1)
    return p


def divmod_sym(S, a, b, o):
    """truncated division = floor division; needs a >= 0 and b > 0 (sdiv)"""
    eng = S.eng
    if o != 'ashr':
        if not eng.decide(S, mkatom('gt', b)):
            raise EngineError('symbolic division by a non-positive number')
        if not eng.decide(S, mkatom('ge', a)):
            if o in ('sdiv', 'srem'):
                q, r = divmod_sym(S, -a, b, o)
                return -q, -r
            raise EngineError('unsigned division of a negative mathematical integer')
    # fully divisible / provably smaller
    key = ('div', a.key(), b.key())
    kn = S.pc.vals.get(key)
    if kn is not None:
        return kn
    if b.is_const() and b.const_value() == 1:
        return a, Poly.const(0)
    if not isinstance(b, Poly):
        b = Poly.const(b)
    q = r = None
    c = poly.to_poly(a)
    # monomials divisible by b when b is a single monomial/constant
    if len(b.t) == 1:
        (bm, bc), = b.t.items()
        qt, rt = {}, {}
        for m, v in c.t.items():
            mm = list(m)
            ok = True
            for k in bm:
                if k in mm:
                    mm.remove(k)
                else:
                    ok = False
            if ok and Fraction(v, 1) / bc == int(Fraction(v) / bc):
                qt[tuple(mm)] = int(Fraction(v) / bc)
            else:
                rt[m] = v
        qq, rr = Poly(qt), Poly(rt)
        ge = eng_known(S, mkatom('ge', rr))
        lt = eng_known(S, mkatom('lt', rr - b))
        if ge and lt:
            S.pc.vals[key] = (qq, rr)
            return qq, rr
    q = Poly({(poly.new_symbol('q%d' % len(poly.SYMS), 'int', 'free', 'nonneg' if o != 'ashr' else None).id,): 1})
    r = a - q * b
    S.pc.vals[key] = (q, r)
    S.pc.assume(Atom('ge', r))
    S.pc.assume(Atom('lt', r - b))
    return q, r


def eng_known(S, a):
    if type(a) is int:
        return bool(a)
    k = S.pc.known(a)
    if k is not None:
        return k
    r, _, _ = logic.z3_query(S.pc, [a.neg()], 2)
    return r == 'unsat'


# --- casts -----------------------------------------------------------------
def caster(eng, o, t, t2):
    if o in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
        def f(S, x):
            if o == 'bitcast' and t[0] == 'double' and t2[0] == 'i':
                return loader(t2)(x)
            if o == 'bitcast' and t[0] == 'i' and t2[0] == 'double':
                return loader(t2)(x)
            if o == 'bitcast' and (t[0] == 'vec') != (t2[0] == 'vec'):
                raise EngineError('vector bitcast')
            if o == 'inttoptr' and type(x) is int:
                return NULL if x == 0 else Ptr(0, x)
            if o == 'ptrtoint' and type(x) is Ptr and x.o == 0:
                return x.off
            return x
        return f
    if o in ('zext', 'sext', 'trunc'):
        w, w2 = t[1], t2[1]
        mask2 = (1 << w2) - 1

        def f(S, x):
            if type(x) is int:
                if o == 'sext':
                    return to_signed(x, w) & mask2
                return x & mask2
            if x is UNDEF:
                return UNDEF
            if type(x) is PBits:
                return pbits(x.val, x.known | (mask2 & ~((1 << w) - 1) if o == 'zext' else 0), mask2) if o != 'sext' else UNDEF
            if type(x) is Atom:
                x = int(eng.decide(S, x))
                return (x if o == 'zext' else (mask2 if x else 0)) & mask2
            if isinstance(x, Poly):
                if w2 == 1 and o == 'trunc':
                    q, r = divmod_sym(S, x, Poly.const(2), 'ashr')
                    return mkatom('eq', r - 1)
                if o == 'zext' and eng.decide(S, mkatom('lt', x)):
                    raise EngineError('zero extension of a negative mathematical integer')
                return x
            if type(x) is Ptr:
                return x
            if type(x) is Cat:
                if o == 'trunc':
                    return extract_bytes(x, x.size, 0, w2 // 8)
                if o == 'zext':
                    return widen(x, x.size, w2 // 8)
            if z3.is_bool(x):
                if o == 'zext':
                    return tobv(x, w2)
                if o == 'sext':
                    return z3.If(x, z3.BitVecVal(mask2, w2), z3.BitVecVal(0, w2))
            if z3.is_bv(x):
                if o == 'zext':
                    return z3.ZeroExt(w2 - w, x)
                if o == 'sext':
                    return z3.SignExt(w2 - w, x)
                if w2 == 1:
                    return z3.Extract(0, 0, x) == 1
                return z3.Extract(w2 - 1, 0, x)
            raise EngineError('%s of %r' % (o, x))
        return f
    if o in ('sitofp', 'uitofp'):
        w = t[1]

        def f(S, x):
            if type(x) is int:
                return Fraction(to_signed(x, w) if o == 'sitofp' else x)
            if isinstance(x, Poly) or x is UNDEF:
                return x
            if type(x) is Atom:
                return Fraction(int(eng.decide(S, x)))
            if z3.is_bool(x):
                return Fraction(int(eng.decide(S, x)))
            if z3.is_bv(x):
                c = eng.concretize(S, x, w, 'integer to floating point')
                return Fraction(to_signed(c, w) if o == 'sitofp' else c)
            raise EngineError('%s of %r' % (o, x))
        return f
    if o in ('fptosi', 'fptoui'):
        w2 = t2[1]

        def f(S, x):
            if isinstance(x, Fraction):
                n = abs(x.numerator) // x.denominator
                return (n if x >= 0 else -n) & ((1 << w2) - 1)
            if isinstance(x, Poly):
                if all(poly.SYMS[k].sort == 'int' for k in x.symbols()) and \
                        all(Fraction(c).denominator == 1 for c in x.t.values()):
                    return x
            raise EngineError('%s of %r' % (o, x))
        return f
    if o in ('fpext', 'fptrunc'):
        return lambda S, x: x
    raise EngineError('cast ' + o)


# --- intrinsics and external functions ----------------------------------------
def intrinsic(eng, name, ats, rt):
    b = name.split('.')
    n = b[1]
    if n in ('lifetime', 'dbg', 'invariant', 'assume', 'experimental', 'donothing', 'prefetch', 'stackrestore',
             'var'):
        return lambda S, a: None
    if n == 'stacksave':
        return lambda S, a: NULL
    if n == 'memset':
        def f(S, a):
            k = a[2]
            if type(k) is not int:
                k = eng.concretize(S, k, 64, 'memset size')
            S.memset(a[0], a[1], k)
        return f
    if n in ('memcpy', 'memmove'):
        def f(S, a):
            k = a[2]
            if type(k) is not int:
                k = eng.concretize(S, k, 64, 'memcpy size')
            S.memcpy(a[0], a[1], k)
        return f
    if n in ('umax', 'umin', 'smax', 'smin'):
        w = ats[0][1] if ats[0][0] == 'i' else None
        pred = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[n]

        def f(S, a):
            x, y = a
            if type(x) is int and type(y) is int:
                return x if icmp_int(pred, x, y, w) else y
            c = icmp_sym(S, pred, x, y, w)
            if z3.is_expr(c):
                return z3.If(c, tobv(x, w), tobv(y, w))
            return x if eng.decide(S, c) else y
        return f
    if n == 'abs':
        w = ats[0][1]

        def f(S, a):
            x = a[0]
            if type(x) is int:
                return abs(to_signed(x, w)) & ((1 << w) - 1)
            if isinstance(x, Poly):
                return -x if eng.decide(S, mkatom('lt', x)) else x
            return z3.If(x < 0, -x, x)
        return f
    if n == 'fabs':
        return lambda S, a: fabs(S, a[0])
    if n == 'sqrt':
        return lambda S, a: fsqrt(S, a[0])
    if n in ('maxnum', 'minnum', 'maximum', 'minimum'):
        def f(S, a):
            c = fcmp(S, 'ogt' if n.startswith('max') else 'olt', a[0], a[1])
            return a[0] if eng.decide(S, c) else a[1]
        return f
    if n == 'copysign':
        def f(S, a):
            x = fabs(S, a[0])
            return -x if eng.decide(S, fcmp(S, 'olt', a[1], Fraction(0))) else x
        return f
    if n in ('fmuladd', 'fma'):
        return lambda S, a: fadd(S, fmul(S, a[0], a[1]), a[2])
    if n == 'expect':
        return lambda S, a: a[0]
    if n == 'threadlocal':
        return lambda S, a: a[0]
    if n == 'eh':
        if b[2] == 'typeid':
            return lambda S, a: eng.typeid(a[0])
    if n == 'trap':
        return lambda S, a: S.fail('trap')
    if n == 'objectsize':
        return lambda S, a: (1 << 64) - 1
    if n in ('floor', 'ceil', 'round', 'trunc', 'rint', 'nearbyint'):
        def f(S, a):
            x = a[0]
            if isinstance(x, Fraction):
                import math
                if n == 'floor':
                    return Fraction(math.floor(x))
                if n == 'ceil':
                    return Fraction(math.ceil(x))
                if n == 'trunc':
                    return Fraction(math.trunc(x))
                if n == 'round':
                    return Fraction(math.floor(x + Fraction(1, 2)) if x >= 0 else -math.floor(-x + Fraction(1, 2)))
            raise EngineError(n)
        return f
    if n in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and b[2] == 'with':
        w = ats[0][1]
        o = {'add': 'add', 'sub': 'sub', 'mul': 'mul'}[n[1:]]

        def f(S, a):
            x, y = a
            if type(x) is int and type(y) is int:
                if n[0] == 's':
                    x, y = to_signed(x, w), to_signed(y, w)
                r = x + y if o == 'add' else x - y if o == 'sub' else x * y
                m = r & ((1 << w) - 1)
                ov = (to_signed(m, w) if n[0] == 's' else m) != r
                return (m, int(ov))
            if isinstance(x, Poly) or isinstance(y, Poly):
                return (ibin(S, o, x, y, w, (1 << w) - 1, ()), 0)
            raise EngineError(name)
        return f
    if n in ('usub', 'uadd') and b[2] == 'sat':
        w = ats[0][1]

        def f(S, a):
            x, y = a
            if type(x) is int and type(y) is int:
                return max(0, x - y) if n == 'usub' else min((1 << w) - 1, x + y)
            if n == 'usub' and (isinstance(x, Poly) or isinstance(y, Poly)):
                d = as_mint(x, w) - as_mint(y, w)
                return _np2(d, w) if eng.decide(S, mkatom('gt', d)) else 0
            if n == 'usub':
                return z3.If(z3.UGT(tobv(x, w), tobv(y, w)), tobv(x, w) - tobv(y, w), z3.BitVecVal(0, w))
            raise EngineError(name)
        return f
    if n in ('ctpop', 'cttz', 'ctlz', 'bswap', 'fshl', 'fshr', 'bitreverse'):
        w = ats[0][1]

        def f(S, a):
            x = a[0]
            if type(x) is not int:
                if n in ('ctpop',) and z3.is_bv(x):
                    return z3.simplify(sum([z3.ZeroExt(w - 1, z3.Extract(i, i, x)) for i in range(w)],
                                           z3.BitVecVal(0, w)))
                if n in ('cttz', 'ctlz') and z3.is_bv(x):
                    r = z3.BitVecVal(w, w)
                    rng = range(w - 1, -1, -1) if n == 'cttz' else range(w)
                    for i in rng:
                        r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(i if n == 'cttz' else w - 1 - i, w), r)
                    return r
                if n in ('fshl', 'fshr') and type(a[2]) is int and (z3.is_bv(x) or z3.is_bv(a[1])):
                    k = a[2] % w
                    y = z3.Concat(tobv(x, w), tobv(a[1], w))
                    if n == 'fshl':
                        return z3.Extract(2 * w - 1 - k, w - k, y)
                    return z3.Extract(w - 1 + k, k, y)
                x = eng.concretize(S, x, w, n)
            if n == 'ctpop':
                return bin(x).count('1')
            if n == 'cttz':
                return w if x == 0 else (x & -x).bit_length() - 1
            if n == 'ctlz':
                return w - x.bit_length()
            if n in ('fshl', 'fshr'):
                y = (x << w) | a[1]
                k = a[2] % w
                return ((y << k) >> w if n == 'fshl' else y >> k) & ((1 << w) - 1)
            raise EngineError(name)
        return f
    if n == 'pow':
        def f(S, a):
            if isinstance(a[1], Fraction) and a[1].denominator == 1 and a[1] >= 0:
                return _fl(poly.to_poly(a[0]) ** int(a[1]))
            raise EngineError('pow')
        return f
    if n == 'vector':
        if b[2] == 'reduce' and b[3] in ('fadd', 'add'):
            def f(S, a):
                if b[3] == 'fadd':
                    r = a[0]
                    for x in a[1]:
                        r = fadd(S, r, x)
                    return r
                r = 0
                for x in a[0]:
                    r = r + x
                return r
            return f

    def f(S, a):
        raise EngineError('intrinsic ' + name)
    return f


def fabs(S, x):
    if x is UNDEF:
        return UNDEF
    if isinstance(x, (Fraction, float)):
        return abs(x)
    if S.eng.decide(S, mkatom('lt', x)):
        return _fl(-x)
    return x


def fsqrt(S, x):
    if x is UNDEF:
        return UNDEF
    if isinstance(x, float):
        return x ** 0.5 if x >= 0 else float('nan')
    p = poly.to_poly(x)
    if p.is_const():
        c = Fraction(p.const_value())
        if c < 0:
            return float('nan')
        return _fl(poly.sqrt(p))
    if not (S.pc.signs_of(p) <= logic.OPS['ge']):
        if S.eng.decide(S, mkatom('lt', p)):
            return float('nan')
    # perfect square of a polynomial?
    return _fl(poly.sqrt(p))


EXTERN = {}


def extern(*names):
    def d(f):
        for n in names:
            EXTERN[n] = f
        return f
    return d


def extern_pattern(name):
    if name.startswith('_ZSt') and '__throw_' in name:
        def h(eng, S, a):
            return eng.throw(S, eng.fptr('std:' + name), NULL)
        return h
    # exception constructors / destructors of external types, messages
    return None


@extern('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmRKSt9nothrow_t',
        'aligned_alloc')
def _new(eng, S, a):
    n = a[0]
    if type(n) is not int:
        n = eng.concretize(S, n, 64, 'allocation size')
    return Ptr(S.new_obj(n, 'new', 'heap'), 0)


@extern('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvmSt11align_val_t', '_ZdlPvSt11align_val_t')
def _delete(eng, S, a):
    p = a[0]
    if type(p) is int or p.o == 0:
        return None
    o = S.wobj(p.o)
    if not o.alive:
        S.fail('double free of ' + o.name)
    if p.off != 0 or o.kind != 'heap':
        S.fail('free of a non-heap pointer')
    o.alive = False
    o.cells = {}
    return None


@extern('memset')
def _memset(eng, S, a):
    S.memset(a[0], a[1] & 255, a[2])
    return a[0]


@extern('memcpy', 'memmove')
def _memcpy(eng, S, a):
    S.memcpy(a[0], a[1], a[2])
    return a[0]


@extern('memcmp', 'bcmp')
def _memcmp(eng, S, a):
    n = a[2]
    if type(n) is not int:
        n = eng.concretize(S, n, 64, 'memcmp size')
    i = 0
    while i < n:
        w = 1
        x = S.load(Ptr(a[0].o, padd(a[0].off, i)), w)
        y = S.load(Ptr(a[1].o, padd(a[1].off, i)), w)
        if type(x) is int and type(y) is int:
            if x != y:
                return 1 if x > y else (1 << 32) - 1
        else:
            raise EngineError('memcmp on symbolic memory')
        i += w
    return 0


@extern('strlen')
def _strlen(eng, S, a):
    n = 0
    while True:
        c = S.load(Ptr(a[0].o, a[0].off + n), 1)
        if c == 0:
            return n
        n += 1


@extern('strcmp')
def _strcmp(eng, S, a):
    n = 0
    while True:
        c = S.load(Ptr(a[0].o, a[0].off + n), 1)
        d = S.load(Ptr(a[1].o, a[1].off + n), 1)
        if c != d:
            return 1 if c > d else (1 << 32) - 1
        if c == 0:
            return 0
        n += 1


@extern('__cxa_guard_acquire')
def _guard(eng, S, a):
    v = S.load(Ptr(a[0].o, a[0].off), 1)
    return 0 if v == 1 else 1


@extern('__cxa_guard_release')
def _guardr(eng, S, a):
    S.store(Ptr(a[0].o, a[0].off), 1, 1)


@extern('pthread_mutex_lock', 'pthread_mutex_unlock', '__cxa_guard_abort', '__cxa_atexit', '__cxa_thread_atexit', '_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev',
        '__cxa_free_exception', '_ZNSt9exceptionD2Ev', '_ZNSt9exceptionD1Ev', '_ZN4Dune9ExceptionC2Ev', '_ZN4Dune9ExceptionC1Ev',
        '_ZN4Dune9ExceptionD2Ev', '_ZN4Dune9ExceptionD1Ev', '_ZN4Dune9ExceptionD0Ev')
def _zero(eng, S, a):
    return 0


@extern('__cxa_allocate_exception')
def _exc(eng, S, a):
    return Ptr(S.new_obj(a[0], 'exception', 'exc'), 0)


@extern('__cxa_throw')
def _throw(eng, S, a):
    return eng.throw(S, a[1], a[0])


@extern('__cxa_begin_catch')
def _begin(eng, S, a):
    S.caught.append(S.exc)
    return a[0]


@extern('__cxa_end_catch')
def _end(eng, S, a):
    if S.caught:
        S.caught.pop()


@extern('__cxa_rethrow')
def _rethrow(eng, S, a):
    S.exc = S.caught.pop()
    return eng.unwind(S, first=True)


@extern('__assert_fail')
def _assert(eng, S, a):
    def s(p):
        r = bytearray()
        try:
            n = 0
            while n < 300:
                c = S.load(Ptr(p.o, p.off + n), 1)
                if c == 0:
                    break
                r.append(c)
                n += 1
        except Exception:
            pass
        return r.decode('utf-8', 'replace')
    S.fail('assertion failed: %s (%s:%s)' % (s(a[0]), s(a[1]).split('/')[-1], a[2]))


@extern('abort', '_ZSt9terminatev', '__cxa_bad_cast', '__cxa_pure_virtual', '__stack_chk_fail',
        '_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE')
def _abort(eng, S, a):
    S.fail('abort or terminate called')


EXTERN['__cxa_bad_cast'] = lambda eng, S, a: eng.throw(S, eng.gptr('_ZTISt8bad_cast') if '_ZTISt8bad_cast' in eng.mod.globals else eng.fptr('std:bad_cast'), NULL)


@extern('sqrt')
def _sqrt(eng, S, a):
    return fsqrt(S, a[0])


@extern('fabs')
def _fabs(eng, S, a):
    return fabs(S, a[0])


@extern('__errno_location')
def _errno(eng, S, a):
    return Ptr(S.new_obj(8, 'errno', 'heap'), 0)


@extern('pthread_once')
def _once(eng, S, a):
    flag = Ptr(a[0].o, a[0].off)
    v = S.load(flag, 4)
    if v == 0:
        # the flag is set when the function returns (an exception leaves it unset)
        def done(e, T, r):
            T.store(flag, 4, 2)
            return 0
        nm = a[1].o[1]
        if nm == '__once_proxy':
            g = eng.gobj['_ZSt11__once_call']
            nm = S.load(Ptr(g, 0), 8).o[1]
        return CallFn(nm, [], done)
    return 0


EXTERN['_ZN4Dune16doAssertCallOnceEPKciS1_'] = lambda eng, S, a: None


@extern('__once_proxy')
def _onceproxy(eng, S, a):
    g = eng.gobj['_ZSt11__once_call']
    p = S.load(Ptr(g, 0), 8)
    return CallFn(p.o[1], [], lambda e, T, r: 0)


@extern('__dynamic_cast')
def _dyncast(eng, S, a):
    p, src, dst = a[0], a[1], a[2]
    if p.o == 0:
        return NULL
    vt = S.load(Ptr(p.o, p.off), 8)
    ti = S.load(Ptr(vt.o, vt.off - 8), 8)
    top = S.load(Ptr(vt.o, vt.off - 16), 8)
    if eng.ti_derives(S, ti, dst):
        t = to_signed(top, 64) if type(top) is int else 0
        return Ptr(p.o, p.off + t)
    return NULL


@extern('_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_')
def _rbinsert(eng, S, a):
    """std::map node insertion without rebalancing (same in-order sequence)"""
    left, x, par, head = a
    w = lambda p, off, v: S.store(Ptr(p.o, p.off + off), 8, v)
    r = lambda p, off: S.load(Ptr(p.o, p.off + off), 8)
    # node: color 0, parent 8, left 16, right 24
    w(x, 8, par)
    w(x, 16, NULL)
    w(x, 24, NULL)
    S.store(Ptr(x.o, x.off), 4, 1)
    if type(left) is not int:
        left = int(eng.decide(S, left))
    if left:
        w(par, 16, x)
        if par == head:
            w(head, 8, x)
            w(head, 24, x)
        elif par == r(head, 16):
            w(head, 16, x)
    else:
        w(par, 24, x)
        if par == r(head, 24):
            w(head, 24, x)
    return None


def _rbincr(eng, S, a):
    x = a[0]
    r = lambda p, off: S.load(Ptr(p.o, p.off + off), 8)
    nz = lambda p: isinstance(p, Ptr) and p.o != 0
    if nz(r(x, 24)):
        x = r(x, 24)
        while nz(r(x, 16)):
            x = r(x, 16)
        return x
    y = r(x, 8)
    while x == r(y, 24):
        x = y
        y = r(y, 8)
    if r(x, 24) != y:
        x = y
    return x


EXTERN['_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base'] = _rbincr
EXTERN['_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base'] = _rbincr


def _rbdecr(eng, S, a):
    x = a[0]
    r = lambda p, off: S.load(Ptr(p.o, p.off + off), 8)
    nz = lambda p: isinstance(p, Ptr) and p.o != 0
    if S.load(Ptr(x.o, x.off), 4) == 0 and nz(r(x, 8)) and r(r(x, 8), 8) == x:
        # header (its colour is red = 0) : rightmost
        rr = r(x, 24)
        # nodes are written with colour black = 1 by the insertion above
        return rr
    if nz(r(x, 16)):
        y = r(x, 16)
        while nz(r(y, 24)):
            y = r(y, 24)
        return y
    y = r(x, 8)
    while x == r(y, 16):
        x = y
        y = r(y, 8)
    return y


EXTERN['_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base'] = _rbdecr
EXTERN['_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base'] = _rbdecr
