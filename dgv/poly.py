"""Exact multivariate polynomials over the rationals with defined symbols.

A value of the verified program that depends on symbolic input is kept as a
polynomial in symbols.  A symbol is either free (an input, sort 'real' or
'int') or defined:

  inv  v = 1/D     sqrt  s = sqrt(P), s >= 0     abs/sign are path splits
  sub  a := P      (re-parametrisation introduced by integer division)

Equality of two values is decided by eliminating the defined symbols in
reverse order of creation; the result is an ordinary polynomial, which is
zero iff the dictionary is empty.
"""
from fractions import Fraction


class Sym:
    __slots__ = ('id', 'name', 'sort', 'kind', 'arg')

    def __init__(self, id, name, sort, kind, arg):
        self.id = id
        self.name = name
        self.sort = sort      # 'real' | 'int'
        self.kind = kind      # 'free' | 'inv' | 'sqrt'
        self.arg = arg

    def __repr__(self):
        return self.name


SYMS = []            # id -> Sym
_INV = {}            # key(poly) -> symbol id
_SQRT = {}
INVOF = {}           # id of plain symbol x -> id of inv(x)  (cancellation)
CANCEL = {}          # both directions
SUBST = {}           # symbol id -> Poly (re-parametrisation)
STATE = {'sq': False}
_UF = {}             # name -> list of (args, values): uninterpreted functions


def reset():
    SYMS.clear()
    _INV.clear()
    _SQRT.clear()
    INVOF.clear()
    CANCEL.clear()
    SUBST.clear()
    _UF.clear()


def mark():
    return len(SYMS)


def new_symbol(name, sort='real', kind='free', arg=None):
    s = Sym(len(SYMS), name, sort, kind, arg)
    SYMS.append(s)
    return s


def var(name, sort='real'):
    return Poly({(new_symbol(name, sort).id,): 1})


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def _mulmono(a, b):
    """product of two monomials; returns (mono, None) or (None, poly)"""
    if not a:
        return b
    if not b:
        return a
    return tuple(sorted(a + b))


class Poly:
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    # -- construction -------------------------------------------------
    @staticmethod
    def const(c):
        c = _norm(c)
        return Poly({(): c} if c != 0 else {})

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and () in t)

    def const_value(self):
        return self.t.get((), 0)

    def symbols(self):
        r = set()
        for m in self.t:
            r.update(m)
        return r

    def key(self):
        if self._h is None:
            self._h = frozenset(self.t.items())
        return self._h

    # -- arithmetic -----------------------------------------------------
    def __add__(self, o):
        if not isinstance(o, Poly):
            if o == 0:
                return self
            o = Poly.const(o)
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
        return Poly(r)
    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        if not isinstance(o, Poly):
            o = Poly.const(o)
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m)
            if v is None:
                r[m] = -c
            else:
                v = v - c
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
        return Poly(r)

    def __rsub__(self, o):
        return (-self) + o

    def scale(self, c):
        if c == 0:
            return Poly({})
        return Poly({m: _norm(c * v) for m, v in self.t.items()})

    def __mul__(self, o):
        if not isinstance(o, Poly):
            return self.scale(_norm(Fraction(o)))
        a, b = self.t, o.t
        if not a or not b:
            return Poly({})
        if len(a) == 1 and () in a:
            return o.scale(a[()])
        if len(b) == 1 and () in b:
            return self.scale(b[()])
        r = {}
        special = STATE['sq']
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = tuple(sorted(m1 + m2)) if (m1 and m2) else (m1 or m2)
                c = c1 * c2
                v = r.get(m)
                r[m] = c if v is None else v + c
        r = {m: _norm(c) for m, c in r.items() if c != 0}
        p = Poly(r)
        if special:
            p = simplify(p)
        return p
    __rmul__ = __mul__

    def __pow__(self, n):
        r = Poly.const(1)
        for _ in range(n):
            r = r * self
        return r

    def __truediv__(self, o):
        if not isinstance(o, Poly):
            return self.scale(Fraction(1) / Fraction(o))
        return self * inverse(o)

    def __rtruediv__(self, o):
        return inverse(self).scale(_norm(Fraction(o)))

    def __repr__(self):
        return show(self)

    # equality of *representation*
    def same(self, o):
        return self.t == o.t

    def degree_in(self, sid):
        d = 0
        for m in self.t:
            k = m.count(sid)
            if k > d:
                d = k
        return d


def show(p, limit=12):
    if not p.t:
        return '0'
    out = []
    for i, (m, c) in enumerate(sorted(p.t.items(), key=lambda x: (len(x[0]), x[0]))):
        if i >= limit:
            out.append('...(%d terms)' % len(p.t))
            break
        out.append('%s%s' % (c, ''.join('*' + SYMS[k].name for k in m)))
    return ' + '.join(out)


def to_poly(x):
    if isinstance(x, Poly):
        return x
    return Poly.const(Fraction(x))


def simplify(p):
    """apply s*s -> P for sqrt symbols and x*inv(x) -> 1 inside monomials"""
    changed = False
    for m in p.t:
        if _needs(m):
            changed = True
            break
    if not changed:
        return p
    acc = {}
    rest = Poly({})
    for m, c in p.t.items():
        if not _needs(m):
            v = acc.get(m, 0) + c
            if v == 0:
                acc.pop(m, None)
            else:
                acc[m] = v
            continue
        m2, factor = _reduce_mono(m)
        if factor is None:
            v = acc.get(m2, 0) + c
            if v == 0:
                acc.pop(m2, None)
            else:
                acc[m2] = v
        else:
            rest = rest + Poly({m2: c}) * factor
    return Poly(acc) + rest


def _needs(m):
    prev = None
    for k in m:
        if k == prev and SYMS[k].kind == 'sqrt':
            return True
        if k in CANCEL and CANCEL[k] in m:
            return True
        prev = k
    return False


def _reduce_mono(m):
    m = list(m)
    factor = None
    # cancellation x * inv(x)
    again = True
    while again:
        again = False
        for k in m:
            o = CANCEL.get(k)
            if o is not None and o in m:
                m.remove(k)
                m.remove(o)
                again = True
                break
    i = 0
    while i + 1 < len(m):
        if m[i] == m[i + 1] and SYMS[m[i]].kind == 'sqrt':
            f = SYMS[m[i]].arg
            del m[i:i + 2]
            factor = f if factor is None else factor * f
        else:
            i += 1
    return tuple(m), factor


def _lead(p):
    m = max(p.t, key=lambda m: (len(m), m))
    return p.t[m]


def inverse(p):
    """1/p as a value (p assumed non-zero; the caller records that)"""
    if p.is_const():
        return Poly.const(Fraction(1) / Fraction(p.const_value()))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = Poly.const(Fraction(1) / Fraction(c))
        for k in m:
            r = r * _inv_sym(k)
        return r
    c = _lead(p)
    q = p.scale(Fraction(1) / Fraction(c))
    key = q.key()
    sid = _INV.get(key)
    if sid is None:
        sid = new_symbol('inv%d' % len(SYMS), 'real', 'inv', q).id
        _INV[key] = sid
    return Poly({(sid,): _norm(Fraction(1) / Fraction(c))})


def _inv_sym(k):
    s = SYMS[k]
    if s.kind == 'inv':
        return s.arg
    if s.kind == 'sqrt':
        # 1/s = s/P
        return Poly({(k,): 1}) * inverse(s.arg)
    if k not in INVOF:
        v = new_symbol('inv_%s' % s.name, 'real', 'inv', Poly({(k,): 1})).id
        INVOF[k] = v
        CANCEL[k] = v
        CANCEL[v] = k
        STATE['sq'] = True
        _INV[Poly({(k,): 1}).key()] = v
    return Poly({(INVOF[k],): 1})


def isqrt_exact(n):
    import math
    if n < 0:
        return None
    r = math.isqrt(n)
    return r if r * r == n else None


def sqrt(p):
    p = to_poly(p)
    if p.is_const():
        f = Fraction(p.const_value())
        a, b = isqrt_exact(f.numerator), isqrt_exact(f.denominator)
        if a is not None and b is not None:
            return Poly.const(Fraction(a, b))
    STATE['sq'] = True
    key = p.key()
    sid = _SQRT.get(key)
    if sid is None:
        for k in _SQRT.values():
            if is_zero(SYMS[k].arg - p):
                sid = _SQRT[key] = k
                break
    if sid is None:
        sid = new_symbol('sqrt%d' % len(SYMS), 'real', 'sqrt', p).id
        _SQRT[key] = sid
    return Poly({(sid,): 1})


def uf(name, args, n, fn):
    """n values of the uninterpreted function at the given arguments.  Equal
    arguments (polynomial identity) give the same symbols.  fn computes the
    values from numbers (used for witnesses only)"""
    args = [to_poly(a) for a in args]
    keys = [a.key() for a in args]
    tab = _UF.setdefault(name, [])
    for ak, a2, vals in tab:
        if ak == keys:
            return vals
    for ak, a2, vals in tab:
        if len(a2) == len(args) and all(is_zero(x - y) for x, y in zip(args, a2)):
            return vals
    vals = []
    for i in range(n):
        s = new_symbol('%s%d_%d' % (name, len(tab), i), 'real', 'uf', (name, tuple(args), i, fn))
        vals.append(Poly({(s.id,): 1}))
    tab.append((keys, args, vals))
    return vals


def substitute(p, sid, q):
    """replace symbol sid by polynomial q"""
    out = Poly({})
    groups = {}
    for m, c in p.t.items():
        k = m.count(sid)
        mm = tuple(x for x in m if x != sid) if k else m
        groups.setdefault(k, {})[mm] = c
    qp = Poly.const(1)
    n = 0
    for k in sorted(groups):
        while n < k:
            qp = qp * q
            n += 1
        out = out + Poly(groups[k]) * qp
    return out


def eliminate(p):
    """numerator of p after removing every inv symbol (multiplying by the
    denominators) and every re-parametrised symbol; sqrt reduced."""
    p = simplify(p) if STATE['sq'] else p
    if SUBST:
        while True:
            todo = [k for k in p.symbols() if k in SUBST]
            if not todo:
                break
            for k in todo:
                p = substitute(p, k, SUBST[k])
    while True:
        cand = [k for k in p.symbols() if SYMS[k].kind == 'inv']
        if not cand:
            return p
        v = max(cand)
        D = SYMS[v].arg
        groups = {}
        for m, c in p.t.items():
            k = m.count(v)
            mm = tuple(x for x in m if x != v) if k else m
            groups.setdefault(k, {})[mm] = c
        n = max(groups)
        out = Poly({})
        Dp = Poly.const(1)
        for k in range(n, -1, -1):
            if k in groups:
                out = out + Poly(groups[k]) * Dp
            if k:
                Dp = Dp * D
        if STATE['sq']:
            out = simplify(out)
        if SUBST:
            while True:
                todo = [k for k in out.symbols() if k in SUBST]
                if not todo:
                    break
                for k in todo:
                    out = substitute(out, k, SUBST[k])
        p = out


def _lexkey(m):
    return tuple(-k for k in m)


def divide(p, q, limit=600):
    """exact quotient p/q of polynomials or None"""
    lm = max(q.t, key=_lexkey)
    lc = Fraction(q.t[lm])
    r = p
    out = {}
    n = 0
    while r.t:
        n += 1
        if n > limit:
            return None
        m = max(r.t, key=_lexkey)
        mm = list(m)
        for k in lm:
            if k not in mm:
                return None
            mm.remove(k)
        c = _norm(Fraction(r.t[m]) / lc)
        t = tuple(mm)
        out[t] = c
        r = r - Poly({t: c}) * q
    return Poly(out)


def clear(p, v, n):
    """p * D^n with inv symbol v = 1/D removed (n >= degree in v)"""
    D = SYMS[v].arg
    groups = {}
    for m, c in p.t.items():
        k = m.count(v)
        mm = tuple(x for x in m if x != v) if k else m
        groups.setdefault(k, {})[mm] = c
    out = Poly({})
    Dp = Poly.const(1)
    for k in range(n, -1, -1):
        if k in groups:
            out = out + Poly(groups[k]) * Dp
        if k:
            Dp = Dp * D
    return simplify(out) if STATE['sq'] else out


def is_zero(p):
    if not p.t:
        return True
    return not eliminate(p).t


def evaluate(p, env, cache=None):
    """numeric value of p under env: symbol id -> number (Fraction or float);
    defined symbols are computed on the fly"""
    if cache is None:
        cache = {}

    def val(k):
        if k in cache:
            return cache[k]
        if k in env:
            r = env[k]
        else:
            s = SYMS[k]
            if k in SUBST:
                r = ev(SUBST[k])
            elif s.kind == 'inv':
                d = ev(s.arg)
                r = 1 / d
            elif s.kind == 'sqrt':
                d = ev(s.arg)
                if isinstance(d, Fraction) or isinstance(d, int):
                    f = Fraction(d)
                    a, b = isqrt_exact(f.numerator), isqrt_exact(f.denominator)
                    r = Fraction(a, b) if a is not None and b is not None else float(d) ** 0.5
                else:
                    r = d ** 0.5
            elif s.kind == 'uf':
                name, args, i, fn = s.arg
                vs = fn([ev(a) for a in args])
                for j in range(len(vs)):
                    o = k - i + j
                    if o not in env:
                        cache[o] = vs[j]
                return vs[i]
            else:
                raise KeyError(s.name)
        cache[k] = r
        return r

    def ev(q):
        tot = 0
        for m, c in q.t.items():
            x = c
            for k in m:
                x = x * val(k)
            tot = tot + x
        return tot
    return ev(p)
