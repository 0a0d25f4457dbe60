"""Path conditions over polynomial atoms and bit-vector formulas, and the
calls to the solvers.

An Atom is a comparison of a polynomial with zero.  The path condition maps
the monic form of a polynomial to the set of signs it may have, plus a list
of z3 formulas for the bit-vector part.
"""
import random
import time
from fractions import Fraction
import z3
from . import poly
from .poly import Poly, SYMS

NEG, ZERO, POS = -1, 0, 1
ALL = frozenset((NEG, ZERO, POS))
OPS = {'lt': frozenset((NEG,)), 'le': frozenset((NEG, ZERO)), 'eq': frozenset((ZERO,)),
       'ne': frozenset((NEG, POS)), 'gt': frozenset((POS,)), 'ge': frozenset((ZERO, POS))}
FLIP = {NEG: POS, ZERO: ZERO, POS: NEG}

STATS = {'z3': 0, 'z3_time': 0.0, 'cvc5': 0, 'cvc5_time': 0.0, 'poly': 0, 'ground': 0, 'poly_time': 0.0, 'sign': 0, 'sos': 0}


class Atom:
    __slots__ = ('op', 'p')

    def __init__(self, op, p):
        self.op = op
        self.p = p

    def neg(self):
        return Atom({'lt': 'ge', 'le': 'gt', 'eq': 'ne', 'ne': 'eq', 'gt': 'le', 'ge': 'lt'}[self.op], self.p)

    def __repr__(self):
        return '(%s %s 0)' % (poly.show(self.p), {'lt': '<', 'le': '<=', 'eq': '==', 'ne': '!=', 'gt': '>', 'ge': '>='}[self.op])


def monic(p):
    """(q, s): p = c*q, q monic in its leading monomial, s = sign of c"""
    t = p.t
    m = max(t, key=lambda m: (len(m), m))
    c = t[m]
    if c == 1:
        return p, 1
    return p.scale(Fraction(1) / Fraction(c)), (1 if c > 0 else -1)


def atom_signs(a):
    """(q, allowed signs of q) for the atom"""
    q, s = monic(a.p)
    S = OPS[a.op]
    if s < 0:
        S = frozenset(FLIP[x] for x in S)
    return q, S


class PathCond:
    """facts: key -> (poly, signs); bv: tuple of z3 formulas"""
    __slots__ = ('facts', 'bv', 'bvknown', 'wit', 'vals', '_solver', 'eqs')

    def __init__(self):
        self.facts = {}
        self.bv = ()
        self.bvknown = {}
        self.wit = {}
        self.vals = {}
        self._solver = None
        self.eqs = ()

    def copy(self):
        c = PathCond()
        c.facts = dict(self.facts)
        c.bv = self.bv
        c.bvknown = dict(self.bvknown)
        c.wit = dict(self.wit) if self.wit is not None else None
        c.vals = dict(self.vals)
        c.eqs = self.eqs
        return c

    # -- sign reasoning ---------------------------------------------------
    def sym_signs(self, k, depth=0):
        s = SYMS[k]
        f = self.facts.get(frozenset((((k,), 1),)))
        base = ALL if f is None else f[1]
        if s.kind == 'sqrt':
            base = base & OPS['ge']
            if 0 in base and depth < 6:
                base = base & (self.signs_of(s.arg, depth + 1) | {-1})
        if s.kind == 'inv':
            base = base & self.signs_of(s.arg, depth + 1) - {0}
        if s.kind == 'free' and s.arg == 'nonneg':
            base = base & OPS['ge']
        if s.kind == 'free' and s.arg == 'pos':
            base = base & OPS['gt']
        return base

    def signs_of(self, p, depth=0):
        """superset of the possible signs of p, by cheap reasoning"""
        if p.is_const():
            c = p.const_value()
            return frozenset((0 if c == 0 else (1 if c > 0 else -1),))
        q, s = monic(p)
        f = self.facts.get(q.key())
        res = ALL if f is None else f[1]
        if s < 0:
            res = frozenset(FLIP[x] for x in res)
        if len(res) == 1:
            return res
        # sign of each monomial
        tot = None
        if len(p.t) <= 64:
            cache = {}
            for m, c in p.t.items():
                ms = frozenset((1 if c > 0 else -1,))
                i = 0
                n = len(m)
                while i < n:
                    j = i
                    while j < n and m[j] == m[i]:
                        j += 1
                    e = j - i
                    k = m[i]
                    i = j
                    if k not in cache:
                        cache[k] = self.sym_signs(k, depth)
                    ks = cache[k]
                    if e % 2 == 0:
                        ks = frozenset(abs(x) for x in ks)
                    ms = frozenset(x * y for x in ms for y in ks)
                if tot is None:
                    tot = ms
                else:
                    tot = _addsigns(tot, ms)
                if tot == ALL:
                    break
            res = res & tot
        if len(res) > 1 and depth < 1:
            # compare with linear facts differing by a constant
            res = res & self._shift_signs(p, q, s)
        if len(res) > 1 and depth < 6 and (poly.SUBST or any(SYMS[k].kind == 'inv' for k in p.symbols())):
            res = res & self._rational_signs(p, depth)
        if len(res) > 1 and depth < 6:
            res = res & self._factor_signs(p, depth)
        return res

    def _rational_signs(self, p, depth):
        """clear the latest denominator of known sign"""
        cand = [k for k in p.symbols() if SYMS[k].kind == 'inv']
        if not cand:
            return ALL
        v = max(cand)
        D = SYMS[v].arg
        n = max(m.count(v) for m in p.t)
        ds = self.signs_of(D, depth + 1) - {0}
        if len(ds) != 1 and n % 2:
            n += 1
        num = poly.clear(p, v, n)
        if len(num.t) > 4000:
            return ALL
        sg = self.signs_of(num, depth + 1) if num.t else frozenset((0,))
        if n % 2 and ds == {-1}:
            sg = frozenset(FLIP[x] for x in sg)
        return sg

    def _factor_signs(self, p, depth):
        """signs via a common monomial and trial division by known facts"""
        if len(p.t) < 2 or len(p.t) > 400:
            return ALL
        it = iter(p.t)
        common = list(next(it))
        for m in it:
            if not common:
                break
            mm = list(m)
            c2 = []
            for k in common:
                if k in mm:
                    mm.remove(k)
                    c2.append(k)
            common = c2
        if common:
            sg = frozenset((1,))
            i = 0
            while i < len(common):
                e = common.count(common[i])
                ks = self.sym_signs(common[i], depth + 1)
                if e % 2 == 0:
                    ks = frozenset(abs(x) for x in ks)
                sg = frozenset(x * y for x in sg for y in ks)
                i += e
            t = {}
            for m, c in p.t.items():
                mm = list(m)
                for k in common:
                    mm.remove(k)
                t[tuple(mm)] = c
            rest = self.signs_of(Poly(t), depth + 1)
            return frozenset(x * y for x in sg for y in rest)
        ps = p.symbols()
        for f, S in list(self.facts.values()):
            if len(S - {0}) != 1 or len(f.t) > len(p.t) or len(f.t) < 2 or not (f.symbols() <= ps):
                continue
            if any(SYMS[k].kind != 'free' for k in ps):
                continue
            r = poly.divide(p, f)
            if r is None:
                continue
            rest = self.signs_of(r, depth + 1) if not r.is_const() else frozenset((sgn(r.const_value()),))
            return frozenset(x * y for x in S for y in rest)
        return ALL

    def _shift_signs(self, p, q, s):
        """facts about q + const give bounds on q"""
        t = dict(q.t)
        c0 = t.pop((), 0)
        if not t:
            return ALL
        lo = hi = None      # bounds for (q - c0)
        los = his = False   # strict?
        key = frozenset(t.items())
        for f, S in self._bounds().get(key, ()):
            # f: constant part: (q-c0)+f in S
            if S <= OPS['ge']:
                b = -f
                st = S == OPS['gt']
                if lo is None or b > lo or (b == lo and st):
                    lo, los = b, st
            if S <= OPS['le']:
                b = -f
                st = S == OPS['lt']
                if hi is None or b < hi or (b == hi and st):
                    hi, his = b, st
        res = set(ALL)
        if lo is not None:
            v = lo + c0
            if v > 0:
                res -= {0, -1}
            elif v == 0:
                res -= {-1}
                if los:
                    res -= {0}
        if hi is not None:
            v = hi + c0
            if v < 0:
                res -= {0, 1}
            elif v == 0:
                res -= {1}
                if his:
                    res -= {0}
        if s < 0:
            res = {FLIP[x] for x in res}
        return frozenset(res)

    def _bounds(self):
        b = {}
        for q, S in self.facts.values():
            t = dict(q.t)
            c0 = t.pop((), 0)
            if t:
                b.setdefault(frozenset(t.items()), []).append((c0, S))
        return b

    # -- assuming -------------------------------------------------------
    def assume(self, a):
        if isinstance(a, Atom):
            if a.p.is_const():
                return
            q, S = atom_signs(a)
            k = q.key()
            f = self.facts.get(k)
            if f is not None:
                S = S & f[1]
            if (f is None or S != f[1]) and S == OPS['eq']:
                self.eqs = self.eqs + (q,)
            self.facts[k] = (q, S)
            if any(SYMS[k].kind == 'inv' for k in q.symbols()):
                self._derive(q, S)
            self._rewit(a)
        elif isinstance(a, z3.ExprRef):
            self.bv = self.bv + (a,)
        elif isinstance(a, tuple) and a[0] == 'or':
            raise ValueError('disjunctive assumption')
        else:
            raise ValueError(a)
        self._solver = None

    def _derive(self, q, S):
        """add the sign-equivalent polynomial without denominators"""
        p, sg = q, 1
        while True:
            cand = [k for k in p.symbols() if SYMS[k].kind == 'inv']
            if not cand:
                break
            v = max(cand)
            n = max(m.count(v) for m in p.t)
            ds = self.signs_of(SYMS[v].arg, 1) - {0}
            if n % 2:
                if len(ds) != 1:
                    n += 1
                elif ds == {-1}:
                    sg = -sg
            p = poly.clear(p, v, n)
            if len(p.t) > 400:
                return
        for _ in range(6):
            if not p.t or any(SYMS[k].kind != 'free' for k in p.symbols()):
                break
            done = True
            ps = p.symbols()
            for f, F in list(self.facts.values()):
                if len(F) != 1 or 0 in F or len(f.t) > len(p.t) or not (f.symbols() <= ps) or len(p.t) < 2:
                    continue
                r = poly.divide(p, f)
                if r is not None and not r.is_const():
                    p = r
                    if F == {-1}:
                        sg = -sg
                    done = False
                    break
            if done:
                break
        if p.is_const():
            return
        if sg < 0:
            S = frozenset(FLIP[x] for x in S)
        q, s = monic(p)
        if s < 0:
            S = frozenset(FLIP[x] for x in S)
        k = q.key()
        f = self.facts.get(k)
        if f is not None:
            S = S & f[1]
        self.facts[k] = (q, S)

    def wval(self, k):
        if k not in self.wit:
            s = SYMS[k]
            self.wit[k] = rnd(s)
        return self.wit[k]

    def _rewit(self, a):
        if self.wit is None:
            return
        v = self.eval(a.p)
        if v is not None and sgn(v) in OPS[a.op]:
            return
        if not self.find_witness():
            self.wit = None

    def eval(self, p, wit=None):
        if wit is None:
            wit = self.wit
        return evalp(p, wit)

    def find_witness(self, extra=(), tries=60):
        """random search for a point satisfying all facts"""
        w = sample(self, extra, tries)
        if w is not None:
            self.wit = w
            return True
        return False

    # -- deciding -------------------------------------------------------
    def known(self, a):
        """True/False if the atom is decided by cheap reasoning else None"""
        if a.p.is_const():
            return sgn(a.p.const_value()) in OPS[a.op]
        S = self.signs_of(a.p)
        O = OPS[a.op]
        if S <= O:
            return True
        if not (S & O):
            return False
        return None


def _addsigns(a, b):
    r = set()
    for x in a:
        for y in b:
            if x == 0:
                r.add(y)
            elif y == 0:
                r.add(x)
            elif x == y:
                r.add(x)
            else:
                r |= {-1, 0, 1}
    return frozenset(r)


def sgn(v):
    if isinstance(v, float):
        if abs(v) < 1e-9:
            return 0
    return 0 if v == 0 else (1 if v > 0 else -1)


RNG = random.Random(1)


def rnd(s, scale=None):
    if s.sort == 'int':
        v = RNG.randint(-6, 12)
        if s.arg == 'nonneg':
            v = abs(v)
        if s.arg == 'pos':
            v = abs(v) + 1
        return v
    k = RNG.randint(0, 3)
    if k == 0:
        v = Fraction(RNG.randint(-8, 8), 4)
    elif k == 1:
        v = Fraction(RNG.randint(-16, 48), 32)
    elif k == 2:
        v = Fraction(RNG.randint(0, 64), 64)
    else:
        v = Fraction(RNG.randint(-200, 200), 16)
    if s.arg == 'nonneg':
        v = abs(v)
    if s.arg == 'pos':
        v = abs(v) + Fraction(1, 8)
    return v


class _Wit(dict):
    def __missing__(self, k):
        s = SYMS[k]
        if s.kind != 'free' or k in poly.SUBST:
            raise KeyError(k)
        v = self[k] = rnd(s)
        return v


def evalp(p, wit):
    try:
        for k in list(closure_syms(p)):
            if SYMS[k].kind == 'free' and k not in wit and k not in poly.SUBST:
                wit[k] = rnd(SYMS[k])
        v = poly.evaluate(p, wit)
        if isinstance(v, complex):
            return None
        return v
    except (ZeroDivisionError, KeyError, OverflowError):
        return None


def closure_syms(p):
    """symbols of p and of the definitions of its symbols"""
    seen = set()
    todo = list(p.symbols())
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        if k in poly.SUBST:
            todo.extend(poly.SUBST[k].symbols())
        s = SYMS[k]
        if s.kind in ('inv', 'sqrt'):
            todo.extend(s.arg.symbols())
        elif s.kind == 'uf':
            for a in s.arg[1]:
                todo.extend(a.symbols())
    return seen


def satisfied(pc, wit, extra=()):
    for q, S in pc.facts.values():
        v = evalp(q, wit)
        if v is None or sgn(v) not in S:
            return False
    for a in extra:
        v = evalp(a.p, wit)
        if v is None or sgn(v) not in OPS[a.op]:
            return False
    return True


def solve_linear(q, k):
    """q = c*x + r with c constant: returns the polynomial -r/c, or None"""
    c = None
    r = {}
    for m, v in q.t.items():
        n = m.count(k)
        if n == 0:
            r[m] = v
        elif n == 1 and len(m) == 1:
            c = v
        else:
            return None
    if c is None:
        return None
    return Poly(r).scale(Fraction(-1) / Fraction(c))


SAMPLE_SECONDS = 0.7


def sample(pc, extra=(), tries=60):
    """a random assignment of the free symbols satisfying facts and extra.
    Equalities that are linear in some free symbol are solved for it."""
    eqs = [q for q, S in pc.facts.values() if S == OPS['eq']] + [a.p for a in extra if a.op == 'eq']
    other = [(q, S) for q, S in pc.facts.values() if S != OPS['eq']] + \
            [(a.p, OPS[a.op]) for a in extra if a.op != 'eq']
    stop = time.time() + SAMPLE_SECONDS
    for t in range(tries):
        if time.time() > stop:
            break
        w = dict(pc.wit) if (pc.wit and t < tries // 3 and t > 0) else {}
        if w:
            # perturb a few
            ks = list(w)
            for k in RNG.sample(ks, min(len(ks), 1 + t % 4)):
                del w[k]
        ok = True
        for q in eqs:
            v = evalp(q, w)
            if v is not None and sgn(v) == 0:
                continue
            fixed = False
            ks = [k for k in q.symbols() if SYMS[k].kind == 'free' and k not in poly.SUBST]
            RNG.shuffle(ks)
            for k in ks:
                # affine in k at this point?
                if q.degree_in(k) != 1 or any(k in closure_syms(SYMS[j].arg) for j in q.symbols()
                                              if SYMS[j].kind in ('inv', 'sqrt')):
                    continue
                w0 = dict(w)
                w0[k] = Fraction(0)
                a = evalp(q, w0)
                w0[k] = Fraction(1)
                b = evalp(q, w0)
                if a is None or b is None or a == b or isinstance(a, float) or isinstance(b, float):
                    continue
                x = -a / (b - a)
                if SYMS[k].sort == 'int' and Fraction(x).denominator != 1:
                    continue
                w[k] = x
                fixed = True
                break
            if not fixed:
                ok = False
                break
        if not ok:
            continue
        for q in eqs:
            v = evalp(q, w)
            if v is None or sgn(v) != 0:
                ok = False
                break
        if not ok:
            continue
        for q, S in other:
            v = evalp(q, w)
            if v is None or sgn(v) not in S:
                # try to move one symbol occurring in q (simple bounds)
                if not _repair(q, S, w, [e for e in eqs]):
                    ok = False
                    break
        if ok:
            for q in eqs:
                v = evalp(q, w)
                if v is None or sgn(v) != 0:
                    ok = False
            for q, S in other:
                v = evalp(q, w)
                if v is None or sgn(v) not in S:
                    ok = False
                    break
        if ok:
            return w
    return None


def _repair(q, S, w, eqs):
    ks = [k for k in q.symbols() if SYMS[k].kind == 'free' and k not in poly.SUBST]
    RNG.shuffle(ks)
    for k in ks[:3]:
        old = w[k]
        isint = SYMS[k].sort == 'int'
        for d in (1, -1, Fraction(1, 4), -Fraction(1, 4), 3, -3, -2 * old, -old, 8, -8, Fraction(1, 64), -Fraction(1, 64), 64, -64):
            x = old + d
            if isint and Fraction(x).denominator != 1:
                continue
            if SYMS[k].arg in ('nonneg', 'pos') and x < (0 if SYMS[k].arg == 'nonneg' else 1):
                continue
            w[k] = x
            v = evalp(q, w)
            if v is not None and sgn(v) in S:
                return True
        w[k] = old
    return False


# --- z3 ------------------------------------------------------------------
class Z3Ctx:
    """translation of polynomials to z3 terms (reals; ints if pure int)"""

    def __init__(self, allint):
        self.allint = allint
        self.v = {}
        self.defs = []

    def sym(self, k):
        r = self.v.get(k)
        if r is None:
            s = SYMS[k]
            if self.allint:
                r = z3.Int('%s_%d' % (s.name, k))
            elif s.sort == 'int':
                r = z3.ToReal(z3.Int('%s_%d' % (s.name, k)))
            else:
                r = z3.Real('%s_%d' % (s.name, k))
            self.v[k] = r
            if s.kind == 'inv':
                self.defs.append(r * self.term(s.arg) == 1)
            elif s.kind == 'sqrt':
                self.defs.append(r * r == self.term(s.arg))
                self.defs.append(r >= 0)
            elif k in poly.SUBST:
                self.defs.append(r == self.term(poly.SUBST[k]))
            elif s.arg == 'nonneg':
                self.defs.append(r >= 0)
            elif s.arg == 'pos':
                self.defs.append(r > 0)
        return r

    def num(self, c):
        c = Fraction(c)
        if self.allint:
            return z3.IntVal(c.numerator)
        return z3.RealVal(str(c))

    def term(self, p):
        if self.allint:
            den = 1
            for c in p.t.values():
                d = Fraction(c).denominator
                den = den * d // _gcd(den, d)
            p = p.scale(den)
        ts = []
        for m, c in p.t.items():
            x = None
            for k in m:
                y = self.sym(k)
                x = y if x is None else x * y
            if x is None:
                x = self.num(c)
            elif c == 1:
                pass
            else:
                x = self.num(c) * x
            ts.append(x)
        if not ts:
            return self.num(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def signs(self, p, S):
        if not S:
            return z3.BoolVal(False)
        if S == ALL:
            return z3.BoolVal(True)
        t = self.term(p)
        z = self.num(0)
        if S == OPS['lt']:
            return t < z
        if S == OPS['le']:
            return t <= z
        if S == OPS['eq']:
            return t == z
        if S == OPS['ne']:
            return t != z
        if S == OPS['gt']:
            return t > z
        return t >= z

    def atom(self, a):
        return self.signs(a.p, OPS[a.op])


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def relevant(pc, syms):
    """facts connected to the given symbols"""
    facts = [(q, S, closure_syms(q)) for q, S in pc.facts.values()]
    syms = set(syms)
    chosen = []
    rest = facts
    while True:
        new = [f for f in rest if f[2] & syms]
        if not new:
            break
        rest = [f for f in rest if not (f[2] & syms)]
        chosen += new
        for f in new:
            syms |= f[2]
    return chosen, syms


def reduce_eqs(pc, p, limit=40):
    """use equalities that are linear in a free symbol to rewrite p"""
    if not pc.eqs:
        return p
    for _ in range(3):
        changed = False
        for q in pc.eqs:
            for k in sorted(q.symbols(), reverse=True):
                if SYMS[k].kind == 'inv':
                    continue
                r = solve_linear(q, k)
                if r is None:
                    continue
                if p.degree_in(k):
                    p = poly.substitute(p, k, r)
                    changed = True
                break
        if not changed:
            break
    return p


def _elim(q):
    """q with inv symbols cleared is only sign-equivalent if the cleared
    denominators are positive; used for equalities only"""
    return poly.eliminate(q)


def z3_query(pc, atoms, timeout, want_model=False):
    """satisfiability of facts & conj(atoms).  atoms: list of Atom or
    ('or', [Atom])"""
    syms = set()
    for a in atoms:
        for b in (a[1] if isinstance(a, tuple) else [a]):
            syms |= closure_syms(b.p)
    facts, syms = relevant(pc, syms)
    allint = all(SYMS[k].sort == 'int' for k in syms)
    ctx = Z3Ctx(allint)
    s = z3.Solver() if allint else z3.SolverFor('QF_NRA') if all(SYMS[k].sort == 'real' for k in syms) else z3.Solver()
    s.set('timeout', int(timeout * 1000))
    fs = []
    for q, S, _ in facts:
        fs.append(ctx.signs(q, S))
    for a in atoms:
        if isinstance(a, tuple):
            fs.append(z3.Or([ctx.atom(b) for b in a[1]]))
        else:
            fs.append(ctx.atom(a))
    for f in fs:
        s.add(f)
    for d in ctx.defs:
        s.add(d)
    t = time.time()
    r = s.check()
    STATS['z3'] += 1
    STATS['z3_time'] += time.time() - t
    if r == z3.sat:
        if want_model:
            m = s.model()
            w = {}
            for k, v in ctx.v.items():
                if SYMS[k].kind != 'free' or k in poly.SUBST:
                    continue
                x = m.eval(v, model_completion=True)
                try:
                    if z3.is_int_value(x):
                        w[k] = x.as_long()
                    elif z3.is_rational_value(x):
                        w[k] = Fraction(x.numerator_as_long(), x.denominator_as_long())
                    elif z3.is_algebraic_value(x):
                        a = x.approx(12)
                        w[k] = Fraction(a.numerator_as_long(), a.denominator_as_long())
                    else:
                        w[k] = Fraction(0)
                except Exception:
                    w[k] = Fraction(0)
            return 'sat', w, s
        return 'sat', None, s
    return ('unsat' if r == z3.unsat else 'unknown'), None, s


def cvc5_query(solver, timeout):
    """ask cvc5 about the z3 solver's assertions (SMT-LIB text)"""
    import cvc5
    txt = solver.to_smt2()
    t = time.time()
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption('tlimit-per', str(int(timeout * 1000)))
        if 'QF_NRA' not in txt[:200]:
            slv.setLogic('ALL')
        pr = cvc5.InputParser(slv)
        sm = cvc5.SymbolManager(tm) if hasattr(cvc5, 'SymbolManager') else None
        pr = cvc5.InputParser(slv, sm) if sm is not None else cvc5.InputParser(slv)
        lines = [l for l in txt.split('\n') if not l.startswith('(set-info') and not l.startswith('(check-sat')]
        pr.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '\n'.join(lines), 'q')
        while True:
            c = pr.nextCommand()
            if c.isNull():
                break
            c.invoke(slv, sm)
        r = slv.checkSat()
        res = 'unsat' if r.isUnsat() else ('sat' if r.isSat() else 'unknown')
    except Exception as e:      # a crash of the second solver is only 'unknown'
        res = 'unknown'
    STATS['cvc5'] += 1
    STATS['cvc5_time'] += time.time() - t
    return res


def bv_check(pc, extra, timeout=20, want_model=False):
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    for f in pc.bv:
        s.add(f)
    for f in extra:
        s.add(f)
    t = time.time()
    r = s.check()
    STATS['z3'] += 1
    STATS['z3_time'] += time.time() - t
    if r == z3.sat:
        return 'sat', (s.model() if want_model else None), s
    return ('unsat' if r == z3.unsat else 'unknown'), None, s


FEAS_TIMEOUT = 3.0
FEAS_TERMS = 1500


def weight(pc):
    return sum(len(q.t) for q, _ in pc.facts.values())



def feasible(pc, a):
    """may the atom hold on this path?  (True when unknown)  returns
    (bool, witness or None)"""
    k = pc.known(a)
    if k is False:
        return False, None
    if pc.wit is not None:
        v = pc.eval(a.p)
        if v is not None and sgn(v) in OPS[a.op]:
            return True, pc.wit
    if k is True:
        return True, None
    # equality over reals: try exact elimination by known equalities
    p = reduce_eqs(pc, a.p)
    if p is not a.p:
        if p.is_const() or not poly.eliminate(p).t:
            c = p.const_value() if p.is_const() else 0
            return sgn(c) in OPS[a.op], None
    w = sample(pc, (a,), 25)
    if w is not None:
        return True, w
    if weight(pc) > FEAS_TERMS:
        return True, None
    r, m, s = z3_query(pc, [a], FEAS_TIMEOUT, want_model=True)
    if r == 'unsat':
        return False, None
    if r == 'sat' and m is not None:
        w = dict(pc.wit) if pc.wit else {}
        w.update(m)
        if not satisfied(pc, w, (a,)):
            w = None
        return True, w
    return True, None


def _quadratic(p):
    """symmetric matrix of a polynomial of degree <= 2 as {(i,j): c}, index -1 for 1"""
    q = {}
    for m, c in p.t.items():
        if len(m) > 2:
            return None
        i, j = ((-1,) * (2 - len(m))) + m
        if i == j:
            q[i, j] = q.get((i, j), 0) + c
        else:
            q[i, j] = q.get((i, j), 0) + Fraction(c) / 2
            q[j, i] = q[i, j]
    return q


def _psd(q):
    """exact LDL^T: is the quadratic form positive semi-definite?"""
    idx = sorted({i for i, _ in q})
    A = [[Fraction(q.get((i, j), 0)) for j in idx] for i in idx]
    n = len(A)
    left = list(range(n))
    while left:
        k = next((i for i in left if A[i][i] != 0), None)
        if k is None:
            return all(A[i][j] == 0 for i in left for j in left)
        d = A[k][k]
        if d < 0:
            return False
        left.remove(k)
        for i in left:
            f = A[i][k] / d
            if f:
                for j in left:
                    A[i][j] -= f * A[k][j]
    return True


def quadratic_certificate(pc, goal):
    """p <= 0 from facts f_i <= 0: sum lambda f_i - p is a sum of squares"""
    if goal.op not in ('le', 'lt', 'ge', 'gt'):
        return False
    p = goal.p if goal.op in ('le', 'lt') else -goal.p
    P = _quadratic(p)
    if P is None:
        return False
    fs = []
    strict = False
    for f, S in pc.facts.values():
        if 1 in S and -1 in S:
            continue
        q = f if 1 not in S else -f
        if max(len(m) for m in q.t) == 2:
            Q = _quadratic(q)
            if Q is not None and any(k != (-1, -1) and k in P for k in Q):
                c = max((abs(v) for k, v in Q.items() if k[0] == k[1] != -1), default=0)
                if c:
                    fs.append({k: Fraction(v) / c for k, v in Q.items()})
                    strict |= 0 not in S
    if not fs or (goal.op in ('lt', 'gt') and not strict):
        return False
    for lam in (1, 2, 3, 4, 6, 8):
        M = {}
        for Q in fs:
            for k, c in Q.items():
                M[k] = M.get(k, 0) + lam * c
        for k, c in P.items():
            M[k] = M.get(k, 0) - c
        if _psd(M):
            return True
    return False


def prove(pc, goal, timeout=30.0, use_cvc5=True):
    """goal: Atom | ('or', [Atoms]) | z3 Bool.
    returns (status, how, model): 'proved' | 'refuted' | 'unknown'"""
    if goal is True:
        STATS['ground'] += 1
        return 'proved', 'ground', None
    if goal is False:
        return 'refuted', 'ground', dict(pc.wit) if pc.wit is not None else None
    if isinstance(goal, z3.ExprRef):
        g = z3.simplify(goal)
        if z3.is_true(g):
            STATS['ground'] += 1
            return 'proved', 'ground', None
        r, m, s = bv_check(pc, [z3.Not(goal)], timeout, True)
        if r == 'unsat':
            return 'proved', 'z3', None
        if r == 'sat':
            return 'refuted', 'z3', m
        if use_cvc5 and cvc5_query(s, timeout) == 'unsat':
            return 'proved', 'cvc5', None
        return 'unknown', 'z3+cvc5', None
    if isinstance(goal, Atom):
        if goal.p.is_const():
            STATS['ground'] += 1
            ok = sgn(goal.p.const_value()) in OPS[goal.op]
            return ('proved' if ok else 'refuted'), 'ground', (dict(pc.wit) if pc.wit is not None else None)
        t0 = time.time()
        if goal.op in ('eq', 'le', 'ge'):
            if poly.is_zero(goal.p):
                STATS['poly'] += 1
                STATS['poly_time'] += time.time() - t0
                return 'proved', 'poly', None
            if pc.eqs:
                p = reduce_eqs(pc, poly.eliminate(goal.p) if goal.op == 'eq' else goal.p)
                if poly.is_zero(p):
                    STATS['poly'] += 1
                    return 'proved', 'poly', None
        if pc.known(goal) is True:
            STATS['sign'] += 1
            return 'proved', 'sign', None
        STATS['poly_time'] += time.time() - t0
        goals = [goal]
    else:
        goals = goal[1]
        for g in goals:
            if isinstance(g, Atom) and pc.known(g) is True:
                STATS['sign'] += 1
                return 'proved', 'sign', None
    if any(quadratic_certificate(pc, g) for g in goals):
        STATS['sos'] += 1
        return 'proved', 'sos', None
    neg = [g.neg() for g in goals]
    # cheap refutation
    w = None
    if pc.wit is not None and satisfied(pc, pc.wit, neg):
        w = dict(pc.wit)
    if w is None:
        w = sample(pc, neg, 60)
    if w is not None:
        return 'refuted', 'sample', w
    r, m, s = z3_query(pc, neg, timeout, want_model=True)
    if r == 'unsat':
        return 'proved', 'z3', None
    if r == 'sat':
        w = dict(pc.wit) if pc.wit else {}
        w.update(m or {})
        return 'refuted', 'z3', w
    if use_cvc5 and cvc5_query(s, timeout) == 'unsat':
        return 'proved', 'cvc5', None
    return 'unknown', 'z3+cvc5', None
