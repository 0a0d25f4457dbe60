"""Geometries over arbitrary functions: LocalFiniteElementGeometry (C14) and
MappedGeometry (C15).  Basis functions, outer mapping and inner geometry are
uninterpreted functions of the point with uninterpreted derivatives."""
import functools
import itertools
import math
import random
from fractions import Fraction
from dgv import engine, invariant, logic, poly
from dgv.engine import CallFn, Ptr
from dgv.harness import Case, Driver, eq, le, lt, true, any_of
from .geometry import GLOBAL, JT, J, JINVT, JINV, IE, AFFINE, CENTER, CORNERS, LOCAL, REF, QNAME, POINT, base_clauses, nin, nouts, ie
from .linalg import *
from .matrix import rd, wr
from . import spec, matuf, newton

RULE, VOL = 12, 13
NAMES = QNAME + ['volume(rule)', 'volume(options)']
KEEP = matuf.KEEP + [r'QuadratureRules<double, \d>::rule\(', r'^cv_d?f$', r'Dune::Impl::gaussNewton<']
EVAL = r'Dune::LocalFiniteElementGeometry<.*>::%s\(Dune::FieldVector'
VOLUME = r'Geometry<.*>::volume\(Dune::QuadratureRule<'
DRIVERS = [Driver('curved', 'curved', keep=KEEP),
           # evaluation and derivative of a local finite element geometry by their contracts
           Driver('curvedmap', 'curved', keep=KEEP + [EVAL % 'global', EVAL % 'jacobian']),
           # the basis of a local finite element by its contract: any number of functions
           Driver('curvedsum', 'curved', keep=KEEP + [EVAL % 'global', EVAL % 'jacobian', r'^cv_(size|family|single)$',
                                                      r'^Basis<\d>::evaluate', VOLUME])]
TOL = Fraction(2.0 ** -26)
SHAPES = {1: (1,), 2: (0, 3), 3: (0, 3, 5, 7)}


def fun(id, x, n):
    return poly.uf('phi%d_%d_%d_' % (id, len(x), n), x, n, lambda v: [sum(v) * (id + 1) + id + k * sum(t * t for t in v) for k in range(n)])


def dfun(id, x, n):
    """n x m"""
    m = len(x)
    return mat(poly.uf('dphi%d_%d_%d_' % (id, m, n), x, n * m, lambda v: [id + 1 + k for k in range(n * m)]), n, m)


class Native:
    """the polynomials of the driver"""

    def __init__(self, co, stride):
        self.co, self.st = co, stride

    def fun(self, id, x, n):
        r = []
        for k in range(n):
            c = self.co[(id + k) * (self.st + 2):(id + k + 1) * (self.st + 2)]
            r.append(c[0] + sum(c[1 + j] * x[j] + c[self.st + 1] * x[j] * x[j] for j in range(len(x))))
        return r

    def dfun(self, id, x, n):
        r = []
        for k in range(n):
            c = self.co[(id + k) * (self.st + 2):(id + k + 1) * (self.st + 2)]
            r.append([c[1 + j] + 2 * c[self.st + 1] * x[j] for j in range(len(x))])
        return r

    def quadratic(self):
        return any(self.co[self.st + 1::self.st + 2])


class Any:
    fun = staticmethod(fun)
    dfun = staticmethod(dfun)


def install(E, m, solver=False, mn=None):
    E.add_contract(r'^cv_f$', lambda eng, S, a: wr(S, a[2], fun(a[0], rd(S, a[1], a[3]), a[4])))
    E.add_contract(r'^cv_df$', lambda eng, S, a: wr(S, a[2], [v for r in dfun(a[0], rd(S, a[1], a[3]), a[4]) for v in r]))
    matuf.install(E)
    for k in (1, 2, 3):
        E.add_contract(r'Dune::QuadratureRules<double, %d>::rule\(Dune::GeometryType const' % k,
                       lambda eng, S, a, k=k: rule(eng, S, a, k))
    if solver:
        newton.any_direction(E)
        E.initial.ghost['gn_m'] = m
    if mn:
        E.add_contract(EVAL % 'global', lambda eng, S, a: CallFn('cv_map_' + mn, list(a)))
        E.add_contract(EVAL % 'jacobian', lambda eng, S, a: CallFn('cv_der_' + mn, list(a)))
    E.abstracted = True


def rule(eng, S, a, k):
    return CallFn('cv_rule_%d' % k, list(a))


def lfe_map(o, N, C, n):
    F = lambda x: [sum((C[i][j] * o.fun(i, x, 1)[0] for i in range(N)), Fraction(0)) for j in range(n)]

    def DF(x):
        g = [o.dfun(i, x, 1)[0] for i in range(N)]
        return [[sum((C[i][j] * g[i][d] for i in range(N)), Fraction(0)) for j in range(n)] for d in range(len(x))]
    return F, DF


def mapped_map(o, m, k, n):
    F = lambda x: o.fun(3, o.fun(0, x, k), n)
    DF = lambda x: transpose(mul(o.dfun(3, o.fun(0, x, k), n), o.dfun(0, x, k)))
    return F, DF


def args(q, m, n, npts):
    return {LOCAL: n + 2, RULE: npts * (m + 1), VOL: 1 + 2 * (m + 1) * npts}.get(q, nin(q, m, n))


def norm(v):
    return poly.sqrt(poly.to_poly(sum((a * a for a in v), poly.to_poly(0))))


def converged(vol, DF, m):
    """the volume of a smooth map of the cube that is far from degenerate"""
    if m > 2:
        return []
    n = 8
    G = gauss(n)
    s = Fraction(0)
    for g in itertools.product(G, repeat=m):
        v = ie(DF([x for x, w in g]), True)
        if not Fraction(1, 5) < v < 5:
            return []
        for x, w in g:
            v *= w
        s += v
    return [lt('the volume has converged', abs(Fraction(vol) - s), Fraction(1, 10 ** 5))]


@functools.lru_cache()
def gauss(n):
    """Gauss points and weights on [0,1]"""
    out = []
    for i in range(n):
        x = math.cos(math.pi * (i + .75) / (n + .5))
        for _ in range(50):
            a, b = 1.0, x
            for k in range(2, n + 1):
                a, b = b, ((2 * k - 1) * x * b - (k - 1) * a) / k
            d = n * (x * b - a) / (x * x - 1)
            x -= b / d
        out.append((Fraction((1 + x) / 2), Fraction(1 / ((1 - x * x) * d * d))))
    return out


def clauses(c, q, m, n, tid, A, F, DF, aff, ncoef, o, npts):
    X = c.x[ncoef:]
    corners = spec.corners(tid, m)
    nat = c.native
    if q == AFFINE:
        return aff(c, F)
    if q == LOCAL:
        y, tol = X[:n], TOL if c.iin[5] else X[n]
        if nat:
            x = [Fraction(v) for v in c.out]
            d2 = sum((a - b) ** 2 for a, b in zip(F(x), y)) if c.ret == 0 else None
            if c.ret == 0:
                return [true('the returned point is mapped to the given one up to the tolerance',
                             tol > 0 and d2 < tol * tol * (1 + Fraction(1, 10 ** 6)) + Fraction(1, 10 ** 24))]
            x0 = spec.center(tid, m)
            d2 = sum((a - b) ** 2 for a, b in zip(F(x0), y))
            sing = not min(minors(gram(DF(x0)))) > Fraction(1, 1000)
            if d2 < tol * tol / 4 and tol > 0 and not sing:
                return [true('no failure for a start value that solves the problem', False)]
            return []
        if c.ret == 1:
            if c.state.ghost.get('gn_last') is False:
                return [true('a singular derivative is reported', True)]
            return [le('failure is reported only if the start value is no solution', tol,
                       norm([a - b for a, b in zip(F(spec.center(tid, m)), y)]))]
        return [lt('the returned point is mapped to the given one up to the tolerance',
                   norm([a - b for a, b in zip(F(c.out), y)]), tol)]
    if q == RULE:
        s = sum((X[k * (m + 1) + m] * ie(DF(X[k * (m + 1):k * (m + 1) + m]), nat) for k in range(npts)), Fraction(0))
        return [eq('volume by a given rule', c.out[0], s)]
    if q == VOL:
        tol, X = X[0], X[1:]
        maxit, pairs = c.iin[6], c.iin[7]
        if nat:
            if o.quadratic():
                return converged(c.out[0], DF, m) if pairs and maxit >= 30 and tid == 2 ** m - 1 else []
            return [eq('volume', c.out[0], ie(DF(spec.center(tid, m)), True) * spec.volume(tid, m))]
        v = []
        for p in range(max(1, (maxit + 1) // 2 if pairs else maxit - 1)):
            P = X[p * 2 * (m + 1):(p + 1) * 2 * (m + 1)]
            v.append(sum((P[k * (m + 1) + m] * ie(DF(P[k * (m + 1):k * (m + 1) + m]), False) for k in range(2)), Fraction(0)))
        # which rule it is
        hit = [p for p in range(len(v)) if poly.is_zero(poly.to_poly(c.out[0]) - poly.to_poly(v[p]))]
        r = [true('the volume is the integral by one of the rules', len(hit) == 1)]
        if len(hit) == 1:
            p = hit[0]
            if A:
                r.append(true('the lowest order is used for affine maps', p == 0))
            elif maxit > 2:
                r.append(true('more than one order is used for other maps', p > 0))
            if p + 1 < len(v) and not A:
                r.append(lt('the difference to the previous rule is below the tolerance (+)', v[p] - v[p - 1], tol))
                r.append(lt('the difference to the previous rule is below the tolerance (-)', v[p - 1] - v[p], tol))
        return r
    return base_clauses(q, m, n, c, X[:m] if q in POINT else [], F, DF, tid, spec.volume(tid, m), [F(p) for p in corners])


def lfe_affine(c, F, order, tid, m, n):
    if order > 1:
        return [true('higher order is not affine', c.iout[0] == 0)]
    if m == 1 or spec.is_simplex(tid, m):
        return [true('linear maps of simplices are affine', c.iout[0] == 1)]
    # deviation at the corners from the affine map through the corners 0, e_0, e_1, ..
    f0 = F([Fraction(0)] * m)
    E = [[a - b for a, b in zip(F([Fraction(int(i == d)) for i in range(m)]), f0)] for d in range(m)]
    dev = []
    for p in spec.corners(tid, m):
        v = [a - f0[j] - sum((p[d] * E[d][j] for d in range(m)), Fraction(0)) for j, a in enumerate(F(p))]
        if any(not poly.is_zero(poly.to_poly(x)) for x in v):
            dev.append(sum((x * x for x in v), Fraction(0)))
    if c.native:
        t = TOL * TOL
        if any(t / 2 < d < 2 * t for d in dev):
            return []
        return [true('affine exactly if no corner deviates', c.iout[0] == int(all(d <= t for d in dev)))]
    if c.iout[0]:
        return [le('no corner deviates', d, TOL * TOL) for d in dev]
    return [any_of('some corner deviates', [('gt', d, TOL * TOL) for d in dev])]


def make(cid, entry, q, m, n, tid, iin, ncoef, mk, aff, A, pool, npts, coef=(), mn=None, **kw):
    na = args(q, m, n, npts)
    no, ni = (1, 0) if q in (RULE, VOL) else nouts(q, m, n, spec.ncorners(tid, m))

    def ensures(c):
        o, F, DF = mk(c)
        return clauses(c, q, m, n, tid, A, F, DF, aff, ncoef, o, npts)

    def inputs():
        return [poly.var('c%d' % i) for i in range(ncoef - len(coef))] + list(coef) + [poly.var('x%d' % i) for i in range(na)]

    c = Case(cid, 'curvedmap' if mn else 'curved', entry, inputs=inputs, iin=iin, nout=no, niout=ni, ensures=ensures,
             setup=lambda E: install(E, m, q == LOCAL, mn), div='fork', replay_pool=pool, allow_throw=q == LOCAL,
             loops=r'::gaussNewton<' if q == LOCAL else None, **kw)
    return c


def lfe_case(m, n, tid, q, N, order=2, cons=0, extra=(0, 0), npts=2, default=0, anymap=False):
    """anymap: global() and jacobian() by their contracts, any map and its derivative (natively n functions with unit
    coefficients); the queries are proved for any number of basis functions then"""
    unit = anymap
    if unit:
        N = n
    if q == RULE:
        extra = (npts, 0)
    nb = N * (m + 2)
    ncoef = nb + N * n
    # any order of the basis, where the answer does not depend on it (construction 4 asks whether the map is affine)
    fixed = q in (AFFINE, VOL) or cons == 4
    iin = [tid, q, cons, N, order if fixed else ('bv', 'order', 32), default] + list(extra)

    def mk(c):
        o = Native(c.x[:nb], m) if c.native else Any
        F, DF = lfe_map(o, N, mat(c.x[nb:ncoef], N, n), n)
        return o, F, DF

    def aff(c, F):
        return lfe_affine(c, F, order, tid, m, n)

    def pool():
        R = random.Random(11)
        out = []
        for t in range(24):
            co = []
            for i in range(N):
                co += [R.uniform(-1, 1)] + [R.uniform(-1, 1) for _ in range(m)] + [R.uniform(-.2, .2) if order > 1 and t % 3 else 0.0]
            C = [R.uniform(-1, 1) for _ in range(N * n)]
            if t % 2 and N > m:
                # near the identity
                co = []
                for i in range(N):
                    co += [0.0] + [1.0 * (i == d) for d in range(m)] + [0.1 if order > 1 and t % 4 == 1 else 0.0]
                C = [float(i == j) + R.uniform(-.1, .1) for i in range(N) for j in range(n)]
            if unit:
                C = [float(i == j) for i in range(N) for j in range(n)]
            xs = [R.uniform(0, 1) for _ in range(args(q, m, n, npts))]
            ii = [v if isinstance(v, int) else {'maxIt': 100, 'maxInnerIt': 10, 'order': 2 - t // 12}[v[1]] for v in iin]
            if q == LOCAL:
                o = Native([Fraction(v) for v in co], m)
                F, DF = lfe_map(o, N, mat([Fraction(v) for v in C], N, n), n)
                x = spec.center(tid, m) if t % 4 < 2 else [Fraction(R.uniform(0, .4)) for _ in range(m)]
                xs[:n] = [float(v) for v in F(x)]
                xs[n], xs[n + 1] = (1e-8, .5) if t % 5 else (-1.0, .5)
                if t % 3 == 2:
                    ii[6] = t % 4
            if q == VOL:
                xs[0] = 1e-8
                if extra[1]:
                    ii[6] = 30
            out.append((co + C + xs, ii))
        return out
    kw = {'coef': [Fraction(int(i == j)) for i in range(N) for j in range(n)], 'mn': '%d%d' % (m, n)} if unit else {}
    A = order <= 1 and (m == 1 or spec.is_simplex(tid, m))
    nm = 'lfe<%d,%d>/%s/%s/%s%s%s' % (m, n, bin(tid)[2:].zfill(m), NAMES[q], 'any map' if unit else 'N%d' % N, '/order%d' % order if fixed else '', ('/construction%d' % cons if cons else '') + ('/default' if default else ''))
    if q == VOL:
        nm += '/maxIt%d' % extra[0] + ('/rules for two orders' if extra[1] else '')
        npts = max(2, extra[0])
    if q == RULE:
        nm += '/points%d' % npts
    c = make(nm, 'lf_%d%d' % (m, n), q, m, n, tid, iin, ncoef, mk, aff, A, pool, npts, **kw)
    if q in (RULE, VOL):
        c.bounded = '%d orders' % extra[0] if q == VOL else '%d points' % npts
    elif not unit:
        c.bounded = '%d basis functions' % N
    if q == LOCAL:
        def inv(x):
            F, DF = lfe_map(Any, N, mat(x[nb:ncoef], N, n), n)
            y = x[ncoef:ncoef + n]
            return invariant.Houdini(newton.templates(m, spec.center(tid, m), y,
                                                      res=lambda z, y: norm([a - b for a, b in zip(F(z), y)])))
        c.invariants = inv
    return c


def mapped_case(m, k, n, tid, q, affine=0, cons=0, extra=(0, 0), npts=2, default=0):
    if q == RULE:
        extra = (npts, 0)
    ncoef = 30
    iin = [tid, q, cons, affine, 0, default] + list(extra) + [0]

    def mk(c):
        o = Native(c.x[:30], 3) if c.native else Any
        F, DF = mapped_map(o, m, k, n)
        return o, F, DF

    def aff(c, F):
        return [true('affine as given', c.iout[0] == (affine if cons != 3 else 0))]

    def pool():
        R = random.Random(13)
        out = []
        for t in range(24):
            co = []
            for i in range(6):
                if t % 2:
                    co += [R.uniform(-.1, .1)] + [float(i % 3 == d) + R.uniform(-.1, .1) for d in range(3)]
                else:
                    co += [R.uniform(-1, 1)] + [R.uniform(-1, 1) for _ in range(3)]
                co += [0.0 if affine or not t % 3 else R.uniform(-.1, .1)]
            xs = [R.uniform(0, 1) for _ in range(args(q, m, n, npts))]
            ii = [v if isinstance(v, int) else 100 if v[1] == 'maxIt' else 10 for v in iin]
            if q == LOCAL:
                o = Native([Fraction(v) for v in co], 3)
                F, DF = mapped_map(o, m, k, n)
                x = spec.center(tid, m) if t % 4 < 2 else [Fraction(R.uniform(0, .4)) for _ in range(m)]
                xs[:n] = [float(v) for v in F(x)]
                xs[n], xs[n + 1] = (1e-8, .5) if t % 5 else (-1.0, .5)
                if t % 3 == 2:
                    ii[6] = t % 4
            if q == VOL:
                xs[0] = 1e-8
                if extra[1]:
                    ii[6] = 30
            out.append((co + xs, ii))
        return out
    nm = 'mapped<%d,%d,%d>/%s/%s%s%s' % (m, k, n, bin(tid)[2:].zfill(m), NAMES[q], '/affine' if affine else '',
                                        ('/construction%d' % cons if cons else '') + ('/default' if default else ''))
    if q == VOL:
        nm += '/maxIt%d' % extra[0] + ('/rules for two orders' if extra[1] else '')
        npts = max(2, extra[0])
    if q == RULE:
        nm += '/points%d' % npts
    c = make(nm, 'mp_%d%d%d' % (m, k, n), q, m, n, tid, iin, ncoef, mk, aff, affine and cons != 3, pool, npts)
    if q in (RULE, VOL):
        c.bounded = '%d orders' % extra[0] if q == VOL else '%d points' % npts
    if q == LOCAL:
        def inv(x):
            F, DF = mapped_map(Any, m, k, n)
            y = x[ncoef:ncoef + n]
            return invariant.Houdini(newton.templates(m, spec.center(tid, m), y,
                                                      res=lambda z, y: norm([a - b for a, b in zip(F(z), y)])))
        c.invariants = inv
    return c


ITS = (('bv', 'maxIt', 32), ('bv', 'maxInnerIt', 32))


def no_proof(S, what):
    # another access than to the entry of the iteration
    raise engine.EngineError(what)


class Sum:
    """invariant of a loop that adds up the terms of N entries of a vector, for any N: before iteration I (any) the accumulators
    hold the sums S(I) over the entries before I, where S(0) = 0 and S(I+1) = S(I) + term(I), and counters and pointers are I
    steps from their start.  The vectors begin I entries before the entry I, the only one that can be accessed."""
    pointers = True

    def __init__(self, N, I, terms):
        self.N, self.I, self.terms = N, I, terms
        self.S = [poly.var('S%d' % k) for k in range(len(terms))]
        self.place = {}         # accumulator -> component
        self.c = {}
        self.dropped, self.checked = False, 0
        self.failed = None
        self.strict = False

    def holds(self, S, op, p):
        a = engine.mkatom(op, poly.to_poly(p))
        self.checked += 1
        return bool(a) if type(a) is int else logic.prove(S.pc, a, 5, use_cvc5=False)[0] == 'proved'

    def __call__(self, E, S, fr, blk, mode):
        key = (fr.cf.name, blk.label)
        ints = [s for s, inc, t in blk.phis if t[0] == 'i']
        ptrs = [s for s, inc, t in blk.phis if t[0] == 'ptr']
        acc = [('r', s) for s, inc, t in blk.phis if t[0] == 'double'] + \
            [('m', o, off) for (o, off, size), kinds in sorted(E.cut_writes.get(key, {}).items(), key=repr)]

        def val(l):
            v = fr.R[l[1]] if l[0] == 'r' else S.load(Ptr(l[1], l[2]), 8)
            v = engine.loader(('double',))(v) if type(v) is int else v
            return poly.to_poly(v) if isinstance(v, (Fraction, poly.Poly)) else None
        if not ints + ptrs:
            raise engine.EngineError('no counter')
        if mode == 'establish':
            self.begin = {s: fr.R[s] for s in ptrs}
            if any(type(p) is not Ptr for p in self.begin.values()):
                raise engine.EngineError('a pointer of the loop')
            self.strict = self.holds(S, 'gt', self.N)
            v = [fr.R[s] for s in ints] + [val(l) for l in acc if l in self.place]
            if None in v or not all(self.holds(S, 'eq', x) for x in v):
                self.failed = 'establish'
        elif mode == 'assume':
            for s in ints:
                fr.R[s] = self.I
            for s in ptrs:
                fr.R[s] = Ptr(self.begin[s].o, 0)
            S.pc.assume(engine.mkatom('gt' if self.strict else 'ge', self.N - self.I))
            S.pc.wit = None
            for l in acc:
                if l not in self.place:
                    continue        # anything
                v = self.S[self.place[l]]
                if l[0] == 'r':
                    fr.R[l[1]] = v
                else:
                    cuts, S.cuts = S.cuts, ()
                    S.store(Ptr(l[1], l[2]), 8, v)
                    S.cuts = cuts
            self.start = {l: val(l) for l in acc}
        else:
            ok = self.holds(S, 'gt' if self.strict else 'ge', self.N - self.I - 1)
            for s in ints:
                ok = ok and self.holds(S, 'eq', poly.to_poly(fr.R[s]) - self.I - 1)
            for s in ptrs:
                # one step is as long as each of the I steps from the start to here
                p = fr.R[s]
                ok = ok and type(p) is Ptr and p.o == self.begin[s].o and type(p.off) is int and \
                    self.holds(S, 'eq', poly.to_poly(self.begin[s].off) + self.I.scale(p.off))
            for l in acc:
                v = val(l)
                if l in self.place:
                    ok = ok and v is not None and self.holds(S, 'eq', v - self.S[self.place[l]] - self.terms[self.place[l]])
                elif v is not None and self.start[l] is not None:
                    inc = v - self.start[l]
                    k = [k for k in range(len(self.terms)) if poly.is_zero(inc - self.terms[k]) and k not in self.place.values()]
                    if k:
                        self.place[l] = k[0]
                        self.dropped = True
            if not ok:
                self.failed = 'preserve'


def sum_case(name, entry, m, q, nx, nt, size, terms, native, mn=None):
    """a sum over any number of entries; size: of an entry of the vector the driver marks"""
    box = {}
    loops = {GLOBAL: EVAL % 'global', J: EVAL % 'jacobian', RULE: VOLUME}[q]

    def setup(E):
        install(E, m, mn=mn)
        E.mathint = True
        E.safety_failure = no_proof

        def vector(S, v, o, size):
            S.store(v, 8, Ptr(o, (-box['I']).scale(size)))
            for k in (8, 16):
                S.store(Ptr(v.o, v.off + k), 8, Ptr(o, (box['N'] - box['I']).scale(size)))

        def family(eng, S, a):
            box['saved'] = [S.load(Ptr(a[0].o, a[0].off + k), 8) for k in (0, 8, 16)]
            vector(S, a[0], box['saved'][0].o, size)
            # the loop over the entries is cut
            for f, d in eng.demangle().items():
                if eng.cut_rx.search(d) and f in eng.mod.funcs:
                    L = eng.loops_of(eng.cfunc(f))
                    for h in L:
                        if not any(h in b for k, b in L.items() if k is not h):
                            eng.cut_loops.add((f, h.label))

        def single(eng, S, a):
            for k, v in zip((0, 8, 16), box['saved']):
                S.store(Ptr(a[0].o, a[0].off + k), 8, v)

        def evaluate(der):
            def f(eng, S, a):
                x = rd(S, a[1], m)
                v = dfun(0, x, 1)[0] if der else fun(0, x, 1)
                o = S.new_obj(8 * len(v), 'values')
                wr(S, Ptr(o, 0), v)
                vector(S, a[2], o, 8 * len(v))
            return f
        E.add_contract(r'^cv_size$', lambda eng, S, a: 1)
        E.add_contract(r'^cv_family$', family)
        E.add_contract(r'^cv_single$', single)
        if q != RULE:
            E.add_contract(r'^Basis<\d>::evaluateFunction\(', evaluate(False))
            E.add_contract(r'^Basis<\d>::evaluateJacobian\(', evaluate(True))

    def requires(x, iin):
        box['N'], box['I'] = poly.to_poly(iin[1]), poly.to_poly(iin[2])
        return []

    def inv(x):
        box['inv'] = Sum(box['N'], box['I'], [poly.to_poly(t) for t in terms(x)])
        return box['inv']

    def ensures(c):
        if c.native:
            v = native(c.x, int(c.iin[1]) % 71)
            return [eq('component %d is the sum over all entries' % k, c.out[k], v[k]) for k in range(nt)]
        s = box['inv']
        if s.failed or len(s.place) < nt:
            raise engine.EngineError('the loop over the entries: ' + (s.failed or 'no accumulators'))
        if not c.state.ghost.get('cut'):
            return [eq('zero without entries (%d)' % k, v, Fraction(0)) for k, v in enumerate(c.out)] + [eq('no entries', s.N, Fraction(0))]
        last = int(s.strict)
        return [eq('all entries', s.N - s.I - last, Fraction(0))] + \
            [eq('component %d is the sum over all entries' % k, c.out[k], s.S[k] + (s.terms[k] if last else 0)) for k in range(nt)]

    def pool():
        R = random.Random(5)
        return [([R.uniform(-1, 1) for _ in range(nx)], [int(q == J), N, 0]) for N in (0, 1, 2, 3, 4, 6, 8, 10, 20, 27, 40, 64, 70)]
    c = Case(name, 'curvedsum', entry, inputs=lambda: [poly.var('x%d' % i) for i in range(nx)],
             iin=[int(q == J), ('int', 'N', 'nonneg'), ('int', 'I', 'nonneg')],
             nout=nt, requires=requires, ensures=ensures, setup=setup, replay_pool=pool, selftest=False, loops=loops)
    c.invariants = inv
    c.must_cut = True
    return c


TABLE = [Fraction(i * 7 % 11, 8) for i in range(350)]


def function_sum(m, n, der):
    """the value or derivative of a geometry with any number of basis functions"""
    def terms(x):
        g = dfun(0, x[:m], 1)[0] if der else fun(0, x[:m], 1)
        return [c * d for c in x[m:m + n] for d in g]

    def native(x, N):
        if N == 0:
            return [Fraction(0)] * (n * m)
        C = [[x[m + j] * (1 + i) + Fraction(i * j, 2) for j in range(n)] for i in range(N)]
        F, DF = lfe_map(Native(TABLE, m), N, C, n)
        return [y for r in transpose(DF(x[:m])) for y in r] if der else F(x[:m])
    return sum_case('lfe<%d,%d>/%s/any number of functions' % (m, n, 'jacobian' if der else 'global'), 'ls_%d%d' % (m, n), m,
                    J if der else GLOBAL, m + n, n * m if der else n, 8 * n, terms, native)


def point_sum(name, entry, m, mk, mn=None):
    """the volume by a rule with any number of points"""
    def native(x, N):
        DF = mk(Native(TABLE, m if mn else 3))[1]
        return [sum((x[m] * (1 + i) * ie(DF([v / (1 + i) for v in x[:m]]), True) for i in range(N)), Fraction(0))]
    return sum_case(name + '/volume(rule)/any number of points', entry, m, RULE, m + 1, 1, 8 * (m + 1),
                    lambda x: [x[m] * ie(mk(Any)[1](x[:m]), False)], native, mn)


def lfe_cases():
    out = []
    for m, n in ((1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)):
        out += [function_sum(m, n, False), function_sum(m, n, True)]
        unit = [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]
        out.append(point_sum('lfe<%d,%d>' % (m, n), 'lv_%d%d' % (m, n), m, lambda o, n=n, unit=unit: lfe_map(o, n, unit, n), '%d%d' % (m, n)))
        for tid in SHAPES[m]:
            nc = spec.ncorners(tid, m)
            for q in (GLOBAL, JT, J, JINVT, JINV, IE, CENTER, CORNERS, REF):
                for N in (1, nc, nc + 3) if tid == SHAPES[m][-1] else (nc,):
                    out.append(lfe_case(m, n, tid, q, N))
                if tid == SHAPES[m][-1]:
                    for cons in (1, 2, 3, 4):
                        out.append(lfe_case(m, n, tid, q, m + 1, cons=cons))
                if q not in (GLOBAL, J):
                    out.append(lfe_case(m, n, tid, q, n, anymap=True))
            for order in (0, 1, 2):
                for cons in (0, 1, 2, 3, 4):
                    if order == 1 or cons in (0, 4):
                        out.append(lfe_case(m, n, tid, AFFINE, n, order=order, cons=cons, anymap=True))
            for npts in (2,):
                out.append(lfe_case(m, n, tid, RULE, 2, npts=npts))
            for order in (1, 2):
                for it in (0, 1, 2, 3, 4):
                    if m == 3 and it == 4 and tid != 3:
                        continue
                    if order == 2 or m == 1 or spec.is_simplex(tid, m):
                        out.append(lfe_case(m, n, tid, VOL, 2, order=order, extra=(it, 0)))
            if m < 3:
                out.append(lfe_case(m, n, tid, VOL, 2, order=2, extra=(5, 1)))
            out.append(lfe_case(m, n, tid, LOCAL, n, extra=ITS, anymap=True))
        for cons in (1, 2, 3, 4) if (m, n) == (1, 2) else ():
            out.append(lfe_case(m, n, SHAPES[m][-1], LOCAL, n, cons=cons, extra=ITS, anymap=True))
    return out


def mapped_cases():
    out = []
    for m, k, n in ((1, 1, 1), (1, 1, 2), (1, 1, 3), (1, 2, 2), (1, 2, 1), (1, 2, 3), (1, 3, 1), (1, 3, 2), (1, 3, 3), (2, 2, 2),
                    (2, 2, 3), (2, 3, 2), (2, 3, 3), (3, 3, 3)):
        if n >= m:
            out.append(point_sum('mapped<%d,%d,%d>' % (m, k, n), 'mv_%d%d%d' % (m, k, n), m,
                                 lambda o, m=m, k=k, n=n: mapped_map(o, m, k, n)))
        for tid in SHAPES[m]:
            for q in (GLOBAL, JT, J, JINVT, JINV, IE, CENTER, CORNERS, REF, AFFINE):
                for a in (0, 1):
                    out.append(mapped_case(m, k, n, tid, q, a))
                if tid == SHAPES[m][-1]:
                    for cons in (1, 2, 3):
                        out.append(mapped_case(m, k, n, tid, q, 1, cons=cons))
            for npts in (2,):
                out.append(mapped_case(m, k, n, tid, RULE, npts=npts))
            for it in (0, 1, 2, 3, 4) if m < 3 or tid == 3 else (1, 2, 3):
                out.append(mapped_case(m, k, n, tid, VOL, 0, extra=(it, 0)))
            if m < 3:
                out.append(mapped_case(m, k, n, tid, VOL, 0, extra=(5, 1)))
            out.append(mapped_case(m, k, n, tid, VOL, 1, extra=(4, 0)))
            out.append(mapped_case(m, k, n, tid, LOCAL, extra=ITS))
        for cons in (1, 2, 3) if (m, k, n) == (1, 2, 2) else ():
            out.append(mapped_case(m, k, n, SHAPES[m][-1], LOCAL, cons=cons, extra=ITS))
    return out


def cases():
    return lfe_cases() + mapped_cases()
