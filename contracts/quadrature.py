"""One-dimensional (C17) and multi-dimensional (C18) quadrature rules."""
import z3
from fractions import Fraction
from math import comb, factorial
from dgv import engine, harness, poly
from dgv.engine import CallFn, EngineError
from dgv.harness import Case, Driver, true, eq
from .gtypes import B

KEEP = [r'Dune::QuadratureRules<double, \d>::rule\(', r'Dune::JacobiNQuadratureRule<double, 1>::JacobiNQuadratureRule\(',
        r'eigenValuesNonSym<']
DRIVERS = [Driver('quadrature', 'quadrature', keep=KEEP)]

LEG, J1, J2, JN, LOB, RL, RR = range(7)
FAMILY = ['GaussLegendre', 'GaussJacobi_1_0', 'GaussJacobi_2_0', 'GaussJacobi_n_0', 'GaussLobatto', 'GaussRadauLeft',
          'GaussRadauRight']
CONST = [LEG, JN, LOB, RL, RR]                 # families with constant weight
MAX1 = {LEG: 61, J1: 61, J2: 61, JN: 127, LOB: 31, RL: 30, RR: 30}
SHAPES = {0: {0: 'point'}, 1: {1: 'line'}, 2: {0: 'triangle', 3: 'quadrilateral'},
          3: {0: 'tetrahedron', 3: 'pyramid', 5: 'prism', 7: 'hexahedron', 1: 'tetrahedron1', 2: 'pyramid2', 4: 'prism4', 6: 'hexahedron6'}}
BITS = 240
ONE = 1 << BITS
TOL = Fraction(1, 10 ** 14)


def fix(v):
    f = Fraction(v)
    return (f.numerator << BITS) // f.denominator


def integral(tid, e):
    """integral of x^e over the reference element"""
    d = len(e)
    if d == 0:
        return Fraction(1)
    b = integral(tid & ((1 << (d - 1)) - 1), e[:-1])
    k = e[-1]
    if d == 1 or tid >> (d - 1) & 1:
        return b / (k + 1)
    m = sum(e[:-1]) + d - 1
    # beta integral of z^k (1-z)^m
    return b * Fraction(factorial(k) * factorial(m), factorial(k + m + 1))


def weighted(k, alpha):
    """integral of x^k (1-x)^alpha over [0,1]"""
    return Fraction(factorial(k) * factorial(alpha), factorial(k + alpha + 1))


def inside(tid, x, t=Fraction(0)):
    d = len(x)
    f = Fraction(1)
    for i in range(d - 1, -1, -1):
        if x[i] < -t or x[i] > f + t:
            return False
        if i > 0 and not tid >> i & 1:
            f -= x[i]
    return True


def exps(d, p):
    """exponents of total degree at most p"""
    if d == 0:
        yield ()
        return
    for k in range(p + 1):
        for e in exps(d - 1, p - k):
            yield e + (k,)


def num(x):
    """the value of a constant, else None"""
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    if isinstance(x, poly.Poly) and x.is_const():
        return Fraction(x.const_value())
    return None


def points(c, d):
    """[(position, weight)] of the rule written by the driver, exact; None if malformed"""
    n = c.iout[0]
    if not isinstance(n, int) or not 0 <= n <= c.case.maxn:
        return None
    out = []
    for k in range(n):
        v = c.out[k * (d + 1):(k + 1) * (d + 1)]
        if c.native:
            if not all(x == x and abs(x) < 1e300 for x in v):
                return None
            v = [Fraction(x) for x in v]
        else:
            v = [num(x) for x in v]
            if None in v:
                return None
        out.append((v[:d], v[d]))
    return out


def moments(pts, d, deg, exact, tol):
    """largest violation of exactness over all monomials of total degree <= deg: list of (exponents, error)"""
    n = len(pts)
    pw = []
    for i in range(d):
        col = []
        for x, _ in pts:
            f = fix(x[i])
            r = [ONE]
            for k in range(deg):
                r.append((r[-1] * f) >> BITS)
            col.append(r)
        pw.append(col)
    w = [fix(w) for _, w in pts]
    bad = []
    t = fix(tol)

    # prefix products over the directions
    def rec(i, left, cur, e):
        if i == d:
            s = sum(cur)
            if abs(s - fix(exact(e))) > t:
                bad.append((e, abs(float(Fraction(s, ONE) - exact(e)))))
            return
        for k in range(left + 1):
            rec(i + 1, left - k, [(cur[j] * pw[i][j][k]) >> BITS for j in range(n)] if k else cur, e + (k,))
    rec(0, deg, w, ())
    return bad


def rule_clauses(c, d, tid, p, exact, tol=TOL, order=None, positive=False, ends=(), ptol=Fraction(0)):
    if c.ret == 1:
        return [true('the request is answered up to the largest order', p > c.iout[4])]
    if c.native:
        ptol = max(ptol, Fraction(1, 10 ** 12))     # coordinates are rounded
    pts = points(c, d)
    if pts is None:
        return [true('the rule has finitely many points with finite coordinates', False)]
    o = c.iout[1]
    so = harness.to_s64(o)
    t = spec_type(tid, d)
    out = [true('the delivered order is at least %d' % p, so >= p),
           true('the rule is for the requested type', c.iout[3] == d and spec_type(c.iout[2], d) == t),
           true('all points are in the reference element', all(inside(tid, x, ptol) for x, _ in pts))]
    deg = p if order is None else min(so, order)
    bad = moments(pts, d, max(deg, 0), exact, tol)
    out.append(true('all polynomials up to order %d are integrated exactly' % deg, not bad))
    if positive:
        out.append(true('all weights are non-negative', all(w >= 0 for _, w in pts)))
    for e in ends:
        out.append(true('end point %d is a point of the rule' % e, any(abs(x[0] - e) <= Fraction(1, 10 ** 15) for x, _ in pts)))
    return out


def spec_type(tid, d):
    return tid & ~1 if d > 0 else 0


def const_case(id, entry, iin, maxn, d, ensures, **kw):
    c = Case(id, 'quadrature', entry, iin=iin, nout=maxn * (d + 1), niout=5, ensures=ensures, allow_throw=True, **kw)
    c.maxn = maxn
    return c


def oned_cases():
    out = []
    for q in range(7):
        for p in range(0, min(MAX1[q], 60 if q == JN else 1000) + 1):
            alpha = {J1: 1, J2: 2}.get(q, 0)

            def ens(c, p=p, q=q, alpha=alpha):
                return rule_clauses(c, 1, 1, p, lambda e: weighted(e[0], alpha) * 2 ** alpha, order=1000, positive=True,
                                    ends={LOB: (0, 1) , RL: (0,), RR: (1,)}.get(q, ()))
            out.append(const_case('rule1d/%s/%d' % (FAMILY[q], p), 'qr_1', [1, p, q], 64, 1, ens))
    return out




def jacobi_cases():
    """rules for weight (1-x)^alpha, as the conical products use them (dimension alpha+1)"""
    out = []
    for alpha in range(3):
        for p in range(61):
            def ens(c, p=p, alpha=alpha):
                c.iout[4] = 127
                return rule_clauses(c, 1, 1, p, lambda e: weighted(e[0], alpha), order=1000, positive=True)
            out.append(const_case('jacobiN/%d/%d' % (alpha, p), 'qr_jacobi', [p, alpha], 64, 1, ens))
    return out


def golub_case(alpha, p):
    """the rule from the eigenvalues of the Jacobi matrix: the matrix handed to the eigenvalue solver is that of the
    orthonormal Jacobi polynomials, the points and weights are made from its results by the formula of Golub and Welsch"""
    N = 64

    def setup(E):
        h = E.add_contract(r'eigenValuesNonSym<', lambda eng, S, a: CallFn('eig_stub', list(a[:3])))
        E.abstracted = True

    def ens(c):
        if c.ret == 1:
            return [true('the request is answered', False)]
        n = c.iout[0]
        if c.native:
            c.iout[4] = 127
            return rule_clauses(c, 1, 1, p, lambda e: weighted(e[0], alpha), order=1000, positive=False,
                                tol=Fraction(1, 10 ** 10), ptol=Fraction(1, 10 ** 10))
        m = c.iout[4]
        r = [true('an n by n matrix gives n points', n == m and 0 < n <= N),
             true('the delivered order is at least %d' % p, c.iout[1] >= p),
             true('n points are exact to at most order 2n-1', c.iout[1] <= 2 * m - 1),
             true('the rule is for the line', c.iout[3] == 1)]
        if n != m or not 0 < n <= N:
            return r
        J = [[c.out[128 + i * n + j] for j in range(n)] for i in range(n)]
        for i in range(n):
            r.append(eq('diagonal entry %d' % i, J[i][i], -Fraction(alpha * alpha, (2 * i + alpha + 2) * (2 * i + alpha))
                        if alpha else 0))
            for j in range(n):
                if abs(i - j) > 1:
                    r.append(eq('entry %d %d' % (i, j), J[i][j], 0))
        for i in range(1, n):
            b = Fraction(4 * i * i * (i + alpha) ** 2, (2 * i + alpha) ** 2 * ((2 * i + alpha) ** 2 - 1))
            r.append(eq('square of off-diagonal entry %d' % i, J[i][i - 1] * J[i][i - 1], b))
            r.append(eq('symmetry of entry %d' % i, J[i][i - 1], J[i - 1][i]))
        for k in range(n):
            r.append(eq('point %d' % k, c.out[2 * k], (c.x[2 * k] + 1) * Fraction(1, 2)))
            r.append(eq('weight %d' % k, c.out[2 * k + 1], c.x[2 * k + 1] * c.x[2 * k + 1] * Fraction(1, alpha + 1)))
        return r
    c = Case('golub-welsch/%d/%d' % (alpha, p), 'quadrature', 'qr_golub', inputs=2 * N, iin=[p, alpha], nout=128 + N * N,
             niout=5, setup=setup, ensures=ens, allow_throw=True, assumes=[
                 'LAPACK dgeev returns the eigenvalues and the normalised eigenvectors of its argument',
                 'theorem of Golub and Welsch: these are the points and (up to the moment of order 0) the square roots of the '
                 'weights of the Gauss rule'])
    c.maxn = N
    return c


def golub_cases():
    out = []
    for alpha in range(4):
        for p in range(61 if alpha < 3 else 0, 128, 1):
            if p % 2 == 0 or p in (61, 127):
                out.append(golub_case(alpha, p))
    return out


def oned():
    return oned_cases() + jacobi_cases() + golub_cases()


# ---------------------------------------------------------------------- C18
TABLE = {(2, 0): 12, (3, 0): 5}


def max_order(tid, d, q):
    """largest order by the product construction (what the driver reports decides)"""
    if d == 0:
        return 2 ** 31 - 1
    if d == 1:
        return MAX1[q]
    b = max_order(tid & ((1 << (d - 1)) - 1), d - 1, q)
    m = MAX1[q] if tid >> (d - 1) & 1 or q == JN else MAX1[q] - (d - 1)
    return min(b, m)


def full_cases():
    out = []
    for d, sh in SHAPES.items():
        for tid, nm in sh.items():
            for q in CONST:
                top = max_order(tid, d, q)
                if d == 0:
                    ps = [0, 1, 5, 1000]
                elif d == 1:
                    ps = range(0, min(top, 60) + 1)
                elif d == 2:
                    ps = range(0, min(top, 60) + 1) if q != JN else range(0, 41)
                else:
                    ps = range(0, 17)
                for p in ps:
                    if d == 3 and p > 4 and tid not in (0, 3, 5, 7):
                        continue

                    def ens(c, d=d, tid=tid, p=p):
                        return rule_clauses(c, d, tid, p if d else 0, lambda e: integral(tid, e), tol=TOL)
                    n1 = p // 2 + 4
                    out.append(const_case('rule/%s/%s/%d' % (nm, FAMILY[q], p), 'qr_%d' % d, [tid, p, q], n1 ** d + 20, d, ens,
                                          selftest=True if nm[-1].isalpha() else 'sub'))
    return out


def product_case(d, tid, q, nb, n1):
    """the product construction for an arbitrary base rule with nb points, an arbitrary 1-D rule with n1 points and any
    admissible order: which rules are requested, and that the result is their tensor or conical product"""
    prism = bool(tid >> (d - 1) & 1)
    base = tid & ((1 << (d - 1)) - 1)
    top = max_order(tid, d, q)
    low = TABLE[(d, tid & ~1)] + 1 if (d, tid & ~1) in TABLE and q in (LEG, JN) else 3 if (d, tid | 1) == (3, 5) and q == LEG else 0
    ni = nb * d + n1 * 2
    maxn = max(nb * n1, nb * nb, n1 * n1)

    def setup(E):
        for k in range(d):
            E.add_contract(r'Dune::QuadratureRules<double, %d>::rule\(Dune::GeometryType const' % k,
                           lambda eng, S, a, k=k: CallFn('arb_%d' % k, list(a)))
        E.add_contract(r'Dune::JacobiNQuadratureRule<double, 1>::JacobiNQuadratureRule\(',
                       lambda eng, S, a: CallFn('arb_jacobi', list(a)))
        E.abstracted = True

    def req(x, iin):
        return [z3.And(iin[1] >= low, iin[1] <= top)]

    def ens(c):
        if c.ret == 1:
            return [true('the request is answered up to the largest order', False)]
        p = iin_p(c)
        if c.native:
            c.iout[4] = top
            if c.iout[0] * comb(p + d, d) > 2 * 10 ** 7:
                return []
            return rule_clauses(c, d, tid, p, lambda e: integral(tid, e))
        o = c.iout
        r = [true('the delivered order is at least the requested one', B(o[1]) >= B(p)),
             true('the rule is for the requested type', o[3] == d and spec_type(o[2], d) == spec_type(tid, d))]
        n = o[4]
        if n not in (1, 2):
            return r + [true('one base rule and one 1-D rule are requested', False)]
        reqs = [o[5 + 4 * i:9 + 4 * i] for i in range(n)]
        if d == 2:
            ib, io = (0, n - 1)
            alt = [(0, n - 1), (n - 1, 0)]
        else:
            fb = [i for i in range(n) if reqs[i][3] == d - 1]
            fo = [i for i in range(n) if reqs[i][3] == 1]
            alt = [(fb[0], fo[0])] if fb and fo else []
        goals = []
        for ib, io in alt:
            rb, ro = reqs[ib], reqs[io]
            if rb[3] != d - 1 or ro[3] != 1 or spec_type(rb[0], d - 1) != spec_type(base, d - 1) or rb[2] >= 100:
                continue
            if rb[2] not in CONST:
                continue
            g = [B(rb[1]) >= B(p), B(rb[1]) <= max_order(base, d - 1, rb[2])]
            if ro[2] >= 100:
                if prism and ro[2] != 100 or not prism and ro[2] != 100 + d - 1:
                    continue
                g += [B(ro[1]) >= B(p), B(ro[1]) <= MAX1[JN]]
                jac = not prism
            else:
                if ro[2] not in CONST:
                    continue
                g += [B(ro[1]) >= B(p) + (0 if prism else d - 1), B(ro[1]) <= MAX1[ro[2]]]
                jac = False
            sz = [nb, n1]
            off = [0, nb * reqs[0][3] + nb]
            if d == 2:
                off[1] = nb * 2

            def rule(i, k):
                return [([c.x[off[i] + j * (k + 1) + m] for m in range(k)], c.x[off[i] + j * (k + 1) + k]) for j in range(sz[i])]
            RB, RO = rule(ib, d - 1), rule(io, 1)
            want = []
            for xb, wb in RB:
                for (z,), wo in RO:
                    if prism:
                        want.append(tuple(xb) + (z, wb * wo))
                    else:
                        s = 1 - z
                        w = wb * wo
                        if not jac:
                            for _ in range(d - 1):
                                w = w * s
                        want.append(tuple(s * t for t in xb) + (z, w))
            got = [tuple(c.out[j * (d + 1):(j + 1) * (d + 1)]) for j in range(o[0])] if isinstance(o[0], int) and o[0] <= maxn else []
            if sorted(map(key, want)) == sorted(map(key, got)):
                goals.append(z3.And(*g))
        r.append(true('the points and weights are the %s of requested rules of sufficient order'
                      % ('tensor product' if prism else 'conical product'), z3.Or(*goals) if goals else False))
        return r
    c = Case('product<%d>/%d/%s/%dx%d' % (d, tid, FAMILY[q], nb, n1), 'quadrature', 'qr_product_%d' % d, inputs=ni,
             iin=[tid, ('bv', 'p', 32), q, nb, n1], nout=maxn * (d + 1), niout=5 + 16, setup=setup, requires=req, ensures=ens,
             allow_throw=True, bounded='%d and %d points of the arbitrary rules' % (nb, n1))
    c.maxn = 40 ** d
    c.replay_pool = lambda: [([0.0] * ni, [tid, p, q, nb, n1]) for p in range(low, low + 4)]
    c.native_nout = (40 ** d) * (d + 1)
    return c


def key(t):
    return tuple(repr(poly.to_poly(v)) for v in t)


def iin_p(c):
    p = c.iin[1]
    return z3.simplify(p).as_signed_long() if c.native and z3.is_expr(p) else p


def product_cases():
    out = []
    for d in (2, 3, 4):
        for tid in range(0, 1 << d):
            if d == 4 and tid not in (0, 1, 3, 5, 7, 8, 9, 15):
                continue
            for q in CONST:
                if max_order(tid, d, q) < 0:
                    continue
                for nb, n1 in ((2, 3), (3, 2)) if d == 2 else ((2, 3),):
                    out.append(product_case(d, tid, q, nb, n1))
    return out


def max_cases():
    """the reported largest order is one up to which the construction is proved"""
    out = []
    for d in range(1, 5):
        for tid in range(1 << d):
            for q in range(7):
                top = max(max_order(tid, d, q), TABLE.get((d, tid & ~1), 0), 2 if (d, tid | 1) == (3, 5) else 0)
                out.append(Case('maxOrder<%d>/%d/%s' % (d, tid, FAMILY[q]), 'quadrature', 'qr_max_%d' % d, iin=[tid, q], niout=1,
                                ensures=lambda c, top=top: [true('at most %d' % top, 0 <= c.iout[0] <= top)]))
    return out


def multid():
    return full_cases() + product_cases() + max_cases()


# ---------------------------------------------------------------------- C19
def history_case(d, r1, r2s, name):
    """request r1, then r2, then both again: every answer is the rule of the factory or the documented rejection, the same
    request is answered by the same object, and no request changes an object handed out before"""
    def ens(c):
        o = list(c.iout)
        n = c.iin[0]
        reqs = [tuple(harness.to_s64(int(v)) for v in c.iin[1 + 3 * i:4 + 3 * i]) for i in range(n)]
        r = []
        for i, (t, p, q) in enumerate(reqs):
            st, first, same, kept, order, mx, tid = o[7 * i:7 * i + 7]
            if d > 0 and (p < 0 or p > mx):
                r.append(true('request %d is rejected as out of range' % i, st == 1))
                continue
            r.append(true('request %d is answered' % i, st == 0))
            if st != 0:
                continue
            f = [j for j in range(i + 1) if reqs[j][2] == q and (d == 0 or spec_type(reqs[j][0], d) == spec_type(t, d) and reqs[j][1] == p)]
            r.append(true('request %d gives the object of the first such request' % i, first == f[0]))
            r.append(true('request %d gives the rule of the factory' % i, same == 1))
            r.append(true('request %d is for the requested type' % i, spec_type(tid, d) == spec_type(t, d)))
            r.append(true('request %d has at least the requested order' % i, order >= p))
            r.append(true('request %d is unchanged by later requests' % i, kept == 1))
        return r

    def runner(case, drv, rep):
        for r2 in r2s:
            reqs = [r1, r2, r1, r2] if r2 is not None else r1
            vc = Case(case.id + '/' + ';'.join('%d,%d,%d' % r for r in reqs[1:2]), 'quadrature', 'qr_history_%d' % d,
                      iin=[len(reqs)] + [v for r in reqs for v in r], niout=7 * len(reqs), ensures=ens, selftest=False)
            harness._run_case(vc, drv, rep)
    return Case('history<%d>/%s' % (d, name), 'quadrature', 'qr_history_%d' % d, runner=runner,
                bounded='two different requests, each made twice')


def history_cases():
    out = []
    big = 2 ** 31 - 1
    sets = {0: ([0], [0, 3, 6], [0, 5, -1, big]),
            1: ([0, 1], [0, 3, 6], [-1, 0, 2, 128]),
            2: ([0, 1, 3], [0, 3], [-1, 0, 2, big]),
            3: ([0, 4, 5, 7], [0, 3], [-1, 0, 2])}
    for d, (ts, qs, ps) in sets.items():
        R = [(t, p, q) for t in ts for q in qs for p in ps]
        for r in R:
            out.append(history_case(d, r, R, '%d,%d,%d' % r))
    return out


def cases():
    return oned() + multid() + history_cases()
