"""Contracts of the geometry classes."""
from fractions import Fraction
from dgv import poly
from dgv.harness import Case, Driver, eq, le, lt, true, any_of
from dgv.poly import Poly
from .linalg import *
from .matrix import meq, veq, eye, fresh
from . import spec, matuf

GLOBAL, JT, J, JINVT, JINV, IE, VOLUME, AFFINE, CENTER, CORNERS, LOCAL, REF = range(12)
QNAME = ['global', 'jacobianTransposed', 'jacobian', 'jacobianInverseTransposed', 'jacobianInverse',
         'integrationElement', 'volume', 'affine', 'center', 'corners', 'local', 'referenceElement']
POINT = (GLOBAL, JT, J, JINVT, JINV, IE)

DRIVERS = [
    Driver('multilinear', 'multilinear', keep=matuf.KEEP + [r'MultiLinearGeometry<.*>::local\(']),
    Driver('affine', 'affine', keep=matuf.KEEP),
    Driver('axisaligned', 'axisaligned', keep=matuf.KEEP),
]
TOL = 16 * spec.EPS
DIMS = ((0, 1), (0, 2), (0, 3), (1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3))


def nin(q, m, n):
    return m if q in POINT else n if q == LOCAL else 0


def nouts(q, m, n, nc):
    """(doubles, ints)"""
    return {GLOBAL: (n, 0), JT: (m * n, 0), J: (m * n, 0), JINVT: (m * n, 0), JINV: (m * n, 0), IE: (1, 0),
            VOLUME: (1, 0), AFFINE: (0, 1), CENTER: (n, 0), CORNERS: (nc * n, 3), LOCAL: (m, 0), REF: (0, 2)}[q]


def invt(A, native):
    """transposed inverse Jacobian = right inverse of the transposed Jacobian"""
    if not A:
        return []
    return right_inverse(A, native)


def ie(A, native):
    return sqrt_gram(A, native) if A else Fraction(1)


def base_clauses(q, m, n, c, x, F, DF, tid, refvol, C):
    """postconditions of the queries for a geometry with map F and derivative
    DF (rows of the transposed Jacobian)"""
    o = c.out
    nat = c.native
    none = [true('no entries to report', True)]
    if q == GLOBAL:
        return veq('global', o, F(x))
    if q == JT:
        return meq('jacobianTransposed', mat(o, m, n), DF(x)) if m else none
    if q == J:
        return meq('jacobian', mat(o, n, m), transpose(DF(x))) if m else none
    if q == JINVT:
        return meq('jacobianInverseTransposed', mat(o, n, m), invt(DF(x), nat)) if m else none
    if q == JINV:
        return meq('jacobianInverse', mat(o, m, n), transpose(invt(DF(x), nat))) if m else none
    if q == IE:
        return [eq('integrationElement', o[0], ie(DF(x), nat))]
    if q == VOLUME:
        return [eq('volume', o[0], ie(DF(spec.center(tid, m)), nat) * refvol)]
    if q == CENTER:
        return veq('center', o, F(spec.center(tid, m)))
    if q == CORNERS:
        nc = spec.ncorners(tid, m)
        r = [true('number of corners', c.iout[0] == nc), true('type', (c.iout[1] | 1) == (tid | 1) and c.iout[2] == m)]
        if m == 0:
            r[1] = true('type', c.iout[2] == 0)
        return r + meq('corner', mat(o, nc, n), C)
    if q == REF:
        return [true('type', ((c.iout[0] | 1) == (tid | 1) or m == 0) and c.iout[1] == m)]
    raise ValueError(q)


# --- multilinear ------------------------------------------------------------------
KINDS = {0: 'vector', 1: 'array', 2: 'reference', 3: 'single cube', 4: 'single simplex', 5: 'cached'}


def split(c, tid, m, n):
    nc = spec.ncorners(tid, m)
    C = mat(c, nc, n)
    return C, c[nc * n:]


def tids(m):
    return range(1 << m)


def ml_case(m, n, tid, q, kind=0, cons=0, point=None, affine_base=False, name='', near=None):
    nc = spec.ncorners(tid, m)
    no, nio = nouts(q, m, n, nc)
    ex = nin(q, m, n)

    def inputs():
        xs = [poly.var('c%d_%d' % (i, j)) for i in range(nc) for j in range(n)]
        if affine_base:
            nb = nc - 1
            rc = spec.corners(tid, m)
            E0 = [[poly.var('e%d_%d' % (i, j)) for j in range(n)] for i in range(m - 1)]
            C = mat(xs, nc, n)
            for i in range(nb):
                C[i] = [C[0][j] + sum((rc[i][k] * E0[k][j] for k in range(m - 1)), Fraction(0)) for j in range(n)]
            xs = [v for r in C for v in r]
        if near == 'edge':
            # the edge of a simplex from its corner m-1 to its corner m
            t = poly.var('t')
            xs += [Fraction(0)] * (m - 2) + [1 - t, t]
        elif point is not None:
            xs += list(point)
        else:
            xs += [poly.var('x%d' % i) for i in range(ex)]
        return xs

    def requires(x, i):
        r = []
        if q in POINT and point is None and not affine_base:
            X = x[nc * n:]
            gaps = spec.cone_gaps(tid, m, X)
            if near == 'apex':
                # simplices, any point of the apex plane: the derivative does not depend on the point
                r += [('le', gaps[0], TOL), ('ge', gaps[0], -TOL)]
            elif near == 'edge':
                r.append(('gt', gaps[0] * gaps[0], TOL * TOL))
            elif q == GLOBAL or not (spec.is_simplex(tid, m) and m <= 2):
                # away from the apex planes
                for g in gaps:
                    r.append(('gt', g * g, TOL * TOL))
        return r

    def ensures(c):
        C, X = split(c.x, tid, m, n)
        F = lambda x: spec.interpolate(tid, m, x, C)
        DF = lambda x: spec.jacobian_transposed(tid, m, x, C)
        if q == AFFINE:
            return affine_clauses(c, C, tid, m, n)
        if q == GLOBAL and point is not None:
            k = spec.corners(tid, m).index(list(point))
            return veq('corner %d is mapped to the given corner' % k, c.out, C[k])
        if affine_base and point is None and not c.native and q == JT:
            # constant derivative
            rc = spec.corners(tid, m)
            A = []
            for d in range(m):
                k = rc.index([Fraction(int(d == e)) for e in range(m)])
                A.append([C[k][j] - C[0][j] for j in range(n)])
            return meq('jacobianTransposed', mat(c.out, m, n), A)
        return base_clauses(q, m, n, c, X, F, DF, tid, spec.volume(tid, m), C)

    cid = 'multilinear<%d,%d>/%s/%s' % (m, n, bin(tid)[2:].zfill(m) if m else 'point', QNAME[q])
    if kind or cons:
        cid += '/%s%s' % (KINDS[kind], '/copy' if cons else '')
    if name:
        cid += '/' + name
    case = Case(cid, 'multilinear', 'ml_%d%d' % (m, n), inputs=inputs, iin=[tid, q, cons, kind, nc], nout=no, niout=nio,
                requires=requires, ensures=ensures, setup=matuf.install, div='fork')
    return case


def deviations(C, tid, m, n):
    """corner minus the affine extension of the corners next to corner 0"""
    rc = spec.corners(tid, m)
    E = []
    for d in range(m):
        k = rc.index([Fraction(int(d == e)) for e in range(m)])
        E.append([C[k][j] - C[0][j] for j in range(n)])
    dev = []
    for k, p in enumerate(rc):
        if sum(p) <= 1:
            continue
        dev.append((k, [C[k][j] - C[0][j] - sum((p[d] * E[d][j] for d in range(m)), Fraction(0)) for j in range(n)]))
    return dev


def affine_clauses(c, C, tid, m, n):
    dev = deviations(C, tid, m, n)
    if c.iout[0]:
        return [true('true', True)] + [le('affine only if corner %d is where the affine map puts it' % k,
                                          sum((v * v for v in d), Fraction(0)), 16 * TOL) for k, d in dev]
    return [any_of('an affine corner set is reported affine', [('ne', v, 0) for k, d in dev for v in d])]


def ml_cases(queries, kinds=True):
    out = []
    for m, n in DIMS:
        for tid in tids(m):
            for q in queries:
                if q == LOCAL:
                    continue
                out.append(ml_case(m, n, tid, q))
                if q == GLOBAL:
                    for p in spec.corners(tid, m):
                        out.append(ml_case(m, n, tid, q, point=p, name='corner(%s)' % ','.join(str(v) for v in p)))
                if spec.is_simplex(tid, m) and m == 3 and q in POINT:
                    if q != GLOBAL:
                        out.append(ml_case(m, n, tid, q, near='apex', name='apex plane'))
                    out.append(ml_case(m, n, tid, q, near='edge', name='edge'))
                if q in (JT, J, JINVT, JINV, IE) and m == 3 and tid in (2, 3):
                    # continuous at the apex for a base that is a parallelogram
                    out.append(ml_case(m, n, tid, q, affine_base=True, name='parallelogram base, any point'))
            if kinds:
                for kind in (1, 2) + ((3,) if tid in ((1 << m) - 1, (1 << m) - 2) else ()) + ((4,) if tid in (0, 1) else ()):
                    for q in queries:
                        if q in (GLOBAL, JT, CORNERS, AFFINE):
                            out.append(ml_case(m, n, tid, q, kind, cons=1))
    return out


# --- inverse map (Newton iteration, cut at the loop) --------------------------------
MAX = Fraction(float.fromhex('0x1.fffffffffffffp+1023'))


def newton(tid, m, n, C, y):
    """the iteration of the property, natively: 'singular' | 'diverges' | point"""
    x = [float(v) for v in spec.center(tid, m)]
    C = [[float(v) for v in r] for r in C]
    y = [float(v) for v in y]
    for it in range(200):
        try:
            A = [[float(v) for v in r] for r in spec.jacobian_transposed(tid, m, x, C)]
            F = [float(v) for v in spec.interpolate(tid, m, x, C)]
            if min(minors(gram(A))) < 1e-9:
                return 'singular'
            dx = [float(v) for v in mv(transpose(right_inverse(A, True)), [F[j] - y[j] for j in range(n)])]
        except (ZeroDivisionError, OverflowError, ValueError):
            return 'singular'
        x = [a - b for a, b in zip(x, dx)]
        if sum(v * v for v in dx) < 1e-26:
            return x
    return 'diverges'


def local_case(m, n, tid, kind=0, cons=0):
    nc = spec.ncorners(tid, m)

    def inputs():
        return [poly.var('c%d_%d' % (i, j)) for i in range(nc) for j in range(n)] + [poly.var('y%d' % j) for j in range(n)]

    def ensures(c):
        C, y = split(c.x, tid, m, n)
        o = c.out
        if c.native:
            r = newton(tid, m, n, C, y)
            marker = all(v == MAX for v in o)
            if r == 'singular' or r == 'diverges':
                return []
            if marker:
                return [true('failure marker only for a singular derivative', False)]
            if spec.is_simplex(tid, m):
                return veq('exact inverse', o, [Fraction(v) for v in r])
            F = spec.interpolate(tid, m, r, C)
            if m == n and max(abs(float(F[j] - y[j])) for j in range(n)) > 1e-9:
                return []
            if m == n and all(abs(g) > 0.1 for g in spec.cone_gaps(tid, m, r)):
                # an exact Newton step not longer than the tolerance leaves a residual of second order
                F = spec.interpolate(tid, m, o, C)
                b = Fraction(1, 10**10) * (1 + max(abs(v) for p in C for v in p))
                return [true('inverse: residual', all(abs(F[j] - y[j]) <= b for j in range(n)))]
            return veq('inverse', o, [Fraction(v) for v in r])
        log = c.state.ghost.get('solves', [])
        marker = all(isinstance(v, Fraction) and v == MAX for v in o)
        if not log:
            raise ValueError('no solve recorded')
        A, rhs, dx = log[-1]
        if dx is None:
            return [true('failure marker for a singular derivative', marker)]
        if marker:
            return [true('no failure marker for an invertible derivative', False)]
        x = [o[i] + dx[i] for i in range(m)]
        for g in spec.cone_gaps(tid, m, x):
            a = poly.to_poly(g)
            if not a.is_const() and not (c.state.pc.signs_of(a - TOL) <= {1} or c.state.pc.signs_of(a + TOL) <= {-1}):
                # iterate within the tolerance of an apex plane: outside the domain of the contracts of the map
                return [true('the step is applied', True)]
        F = spec.interpolate(tid, m, x, C)
        r = veq('residual of the last step', rhs, [F[j] - y[j] for j in range(n)])
        r += meq('derivative of the last step', A, spec.jacobian_transposed(tid, m, x, C))
        d2 = sum((v * v for v in dx), Fraction(0))
        for k, d in deviations(C, tid, m, n):
            r.append(any_of('last step not longer than the tolerance (or reported affine, corner %d)' % k,
                            [('le', d2, TOL), ('le', sum((v * v for v in d), Fraction(0)), 16 * TOL)]))
        return r

    def pool():
        import random
        R = random.Random(7)
        out = []
        rc = spec.corners(tid, m)
        for t in range(40):
            s = R.choice((0.1, 0.25, 0.5))
            C = [[(float(p[j]) if j < m else 0.) + s * (R.random() - .5) for j in range(n)] for p in rc]
            if t % 4 == 3:
                # degenerate: all corners on a line
                C = [[(float(sum(p))) for j in range(n)] for p in rc]
            w = [R.random() for _ in rc]
            x = [sum(w[k] * float(rc[k][i]) for k in range(nc)) / sum(w) for i in range(m)]
            y = [float(v) for v in spec.interpolate(tid, m, x, C)]
            if t % 5 == 4:
                y = [v + 0.05 * R.random() for v in y]
            out.append(([v for r in C for v in r] + y, [tid, LOCAL, cons, kind, nc]))
        return out

    cid = 'multilinear<%d,%d>/%s/local' % (m, n, bin(tid)[2:].zfill(m) if m else 'point')
    if kind or cons:
        cid += '/%s%s' % (KINDS[kind], '/copy' if cons else '')
    return Case(cid, 'multilinear', 'ml_%d%d' % (m, n), inputs=inputs, iin=[tid, LOCAL, cons, kind, nc], nout=m,
                ensures=ensures, setup=matuf.install, div='fork', loops=r'::local\(', must_cut=not spec.is_simplex(tid, m), replay_pool=pool, tol=1e-6)


def lemma_case(m, n):
    """a Newton step for an affine map is the exact (least-squares) inverse
    from any starting point"""
    def runner(case, drv, rep):
        from dgv import harness
        A = [[poly.var('a%d%d' % (i, j)) for j in range(n)] for i in range(m)]
        o = [poly.var('o%d' % j) for j in range(n)]
        y = [poly.var('y%d' % j) for j in range(n)]
        x = [poly.var('x%d' % j) for j in range(m)]
        B = right_inverse_num(A)
        F = [o[j] + sum((x[d] * A[d][j] for d in range(m)), Fraction(0)) for j in range(n)]
        dx = mv(transpose(B), [F[j] - y[j] for j in range(n)])
        z = [x[i] - dx[i] for i in range(m)]
        # the normal equations A (F(z) - y) = 0
        Fz = [o[j] + sum((z[d] * A[d][j] for d in range(m)), Fraction(0)) for j in range(n)]
        for i in range(m):
            g = sum((A[i][j] * (Fz[j] - y[j]) for j in range(n)), Fraction(0))
            if not poly.is_zero(poly.to_poly(g)):
                raise ValueError('lemma fails')
            rep.ok('poly')
        if m == n:
            for j in range(n):
                if not poly.is_zero(poly.to_poly(Fz[j] - y[j])):
                    raise ValueError('lemma fails')
                rep.ok('poly')
        rep.paths = 1
    return Case('lemma/affine newton step<%d,%d>' % (m, n), 'multilinear', '', runner=runner)


def local_cases():
    out = []
    for m, n in DIMS:
        if m:
            out.append(lemma_case(m, n))
        for tid in tids(m):
            if m == 0:
                continue
            out.append(local_case(m, n, tid))
            for kind in (1, 2) + ((3,) if tid in ((1 << m) - 1, (1 << m) - 2) else ()) + ((4,) if tid in (0, 1) else ()):
                if m < 3 or kind == 1:
                    out.append(local_case(m, n, tid, kind, 1))
    return out


# --- affine -------------------------------------------------------------------------
def af_case(m, n, tid, q, cons, full=False):
    nc = spec.ncorners(tid, m)
    ng = nc if full else m + 1
    no, nio = nouts(q, m, n, nc)

    def mapping(x):
        """origin, transposed Jacobian"""
        if cons >= 2:
            return list(x[:n]), mat(x[n:], m, n)
        C = mat(x, ng, n)
        if not full:
            # origin and end points of the edge vectors
            return C[0], [[C[k + 1][j] - C[0][j] for j in range(n)] for k in range(m)]
        rc = spec.corners(tid, m)
        idx = [rc.index([Fraction(int(d == e)) for e in range(m)]) for d in range(m)]
        return C[0], [[C[k][j] - C[0][j] for j in range(n)] for k in idx]

    def inputs():
        xs = [poly.var('c%d' % i) for i in range((m + 1) * n)]
        if full:
            # corners of an affine image of the reference element
            o, A = list(xs[:n]), mat(xs[n:], m, n)
            xs = []
            for p in spec.corners(tid, m):
                xs += [o[j] + sum((p[d] * A[d][j] for d in range(m)), Fraction(0)) for j in range(n)]
        return xs + [poly.var('x%d' % i) for i in range(nin(q, m, n))]

    def ensures(c):
        o, A = mapping(c.x)
        X = c.x[ng * n:]
        F = lambda x: [o[j] + sum((x[d] * A[d][j] for d in range(m)), Fraction(0)) for j in range(n)]
        if q == LOCAL:
            d = [X[j] - o[j] for j in range(n)]
            return veq('local', c.out, mv(transpose(invt(A, c.native)), d) if m else [])  or [true('no entries', True)]
        if q == AFFINE:
            return [true('affine', c.iout[0] == 1)]
        C = [F(p) for p in spec.corners(tid, m)]
        return base_clauses(q, m, n, c, X, F, lambda x: A, tid, spec.volume(tid, m), C)

    vec = 'corners' if full else 'edges'
    return Case('affine<%d,%d>/%s/%s/%s' % (m, n, bin(tid)[2:].zfill(m) if m else 'point', QNAME[q],
                                            ('type,%s' % vec, 'element,%s,assigned' % vec, 'type,origin,jacobian',
                                             'element,origin,jacobian,copied')[cons]),
                'affine', 'af_%d%d' % (m, n), inputs=inputs, iin=[tid, q, cons, ng], nout=no, niout=nio, ensures=ensures,
                setup=matuf.install)


def af_cases():
    out = []
    for m, n in DIMS:
        for tid in tids(m):
            for q in range(12):
                out += [af_case(m, n, tid, q, cons) for cons in range(4)]
                if spec.ncorners(tid, m) > m + 1 and q in (GLOBAL, JT, CORNERS, LOCAL, VOLUME):
                    out.append(af_case(m, n, tid, q, 0, True))
    return out


# --- axis-aligned -------------------------------------------------------------------
def aa_case(m, n, axes, q, cons, copy):
    nc = 1 << m
    no, nio = nouts(q, m, n, nc)
    ax = [i for i in range(n) if axes >> i & 1]
    tid = (1 << m) - 1

    def requires(x, i):
        return [('lt', x[k], x[n + k]) for k in ax]

    def ensures(c):
        lo, up = c.x[:n], c.x[n:2 * n]
        X = c.x[2 * n:]
        A = [[(up[k] - lo[k]) if j == k else Fraction(0) for j in range(n)] for k in ax]
        B = [[1 / (up[k] - lo[k]) if j == k else Fraction(0) for k in ax] for j in range(n)]
        v = Fraction(1)
        for k in ax:
            v = v * (up[k] - lo[k])
        F = lambda x: [lo[j] + (x[ax.index(j)] * (up[j] - lo[j]) if j in ax else 0) for j in range(n)]
        if q == LOCAL:
            return veq('local', c.out, [(X[k] - lo[k]) / (up[k] - lo[k]) for k in ax]) or [true('no entries', True)]
        if q == AFFINE:
            return [true('affine', c.iout[0] == 1)]
        if q in (IE, VOLUME):
            return [eq(QNAME[q], c.out[0], v)]
        if m and q == JINVT:
            return meq('jacobianInverseTransposed', mat(c.out, n, m), B)
        if m and q == JINV:
            return meq('jacobianInverse', mat(c.out, m, n), transpose(B))
        C = [F(p) for p in spec.corners(tid, m)]
        return base_clauses(q, m, n, c, X, F, lambda x: A, tid, Fraction(1), C)

    return Case('axisaligned<%d,%d>/axes %s/%s/%s%s' % (m, n, bin(axes)[2:].zfill(n), QNAME[q],
                ('corners', 'corners and axes', 'point')[cons],
                ('', '/copied', '/assigned to empty', '/assigned')[copy]), 'axisaligned', 'aa_%d%d' % (m, n),
                inputs=2 * n + nin(q, m, n), iin=[axes, q, cons, copy], nout=no, niout=nio, requires=requires, ensures=ensures)


def aa_cases():
    out = []
    for m, n in DIMS:
        for axes in range(1 << n):
            if bin(axes).count('1') != m:
                continue
            for q in range(12):
                for cons in range(3):
                    if (cons == 0 and m != n) or (cons == 2 and m):
                        continue
                    for copy in range(4) if q in (GLOBAL, JT, CORNERS, LOCAL, VOLUME) else (0,):
                        out.append(aa_case(m, n, axes, q, cons, copy))
    return out


def cases(tier='quick'):
    return ml_cases((GLOBAL, CENTER, CORNERS, AFFINE, REF)) + ml_cases((JT, J, JINVT, JINV, IE, VOLUME)) + local_cases() + af_cases() + aa_cases()
