"""Composite quadrature rules (C20)."""
import itertools
import math
from fractions import Fraction
from dgv import poly
from dgv.engine import CallFn
from dgv.harness import Case, Driver, true, eq
from dgv.poly import Poly
from .refine import N, binomial_contract, corners, fits, num, origin_inputs, origin_requires, patterns, power, ref, reach, inverse, zero

KEEP = [r'Dune::binomial<', r'^Dune::StaticRefinement<0u?, double, 0u?, \d>::e(Begin|End)\(', r'^cq_']
DRIVERS = [Driver('composite', 'composite', keep=[r'Dune::binomial<']),
           Driver('compositestate', 'composite', keep=KEEP, defines=['STATE'],
                  optional='composite rules for every number of intervals (iterators in every state)')]
ORDER = ('int', 'order', 'nonneg')


def base_rule(c, d, m):
    return [(list(c.x[i * (d + 1):i * (d + 1) + d]), c.x[i * (d + 1) + d]) for i in range(m)]


def close(a, b, native):
    if native:
        return abs(Fraction(a) - Fraction(b)) < Fraction(1, 10 ** 9) * (1 + abs(Fraction(b)))
    return zero(poly.to_poly(a) - poly.to_poly(b))


def image(v, x):
    """the point with local coordinates x in the simplex with corners v"""
    return [sum(((w[i] - v[0][i]) * t for w, t in zip(v[1:], x)), v[0][i] + 0 * x[0]) for i in range(len(x))]


def images(c, got, base, elements, d, factor):
    """the points of got are the images of the base points in the sub-elements, in any order; a sub-element may be run through
    by any affine map onto it"""
    steps = [0]

    def carry(k, rest):
        """sub-elements k, k+1, ... use up the points in rest: how many can be served at most"""
        if k == len(elements):
            return k
        best = k
        for p in itertools.permutations(elements[k]):
            left = list(rest)
            for x, w in base:
                y = image(p, x)
                j = next((j for j, (a, b) in enumerate(left) if close(b, w * factor, c.native) and
                          all(close(s, t, c.native) for s, t in zip(a, y))), None)
                if j is None:
                    break
                del left[j]
            else:
                steps[0] += 1
                best = max(best, carry(k + 1, left))
                if best == len(elements) or steps[0] > 2000:
                    return best
        return best
    served = carry(0, list(got))
    out = [true('sub-element %d carries the base rule' % k, True) for k in range(served)]
    if served < len(elements):
        if c.native:
            return out + [true('sub-element %d carries the base rule' % served, False)]
        k, v = served, elements[served]
        for i, ((x, w), (a, b)) in enumerate(zip(base, got[k * len(base):])):
            out.append(eq('weight of point %d in sub-element %d' % (i, k), b, w * factor))
            for j, (s, t) in enumerate(zip(a, image(v, x))):
                out.append(eq('point %d in sub-element %d, coordinate %d' % (i, k, j), s, t))
    return out


def rule_points(c, d, n):
    return [(list(c.out[i * (d + 1):i * (d + 1) + d]), c.out[i * (d + 1) + d]) for i in range(n)]


def head(c, d, size, order):
    return [eq('number of points', c.iout[0], size), eq('order of the base rule', c.iout[1], order),
            true('a rule for the simplex', c.iout[3] == d and c.iout[2] >> 1 == 0)]


def elements(d, n):
    """all sub-simplices, by their corners"""
    for o in itertools.product(range(n), repeat=d):
        if any(a < b for a, b in zip(o, o[1:])):
            continue
        E = {j for j in range(1, d) if o[j] == o[j - 1]}
        for k in range(math.factorial(d)):
            if fits(d, k, E):
                yield [[Fraction(t, n) for t in ref(v)] for v in corners([Fraction(t) for t in o], k)]


def cases(tier='quick'):
    out = []
    for d in (1, 2, 3):
        for m in (1, 2):
            for n in {1: (1, 2, 4, 8), 2: (1, 2, 4), 3: (1, 2)}[d]:
                def ens(c, d=d, m=m, n=n):
                    h = head(c, d, m * n ** d, num(c, c.iin[2]))
                    if c.iout[0] != m * n ** d:
                        return h
                    b = base_rule(c, d, m)
                    g = rule_points(c, d, m * n ** d)
                    tw = sum((w for _, w in g), 0 * g[0][1])
                    return h + images(c, g, b, list(elements(d, n)), d, Fraction(1, n ** d)) + \
                        [eq('total weight', tw, sum((w for _, w in b), 0 * g[0][1]))]
                out.append(Case('composite<%d>/n=%d, %d points' % (d, n, m), 'composite', 'rf_composite_%d' % d, inputs=m * (d + 1),
                                iin=[n, m, ORDER], nout=(m * n ** d + m) * (d + 1), niout=4, ensures=ens, setup=binomial_contract,
                                bounded='n = %d, %d base points' % (n, m)))
        for E in patterns(d):
            for k in range(math.factorial(d)):
                if not fits(d, k, E):
                    continue
                for m in (1, 2, 3):
                    def req(x, ii, d=d, E=E, k=k):
                        n = ii[2]
                        return origin_requires(d, E, k, ii[3:], n) + [('lt', ii[3 + d + 1] + 1, power(n, d))]

                    def setup(E, d=d):
                        binomial_contract(E)
                        E.add_contract(r'^Dune::StaticRefinement<0u?, double, 0u?, %d>::eBegin\(' % d,
                                       lambda eng, S, a: CallFn('cq_begin_%d' % d, list(a)))
                        E.add_contract(r'^Dune::StaticRefinement<0u?, double, 0u?, %d>::eEnd\(' % d,
                                       lambda eng, S, a: CallFn('cq_end_%d' % d, list(a)))
                        E.add_contract(r'^cq_first$', lambda eng, S, a: 0)
                        E.abstracted = True
                        E.implicit |= {'composite rules: the loop over the sub-elements is decided for two consecutive sub-elements at '
                                       'any place; that earlier iterations do not matter is assumed (a sub-element appends points '
                                       'only) and checked for small numbers of intervals',
                                       'composite rules: base rules with at most 3 points'}

                    def ens(c, d=d, E=E, k=k, m=m):
                        n, o = num(c, c.iin[2]), [num(c, t) for t in c.iin[3:3 + d]]
                        r = inverse(c, n)
                        h = head(c, d, power(n, d) * m if c.native else 2 * m, num(c, c.iin[1]))
                        o1, k1 = [num(c, t) for t in c.iout[4:4 + d]], c.iout[4 + d]
                        if not isinstance(k1, int) or not 0 <= k1 < math.factorial(d):
                            return h + [true('successor', False)]
                        els = [[[t * r for t in ref(v)] for v in corners(a, q)] for a, q in ((o, k), (o1, k1))]
                        return h + images(c, rule_points(c, d, 2 * m), base_rule(c, d, m), els, d, power(r, d))
                    tag = '%s%d' % (''.join('=' if j in E else '<' for j in range(1, d)), k)
                    out.append(Case('composite<%d>/any n, sub-element %s and its successor, %d points' % (d, tag, m), 'compositestate',
                                    'cq_pair_%d' % d, inputs=m * (d + 1), iin=[m, ORDER, N] + origin_inputs(d, E, k)[:-1],
                                    nout=2 * m * (d + 1), niout=6 + d, requires=req, ensures=ens, setup=setup))
    return out
