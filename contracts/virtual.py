"""Run-time selected refinement against the compile-time refinement (C24)."""
import math
from fractions import Fraction
from dgv.harness import Case, Driver, true, eq
from . import refine
from .refine import N, P, binom, binomial_contract, counts, fits, num, ordered, origin_inputs, origin_requires, patterns, power, reach, SHAPES, TRI

DRIVERS = [Driver('virtual', 'virtual', keep=[r'Dune::binomial<']),
           Driver('virtualstate', 'virtual', keep=[r'Dune::binomial<'], defines=['STATE'],
                  optional='run-time iterators of the simplex and triangulating refinements in every state')]

# what is refined into what (topology id and sub-element id without the lowest bit), in the order of the drivers
BUILT = {1: [(0, 0)], 2: [(0, 0), (2, 0), (2, 2)], 3: [(0, 0), (6, 0), (6, 6), (4, 0), (2, 0)]}


def build_cases():
    out = []
    for d, pairs in BUILT.items():
        for a in range(2 ** d):
            for b in range(2 ** d):
                k = (a & ~1, b & ~1)

                def ens(c, k=k, pairs=pairs):
                    if k in pairs:
                        return [true('refined as by the compile-time refinement', c.iout[0] == pairs.index(k) and c.iout[1] == 0)]
                    return [true('unsupported pair is rejected as not implemented', c.iout[0] == -1 and c.iout[1] == 1)]
                out.append(Case('select<%d>/%s,%s' % (d, format(a, '0%db' % d), format(b, '0%db' % d)), 'virtual', 'vr_build_%d' % d,
                                iin=[a, b], niout=2, ensures=ens))
    return out


# --- values -------------------------------------------------------------------------
# answers, what they have to equal (0: the place, 1: its successor), then comparisons
STEPS = [('compile-time', 0), ('compile-time successor', 1), ('run-time', 0), ('copy', 0), [('a copy is equal', 1)],
         ('copy after a step', 1), ('original after a step of the copy', 0),
         [('not equal to its successor', 0), ('!= negates ==', 1)], ('assigned', 0), ('copy of the successor', 1),
         [('assigned: equal', 1), ('copy of the successor: not equal', 0)], ('self-assigned', 0), [('self-assigned: equal', 1)],
         ('assigned from a temporary', 1), [('assigned from a temporary: equal', 1), ('assigned from a temporary: moved', 0)]]


def values(c, d, nv):
    """nv: number of vertices of an element, 0 for vertices"""
    m = 2 + nv if nv else 1
    i = x = 0
    got, o = [], []
    for s in STEPS:
        if isinstance(s, list):
            for what, w in s:
                o.append(true(what, c.iout[i] == w))
                i += 1
            continue
        what, which = s
        a = (list(c.iout[i:i + m]), list(c.out[x:x + d]))
        i, x = i + m, x + d
        got.append(a)
        if len(got) <= 2:
            if nv:
                o.append(true('%s: number of vertex indices' % what, a[0][1] == nv))
            continue
        w = got[which]
        o.append(eq('%s: index' % what, a[0][0], w[0][0]))
        for j in range(1, m):
            o.append(eq('%s: vertex indices (%d)' % (what, j - 1), a[0][j], w[0][j]))
        for j in range(d):
            o.append(eq('%s: coordinate %d' % (what, j), a[1][j], w[1][j]))
    return o


def sizes(d, nv):
    m = 2 + nv if nv else 1
    k = sum(1 for s in STEPS if not isinstance(s, list))
    return dict(nout=k * d, niout=k * m + sum(len(s) for s in STEPS if isinstance(s, list)))


def values_case(id, driver, entry, d, nv, **kw):
    return Case(id, driver, entry, ensures=lambda c: values(c, d, nv), setup=binomial_contract, **sizes(d, nv), **kw)


def state_cases():
    out = []
    # cubes: by the place at which the step carries
    for d in (2, 3):
        for e, nv in (('v', 0), ('e', 2 ** d)):
            for p in range(d):
                w = 'w' if e == 'v' else 'n'
                iin = [('expr', lambda s: s['w'] - 1) if e == 'v' else N]
                iin += [('expr', lambda s, w=w: s[w] - 1) if i < p else ('int', 'c%d' % i, 'nonneg') for i in range(d)]
                k = 1 if e == 'v' else 0

                def req(x, ii, p=p, k=k):
                    n, v = ii[0], ii[1:]
                    return [('ge', n, 1)] + [('ge', t, 0) for t in v] + [('lt', v[p], n + (k - 1))] + [('lt', t, n + k) for t in v[p + 1:]]
                c = values_case('cube<%d>/%s, step in direction %d' % (d, 'vertices' if e == 'v' else 'elements', p), 'virtual',
                                'vr_%s_cube_%d' % (e, d), d, nv, iin=iin, requires=req)
                c.symbols = [('w', 'pos')] if e == 'v' else []
                out.append(c)
    # simplices and triangulations: by the pattern of the origin
    for name, (title, d, nc, tid, sub) in SHAPES.items():
        if name.startswith('cube_'):
            continue
        K = TRI[name][1] if name in TRI else None
        for k in range(K or 1):
            pre = [N] + ([k] if K else [])
            q = len(pre)
            last = not K or k == K - 1
            tag = ' %d' % k if K else ''

            def before(ii, d=d, q=q):
                v = [Fraction(t) for t in ii[q:q + d]]
                return (ii[1] * binom(Fraction(ii[0] + d), d) if q == 2 else 0) + P(v)

            def req(x, ii, d=d, q=q, last=last):
                v = ii[q:q + d]
                return ordered(v, ii[0], True) + ([('lt', v[-1], ii[0])] if last else [])
            out.append(values_case('%s/vertices%s' % (title, tag), 'virtualstate', 'vr_v_' + name, d, 0,
                                   iin=pre + [('int', 'v%d' % i, 'nonneg') for i in range(d)] + [-1], requires=req, reach=reach(before)))
            for E in patterns(d):
                for s in range(math.factorial(d)):
                    if not fits(d, s, E):
                        continue

                    def req(x, ii, d=d, q=q, E=E, s=s, last=last):
                        r = origin_requires(d, E, s, ii[q:], ii[0])
                        return r + ([('lt', ii[q + d + 1] + 1, power(ii[0], d))] if last else [])

                    def before(ii, d=d, q=q):
                        return (ii[1] * ii[0] ** d if q == 2 else 0) + ii[-2]
                    out.append(values_case('%s/elements%s %s%d' % (title, tag, ''.join('=' if j in E else '<' for j in range(1, d)), s),
                                           'virtualstate', 'vr_e_' + name, d, d + 1, iin=pre + origin_inputs(d, E, s), requires=req,
                                           reach=reach(before)))
    return out


# --- through the public interface -------------------------------------------------
def public_cases():
    out = []
    for name, (title, d, nc, tid, sub) in SHAPES.items():
        def ens(c, name=name, d=d):
            v, e = counts(name, num(c, c.iin[0]), d)
            o = c.iout
            return [eq('number of vertices', o[0], v), eq('number of elements', o[1], e), eq('first vertex', o[2], 0),
                    eq('vertex end', o[3], v), eq('first element', o[4], 0), eq('element end', o[5], e),
                    true('some vertices', o[6] == 0), true('some elements', o[7] == 0)]
        out.append(Case('%s/counts and ends' % title, 'virtual', 'vr_ends_' + name, iin=[N], niout=8, ensures=ens, setup=binomial_contract))
        out.append(Case('%s/comparison' % title, 'virtual', 'vr_compare_' + name, iin=[N, ('int', 'm', 'pos')], niout=8, setup=binomial_contract,
                        ensures=lambda c: [true('comparison %d as at compile time' % k, c.iout[2 * k] == c.iout[2 * k + 1]) for k in range(4)]))
        for n in (1, 2, 3):
            nv, ne = (int(t) for t in counts(name, Fraction(n), d))

            def ens(c, nv=nv, ne=ne):
                return [true('counts and visits', list(c.iout) == [nv, nv, ne, ne, nv, ne])]
            out.append(Case('%s/run n=%d' % (title, n), 'virtual', 'vr_whole_' + name, iin=[n], niout=6, ensures=ens,
                            setup=binomial_contract, bounded='n = %d' % n))
        nv, ne = (int(t) for t in counts(name, Fraction(2), d))
        for k in range(nv - 1):
            out.append(values_case('%s/vertex %d of n=2' % (title, k), 'virtual', 'vr_vrun_' + name, d, 0, iin=[2, k], bounded='n = 2'))
        for k in range(ne - 1):
            out.append(values_case('%s/element %d of n=2' % (title, k), 'virtual', 'vr_erun_' + name, d, nc, iin=[2, k], bounded='n = 2'))
    out.append(Case('iterators of different refinements', 'virtual', 'vr_mixed_2', iin=[N, ('int', 'm', 'pos')], niout=3,
                    ensures=lambda c: [true('not equal', list(c.iout) == [0, 0, 1])], setup=binomial_contract))
    return out


def cases(tier='quick'):
    return build_cases() + state_cases() + public_cases()
