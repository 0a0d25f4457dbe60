"""Refinement of reference elements (C21 - C23)."""
import itertools
import math
from fractions import Fraction
from dgv import poly, engine
from dgv.engine import Ptr
from dgv.harness import Case, Driver, true, eq, le, lt, native_call
from dgv.poly import Poly
from . import spec

DRIVERS = [Driver('refine', 'refine', keep=[r'Dune::binomial<']),
           Driver('refinestate', 'refine', keep=[r'Dune::binomial<'], defines=['STATE'],
                  optional='iterators of the simplex and triangulating refinements in every state')]
N = ('int', 'n', 'pos')


# --- the specification -----------------------------------------------------------
def num(c, v):
    return Fraction(v) if c.native else poly.to_poly(v)


def zero(a):
    return a == 0 if isinstance(a, (int, Fraction)) else poly.is_zero(a)


def binom(a, k):
    """binomial coefficient a over k for a number or polynomial a"""
    r = Fraction(1)
    for i in range(k):
        r = (a - i) * r
    return r * Fraction(1, math.factorial(k))


def power(a, k):
    r = Fraction(1)
    for i in range(k):
        r = a * r
    return r


def P(v):
    """number of lattice points n >= v0 >= v1 >= ... >= 0 before v"""
    d = len(v)
    s = Fraction(0)
    for i, a in enumerate(v):
        s = binom(a + (d - i - 1), d - i) + s
    return s


def ref(v):
    """a lattice point in the coordinates of the reference simplex (times n)"""
    return [a - b for a, b in zip(v, v[1:])] + [v[-1]]


def permutation(d, m):
    """numbering of the Kuhn simplices"""
    p = list(range(d))
    base = math.factorial(d)
    for i in range(d, 0, -1):
        base //= i
        k, m = divmod(m, base)
        p[i - 1], p[i - 1 - k] = p[i - 1 - k], p[i - 1]
    return p


def fits(d, k, E):
    """the Kuhn simplex k at an origin whose coordinates j in E equal their predecessors lies in x0 >= x1 >= ..."""
    p = permutation(d, k)
    return all(p.index(j - 1) < p.index(j) for j in E)


def needs(d, k):
    """coordinates that have to be smaller than their predecessors"""
    p = permutation(d, k)
    return [j for j in range(1, d) if p.index(j - 1) > p.index(j)]


def position(o, k, E):
    """number of sub-simplices before simplex k at origin o"""
    d = len(o)
    r = sum(fits(d, q, E) for q in range(k))
    if d == 1:
        return o[0]
    if d == 2:
        return o[0] * o[0] + o[1] * 2 + r
    return power(o[0], 3) + o[1] * o[1] * 3 + o[2] * (3 if 1 in E else 6) + r


def corners(o, k):
    v = list(o)
    r = [list(v)]
    for j in permutation(len(o), k):
        v[j] = v[j] + 1
        r.append(list(v))
    return r


def patterns(d):
    for r in range(d):
        for E in itertools.combinations(range(1, d), r):
            yield set(E)


def ordered(v, n, top):
    """0 <= v[d-1] <= ... <= v[0] <= n (or < n)"""
    r = [('ge', v[-1], 0), ('le' if top else 'lt', v[0], n)]
    return r + [('le', b, a) for a, b in zip(v, v[1:])]


def binomial_contract(E):
    """Dune::binomial (dune-common) returns the binomial coefficient"""
    def h(eng, S, args):
        a, k = (S.load(p, 4) if isinstance(p, Ptr) else p for p in args)
        if not isinstance(k, int):
            raise engine.EngineError('binomial with a symbolic lower argument')
        k = engine.to_signed(k, 32)
        if isinstance(a, int):
            a = engine.to_signed(a, 32)
            return math.comb(a, k) if 0 <= k <= a else 0
        if k < 0 or not eng.decide(S, engine.mkatom('ge', a)):
            return 0
        return binom(a, k)
    E.add_contract(r'Dune::binomial<', h)
    E.implicit = getattr(E, 'implicit', set()) | {
        'contract of Dune::binomial (dune-common): the binomial coefficient',
        'numbers of sub-entities and the products they are computed from fit into int'}


def matched(name, got, want, native):
    """got and want agree as multisets of tuples"""
    rest = list(want)
    left = []
    for g in got:
        for w in rest:
            if all((abs(a - b) < 1e-9 if native else zero(poly.to_poly(a) - b)) for a, b in zip(g, w)):
                rest.remove(w)
                break
        else:
            left.append(g)
    if not left and not rest:
        return [true(name, True)]
    if native or len(left) != len(rest):
        return [true(name, False)]
    return [eq('%s (%d, %d)' % (name, i, j), a, b) for i, (g, w) in enumerate(zip(left, rest)) for j, (a, b) in enumerate(zip(g, w))]


# --- clauses on what a sub-entity reports ------------------------------------------
def vertex_clauses(c, d, index, want):
    """want: coordinates"""
    o = [eq('index', c.iout[0], index), true('geometry: one corner', c.iout[1] == 1), true('geometry: a point', c.iout[3] == 0)]
    for i in range(d):
        o.append(eq('coordinate %d' % i, c.out[i], want[i]))
        o.append(eq('corner of the geometry, coordinate %d' % i, c.out[d + i], want[i]))
    return o


def element_clauses(c, d, tid, index, want, volume):
    """want: list of (vertex index, coordinates) of the corners"""
    m = len(want)
    o = [eq('index', c.iout[0], index), true('geometry: number of corners', c.iout[1] == m),
         true('geometry: type', c.iout[3] == d and c.iout[2] >> 1 == tid >> 1)]
    o += matched('vertex indices are those of the corners', [(v,) for v in c.iout[4:4 + m]], [(i,) for i, _ in want], c.native)
    g = [tuple(c.out[d * (1 + k) + i] for i in range(d)) for k in range(m)]
    o += matched('corners of the geometry', g, [tuple(x) for _, x in want], c.native)
    for i in range(d):
        s = want[0][1][i]
        for _, x in want[1:]:
            s = s + x[i]
        o.append(eq('coordinate %d is the centre' % i, c.out[i], s * Fraction(1, m)))
        o.append(eq('centre of the geometry, coordinate %d' % i, c.out[d * (1 + m) + i], s * Fraction(1, m)))
    o.append(eq('volume', c.out[d * (2 + m)], volume))
    return o


def inverse(c, n):
    return 1 / n if c.native else poly.inverse(n)


# --- cubes ---------------------------------------------------------------------
def cube_cases():
    out = []
    for d in (2, 3):
        dig = [('int', 'c%d' % i, 'nonneg') for i in range(d)]

        def ens(c, d=d):
            n, v = num(c, c.iin[0]), [num(c, t) for t in c.iin[1:]]
            s = Fraction(0)
            for t in reversed(v):
                s = s * (n + 1) + t
            r = inverse(c, n)
            return vertex_clauses(c, d, s, [t * r for t in v])
        k = Case('cube<%d>/vertex' % d, 'refine', 'rf_cubev_%d' % d, iin=[('expr', lambda s: s['w'] - 1)] + dig,
                 nout=2 * d, niout=4, requires=lambda x, ii: [('ge', ii[0], 1)] + [('le', t, ii[0]) for t in ii[1:]] +
                 [('ge', t, 0) for t in ii[1:]], ensures=ens)
        k.symbols = [('w', 'pos')]
        out.append(k)

        def ens(c, d=d):
            n, v = num(c, c.iin[0]), [num(c, t) for t in c.iin[1:]]
            s = Fraction(0)
            for t in reversed(v):
                s = s * n + t
            r = inverse(c, n)
            want = []
            for a in range(2 ** d):
                q = [t + (a >> i & 1) for i, t in enumerate(v)]
                j = Fraction(0)
                for t in reversed(q):
                    j = j * (n + 1) + t
                want.append((j, [t * r for t in q]))
            return element_clauses(c, d, 2 ** d - 1, s, want, power(r, d))
        out.append(Case('cube<%d>/element' % d, 'refine', 'rf_cubee_%d' % d, iin=[N] + dig, nout=d * (2 + 2 ** d) + 1, niout=4 + 2 ** d,
                        requires=lambda x, ii: [('lt', t, ii[0]) for t in ii[1:]] + [('ge', t, 0) for t in ii[1:]], ensures=ens))
        for e in 've':
            def ens(c):
                n, a, m, b = (num(c, t) for t in c.iin)
                o = [eq('index', c.iout[0], a), eq('a step advances the index by one', c.iout[3], a + 1),
                     eq('the original keeps its place', c.iout[4], a), true('not equal to its successor', c.iout[5] == 0),
                     eq('assignment', c.iout[6], a), true('!= negates ==', c.iout[1] + c.iout[2] == 1)]
                if c.iout[1]:
                    o += [eq('equal iterators have equal indices', a, b)]
                elif c.native:
                    o += [true('different iterators differ', n != m or a != b)]
                else:
                    o += [true('different iterators differ', not (c.state.pc.known(engine.mkatom('eq', n - m)) is True and
                                                                  c.state.pc.known(engine.mkatom('eq', a - b)) is True))]
                return o
            out.append(Case('cube<%d>/%s step' % (d, 'vertex' if e == 'v' else 'element'), 'refine', 'rf_cube%sstep_%d' % (e, d),
                            iin=[N, ('int', 'i', 'nonneg'), ('int', 'm', 'pos'), ('int', 'j', 'nonneg')], niout=7, ensures=ens))
    return out


# --- simplices -------------------------------------------------------------------
def origin_inputs(d, E, k):
    names = []
    for j in range(d):
        names.append(names[-1] if j in E else 'o%d' % j)
    return [('int', s, 'nonneg') for s in names] + [k, ('expr', lambda s: poly.to_poly(position([s[t] for t in names], k, E))), -1]


def reach(where):
    """native runs step to the state from begin"""
    def f(ii):
        s = where(ii)
        return list(ii[:-1]) + [int(s)] if 0 <= s <= 10 ** 6 else None
    return f


def origin_requires(d, E, k, ii, n):
    o, ix = ii[:d], ii[d + 1]
    r = [('ge', o[-1], 0), ('lt', o[0], n)]
    for j in range(1, d):
        if j not in E:
            r.append(('lt', o[j], o[j - 1]))
    r.append(('lt', ix, power(n, d)))
    return r


def known(c, op, a):
    """truth of a comparison with zero, None if open"""
    if c.native or isinstance(a, (int, Fraction)):
        return {'eq': a == 0, 'lt': a < 0, 'le': a <= 0}[op]
    if a.is_const():
        a = a.const_value()
        return {'eq': a == 0, 'lt': a < 0, 'le': a <= 0}[op]
    at = engine.mkatom(op, a)
    if type(at) is int:
        return bool(at)
    if engine.eng_known(c.state, at):
        return True
    if engine.eng_known(c.state, at.neg()):
        return False
    return None


def vertex_state_clauses(c, v, n, what):
    o = [le('%s: coordinates are non-negative' % what, 0, v[-1]), le('%s: coordinates are at most n' % what, v[0], n)]
    return o + [le('%s: coordinates %d and %d in order' % (what, i, i + 1), b, a) for i, (a, b) in enumerate(zip(v, v[1:]))]


def element_state_clauses(c, o, k, n, before, what):
    """(o, k) is the sub-simplex after the one at position before; or the end"""
    d = len(o)
    if not isinstance(k, int) or not 0 <= k < math.factorial(d):
        return [true('%s: a Kuhn simplex' % what, False)]
    E = set()
    r = []
    for j in range(1, d):
        e = known(c, 'eq', o[j] - o[j - 1])
        if e:
            E.add(j)
        elif e is None and k:
            r.append(true('%s: pattern of the origin' % what, False))
    r += [le('%s: coordinates are non-negative' % what, 0, o[-1]), le('%s: inside' % what, o[0], n)]
    for j in range(1, d):
        r.append((lt if j in needs(d, k) else le)('%s: corners in order (%d)' % (what, j), o[j], o[j - 1]))
    r.append(eq('%s: no sub-simplex is left out or repeated' % what, position(o, k, E), before))
    return r


def simplex_cases():
    out = []
    for d in (1, 2, 3):
        vin = [N] + [('int', 'v%d' % i, 'nonneg') for i in range(d)] + [-1]

        def ens(c, d=d):
            n, v = num(c, c.iin[0]), [num(c, t) for t in c.iin[1:1 + d]]
            r = inverse(c, n)
            return vertex_clauses(c, d, P(v), [t * r for t in ref(v)])
        out.append(Case('simplex<%d>/vertex' % d, 'refinestate', 'rf_simplexv_%d' % d, iin=vin, nout=2 * d, niout=4,
                        requires=lambda x, ii: ordered(ii[1:-1], ii[0], True), ensures=ens, setup=binomial_contract,
                        reach=reach(lambda ii: P([Fraction(t) for t in ii[1:-1]]))))

        def ens(c, d=d):
            n, v = num(c, c.iin[0]), [num(c, t) for t in c.iin[1:1 + d]]
            w, b = [num(c, t) for t in c.iout[:d]], [num(c, t) for t in c.iout[d:2 * d]]
            i, j, ie, je = c.iout[3 * d:3 * d + 4]
            total = binom(n + d, d)
            o = [eq('index', i, P(v)), eq('a step advances the index by one', j, P(v) + 1), true('not the end', ie == 0)]
            o += [eq('the first vertex has index 0', P(b), 0)] + vertex_state_clauses(c, b, n, 'begin')
            if je:
                o.append(eq('the end follows the last vertex', P(v) + 1, total))
            else:
                o += vertex_state_clauses(c, w, n, 'step')
                o.append(eq('no vertex is left out or repeated', P(w), P(v) + 1))
            return o
        out.append(Case('simplex<%d>/vertex step' % d, 'refinestate', 'rf_simplexvstep_%d' % d, iin=vin, niout=3 * d + 4,
                        requires=lambda x, ii: ordered(ii[1:-1], ii[0], True), ensures=ens, setup=binomial_contract,
                        reach=reach(lambda ii: P([Fraction(t) for t in ii[1:-1]]))))
        for E in patterns(d):
            for k in range(math.factorial(d)):
                if not fits(d, k, E):
                    continue
                tag = '%s%d' % (''.join('=' if j in E else '<' for j in range(1, d)), k)

                def req(x, ii, d=d, E=E, k=k):
                    return origin_requires(d, E, k, ii[1:], ii[0])

                def ens(c, d=d, E=E, k=k):
                    n, o = num(c, c.iin[0]), [num(c, t) for t in c.iin[1:1 + d]]
                    r = inverse(c, n)
                    return element_clauses(c, d, 0, num(c, c.iin[d + 2]),
                                           [(P(v), [t * r for t in ref(v)]) for v in corners(o, k)],
                                           power(r, d) * Fraction(1, math.factorial(d)))
                out.append(Case('simplex<%d>/element %s' % (d, tag), 'refinestate', 'rf_simplexe_%d' % d, iin=[N] + origin_inputs(d, E, k),
                                nout=d * (3 + d) + 1, niout=5 + d, requires=req, ensures=ens, setup=binomial_contract,
                                reach=reach(lambda ii: ii[-2])))

                def ens(c, d=d, E=E, k=k):
                    n, o, ix = num(c, c.iin[0]), [num(c, t) for t in c.iin[1:1 + d]], num(c, c.iin[d + 2])
                    st, m = c.iout, d + 2
                    i, j, ie, je = st[3 * m:3 * m + 4]
                    r = [eq('index', i, ix), eq('a step advances the index by one', j, ix + 1), true('not the end', ie == 0)]
                    r += element_state_clauses(c, [num(c, t) for t in st[m:m + d]], st[m + d], n, 0, 'begin')
                    r.append(eq('the first sub-simplex has index 0', num(c, st[m + d + 1]), 0))
                    r += element_state_clauses(c, [num(c, t) for t in st[:d]], st[d], n, position(o, k, E) + 1, 'step')
                    if je:
                        r.append(eq('the end follows the last sub-simplex', ix + 1, power(n, d)))
                    else:
                        q = known(c, 'eq', power(n, d) - ix - 1)
                        r.append(true('after the last sub-simplex comes the end', q is False))
                    return r
                out.append(Case('simplex<%d>/element step %s' % (d, tag), 'refinestate', 'rf_simplexestep_%d' % d,
                                iin=[N] + origin_inputs(d, E, k), niout=3 * (d + 2) + 4, requires=req, ensures=ens,
                                setup=binomial_contract, reach=reach(lambda ii: ii[-2])))
    return out


# --- triangulations --------------------------------------------------------------
TRI = {'cubet_2': (2, 2, Fraction(1), 3), 'cubet_3': (3, 6, Fraction(1), 7), 'prismt_3': (3, 3, Fraction(1, 2), 4),
       'pyramidt_3': (3, 2, Fraction(1, 3), 3)}
NAME = {'cubet_2': 'square', 'cubet_3': 'cube', 'prismt_3': 'prism', 'pyramidt_3': 'pyramid'}


def macro(case, name):
    """corners of the macro simplices: the vertices of the refinement with one interval"""
    d, K = TRI[name][:2]
    nv, ne = K * (d + 1), K
    st, ret, out, iout, log = native_call(case.drv.so, 'rf_all_' + name, [], [1, 0], nv * 2 * d + ne * (d * (3 + d) + 1),
                                          5 + 4 * nv + ne * (5 + d))
    if st != 'ok' or ret != 0 or iout[3] != nv:
        return None
    pts = [[Fraction(t) for t in out[2 * d * i:2 * d * i + d]] for i in range(nv)]
    return [pts[k * (d + 1):(k + 1) * (d + 1)] for k in range(K)]


def det(rows):
    if len(rows) == 1:
        return rows[0][0]
    return sum((-1) ** j * rows[0][j] * det([r[:j] + r[j + 1:] for r in rows[1:]]) for j in range(len(rows)))


def volume(s):
    d = len(s) - 1
    return abs(det([[a - b for a, b in zip(v, s[0])] for v in s[1:]])) / math.factorial(d)


def separated(s, t):
    """some plane through facets (or parallel to two edges) has both simplices on different sides"""
    d = len(s) - 1
    edges = lambda s: [[a - b for a, b in zip(p, q)] for p, q in itertools.combinations(s, 2)]
    if d == 2:
        normals = [[-e[1], e[0]] for e in edges(s) + edges(t)]
    else:
        es = edges(s) + edges(t)
        normals = [[a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
                   for a, b in itertools.combinations(es, 2)]
    for m in normals:
        if not any(m):
            continue
        f = lambda p: sum(a * b for a, b in zip(m, p))
        a, b = [f(p) for p in s], [f(p) for p in t]
        if max(a) <= min(b) or max(b) <= min(a):
            return True
    return False


def inside(tid, d, x):
    """closed reference element"""
    f = Fraction(1)
    for k in range(d, 0, -1):
        t = x[k - 1]
        if not 0 <= t <= f:
            return False
        if not spec.is_prism(tid, k):
            f -= t
    return True


def tri_cases():
    out = []
    for name, (d, K, vol, tid) in TRI.items():
        for k in range(K):
            vin = [N, k] + [('int', 'v%d' % i, 'nonneg') for i in range(d)] + [-1]

            def image(c, v, r, k=k, name=name):
                m = macro(c.case, name)
                if m is None:
                    return None
                x = [t * r for t in ref(v)]
                return [sum(((m[k][j + 1][i] - m[k][0][i]) * x[j] for j in range(len(x))), m[k][0][i]) for i in range(len(x))]

            def ens(c, d=d, k=k, image=image):
                n, v = num(c, c.iin[0]), [num(c, t) for t in c.iin[2:2 + d]]
                x = image(c, v, inverse(c, n))
                return vertex_clauses(c, d, binom(n + d, d) * k + P(v), x) if x else [true('macro simplices', False)]
            out.append(Case('%s/vertex %d' % (NAME[name], k), 'refinestate', 'rf_%sv' % name, iin=vin, nout=2 * d, niout=4,
                            requires=lambda x, ii: ordered(ii[2:-1], ii[0], True), ensures=ens, setup=binomial_contract,
                            reach=reach(lambda ii: ii[1] * binom(Fraction(ii[0] + len(ii) - 3), len(ii) - 3) + P([Fraction(t) for t in ii[2:-1]]))))

            def ens(c, d=d, k=k, K=K):
                n, v = num(c, c.iin[0]), [num(c, t) for t in c.iin[2:2 + d]]
                k1, w = c.iout[0], [num(c, t) for t in c.iout[1:1 + d]]
                i, j, ie, je, same = c.iout[1 + d:6 + d]
                m = binom(n + d, d)
                o = [eq('index', i, m * k + P(v)), eq('a step advances the index by one', j, m * k + P(v) + 1),
                     true('not the end', ie == 0), true('not equal to its successor', same == 0)]
                if je:
                    o.append(eq('the end follows the last vertex', m * k + P(v) + 1, m * K))
                else:
                    o += [true('a Kuhn simplex', isinstance(k1, int) and 0 <= k1 < K)]
                    o += vertex_state_clauses(c, w, n, 'step')
                    o.append(eq('no vertex is left out or repeated', m * k1 + P(w), m * k + P(v) + 1))
                return o
            out.append(Case('%s/vertex step %d' % (NAME[name], k), 'refinestate', 'rf_%svstep' % name, iin=vin, niout=6 + d,
                            requires=lambda x, ii: ordered(ii[2:-1], ii[0], True), ensures=ens, setup=binomial_contract,
                            reach=reach(lambda ii: ii[1] * binom(Fraction(ii[0] + len(ii) - 3), len(ii) - 3) + P([Fraction(t) for t in ii[2:-1]]))))
            for E in patterns(d):
                for q in range(math.factorial(d)):
                    if not fits(d, q, E):
                        continue
                    tag = '%d %s%d' % (k, ''.join('=' if j in E else '<' for j in range(1, d)), q)

                    def req(x, ii, d=d, E=E, q=q):
                        return origin_requires(d, E, q, ii[2:], ii[0])

                    def ens(c, d=d, E=E, q=q, k=k, image=image):
                        n, o = num(c, c.iin[0]), [num(c, t) for t in c.iin[2:2 + d]]
                        r = inverse(c, n)
                        m = binom(n + d, d)
                        want = [(m * k + P(v), image(c, v, r)) for v in corners(o, q)]
                        if want[0][1] is None:
                            return [true('macro simplices', False)]
                        return element_clauses(c, d, 0, power(n, d) * k + num(c, c.iin[d + 3]), want,
                                               power(r, d) * Fraction(1, math.factorial(d)))
                    out.append(Case('%s/element %s' % (NAME[name], tag), 'refinestate', 'rf_%se' % name, iin=[N, k] + origin_inputs(d, E, q),
                                    nout=d * (3 + d) + 1, niout=5 + d, requires=req, ensures=ens, setup=binomial_contract,
                                    reach=reach(lambda ii: ii[1] * ii[0] ** (len(ii) - 5) + ii[-2])))

                    def ens(c, d=d, E=E, q=q, k=k, K=K):
                        n, o, ix = num(c, c.iin[0]), [num(c, t) for t in c.iin[2:2 + d]], num(c, c.iin[d + 3])
                        st = c.iout
                        i, j, ie, je, same = st[d + 3:d + 8]
                        m = power(n, d)
                        r = [eq('index', i, m * k + ix), eq('a step advances the index by one', j, m * k + ix + 1),
                             true('not the end', ie == 0), true('not equal to its successor', same == 0)]
                        if je:
                            r.append(eq('the end follows the last sub-simplex', m * k + ix + 1, m * K))
                        else:
                            k1 = st[0]
                            r.append(true('a Kuhn simplex', isinstance(k1, int) and 0 <= k1 < K))
                            o1 = [num(c, t) for t in st[1:1 + d]]
                            if k1 == k:
                                r += element_state_clauses(c, o1, st[1 + d], n, position(o, q, E) + 1, 'step')
                                r.append(eq('backend index', st[2 + d], ix + 1))
                            else:
                                r.append(eq('the next Kuhn simplex follows the last sub-simplex', ix + 1, m))
                                r += element_state_clauses(c, o1, st[1 + d], n, 0, 'next Kuhn simplex')
                                r.append(eq('backend index', st[2 + d], 0))
                        return r
                    out.append(Case('%s/element step %s' % (NAME[name], tag), 'refinestate', 'rf_%sestep' % name,
                                    iin=[N, k] + origin_inputs(d, E, q), niout=8 + d, requires=req, ensures=ens,
                                    setup=binomial_contract, reach=reach(lambda ii: ii[1] * ii[0] ** (len(ii) - 5) + ii[-2])))
    return out


# --- counts ------------------------------------------------------------------------
SHAPES = {'cube_2': ('cube<2>', 2, 4, 3, 3), 'cube_3': ('cube<3>', 3, 8, 7, 7)}
for _d in (1, 2, 3):
    SHAPES['simplex_%d' % _d] = ('simplex<%d>' % _d, _d, _d + 1, 0, 0)
for _k in TRI:
    SHAPES[_k] = (NAME[_k], TRI[_k][0], TRI[_k][0] + 1, TRI[_k][3], 0)


def counts(name, n, d):
    if name.startswith('cube_'):
        return power(n + 1, d), power(n, d)
    K = TRI[name][1] if name in TRI else 1
    return binom(n + d, d) * K, power(n, d) * K


def ends_cases():
    out = []
    for name, (title, d, nc, tid, sub) in SHAPES.items():
        def ens(c, name=name, d=d):
            n = num(c, c.iin[0])
            v, e = counts(name, n, d)
            o = c.iout
            return [eq('number of vertices', o[0], v), eq('number of elements', o[1], e), eq('first vertex', o[2], 0),
                    eq('vertex end', o[3], v), eq('first element', o[4], 0), eq('element end', o[5], e),
                    true('some vertices', o[6] == 0), true('some elements', o[7] == 0)]
        out.append(Case('%s/counts' % title, 'refine', 'rf_ends_' + name, iin=[N], niout=8, ensures=ens, setup=binomial_contract))
    return out


def run_cases():
    """complete runs through the public interface, for some n"""
    out = []
    for name, (title, d, nc, tid, sub) in SHAPES.items():
        K = TRI[name][1] if name in TRI else 1
        for n, lv in [(1, 0), (2, 0), (3, 0), (0, 1), (1, 1)] + ([(4, 0), (5, 0), (2, 1)] if d < 3 else []) + ([(9, 0)] if d == 1 else []):
            m = 2 ** n if lv else n
            nv, ne = (int(t) for t in counts(name, Fraction(m), d))

            def ens(c, name=name, d=d, nc=nc, tid=tid, sub=sub, m=m, nv=nv, ne=ne, K=K):
                I, X = list(c.iout), list(c.out)
                o = [true('intervals', I[0] == m), true('number of vertices', I[1] == nv), true('number of elements', I[2] == ne),
                     true('vertices visited', I[3] == nv), true('elements visited', I[4] == ne)]
                if I[3] != nv or I[4] != ne:
                    return o
                I = I[5:]
                F = lambda x: Fraction(x).limit_denominator(10 ** 6)
                vert = []
                for k in range(nv):
                    x, g = [F(t) for t in X[:d]], [F(t) for t in X[d:2 * d]]
                    o += [true('vertex %d: index' % k, I[0] == k), true('vertex %d: geometry is its point' % k, g == x and I[1] == 1 and I[3] == 0),
                          true('vertex %d: inside' % k, inside(tid, d, x)),
                          true('vertex %d: on the grid' % k, all((t * m).denominator == 1 for t in x))]
                    vert.append(tuple(x))
                    X, I = X[2 * d:], I[4:]
                if K == 1:
                    o.append(true('no vertex twice', len(set(vert)) == nv))
                seen, total = set(), 0
                for k in range(ne):
                    idx, typ, vi = I[0], I[1:4], I[4:4 + nc]
                    x = [F(t) for t in X[:d]]
                    g = [tuple(F(X[d * (1 + j) + i]) for i in range(d)) for j in range(nc)]
                    z = [F(t) for t in X[d * (1 + nc):d * (2 + nc)]]
                    v = F(X[d * (2 + nc)])
                    mean = [sum(p[i] for p in g) / nc for i in range(d)]
                    o += [true('element %d: index' % k, idx == k),
                          true('element %d: type' % k, typ[0] == nc and typ[1] >> 1 == sub >> 1 and typ[2] == d),
                          true('element %d: vertex indices are those of its corners' % k, all(0 <= t < nv for t in vi) and
                               len(set(g)) == nc and sorted(vert[t] for t in vi) == sorted(g)),
                          true('element %d: centre' % k, x == mean and z == mean)]
                    total += v
                    seen.add(frozenset(g))
                    if sub == 0:
                        o.append(true('element %d: volume' % k, F(v) == F(volume(g))))
                    I, X = I[4 + nc:], X[d * (2 + nc) + 1:]
                o += [true('no element twice', len(seen) == ne), true('volumes', F(total) == spec.volume(tid, d))]
                return o
            out.append(Case('%s/run %d%s' % (title, n, ' levels' if lv else ''), 'refine', 'rf_all_' + name, iin=[n, lv],
                            nout=nv * 2 * d + ne * (d * (2 + nc) + 1), niout=5 + 4 * nv + ne * (4 + nc), ensures=ens, bounded='n = %d' % m))
    for name, (d, K, vol, tid) in TRI.items():
        nv, ne = K * (d + 1), K

        def ens(c, name=name, d=d, K=K, vol=vol, tid=tid):
            nv = K * (d + 1)
            s = [[tuple(Fraction(t) for t in c.out[2 * d * (k * (d + 1) + j):][:d]) for j in range(d + 1)] for k in range(K)]
            o = [true('simplex %d: corner %d in the element' % (k, j), inside(tid, d, s[k][j])) for k in range(K) for j in range(d + 1)]
            o += [true('simplex %d: volume' % k, volume(s[k]) == Fraction(1, math.factorial(d))) for k in range(K)]
            o += [true('simplices %d and %d overlap in no volume' % (a, b), separated(s[a], s[b]))
                  for a, b in itertools.combinations(range(K), 2)]
            o.append(true('the simplices fill the element', sum(volume(t) for t in s) == vol))
            return o
        out.append(Case('%s/macro simplices tile the element' % NAME[name], 'refine', 'rf_all_' + name, iin=[1, 0],
                        nout=nv * 2 * d + ne * (d * (3 + d) + 1), niout=5 + 4 * nv + ne * (5 + d), ensures=ens))
    return out


def cases():
    return ends_cases() + cube_cases() + simplex_cases() + tri_cases() + run_cases()
