"""Contracts of the reference elements: numbering, positions, normals,
embeddings, inside test; recursive kernels by induction."""
from fractions import Fraction
from functools import lru_cache
import z3
from dgv import poly
from dgv.poly import Poly
from dgv.harness import Case, Driver, eq, true, any_of
from . import spec

DRIVERS = [Driver('refelem', 'refelem'),
           Driver('refkernel', 'refelem', keep=[r'^Dune::Geo::Impl::(size|subTopologyId|referenceVolumeInverse)\('],
                  defines=['DGV_KERNEL'], pipe='light')]
MAXDIM = 4


# --- the construction: every sub-entity as the ordered tuple of its vertices ---------
@lru_cache(None)
def entities(tid, d, c):
    """ordered list of (sub-topology id, vertex tuple)"""
    if c == 0:
        return ((tid, tuple(range(spec.ncorners(tid, d)))),)
    base = tid & ((1 << (d - 1)) - 1)
    nb = spec.ncorners(base, d - 1)
    low = entities(base, d - 1, c - 1)
    over = entities(base, d - 1, c) if c < d else ()
    m = d - c - 1          # dimension of the base entities an extension is built on
    if spec.is_prism(tid, d):
        return tuple((s | (1 << m), v + tuple(k + nb for k in v)) for s, v in over) + low + \
            tuple((s, tuple(k + nb for k in v)) for s, v in low)
    r = low + tuple((s, v + (nb,)) for s, v in over)
    if c == d:
        r += ((0, (nb,)),)
    return r


def numbers(tid, d, c, i, cc):
    """numbers of the codimension-cc sub-entities of sub-entity (i, c): those with the vertex sets that the sub-entity's own
    reference element lists"""
    s, verts = entities(tid, d, c)[i]
    pos = {frozenset(v): k for k, (_, v) in enumerate(entities(tid, d, cc))}
    return [pos[frozenset(verts[k] for k in v)] for _, v in entities(s, d - c, cc - c)]


def same_type(s, t, d):
    return s >> 1 == t >> 1 if d > 0 else s == t


def num_expected(tid, d):
    """(name, expected value or predicate)"""
    e = [('dimension', d), ('id', ('shape', tid)), ('none', 0)]
    for c in range(d + 1):
        E = entities(tid, d, c)
        e.append(('size(%d)' % c, len(E)))
        for i, (s, verts) in enumerate(E):
            e += [('type(%d,%d) dimension' % (i, c), d - c), ('type(%d,%d) shape' % (i, c), ('shape', s)),
                  ('type(%d,%d) none' % (i, c), 0)]
            for cc in range(d + 1):
                n = numbers(tid, d, c, i, cc) if cc >= c else []
                assert len(set(n)) == len(n)
                e.append(('size(%d,%d,%d)' % (i, c, cc), len(n)))
                for ii, k in enumerate(n):
                    e.append(('subEntity(%d,%d,%d,%d)' % (i, c, ii, cc), k))
                e.append(('subEntities(%d,%d,%d).size' % (i, c, cc), len(n)))
                for ii, k in enumerate(n):
                    e.append(('subEntities(%d,%d,%d)[%d]' % (i, c, cc, ii), k))
                for k in range(len(entities(tid, d, cc))):
                    e.append(('subEntities(%d,%d,%d).contains(%d)' % (i, c, cc, k), int(k in n)))
    return e


def topologies(d):
    return range(1 << d)


def tname(tid, d):
    return bin(tid)[2:].zfill(d) if d else 'point'


def num_case(d, tid):
    e = num_expected(tid, d)

    def ensures(c):
        r = []
        for (nm, v), o in zip(e, c.iout):
            if isinstance(v, tuple):
                r.append(true(nm, isinstance(o, int) and o >> 1 == v[1] >> 1 and 0 <= o))
            else:
                r.append(eq(nm, o, v))
        return r
    return Case('refelem<%d>/%s/numbering' % (d, tname(tid, d)), 'refelem', 're_num_%d' % d, iin=[tid], niout=len(e),
                ensures=ensures)


def acc_case(d, tid):
    n = 1 << d

    def ensures(c):
        o = c.iout
        simp, cube = int(tid >> 1 == 0), int(tid >> 1 == ((1 << d) - 1) >> 1)
        r = [eq('referenceElement<T,dim>(type)', o[0], 1), eq('referenceElement<T>(type,Dim)', o[1], 1),
             eq('referenceElement(T,type,Dim)', o[2], 1), eq('referenceElement(geometry)', o[3], 1)]
        # for dimension >= 1 two ids describe the same element
        if tid & 1 == 0 or not simp:
            r.append(true('simplex()', o[4] == simp))
        if tid & 1 or not cube or d == 0:
            r.append(true('cube()', not cube or d < 2 or o[5] == 1))
            r.append(true('cube() only for cubes', cube or o[5] == 0))
        r += [true('!= is the negation', o[6] == 1 - o[4]), eq('default element differs', o[7], 0), eq('assignment', o[8], 1),
              eq('number of elements', o[9], n)]
        r += [eq('element %d' % k, o[10 + k], int(k == tid)) for k in range(n)]
        return r
    return Case('refelem<%d>/%s/access' % (d, tname(tid, d)), 'refelem', 're_acc_%d' % d, iin=[tid], niout=10 + n,
                ensures=ensures)


def det(M):
    n = len(M)
    if n == 0:
        return Fraction(1)
    return sum(((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(n)), Fraction(0))


def volume(tid, d):
    v = Fraction(1)
    for k in range(1, d + 1):
        if not spec.is_prism(tid, k):
            v /= k
    return v


def unit(tid, d):
    """index of the corner e_k, for every k"""
    rc = spec.corners(tid, d)
    return [next(i for i, p in enumerate(rc) if all(p[m] == int(m == k) for m in range(d))) for k in range(d)]


def pos_case(d, tid):
    sizes = [len(entities(tid, d, c)) for c in range(d + 1)]
    nout = d * sum(sizes) + 1 + (d * sizes[1] if d else 0)

    def ensures(c):
        o = list(c.out)
        rc = spec.corners(tid, d)
        r = []
        k = 0
        for cd in range(d + 1):
            for i, (s, verts) in enumerate(entities(tid, d, cd)):
                p = o[k:k + d]
                k += d
                avg = [sum((Fraction(rc[v][m]) for v in verts), Fraction(0)) / len(verts) for m in range(d)]
                for m in range(d):
                    r.append(eq('position(%d,%d)[%d]' % (i, cd, m), p[m], avg[m]))
        r.append(eq('volume', o[k], volume(tid, d)))
        k += 1
        if d == 0:
            return r
        tot = [Fraction(0)] * d
        flux = Fraction(0)
        for f, (s, verts) in enumerate(entities(tid, d, 1)):
            n = o[k:k + d]
            k += d
            P = [[Fraction(x) for x in rc[v]] for v in verts]
            u = unit(s, d - 1)
            J = [[P[j][m] - P[0][m] for m in range(d)] for j in u]
            for a in range(1, len(P)):
                r.append(eq('normal %d orthogonal to the facet (%d)' % (f, a),
                            sum((n[m] * (P[a][m] - P[0][m]) for m in range(d)), Fraction(0)), 0))
            G = [[sum((x * y for x, y in zip(a, b)), Fraction(0)) for b in J] for a in J]
            r.append(eq('normal %d length' % f, sum((v * v for v in n), Fraction(0)), det(G)))
            ctr = [sum((Fraction(p[m]) for p in rc), Fraction(0)) / len(rc) for m in range(d)]
            r.append(true('normal %d outward' % f,
                          sum((n[m] * (P[0][m] - ctr[m]) for m in range(d)), Fraction(0)) > 0))
            w = volume(s, d - 1)
            for m in range(d):
                tot[m] += n[m] * w
            flux += w * sum((n[m] * P[0][m] for m in range(d)), Fraction(0))
        r += [eq('normals add up to zero [%d]' % m, tot[m], 0) for m in range(d)]
        r.append(eq('divergence theorem', flux, d * volume(tid, d)))
        return r
    return Case('refelem<%d>/%s/positions' % (d, tname(tid, d)), 'refelem', 're_pos_%d' % d, iin=[tid], nout=nout,
                ensures=ensures)


def emb_case(d, c_, tid):
    E = entities(tid, d, c_)
    nout = sum(d + d * len(v) + (d - c_) * d for _, v in E)

    def ensures(c):
        o, j = list(c.out), list(c.iout)
        rc = [[Fraction(x) for x in p] for p in spec.corners(tid, d)]
        r = []
        k = 0
        x = c.x
        for i, (s, verts) in enumerate(E):
            n = 'geometry<%d>(%d) ' % (c_, i)
            r += [eq(n + 'dimension', j[4 * i], d - c_),
                  true(n + 'type', isinstance(j[4 * i + 1], int) and j[4 * i + 1] >> 1 == s >> 1),
                  eq(n + 'corners', j[4 * i + 2], len(verts)), eq(n + 'affine', j[4 * i + 3], 1)]
            P = [rc[v] for v in verts]
            u = unit(s, d - c_)
            J = [[P[u[a]][m] - P[0][m] for m in range(d)] for a in range(d - c_)]
            for m in range(d):
                r.append(eq(n + 'global[%d]' % m, o[k + m], P[0][m] + sum((x[a] * J[a][m] for a in range(d - c_)), Fraction(0))))
            k += d
            for q, p in enumerate(P):
                for m in range(d):
                    r.append(eq(n + 'corner(%d)[%d]' % (q, m), o[k + m], p[m]))
                k += d
            for a in range(d - c_):
                for m in range(d):
                    r.append(eq(n + 'jacobianTransposed[%d][%d]' % (a, m), o[k + m], J[a][m]))
                k += d
        return r
    return Case('refelem<%d>/%s/embedding<%d>' % (d, tname(tid, d), c_), 'refelem', 're_emb_%d%d' % (d, c_), inputs=d - c_,
                iin=[tid, c_], nout=nout, niout=4 * len(E), ensures=ensures)


TOL = 64 * spec.EPS


def bounds(tid, d, x):
    """the element as inequalities g >= 0"""
    f = Fraction(1)
    g = []
    for k in range(d, 0, -1):
        g += [x[k - 1], f - x[k - 1]]
        if not spec.is_prism(tid, k):
            f = f - x[k - 1]
    return g


def in_case(d, tid):
    def ensures(c):
        g = bounds(tid, d, c.x)
        o = c.iout[0]
        if c.native:
            if o:
                return [true('accepted points are within the tolerance', all(v >= -2 * TOL for v in g))]
            return [true('no point of the closed element is rejected', any(v < 0 for v in g))]
        if o == 1:
            return [any_of('accepted points are within the tolerance (%d)' % k, [('ge', v, -2 * TOL)]) for k, v in enumerate(g)] \
                or [true('the point is accepted', True)]
        return [any_of('no point of the closed element is rejected', [('lt', v, Fraction(0)) for v in g])] if g else \
            [true('the point is accepted', False)]

    def pool():
        import itertools
        out = []
        base = [[float(v) for v in p] for p in spec.corners(tid, d)]
        base.append([sum(p[k] for p in base) / len(base) for k in range(d)])
        for a, b in itertools.combinations(range(len(base)), 2):
            base.append([(base[a][k] + base[b][k]) / 2 for k in range(d)])
        for p in base[:60]:
            out.append((p, [tid]))
            for k in range(d):
                for e in (1e-15, -1e-15, 1e-12, -1e-12, 1e-9, -1e-9, 1e-4, -1e-4, .3, -.3):
                    out.append((p[:k] + [p[k] + e] + p[k + 1:], [tid]))
        return out[:1500]
    return Case('refelem<%d>/%s/inside' % (d, tname(tid, d)), 'refelem', 're_in_%d' % d, inputs=d, iin=[tid], niout=1,
                ensures=ensures, replay_pool=pool)


# --- recursive kernels, by induction over the dimension -------------------------------
KDIM = 20
W = z3.BitVecSort(32)
SZ = z3.Function('size', W, W, W, W)
SUB = z3.Function('subTopologyId', W, W, W, W, W)
VOL = z3.Function('volumeInverse', W, W, z3.BitVecSort(64))


def b32(v):
    if not z3.is_expr(v):
        return z3.BitVecVal(v, 32)
    v = z3.simplify(v) if z3.is_bv_value(v) else v
    return v if v.size() == 32 else z3.ZeroExt(32 - v.size(), v) if v.size() < 32 else z3.Extract(31, 0, v)


def table(d, f, w=32):
    r = z3.BitVecVal(f(KDIM), w)
    for k in range(KDIM - 1, -1, -1):
        r = z3.If(d == k, z3.BitVecVal(f(k), w), r)
    return r


def fact(n):
    return 1 if n == 0 else n * fact(n - 1)


ONE = z3.BitVecVal(1, 32)


def base_of(t, d):
    return t & ((ONE << (d - 1)) - 1)


def prism_of(t, d):
    return z3.Or(d == 1, z3.LShR(t, d - 1) & 1 == 1)


def valid_args(t, d, c=None):
    r = [z3.ULE(d, KDIM), z3.ULT(t, ONE << d)]
    if c is not None:
        r.append(z3.ULE(c, d))
    return z3.And(r)


def sz_parts(t, d, c):
    """numbers of base entities of codimension c and c-1"""
    b = base_of(t, d)
    return z3.If(z3.ULT(c, d), SZ(b, d - 1, c), z3.BitVecVal(0, 32)), SZ(b, d - 1, c - 1)


def sz_def(t, d, c):
    n, m = sz_parts(t, d, c)
    return z3.If(c == 0, ONE, z3.If(prism_of(t, d), n + 2 * m, m + n + z3.If(c == d, ONE, z3.BitVecVal(0, 32))))


def sub_def(t, d, c, i):
    n, m = sz_parts(t, d, c)
    b = base_of(t, d)
    pr = z3.If(z3.ULT(i, n), SUB(b, d - 1, c, i) | (ONE << (d - c - 1)),
               SUB(b, d - 1, c - 1, z3.If(z3.ULT(i, n + m), i - n, i - n - m)))
    co = z3.If(z3.ULT(i, m), SUB(b, d - 1, c - 1, i), z3.If(z3.ULT(c, d), SUB(b, d - 1, c, i - m), z3.BitVecVal(0, 32)))
    return z3.If(c == 0, t, z3.If(prism_of(t, d), pr, co))


def vol_def(t, d):
    b = VOL(base_of(t, d), d - 1)
    return z3.If(d == 0, z3.BitVecVal(1, 64), z3.If(prism_of(t, d), b, b * z3.ZeroExt(32, d)))


def sz_bound(t, d, c):
    return z3.ULE(SZ(t, d, c), table(d, lambda k: 3 ** k))


def induct(which):
    """contracts of the recursive calls; the outermost call of the function under proof runs its body"""
    def setup(E):
        from dgv import engine, logic

        def need(S, pre, what):
            r = logic.bv_check(S.pc, [z3.Not(pre)])[0]
            if r == 'unknown':
                raise engine.EngineError('precondition of a recursive call undecided')
            if r == 'sat':
                S.fail('precondition of the recursive call of ' + what)

        def h_size(eng, S, a):
            t, d, c = (b32(v) for v in a[:3])
            need(S, valid_args(t, d, c), 'size')
            S.pc.assume(sz_bound(t, d, c))
            return SZ(t, d, c)

        def h_sub(eng, S, a):
            t, d, c, i = (b32(v) for v in a[:4])
            need(S, z3.And(valid_args(t, d, c), z3.ULT(i, SZ(t, d, c))), 'subTopologyId')
            return SUB(t, d, c, i)

        def h_vol(eng, S, a):
            t, d = (b32(v) for v in a[:2])
            need(S, valid_args(t, d), 'referenceVolumeInverse')
            S.pc.assume(z3.And(z3.ULE(VOL(t, d), table(d, fact, 64)), z3.UGE(VOL(t, d), 1)))
            return VOL(t, d)

        for nm, h in (('size', h_size), ('subTopologyId', h_sub), ('referenceVolumeInverse', h_vol)):
            hit = E.add_contract(r'^Dune::Geo::Impl::%s\(' % nm, h)
            if nm == which:
                if len(hit) != 1:
                    raise engine.EngineError('%s not found' % nm)

                def first(eng, S, a, h=h, name=hit[0]):
                    if not S.ghost.get('entered'):
                        S.ghost['entered'] = True
                        S.ghost['args'] = [b32(v) for v in a]
                        return engine.CallFn(name, a, None)
                    d0 = S.ghost['args'][1]
                    need(S, z3.ULT(b32(a[1]), d0), which + ' (the dimension decreases)')
                    return h(eng, S, a)
                E.hooks[hit[0]] = first
    return setup


def kernel_cases():
    def num(v):
        return v.as_long() if z3.is_expr(v) else int(v)

    def e_size(c):
        t, d, k = (b32(v) for v in c.iin)
        if c.native:
            return [true('size by the construction', c.iout[0] == len_entities(*[num(v) for v in c.iin]))]
        r = b32(c.iout[0])
        return [true('size by the construction', r == sz_def(t, d, k)), true('bound', z3.ULE(r, table(d, lambda j: 3 ** j))),
                true('positive', z3.Implies(z3.And([z3.UGE(x, 1) for x in recs(t, d, k)]), z3.UGE(r, 1)))]

    def recs(t, d, k):
        b = base_of(t, d)
        return [SZ(b, d - 1, k - 1)]

    def e_sub(c):
        t, d, k, i = (b32(v) for v in c.iin)
        if c.native:
            v = [num(v) for v in c.iin]
            if v[1] > 7:
                return []
            return [true('sub-topology by the construction', c.iout[0] == entities(v[0], v[1], v[2])[v[3]][0])]
        r = b32(c.iout[0])
        valid = z3.Implies(z3.And([z3.ULT(x, ONE << y) for x, y in ((SUB(base_of(t, d), d - 1, k, i), d - k - 1),
                                                                     (SUB(base_of(t, d), d - 1, k, i - sz_parts(t, d, k)[1]), d - k - 1),
                                                                     (SUB(base_of(t, d), d - 1, k - 1, i), d - k),
                                                                     (SUB(base_of(t, d), d - 1, k - 1, i - sz_parts(t, d, k)[0]), d - k),
                                                                     (SUB(base_of(t, d), d - 1, k - 1, i - sz_parts(t, d, k)[0] - sz_parts(t, d, k)[1]), d - k))]),
                           z3.ULT(r, ONE << (d - k)))
        return [true('sub-topology by the construction', r == sub_def(t, d, k, i)), true('id valid in its dimension', valid)]

    def e_vol(c):
        t, d = (b32(v) for v in c.iin)
        if c.native:
            v = [num(v) for v in c.iin]
            return [true('inverse volume by the construction', c.iout[0] == 1 / volume(*v))]
        r = c.iout[0] if z3.is_expr(c.iout[0]) else z3.BitVecVal(c.iout[0], 64)
        return [true('inverse volume by the construction', r == vol_def(t, d)),
                true('bound', z3.And(z3.ULE(r, table(d, fact, 64)), z3.UGE(r, 1)))]

    def sub_requires(x, i):
        if z3.is_bv_value(i[0]):
            v = [num(w) for w in i]
            return [z3.BoolVal(v[3] < len_entities(*v[:3]))]
        t, d, k = (b32(v) for v in i[:3])
        return [valid_args(t, d, k), z3.ULT(i[3], SZ(t, d, k)), SZ(t, d, k) == sz_def(t, d, k), sz_bound(t, d, k)]

    tid, dim, cod, idx = ('bv', 't', 32), ('bv', 'd', 32), ('bv', 'c', 32), ('bv', 'i', 32)
    return [
        Case('kernel/size', 'refkernel', 'rk_size', iin=[tid, dim, cod], niout=1, requires=lambda x, i: [valid_args(*i)],
             ensures=e_size, setup=induct('size'), selftest=False,
             replay_pool=lambda: [([], [t, d, c]) for d in range(6) for t in range(1 << d) for c in range(d + 1)]),
        Case('kernel/referenceVolumeInverse', 'refkernel', 'rk_vol', iin=[tid, dim], niout=1,
             requires=lambda x, i: [valid_args(*i)], ensures=e_vol, setup=induct('referenceVolumeInverse'), selftest=False,
             replay_pool=lambda: [([], [t & ((1 << d) - 1), d]) for d in range(KDIM + 1) for t in (0, -1, 0x5555, 0xcccc)]),
    ] + [
        Case('kernel/subTopologyId<%d,%d>' % (d, k), 'refkernel', 'rk_sub', iin=[tid, d, k, idx], niout=1,
             requires=sub_requires, ensures=e_sub, setup=induct('subTopologyId'), selftest=False,
             replay_pool=lambda d=d, k=k: [([], [t, d, k, i]) for t in range(1 << min(d, 6)) for i in range(min(20, len_entities(t, d, k)))][:400])
        for d in range(1, 13) for k in range(d + 1)
    ]


@lru_cache(None)
def len_entities(t, d, c):
    if c == 0:
        return 1
    b = t & ((1 << (d - 1)) - 1)
    n = len_entities(b, d - 1, c) if c < d else 0
    m = len_entities(b, d - 1, c - 1)
    return n + 2 * m if spec.is_prism(t, d) else m + n + (c == d)


def cases():
    out = kernel_cases()
    for d in range(MAXDIM + 1):
        for tid in topologies(d):
            out.append(num_case(d, tid))
            out.append(acc_case(d, tid))
            out.append(pos_case(d, tid))
            out.append(in_case(d, tid))
            for c in range(d + 1):
                out.append(emb_case(d, c, tid))
    return out
