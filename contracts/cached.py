"""C10: a caching geometry answers every query as the uncached one does, after
any history of queries, copies and assignments.  Decided by closure: every
operation is proved from every reachable state of the object."""
from fractions import Fraction
from dgv import poly, engine, logic, harness
from dgv.closure import canon, project, factkey
from dgv.engine import Ptr, EngineError, mkatom
from dgv.harness import Case, eq, true
from dgv.poly import Poly
from .linalg import *
from .matrix import meq, veq
from . import spec, matuf, geometry
from .geometry import (GLOBAL, JT, J, JINVT, JINV, IE, VOLUME, AFFINE, CENTER, CORNERS, LOCAL, REF, QNAME, MAX, nin, nouts,
                       base_clauses, newton, deviations)
COPY, ASSIGN = 100, 101
OPS = list(range(12)) + [COPY, ASSIGN]
DRIVERS = geometry.DRIVERS[:1]
DIMS = ((1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3))


def opname(q):
    return {COPY: 'copy', ASSIGN: 'assign'}.get(q) or QNAME[q]


def edge_corners(tid, m):
    rc = spec.corners(tid, m)
    return [rc.index([Fraction(int(d == e)) for e in range(m)]) for d in range(m)]


def clauses(c, q, m, n, tid, affine, C, X):
    """postconditions of one operation on a geometry with corners C"""
    if q in (COPY, ASSIGN):
        return [true('done', True)]
    nc = len(C)
    if c.native:
        # far from the tolerance of the affinity test
        affine = all(v == 0 for k, d in deviations(C, tid, m, n) for v in d)
    if affine:
        A = [[C[k][j] - C[0][j] for j in range(n)] for k in edge_corners(tid, m)]
        F = lambda x: [C[0][j] + sum((x[d] * A[d][j] for d in range(m)), Fraction(0)) for j in range(n)]
        DF = lambda x: A
    else:
        F = lambda x: spec.interpolate(tid, m, x, C)
        DF = lambda x: spec.jacobian_transposed(tid, m, x, C)
    if q == AFFINE:
        return [true('affine', c.iout[0] == int(affine))]
    if c.native and q in (JINVT, JINV, LOCAL):
        A0 = [[float(v) for v in r] for r in DF(X if q != LOCAL else spec.center(tid, m))]
        r = min(minors(gram(A0)))
        if q != LOCAL and r < 1e-9:
            return []
        if q == LOCAL and affine and r < 1e-9:
            if all(v == 0 for row in A for v in row):
                return [true('failure marker for a singular derivative', all(v == MAX for v in c.out))]
            return []
    if q == LOCAL:
        if affine:
            y = [X[j] - C[0][j] for j in range(n)]
            if c.native:
                return veq('local', c.out, mv(transpose(right_inverse(A, True)), y))
            a = mkatom('gt', poly.to_poly(matuf.rank(A)))
            k = bool(a) if type(a) is int else c.state.pc.known(a)
            if k is None:
                return [true('a singular derivative is noticed', False)]
            if not k:
                return [true('failure marker for a singular derivative', all(v == MAX for v in c.out))]
            return veq('local', c.out, mv(transpose(right_inverse(A, False)), y))
        if c.native:
            r = newton(tid, m, n, C, X)
            if isinstance(r, str):
                return []
            return veq('local', c.out, [Fraction(v) for v in r])
        return veq('local', c.out, poly.uf(base_name(m, n, tid), X, m, lambda v: [None] * m))
    return base_clauses(q, m, n, c, X, F, DF, tid, spec.volume(tid, m), C)


def base_name(m, n, tid):
    return 'base_local_%d%d_%d' % (m, n, tid)


def h_base_local(m, n, tid):
    """MultiLinearGeometry::local (proved in C09): a function of the corners and of the point"""
    def h(eng, S, args):
        sret = len(args) == 3
        this, y = args[1:] if sret else args
        if this != S.ghost.get('handle'):
            S.fail('base local called on another object')
        r = poly.uf(base_name(m, n, tid), [engine_val(S.load(Ptr(y.o, y.off + 8 * j), 8)) for j in range(n)], m,
                    lambda v: [None] * m)
        eng.abstracted = True
        if sret:
            for i, v in enumerate(r):
                S.store(args[0].add(8 * i) if hasattr(args[0], 'add') else Ptr(args[0].o, args[0].off + 8 * i), 8, v)
            return None
        return r[0] if m == 1 else tuple(r)
    return h


def engine_val(v):
    return engine.loader(('double',))(v) if type(v) is int else v


class State:
    __slots__ = ('S', 'handle', 'hist')


def closure_case(m, n, tid, affine, cons):
    nc = spec.ncorners(tid, m)
    rc = spec.corners(tid, m)

    def corners():
        C = [[poly.var('c%d_%d' % (i, j)) for j in range(n)] for i in range(nc)]
        if affine:
            idx = edge_corners(tid, m)
            C = [[C[0][j] + sum((p[d] * (C[k][j] - C[0][j]) for d, k in enumerate(idx)), Fraction(0)) for j in range(n)]
                 for p in rc]
        return C

    def runner(case, drv, rep):
        E = harness.make_engine(case, drv)
        S = E.initial
        matuf.install(E)
        E.add_contract(r'Dune::MultiLinearGeometry<double, %d, %d, .*>::local\(' % (m, n), h_base_local(m, n, tid))
        for _, g in drv.mod.ctors:
            r = E.run(S, g, [])
            if len(r) != 1:
                raise EngineError('global constructor forks')
            S = r[0]
            S.ret = None
        C = corners()
        xs = [v for p in C for v in p]
        keep = set()
        for v in xs:
            if isinstance(v, Poly):
                keep |= set(v.symbols())

        def call(S, entry, x, iin, nout, niout, handle=None):
            io = S.new_obj(max(8, 8 * len(x)), 'in')
            for i, v in enumerate(x):
                S.mem[io].cells[8 * i] = (8, engine._fl(v) if isinstance(v, Poly) else Fraction(v))
            ii = S.new_obj(8 * len(iin), 'iin')
            for i, v in enumerate(iin):
                S.mem[ii].cells[8 * i] = (8, v)
            oo = S.new_obj(max(8, 8 * nout), 'out')
            jo = S.new_obj(max(8, 8 * niout), 'iout')
            return E.run(S, entry, [Ptr(io, 0), Ptr(ii, 0), Ptr(oo, 0), Ptr(jo, 0)], 400), oo, jo

        fin, oo, jo = call(S, 'cnew_%d%d' % (m, n), xs, [tid, nc, cons], 0, 1)
        todo, seen = [], {}
        nstates = 0

        def add(T, handle, hist):
            T = T.fork()
            # what is known about the points of earlier operations does not concern the object
            T.pc = project(T.pc, keep)
            T.ghost = {'handle': handle}
            T.ret = None
            key = (canon(T, handle), factkey(T.pc))
            if key in seen:
                return
            seen[key] = hist
            todo.append((T, handle, hist))

        for T in fin:
            if isinstance(T.ret, tuple):
                raise EngineError('construction fails: %s' % (T.ret,))
            add(T, T.load(Ptr(jo, 0), 8), [])
        while todo:
            S0, h, hist = todo.pop(0)
            nstates += 1
            if nstates > 40:
                raise EngineError('no closure of the object states')
            if not affine and not is_general(E, S0, h, call):
                # the object is affine up to rounding only: the documented approximation of C07
                continue
            for q in OPS:
                S1 = S0.fork()
                S1.ghost = {'handle': h}
                ex = nin(q, m, n) if q < 100 else 0
                X = [poly.var('p%d_%d' % (len(hist), i)) for i in range(ex)]
                no, nio = nouts(q, m, n, nc) if q < 100 else (0, 0)
                if not affine and q < 6:
                    # apex planes excluded as in C07
                    for g in spec.cone_gaps(tid, m, X):
                        a = harness.toatom('gt', g * g, geometry.TOL * geometry.TOL)
                        if type(a) is not int:
                            S1.pc.assume(a)
                    if S1.pc.facts:
                        S1.pc.find_witness()
                fin, oo, jo = call(S1, 'cq_%d%d' % (m, n), X, [h, q], no, nio + 1)
                allx = xs + [v for _, pts in hist for v in pts] + X
                iin = [tid, nc, cons, len(hist) + 1] + [o for o, _ in hist] + [q]

                def ensures(c, q=q, hist=hist, ex=ex):
                    Cn = mat(c.x, nc, n)
                    c.iout = c.iout[1:]
                    return clauses(c, q, m, n, tid, affine, Cn, c.x[len(c.x) - ex:])

                name = '%s/%s' % (case.id, '.'.join(opname(o) for o, _ in hist + [(q, None)]))
                vc = Case(name, case.driver, 'chist_%d%d' % (m, n), iin=iin, nout=no, niout=nio + 1, ensures=ensures,
                          setup=matuf.install, div='fork', replay_pool=lambda q=q, hist=hist, ex=ex, iin=iin: pool(q, hist, ex, iin))
                for T in fin:
                    rep.paths += 1
                    harness.check_path(vc, drv, E, T, allx, iin, oo, jo, rep)
                    if isinstance(T.ret, tuple):
                        continue
                    h2 = T.load(Ptr(jo, 0), 8)
                    if not isinstance(h2, Ptr):
                        raise EngineError('no object after %s' % opname(q))
                    add(T, h2, hist + [(q, X)])
        rep.cuts = ['object states: %d' % len(seen)]
        dm = E.demangle()
        rep.functions = sorted(dm.get(f, f) for f in E.called)
        rep.contracts_used = sorted(dm.get(f, f) for f in E.hooked)
        rep.assumptions |= set(getattr(E, 'implicit', ()))
        if rep.feasible == 0:
            raise EngineError('vacuous: no feasible path')
        if len(seen) < 2 and affine:
            raise EngineError('only one object state found')

    def pool(q, hist, ex, iin):
        import random
        R = random.Random(5)
        out = []
        for t in range(30):
            if affine:
                o = [R.randint(-4, 4) / 4 for _ in range(n)]
                A = [[R.randint(-4, 4) / 4 for _ in range(n)] for _ in range(m)]
                if t % 10 == 9:
                    A = [[0.] * n for _ in range(m)]
                Cn = [[o[j] + sum(float(p[d]) * A[d][j] for d in range(m)) for j in range(n)] for p in rc]
            else:
                Cn = [[(float(p[j]) if j < m else 0.) + R.randint(-3, 3) / 16 for j in range(n)] for p in rc]
            x = [v for p in Cn for v in p]
            for o_, pts in list(hist) + [(q, [0] * ex)]:
                if o_ == LOCAL and not affine:
                    w = [R.randint(1, 8) / (8. * m) for _ in range(m)]
                    x += [float(v) for v in spec.interpolate(tid, m, w, Cn)]
                else:
                    x += [R.randint(1, 7) / 32. for _ in pts]
            out.append((x, iin))
        return out

    def is_general(E, S0, h, call):
        fin, oo, jo = call(S0.fork(), 'cq_%d%d' % (m, n), [], [h, AFFINE], 0, 2)
        if len(fin) != 1:
            raise EngineError('affine() forks')
        return fin[0].load(Ptr(jo, 8), 8) == 0

    return Case('cached<%d,%d>/%s/%s%s' % (m, n, bin(tid)[2:].zfill(m), 'affine' if affine else 'general',
                                           '/element' if cons else ''), 'multilinear', '', runner=runner, div='fork')


def cases(tier='quick'):
    out = []
    for m, n in DIMS:
        for tid in range(1 << m):
            for affine in (True, False):
                if not affine and spec.is_simplex(tid, m):
                    continue
                for cons in (0, 1) if affine else (0,):
                    out.append(closure_case(m, n, tid, affine, cons))
    return out
