"""Gauss-Newton iteration (C16)."""
import z3
from fractions import Fraction
from dgv import engine, invariant, poly
from dgv.engine import Ptr, mkatom
from dgv.harness import Case, Driver, true, le, lt, eq
from .matrix import rd, wr, HELPER

DRIVERS = [Driver('newton', 'newton', keep=[r'FieldMatrixHelper<double>::(xTRightInvA)<', r'Dune::Impl::gaussNewton<',
                                            r'^gn_(f|df)$'])]
OK, JNI, STAG, TOL = range(4)


def F(x, n):
    """values of the arbitrary function"""
    return poly.uf('f%d%d' % (len(x), n), x, n, lambda v, n=n: [sum(v) * (k + 1) + k for k in range(n)])


def res(x, y):
    """norm of the residual"""
    s = 0
    for a, b in zip(F(x, len(y)), y):
        s = s + (a - b) * (a - b)
    return poly.sqrt(poly.to_poly(s))


def install(E):
    def f(eng, S, a):
        m, n = a[2], a[3]
        wr(S, a[1], F(rd(S, a[0], m), n))

    def df(eng, S, a):
        m, n = a[2], a[3]
        wr(S, a[1], poly.uf('df%d%d' % (m, n), rd(S, a[0], m), m * n, lambda v: [1] * (m * n)))

    E.add_contract(r'^gn_f$', f)
    E.add_contract(r'^gn_df$', df)
    any_direction(E)


def any_direction(E):
    def solve(eng, S, a):
        # any direction, or the matrix is reported as not of full rank
        m = S.ghost['gn_m']
        k = S.ghost.get('gn_calls', 0)
        ok = eng.decide(S, z3.Bool('invertible_%d' % k))
        S.ghost['gn_calls'] = k + 1
        S.ghost['gn_last'] = bool(ok)
        if ok:
            wr(S, a[2], [poly.var('dx_%d_%d' % (k, len(poly.SYMS))) for k in range(m)])
        return 1 if ok else 0
    E.add_contract(HELPER + r'xTRightInvA<', solve)
    E.abstracted = True


def templates(m, x0, y, res=res):
    def t(E, S, fr, blk, locs, get):
        out = []
        R0 = res(x0, y)
        mem = [l for l in locs if l[0] == 'm']
        tup = [l for l in mem if all(('m', l[1], l[2] + 8 * k) in mem for k in range(m))]
        # other real values in registers
        regs = []
        phis = {s for s, inc, t_ in blk.phis}
        for s, v in enumerate(fr.R):
            if s not in phis and isinstance(v, (poly.Poly,)) and not any(v is w for _, w in regs):
                if v.sort_real() if hasattr(v, 'sort_real') else True:
                    regs.append((s, v))
        for i, X in enumerate(tup):
            for Y in tup[:i]:
                for k in range(m):
                    out.append(('same', 'set', ('m', X[1], X[2] + 8 * k), lambda g, Y=Y, k=k: g(('m', Y[1], Y[2] + 8 * k))))
        scal = [l for l in locs if l[0] == 'r'] + [l for l in mem]
        for a in scal:
            for X in tup:
                if a[0] == 'm' and a[1] == X[1]:
                    continue
                out.append(('norm', 'set', a, lambda g, X=X: res([g(('m', X[1], X[2] + 8 * k)) for k in range(m)], y)))
        sc = [l for l in locs if l[0] == 'r']
        for a in sc:
            for b in sc:
                if a is not b:
                    out.append(('ge', 'ge', lambda g, a=a, b=b: g(a) - g(b)))
            for s, v in regs:
                if any(poly.SYMS[i].kind == 'sqrt' for i in v.symbols()):
                    out.append(('ge reg', 'ge', lambda g, a=a, v=v: g(a) - v))
            out.append(('not above the start', 'ge', lambda g, a=a: R0 - g(a)))
        for X in tup:
            out.append(('residual not above the start', 'ge',
                        lambda g, X=X: R0 - res([g(('m', X[1], X[2] + 8 * k)) for k in range(m)], y)))
        return out
    return t


def the_value(pc, v):
    """the only value the integer v can have under the path condition"""
    if type(v) is int:
        return v
    sol = z3.Solver()
    sol.add(*pc.bv)
    if sol.check() != z3.sat:
        return 0
    k = sol.model().eval(v, model_completion=True)
    sol.add(v != k)
    return k.as_signed_long() if sol.check() == z3.unsat else None


def newton_case(m, n):
    def ens(c):
        x0, y, tol = c.x[:m], c.x[m:m + n], c.x[m + n]
        st = c.iout[0]
        out = c.out
        if c.native:
            co = c.x[m + n + 2:]

            def N2(x):
                s = Fraction(0)
                for k in range(n):
                    q = co[k * (m + 2):(k + 1) * (m + 2)]
                    v = q[0] + sum(q[1 + j] * x[j] + q[m + 1] * x[j] * x[j] for j in range(m))
                    s += (v - y[k]) ** 2
                return s
            st = int(st)
            a, b = N2([Fraction(v) for v in out]), N2(x0)
            t = tol * tol if tol > 0 else Fraction(-1)
            r = [true('a known status is returned', st in (0, 1, 2, 3)),
                 true('the residual does not grow', a <= b * (1 + Fraction(1, 10 ** 9)) + Fraction(1, 10 ** 24))]
            if st == OK:
                r.append(true('success means a residual below the tolerance', a < t * (1 + Fraction(1, 10 ** 6))))
            if st in (TOL, STAG):
                r.append(true('no success means a residual not below the tolerance', a >= t * (1 - Fraction(1, 10 ** 6))))
            return r
        st = the_value(c.state.pc, st)
        a, b = res(out, y), res(x0, y)
        r = [true('a known status is returned', st in (0, 1, 2, 3)), le('the residual does not grow', a, b)]
        if st == OK:
            r.append(lt('success means a residual below the tolerance', a, tol))
        elif st in (TOL, STAG):
            r.append(le('no success means a residual not below the tolerance', tol, a))
        else:
            r.append(true('a singular derivative is reported only if the solver found one', c.state.ghost.get('gn_last') is False))
        if st != JNI:
            r.append(true('a singular derivative is reported', c.state.ghost.get('gn_last') is not False))
        return r

    def setup(E):
        install(E)
        E.initial.ghost['gn_m'] = m

    nc = n * (m + 2)
    ni = m + n + 2 + nc

    def pool():
        out = []
        for it, inner in ((0, 10), (1, 10), (100, 0), (100, 10), (1, 1), (2, 2), (100, 3), (-1, 10)):
            for tol in (1e-8, 1.0, 100.0):
                for c0, c1, c2 in ((0, 1, 0), (1, 0, 1), (0, 2, 1), (0, 1, -0.25), (3, 0.5, 0.1)):
                    for st in (0.0, 0.5, 3.0):
                        co = []
                        for k in range(n):
                            co += [c0] + [c1 if j == k % m else 0.1 for j in range(m)] + [c2]
                        for exact in (False, True):
                            y = [1.0 + k for k in range(n)]
                            if exact:
                                y = [co[k * (m + 2)] + sum(co[k * (m + 2) + 1 + j] * st + co[k * (m + 2) + m + 1] * st * st
                                                           for j in range(m)) for k in range(n)]
                            out.append(([st] * m + y + [tol, 0.5] + [float(v) for v in co], [it, inner]))
        return out[::7]
    c = Case('gaussNewton<%d,%d>' % (m, n), 'newton', 'gn_%d%d' % (m, n), inputs=ni, iin=[('bv', 'maxIt', 32), ('bv', 'maxInnerIt', 32)],
             nout=m, niout=1, setup=setup, ensures=ens, loops=r'::gaussNewton<', replay_pool=pool, div='fork')
    c.invariants = lambda x: invariant.Houdini(templates(m, x[:m], x[m:m + n]))
    return c


def cases():
    return [newton_case(m, n) for m in (1, 2, 3) for n in range(m, 4)]
