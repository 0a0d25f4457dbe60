"""Contracts of Dune::Impl::FieldMatrixHelper (utility/defaultmatrixhelper.hh)."""
from fractions import Fraction
from dgv import poly
from dgv.engine import Ptr, EngineError
from dgv.harness import Case, Driver, eq, le, lt, true, any_of
from dgv.logic import Atom
from dgv.poly import Poly
from .linalg import *

DRIVER = Driver('matrix', 'matrix', keep=[r'FieldMatrixHelper<double>::spd(InvA|DetA|InvAx)<'])


def low(v, n, off=0):
    """symmetric matrix from a full n x n input of which only the lower part counts"""
    A = mat(v, n, n, off)
    return [[A[max(i, j)][min(i, j)] for j in range(n)] for i in range(n)]


def tri(v, n):
    """lower triangular matrix, row by row"""
    L = [[Fraction(0)] * n for _ in range(n)]
    k = 0
    for i in range(n):
        for j in range(i + 1):
            L[i][j] = v[k]
            k += 1
    return L


def lowpart(v, n):
    A = mat(v, n, n)
    return [[A[i][j] if j <= i else Fraction(0) for j in range(n)] for i in range(n)]


def meq(name, A, B):
    return [eq('%s[%d][%d]' % (name, i, j), A[i][j], B[i][j]) for i in range(len(A)) for j in range(len(A[0]))]


def veq(name, a, b):
    return [eq('%s[%d]' % (name, i), x, y) for i, (x, y) in enumerate(zip(a, b))]


def eye(n):
    return [[Fraction(int(i == j)) for j in range(n)] for i in range(n)]


RIGHT = ((1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3))


def proj(A, B):
    """B lies in the row space of A: B = A^T (B^T B)  [for a right inverse B of A, B = A^T (A A^T)^{-1}
    and (A A^T)^{-1} = B^T B]"""
    return B, mul(transpose(A), mul(transpose(B), B))


def rd(S, p, n):
    r = []
    for k in range(n):
        v = S.load(Ptr(p.o, p.off + 8 * k), 8)
        if type(v) is int:
            from dgv.engine import loader
            v = loader(('double',))(v)
        r.append(v)
    return r


def wr(S, p, vals):
    for k, v in enumerate(vals):
        v = poly.to_poly(v)
        S.store(Ptr(p.o, p.off + 8 * k), 8, v if not v.is_const() else Fraction(v.const_value()))


def fresh(name, arg=None):
    return Poly({(poly.new_symbol(name, 'real', 'free', arg).id,): 1})


def require(eng, S, atoms, what):
    """precondition of a callee at its call site: proved, or the path splits
    into a failing and a continuing one"""
    for op, p in atoms:
        p = poly.to_poly(p)
        from dgv.engine import mkatom
        a = mkatom(op, p)
        if not eng.decide(S, a):
            S.fail('precondition of %s' % what)


def symm(v, n):
    A = mat(v, n, n)
    return [[A[max(i, j)][min(i, j)] for j in range(n)] for i in range(n)]


def _size(eng, S, what):
    return int(what)


def h_spdInvA(n):
    def h(eng, S, args):
        G = symm(rd(S, args[0], n * n), n)
        ds = minors(G)
        require(eng, S, [('gt', d) for d in ds], 'spdInvA: positive definite')
        X = adj(G)
        iv = poly.inverse(poly.to_poly(ds[-1]))
        wr(S, args[0], [x * iv for r in X for x in r])
        return _num(poly.sqrt(ds[-1]))
    return h


def h_spdDetA(n):
    def h(eng, S, args):
        G = symm(rd(S, args[0], n * n), n)
        ds = minors(G)
        require(eng, S, [('gt', d) for d in ds], 'spdDetA: positive definite')
        return _num(poly.sqrt(ds[-1]))
    return h


def h_spdInvAx(n):
    def h(eng, S, args):
        G = symm(rd(S, args[0], n * n), n)
        x = rd(S, args[1], n)
        ds = minors(G)
        if args[2]:
            from dgv.engine import mkatom
            for d in ds:
                if not eng.decide(S, mkatom('gt', poly.to_poly(d))):
                    return 0
        else:
            require(eng, S, [('gt', d) for d in ds], 'spdInvAx: positive definite')
        iv = poly.inverse(poly.to_poly(ds[-1]))
        wr(S, args[1], [v * iv for v in mv(adj(G), x)])
        return 1
    return h


def _num(v):
    v = poly.to_poly(v)
    return Fraction(v.const_value()) if v.is_const() else v


HELPER = r'Dune::Impl::FieldMatrixHelper<double>::'
SPD = [HELPER + f for f in (r'spdInvA<\d>', r'spdDetA<\d>', r'spdInvAx<\d>')]


def install_spd(E):
    """contracts of the symmetric kernels (proved by the spd* cases)"""
    for n in (1, 2, 3):
        E.add_contract(HELPER + r'spdInvA<%d>' % n, h_spdInvA(n))
        E.add_contract(HELPER + r'spdDetA<%d>' % n, h_spdDetA(n))
        E.add_contract(HELPER + r'spdInvAx<%d>' % n, h_spdInvAx(n))


def cases():
    C = []

    def case(name, entry, nin, nout, ens, req=None, iin=(), niout=0, **kw):
        C.append(Case('matrix/' + name, 'matrix', entry, inputs=nin, iin=iin, nout=nout, niout=niout, requires=req,
                      ensures=ens, div='fork', **kw))

    for n in (1, 2, 3):
        nt = n * (n + 1) // 2

        def spd(x, i, n=n):
            return [('gt', d, 0) for d in minors(low(x, n))]

        def chol(c, n=n):
            L = tri(c.out, n)
            r = [true('returns true', c.iout[0] == 1)]
            r += [e for e in meq('L L^T = A', mul(L, transpose(L)), low(c.x, n))]
            r += [lt('L[%d][%d] > 0' % (i, i), 0, L[i][i]) for i in range(n)]
            return r
        case('cholesky_L<%d>' % n, 'cholesky_%d' % n, n * n, nt, chol, spd, iin=[0], niout=1)

        def cholc(c, n=n):
            ds = minors(low(c.x, n))
            if c.iout[0] == 0:
                return [any_of('false only for a matrix that is not positive definite', [('le', d, 0) for d in ds])]
            return [lt('true only for a positive definite matrix (minor %d)' % k, 0, d) for k, d in enumerate(ds)] + chol(c, n)
        case('cholesky_L<%d>(check)' % n, 'cholesky_%d' % n, n * n, nt, cholc, None, iin=[1], niout=1)

        def diag(x, i, n=n):
            return [('ne', x[k * n + k], 0) for k in range(n)]
        case('detL<%d>' % n, 'detL_%d' % n, n * n, 1, lambda c, n=n: [eq('det', c.out[0], det(lowpart(c.x, n)))])
        case('invL<%d>' % n, 'invL_%d' % n, n * n, nt + 1, lambda c, n=n, nt=nt:
             meq('L L^-1 = I', mul(lowpart(c.x, n), tri(c.out, n)), eye(n)) +
             [eq('det', c.out[nt], det(lowpart(c.x, n)))], diag)
        case('invLx<%d>' % n, 'invLx_%d' % n, n * n + n, n, lambda c, n=n:
             veq('L y = x', mv(lowpart(c.x, n), c.out), c.x[n * n:]), diag)
        case('invLTx<%d>' % n, 'invLTx_%d' % n, n * n + n, n, lambda c, n=n:
             veq('L^T y = x', mv(transpose(lowpart(c.x, n)), c.out), c.x[n * n:]), diag)
        case('Lx<%d>' % n, 'Lx_%d' % n, n * n + n, n, lambda c, n=n:
             veq('L x', c.out, mv(lowpart(c.x, n), c.x[n * n:])))
        case('LTx<%d>' % n, 'LTx_%d' % n, n * n + n, n, lambda c, n=n:
             veq('L^T x', c.out, mv(transpose(lowpart(c.x, n)), c.x[n * n:])))
        case('LTL<%d>' % n, 'LTL_%d' % n, n * n, n * n, lambda c, n=n:
             meq('L^T L', mat(c.out, n, n), mul(transpose(lowpart(c.x, n)), lowpart(c.x, n))))
        case('LLT<%d>' % n, 'LLT_%d' % n, n * n, n * n, lambda c, n=n:
             meq('L L^T', mat(c.out, n, n), mul(lowpart(c.x, n), transpose(lowpart(c.x, n)))))
        case('spdDetA<%d>' % n, 'spdDetA_%d' % n, n * n, 1, lambda c, n=n:
             [eq('square is det A', c.out[0] * c.out[0], det(low(c.x, n))), lt('positive', 0, c.out[0])], spd)
        case('spdInvA<%d>' % n, 'spdInvA_%d' % n, n * n, n * n + 1, lambda c, n=n:
             meq('A A^-1 = I', mul(low(c.x, n), mat(c.out, n, n)), eye(n)) +
             [eq('square is det A', c.out[n * n] * c.out[n * n], det(low(c.x, n))), lt('positive', 0, c.out[n * n])], spd)
        case('spdInvAx<%d>' % n, 'spdInvAx_%d' % n, n * n + n, n, lambda c, n=n:
             [true('returns true', c.iout[0] == 1)] + veq('A y = x', mv(low(c.x, n), c.out), c.x[n * n:]), spd,
             iin=[0], niout=1)

    for m in (1, 2, 3):
        for n in (1, 2, 3):
            t = '%d%d' % (m, n)

            def lowlist(A):
                return [A[i][j] for i in range(len(A)) for j in range(i + 1)]

            def ata(x, m=m, n=n):
                A = mat(x, m, n)
                return mul(transpose(A), A)

            def aat(x, m=m, n=n):
                return gram(mat(x, m, n))
            case('ATA_L<%d,%d>' % (m, n), 'ATA_L_' + t, m * n, n * (n + 1) // 2, lambda c, f=ata: veq('A^T A', c.out, lowlist(f(c.x))))
            case('AAT_L<%d,%d>' % (m, n), 'AAT_L_' + t, m * n, m * (m + 1) // 2, lambda c, f=aat: veq('A A^T', c.out, lowlist(f(c.x))))
            case('ATA<%d,%d>' % (m, n), 'ATA_' + t, m * n, n * n, lambda c, f=ata, n=n: meq('A^T A', mat(c.out, n, n), f(c.x)))
            case('AAT<%d,%d>' % (m, n), 'AAT_' + t, m * n, m * m, lambda c, f=aat, m=m: meq('A A^T', mat(c.out, m, m), f(c.x)))
            case('Ax<%d,%d>' % (m, n), 'Ax_' + t, m * n + n, m, lambda c, m=m, n=n: veq('A x', c.out, mv(mat(c.x, m, n), c.x[m * n:])))
            case('ATx<%d,%d>' % (m, n), 'ATx_' + t, m * n + m, n,
                 lambda c, m=m, n=n: veq('A^T x', c.out, mv(transpose(mat(c.x, m, n)), c.x[m * n:])))

            def det_ata(c, f=ata, ok=(m >= n)):
                if not ok:
                    return [eq('zero', c.out[0], 0)]
                return [eq('square is det(A^T A)', c.out[0] * c.out[0], det(f(c.x))), lt('positive', 0, c.out[0])]

            def det_aat(c, f=aat, ok=(n >= m), m=m, n=n):
                if not ok:
                    return [eq('zero', c.out[0], 0)]
                return [eq('square is det(A A^T)', c.out[0] * c.out[0], det(f(c.x))), le('non-negative', 0, c.out[0])]
            case('detATA<%d,%d>' % (m, n), 'detATA_' + t, m * n, 1, det_ata,
                 (lambda x, i, f=ata: [('gt', d, 0) for d in minors(f(x))]) if m >= n else None, setup=install_spd)
            # the closed forms hold without any rank condition
            free = (m, n) in ((2, 2), (3, 3), (2, 3)) or m > n
            case('sqrtDetAAT<%d,%d>' % (m, n), 'sqrtDetAAT_' + t, m * n, 1, det_aat,
                 None if free else (lambda x, i, f=aat: [('gt', d, 0) for d in minors(f(x))]), setup=install_spd)
            for p in (1, 2, 3):
                case('AB<%d,%d,%d>' % (m, n, p), 'AB_%s%d' % (t, p), m * n + n * p, m * p, lambda c, m=m, n=n, p=p:
                     meq('A B', mat(c.out, m, p), mul(mat(c.x, m, n), mat(c.x, n, p, m * n))))
                case('ATBT<%d,%d,%d>' % (m, n, p), 'ATBT_%s%d' % (t, p), m * n + p * m, n * p, lambda c, m=m, n=n, p=p:
                     meq('A^T B^T', mat(c.out, n, p), mul(transpose(mat(c.x, m, n)), transpose(mat(c.x, p, m, m * n)))))
    for m, n in RIGHT:
        t, u = '%d%d' % (m, n), '%d%d' % (n, m)

        def full(x, i, m=m, n=n):
            A = mat(x, m, n)
            return [('gt', d, 0) for d in minors(gram(A))] + ([('ne', det(A), 0)] if m == n else [])

        def fullT(x, i, m=m, n=n):
            A = transpose(mat(x, n, m))
            return [('gt', d, 0) for d in minors(gram(A))] + ([('ne', det(A), 0)] if m == n else [])

        def right(c, m=m, n=n):
            A, B = mat(c.x, m, n), mat(c.out, n, m)
            d = c.out[n * m]
            return (meq('A B = I', mul(A, B), eye(m)) + meq('A^T (A A^T) ... B = A^T Z', *proj(A, B)) +
                    [eq('square is det(A A^T)', d * d, det(gram(A))), lt('positive', 0, d)])

        def left(c, m=m, n=n):
            A, B = mat(c.x, n, m), mat(c.out, m, n)
            d = c.out[n * m]
            At, Bt = transpose(A), transpose(B)
            return (meq('B A = I', mul(B, A), eye(m)) + meq('range of B^T in range of A', *proj(At, Bt)) +
                    [eq('square is det(A^T A)', d * d, det(gram(At))), lt('positive', 0, d)])
        case('rightInvA<%d,%d>' % (m, n), 'rightInvA_' + t, m * n, m * n + 1, right, full, setup=install_spd)
        case('leftInvA<%d,%d>' % (n, m), 'leftInvA_' + u, m * n, m * n + 1, left, fullT, setup=install_spd)

        def rsolve(c, m=m, n=n):
            A = mat(c.x, m, n)
            x = c.x[m * n:]
            ds = minors(gram(A))
            if c.iout[0] == 0:
                return [any_of('false only for a rank-deficient matrix', [('le', d, 0) for d in ds])]
            # normal equations: A A^T y = A x
            return [lt('true only for full rank (minor %d)' % k, 0, d) for k, d in enumerate(ds)] + \
                veq('A A^T y = A x', mv(gram(A), c.out), mv(A, x))

        def lsolve(c, m=m, n=n):
            A = transpose(mat(c.x, n, m))
            x = c.x[m * n:]
            ds = minors(gram(A))
            if c.iout[0] == 0:
                return [any_of('false only for a rank-deficient matrix', [('le', d, 0) for d in ds])]
            return [lt('true only for full rank (minor %d)' % k, 0, d) for k, d in enumerate(ds)] + \
                veq('A^T A y = A^T x', mv(gram(A), c.out), mv(A, x))
        case('xTRightInvA<%d,%d>' % (m, n), 'xTRightInvA_' + t, m * n + n, m, rsolve, None, niout=1, setup=install_spd)
        case('leftInvAx<%d,%d>' % (n, m), 'leftInvAx_' + u, m * n + n, m, lsolve, None, niout=1, setup=install_spd)
    return C
