"""Contracts of the matrix kernels as seen by the geometries: the result is a
function of the matrix (right inverse, square root of the Gram determinant,
full rank or not).  The kernels themselves are proved in contracts/matrix.py;
here a call is replaced by its contract."""
from fractions import Fraction
from dgv import poly
from dgv.engine import Ptr, mkatom
from .linalg import *
from .matrix import rd, wr, HELPER, _num

KEEP = [r'FieldMatrixHelper<double>::(rightInvA|leftInvA|sqrtDetAAT|xTRightInvA|leftInvAx|detATA)<']


def rank(A, native=False):
    """positive iff A has full row rank (smallest leading minor of A A^T)"""
    m, n = len(A), len(A[0])

    def fn(v):
        return [min(minors(gram(mat(v, m, n))))]
    flat = [x for r in A for x in r]
    if native:
        return fn(flat)[0]
    if all(not isinstance(x, poly.Poly) or x.is_const() for x in flat):
        return fn([Fraction(poly.to_poly(x).const_value()) for x in flat])[0]
    return poly.uf('rank%d%d' % (m, n), flat, 1, fn)[0]


def note_rank(eng, S, A, where):
    """callee precondition: full rank"""
    r = poly.to_poly(rank(A))
    a = mkatom('gt', r)
    if type(a) is int:
        if not a:
            S.fail('precondition of %s: full rank' % where)
        return
    if S.pc.known(a):
        return
    if eng.rank_policy == 'oblige':
        if not eng.decide(S, a):
            S.fail('precondition of %s: full rank' % where)
        return
    eng.implicit.add('full rank of the matrix passed to %s (the property quantifies over full-rank Jacobians)' % where)
    S.pc.assume(a)


def install(E):
    E.implicit = set()
    E.rank_policy = 'assume'
    for m in (1, 2, 3):
        for n in range(m, 4):
            E.add_contract(HELPER + r'rightInvA<%d, %d>' % (m, n), h_right(m, n))
            E.add_contract(HELPER + r'xTRightInvA<%d, %d>' % (m, n), h_xt(m, n))
            E.add_contract(HELPER + r'leftInvA<%d, %d>' % (n, m), h_left(n, m))
            E.add_contract(HELPER + r'leftInvAx<%d, %d>' % (n, m), h_lx(n, m))
            E.add_contract(HELPER + r'sqrtDetAAT<%d, %d>' % (m, n), h_det(m, n))


def h_right(m, n):
    def h(eng, S, args):
        A = mat(rd(S, args[0], m * n), m, n)
        note_rank(eng, S, A, 'rightInvA')
        B = right_inverse(A, False)
        wr(S, args[1], [x for r in B for x in r])
        return _num(sqrt_gram(A, False))
    return h


def h_left(n, m):
    """n x m matrix with n >= m; the left inverse is the transposed right inverse of the transposed"""
    def h(eng, S, args):
        A = transpose(mat(rd(S, args[0], m * n), n, m))
        note_rank(eng, S, A, 'leftInvA')
        B = transpose(right_inverse(A, False))
        wr(S, args[1], [x for r in B for x in r])
        return _num(sqrt_gram(A, False))
    return h


def h_det(m, n):
    def h(eng, S, args):
        A = mat(rd(S, args[0], m * n), m, n)
        if (m, n) not in ((2, 2), (3, 3), (2, 3)):
            note_rank(eng, S, A, 'sqrtDetAAT')
        return _num(sqrt_gram(A, False))
    return h


def _solve(eng, S, A, x, y):
    a = mkatom('gt', poly.to_poly(rank(A)))
    log = S.ghost.setdefault('solves', [])
    if type(a) is int:
        ok = a
    else:
        ok = eng.decide(S, a)
    if not ok:
        log.append((A, x, None))
        return 0
    r = mv(transpose(right_inverse(A, False)), x)
    wr(S, y, r)
    log.append((A, x, r))
    return 1


def h_xt(m, n):
    def h(eng, S, args):
        A = mat(rd(S, args[0], m * n), m, n)
        return _solve(eng, S, A, rd(S, args[1], n), args[2])
    return h


def h_lx(n, m):
    def h(eng, S, args):
        A = transpose(mat(rd(S, args[0], m * n), n, m))
        return _solve(eng, S, A, rd(S, args[1], n), args[2])
    return h
