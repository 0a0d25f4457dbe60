"""Exact linear algebra used in postconditions; works on Fractions and on
polynomials alike."""
from fractions import Fraction
from dgv import poly
from dgv.poly import Poly


def mat(v, m, n, off=0):
    return [[v[off + i * n + j] for j in range(n)] for i in range(m)]


def transpose(A):
    return [list(r) for r in zip(*A)]


def mul(A, B):
    n = len(B)
    return [[sum((A[i][k] * B[k][j] for k in range(n)), Fraction(0)) for j in range(len(B[0]))] for i in range(len(A))]


def mv(A, x):
    return [sum((a * b for a, b in zip(r, x)), Fraction(0)) for r in A]


def det(A):
    n = len(A)
    if n == 0:
        return Fraction(1)
    if n == 1:
        return A[0][0]
    r = Fraction(0)
    for j in range(n):
        M = [row[:j] + row[j + 1:] for row in A[1:]]
        c = A[0][j] * det(M)
        r = r + c if j % 2 == 0 else r - c
    return r


def minors(G):
    return [det([r[:k] for r in G[:k]]) for k in range(1, len(G) + 1)]


def gram(A):
    """A A^T"""
    return mul(A, transpose(A))


def adj(A):
    n = len(A)
    if n == 1:
        return [[Fraction(1)]]
    C = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(n):
            M = [r[:j] + r[j + 1:] for k, r in enumerate(A) if k != i]
            d = det(M)
            C[j][i] = d if (i + j) % 2 == 0 else -d
    return C


def right_inverse_num(A):
    """A^T (A A^T)^{-1} for numbers"""
    G = gram(A)
    d = det(G)
    if d == 0:
        raise ZeroDivisionError
    Ginv = [[x / d for x in r] for r in adj(G)]
    return mul(transpose(A), Ginv)


def sqrt_num(x):
    if isinstance(x, (int, Fraction)):
        f = Fraction(x)
        if f < 0:
            raise ZeroDivisionError
        a, b = poly.isqrt_exact(f.numerator), poly.isqrt_exact(f.denominator)
        if a is not None and b is not None:
            return Fraction(a, b)
        return float(f) ** 0.5
    if x < 0:
        raise ZeroDivisionError
    return x ** 0.5


def right_inverse(A, native):
    """the right pseudo-inverse as a function of A (n x m)"""
    m, n = len(A), len(A[0])
    if native:
        return right_inverse_num(A)
    flat = [x for r in A for x in r]

    def fn(v):
        return [x for r in right_inverse_num(mat(v, m, n)) for x in r]
    return mat(poly.uf('rinv%d%d' % (m, n), flat, n * m, fn), n, m)


def sqrt_gram(A, native):
    """sqrt(det(A A^T)) as a function of A"""
    m, n = len(A), len(A[0])
    if native:
        return Fraction(sqrt_num(det(gram(A))))
    flat = [x for r in A for x in r]

    def fn(v):
        return [sqrt_num(det(gram(mat(v, m, n))))]
    return poly.uf('sgram%d%d' % (m, n), flat, 1, fn)[0]
