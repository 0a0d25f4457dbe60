"""Specification functions: shapes, shape functions and their derivatives,
written from the definition of the reference elements (prism / cone
construction), independent of the code under proof.  They work on Fractions
and polynomials."""
from fractions import Fraction
from dgv import poly
from dgv.poly import Poly

EPS = Fraction(1, 2 ** 52)


def inv(a):
    if isinstance(a, Poly):
        return poly.inverse(a)
    return 1 / Fraction(a)


class Dual:
    """value with first derivatives"""
    __slots__ = ('v', 'd')

    def __init__(self, v, d):
        self.v = v
        self.d = d

    @staticmethod
    def of(x, n):
        return x if isinstance(x, Dual) else Dual(x, [Fraction(0)] * n)

    def __add__(self, o):
        o = Dual.of(o, len(self.d))
        return Dual(self.v + o.v, [a + b for a, b in zip(self.d, o.d)])
    __radd__ = __add__

    def __neg__(self):
        return Dual(-self.v, [-a for a in self.d])

    def __sub__(self, o):
        return self + (-Dual.of(o, len(self.d)))

    def __rsub__(self, o):
        return Dual.of(o, len(self.d)) - self

    def __mul__(self, o):
        o = Dual.of(o, len(self.d))
        return Dual(self.v * o.v, [a * o.v + self.v * b for a, b in zip(self.d, o.d)])
    __rmul__ = __mul__

    def inverse(self):
        i = inv(self.v)
        return Dual(i, [-(a * i * i) for a in self.d])


def inverse(a):
    return a.inverse() if isinstance(a, Dual) else inv(a)


def is_prism(tid, d):
    """is the construction step from dimension d-1 to d a prism?  (the step
    to dimension 1 is the same either way)"""
    return d == 1 or (tid >> (d - 1)) & 1 == 1


def ncorners(tid, d):
    if d == 0:
        return 1
    n = ncorners(tid, d - 1)
    return 2 * n if is_prism(tid, d) else n + 1


def shape(tid, d, x):
    """shape functions at x"""
    if d == 0:
        return [Fraction(1)]
    z = x[d - 1]
    if is_prism(tid, d):
        b = shape(tid, d - 1, x)
        return [(1 - z) * v for v in b] + [z * v for v in b]
    if is_simplex(tid, d):
        # barycentric coordinates (polynomial form of the general formula)
        s = Fraction(1)
        for i in range(d):
            s = s - x[i]
        return [s] + [x[i] for i in range(d)]
    i = inverse(1 - z)
    b = shape(tid, d - 1, [v * i for v in x[:d - 1]])
    return [(1 - z) * v for v in b] + [z]


def is_simplex(tid, d):
    return (tid & ~1) % (1 << d) == 0


def corners(tid, d):
    """reference corners"""
    if d == 0:
        return [[]]
    b = corners(tid, d - 1)
    r = [c + [Fraction(0)] for c in b]
    if is_prism(tid, d):
        r += [c + [Fraction(1)] for c in b]
    else:
        r.append([Fraction(0)] * (d - 1) + [Fraction(1)])
    return r


def volume(tid, d):
    v = Fraction(1)
    for k in range(1, d + 1):
        if not is_prism(tid, k):
            v /= k
    return v


def center(tid, d):
    c = corners(tid, d)
    return [sum((p[i] for p in c), Fraction(0)) / len(c) for i in range(d)]


def interpolate(tid, d, x, C):
    """sum of shape functions times corner coordinates"""
    N = shape(tid, d, x)
    n = len(C[0])
    r = []
    for j in range(n):
        s = N[0] * C[0][j]
        for k in range(1, len(N)):
            s = s + N[k] * C[k][j]
        r.append(s)
    return r


def jacobian_transposed(tid, d, x, C):
    """rows: derivatives of the map, by automatic differentiation"""
    xs = [Dual(x[i], [Fraction(int(i == k)) for k in range(d)]) for i in range(d)]
    y = interpolate(tid, d, xs, C)
    return [[(Dual.of(v, d)).d[i] for v in y] for i in range(d)]


def cone_gaps(tid, d, x):
    """for every cone step the quantity 1 - z (scaled) that the map divides by"""
    out = []
    f = Fraction(1)
    for k in range(d, 0, -1):
        if not is_prism(tid, k):
            g = 1 - x[k - 1] * f
            out.append(g)
            if k > 1:
                f = f * inv(g)
    return out
