"""Contracts of the geometry type value class, the type indices and the
vertex-count lookup (bit-vector domain)."""
import z3
from dgv.harness import Case, Driver, true

DRIVERS = [Driver('gtypes', 'gtypes')]
MAXDIM = 30


def B(v, w=64):
    """64-bit term of an input or output"""
    if z3.is_expr(v):
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return v if v.size() == w else z3.ZeroExt(w - v.size(), v)
    return z3.BitVecVal(int(v), w)


def ty(s):
    return [('bv', 'dim' + s, 8), ('bv', 'id' + s, 32), ('bv', 'none' + s, 1)]


def valid(d, i, maxdim=MAXDIM, none0=False):
    """a type: dim <= maxdim, id < 2^dim"""
    return [z3.ULE(d, maxdim), z3.ULT(B(i), z3.BitVecVal(1, 64) << B(d))]


def T(v):
    """the value of a type as (dim, id, none) terms"""
    return B(v[0]), B(v[1]), B(v[2])


def cls(v):
    """what a type denotes: 64-bit key; none types by dimension, others by dimension and shape (the lowest bit of the id
    is the base line/point choice).  The order of the keys is the order of the types."""
    d, i, n = T(v)
    return z3.If(n == 1, (z3.BitVecVal(1, 64) << 48) | (d << 36), (d << 36) | z3.LShR(i, 1))


def same(name, out, v):
    """out[0:3] denotes the type v exactly (field by field)"""
    return [true(name + ' dim', B(out[0]) == B(v[0])), true(name + ' id', B(out[1]) == B(v[1])),
            true(name + ' none', B(out[2]) == B(v[2]))]


def flag(name, o, cond):
    return true(name, B(o) == B(cond))


def shape(d, i, n, dim, sh):
    """regular type of dimension dim with shape bits sh (lowest bit ignored)"""
    return z3.And(n == 0, d == dim, (i | 1) == (sh | 1))


def cases():
    out = []
    two = ty('A') + ty('B')

    def req2(x, i):
        return valid(i[0], i[1]) + valid(i[3], i[4])

    def compare(c):
        a, b = cls(c.iin[0:3]), cls(c.iin[3:6])
        return [flag('equal iff same class', c.iout[0], a == b), flag('!= is the negation', c.iout[1], a != b),
                flag('less iff smaller class', c.iout[2], z3.ULT(a, b)),
                flag('greater iff larger class', c.iout[3], z3.ULT(b, a))]
    out.append(Case('type/compare', 'gtypes', 'gt_compare', iin=two, niout=4, requires=req2, ensures=compare))

    def ident(c):
        v = c.iin[0:3]
        r = same('construct', c.iout[0:3], v) + same('to Id and back', c.iout[3:6], v) + same('toId and back', c.iout[6:9], v)
        r.append(flag('round trip equal', c.iout[9], z3.BoolVal(True)))
        a, b = cls(v), cls(c.iin[3:6])
        r.append(flag('Id keeps the class', c.iout[10], a == b))
        r.append(true('different classes, different ids', z3.Implies(a != b, B(c.iout[11]) == 0)))
        r += same('assignment', c.iout[12:15], v)
        r += same('default', c.iout[15:18], (0, 0, 1))
        r += same('regular construct', c.iout[18:21], (v[0], v[1], 0))
        return r
    out.append(Case('type/identifier', 'gtypes', 'gt_id', iin=two, niout=21, requires=req2, ensures=ident))

    def req1(x, i):
        return valid(i[0], i[1])

    def shapes(c):
        d, i, n = T(c.iin[0:3])
        o = c.iout
        r = [flag('isVertex', o[0], d == 0), flag('isLine', o[1], d == 1)]
        for k, (nm, dim, sh) in enumerate((('isTriangle', 2, 0), ('isQuadrilateral', 2, 3), ('isTetrahedron', 3, 0),
                                           ('isPyramid', 3, 3), ('isPrism', 3, 5), ('isHexahedron', 3, 7))):
            r.append(flag(nm, o[2 + k], shape(d, i, n, dim, sh)))
        r.append(flag('isSimplex', o[8], z3.And(n == 0, z3.LShR(i, 1) == 0)))
        full = (z3.BitVecVal(1, 64) << d) - 1
        r.append(flag('isCube', o[9], z3.And(n == 0, z3.LShR(i, 1) == z3.LShR(full, 1))))
        r.append(flag('isNone', o[10], n == 1))
        return r
    out.append(Case('type/shapes', 'gtypes', 'gt_shape', iin=ty('A'), niout=11, requires=req1, ensures=shapes))

    def reqc(x, i):
        return valid(i[0], i[1]) + [i[0] != 0, z3.ULT(i[3], i[0])]

    def cone(c):
        d, i, n = T(c.iin[0:3])
        s = B(c.iin[3])
        o = c.iout

        def bit(k):
            return z3.LShR(i, k) & 1
        r = [flag('isConical', o[0], z3.And(n == 0, z3.Or(d == 1, bit(d - 1) == 0))),
             flag('isPrismatic', o[1], z3.And(n == 0, z3.Or(d == 1, bit(d - 1) == 1))),
             flag('isConical(step)', o[2], z3.And(n == 0, z3.Or(s == 0, bit(s) == 0))),
             flag('isPrismatic(step)', o[3], z3.And(n == 0, z3.Or(s == 0, bit(s) == 1)))]
        r += same('base', o[4:7], (d - 1, i & ((z3.BitVecVal(1, 64) << (d - 1)) - 1), n))
        return r
    out.append(Case('type/conical', 'gtypes', 'gt_cone', iin=ty('A') + [('bv', 'step', 8)], niout=7, requires=reqc, ensures=cone))

    def impl(c):
        d, i, _ = T(c.iin[0:3])
        k = B(c.iin[3])
        o = c.iout
        one = z3.BitVecVal(1, 64)

        def bit(j):
            return z3.LShR(i, j) & 1
        s = d - k - 1
        return [true('numTopologies', B(o[0]) == one << d),
                flag('Impl::isPyramid', o[1], z3.Or(s == 0, bit(s) == 0)), flag('Impl::isPrism', o[2], z3.Or(s == 0, bit(s) == 1)),
                true('baseTopologyId', B(o[3]) == i & ((one << (d - k)) - 1)),
                flag('Impl::isPyramid codim 0', o[4], z3.Or(d == 1, bit(d - 1) == 0)),
                flag('Impl::isPrism codim 0', o[5], z3.Or(d == 1, bit(d - 1) == 1)),
                true('baseTopologyId codim 1', B(o[6]) == i & ((one << (d - 1)) - 1))]
    out.append(Case('type/topology bits', 'gtypes', 'gt_impl', iin=ty('A') + [('bv', 'codim', 8)], niout=7, requires=reqc,
                    ensures=impl))

    def named(c):
        d = B(c.iin[0])
        o = c.iout
        full = (z3.BitVecVal(1, 64) << d) - 1

        def is_(name, k, dim, sh, none=0):
            v = o[3 * k:3 * k + 3]
            return [true(name + ' dim', B(v[0]) == dim), true(name + ' shape', B(v[1]) | 1 == sh | 1),
                    true(name + ' valid id', z3.ULT(B(v[1]), z3.BitVecVal(1, 64) << B(v[0]))), true(name + ' none', B(v[2]) == none)]
        r = is_('simplex', 0, d, z3.BitVecVal(0, 64)) + is_('cube', 1, d, full) + is_('none', 2, d, z3.BitVecVal(0, 64), 1)
        for k, (nm, dim, sh) in enumerate((('vertex', 0, 0), ('line', 1, 0), ('triangle', 2, 0), ('quadrilateral', 2, 3),
                                           ('tetrahedron', 3, 0), ('pyramid', 3, 3), ('prism', 3, 5), ('hexahedron', 3, 7))):
            r += is_(nm, 3 + k, dim, z3.BitVecVal(sh, 64))
        return r
    out.append(Case('type/named constructors', 'gtypes', 'gt_named', iin=[('bv', 'dim', 8)], niout=33,
                    requires=lambda x, i: [z3.ULE(i[0], MAXDIM)], ensures=named))

    def extend(c):
        d, i, n = T(c.iin[0:3])
        o = c.iout
        return same('conical extension', o[0:3], (d + 1, i, n)) + \
            same('prismatic extension', o[3:6], (d + 1, i | (z3.BitVecVal(1, 64) << d), n))
    out.append(Case('type/extensions', 'gtypes', 'gt_extend', iin=ty('A'), niout=6,
                    requires=lambda x, i: valid(i[0], i[1], MAXDIM - 1), ensures=extend))

    for dim in range(5):
        def disp(c, dim=dim):
            # the operation is instantiated for the type the bits describe (the lowest bit may be normalised for dim >= 1)
            return [true('dimension', B(c.iout[0]) == dim), true('shape', B(c.iout[1]) | 1 == B(c.iin[1]) | 1),
                    true('regular', B(c.iout[2]) == 0)]

        def reqd(x, i, dim=dim):
            return [i[0] == dim, i[2] == 0] + valid(i[0], i[1])
        out.append(Case('type/IfGeometryType<%d>' % dim, 'gtypes', 'gt_if', iin=ty('A') + [dim], niout=4, requires=reqd,
                        ensures=lambda c, disp=disp: disp(c) + [true('result passed on', B(c.iout[3]) == 17)]))
        out.append(Case('type/toGeometryTypeIdConstant<%d>' % dim, 'gtypes', 'gt_const', iin=ty('A') + [dim], niout=3,
                        requires=reqd, ensures=disp))

    # --- indices
    one = z3.BitVecVal(1, 64)

    def regular(d):
        """number of regular types of a dimension: 1, 1, 2, 4, 8, ..."""
        return z3.If(z3.ULE(d, 1), one, one << (d - 1))

    def offset(d):
        """regular types of smaller dimensions plus one none type each"""
        return z3.If(d == 0, z3.BitVecVal(0, 64), one << (d - 1)) + d

    def key(v):
        d, i, n = T(v)
        return z3.If(n == 1, regular(d), z3.LShR(i, 1))

    def local(c):
        v = c.iin[0:3]
        d, i, n = T(v)
        o = c.iout
        r = [true('local index', B(o[0]) == key(v)), true('local size', B(o[1]) == regular(d) + 1),
             true('local index below size', z3.ULT(B(o[0]), B(o[1]))),
             true('type(index) equal', cls(o[2:5]) == cls(v)),
             true('global index = offset + local index', B(o[5]) == B(o[6]) + B(o[0])),
             true('offset', B(o[6]) == offset(d)), true('global size', B(o[7]) == offset(d + 1)),
             true('global index below size', z3.ULT(B(o[5]), B(o[7]))),
             true('type(index) id valid', z3.ULT(B(o[3]), (one << B(o[2]))) if True else None)]
        return r
    # dimension 20: sizes fit the 32-bit shifts of the implementation
    out.append(Case('index/local and inverse', 'gtypes', 'ti_local', iin=ty('A'), niout=8,
                    requires=lambda x, i: valid(i[0], i[1], 20), ensures=local))

    def typ(c):
        d, k = B(c.iin[0]), B(c.iin[1])
        o = c.iout
        return [true('dimension', B(o[0]) == d), true('index(type(i)) = i', B(o[3]) == k),
                true('size', B(o[4]) == regular(d) + 1), true('none is the last', (B(o[2]) == 1) == (k == regular(d))),
                true('id of the shape', z3.Or(B(o[2]) == 1, B(o[1]) == k << 1))]
    out.append(Case('index/type', 'gtypes', 'ti_type', iin=[('bv', 'dim', 8), ('bv', 'idx', 32)], niout=5,
                    requires=lambda x, i: [z3.ULE(i[0], 20), z3.ULE(B(i[1]), regular(B(i[0])))], ensures=typ))

    def pair(c):
        a, b = c.iin[0:3], c.iin[3:6]
        o = c.iout
        D = B(c.iin[6])
        return [true('global index one-to-one', (B(o[0]) == B(o[1])) == (cls(a) == cls(b))),
                true('local index one-to-one', z3.Implies(B(a[0]) == B(b[0]), (B(o[2]) == B(o[3])) == (cls(a) == cls(b)))),
                true('lower dimension first', z3.Implies(z3.ULT(B(a[0]), B(b[0])), z3.ULT(B(o[0]), B(o[1])))),
                true('offset', B(o[4]) == offset(D)), true('size = next offset', B(o[5]) == offset(D + 1)),
                true('offsets add up', B(o[5]) == B(o[4]) + B(o[6]))]
    out.append(Case('index/pairs', 'gtypes', 'ti_pair', iin=two + [('bv', 'maxdim', 8)], niout=7,
                    requires=lambda x, i: valid(i[0], i[1], 20) + valid(i[3], i[4], 20) + [z3.ULE(i[6], 20)], ensures=pair))

    # --- vertex count
    def vc(c):
        d, n = B(c.iin[0]), B(c.iin[1])
        legal = z3.Or(z3.ULE(d, 1), z3.And(d == 2, z3.Or(n == 3, n == 4)),
                      z3.And(d == 3, z3.Or(n == 4, n == 5, n == 6, n == 8)))
        if c.ret == 1:
            return [true('error only for unsupported counts', z3.Not(legal))]
        o = [B(v) for v in c.iout]
        # number of vertices of a type: point 1, line 2, then prism doubles, cone adds one
        nv = z3.BitVecVal(1, 64)
        for k in range(3):
            nv = z3.If(z3.ULT(z3.BitVecVal(k, 64), o[0]),
                       z3.If(z3.Or(k == 0, z3.LShR(o[1], k) & 1 == 0), nv + (1 if k else 1), 2 * nv), nv)
        return [true('no error for unsupported counts', legal), true('dimension', o[0] == d), true('regular', o[2] == 0),
                true('valid id', z3.ULT(o[1], one << o[0])),
                true('number of vertices', z3.Or(nv == n, z3.ULE(d, 1)))]
    out.append(Case('vertexcount', 'gtypes', 'vc_type', iin=[('bv', 'dim', 32), ('bv', 'n', 32)], niout=3,
                    requires=lambda x, i: [], ensures=vc, allow_throw=True))
    return out
