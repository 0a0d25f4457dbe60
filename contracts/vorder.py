"""Vertex order information (C25) and topology factories (C26)."""
import itertools
import z3
from dgv import poly, engine
from dgv.engine import Ptr, NULL
from dgv.harness import Case, Driver, true, eq
from . import spec
from .gtypes import B
from .refelem import entities, numbers

DRIVERS = [Driver('vorder', 'vorder', keep=[r'std::map<int, std::array<std::unique_ptr<.*>::operator\[\]\('])]


def cnt(name, o, vals, v, less):
    """o is the number of vals less than v"""
    s = z3.BitVecVal(0, 64)
    for w in vals:
        s = s + z3.If(less(w, v), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    return true(name, B(o) == s)


def reduce_cases():
    out = []
    for n in range(1, 9):
        ids = [('bv', 'v%d' % i, 64) for i in range(n)]
        for e, less in (('vo_reduce', lambda a, b: a < b), ('vo_reduce_unsigned', z3.ULT)):
            def ens(c, n=n, less=less):
                v = [B(x) for x in c.iin[1:]]
                return [cnt('rank of id %d' % i, c.iout[i], v, v[i], less) for i in range(n)]
            out.append(Case('reduceOrder/%s/%d' % ('signed' if e == 'vo_reduce' else 'unsigned', n), 'vorder', e,
                            iin=[n] + ids, niout=n, ensures=ens))
        if n <= 3:
            def ens(c, n=n):
                r = []
                for i in range(n):
                    if c.native:
                        r.append(true('rank of id %d' % i, c.iout[i] == sum(x < c.x[i] for x in c.x)))
                    else:
                        k = 0
                        for x in c.x:
                            if x is c.x[i]:
                                continue
                            kn = c.state.pc.known(engine.mkatom('lt', x - c.x[i]))
                            if kn is None:
                                k = None
                                break
                            k += int(kn)
                        r.append(true('rank of id %d' % i, k is not None and c.iout[i] == k))
                return r
            out.append(Case('reduceOrder/double/%d' % n, 'vorder', 'vo_reduce_double', inputs=n, iin=[n], niout=n, ensures=ens))
    return out


def lemma_order():
    """counting smaller ids keeps the order of the ids (for any number of ids: the smaller ids of the smaller id are among
    those of the larger one, which counts the smaller id too)"""
    def runner(case, drv, rep):
        a, b, c = (z3.BitVec(s, 64) for s in 'abc')
        for less in (lambda x, y: x < y, z3.ULT):
            # strict monotonicity: {k: k < a} is a proper subset of {k: k < b} for a < b
            for g in (z3.Implies(z3.And(less(a, b), less(c, a)), less(c, b)), z3.Not(less(a, a)),
                      z3.Or(less(a, b), less(b, a), a == b)):
                s = z3.Solver()
                s.add(z3.Not(g))
                if s.check() != z3.unsat:
                    raise ValueError('lemma fails')
                rep.ok('z3')
        rep.paths = 1
    return Case('lemma/ranks keep the order', 'vorder', '', runner=runner)


def c_int(v):
    return v - (1 << 64) if isinstance(v, int) and v >> 63 == 1 else v


def order_case(m, tid, codim, sub, verts):
    nc = spec.ncorners(tid, m)
    ids = [('bv', 'v%d' % i, 64) for i in range(nc)]
    n = len(verts)

    def ens(c):
        v = [B(x) for x in c.iin[4:]]
        o = list(c.iout)
        if c.native and (o[2] != n or o[3] != n or o[4 + n] != n):
            return [true('number of vertices', False)]
        r = [true('type', o[0] == tid and o[1] == m), true('number of vertices', o[2] == n and o[3] == n and o[4 + n] == n)]
        less = lambda a, b: a < b
        rk = o[4:4 + n]
        for k in range(n):
            r.append(cnt('rank of vertex %d' % k, rk[k], v, v[verts[k]], less))
            r.append(cnt('reduced order of vertex %d' % k, o[5 + n + k], [B(x) for x in rk], B(rk[k]), z3.ULT))
            for j, nm in enumerate(('begin[]', 'end[]', '*(begin + k)', 'retreated end')):
                r.append(true('random access to vertex %d, %s' % (k, nm), B(o[5 + (2 + j) * n + k]) == B(rk[k])))
            r.append(true('vertex %d, backwards' % k, B(o[5 + 7 * n - 1 - k]) == B(rk[k])))
        r.append(true('distance and order of the ends', c_int(o[5 + 7 * n]) == -n and o[6 + 7 * n] == int(n > 0)))
        return r
    return Case('order<%d>/%s/codim %d/%d' % (m, bin(tid)[2:].zfill(m), codim, sub), 'vorder', 'vo_%d' % m,
                iin=[tid, codim, sub, nc] + ids, niout=7 + 7 * n, ensures=ens)


def order_cases():
    out = []
    for m in (1, 2, 3):
        for tid in range(1 << m):
            for codim in range(m + 1):
                for sub in range(len(entities(tid, m, codim))):
                    out.append(order_case(m, tid, codim, sub, numbers(tid, m, codim, sub, m)))
    return out


STATIC = ('', '/static', '/static by class')


# --- topology factories ---------------------------------------------------------------
def factory_cases():
    out = []
    for d in range(4):
        for tid in range(1 << d):
            for st in (0, 1, 2):
                def ens(c, d=d, tid=tid):
                    return [true('made for topology %d' % tid, equal(c.iout[0], tid, d)), true('dimension', c.iout[1] == d),
                            true('key', sext(c.iout[2]) == sext(c.iin[1]))]
                out.append(Case('factory<%d>/%d%s' % (d, tid, STATIC[st]), 'vorder', 'tf_%d' % d,
                                iin=[tid, ('bv', 'key', 32), st], niout=3, ensures=ens))
    return out


def equal(a, b, d):
    """ids of equal types"""
    return type(a) is int and (a | 1) == (b | 1) if d else a == b


def sext(v):
    """32-bit value of a key"""
    if z3.is_expr(v):
        return v if v.size() == 32 else z3.Extract(31, 0, v)
    return z3.BitVecVal(int(v) & 0xffffffff, 32)


def requests(c, d):
    n = c.iin[0]
    return [(c.iin[1 + 3 * k], sext(c.iin[2 + 3 * k]), c.iin[3 + 3 * k]) for k in range(n)]


def hist_clauses(c, d):
    r = []
    rq = requests(c, d)
    for k, (t, key, s) in enumerate(rq):
        o = c.iout[4 * k:4 * k + 4]
        r += [true('request %d: made for the topology' % k, equal(o[0], t, d)), true('request %d: dimension' % k, o[1] == d),
              true('request %d: key' % k, sext(o[2]) == key)]
        for j in range(k):
            e = B(o[3]) == B(c.iout[4 * j + 3])
            if rq[j][0] == t:
                r.append(true('requests %d and %d: same object for the same topology and key' % (j, k), z3.Implies(rq[j][1] == key, e)))
                r.append(true('requests %d and %d: distinct keys' % (j, k), z3.Implies(rq[j][1] != key, z3.Not(e))))
            elif not equal(rq[j][0], t, d):
                r.append(true('requests %d and %d: distinct topologies' % (j, k), z3.Not(e)))
    return r


def hist_case(d, ts, st):
    n = len(ts)
    iin = [n]
    for k, (t, s) in enumerate(zip(ts, st)):
        iin += [t, ('bv', 'key%d' % k, 32), s]
    return Case('singleton<%d>/requests %s' % (d, ','.join('%d%s' % (t, STATIC[s]) for t, s in zip(ts, st))), 'vorder', 'ts_%d' % d,
                iin=iin, niout=4 * n, ensures=lambda c: hist_clauses(c, d), selftest='sub',
                bounded='histories of %d requests from the initial state (any keys)' % n)


def step_case(d, tid, present, st):
    """one request from an arbitrary state of the storage"""
    size = 8 << d

    def setup(E):
        def h(eng, S, args):
            m, k = args
            key = sext(S.load(k, 4))
            if 'array' in S.ghost:
                S.fail('storage looked up twice')
            if not z3.is_true(z3.simplify(key == z3.BitVec('key', 32))):
                S.fail('storage looked up with another key')
            a = S.new_obj(size, 'array', 'heap')
            slots = []
            for i in range(1 << d):
                if i == tid and not present:
                    S.mem[a].cells[8 * i] = (8, 0)
                    slots.append(0)
                    continue
                o = S.new_obj(24, 'object%d' % i, 'heap')
                for q, v in enumerate((i, d, z3.SignExt(32, z3.BitVec('key', 32)))):
                    S.mem[o].cells[8 * q] = (8, v)
                S.mem[a].cells[8 * i] = (8, Ptr(o, 0))
                slots.append(Ptr(o, 0))
            S.ghost['array'] = (a, slots)
            return Ptr(a, 0)
        E.add_contract(r'std::map<int, std::array<std::unique_ptr<.*>::operator\[\]\(', h)
        E.abstracted = True

    def ens(c):
        if c.native:
            return hist_clauses(c, d)
        S = c.state
        r = hist_clauses(c, d)
        if 'array' not in S.ghost:
            r.append(true('storage consulted', True))
            return r
        a, slots = S.ghost['array']
        for i in range(1 << d):
            v = S.load(Ptr(a, 8 * i), 8)
            if i != tid:
                r.append(true('slot of topology %d unchanged' % i, v == slots[i]))
                continue
            if present:
                r.append(true('stored object kept', v == slots[i]))
            r.append(true('object stored', isinstance(v, Ptr) and S.obj(v.o).alive))
            if isinstance(v, Ptr):
                r += [true('stored object: topology', equal(S.load(v, 8), tid, d)),
                      true('stored object: dimension', S.load(Ptr(v.o, 8), 8) == d),
                      true('stored object: key', sext(S.load(Ptr(v.o, 16), 8)) == sext(c.iin[2]))]
        return r

    def pool():
        out = []
        for n in (1, 2, 3):
            for ts in itertools.product(range(1 << d), repeat=n):
                for keys in ((0,) * n, tuple(range(n))):
                    out.append(([], [n] + [v for t, k in zip(ts, keys) for v in (t, k, st)]))
        # long sequences first: they contain the short ones
        return out[::-1][:60]
    return Case('singleton<%d>/any state, topology %d%s%s' % (d, tid, ' present' if present else '', STATIC[st]),
                'vorder', 'ts_%d' % d, iin=[1, tid, ('bv', 'key', 32), st], niout=4, setup=setup, ensures=ens, replay_pool=pool)


def singleton_cases():
    out = []
    for d in range(4):
        T = range(1 << d)
        for a in T:
            for st in (0, 1, 2):
                out += [step_case(d, a, p, st) for p in (0, 1)]
            out.append(hist_case(d, (a, a, a), (0, 1, 2)))
            out.append(hist_case(d, (a, a, a), (2, 0, 1)))
            b = (a + 1) % (1 << d)
            if b != a:
                out.append(hist_case(d, (a, b, a), (0, 0, 0)))
    return out


def cases(tier='quick'):
    return reduce_cases() + [lemma_order()] + order_cases() + factory_cases() + singleton_cases()
