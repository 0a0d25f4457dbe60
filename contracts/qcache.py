"""The cache of quadrature rules (C19): every request from every state that
satisfies the invariant of the cache.

Invariant: the cache is unconstructed, or has one entry per family, each unset
or a vector with one entry per type, each unset or a vector with one entry per
order, each unset or the rule of the factory for that request.  A request is
executed from each state of the entries on its own path; all other entries are
replaced by arbitrary values first.  When the code looks at or changes any of
them, or leaves its own entries in another form, no proof is generated."""
import re
import z3
from dgv import engine, harness
from dgv.engine import CallFn, EngineError, Ptr
from dgv.harness import Case, Driver, StateMismatch, true
from .gtypes import B
from .quadrature import FAMILY, TABLE, max_order, spec_type

KEEP = [r'Dune::QuadratureRuleFactory<double, \d>::rule\(', r'^qc_']
DRIVERS = [Driver('qcache', 'qcache', keep=KEEP, optional='requests from every state of the cache of quadrature rules')]
TYPES = {0: 2, 1: 2, 2: 3, 3: 5}


def word(S, o, off, n=8):
    v = S.load(Ptr(o, off), n)
    return 0 if isinstance(v, Ptr) and v.o == 0 else v


def vector(S, o, off, size, what):
    """(object, number of entries) of the vector at this place"""
    a, b = word(S, o, off), word(S, o, off + 8)
    if type(a) is int and a == 0 and type(b) is int and b == 0:
        return None, 0
    if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.o == b.o and a.off == 0 and type(b.off) is int and b.off % size == 0):
        raise StateMismatch('cache of quadrature rules: %s' % what)
    return a.o, b.off // size


class Cache:
    """the cache in the memory of one run"""

    def __init__(self, d, level):
        self.d, self.level, self.lay, self.opaque, self.done = d, level, [], [], False

    def root(self, eng, S):
        g = [k for n, k in eng.gobj.items() if re.search(r'^_ZZ.*QuadratureRulesIdLi%dEE5_ruleE.*15quadratureCache$' % self.d, n)]
        if len(g) != 1:
            raise StateMismatch('no cache of quadrature rules found')
        return g[0]

    def path(self, eng, S):
        """the entries on the path of the request: [(object, offset, flag, entries)]"""
        o, n = vector(S, self.root(eng, S), 0, self.lay[0][0], 'families')
        out = []
        for k in range(3):
            size, i, second = self.lay[k]
            if o is None:
                break
            if type(i) is not int or i >= n:
                out.append((o, None, 0, n))
                break
            f = word(S, o, i * size, 4)
            out.append((o, i * size, f, n))
            if k == 2 or f != 2:
                break
            o, n = vector(S, o, i * size + second, self.lay[k + 1][0], 'level %d' % (k + 1))
        return out

    def arbitrary(self, eng, S, a):
        self.lay.append((a[1], a[2], a[3]))
        if a[0] != 2:
            return None
        p = self.path(eng, S)
        state = len(p) if p and p[-1][2] != 2 else len(p) + 1 if p else 0
        if self.level == 3 and p and p[-1][1] is None:
            state = 3
        if state != self.level:
            raise StateMismatch('cache of quadrature rules: requests lead to state %d instead of %d' % (state, self.level))
        for k, (o, keep, f, n) in enumerate(p):
            size, i, second = self.lay[k]
            w = S.wobj(o)
            for j in range(n):
                if j * size == keep:
                    continue
                cells = [(j * size, 4)] + [(j * size + m, 8) for m in range(second, size, 8)]
                for off, nb in cells:
                    S.store(Ptr(o, off), nb, z3.BitVec('other_%d_%d' % (o, off), 8 * nb) if nb == 4 else Ptr(('other', o, off), 0))
                    self.opaque.append((o, off, nb))
        return None

    def stored(self, eng, S, a):
        p = self.path(eng, S)
        for o, off, nb in self.opaque:
            v = S.load(Ptr(o, off), nb)
            if not (v == Ptr(('other', o, off), 0) if nb == 8 else z3.is_expr(v) and v.eq(z3.BitVec('other_%d_%d' % (o, off), 32))):
                raise StateMismatch('cache of quadrature rules: another entry is changed')
        answered = not (type(a[0]) is int or a[0].o == 0)
        sizes = [7, TYPES[self.d], 1 if self.d == 0 else a[1] + 1]
        # the entries on the path are set, the vectors complete, other entries of new vectors unset
        if len(p) != 3 or [e[3] for e in p] != sizes or any(e[2] != 2 for e in p[:3 if answered else 2]):
            raise StateMismatch('cache of quadrature rules: entries of the request')
        if answered and a[0] != Ptr(p[2][0], p[2][1] + self.lay[2][2]):
            raise StateMismatch('cache of quadrature rules: the answer is not the entry')
        known = {(o, off) for o, off, nb in self.opaque}
        for k, (o, keep, f, n) in enumerate(p):
            size, i, second = self.lay[k]
            for j in range(n):
                if j * size == keep or (o, j * size) in known:
                    continue
                at = j * size + second + (8 if k == 2 else 0)       # a rule starts with its table of virtual functions
                if word(S, o, j * size, 4) != 0 or (word(S, o, at), word(S, o, at + 8)) != (0, 0):
                    raise StateMismatch('cache of quadrature rules: a new entry is not empty')
        self.done = True
        return None


def before(d, t, p, q, level):
    """requests that lead to the state of the entries on the path of (t, p, q): 0 nothing constructed, 1 the family unset,
    2 the type unset, 3 the order unset, 4 all set"""
    if level == 0:
        return []
    if level == 1:
        return [(t, 0, (q + 1) % 7)]
    if level == 2:
        return [(-1, 0, q)] if d < 2 else [(t ^ (1 << (d - 1)), 0, q)]
    if level == 3:
        return [(t, -1, q)]
    return [(t, p, q)]


def ens(d, t, p, q, cache):
    def f(c):
        st, same, again, order, tid, mx = c.iout[:6]
        r = []
        if cache is not None and not c.native:
            # found when the run came to its end: another form of the cache raises StateMismatch
            if not cache[0].done:
                raise StateMismatch('cache of quadrature rules: no final state')
            r = [true('all other entries of the cache are untouched', cache[0].done),
                 true('the cache satisfies its invariant again', cache[0].done)]
        if p is None or d > 0 and (p < 0 or p > mx):
            return r + [true('rejected as out of range', st == 1)]
        r.append(true('answered', st == 0))
        if st == 0:
            r += [true('the rule of the factory', same == 1), true('the same request gives the same object', again == 1),
                  true('at least the requested order', harness.to_s64(int(order)) >= (p if d else 0)),
                  true('the requested type', spec_type(tid, d) == spec_type(t, d))]
        return r
    return f


def run(d, t, q, level, top):
    def factory(E):
        E.add_contract(r'^Dune::QuadratureRuleFactory<double, %d>::rule\(' % d, lambda eng, S, a: CallFn('some_%d' % d, list(a)))
        E.abstracted = True

    def one(case, drv, rep, p, iin, requires=None):
        box = []

        def setup(E):
            cache = Cache(d, level)
            box[:] = [cache]
            E.add_contract(r'^qc_arbitrary', cache.arbitrary)
            E.add_contract(r'^qc_stored', cache.stored)
            factory(E)
        vc = Case(case.id + '/%s' % ('out of range' if p is None else p), 'qcache', 'qc_%d' % d, iin=iin, niout=6, requires=requires,
                  ensures=ens(d, t, p, q, box), setup=setup, selftest=False)
        try:
            harness._run_case(vc, drv, rep)
            return None
        except (EngineError, StateMismatch, AttributeError) as e:
            # no proof; the requests made to get there (bounded)
            if p is None or p in (0, 1, 2, 5, top - 1, top):
                vc.setup, vc.ensures = factory, ens(d, t, p, q, None)
                try:
                    harness._run_case(vc, drv, rep)
                except (EngineError, AttributeError):
                    if p in (top - 1, top):
                        return str(e)
                    # with the real rules
                    vc.setup = None
                    harness._run_case(vc, drv, rep)
            return str(e)

    def runner(case, drv, rep):
        bad = []
        for p in [0] if d == 0 else range(top + 1):
            h = before(d, t, p, q, level)
            bad.append(one(case, drv, rep, p, [t, p, q, len(h)] + [v & (1 << 64) - 1 for r in h for v in r]))
        if d > 0 and level < 4:
            h = before(d, t, 0, q, level)
            bad.append(one(case, drv, rep, None, [t, ('bv', 'p', 32), q, len(h)] + [v & (1 << 64) - 1 for r in h for v in r],
                requires=lambda x, iin: [z3.Or(iin[1] < 0, iin[1] > top)]))
        bad = [b for b in bad if b]
        if bad and not rep.failed:
            raise StateMismatch('%d of the requests: %s' % (len(bad), bad[0]))
    return runner


def cases():
    out = []
    for d in range(4):
        for t in range(1 << d):
            for q in range(7):
                top = max(max_order(t, d, q), TABLE.get((d, t & ~1), 0), 2 if (d, t | 1) == (3, 5) else 0)
                for level in range(5):
                    if d == 0 and level == 3:
                        continue
                    out.append(Case('cache<%d>/%d/%s/state%d' % (d, t, FAMILY[q], level), 'qcache', 'qc_%d' % d,
                                    runner=run(d, t, q, level, top)))
    return out
