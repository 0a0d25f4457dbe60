"""Loop invariants by elimination: candidate relations between the values a cut
loop assigns are dropped until the remaining ones hold on entry and are
preserved by every path through the body."""
import z3
from . import engine, logic, poly
from .engine import Ptr


class Unknown(Exception):
    pass


def bits(v, w):
    if type(v) is int:
        return z3.BitVecVal(v, w)
    if z3.is_bv(v):
        return v
    raise Unknown()


def boolean(v):
    if type(v) is int:
        return z3.BoolVal(bool(v & 1))
    if z3.is_bool(v):
        return v
    if z3.is_bv(v):
        return v == 1
    raise Unknown()


class Houdini:
    """hook for Engine.loop_inv; templates(S, fr, blk, locs, get) -> candidates

    A candidate is (name, kind, f): f(get) gives the polynomial p of the
    relation, kind 'eq' (p == 0) or 'ge' (p >= 0); (name, 'set', loc, f): the
    location has the value f(get); or (name, 'bv', f): f(registers) is a
    condition on integers (added for every loop: order between a counter and the
    other integers, constant flags)."""

    def __init__(self, templates, timeout=5):
        self.templates = templates
        self.timeout = timeout
        self.c = {}
        self.dropped = False
        self.checked = 0

    def locs(self, E, key, blk):
        out = [('r', s) for s, inc, t in blk.phis if t[0] == 'double']
        for (o, off, size), kinds in sorted(E.cut_writes.get(key, {}).items(), key=repr):
            if size == 8 and kinds <= {'f', 'z'} and 'f' in kinds:
                out.append(('m', o, off))
        return out

    @staticmethod
    def integers(fr, blk):
        out = []
        ph = [(s, t) for s, inc, t in blk.phis if t[0] == 'i']
        phs = {s for s, inc, t in blk.phis}
        for s, t in ph:
            w = t[1]
            if w == 1:
                out.append(('flag', 'bv', lambda R, s=s: boolean(R[s]), (s, 1)))
                out.append(('no flag', 'bv', lambda R, s=s: z3.Not(boolean(R[s])), (s, 0)))
                continue
            out.append(('not negative', 'bv', lambda R, s=s, w=w: bits(R[s], w) >= 0))
            for r, v in enumerate(fr.R):
                if r not in phs and z3.is_bv(v) and v.size() == w:
                    out.append(('less', 'bv', lambda R, s=s, v=v, w=w: bits(R[s], w) < v))
                    out.append(('not above', 'bv', lambda R, s=s, v=v, w=w: bits(R[s], w) <= v))
        return out

    @staticmethod
    def value(S, fr, loc):
        if loc[0] == 'r':
            return fr.R[loc[1]]
        ob = S.obj(loc[1])
        if ob is None or not ob.alive:
            return None
        c = ob.cells.get(loc[2])
        return c[1] if c is not None and c[0] == 8 else None

    def __call__(self, E, S, fr, blk, mode):
        key = (fr.cf.name, blk.label)

        def get(loc):
            v = self.value(S, fr, loc)
            if v is None or v is engine.UNDEF or isinstance(v, (float, Ptr)):
                raise LookupError
            return poly.to_poly(v)
        if mode == 'establish' and key not in self.c:
            self.c[key] = list(self.templates(E, S, fr, blk, self.locs(E, key, blk), get)) + self.integers(fr, blk)
            first = True
        else:
            first = False
        if mode == 'assume':
            done = set()
            for c in self.c[key]:
                if c[1] == 'set' and c[2] in done:
                    a = engine.mkatom('eq', get(c[2]) - c[3](get))
                    if type(a) is not int:
                        S.pc.assume(a)
                elif c[1] == 'set':
                    done.add(c[2])
                    v = engine._fl(c[3](get))
                    if c[2][0] == 'r':
                        fr.R[c[2][1]] = v
                    else:
                        cuts, S.cuts = S.cuts, ()
                        S.store(Ptr(c[2][1], c[2][2]), 8, v)
                        S.cuts = cuts
            for c in self.c[key]:
                if c[1] == 'bv' and len(c) > 3:
                    fr.R[c[3][0]] = c[3][1]
                elif c[1] == 'bv':
                    g = z3.simplify(c[2](fr.R))
                    if not z3.is_true(g):
                        S.pc.assume(g)
                elif c[1] != 'set':
                    a = engine.mkatom(c[1], c[2](get))
                    if type(a) is not int:
                        S.pc.assume(a)
            if S.pc.wit is not None:
                S.pc.wit = None
            return
        keep = []
        for c in self.c[key]:
            try:
                if c[1] == 'bv':
                    st = logic.prove(S.pc, c[2](fr.R), self.timeout, use_cvc5=False)[0]
                    if st == 'proved':
                        keep.append(c)
                        self.checked += 1
                    elif not first:
                        self.dropped = True
                    continue
                p = c[2](get) if c[1] != 'set' else get(c[2]) - c[3](get)
                a = engine.mkatom(c[1] if c[1] != 'set' else 'eq', p)
                if type(a) is int:
                    st = 'proved' if a else 'refuted'
                else:
                    st = logic.prove(S.pc, a, self.timeout, use_cvc5=False)[0]
            except (LookupError, Unknown):
                st = 'unknown'
            if st == 'proved':
                keep.append(c)
                self.checked += 1
            elif not first:
                self.dropped = True
        self.c[key] = keep
