"""Histories of an object, by closure: every operation is proved from every
reachable object state, until no new state appears.  A state is the memory
reachable from the object (up to renaming of heap blocks) together with the
facts known about its symbols."""
import z3
from . import engine, logic, poly
from .engine import Ptr, UNDEF, EngineError
from .poly import Poly


def valkey(v):
    if isinstance(v, Poly):
        return ('p', v.key())
    if isinstance(v, engine.Cat):
        return ('cat', v.size, tuple((a, b, valkey(c)) for a, b, c in v.parts))
    if z3.is_expr(v):
        return ('z', v.sexpr())
    if v is UNDEF:
        return 'u'
    return ('c', v)


def canon(S, root):
    order = {}
    out = []
    todo = []

    def ref(p):
        o = S.obj(p.o) if not isinstance(p.o, tuple) else None
        if o is None or o.kind != 'heap':
            return ('x', p.o, p.off)
        if p.o not in order:
            order[p.o] = len(order)
            todo.append(p.o)
        return ('h', order[p.o], p.off)
    out.append(ref(root))
    while todo:
        o = S.obj(todo.pop(0))
        cells = []
        for off in sorted(o.cells):
            size, v = o.cells[off]
            cells.append((off, size, ref(v) if isinstance(v, Ptr) else valkey(v)))
        out.append((o.size, o.alive, tuple(cells), tuple(o.zero)))
    return tuple(out)


def leaves(p):
    return {k for k in logic.closure_syms(p) if logic.SYMS[k].kind == 'free'}


def project(pc, keep):
    """forget what is known about symbols other than keep"""
    q = logic.PathCond()
    for k, (p, s) in pc.facts.items():
        if leaves(p) <= keep:
            q.facts[k] = (p, s)
    q.bv = pc.bv
    q.bvknown = dict(pc.bvknown)
    q.wit = None if q.facts else {}
    if pc.wit is not None:
        w = {k: v for k, v in pc.wit.items() if k in keep}
        q.wit = w if logic.satisfied(q, w) else None
    q.eqs = tuple(e for e in pc.eqs if leaves(e) <= keep)
    return q


def factkey(pc):
    return frozenset((k, s) for k, (p, s) in pc.facts.items())
