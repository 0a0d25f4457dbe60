"""Which contracts decide which property."""
import importlib
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))

TRUSTED = [
    'clang++-18 front end and opt-18 pipeline (the LLVM IR is what is verified)',
    'dgv: IR semantics, path enumeration, polynomial arithmetic, contract substitution (differentially tested against the '
    'native code on every run)',
    'z3 / cvc5 for the obligations they discharge',
    'stubs for external functions: operator new/delete, static-initialisation guards, pthread_once, exception ABI, '
    'std::map rebalancing (order only), dynamic_cast',
]
ASSUMPTIONS = [
    'double arithmetic is treated as exact real arithmetic (rounding, overflow and signed zero are not modelled)',
    'texts of exceptions are dropped (DUNE_THROW keeps the exception type only)',
    'allocation never fails',
    'one thread of execution: std::call_once runs its function at the first call, locks and initialisation guards never wait; data races are not examined',
]

# property -> list of (module, selector); every property also runs the cases
# of the contracts its own cases rely on
PROPS = {
    'C01': [('gtypes', lambda i: i.startswith('type/'))],
    'C02': [('gtypes', lambda i: i.startswith('index/'))],
    'C03': [('gtypes', lambda i: i.startswith('vertexcount')), ('refelem', lambda i: re.match(r'refelem<[0123]>/.*numbering', i))],
    'C04': [('refelem', lambda i: i.endswith(('/numbering', '/access')) or i.startswith(('kernel/size', 'kernel/sub')))],
    'C05': [('refelem', lambda i: '/embedding' in i or i.endswith('/positions') or i.startswith('kernel/ref'))],
    'C06': [('refelem', lambda i: i.endswith('/inside'))],
    'C07': [('geometry', lambda i: i.startswith('multilinear') and i.split('/')[2] in
             ('global', 'center', 'corners', 'affine', 'referenceElement'))],
    'C08': ['matrix', ('geometry', lambda i: i.startswith('multilinear') and i.split('/')[2] in
            ('jacobianTransposed', 'jacobian', 'jacobianInverseTransposed', 'jacobianInverse', 'integrationElement', 'volume'))],
    'C09': ['matrix', ('geometry', lambda i: i.startswith('lemma/') or (i.startswith('multilinear') and
            i.split('/')[2] == 'local'))],
    'C10': ['matrix', 'cached'],
    'C11': ['matrix', ('geometry', lambda i: i.startswith('affine<'))],
    'C12': [('geometry', lambda i: i.startswith('axisaligned<'))],
    'C13': ['matrix'],
    'C14': ['matrix', ('curved', lambda i: i.startswith('lfe<'))],
    'C15': ['matrix', ('curved', lambda i: i.startswith('mapped<'))],
    'C16': ['matrix', 'newton'],
    'C17': [('quadrature', lambda i: i.startswith(('rule1d/', 'jacobiN/', 'golub-welsch/')))],
    'C18': [('quadrature', lambda i: i.startswith(('rule/', 'product', 'maxOrder')))],
    'C19': [('quadrature', lambda i: i.startswith('history')), 'qcache'],
    'C20': ['composite'],
    'C21': [('refine', lambda i: i.startswith('cube<'))],
    'C22': [('refine', lambda i: i.startswith('simplex<'))],
    'C23': [('refine', lambda i: i.startswith(('square/', 'cube/', 'prism/', 'pyramid/')))],
    'C24': ['virtual'],
    'C25': [('vorder', lambda i: i.startswith(('reduceOrder', 'lemma', 'order<')))],
    'C26': [('vorder', lambda i: i.startswith(('factory', 'singleton')))],
}

NOTES = {
    'C01': 'All geometry types of dimension 0..30, all pairs (order axioms follow because < and == are shown to be the order of '
           'a 64-bit key).',
    'C02': 'All types and indices of dimension 0..20.',
    'C03': 'All pairs of 32-bit arguments; the vertex counts are those of the reference elements, shown in the same run.',
    'C04': 'All topologies of dimension 0..4 (ground obligations over the tables the real set-up code builds); counts for all '
           'topologies up to dimension 20 and sub-topology ids up to dimension 12 by induction.',
    'C05': 'All topologies of dimension 0..4, all local points of the embeddings; inverse volume for all topologies up to '
           'dimension 20 by induction.',
    'C06': 'All real points, all topologies of dimension 0..4.',
    'C07': 'Every topology of dimension 0..3, world dimension up to 3: exact for all corner coordinates and all local points '
           '(the 1e-12-neighbourhood of a pyramid apex excepted as documented).',
    'C08': 'As C07 for all derivative queries; the matrix kernels are used through contracts that the same run proves.',
    'C09': 'Newton loop cut at its header (partial correctness: termination not shown); matrix kernels through proved contracts.',
    'C10': 'Every history of queries, copies and assignments, by closure over the reachable object states; all topologies of '
           'dimension 1..3; MultiLinearGeometry::local as a function of its argument (proved in C09).',
    'C11': 'All topologies of dimension 0..3 and world dimensions up to 3, all constructions, all coordinates.',
    'C12': 'All dimensions 0..3 and world dimensions up to 3, all constructions, all coordinates and axis sets.',
    'C13': 'All sizes up to 4x4 instantiated, all entries.',
    'C14': 'Bodies of global(), jacobian() and volume(rule) for any number of basis functions and points (loop invariant: partial '
           'sums), basis functions, derivatives and coefficients arbitrary (uninterpreted); all other queries with global() and '
           'jacobian() by contract (any map, any derivative). Constructors and copies with a bounded number of basis functions and '
           'the volume by raising the order with a bounded number of orders are bounded obligations, counted apart. The solver '
           'loop by inferred invariants (partial correctness), matrix kernels through contracts proved in C13.',
    'C15': 'Outer mapping and inner geometry are arbitrary (uninterpreted) functions with arbitrary derivatives; volume(rule) for '
           'any number of points (loop invariant: partial sums); the solver loop by inferred invariants (partial correctness), '
           'matrix kernels through contracts proved in C13; the volume by raising the order with a bounded number of orders '
           '(bounded obligations, counted apart).',
    'C16': 'Arbitrary functions and derivatives (uninterpreted), all start values, tolerances and iteration limits, sizes up '
           'to 3x3; both loops by invariants that are inferred from candidates and discharged on every run (partial '
           'correctness); the linear solver through its contract (proved in C13).',
    'C17': 'Every family and every order: all monomials up to the order, exact rational evaluation of the delivered points and '
           'weights; the generic Jacobi rules through a contract on the eigenvalue solver.',
    'C18': 'Every shape of dimension 0..3; dimension 2 all orders, dimension 3 orders up to 16 by evaluation of the delivered '
           'rule; product construction for arbitrary base rules (of bounded size, symbolic order).',
    'C19': 'Every request (all topologies of dimension 0..3, families and orders, all orders out of range) from every state of the '
           'cache that satisfies its invariant, which every request preserves (induction over histories; all entries off the path '
           'of the request are arbitrary); the factories by contract (C17, C18). Request sequences r1,r2,r1,r2 on the real cache '
           'with the real rules are bounded.',
    'C20': 'Simplices of dimension 1..3, every n >= 1 and every pair of consecutive sub-elements (symbolic place of the iteration), '
           'arbitrary base points, weights and orders; base rules of at most three points. Complete rules for small n are bounded.',
    'C21': 'Every number of intervals n >= 1 and every vertex and element (the position is symbolic), dimension 2 and 3; '
           'enumeration by induction: begin has index 0, a step advances the index by one, the end has the index of the count, '
           'and position and index determine each other. Complete runs for small n are bounded.',
    'C22': 'Every n >= 1, every vertex and every sub-simplex (origin symbolic, all patterns of equal coordinates, all Kuhn '
           'simplices), dimension 1..3; enumeration by induction over the step from an arbitrary state. Complete runs for '
           'small n are bounded.',
    'C23': 'As C22 for every macro simplex of square, cube, prism and pyramid; that the macro simplices tile the element is a '
           'ground obligation over the corners the code delivers.',
    'C24': 'Every pair of topology ids of dimension 1..3; every n >= 1 and every position of the iteration (symbolic state of the '
           'compile-time iterator inside the run-time one), value semantics of copy, assignment and self-assignment from every '
           'such state; answers compared with those of the compile-time refinement (C21 - C23).',
    'C25': 'All id tuples (64-bit signed and unsigned; doubles up to length 3) of length 1..8, all sub-entities of all '
           'topologies of dimension 1..3.',
    'C26': 'All topology ids of dimension 0..3 and all keys; the singleton storage from every state that satisfies its '
           'invariant (induction over histories; std::map::operator[] by contract), and all histories of three requests '
           'through the real map (bounded).',
}
NOT_CLAIMED = {
    'C27': 'the views are pybind11 binding code: what Python sees is produced by the CPython interpreter and the pybind11 '
           'runtime, which are outside the translated LLVM IR, so no obligation over the real code can be generated',
}


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('known: property=%s ' % prop):
                rest = line.split(' ', 2)[2].strip()
                match, text = rest.split(' :: ', 1)
                out.append({'match': match, 'text': text})
    return out


def get(prop, tier):
    mods = PROPS[prop]
    drivers, cases, seen = [], [], set()
    extra = list(ASSUMPTIONS)
    for name in mods:
        sel = None
        if isinstance(name, tuple):
            name, sel = name
        M = importlib.import_module('contracts.' + name)
        for d in (M.DRIVERS if hasattr(M, 'DRIVERS') else [M.DRIVER]):
            if d.name not in {x.name for x in drivers}:
                drivers.append(d)
        try:
            cs = M.cases(tier)
        except TypeError:
            cs = M.cases()
        for c in cs:
            if sel is not None and not sel(c.id):
                continue
            if c.id not in seen:
                seen.add(c.id)
                cases.append(c)
        extra += getattr(M, 'ASSUMPTIONS', [])
    info = {'extra_assumptions': extra, 'known': known_findings(prop), 'trusted': TRUSTED}
    return drivers, cases, info
