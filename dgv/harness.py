"""Contracts, cases, proof runs, replay, evidence.

A Case is a contract on one entry point of a driver for one configuration
(dimension, topology, ...): symbolic inputs, preconditions, postconditions.
The same postcondition function is evaluated on the symbolic outputs (proof)
and on the outputs of the natively compiled code (replay, self-test).
"""
import ctypes
import json
import os
import random
import re
import resource
import signal
import struct
import subprocess
import sys
import time
import traceback
from fractions import Fraction
import z3
from . import poly, logic, engine, llir, build
from .engine import Engine, EngineError, Ptr, NULL, UNDEF
from .poly import Poly
from .logic import Atom


class Clause:
    __slots__ = ('name', 'kind', 'a', 'b')

    def __init__(self, name, kind, a, b=None):
        self.name = name
        self.kind = kind
        self.a = a
        self.b = b


def eq(name, a, b):
    return Clause(name, 'eq', a, b)


def le(name, a, b):
    return Clause(name, 'le', a, b)


def lt(name, a, b):
    return Clause(name, 'lt', a, b)


def true(name, c):
    return Clause(name, 'true', c)


def any_of(name, comps):
    """disjunction of ('lt'|'le'|'eq'|'gt'|'ge'|'ne', a, b)"""
    return Clause(name, 'any', comps)


def Sqrt(x):
    if isinstance(x, Poly):
        return poly.sqrt(x)
    f = Fraction(x)
    if f < 0:
        return float('nan')
    a, b = poly.isqrt_exact(f.numerator), poly.isqrt_exact(f.denominator)
    if a is not None and b is not None:
        return Fraction(a, b)
    return Fraction(float(f) ** 0.5)


class Ctx:
    """what a postcondition sees"""
    __slots__ = ('x', 'iin', 'out', 'iout', 'ret', 'native', 'state', 'case')


class Case:
    def __init__(self, id, driver, entry, inputs=0, iin=(), nout=0, niout=0, requires=None, ensures=None,
                 setup=None, assumes=(), timeout=400, max_paths=4000, allow_throw=False, tol=1e-7, final=None,
                 div='assume', expect_paths=None, selftest=True, prove_timeout=30, replay_pool=None, loops=None,
                 known=None, runner=None, group=None, bounded=None, sample_iin=None, must_cut=True, reach=None):
        self.reach = reach            # f(iin) -> iin with which the native code reaches the same state by itself | None
        self.must_cut = must_cut
        self.id = id
        self.driver = driver
        self.entry = entry
        self.inputs = inputs          # int | function -> list of values
        self.iin = iin                # list of int | ('bv', name, width) | ('int', name, kind) | ('expr', f)
        self.nout = nout
        self.niout = niout
        self.requires = requires      # f(x, iin) -> list of (op, a, b) | z3 bool
        self.ensures = ensures        # f(ctx) -> list of Clause
        self.setup = setup            # f(engine) -> install contracts
        self.assumes = list(assumes)
        self.timeout = timeout
        self.max_paths = max_paths
        self.allow_throw = allow_throw
        self.tol = tol
        self.final = final            # f(engine, states, report): extra obligations over all paths
        self.div = div
        self.expect_paths = expect_paths
        self.selftest = selftest
        self.prove_timeout = prove_timeout
        self.replay_pool = replay_pool
        self.loops = loops
        self.known = known
        self.runner = runner
        self.bounded = bounded
        self.sample_iin = sample_iin


def toatom(op, a, b):
    """comparison as int | Atom"""
    d = poly.to_poly(a) - poly.to_poly(b)
    return engine.mkatom(op, d)


def isnum(v):
    return isinstance(v, (int, Fraction))


class Report:
    def __init__(self, case):
        self.case = case.id
        self.obligations = 0
        self.by = {}
        self.failed = []       # dicts
        self.unknown = []
        self.paths = 0
        self.feasible = 0
        self.functions = []
        self.contracts_used = []
        self.assumptions = set()
        self.time = 0
        self.error = None
        self.selftests = 0
        self.solver = {}
        self.bounded = case.bounded
        self.cuts = []
        self.tried_unknown = False
        self.pools = 0
        self.skipped = None
        self.standin = None

    def ok(self, how):
        self.obligations += 1
        self.by[how] = self.by.get(how, 0) + 1

    def pack(self):
        d = dict(self.__dict__)
        d['assumptions'] = sorted(self.assumptions)
        return d


class Timeout(Exception):
    pass


class StateMismatch(Exception):
    """the state a case starts from is not the one the real code gets to"""


def _alarm(sig, frm):
    raise Timeout()


class Driver:
    """a compiled driver: IR module and native library"""

    def __init__(self, name, source, keep=(), defines=(), pipe='O1', lapack=False, optional=None):
        self.optional = optional      # what is left out when this driver does not compile
        self.name = name
        self.source = source
        self.keep = list(keep)
        self.defines = list(defines)
        self.pipe = pipe
        self.mod = None
        self.so = None
        self.lib = None
        self.base = None
        self.kept = []

    def compile(self, work):
        self.work = work
        out = os.path.join(work, self.name)
        self.ll, self.kept = build.build_ir(self.source, out, self.defines, self.keep, self.pipe)
        self.so = build.build_native(self.source, out, self.defines)

    def load(self):
        if self.mod is None:
            self.mod = llir.Module(self.ll)

    def native(self):
        if self.lib is None:
            self.lib = ctypes.CDLL(self.so)
        return self.lib


def native_call(so, entry, x, iin, nout, niout, timeout=60, san=False):
    """call the native code in a subprocess; returns (status, ret, out, iout)
    status: 'ok' | 'crash' | 'timeout'"""
    req = json.dumps({'so': so, 'entry': entry, 'x': [v.hex() for v in x], 'iin': [int(v) for v in iin],
                      'nout': nout, 'niout': niout})
    env = dict(os.environ)
    if san:
        rt = subprocess.run([build.CXX, '-print-file-name=libclang_rt.asan-x86_64.so'], capture_output=True,
                            text=True).stdout.strip()
        env['LD_PRELOAD'] = rt
        env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0'
    try:
        r = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'nativecall.py')],
                           input=req, capture_output=True, text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return 'timeout', None, None, None, ''
    if r.returncode != 0:
        return 'crash', None, None, None, (r.stdout + r.stderr)[-3000:]
    d = json.loads(r.stdout.strip().split('\n')[-1])
    return 'ok', d['ret'], [float.fromhex(v) for v in d['out']], d['iout'], ''


FAST = {}


def native_inproc(drv, entry, x, iin, nout, niout):
    """in-process call (self-test on paths already known to return)"""
    lib = drv.native()
    X = (ctypes.c_double * max(1, len(x)))(*x)
    I = (ctypes.c_int64 * max(1, len(iin)))(*[to_s64(v) for v in iin])
    O = (ctypes.c_double * max(1, nout))()
    J = (ctypes.c_int64 * max(1, niout))()
    r = getattr(lib, entry)(X, I, O, J)
    return r, list(O)[:nout], list(J)[:niout]


def native_many(drv, entry, pts, nout, niout, seconds):
    """results of the native code for a list of (doubles, ints), in forked processes"""
    res = []
    stop = time.time() + seconds
    while len(res) < len(pts) and time.time() < stop:
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                os.dup2(null, 2)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                with os.fdopen(wr, 'w') as fh:
                    for xs, ii in pts[len(res):]:
                        signal.alarm(20)
                        r, out, iout = native_inproc(drv, entry, xs, ii, nout, niout)
                        signal.alarm(0)
                        fh.write(json.dumps({'ret': r, 'out': [v.hex() for v in out], 'iout': iout}) + '\n')
                        fh.flush()
                        if time.time() > stop:
                            break
            finally:
                os._exit(0)
        os.close(wr)
        with os.fdopen(rd) as fh:
            lines = fh.read().split('\n')
        _, status = os.waitpid(pid, 0)
        for l in lines[:-1]:
            d = json.loads(l)
            res.append(('ok', d['ret'], [float.fromhex(v) for v in d['out']], d['iout'], ''))
        if os.WIFSIGNALED(status) and len(res) < len(pts):
            res.append(('timeout' if os.WTERMSIG(status) == signal.SIGALRM else 'crash', None, None, None,
                        'signal %d' % os.WTERMSIG(status)))
    return res


def to_s64(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v


def run_case(case, drv):
    """prove one case; returns a packed report"""
    rep = Report(case)
    t0 = time.time()
    if case.timeout:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(int(case.timeout))
    for k in logic.STATS:
        logic.STATS[k] = 0
    logic.RNG.seed(1)
    try:
        if case.runner is not None:
            case.runner(case, drv, rep)
        else:
            _run_case(case, drv, rep)
    except Decided:
        pass
    except StateMismatch as e:
        rep = Report(case)
        rep.skipped = str(e)
    except Timeout:
        rep.error = 'timeout after %d s' % case.timeout
    except (EngineError, llir.IRError) as e:
        rep.error = '%s: %s' % (type(e).__name__, e)
    except RecursionError:
        rep.error = 'recursion limit'
    except z3.Z3Exception as e:
        rep.error = 'z3: %s %s' % (e, traceback.format_exc()[-600:])
    except Exception:
        rep.error = traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
    if (rep.error or rep.unknown) and not rep.failed and getattr(case, 'start', None):
        lim = resource.getrlimit(resource.RLIMIT_AS)
        try:
            resource.setrlimit(resource.RLIMIT_AS, (5 << 30, lim[1]))
            stand_in(case, drv, rep)
        except Exception:
            rep.error = (rep.error or 'undecided') + ' / stand-in: ' + traceback.format_exc()[-600:]
        finally:
            resource.setrlimit(resource.RLIMIT_AS, lim)
    rep.time = time.time() - t0
    rep.solver = dict(logic.STATS)
    return rep.pack()


STANDIN_RUNS, STANDIN_SECONDS = 60, 15


def stand_in(case, drv, rep):
    """no proof of this case for the present code: run the contract on the real code for sampled inputs (bounded, never
    counted as proved)"""
    S, x, iin = case.start
    why = rep.error or 'undecided: ' + rep.unknown[0]['obligation']
    poly_syms = sorted({k for v in list(x) + list(iin) if isinstance(v, Poly) for k in v.symbols()})
    stop = time.time() + STANDIN_SECONDS
    pts = case.replay_pool() if case.replay_pool else []
    rng = random.Random(1)
    if not S.pc.bv and not any(z3.is_expr(v) for v in iin):
        for k in range(STANDIN_RUNS if poly_syms else 1):
            w = logic.sample(S.pc, (), 20) if S.pc.facts else {}
            if w is None:
                continue
            w = dict(w)
            for j in poly_syms:
                if j not in w and poly.SYMS[j].kind == 'free':
                    if poly.SYMS[j].sort == 'int':
                        w[j] = Fraction(rng.randint(1, 9))
                    else:
                        w[j] = Fraction(rng.randint(-24, 24), 8)
            pts.append(concrete_inputs(x, iin, w))
            if time.time() > stop:
                break
    else:
        sol = z3.Solver()
        sol.set('timeout', 2000)
        for b in S.pc.bv:
            sol.add(b)
        for k in range(STANDIN_RUNS):
            sol.push()
            for v in iin:
                if z3.is_bv(v):
                    bits = rng.randint(0, min(v.size(), 6))
                    for b in rng.sample(range(v.size()), bits):
                        sol.add(z3.Extract(b, b, v) == rng.randint(0, 1))
            if sol.check() == z3.sat:
                pts.append(concrete_inputs(x, iin, sol.model()))
            sol.pop()
            if time.time() > stop:
                break
    if case.reach:
        pts = [(xs, case.reach(ii)) for xs, ii in pts]
        pts = [p for p in pts if p[1] is not None]
    runs = 0
    for (xs, ii), res in zip(pts, native_many(drv, case.entry, pts, getattr(case, 'native_nout', case.nout), case.niout, STANDIN_SECONDS)):
        if res[0] == 'ok' and any(abs(v) > 1e4 for v in res[2]):
            continue        # badly conditioned
        try:
            r = replay_point(case, drv, '', xs, ii, res=res, tol=max(case.tol, 1e-3))
        except MemoryError:
            break
        except Exception:
            continue        # the clauses are not defined at this point
        runs += 1
        if time.time() > stop + 2 * STANDIN_SECONDS:
            break
        if r is not None:
            f = {'obligation': case.id + '/' + r.get('violated', 'no-runtime-failure'), 'confirmed': True, 'entry': case.entry,
                 'driver': drv.name, 'exact': True, 'tried': runs, 'note': 'found by the bounded stand-in; no proof: ' + why[:300]}
            f.update(r)
            rep.failed.append(f)
            rep.error, rep.unknown = None, []
            return
    if not pts:
        return
    rep.standin = '%d runs; %s' % (runs, why.strip().splitlines()[-1][:300])
    rep.error, rep.unknown = None, []
    rep.obligations, rep.by = 0, {}


def make_engine(case, drv):
    drv.load()
    poly.reset()
    E = Engine(drv.mod)
    E.div_policy = case.div
    return E


def _run_case(case, drv, rep):
    case.drv = drv
    E = make_engine(case, drv)
    S = E.initial
    if case.setup:
        case.setup(E)
    # run global constructors
    for _, n in drv.mod.ctors:
        r = E.run(S, n, [])
        if len(r) != 1:
            raise EngineError('global constructor forks')
        S = r[0]
        S.ret = None
    # inputs
    if callable(case.inputs):
        x = case.inputs()
    else:
        x = [poly.var('x%d' % i) for i in range(case.inputs)]
    io = S.new_obj(max(8, 8 * len(x)), 'in')
    for i, v in enumerate(x):
        S.mem[io].cells[8 * i] = (8, engine._fl(v) if isinstance(v, Poly) else Fraction(v))
    iin = []
    named = {}
    for k, kind in getattr(case, 'symbols', ()):
        named[k] = Poly({(poly.new_symbol(k, 'int', 'free', kind).id,): 1})
    for i, v in enumerate(case.iin):
        if isinstance(v, tuple):
            if v[0] == 'bv':
                b = z3.BitVec(v[1], v[2])
                iin.append(b)
            elif v[0] == 'expr':
                iin.append(v[1](named))
            else:
                if v[1] not in named:
                    named[v[1]] = Poly({(poly.new_symbol(v[1], 'int', 'free', v[2] if len(v) > 2 else None).id,): 1})
                iin.append(named[v[1]])
        else:
            iin.append(v & ((1 << 64) - 1))
    ii = S.new_obj(max(8, 8 * len(iin)), 'iin')
    for i, v in enumerate(iin):
        w = v
        if z3.is_bv(v) and v.size() < 64:
            w = z3.ZeroExt(64 - v.size(), v)
        S.mem[ii].cells[8 * i] = (8, w)
    oo = S.new_obj(max(8, 8 * case.nout), 'out')
    jo = S.new_obj(max(8, 8 * case.niout), 'iout')
    if case.requires:
        for r in case.requires(x, iin):
            if isinstance(r, tuple):
                a = toatom(*r)
                if type(a) is int:
                    if not a:
                        raise EngineError('precondition is false')
                    continue
                S.pc.assume(a)
            else:
                S.pc.assume(r)
    if S.pc.facts:
        S.pc.find_witness()
    case.start = (S.fork(), x, iin)
    if os.environ.get('DGV_STANDIN'):
        raise EngineError('stand-in requested')
    nfacts = len(S.pc.facts)
    if case.loops:
        if hasattr(case, 'invariants'):
            E.loop_inv = case.invariants(x)
        finals = run_with_cuts(E, S, case, [Ptr(io, 0), Ptr(ii, 0), Ptr(oo, 0), Ptr(jo, 0)], rep)
    else:
        finals = E.run(S, case.entry, [Ptr(io, 0), Ptr(ii, 0), Ptr(oo, 0), Ptr(jo, 0)], case.max_paths)
    rep.paths = len(finals)
    dm = E.demangle()
    rep.functions = sorted(dm.get(n, n) for n in E.called)
    rep.contracts_used = sorted(dm.get(n, n) for n in E.hooked)
    for d in E.divs:
        rep.assumptions.add('implicit precondition: %s of a value that is not shown non-zero/non-negative in %s'
                            % ('sqrt' if d[1][0].startswith('sqrt') else 'division', dm.get(d[1][-1], d[1][-1])[:80]))
    rep.assumptions |= set(getattr(E, 'implicit', ()))
    for T in finals:
        check_path(case, drv, E, T, x, iin, oo, jo, rep)
    if case.final:
        case.final(E, finals, rep, x, iin, oo, jo)
    if rep.feasible == 0:
        raise EngineError('vacuous: no feasible path reaches the postcondition')
    if rep.obligations + len(rep.failed) + len(rep.unknown) == 0:
        raise EngineError('no obligations generated')


def read_outs(T, oo, jo, nout, niout):
    out = []
    for i in range(nout):
        v = T.load(Ptr(oo, 8 * i), 8)
        if type(v) is int:
            v = engine.loader(('double',))(v)
        out.append(v)
    iout = []
    for i in range(niout):
        v = T.load(Ptr(jo, 8 * i), 8)
        if type(v) is int:
            v = engine.to_signed(v, 64)
        iout.append(v)
    return out, iout


def check_path(case, drv, E, T, x, iin, oo, jo, rep):
    if isinstance(T.ret, tuple) and T.ret[0] == 'failed':
        # a runtime failure is reachable: is the path really feasible?
        st = path_feasible(T)
        if st[0] == 'unsat':
            rep.ok('infeasible')
            return
        record_failure(case, drv, rep, 'no-runtime-failure: ' + T.ret[1], T, x, iin, st[1], crash=True,
                       exact=st[0] == 'sat')
        return
    if isinstance(T.ret, tuple) and T.ret[0] == 'uncaught':
        raise EngineError('uncaught exception leaves the driver')
    ctx = Ctx()
    ctx.x, ctx.iin = x, iin
    ctx.ret = T.ret
    if type(ctx.ret) is not int:
        raise EngineError('symbolic return code')
    ctx.native = False
    ctx.state = T
    ctx.case = case
    ctx.out, ctx.iout = read_outs(T, oo, jo, case.nout, case.niout)
    if ctx.ret == 1 and not case.allow_throw:
        st = path_feasible(T)
        if st[0] == 'unsat':
            rep.ok('infeasible')
            return
        record_failure(case, drv, rep, 'no-exception', T, x, iin, st[1], throw=True, exact=st[0] == 'sat')
        return
    if T.pc.wit is not None and not T.pc.bv:
        rep.feasible += 1
    else:
        st = path_feasible(T)
        if st[0] == 'unsat':
            rep.ok('infeasible')
            return
        if st[0] == 'sat':
            rep.feasible += 1
    if case.selftest:
        selftest(case, drv, T, x, iin, ctx, rep)
    clauses = list(case.ensures(ctx))
    for c in clauses:
        prove_clause(case, drv, E, T, x, iin, c, rep)


def path_feasible(T):
    if T.pc.bv:
        r, m, _ = logic.bv_check(T.pc, [], want_model=True)
        if r == 'unsat':
            return 'unsat', None
        if not T.pc.facts:
            return ('sat' if r == 'sat' else 'unknown'), m
    if not T.pc.facts:
        return 'sat', dict(T.pc.wit or {})
    if T.pc.wit is not None and logic.satisfied(T.pc, T.pc.wit):
        return 'sat', dict(T.pc.wit)
    w = logic.sample(T.pc, (), 200)
    if w is not None:
        return 'sat', w
    if logic.weight(T.pc) > logic.FEAS_TERMS:
        return 'unknown', None
    # ask z3 about all facts
    atoms = []
    for q, S in T.pc.facts.values():
        atoms.append(q)
    q0 = atoms[0]
    goal = [('or', [Atom('le', q), Atom('gt', q)]) for q in atoms]
    r, m, s = logic.z3_query(T.pc, goal, 20, want_model=True)
    if r == 'sat':
        return 'sat', m
    if r == 'unsat':
        return 'unsat', None
    if logic.cvc5_query(s, 20) == 'unsat':
        return 'unsat', None
    return 'unknown', None


def goal_of(c):
    """solver goal of a clause; None if it mentions undefined values"""
    if c.kind == 'true':
        v = c.a
        if isinstance(v, (bool, int)):
            return bool(v)
        if isinstance(v, Atom):
            return v
        return v
    if c.kind == 'any':
        atoms = []
        for op, a, b in c.a:
            if a is UNDEF or b is UNDEF:
                continue
            g = toatom(op, a, b)
            if type(g) is int:
                if g:
                    return True
            else:
                atoms.append(g)
        if not atoms:
            return False
        return ('or', atoms)
    if c.a is UNDEF or c.b is UNDEF:
        return False
    if isinstance(c.a, float) or isinstance(c.b, float):
        return (c.a == c.b) if c.kind == 'eq' else False
    if z3.is_expr(c.a) or z3.is_expr(c.b):
        return c.a == c.b
    if isinstance(c.a, Ptr) or isinstance(c.b, Ptr):
        return c.a == c.b
    g = toatom(c.kind, c.a, c.b)
    return bool(g) if type(g) is int else g


def prove_clause(case, drv, E, T, x, iin, c, rep):
    g = goal_of(c)
    st, how, m = logic.prove(T.pc, g, case.prove_timeout)
    if st == 'proved':
        rep.ok(how)
        return
    if st == 'refuted':
        if m is None or how == 'ground':
            fs = path_feasible(T)
            if fs[0] == 'unsat':
                rep.ok('infeasible')
                return
            m = fs[1]
        record_failure(case, drv, rep, c.name, T, x, iin, m, exact=(how in ('ground', 'z3') or exact_model(T, m)))
        return
    if not rep.tried_unknown:
        # undecided: the real code may still show a violation
        rep.tried_unknown = True
        n = len(rep.unknown)
        record_failure(case, drv, rep, c.name, T, x, iin, None, exact=False)
        if len(rep.unknown) == n:
            return
        del rep.unknown[n:]
    rep.unknown.append({'obligation': case.id + '/' + c.name, 'goal': str(g)[:400], 'how': how})


class Decided(Exception):
    """a violation was replayed on the real code: the rest of the case does not matter"""


KNOWN = []


def exact_model(T, m):
    return isinstance(m, dict) and not any(isinstance(v, float) for v in m.values())


def concrete_inputs(x, iin, m):
    """native inputs for a model: (doubles, ints)"""
    xs = []
    for v in x:
        if isinstance(v, Poly):
            r = logic.evalp(v, m) if isinstance(m, dict) else None
            if r is None:
                r = Fraction(0)
            xs.append(float(r))
        else:
            xs.append(float(v))
    ii = []
    for v in iin:
        if z3.is_expr(v):
            if isinstance(m, z3.ModelRef):
                ii.append(m.eval(v, model_completion=True).as_long())
            else:
                ii.append(0)
        elif isinstance(v, Poly):
            r = logic.evalp(v, m) if isinstance(m, dict) else 0
            ii.append(int(r))
        else:
            ii.append(v)
    return xs, ii


def native_ctx(case, xs, ii, ret, out, iout):
    ctx = Ctx()
    ctx.x = [Fraction(v) if v == v and abs(v) != float('inf') else v for v in xs]
    ctx.iin = list(ii)
    if any(isinstance(v, tuple) and v[0] == 'bv' for v in case.iin):
        ctx.iin = [z3.BitVecVal(v, w[2]) if isinstance(w, tuple) and w[0] == 'bv' else v for v, w in zip(ii, case.iin)]
    ctx.out = [Fraction(v) if v == v and abs(v) != float('inf') else v for v in out]
    ctx.iout = list(iout)
    ctx.ret = ret
    ctx.native = True
    ctx.state = None
    ctx.case = case
    return ctx


def clause_holds_native(c, tol):
    """evaluate a clause on numbers; None if not evaluable"""
    def cmp(op, a, b):
        if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
            return False
        if (isinstance(a, int) and isinstance(b, int)):
            t = 0
        else:
            fa, fb = float(a), float(b)
            t = tol * (1 + abs(fa) + abs(fb)) if abs(fa) != float('inf') and abs(fb) != float('inf') else 0
        if op == 'eq':
            return abs(a - b) <= t if a != b else True
        if op == 'ne':
            return a != b
        if op in ('le', 'lt'):
            return a <= b + t
        return a >= b - t
    if c.kind == 'true':
        v = c.a
        if isinstance(v, (bool, int)):
            return bool(v)
        if z3.is_expr(v):
            g = z3.simplify(v)
            return True if z3.is_true(g) else False if z3.is_false(g) else None
        return None
    if c.kind == 'any':
        return any(cmp(op, a, b) for op, a, b in c.a)
    a, b = c.a, c.b
    if z3.is_expr(a) or z3.is_expr(b):
        if not z3.is_expr(a):
            a = z3.BitVecVal(a, b.size())
        if not z3.is_expr(b):
            b = z3.BitVecVal(b, a.size())
        g = z3.simplify(a == b)
        return z3.is_true(g)
    return cmp(c.kind, a, b)


def record_failure(case, drv, rep, name, T, x, iin, m, crash=False, throw=False, exact=True):
    ob = case.id + '/' + name
    for f in rep.failed:
        if f['obligation'] == ob and f['confirmed']:
            return
    f = {'obligation': ob, 'confirmed': False, 'entry': case.entry, 'driver': drv.name, 'exact': bool(exact)}
    tries = []
    if m is not None:
        tries.append(m)
    # further points on the same path
    base = name.split(' [')[0]
    n_more = 12 if not crash else 4
    for k in range(n_more):
        if T is not None and T.pc.facts is not None and not T.pc.bv:
            w = logic.sample(T.pc, (), 20)
            if w is not None:
                tries.append(w)
    if sum(1 for g in rep.failed if g.get('tried')) > 25:
        tries = tries[:2]
    pts = [concrete_inputs(x, iin, w) for w in tries]
    if case.replay_pool and rep.pools < 3:
        rep.pools += 1
        pts = pts[:1] + case.replay_pool() + pts[1:]
    for xs, ii in pts:
        r = replay_point(case, drv, name, xs, ii, crash, throw)
        f['tried'] = f.get('tried', 0) + 1
        if r is not None:
            f.update(r)
            f['confirmed'] = True
            break
    else:
        if tries:
            xs, ii = pts[0]
            f['inputs'] = [v.hex() for v in xs]
            f['iin'] = [int(v) for v in ii]
    if not f['confirmed'] and not exact:
        rep.unknown.append({'obligation': ob, 'goal': 'not confirmed natively, no exact model', 'how': 'sample'})
        return
    rep.failed.append(f)
    if f['confirmed'] and not any(re.search(k['match'], ob) for k in KNOWN):
        raise Decided()


def replay_point(case, drv, name, xs, ii, crash=False, throw=False, res=None, tol=None):
    """run the real code on one input; returns details if a clause is violated"""
    if case.reach and res is None:
        ii = case.reach(ii)
        if ii is None:
            return None
    if crash:
        if not hasattr(drv, 'sanso'):
            try:
                drv.sanso = build.build_native(drv.source, os.path.join(drv.work, drv.name + '-san-%d' % os.getpid()),
                                               drv.defines, san=True)
            except build.BuildError:
                drv.sanso = None
        for so, san in ((drv.so, False), (drv.sanso, True)):
            if so is None:
                continue
            st, ret, out, iout, log = native_call(so, case.entry, xs, ii, case.nout, case.niout, san=san)
            if st in ('crash', 'timeout'):
                return {'inputs': [v.hex() for v in xs], 'iin': [int(v) for v in ii],
                        'observed': 'the native run ends with a %s' % st, 'log': log[-1500:]}
        return None
    st, ret, out, iout, log = res or native_call(drv.so, case.entry, xs, ii, getattr(case, 'native_nout', case.nout), case.niout)
    if st != 'ok':
        if case.setup is not None:
            return None      # the input may violate an implicit precondition
        return {'inputs': [v.hex() for v in xs], 'iin': [int(v) for v in ii],
                'observed': 'the native run ends with a %s' % st, 'log': log[-1500:]}
    if ret == 1 and not case.allow_throw:
        if throw:
            return {'inputs': [v.hex() for v in xs], 'iin': [int(v) for v in ii], 'observed': 'exception thrown'}
        return None
    # precondition must hold for the rounded input
    ctx = native_ctx(case, xs, ii, ret, out, iout)
    if case.requires:
        for r in case.requires(ctx.x, ctx.iin):
            if isinstance(r, tuple):
                op, a, b = r
                if logic.sgn(Fraction(a) - Fraction(b)) not in logic.OPS[op]:
                    return None
            else:
                g = z3.simplify(r)
                if not z3.is_true(g):
                    return None
    for c in case.ensures(ctx):
        h = clause_holds_native(c, tol or case.tol)
        if h is False:
            return {'inputs': [v.hex() for v in xs], 'iin': [int(v) for v in ii],
                    'violated': c.name, 'values': ['%r' % (float(v) if isinstance(v, Fraction) else v,)
                                                   for v in (c.a, c.b)] if c.kind != 'any' else
                    [repr([(o, float(a), float(b)) for o, a, b in c.a])[:300]],
                    'outputs': [float(v) for v in out][:40], 'iout': list(iout)[:40]}
    return None


def selftest(case, drv, T, x, iin, ctx, rep):
    """the symbolic result evaluated at the path's witness must be what the
    native code computes"""
    wit = T.pc.wit
    if wit is None or T.ghost.get('cut') or getattr(T.eng, 'abstracted', False):
        return
    m = None
    if T.pc.bv:
        r, m, _ = logic.bv_check(T.pc, [], want_model=True)
        if r != 'sat' or T.pc.facts:
            return
    wit = dict(wit)
    xs, ii = concrete_inputs(x, iin, m if m is not None else wit)
    for v, f in zip(x, xs):
        if isinstance(v, Poly):
            r = logic.evalp(v, wit)
            if r is None or Fraction(f) != r:
                return
    for q, S in T.pc.facts.values():
        v = logic.evalp(q, wit)
        if v is None or (abs(v) < 1e-9 and v != 0):
            return
        if v == 0 and (any(poly.SYMS[k].kind != 'free' for k in q.symbols()) or max(len(m) for m in q.t) > 1):
            return      # rounding decides
    if case.reach:
        ii = case.reach(ii)
        if ii is None:
            return
        try:
            compare(case, drv, xs, ii, ctx, wit, m)
        except EngineError as e:
            if replay_point(case, drv, '', xs, ii) is not None:
                record_failure(case, drv, rep, 'state reached by the real code', T, x, iin, wit)
            raise StateMismatch(str(e))
    else:
        compare(case, drv, xs, ii, ctx, wit, m)
    rep.selftests += 1


def compare(case, drv, xs, ii, ctx, wit, m):
    st, ret, out, iout, log = native_call(drv.so, case.entry, xs, ii, case.nout, case.niout, timeout=60) \
        if case.selftest == 'sub' or case.reach else ('ok',) + native_inproc(drv, case.entry, xs, ii, case.nout, case.niout) + ('',)
    if st != 'ok':
        raise EngineError('self-test: native run %s' % st)
    if ret != ctx.ret:
        raise EngineError('self-test: return code %s, engine says %s for %s %s' % (ret, ctx.ret, xs, ii))
    for k, (a, b) in enumerate(zip(ctx.out, out)):
        if a is UNDEF:
            continue
        v = logic.evalp(a, wit) if isinstance(a, Poly) else a
        if v is None:
            continue
        fv = float(v)
        if fv != b and abs(fv - b) > 1e-6 * (1 + abs(fv) + abs(b)):
            raise EngineError('self-test: output %d is %r, engine says %r for %s %s' % (k, b, fv, xs, ii))
    for k, (a, b) in enumerate(zip(ctx.iout, iout)):
        if a is UNDEF or isinstance(a, Ptr):
            continue
        if z3.is_expr(a):
            if m is None:
                continue
            v = m.eval(a, model_completion=True)
            if not z3.is_bv_value(v):
                continue
            v = engine.to_signed(v.as_long(), v.size()) if v.size() == 64 else v.as_long()
        elif isinstance(a, Poly):
            v = logic.evalp(a, wit)
        else:
            v = a
        if isinstance(v, engine.Ptr):
            continue
        if v is not None and v != b:
            raise EngineError('self-test: integer output %d is %r, engine says %r for %s %s' % (k, b, v, xs, ii))


# --- loop cuts -------------------------------------------------------------------
def run_with_cuts(E, S0, case, args, rep):
    E.cut_rx = re.compile(case.loops)
    E.cut_writes = {}
    for rnd in range(40):
        T = S0.fork()
        E.wlog = {}
        E.cut_backs = 0
        inv = E.loop_inv
        if inv is not None:
            inv.dropped = False
            inv.checked = 0
            inv.failed = None
        try:
            finals = E.run(T, case.entry, args, case.max_paths)
        except engine.CutRestart:
            E.cut_writes = {}
            if inv is not None:
                inv.c = {}
            continue
        new = False
        for key, w in E.wlog.items():
            old = E.cut_writes.setdefault(key, {})
            for c, kinds in w.items():
                if not kinds <= old.setdefault(c, set()):
                    old[c] |= kinds
                    new = True
        if new and inv is not None:
            inv.c = {}
        if not new and (inv is None or not inv.dropped):
            break
    else:
        raise EngineError('no fixed point of the loop frame')
    if inv is not None:
        for _ in range(inv.checked):
            rep.ok('invariant')
    if E.cut_loops:
        rep.assumptions.add('termination of the loops in %s is not shown (partial correctness)' % case.loops)
    elif case.must_cut:
        raise EngineError('no loop found to cut')
    rep.cuts = sorted('%s:%s' % (E.demangle().get(f, f)[:80], l) for f, l in E.cut_loops)
    return finals


def run_property(prop, drivers, cases, tier, seed, extra_assumptions=(), known=(), jobs=8, level='proof',
                 checker_cmd='', trusted=(), budget=840):
    """compile, prove all cases in parallel, write evidence, print verdict;
    returns the exit code"""
    import tempfile
    import shutil
    import multiprocessing as mp
    t0 = time.time()
    KNOWN[:] = known
    work = tempfile.mkdtemp(prefix='dgv-%s-' % prop)
    evdir = os.path.join(build.VERIF, 'evidence')
    os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    code = 2
    try:
        dropped = []
        need = [d for d in drivers if any(c.driver == d.name for c in cases)]
        try:
            ths = []
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(8) as ex:
                fs = []
                for d in need:
                    fs.append((d, ex.submit(d.compile, work)))
                for d, f in fs:
                    try:
                        f.result()
                    except build.BuildError:
                        if not d.optional:
                            raise
                        dropped.append('%s: driver does not compile' % d.optional)
                        need = [e for e in need if e is not d]
                        cases = [c for c in cases if c.driver != d.name]
        except build.BuildError as e:
            print('ERROR: extraction failed: the driver does not compile against /repo')
            print(str(e)[-3000:])
            return 2
        for d in need:
            d.load()
        tc = time.time() - t0
        by = {d.name: d for d in need}
        reports = []
        ctx = mp.get_context('fork')
        global _JOBS
        _JOBS = [(c, by[c.driver]) for c in cases]
        with ctx.Pool(min(jobs, max(1, len(cases))), maxtasksperchild=1) as pool:
            it = pool.imap_unordered(_job, range(len(cases)), chunksize=1)
            while len(reports) < len(cases):
                try:
                    r = it.next(timeout=max(0.1, budget - (time.time() - t0)))
                except mp.TimeoutError:
                    pool.terminate()
                    done = {r['case'] for r in reports}
                    for c in cases:
                        if c.id not in done:
                            rep = Report(c)
                            rep.error = 'not finished within the budget of the check'
                            reports.append(rep.pack())
                    break
                reports.append(r)
                if os.environ.get('DGV_VERBOSE'):
                    print('  %-50s ob=%d paths=%d t=%.1f %s %s' % (r['case'], r['obligations'], r['paths'], r['time'],
                          'FAILED %d' % len(r['failed']) if r['failed'] else '',
                          ('ERROR ' + r['error']) if r['error'] else ('UNKNOWN %d' % len(r['unknown']) if r['unknown'] else '')),
                          flush=True)
                if any(f['confirmed'] and not any(re.search(k['match'], f['obligation']) for k in known)
                       for f in r['failed']):
                    # one violation replayed on the real code decides the run
                    pool.terminate()
                    break
        code = conclude(prop, cases, reports, tier, seed, t0, tc, evdir, extra_assumptions, known, level, checker_cmd,
                        trusted, by, dropped)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return code


_JOBS = []


def _job(i):
    c, d = _JOBS[i]
    sys.setrecursionlimit(20000)
    try:
        return run_case(c, d)
    except BaseException as e:
        rep = Report(c)
        rep.error = 'internal: ' + traceback.format_exc()[-800:]
        return rep.pack()


def conclude(prop, cases, reports, tier, seed, t0, tc, evdir, extra, known, level, checker_cmd, trusted, by, dropped=()):
    dropped = list(dropped) + ['%s: %s' % (r['case'], r['skipped']) for r in reports if r.get('skipped')]
    standins = ['%s: %s' % (r['case'], r['standin']) for r in reports if r.get('standin')]
    obl = sum(r['obligations'] for r in reports if not r.get('bounded'))
    failed = [f for r in reports for f in r['failed']]
    unknown = [u for r in reports for u in r['unknown']]
    errors = [(r['case'], r['error']) for r in reports if r['error']]
    how = {}
    for r in reports:
        for k, v in r['by'].items() if not r.get('bounded') else ():
            how[k] = how.get(k, 0) + v
    kn_hit = []
    real = []
    for f in failed:
        k = next((k for k in known if re.search(k['match'], f['obligation'])), None)
        if k is not None:
            kn_hit.append((k, f))
        else:
            real.append(f)
    funcs = sorted({f for r in reports for f in r['functions']})
    dune = [f for f in funcs if 'Dune::' in f]
    contracts = sorted({f for r in reports for f in r['contracts_used']})
    assumptions = sorted(set(extra) | {a for r in reports for a in r['assumptions']})
    solver = {}
    for r in reports:
        for k, v in r['solver'].items():
            solver[k] = round(solver.get(k, 0) + v, 3)
    nb = sum(r['obligations'] for r in reports if r.get('bounded'))
    total = obl + sum(len(r['failed']) + len(r['unknown']) for r in reports if not r.get('bounded')) + len(standins)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': level,
        'coverage': {
            'obligations': total, 'discharged': obl, 'checker_cmd': checker_cmd, 'trusted_base': list(trusted),
            'discharged_by': how, 'cases': len(reports), 'paths': sum(r['paths'] for r in reports),
            'bounded_obligations': nb,
            'bounds': sorted({r['bounded'] for r in reports if r.get('bounded')}),
            'functions_executed': len(funcs), 'dune_functions': [f[:160] for f in dune][:400],
            'contracts_substituted_at_calls': [c[:160] for c in contracts],
            'native_selftests': sum(r['selftests'] for r in reports),
            'solver': solver, 'compile_s': round(tc, 2),
            'unknown': unknown[:20], 'errors': errors[:20], 'not_generated': dropped[:40],
            'not_proved_bounded_stand_in': len(standins), 'stand_ins': standins[:40],
        },
        'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(real),
    }
    if standins or dropped or not obl:
        ev['level'] = 'other'
        ev['coverage']['explanation'] = '%d cases could not be proved for the present code and rest on bounded native runs, for %d ' \
            'no proof obligations were generated; the other cases are proved' % (len(standins), len(dropped))
    code = 0
    lines = ['NOT GENERATED (bounded obligations only): ' + d[:300] for d in dropped[:5]]
    lines += ['NOT PROVED (bounded stand-in): ' + d[:300] for d in standins[:5]]
    if standins:
        lines.append('NOT PROVED: %d of %d cases rest on a bounded stand-in' % (len(standins), len(reports)))
    if not reports or all(r.get('skipped') for r in reports):
        errors.append(('all', 'no obligations'))
    for k in {id(k): k for k, f in kn_hit}.values():
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    if real:
        real.sort(key=lambda f: (not f['confirmed'], f['obligation']))
        seen = 0
        for f in real[:1] if real[0]['confirmed'] else real[:1]:
            path = os.path.join(evdir, 'replay', '%s-%d.json' % (prop, seen))
            seen += 1
            f2 = dict(f)
            f2['property'] = prop
            f2['all_failed_obligations'] = [g['obligation'] for g in real][:200]
            d = by.get(f['driver'])
            f2['how_to_rerun'] = ('compile /verif/drivers/%s.cc %s against /repo (see dgv/build.py: build_native) and call '
                                  '%s(in, iin, out, iout) with the listed inputs (hexadecimal doubles)') % (
                d.source if d else '?', ' '.join('-D' + x for x in (d.defines if d else [])), f['entry'])
            with open(path, 'w') as fh:
                json.dump(f2, fh, indent=1)
            lines.append('failed obligation: ' + f['obligation'])
            if f['confirmed']:
                lines.append('VIOLATION property=%s replay=%s' % (prop, path))
            else:
                lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        code = 1
    elif errors or unknown:
        for c, e in errors[:10]:
            lines.append('ERROR in %s: %s' % (c, e))
        for u in unknown[:10]:
            lines.append('UNDECIDED obligation %s' % u['obligation'])
        code = 2
    with open(os.path.join(evdir, prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s: %d/%d obligations discharged %s, %d cases, %d paths, %.1f s' % (
        prop, obl, total, json.dumps(how), len(reports), ev['coverage']['paths'], time.time() - t0))
    for l in lines:
        print(l)
    sys.stdout.flush()
    return code
