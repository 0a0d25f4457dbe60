"""Extraction: from /repo's working tree to LLVM IR and to a native library.

Nothing is cached: every run compiles the driver against the current tree.
"""
import os
import re
import subprocess
from . import llir

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DGV_REPO', '/repo')
DUNE = '/opt/dune/venv'

CXX = 'clang++-18'
OPT = 'opt-18'
COMMON = ['-std=gnu++20', '-I' + REPO, '-I' + VERIF + '/drivers', '-I' + DUNE + '/include',
          '-ffp-contract=off', '-fno-math-errno', '-w']
IRFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-vectorize', '-fno-slp-vectorize', '-S', '-emit-llvm']
# canonicalisation pipelines: 'O1' for real-valued code, 'light' keeps integer
# arithmetic in source form (no bit tricks)
PIPE = {
    'O1': 'default<O1>',
    'light': 'cgscc(inline),function(sroa,early-cse,simplifycfg,mem2reg),globaldce',
}


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), (r.stdout + r.stderr)[-4000:]))
    return r.stdout


def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))


def keep_calls(ll, patterns):
    """mark the definitions whose demangled name matches as noinline, so that
    calls of them stay visible (contract boundaries)"""
    if not patterns:
        return []
    with open(ll, encoding='utf-8', errors='surrogateescape') as f:
        lines = f.read().split('\n')
    rx = [re.compile(p) for p in patterns]
    names = {}
    for i, L in enumerate(lines):
        if L.startswith('define '):
            m = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', L)
            names[llir.unq('@' + m.group(1))] = i
    d = demangle(list(names))
    kept = []
    for n, i in names.items():
        if any(r.search(d[n]) for r in rx):
            L = lines[i]
            # insert 'noinline' in front of the attribute group
            m = re.search(r' (#\d+)( |$)', L[L.rindex(')'):]) if ') #' in L or ' #' in L else None
            k = L.rfind(' #')
            if k > 0:
                lines[i] = L[:k] + ' noinline' + L[k:]
            else:
                k = L.rfind(' {')
                lines[i] = L[:k] + ' noinline' + L[k:]
            kept.append(d[n])
    with open(ll, 'w', encoding='utf-8', errors='surrogateescape') as f:
        f.write('\n'.join(lines))
    return kept


def build_ir(driver, out, defines=(), keep=(), pipe='O1'):
    src = os.path.join(VERIF, 'drivers', driver + '.cc')
    raw = out + '.raw.ll'
    ll = out + '.ll'
    sh([CXX] + COMMON + IRFLAGS + ['-D' + d for d in defines] + [src, '-o', raw])
    kept = keep_calls(raw, keep)
    sh([OPT, '-passes=' + PIPE[pipe], '-S', raw, '-o', ll])
    os.unlink(raw)
    return ll, kept


def build_native(driver, out, defines=(), san=False):
    src = os.path.join(VERIF, 'drivers', driver + '.cc')
    so = out + ('.san.so' if san else '.so')
    fl = ['-O1', '-shared', '-fPIC']
    if san:
        fl += ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-shared-libsan', '-g']
    sh([CXX] + COMMON + fl + ['-D' + d for d in defines] + [src, '-o', so,
       '-L' + DUNE + '/lib', '-ldunecommon', '-Wl,-rpath,' + DUNE + '/lib', '-llapack', '-lblas'])
    return so
