"""helper process: call one entry point of a native driver"""
import ctypes
import json
import sys

d = json.loads(sys.stdin.read())
lib = ctypes.CDLL(d['so'])
x = [float.fromhex(v) for v in d['x']]


def s64(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v


X = (ctypes.c_double * max(1, len(x)))(*x)
I = (ctypes.c_int64 * max(1, len(d['iin'])))(*[s64(v) for v in d['iin']])
O = (ctypes.c_double * max(1, d['nout']))()
J = (ctypes.c_int64 * max(1, d['niout']))()
r = getattr(lib, d['entry'])(X, I, O, J)
print()
print(json.dumps({'ret': r, 'out': [v.hex() for v in list(O)[:d['nout']]], 'iout': list(J)[:d['niout']]}))
