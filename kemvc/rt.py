"""Helpers visible to generated code (value operations beyond terms.py's constructors)."""
from . import terms as T
from .terms import (add, mul, addw, mulw, subw, shlw, lshr, ashr, and_, or_, xor, eq, ult, slt, not_, slc, sext, popc, ite, shl, band,
                    iszero, concat, Unsupported, hi_of, lo_of)

def ugt(a, b): return ult(b, a)
def ule(a, b): return not_(ult(b, a))
def uge(a, b): return not_(ult(a, b))
M64 = (1 << 64) - 1

def gep(b, off):
    """pointer + constant; symbolic pointers are distributed over their alternatives"""
    if off == 0: return b
    if b.__class__ is int: return (b + off) & M64
    if off < 0: return subw(b, -off, 64)
    return addw(b, off, 64)
def gepi(b, i, s):
    if b.__class__ is int and i.__class__ is int: return (b + i * s) & M64
    return addw(b, mulw(i, s, 64), 64)

def insv(v, w, ix, n):
    if v is None: v = (None,) * n
    i = ix[0]
    if len(ix) > 1: w = insv(v[i], w, ix[1:], len(v[i]))
    return v[:i] + (w,) + v[i + 1:]

def ovf_uadd(a, b, w):
    r = add(a, b); M = 1 << w
    if r.__class__ is int: return (r & (M - 1), 1 if r >= M else 0)
    if r.hi < M: return (r, 0)
    return (slc(r, 0, w), ult(M - 1, r))
def ovf_usub(a, b, w):
    if a.__class__ is int and b.__class__ is int: return ((a - b) & ((1 << w) - 1), 1 if a < b else 0)
    return (subw(a, b, w), ult(a, b))
def ovf_umul(a, b, w):
    r = mul(a, b); M = 1 << w
    if r.__class__ is int: return (r & (M - 1), 1 if r >= M else 0)
    if r.hi < M: return (r, 0)
    return (slc(r, 0, w), ult(M - 1, r))
def _sg(a, w): return a - (1 << w) if a >> (w - 1) else a
def ovf_sadd(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        r = _sg(a, w) + _sg(b, w)
        return (r & ((1 << w) - 1), 0 if -(1 << (w - 1)) <= r < (1 << (w - 1)) else 1)
    r = addw(a, b, w)
    sa = slc(a, w - 1, 1); sb = slc(b, w - 1, 1); sr = slc(r, w - 1, 1)
    return (r, band(eq(sa, sb), not_(eq(sa, sr))))
def ovf_ssub(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        r = _sg(a, w) - _sg(b, w)
        return (r & ((1 << w) - 1), 0 if -(1 << (w - 1)) <= r < (1 << (w - 1)) else 1)
    r = subw(a, b, w)
    sa = slc(a, w - 1, 1); sb = slc(b, w - 1, 1); sr = slc(r, w - 1, 1)
    return (r, band(not_(eq(sa, sb)), not_(eq(sa, sr))))
def ovf_smul(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        r = _sg(a, w) * _sg(b, w)
        return (r & ((1 << w) - 1), 0 if -(1 << (w - 1)) <= r < (1 << (w - 1)) else 1)
    if hi_of(a) * hi_of(b) < (1 << (w - 1)): return (mul(a, b), 0)
    raise Unsupported('signed multiplication')
def uaddsat(a, b, w):
    r, o = ovf_uadd(a, b, w)
    return ite(o, (1 << w) - 1, r)
def usubsat(a, b, w):
    if a.__class__ is int and b.__class__ is int: return a - b if a >= b else 0
    return ite(ult(a, b), 0, subw(a, b, w))
def fsh(a, b, k, w, right):
    if k.__class__ is not int: raise Unsupported('symbolic funnel shift')
    k %= w
    if right: k = (w - k) % w
    if k == 0: return b if right else a
    return or_(shlw(a, k, w), lshr(b, w - k))
def bswap(a, w):
    n = w // 8
    return concat([(slc(a, 8 * (n - 1 - i), 8), 8) for i in range(n)])
def bitrev(a, w): return concat([(slc(a, w - 1 - i, 1), 1) for i in range(w)])
def cttz(a, w):
    if a.__class__ is not int: raise Unsupported('symbolic cttz')
    return w if a == 0 else (a & -a).bit_length() - 1
def ctlz(a, w):
    if a.__class__ is not int: raise Unsupported('symbolic ctlz')
    return w - a.bit_length()
def umin(a, b): return ite(ult(a, b), a, b)
def umax(a, b): return ite(ult(a, b), b, a)
def ucmp(a, b, w): return ite(ult(a, b), (1 << w) - 1, ite(eq(a, b), 0, 1))

ENV = {k: v for k, v in globals().items() if not k.startswith('__')}
