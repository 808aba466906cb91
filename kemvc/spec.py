"""Specification functions over terms.  Every function here also runs on plain integers (the term constructors
fold constants, and `papp` evaluates contract functions whose arguments are all concrete), so the text that is
used as postcondition is itself tested against hashlib and against the natively compiled code on every run."""
from . import terms as T
from .terms import add, slc, concat, modq, res, xor, ite, eq, band, agg, agg_vals, canon, Q, U64
import numpy as np

# ------------------------------------------------------------- Keccak
_RC = []
def _init():
    r = 1
    for i in range(24):
        rc = 0
        for j in range(7):
            if r & 1: rc |= 1 << ((1 << j) - 1)
            r = (r << 1) ^ (0x171 if r & 0x80 else 0)
        _RC.append(rc)
_init()
_ROT = [[0] * 5 for _ in range(5)]
def _initrot():
    x, y = 1, 0
    for t in range(24):
        _ROT[x][y] = ((t + 1) * (t + 2) // 2) % 64
        x, y = y, (2 * x + 3 * y) % 5
_initrot()
M64 = (1 << 64) - 1
def _rol(v, n): return ((v << n) | (v >> (64 - n))) & M64 if n else v
def keccak_f(bs):
    """Keccak-p[1600,24] on 200 concrete bytes (FIPS 202)"""
    A = [[int.from_bytes(bytes(bs[8 * (x + 5 * y):8 * (x + 5 * y) + 8]), 'little') for y in range(5)] for x in range(5)]
    for rc in _RC:
        C = [A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4] for x in range(5)]
        D = [C[(x - 1) % 5] ^ _rol(C[(x + 1) % 5], 1) for x in range(5)]
        B = [[0] * 5 for _ in range(5)]
        for x in range(5):
            for y in range(5):
                B[y][(2 * x + 3 * y) % 5] = _rol(A[x][y] ^ D[x], _ROT[x][y])
        A = [[B[x][y] ^ (~B[(x + 1) % 5][y] & M64 & B[(x + 2) % 5][y]) for y in range(5)] for x in range(5)]
        A[0][0] ^= rc
    out = bytearray()
    for i in range(25): out += A[i % 5][i // 5].to_bytes(8, 'little')
    return bytes(out)

_cache = {}
def _cached(fn, name):
    def ev(extra, *aggs):
        k = (name, extra[1:] if isinstance(extra, tuple) else None, aggs)
        r = _cache.get(k)
        if r is None:
            if len(_cache) > 4000: _cache.clear()
            r = _cache[k] = fn(extra, *aggs)
        return r[extra[0] if isinstance(extra, tuple) else extra]
    return ev
def papp(fn, extra, aggs, hi):
    if all(v.__class__ is int for g in aggs for v in agg_vals(g)):
        return T.APPS[fn](extra, *[agg_vals(g) for g in aggs])
    return T.app(fn, extra, aggs, hi)
T.APPS['KECCAK'] = _cached(lambda e, s: keccak_f(s), 'KECCAK')

def keccak_bytes(state):
    """200 byte terms -> 200 byte terms"""
    g = agg(state)
    return [papp('KECCAK', i, (g,), 255) for i in range(200)]

def sponge_state(rate, suffix, msg):
    """state (200 bytes) whose permutation gives the first output block"""
    st = [0] * 200
    m = list(msg)
    while len(m) >= rate:
        st = [xor(st[i], m[i]) if i < rate else st[i] for i in range(200)]
        st = keccak_bytes(st)
        m = m[rate:]
    m = m + [suffix] + [0] * (rate - len(m) - 1)
    m[rate - 1] = xor(m[rate - 1], 0x80)
    return [xor(st[i], m[i]) if i < rate else st[i] for i in range(200)]
def squeeze(rate, st, n):
    out = []
    st = keccak_bytes(st)
    while True:
        out += st[:rate]
        if len(out) >= n: return out[:n]
        st = keccak_bytes(st)
def sha3_256(m): return squeeze(136, sponge_state(136, 6, m), 32)
def sha3_512(m): return squeeze(72, sponge_state(72, 6, m), 64)
def shake256(m, n): return squeeze(136, sponge_state(136, 0x1f, m), n)
def shake128(m, n): return squeeze(168, sponge_state(168, 0x1f, m), n)

# ------------------------------------------------------------- ring
def bitrev7(i): return int('{:07b}'.format(i)[::-1], 2)
ZETA = [pow(17, bitrev7(i), Q) for i in range(128)]
GAMMA = [pow(17, 2 * bitrev7(i) + 1, Q) for i in range(128)]
def ntt_matrix():
    """NTT as a linear map (FIPS 203, eq. 4.12 / section 4.3): f^_{2i+b} = sum_j f_{2j+b} * zeta^{(2 BitRev7(i)+1) j}"""
    Mx = np.zeros((256, 256), dtype=np.int64)
    for i in range(128):
        g = GAMMA[i]; p = 1
        for j in range(128):
            Mx[2 * i, 2 * j] = p; Mx[2 * i + 1, 2 * j + 1] = p
            p = p * g % Q
    return Mx
def intt_matrix():
    Mx = np.zeros((256, 256), dtype=np.int64)
    inv128 = pow(128, Q - 2, Q)
    for i in range(128):
        g = pow(GAMMA[i], Q - 2, Q); p = inv128
        for j in range(128):
            Mx[2 * j, 2 * i] = p; Mx[2 * j + 1, 2 * i + 1] = p
            p = p * g % Q
    return Mx
_NTT = ntt_matrix(); _INTT = intt_matrix()
def _lin(Mx): return lambda e, v: [int(x) for x in (Mx @ np.array(v, dtype=np.int64)) % Q]
T.APPS['NTT'] = _cached(_lin(_NTT), 'NTT')
T.APPS['INTT'] = _cached(_lin(_INTT), 'INTT')

def samplentt_concrete(e, st): return samplentt_post(keccak_f(bytes(st)))
def samplentt_post(st):
    st = bytes(st); buf = st[:168]; out = []; pos = 0
    while len(out) < 256:
        if pos + 3 > len(buf):
            st = keccak_f(st); buf = buf[pos:] + st[:168]; pos = 0
        a, b, c = buf[pos:pos + 3]; pos += 3
        d1 = a + 256 * (b % 16); d2 = b // 16 + 16 * c
        if d1 < Q: out.append(d1)
        if d2 < Q and len(out) < 256: out.append(d2)
    return out
T.APPS['SAMPLENTT'] = _cached(samplentt_concrete, 'SAMPLENTT')

def ntt(f):
    g = agg([canon(x) for x in f])
    return [papp('NTT', i, (g,), Q - 1) for i in range(256)]
def intt(f):
    g = agg([canon(x) for x in f])
    return [papp('INTT', i, (g,), Q - 1) for i in range(256)]
def padd(f, g): return [modq(T.poly_add(res(a), res(b))) for a, b in zip(f, g)]
def psub(f, g): return [modq(T.poly_add(res(a), T.poly_scale(res(b), Q - 1))) for a, b in zip(f, g)]
def pmul(f, g):
    """MultiplyNTTs (FIPS 203 algorithms 11, 12)"""
    out = []
    for i in range(128):
        a0, a1, b0, b1 = res(f[2 * i]), res(f[2 * i + 1]), res(g[2 * i]), res(g[2 * i + 1])
        out.append(modq(T.poly_add(T.poly_mul(a0, b0), T.poly_scale(T.poly_mul(a1, b1), GAMMA[i]))))
        out.append(modq(T.poly_add(T.poly_mul(a0, b1), T.poly_mul(a1, b0))))
    return out
def pdot(fs, gs):
    acc = None
    for f, g in zip(fs, gs):
        p = pmul(f, g)
        acc = p if acc is None else padd(acc, p)
    return acc

# ------------------------------------------------------------- codecs (FIPS 203, 4.2.1)
def tab(v, f):
    """f applied to a small-range value, as a table"""
    if v.__class__ is int: return f(v)
    b = v.base
    if not T.is_small(b): raise T.Unsupported('tab')
    arr = np.array([f(x) for x in range(v.lo, v.hi + 1)], dtype=U64)
    if v is b: return T.mk_lut(b, arr)
    t = T.table_of(v, b)
    return T.mk_lut(b, arr[(t - U64(v.lo)).astype(np.int64)])
def compress(d, v): return tab(v, lambda x: ((x * (1 << d) + Q // 2) // Q) % (1 << d))     # round half up; ties impossible (q odd)
def decompress(d, v): return tab(v, lambda y: (y * Q + (1 << (d - 1))) >> d)
def byte_encode(d, f):
    """coefficients (< 2^d) to 32 d bytes, bit by bit"""
    n = 32 * d
    out = []
    bits = []
    for c in f:
        for k in range(d): bits.append(slc(c, k, 1))
    for i in range(n): out.append(concat([(bits[8 * i + k], 1) for k in range(8)]))
    return out
def byte_decode(d, bs):
    bits = []
    for b in bs:
        for k in range(8): bits.append(slc(b, k, 1))
    out = []
    for i in range(256):
        v = concat([(bits[d * i + k], 1) for k in range(d)])
        if d == 12: v = modq(res(v)) if v.__class__ is not int else v % Q
        out.append(v)
    return out

def sample_cbd(eta, bs):
    bits = []
    for b in bs:
        for k in range(8): bits.append(slc(b, k, 1))
    out = []
    for i in range(256):
        v = concat([(bits[2 * eta * i + k], 1) for k in range(2 * eta)])
        out.append(tab(v, lambda x: (bin(x & ((1 << eta) - 1)).count('1') - bin(x >> eta).count('1')) % Q))
    return [canon(x) for x in out]
def sample_ntt(seed34):
    g = agg(sponge_state(168, 0x1f, seed34))
    return [papp('SAMPLENTT', i, (g,), Q - 1) for i in range(256)]

# ------------------------------------------------------------- ML-KEM (FIPS 203, 5 and 6)
class Params:
    def __init__(s, name, k, eta1, eta2, du, dv):
        s.name = name; s.k = k; s.eta1 = eta1; s.eta2 = eta2; s.du = du; s.dv = dv
        s.ek = 384 * k + 32; s.dk = 768 * k + 96; s.ct = 32 * (du * k + dv)
PARAMS = {512: Params('512', 2, 3, 2, 10, 4), 768: Params('768', 3, 2, 2, 10, 4), 1024: Params('1024', 4, 2, 2, 11, 5)}

def prf(eta, s, b): return shake256(list(s) + [b], 64 * eta)
def pke_keygen(P, d):
    h = sha3_512(list(d) + [P.k])
    rho, sigma = h[:32], h[32:]
    A = [[sample_ntt(rho + [j, i]) for j in range(P.k)] for i in range(P.k)]
    s = [ntt(sample_cbd(P.eta1, prf(P.eta1, sigma, n))) for n in range(P.k)]
    e = [ntt(sample_cbd(P.eta1, prf(P.eta1, sigma, P.k + n))) for n in range(P.k)]
    t = [padd(pdot(A[i], s), e[i]) for i in range(P.k)]
    ek = [b for x in t for b in byte_encode(12, x)] + rho
    dk = [b for x in s for b in byte_encode(12, x)]
    return ek, dk
def pke_encrypt(P, ek, m, r):
    t = [byte_decode(12, ek[384 * i:384 * i + 384]) for i in range(P.k)]
    rho = ek[384 * P.k:]
    A = [[sample_ntt(rho + [j, i]) for j in range(P.k)] for i in range(P.k)]
    y = [ntt(sample_cbd(P.eta1, prf(P.eta1, r, n))) for n in range(P.k)]
    e1 = [sample_cbd(P.eta2, prf(P.eta2, r, P.k + n)) for n in range(P.k)]
    e2 = sample_cbd(P.eta2, prf(P.eta2, r, 2 * P.k))
    u = [padd(intt(pdot([A[i][j] for i in range(P.k)], y)), e1[j]) for j in range(P.k)]
    mu = [decompress(1, b) for b in byte_decode(1, m)]
    v = padd(padd(intt(pdot(t, y)), e2), mu)
    c1 = [b for x in u for b in byte_encode(P.du, [compress(P.du, c) for c in x])]
    c2 = byte_encode(P.dv, [compress(P.dv, c) for c in v])
    return c1 + c2
def pke_decrypt(P, dk, c): return byte_encode(1, [compress(1, x) for x in pke_decrypt_w(P, dk, c)])
def pke_decrypt_w(P, dk, c):
    n = 32 * P.du
    u = [[decompress(P.du, x) for x in byte_decode(P.du, c[n * i:n * i + n])] for i in range(P.k)]
    v = [decompress(P.dv, x) for x in byte_decode(P.dv, c[n * P.k:])]
    s = [byte_decode(12, dk[384 * i:384 * i + 384]) for i in range(P.k)]
    return psub(v, intt(pdot(s, [ntt(x) for x in u])))
def ek_canonical(P, ek):
    """the encapsulation key as the decoder sees it: ByteEncode12(ByteDecode12(.)), coefficients reduced mod q"""
    out = []
    for i in range(P.k): out += byte_encode(12, byte_decode(12, ek[384 * i:384 * i + 384]))
    return out + list(ek[384 * P.k:])
H = sha3_256
def keygen(P, d, z):
    ek, dkp = pke_keygen(P, d)
    return ek, dkp + ek + sha3_256(ek) + list(z)
def encaps(P, ek, m):
    ek = ek_canonical(P, ek)
    kr = sha3_512(list(m) + sha3_256(ek))
    return kr[:32], pke_encrypt(P, ek, m, kr[32:])
def dk_split(P, dk):
    a = 384 * P.k
    return dk[:a], dk[a:a + P.ek], dk[a + P.ek:a + P.ek + 32], dk[a + P.ek + 32:]
def decaps_parts(P, dk, c):
    dkp, ek, h, z = dk_split(P, dk)
    ek = ek_canonical(P, ek)
    m = pke_decrypt(P, dkp, c)
    kr = sha3_512(m + list(h))
    kbar = shake256(list(z) + list(c), 32)
    c2 = pke_encrypt(P, ek, m, kr[32:])
    return kr[:32], kbar, c2
def decaps(P, dk, c):
    k, kbar, c2 = decaps_parts(P, dk, c)
    same = band(*[eq(a, b) for a, b in zip(c, c2)])
    return [ite(same, a, b) for a, b in zip(k, kbar)]

# ------------------------------------------------------------- X25519 as an uninterpreted function (assumed contract of curve25519-dalek)
def _x25519(e, k, u):
    from . import ref
    return ref.x25519(bytes(k), bytes(u))
T.APPS['X25519'] = _cached(_x25519, 'X25519')
def _x25519dh(e, a, b):
    from . import ref
    return ref.x25519(bytes(a), ref.x25519(bytes(b), ref.X9))
T.APPS['X25519DH'] = _cached(_x25519dh, 'X25519DH')
X9 = [9] + [0] * 31
def x25519(k, u):
    """X25519(k, u) of RFC 7748: depends on the clamped scalar and on u without its top bit; the law
    X25519(a, X25519(b, 9)) = X25519(b, X25519(a, 9)) is built into the normal form"""
    k = list(k); u = list(u)
    k = [T.and_(k[0], 248)] + k[1:31] + [T.or_(T.and_(k[31], 127), 64)]
    u = u[:31] + [T.and_(u[31], 127)]
    if all(v.__class__ is int for v in k + u): return [T.APPS['X25519'](i, tuple(k), tuple(u)) for i in range(32)]
    gk = agg(k); g9 = agg(X9)
    x = u[0]
    if x.__class__ is not int and x.op == 'app' and x.args[0] == 'X25519' and x.args[2][1] == g9:
        b = x.args[2][0]
        if u == [papp('X25519', i, (b, g9), 127 if i == 31 else 255) for i in range(32)]:
            return [papp('X25519DH', i, tuple(sorted((gk, b))), 127 if i == 31 else 255) for i in range(32)]
    gu = agg(u)
    return [papp('X25519', i, (gk, gu), 127 if i == 31 else 255) for i in range(32)]

# ------------------------------------------------------------- X-Wing (draft-connolly-cfrg-xwing-kem)
XLABEL = [0x5c, 0x2e, 0x2f, 0x2f, 0x5e, 0x5c]
def xw_expand(sk):
    e = shake128(list(sk), 96)
    return e[:32], e[32:64], e[64:]
def xw_combine(ssm, ssx, ctx, pkx): return sha3_256(XLABEL + list(ssm) + list(ssx) + list(ctx) + list(pkx))
def xw_pk(sk):
    d, z, x = xw_expand(sk)
    ek, dk = keygen(PARAMS[768], d, z)
    return ek + x25519(x, X9)
def xw_encaps(pk, m, e):
    ssm, ctm = encaps(PARAMS[768], pk[:1184], m)
    ctx = x25519(e, X9)
    return ctm + ctx, xw_combine(ssm, x25519(e, pk[1184:]), ctx, pk[1184:])
def xw_decaps(sk, ct):
    d, z, x = xw_expand(sk)
    ek, dk = keygen(PARAMS[768], d, z)
    ssm = decaps(PARAMS[768], dk, ct[:1088])
    return xw_combine(ssm, x25519(x, ct[1088:]), ct[1088:], x25519(x, X9))
