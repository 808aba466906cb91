"""Independent concrete reference (hashlib + numpy), used only to replay and search for failing inputs and to
cross-check the specification terms.  Never part of a proof."""
import hashlib
import numpy as np
Q = 3329
def _br(i): return int('{:07b}'.format(i)[::-1], 2)
ZETAS = [pow(17, _br(i), Q) for i in range(128)]
GAM = np.array([pow(17, 2 * _br(i) + 1, Q) for i in range(128)], dtype=np.int64)
def ntt(f):
    """Algorithm 9 of FIPS 203, in place on a copy; f: (..., 256)"""
    f = np.array(f, dtype=np.int64) % Q
    i = 1; ln = 128
    while ln >= 2:
        g = f.reshape(f.shape[:-1] + (256 // (2 * ln), 2, ln))
        z = np.array(ZETAS[i:i + 256 // (2 * ln)], dtype=np.int64)[:, None]
        t = z * g[..., 1, :] % Q
        a = g[..., 0, :]
        f = np.stack([(a + t) % Q, (a - t) % Q], axis=-2).reshape(f.shape)
        i += 256 // (2 * ln); ln //= 2
    return f
def intt(f):
    """Algorithm 10"""
    f = np.array(f, dtype=np.int64) % Q
    i = 127; ln = 2
    while ln <= 128:
        nb = 256 // (2 * ln)
        g = f.reshape(f.shape[:-1] + (nb, 2, ln))
        z = np.array([ZETAS[i - k] for k in range(nb)], dtype=np.int64)[:, None]
        a = g[..., 0, :]; b = g[..., 1, :]
        f = np.stack([(a + b) % Q, z * (b - a) % Q], axis=-2).reshape(f.shape)
        i -= nb; ln *= 2
    return f * 3303 % Q
def mul(a, b):
    a0, a1, b0, b1 = a[..., 0::2], a[..., 1::2], b[..., 0::2], b[..., 1::2]
    c = np.empty(np.broadcast(a, b).shape, dtype=np.int64)
    c[..., 0::2] = (a0 * b0 + (a1 * b1 % Q) * GAM) % Q
    c[..., 1::2] = (a0 * b1 + a1 * b0) % Q
    return c
def enc(d, f):
    f = np.asarray(f, dtype=np.int64).reshape(-1)
    bits = ((f[:, None] >> np.arange(d)) & 1).astype(np.uint8).reshape(-1)
    return np.packbits(bits, bitorder='little').tobytes()
def dec(d, bs):
    bits = np.unpackbits(np.frombuffer(bs, dtype=np.uint8), bitorder='little').astype(np.int64).reshape(-1, d)
    v = (bits << np.arange(d)).sum(axis=1)
    if d == 12: v %= Q
    return v.reshape(-1, 256)
def compress(d, x): return ((x << d) * 2 + Q) // (2 * Q) % (1 << d)
def decompress(d, y): return (y * Q * 2 + (1 << d)) >> (d + 1)
def cbd(eta, bs):
    bits = np.unpackbits(np.frombuffer(bs, dtype=np.uint8), bitorder='little').astype(np.int64).reshape(256, 2, eta)
    s = bits.sum(axis=2)
    return (s[:, 0] - s[:, 1]) % Q
def sample_stream(bs):
    b = np.frombuffer(bs, dtype=np.uint8).astype(np.int64).reshape(-1, 3)
    d1 = b[:, 0] + 256 * (b[:, 1] % 16); d2 = b[:, 1] // 16 + 16 * b[:, 2]
    v = np.stack([d1, d2], axis=1).reshape(-1)
    return v[v < Q][:256]
def sample_ntt(seed):
    n = 672
    while True:
        v = sample_stream(hashlib.shake_128(seed).digest(n))
        if len(v) == 256: return v
        n += 504
PAR = {512: (2, 3, 2, 10, 4), 768: (3, 2, 2, 10, 4), 1024: (4, 2, 2, 11, 5)}
def sizes(N):
    k, e1, e2, du, dv = PAR[N]
    return 384 * k + 32, 768 * k + 96, 32 * (du * k + dv)
def G(*m): return hashlib.sha3_512(b''.join(m)).digest()
def H(m): return hashlib.sha3_256(m).digest()
def J(*m): return hashlib.shake_256(b''.join(m)).digest(32)
def prf(eta, s, n): return cbd(eta, hashlib.shake_256(s + bytes([n])).digest(64 * eta))
def matA(rho, k): return np.array([[sample_ntt(rho + bytes([j, i])) for j in range(k)] for i in range(k)])
def pke_kg(N, d):
    k, e1, e2, du, dv = PAR[N]
    g = G(d, bytes([k])); rho, sg = g[:32], g[32:]
    A = matA(rho, k)
    s = ntt(np.array([prf(e1, sg, n) for n in range(k)])); e = ntt(np.array([prf(e1, sg, k + n) for n in range(k)]))
    t = (sum(mul(A[:, j], s[j][None]) for j in range(k)) + e) % Q
    return enc(12, t) + rho, enc(12, s)
def pke_enc(N, ek, m, r):
    k, e1, e2, du, dv = PAR[N]
    t = dec(12, ek[:384 * k]); A = matA(ek[384 * k:], k)
    y = ntt(np.array([prf(e1, r, n) for n in range(k)])); er = np.array([prf(e2, r, k + n) for n in range(k)])
    e2_ = prf(e2, r, 2 * k)
    u = (intt(sum(mul(A[i], y[i][None]) for i in range(k))) + er) % Q
    mu = decompress(1, dec(1, m)[0])
    v = (intt(sum(mul(t[i], y[i]) for i in range(k))) + e2_ + mu) % Q
    return enc(du, compress(du, u)) + enc(dv, compress(dv, v))
def pke_dec(N, dk, c):
    k, e1, e2, du, dv = PAR[N]
    u = decompress(du, dec(du, c[:32 * du * k])); v = decompress(dv, dec(dv, c[32 * du * k:])[0])
    s = dec(12, dk)
    w = (v - intt(sum(mul(s[i], ntt(u[i])) for i in range(k)))) % Q
    return enc(1, compress(1, w))
def canon_ek(N, ek):
    k = PAR[N][0]
    return enc(12, dec(12, ek[:384 * k])) + ek[384 * k:]
def keygen(N, d, z):
    ek, s = pke_kg(N, d)
    return ek, s + ek + H(ek) + z
def encaps(N, ek, m):
    ek = canon_ek(N, ek)
    g = G(m, H(ek))
    return g[:32], pke_enc(N, ek, m, g[32:])
def decaps(N, dk, c):
    k = PAR[N][0]; e = 384 * k + 32
    s, ek, h, z = dk[:384 * k], canon_ek(N, dk[384 * k:384 * k + e]), dk[384 * k + e:384 * k + e + 32], dk[-32:]
    m = pke_dec(N, s, c)
    g = G(m, h)
    return g[:32] if pke_enc(N, ek, m, g[32:]) == c else J(z, c)
def canon_dk(N, dk):
    k = PAR[N][0]; e = 384 * k + 32
    return enc(12, dec(12, dk[:384 * k])) + canon_ek(N, dk[384 * k:384 * k + e]) + dk[384 * k + e:]

# ---- X25519 (RFC 7748)
P25519 = 2 ** 255 - 19
def x25519(k, u):
    k = bytearray(k); k[0] &= 248; k[31] &= 127; k[31] |= 64
    k = int.from_bytes(k, 'little'); x1 = (int.from_bytes(u, 'little') & (2 ** 255 - 1)) % P25519
    x2, z2, x3, z3, sw = 1, 0, x1, 1, 0; p = P25519
    for t in range(254, -1, -1):
        b = (k >> t) & 1
        if sw ^ b: x2, x3, z2, z3 = x3, x2, z3, z2
        sw = b
        A = x2 + z2; AA = A * A % p; B = x2 - z2; BB = B * B % p; E = AA - BB
        C = x3 + z3; D = x3 - z3; DA = D * A % p; CB = C * B % p
        x3 = (DA + CB) ** 2 % p; z3 = x1 * (DA - CB) ** 2 % p
        x2 = AA * BB % p; z2 = E * (AA + 121665 * E) % p
    if sw: x2, z2 = x3, z3
    return (x2 * pow(z2, p - 2, p) % p).to_bytes(32, 'little')
X9 = (9).to_bytes(32, 'little')
# ---- X-Wing (draft-connolly-cfrg-xwing-kem)
def xwing_expand(seed):
    b = hashlib.shake_128(seed).digest(96)
    return b[:32], b[32:64], b[64:]

XLABEL = bytes([0x5c, 0x2e, 0x2f, 0x2f, 0x5e, 0x5c])
def xwing_combine(ssm, ssx, ctx, pkx): return hashlib.sha3_256(XLABEL + ssm + ssx + ctx + pkx).digest()
def xwing_pk(seed):
    d, z, skx = xwing_expand(seed)
    ek, dk = keygen(768, d, z)
    return ek + x25519(skx, X9)
def xwing_encaps(pk, m, ekx):
    ssm, ctm = encaps(768, pk[:1184], m)
    pkx = pk[1184:]
    ctx = x25519(ekx, X9); ssx = x25519(ekx, pkx)
    return xwing_combine(ssm, ssx, ctx, pkx), ctm + ctx
def xwing_decaps(seed, ct):
    d, z, skx = xwing_expand(seed)
    ek, dk = keygen(768, d, z)
    ssm = decaps(768, dk, ct[:1088])
    return xwing_combine(ssm, x25519(skx, ct[1088:]), ct[1088:], x25519(skx, X9))
