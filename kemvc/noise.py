"""C12: honest decryption returns the message whenever the noise stays below the threshold.  Lemmas over the specification terms
which key generation, encapsulation and decapsulation are proved (in the same check) to compute."""
import numpy as np
from . import terms as T, spec as S
from .terms import sym, Unsupported, Q, res, modq, tables, U64
from .mlkem import sy

def split(v):
    """residue of v, where a table over a ring element b (a decompressed compression of b) is written b + (table(b) - b)"""
    if v.__class__ is not int and v.op == 'lut' and v.args[0].op == 'modq':
        b = v.args[0]
        t = tables[v.args[1]].astype(np.int64)
        d = T.mk_lut(b, ((t - np.arange(b.lo, b.hi + 1)) % Q).astype(U64))
        return T.poly_add(res(b), res(d))
    return res(v)
def splitpoly(p):
    out = {}
    for m, c in p.items():
        if len(m) == 1: out = T.poly_add(out, T.poly_scale(split(m[0]), c))
        else: out = T.poly_add(out, {m: c})
    return out
def is_intt(a, i): return a.op == 'app' and a.args[0] == 'INTT' and a.args[1] == i
def pull(F):
    """F = H + sum c INTT(g): -> (H, [(c, g)])"""
    F = [dict(f) for f in F]; gs = []
    for m, c in list(F[0].items()):
        if len(m) == 1 and is_intt(m[0], 0):
            g = m[0].args[2]
            at = [T.app('INTT', i, g, Q - 1) for i in range(256)]
            if all(F[i].get((at[i],)) == c for i in range(256)):
                for i in range(256): del F[i][(at[i],)]
                gs.append((c, T.agg_vals(g[0])))
    return F, gs
def smart_ntt(plain):
    """NTT(H + sum c INTT(g)) = NTT(H) + sum c g   (linearity, NTT o INTT = identity)"""
    def ntt(f):
        F, gs = pull([split(x) for x in f])
        if not gs: return plain(f)
        out = [res(x) for x in plain([modq(x) for x in F])]
        for c, g in gs: out = [T.poly_add(o, T.poly_scale(res(x), c)) for o, x in zip(out, g)]
        return [modq(o) for o in out]
    return ntt

def polys_equal(a, b): return a == b

def job_lemma(N):
    def job(rec):
        P = S.PARAMS[N]; what = 'noise-%d' % N
        rec.req(((S._NTT @ S._INTT) % Q == np.eye(256, dtype=np.int64)).all() and ((S._INTT @ S._NTT) % Q == np.eye(256, dtype=np.int64)).all(),
                what + ': NTT and inverse NTT matrices are inverse to each other', by='enumeration')
        d, z, m = sy('d', 32), sy('z', 32), sy('m', 32)
        ek, dk = S.keygen(P, d, z)
        K, c = S.encaps(P, ek, m)
        # agreement when decryption returns the message
        kr = S.sha3_512(m + list(S.dk_split(P, dk)[2]))
        old = S.pke_decrypt
        S.pke_decrypt = lambda P_, dk_, c_: list(m)
        try: K2 = S.decaps(P, dk, c)
        finally: S.pke_decrypt = old
        rec.eq(what + ': decapsulated secret equals the encapsulated one when decryption returns the message', K2, K)
        rec.req(S.ek_canonical(P, ek) == list(ek), what + ': generated encapsulation keys are canonical')
        # noise identity
        plain = S.ntt
        S.ntt = smart_ntt(plain)
        try: w = S.pke_decrypt_w(P, S.dk_split(P, dk)[0], c)
        finally: S.ntt = plain
        h = S.sha3_512(list(d) + [P.k]); sigma = h[32:]
        r = S.sha3_512(list(m) + S.sha3_256(ek))[32:]
        shat = [S.ntt(S.sample_cbd(P.eta1, S.prf(P.eta1, sigma, n))) for n in range(P.k)]
        ehat = [S.ntt(S.sample_cbd(P.eta1, S.prf(P.eta1, sigma, P.k + n))) for n in range(P.k)]
        yhat = [S.ntt(S.sample_cbd(P.eta1, S.prf(P.eta1, r, n))) for n in range(P.k)]
        e1 = [S.sample_cbd(P.eta2, S.prf(P.eta2, r, P.k + n)) for n in range(P.k)]
        e2 = S.sample_cbd(P.eta2, S.prf(P.eta2, r, 2 * P.k))
        rho = h[:32]
        A = [[S.sample_ntt(rho + [j, i]) for j in range(P.k)] for i in range(P.k)]
        that = [S.padd(S.pdot(A[i], shat), ehat[i]) for i in range(P.k)]
        u = [S.padd(S.intt(S.pdot([A[i][j] for i in range(P.k)], yhat)), e1[j]) for j in range(P.k)]
        mu = [S.decompress(1, b) for b in S.byte_decode(1, m)]
        v = S.padd(S.padd(S.intt(S.pdot(that, yhat)), e2), mu)
        arr = {}
        def err(dd, x):
            """rounding error of d-bit compression of a ring element, as a table over it"""
            if dd not in arr: arr[dd] = np.array([(S.decompress(dd, S.compress(dd, y)) - y) % Q for y in range(Q)], dtype=U64)
            return T.mk_lut(x, arr[dd])
        cu = [[err(P.du, x) for x in uj] for uj in u]; cv = [err(P.dv, x) for x in v]
        xhat = [S.ntt([modq(T.poly_add(res(a), res(b))) for a, b in zip(e1[j], cu[j])]) for j in range(P.k)]
        E = S.psub(S.pdot(ehat, yhat), S.pdot(shat, xhat))
        W, gs = pull([splitpoly(res(x)) for x in w])
        G = [{} for _ in range(256)]
        for cc, g in gs: G = [T.poly_add(a, T.poly_scale(res(b), cc)) for a, b in zip(G, g)]
        bad = [i for i in range(256) if G[i] != res(E[i])]
        rec.ok(what + ': transform-domain noise is e.y - s.(e1 + rounding of u) (per coefficient)', 256 - len(bad))
        if bad: rec.fail(what + ': transform-domain noise is e.y - s.(e1 + rounding of u) (per coefficient)', 'coefficients %s' % bad[:5], len(bad))
        want = [T.poly_add(T.poly_add(res(a), res(b)), res(c_)) for a, b, c_ in zip(mu, e2, cv)]
        bad = [i for i in range(256) if W[i] != want[i]]
        rec.ok(what + ': decrypted ring element is message + e2 + rounding of v + inverse transform of that noise (per coefficient)', 256 - len(bad))
        if bad: rec.fail(what + ': decrypted ring element is message + e2 + rounding of v + inverse transform of that noise (per coefficient)', 'coefficients %s' % bad[:5], len(bad))
        rec.req(any(G[i] != res(S.pdot(ehat, yhat)[i]) for i in range(256)), what + ': wrong noise formula rejected (vacuity guard)')
        # threshold
        ok = all(S.compress(1, (S.decompress(1, b) + n) % Q) == b for b in (0, 1) for n in range(-831, 832))
        rec.req(ok, what + ': Compress1(Decompress1(b) + n) = b for every |n| <= 831', by='enumeration', n=2 * 1663)
        rec.req(S.compress(1, (S.decompress(1, 1) + 832) % Q) == 0, what + ': the threshold is tight', by='enumeration')
        for dd in {P.du, P.dv}:
            b = max(min(int(x), Q - int(x)) for x in arr[dd])
            rec.req(b <= (Q + (1 << dd)) // (1 << (dd + 1)), what + ': rounding error of %d-bit compression at most round(q/2^%d)' % (dd, dd + 1), 'error %d' % b, by='enumeration')
    return (('noise-%d' % N), job)
