"""Function-level contracts of the ml-kem crate (properties C01 to C05): each unit runs one function of /repo on all
inputs its precondition admits and compares every output with the specification.

A unit whose function cannot be found under its name and calling shape (renamed, merged, split by a refactoring) is
`lost`: then the property is decided end to end instead (kemvc.mlkem.job_conf on every entry point and parameter set),
where every use of the operation reaches an output."""
import re
import numpy as np
from . import terms as T, spec as S, contracts as C
from .terms import sym, Unsupported, Q, U64
from .exec import Machine, Dead

P = ('p',); V = ('v',)
def norm(n): return re.sub(r'(hybrid_array|typenum::uint|typenum::bit)::', '', n)
class Units:
    def __init__(self, W):
        self.W = W; self.by = {}; self.lost = []; self.jobs = []
        for f in W.prog.all_funcs: self.by.setdefault(norm(f.short), []).append(f)
        for k in self.by: self.by[k].sort(key=lambda f: f.name)
    def fn(self, name, ret, args):
        """the compiled function with this path and calling shape (a trailing panic location argument is allowed)"""
        fs = self.by.get(name) or []
        for f in fs:
            rt, ps = f.sig
            at = [p[0] for p in ps]
            if rt == ret and at == args: return f
        self.lost.append(name)
        return None
    def unit(self, label, name, ret, args, job):
        f = self.fn(name, ret, args)
        if f is None: return
        def go(rec, f=f):
            rec.ctx(self.W.ctx)
            job(rec, f, label)
        self.jobs.append((label, go))

def polys(name, k, hi=Q - 1): return [[sym('%s%d_%d' % (name, j, i), hi) for i in range(256)] for j in range(k)]
def put(M, ps): return M.new([x for p in ps for c in p for x in C.cells16(c)])
def blank(M, k): return M.new([None] * (512 * k))
def get(M, p, k): return [x for j in range(k) for x in C.rd_poly(M, p + 512 * j)]
def flat(ps): return [x for p in ps for x in p]
def bytes_sym(n, l): return [sym('%s%d' % (n, i)) for i in range(l)]
def guard(rec, what, got, want):
    """a wrong postcondition must be rejected"""
    for a, b in zip(got, want[1:] + want[:1]):
        if a is not None and a.__class__ is not int: break
    rec.req(T.equal(a, b) is not True, what + ': wrong postcondition rejected (vacuity guard)')
def body(W, rec, what, f, mk):
    M = Machine(W.prog)
    args, read = mk(M)
    old = f.hook; f.hook = None            # the unit's own contract is never used to prove it
    try: M.call(f, args)
    finally: f.hook = old
    rec.machine(M, what)
    return read(M)

# ------------------------------------------------------------------------------------------------- C01
def ring_units(W):
    U = Units(W)
    FE = 'ml_kem::algebra::FieldElement'; PO = 'ml_kem::algebra::Polynomial'; NP = 'ml_kem::algebra::NttPolynomial'
    for op, tr in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul')):
        def job(rec, f, label, op=op):
            a, b = sym('fa', Q - 1), sym('fb', Q - 1)
            M = Machine(W.prog); old = f.hook; f.hook = None
            try: r = M.call(f, [a, b])
            finally: f.hook = old
            rec.machine(M, label)
            want = C.fe_post(op)(a, b)
            ok = r is not None and T.prove_equal(r, want) is True
            rec.req(ok, label + ': exact residue for all 3329^2 operand pairs', 'result differs from the exact residue for some pair of residues', 'enumeration', 1)
            rec.notes["operand pairs enumerated"] = rec.notes.get("operand pairs enumerated", 0) + Q * Q
            rec.req(r is None or T.prove_equal(r, C.fe_post('sub' if op == 'add' else 'add')(a, b)) is not True, label + ': wrong postcondition rejected (vacuity guard)')
        U.unit('FieldElement::' + op, '<%s as ops::arith::%s>::%s' % (FE, tr, op), C.I16, [C.I16, C.I16], job)
    def bcm(rec, f, label):
        a = [sym('q%d' % i, Q - 1) for i in range(4)]
        for i in range(128):
            M = Machine(W.prog)
            r = M.call(f, a + [i])
            rec.machine(M, label)
            x, y = S.pmul([0, 0] * i + a[:2] + [0, 0] * (127 - i), [0, 0] * i + a[2:] + [0, 0] * (127 - i))[2 * i:2 * i + 2]
            r = list(r) if isinstance(r, (list, tuple)) else [None, None]
            rec.eq(label + ': exact for all operands', r, [x, y], 'enumeration')
    U.unit('FieldElement::base_case_multiply', '<%s>::base_case_multiply' % FE, ('s', (C.I16, C.I16), False), [C.I16] * 4 + [('i', 64)], bcm)
    for label, nm, inv in (('Polynomial::ntt', '<%s>::ntt' % PO, False), ('NttPolynomial::ntt_inverse', '<%s>::ntt_inverse' % NP, True)):
        def job(rec, f, label, inv=inv):
            x = polys('f', 1)
            def mk(M):
                d = blank(M, 1)
                return [d, put(M, x)], lambda M: get(M, d, 1)
            got = body(W, rec, label, f, mk)
            want = C.lin_forms(S._INTT if inv else S._NTT, x[0])
            rec.eq(label + ': every output is the specified linear form of the inputs', got, want); guard(rec, label, got, want)
        U.unit(label, nm, V, [P, P], job)
    def binop(label, nm, ka, kb, ko, spec, first_fe=False):
        def job(rec, f, label):
            a, b = polys('a', ka), polys('b', kb)
            def mk(M):
                d = blank(M, ko)
                return [d, put(M, a), put(M, b)], lambda M: get(M, d, ko)
            got = body(W, rec, label, f, mk)
            want = spec(a, b)
            rec.eq(label + ': equals the specified map', got, want); guard(rec, label, got, want)
        U.unit(label, nm, V, [P, P, P], job)
    binop('Polynomial + Polynomial', '<&%s as ops::arith::Add>::add' % PO, 1, 1, 1, lambda a, b: S.padd(a[0], b[0]))
    binop('Polynomial - Polynomial', '<&%s as ops::arith::Sub>::sub' % PO, 1, 1, 1, lambda a, b: S.psub(a[0], b[0]))
    binop('NttPolynomial + NttPolynomial', '<&%s as ops::arith::Add>::add' % NP, 1, 1, 1, lambda a, b: S.padd(a[0], b[0]))
    binop('NttPolynomial * NttPolynomial', '<&%s as ops::arith::Mul>::mul' % NP, 1, 1, 1, lambda a, b: S.pmul(a[0], b[0]))
    def scale(rec, f, label):
        c = sym('c', Q - 1); a = polys('a', 1)
        def mk(M):
            d = blank(M, 1)
            return [d, c, put(M, a)], lambda M: get(M, d, 1)
        got = body(W, rec, label, f, mk)
        want = [C.fe_post('mul')(c, x) for x in a[0]]
        rec.eq(label + ': equals the specified map', got, want); guard(rec, label, got, want)
    U.unit('FieldElement * Polynomial', '<%s as ops::arith::Mul<&%s>>::mul' % (FE, PO), V, [P, C.I16, P], scale)
    for k in (2, 3, 4):
        PV = 'ml_kem::algebra::PolynomialVector<U%d>' % k; NV = 'ml_kem::algebra::NttVector<U%d>' % k
        vadd = lambda a, b: flat([S.padd(x, y) for x, y in zip(a, b)])
        binop('PolynomialVector<%d> + PolynomialVector' % k, '<%s as ops::arith::Add>::add' % PV, k, k, k, vadd)
        binop('NttVector<%d> + NttVector' % k, '<&%s as ops::arith::Add>::add' % NV, k, k, k, vadd)
        binop('NttVector<%d> * NttVector' % k, '<&%s as ops::arith::Mul>::mul' % NV, k, k, 1, lambda a, b: S.pdot(a, b))
        binop('NttMatrix<%d> * NttVector' % k, '<&ml_kem::algebra::NttMatrix<U%d> as ops::arith::Mul<&%s>>::mul' % (k, NV), k * k, k, k,
              lambda a, b, k=k: flat([S.pdot(a[k * i:k * i + k], b) for i in range(k)]))
        for label, nm, inv in (('PolynomialVector<%d>::ntt' % k, '<%s>::ntt' % PV, False), ('NttVector<%d>::ntt_inverse' % k, '<%s>::ntt_inverse' % NV, True)):
            def job(rec, f, label, inv=inv, k=k):
                a = polys('a', k)
                def mk(M):
                    d = blank(M, k)
                    return [d, put(M, a)], lambda M: get(M, d, k)
                got = body(W, rec, label, f, mk)
                hooked = any(x.hook for n in ('<%s>::ntt' % PO, '<%s>::ntt_inverse' % NP) for x in U.by.get(n, []))
                want = flat([(S.intt if inv else S.ntt)(x) if hooked else C.lin_forms(S._INTT if inv else S._NTT, x) for x in a])
                rec.eq(label + ': equals the specified map', got, want); guard(rec, label, got, want)
            U.unit(label, nm, V, [P, P], job)
    U.jobs.append(('ring lemmas', ring_lemmas))
    return U

def ring_lemmas(rec):
    """facts about the specification's own maps, used to read C01: NTT is invertible and turns products modulo X^256+1
    into the pointwise product.  Both sides are (bi)linear, so the basis decides all of Z_q^256."""
    N, I = S._NTT, S._INTT
    E = np.eye(256, dtype=np.int64)
    rec.req(bool(((I @ N) % Q == E).all()), 'lemma: NTT^-1 (NTT f) = f for every f', by='linear algebra')
    rec.req(bool(((N @ I) % Q == E).all()), 'lemma: NTT (NTT^-1 f) = f for every f', by='linear algebra')
    g = np.array(S.GAMMA, dtype=np.int64)
    ok = True
    for j in range(256):
        a = N[:, j]                                   # NTT(X^j)
        B = N                                         # columns NTT(X^i)
        pr = np.empty((256, 256), dtype=np.int64)
        pr[0::2] = (a[0::2, None] * B[0::2] + (a[1::2, None] * B[1::2]) % Q * g[:, None]) % Q
        pr[1::2] = (a[0::2, None] * B[1::2] + a[1::2, None] * B[0::2]) % Q
        want = np.empty((256, 256), dtype=np.int64)   # NTT(X^(i+j)), X^256 = -1
        want[:, :256 - j] = N[:, j:]
        if j: want[:, 256 - j:] = (-N[:, :j]) % Q
        ok &= bool((pr == want).all())
    rec.req(ok, 'lemma: pointwise product in the transform domain is multiplication modulo X^256+1', by='linear algebra')
    okp = True
    rng = __import__('random').Random(5)
    for _ in range(4):
        x = [rng.randrange(Q) for _ in range(256)]; y = [rng.randrange(Q) for _ in range(256)]
        conv = [0] * 512
        for i in range(256):
            for j in range(256): conv[i + j] += x[i] * y[j]
        w = [(conv[i] - conv[i + 256]) % Q for i in range(256)]
        okp &= S.intt(S.pmul(S.ntt(x), S.ntt(y))) == w
    rec.req(okp, 'specification self-test: schoolbook product against the transform product')

# ------------------------------------------------------------------------------------------------- C02
DW = (1, 4, 5, 10, 11)
VECD = ((2, 10), (3, 10), (4, 11))
def compress_units(W):
    U = Units(W)
    for d in DW:
        for op in ('compress', 'decompress'):
            hi = Q - 1 if op == 'compress' else (1 << d) - 1
            def job1(rec, f, label, d=d, op=op, hi=hi):
                x = sym('x', hi)
                M = Machine(W.prog)
                p = M.new(C.cells16(x))
                M.call(f, [p])
                rec.machine(M, label)
                got = M.ld(p, 2); want = (S.compress if op == 'compress' else S.decompress)(d, x)
                n = hi + 1
                ok = got is not None and T.equal(got, want) is True
                rec.req(ok, label + ': exact rounding for every value', 'differs from the exact rational rounding: %s' % cex1(got, want, x, hi), 'enumeration', n if ok else 1)
                guard(rec, label, [got], [0, 1 if want is not None else 0])
            U.unit('FieldElement::%s<%d>' % (op, d), '<ml_kem::algebra::FieldElement as ml_kem::compress::Compress>::%s::<U%d>' % (op, d), P, [P], job1)
            def jobn(rec, f, label, d=d, op=op, hi=hi, k=1):
                x = polys('x', k, hi)
                def mk(M):
                    p = put(M, x)
                    return [p], lambda M: get(M, p, k)
                got = body(W, rec, label, f, mk)
                want = [(S.compress if op == 'compress' else S.decompress)(d, c) for c in flat(x)]
                rec.eq(label + ': every coefficient', got, want, 'enumeration'); guard(rec, label, got, want)
            U.unit('Polynomial::%s<%d>' % (op, d), '<ml_kem::algebra::Polynomial as ml_kem::compress::Compress>::%s::<U%d>' % (op, d), P, [P], jobn)
            for k, dd in VECD:
                if dd != d: continue
                U.unit('PolynomialVector<%d>::%s<%d>' % (k, op, d), '<ml_kem::algebra::PolynomialVector<U%d> as ml_kem::compress::Compress>::%s::<U%d>' % (k, op, d), P, [P],
                       lambda rec, f, label, jobn=jobn, k=k: jobn(rec, f, label, k=k))
    def lemmas(rec):
        from fractions import Fraction
        import math
        for d in DW:
            bad = [x for x in range(Q) if S.compress(d, x) != math.floor(Fraction(x << d, Q) + Fraction(1, 2)) % (1 << d)]
            bad += [y for y in range(1 << d) if S.decompress(d, y) != math.floor(Fraction(y * Q, 1 << d) + Fraction(1, 2))]
            rec.req(not bad, 'lemma: specification tables are exact rational rounding (d=%d)' % d, str(bad[:3]), 'enumeration', Q + (1 << d))
            rec.req(all(S.compress(d, S.decompress(d, y)) == y for y in range(1 << d)), 'lemma: Compress(Decompress(y)) = y (d=%d)' % d, by='enumeration', n=1 << d)
    U.jobs.append(('rounding lemmas', lemmas))
    return U
def cex1(got, want, x, hi):
    try:
        for v in range(hi + 1):
            a, b = T.evaluate([got, want], lambda s: v if s == x.args[0] else 0)
            if a != b: return 'value %d gives %s, specified %s' % (v, a, b)
    except Exception: pass
    return 'undecided'

# ------------------------------------------------------------------------------------------------- C03
def codec_units(W):
    U = Units(W)
    def enc(label, nm, d, k):
        def job(rec, f, label):
            x = polys('x', k, (1 << d) - 1)
            def mk(M):
                o = M.new([None] * (32 * d * k))
                return [o, put(M, x)], lambda M: M.bytes_at(o, 32 * d * k)
            got = body(W, rec, label, f, mk)
            want = [b for p in x for b in S.byte_encode(d, p)]
            rec.eq(label + ': every byte', got, want); guard(rec, label, got, want)
        U.unit(label, nm, V, [P, P], job)
    def dec(label, nm, d, k):
        def job(rec, f, label):
            bs = bytes_sym('b', 32 * d * k)
            def mk(M):
                o = blank(M, k)
                return [o, M.new(bs)], lambda M: get(M, o, k)
            got = body(W, rec, label, f, mk)
            want = [c for j in range(k) for c in S.byte_decode(d, bs[32 * d * j:32 * d * j + 32 * d])]
            rec.eq(label + ': every coefficient', got, want); guard(rec, label, got, want)
            if d == 12: rec.req(all(C.inq(c) for c in got), label + ': decoded coefficients are residues below 3329', n=len(got))
        U.unit(label, nm, V, [P, P], job)
    for d in (1, 4, 5, 10, 11, 12):
        enc('byte_encode<%d>' % d, 'ml_kem::encode::byte_encode::<U%d>' % d, d, 1)
        dec('byte_decode<%d>' % d, 'ml_kem::encode::byte_decode::<U%d>' % d, d, 1)
        t = 'NttPolynomial' if d == 12 else 'Polynomial'
        enc('%s::encode<%d>' % (t, d), '<ml_kem::algebra::%s as ml_kem::encode::Encode<U%d>>::encode' % (t, d), d, 1)
        dec('%s::decode<%d>' % (t, d), '<ml_kem::algebra::%s as ml_kem::encode::Encode<U%d>>::decode' % (t, d), d, 1)
    for k, d, t in [(k, d, 'PolynomialVector') for k, d in VECD] + [(k, 12, 'NttVector') for k in (2, 3, 4)]:
        enc('%s<%d>::encode<%d>' % (t, k, d), '<ml_kem::algebra::%s<U%d> as ml_kem::encode::Encode<U%d>>::encode' % (t, k, d), d, k)
        dec('%s<%d>::decode<%d>' % (t, k, d), '<ml_kem::algebra::%s<U%d> as ml_kem::encode::Encode<U%d>>::decode' % (t, k, d), d, k)
    for k, N in ((2, 512), (3, 768), (4, 1024)):
        enc('MlKem%dParams::encode_u12' % N, '<ml_kem::MlKem%dParams as ml_kem::param::PkeParams>::encode_u12' % N, 12, k)
        dec('MlKem%dParams::decode_u12' % N, '<ml_kem::MlKem%dParams as ml_kem::param::PkeParams>::decode_u12' % N, 12, k)
    def lemmas(rec):
        for d in (1, 4, 5, 10, 11, 12):
            x = polys('x', 1, (1 << d) - 1 if d < 12 else Q - 1)[0]
            back = S.byte_decode(d, S.byte_encode(d, x))
            rec.eq('lemma: ByteDecode(ByteEncode(f)) = f (d=%d)' % d, back, x)
            if d < 12:
                b = bytes_sym('b', 32 * d)
                rec.eq('lemma: ByteEncode(ByteDecode(b)) = b (d=%d)' % d, S.byte_encode(d, S.byte_decode(d, b)), b)
    U.jobs.append(('codec lemmas', lemmas))
    return U

# ------------------------------------------------------------------------------------------------- C04
def sample_units(W):
    U = Units(W)
    def job0(rec):
        rec.ctx(W.ctx)
        fs = C.sample_fns(W.ctx)
        ok = [p for p in W.ctx.proved if p['contract'].startswith('NttPolynomial::sample_uniform')]
        why = [w for n, w in W.ctx.dropped if n == 'sample_uniform']
        rec.req(bool(ok), 'SampleNTT: first 256 candidates below 3329 of any stream, in order', why[0] if why else 'contract not established', 'state exploration',
                (ok[0]['checks']['transitions'] + ok[0]['checks']['reader runs']) if ok else 1)
        if ok:
            rec.notes['reachable reader states'] = ok[0]['checks']['states']
            for f in fs: rec.fns.add(f.short)
    if C.sample_fns(W.ctx): U.jobs.append(('NttPolynomial::sample_uniform', job0))
    else: U.lost.append('NttPolynomial::sample_uniform')
    for k in (2, 3, 4):
        for tr in (0, 1):
            def job(rec, f, label, k=k, tr=tr):
                rec.ctx(W.ctx)
                from .mlkem import need_sample
                need_sample(W)
                rho = bytes_sym('rho', 32)
                def mk(M):
                    o = blank(M, k * k)
                    return [o, M.new(rho), tr], lambda M: get(M, o, k * k)
                got = body(W, rec, label, f, mk)
                # entry (i,j) of A is SampleNTT(rho || j || i); row i of the transpose holds A[j][i]
                A = [[S.sample_ntt(rho + [j, i]) for j in range(k)] for i in range(k)]
                want = flat([A[j][i] if tr else A[i][j] for i in range(k) for j in range(k)])
                rec.eq(label + ': entry (i,j) drawn from seed||j||i', got, want); guard(rec, label, got, want)
            U.unit('NttMatrix<%d>::sample_uniform(transpose=%d)' % (k, tr), '<ml_kem::algebra::NttMatrix<U%d>>::sample_uniform' % k, V, [P, P, ('i', 1)], job)
    return U

# ------------------------------------------------------------------------------------------------- C05
def cbd_units(W):
    U = Units(W)
    for eta in (2, 3):
        def job(rec, f, label, eta=eta):
            b = bytes_sym('b', 64 * eta)
            def mk(M):
                o = blank(M, 1)
                return [o, M.new(b)], lambda M: get(M, o, 1)
            got = body(W, rec, label, f, mk)
            want = S.sample_cbd(eta, b)
            rec.eq(label + ': every coefficient', [T.canon(x) if x is not None else None for x in got], want, 'enumeration'); guard(rec, label, got, want)
        U.unit('Polynomial::sample_cbd<%d>' % eta, '<ml_kem::algebra::Polynomial>::sample_cbd::<U%d>' % eta, V, [P, P], job)
        def prf(rec, f, label, eta=eta):
            s = bytes_sym('s', 32); n = sym('n')
            def mk(M):
                o = M.new([None] * (64 * eta))
                return [o, M.new(s), n], lambda M: M.bytes_at(o, 64 * eta)
            got = body(W, rec, label, f, mk)
            want = S.prf(eta, s, n)
            rec.eq(label + ': every byte', got, want); guard(rec, label, got, want)
        U.unit('PRF<%d>' % eta, 'ml_kem::crypto::PRF::<U%d>' % eta, V, [P, P, ('i', 8)], prf)
    for k, eta in ((2, 3), (2, 2), (3, 2), (4, 2)):
        def vec(rec, f, label, k=k, eta=eta):
            for n in range(0, 2 * k + 1):
                s = bytes_sym('s', 32)
                def mk(M):
                    o = blank(M, k)
                    return [o, M.new(s), n], lambda M: get(M, o, k)
                got = body(W, rec, label, f, mk)
                want = flat([S.sample_cbd(eta, S.prf(eta, s, n + i)) for i in range(k)])
                rec.eq(label + ': every coefficient, every starting counter 0..2k', [T.canon(x) if x is not None else None for x in got], want, 'enumeration')
            guard(rec, label, got, want)
        U.unit('PolynomialVector<%d>::sample_cbd<%d>' % (k, eta), '<ml_kem::algebra::PolynomialVector<U%d>>::sample_cbd::<U%d>' % (k, eta), V, [P, P, ('i', 8)], vec)
    return U
