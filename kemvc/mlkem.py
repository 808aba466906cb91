"""Obligations of the ml-kem crate."""
import os, contextlib, time, threading, random
from . import ir, build, terms as T, spec as S, contracts as C, native, ref, hunt as H
from .terms import sym, Unsupported, Q
from .exec import Machine, Dead

SETS = (512, 768, 1024)
class World:
    """program + contracts + native library of one harness build"""
    def __init__(self, crate='hm', features=None, tag='', native_too=True, contracts=True):
        self.crate = crate; self.err = {}
        self.nat = None
        th = None
        if native_too:
            def go():
                try: self.nat = build.native(crate, None if features is None else features, tag)
                except Exception as e: self.err['native'] = e
            th = threading.Thread(target=go); th.start()
        t = time.time()
        lls = build.ir(crate, features, tag)
        self.build_s = time.time() - t
        self.prog = ir.Program(lls)
        self.ctx = C.Ctx(self.prog)
        if th: th.join()
        if 'native' in self.err: raise self.err['native']
        self.tag = tag
    def entry(self, n):
        for f in self.prog.all_funcs:
            if f.name == '@' + n: return f
        raise Unsupported('entry point %s missing' % n)

def worlds(cfgs, groups):
    """one program per configuration; entry points whose whole reachable program is identical (up to symbol names) to that
    of an earlier configuration share its proof.  -> [(world, [groups to prove], {group: configuration proved instead})]"""
    from concurrent.futures import ThreadPoolExecutor
    base = ['s512', 's768', 's1024']
    tag = lambda fs: '-' + '.'.join(['f'] + fs)
    with ThreadPoolExecutor(8) as ex: lls = list(ex.map(lambda fs: build.ir('hm', base + fs, tag(fs)), cfgs))
    seen = {}; out = []
    for fs, l in zip(cfgs, lls):
        W = World.__new__(World)
        W.crate = 'hm'; W.err = {}; W.nat = None; W.tag = '[' + ','.join(fs) + ']'
        W.features = base + fs; W.dirtag = tag(fs)
        P = ir.Program(l); mine = []; same = {}
        for g in groups:
            d = (g, P.fingerprint([f for f in P.all_funcs if f.name == '@%s_%d' % g]))
            if d in seen: same[g] = seen[d]
            else: seen[d] = W.tag; mine.append(g)
        if mine: W.prog = P; W.ctx = C.Ctx(P)
        out.append((W, mine, same))
    with ThreadPoolExecutor(8) as ex: list(ex.map(lambda x: x[1] and setattr(x[0], 'nat', build.native('hm', x[0].features, x[0].dirtag)), out))
    return out

def sy(n, l): return [sym('%s%d' % (n, i)) for i in range(l)]

class Entry:
    """an entry point, its symbolic inputs, its outputs"""
    def __init__(self, name, ins, outs): self.name = name; self.ins = ins; self.outs = outs
def entry_spec(kind, N):
    p = S.PARAMS[N]
    return {'kg': ([('d', 32), ('z', 32)], [p.dk, p.ek]), 'kgref': ([('d', 32), ('z', 32)], [p.ek]),
            'enc': ([('ek', p.ek), ('m', 32)], [p.ct, 32]), 'dec': ([('dk', p.dk), ('c', p.ct)], [32]),
            'ekrt': ([('ek', p.ek)], [p.ek]), 'dkrt': ([('dk', p.dk)], [p.dk]), 'dkek': ([('dk', p.dk)], [p.ek]),
            'kgdec': ([('d', 32), ('z', 32), ('c', p.ct)], [32]), 'kgenc': ([('d', 32), ('z', 32), ('m', 32)], [p.ct, 32]),
            'rkg': ([], [p.dk, p.ek]), 'renc': ([('ek', p.ek)], [p.ct, 32]),
            'dkenc': ([('dk', p.dk), ('m', 32)], [p.ct, 32]), 'dkcdec': ([('dk', p.dk), ('c', p.ct)], [32]), 'ekcenc': ([('ek', p.ek), ('m', 32)], [p.ct, 32]),
            'rkgdec': ([('c', p.ct)], [32]), 'rkgenc': ([], [p.ct, 32])}[kind]
# random bytes drawn, and what they stand for
TAPE = {'rkg': 'dz', 'renc': 'm', 'rkgdec': 'dz', 'rkgenc': 'dzm'}
def spec_inputs(kind, a):
    sp = dict(a); r = sy('rng', 96)
    for i, n in enumerate(TAPE.get(kind, '')): sp[n] = r[32 * i:32 * i + 32]
    return sp
def special_inputs(kind, N):
    """preconditions that relate inputs: the stored hash of an imported private key is that of its public part"""
    if kind != 'dkenc': return None
    p = S.PARAMS[N]; dk = sy('dk', p.dk)
    d, ek, h, z = S.dk_split(p, dk)
    return {'dk': list(d) + list(ek) + list(S.H(S.ek_canonical(p, ek))) + list(z)}
def want_spec(kind, N, a):
    """specified outputs, from the specification terms; a: dict of symbolic inputs"""
    p = S.PARAMS[N]
    if kind in ('kg', 'kgref', 'rkg'):
        ek, dk = S.keygen(p, a['d'], a['z'])
        return [ek] if kind == 'kgref' else [dk, ek]
    if kind in ('enc', 'renc', 'ekcenc'):
        k, c = S.encaps(p, a['ek'], a['m']); return [c, k]
    if kind in ('dec', 'dkcdec'): return [S.decaps(p, a['dk'], a['c'])]
    if kind == 'ekrt': return [S.ek_canonical(p, a['ek'])]
    dkc = lambda dk: dk_canonical(p, dk)
    if kind == 'dkrt': return [dkc(a['dk'])]
    if kind == 'dkek': return [S.ek_canonical(p, S.dk_split(p, a['dk'])[1])]
    if kind == 'dkenc':
        k, c = S.encaps(p, S.ek_canonical(p, S.dk_split(p, a['dk'])[1]), a['m']); return [c, k]
    ek, dk = S.keygen(p, a['d'], a['z'])
    if kind in ('kgdec', 'rkgdec'): return [S.decaps(p, dk, a['c'])]
    if kind in ('kgenc', 'rkgenc'):
        k, c = S.encaps(p, ek, a['m']); return [c, k]
def dk_canonical(p, dk):
    d, ek, h, z = S.dk_split(p, dk)
    out = []
    for i in range(p.k): out += S.byte_encode(12, S.byte_decode(12, d[384 * i:384 * i + 384]))
    return out + S.ek_canonical(p, ek) + list(h) + list(z)

def run_entry(W, kind, N, rec=None, ins=None):
    """symbolic run; -> (machine, inputs dict, outputs list)"""
    return run_entry_on(W, Machine(W.prog), kind, N, ins)
def run_entry_on(W, M, kind, N, ins=None):
    iin, outs = entry_spec(kind, N)
    a = {}
    ps = []
    if ins is None: ins = special_inputs(kind, N)
    for n, l in iin:
        v = ins[n] if ins and n in ins else sy(n, l)
        a[n] = v; ps.append(M.new(v))
    os_ = [M.new([None] * l) for l in outs]
    fn = W.entry('%s_%d' % (kind, N))
    M.call(fn, ps + os_)
    got = [M.bytes_at(p, l) for p, l in zip(os_, outs)]
    # inputs unmodified (frame)
    for (n, l), p in zip(iin, ps):
        if M.bytes_at(p, l) != a[n]:
            M.fail('frame', kind, 'input %s modified' % n)
    return M, a, got

def selfcheck(W, rec, entry, a, got, outs, tape_syms=None, n=2, seed=1, fixed=None):
    """evaluate the symbolic result on concrete inputs and compare with the natively executed code"""
    rng = random.Random(seed)
    for _ in range(n):
        env = {}
        conc = []
        for nm, v in a.items():
            if nm in ('d', 'z', 'm', 'ek', 'dk', 'c', 'seed', 'pk', 'ct') or v:
                b = (fixed(rng)[nm] if fixed else rng.randbytes(len(v)))
                for x, y in zip(sy(nm, len(v)), b): env[x.args[0]] = y
                conc.append(b)
        tape = None
        if tape_syms:
            tape = rng.randbytes(tape_syms)
            for i, y in enumerate(tape): env['rng%d' % i] = y
        st, o, pos = native.isolated(W.nat, entry, conc, outs, tape)
        ev = T.evaluate([x for g in got for x in g], lambda s: env.get(s, 0))
        flat = [] if o is None else [y for b in o for y in b]
        if st == 0 and ev == flat: rec.notes['symbolic results replayed natively'] = rec.notes.get('symbolic results replayed natively', 0) + 1
        else:
            rec.fail('engine self-check', '%s: symbolic result disagrees with native execution (%s)' % (entry, st)); return

def good_inputs(kind, N):
    def f(rng):
        d, z, m = rng.randbytes(32), rng.randbytes(32), rng.randbytes(32)
        ek, dk = ref.keygen(N, d, z)
        k, c = ref.encaps(N, ek, m)
        if rng.randrange(2):
            c = bytearray(c); c[rng.randrange(len(c))] ^= 1; c = bytes(c)
        return {'d': d, 'z': z, 'm': m, 'ek': ek, 'dk': dk, 'c': c}
    return f

def need_sample(W):
    '''matrix expansion is only ever reasoned about through the proved SampleNTT contract'''
    if not any(p['contract'].startswith('NttPolynomial::sample_uniform') for p in W.ctx.proved):
        why = [w for n, w in W.ctx.dropped if n == 'sample_uniform']
        raise Unsupported('SampleNTT contract not established: %s' % (why[0] if why else ''))

def job_conf(W, kind, N, check=True, cfg=''):
    """the entry point computes exactly the specified function, for all inputs"""
    def job(rec):
        rec.ctx(W.ctx)
        need_sample(W)
        M, a, got = run_entry(W, kind, N)
        what = '%s-%d%s' % (kind, N, cfg)
        rec.machine(M, what)
        sp = spec_inputs(kind, a)
        ntape = 32 * len(TAPE.get(kind, ''))
        if ntape:
            rec.req(sum(M.rng) == ntape, what + ': exactly %d random bytes drawn' % ntape, 'draws %s' % M.rng)
        want = want_spec(kind, N, sp)
        names = {1: ['output'], 2: ['output 1', 'output 2']}[len(got)]
        good = True
        for nm, g, w in zip(names, got, want):
            good &= rec.eq('%s: %s equals the specification (every byte)' % (what, nm), g, w)
        # vacuity guard: a wrong postcondition must be rejected, and every input must matter
        g0 = got[-1]
        rec.req(T.equal(g0[0], want[-1][1]) is not True, what + ': wrong postcondition rejected (vacuity guard)')
        if check: selfcheck(W, rec, '%s_%d' % (kind, N), a, got, entry_spec(kind, N)[1], ntape, 2, 7, good_inputs(kind, N))
    return ('%s-%d%s' % (kind, N, cfg), job)

def standard_contracts(W, sample=True):
    ctx = W.ctx
    C.install_fe(ctx); C.install_ntt(ctx); C.install_cbd(ctx); C.install_keccak(ctx)
    if sample:
        def mk(M): return [M.new(sy('d', 32)), M.new(sy('z', 32)), M.new([None] * 1632), M.new([None] * 800)]
        def mkr(M): return [M.new([None] * 1632), M.new([None] * 800)]
        try:
            if any(f.name == '@kg_512' for f in W.prog.all_funcs): C.install_sample(ctx, W.entry('kg_512'), mk)
            elif W.crate == 'hx': C.install_sample(ctx, W.entry('xpk'), lambda M: [M.new(sy('sk', 32)), M.new([None] * 1216)],
                                               more=[(W.entry('xenc'), lambda M: [M.new(sy('pk', 1216)), M.new([None] * 1120), M.new([None] * 32)])])
            else: C.install_sample(ctx, W.entry('rkg_512'), mkr)
        except Exception as e:
            ctx.dropped.append(('sample_uniform', str(e)[:300]))

def hunter(W, kinds, sets=SETS, seconds=90):
    return lambda bad: H.hunt(W.nat, kinds, sets, seconds)

def unit_property(c, make, sample=False, kinds=('kg', 'enc', 'dec')):
    """decide a function-level property: every unit contract; end-to-end conformance stands in for units whose function
    no longer exists under its name and shape"""
    W = World()
    standard_contracts(W, sample)
    U = make(W)
    c.jobs(U.jobs)
    if U.lost:
        c.extra['functions_not_found'] = U.lost
        if not sample: standard_contracts(W)
        c.jobs([job_conf(W, k, N) for N in (1024, 768, 512) for k in kinds])
    from . import unitnative
    return lambda bad: unitnative.hunt(c.prop, c.seed) or H.hunt(W.nat, list(kinds), SETS, 60)


# ---------------------------------------------------------------------------------------------- objects in memory
def dk_object(W, M, N, how, a=None):
    """a DecapsulationKey object in memory: imported from symbolic bytes ('init') or generated from random draws ('gen')"""
    n = Machine(W.prog).call(W.entry('dksize_%d' % N), [])
    p = M.new([None] * n)
    if how == 'init':
        a = a if a is not None else sy('dk', S.PARAMS[N].dk)
        M.call(W.entry('dkinit_%d' % N), [p, M.new(a)])
    else:
        M.call(W.entry('dkgen_%d' % N), [p])
    return p, n

def job_dkeq(W, N):
    """importing the encoding of a generated key gives an equal object; comparison of arbitrary imported keys is total"""
    def job(rec):
        rec.ctx(W.ctx); need_sample(W)
        what = 'dkeq-%d' % N
        M = Machine(W.prog)
        p, n = dk_object(W, M, N, 'gen')
        ek, dk = S.keygen(S.PARAMS[N], sy('rng', 64)[:32], sy('rng', 64)[32:])
        enc = M.new(dk)
        r = M.call(W.entry('dkeq_%d' % N), [enc, p])
        rec.machine(M, what)
        rec.req(r == 1, what + ': from_bytes(as_bytes(key)) == key for every generated key', 'comparison gives %s' % (r if r.__class__ is int else T.show(r, 3)[:200]))
        a = sy('dk', S.PARAMS[N].dk)
        M = Machine(W.prog)
        p, n = dk_object(W, M, N, 'init', a)
        r = M.call(W.entry('dkeq_%d' % N), [M.new(a), p])
        rec.machine(M, what + ' (imported)')
        rec.req(r == 1, what + ': an imported key equals itself')
        p = S.PARAMS[N]
        rec.req(S.ek_canonical(p, ek) == ek, what + ': the public key of every generated key is canonical (lemma over the specification)')
        e = sy('ek', p.ek); o = None
        for b, w in ((e, 'itself'), (S.ek_canonical(p, e), 'its re-encoding')):
            M = Machine(W.prog); o = M.new([None])
            M.call(W.entry('ekeq_%d' % N), [M.new(e), M.new(b), o])
            rec.machine(M, 'ekeq-%d' % N)
            rec.req(M.ld(o, 1) == 1, 'ekeq-%d: every imported public key equals %s' % (N, w))
        M = Machine(W.prog); o = M.new([None])
        M.call(W.entry('ekeq_%d' % N), [M.new(e), M.new(sy('el', p.ek)), o])
        rec.req(M.ld(o, 1).__class__ is not int, 'ekeq-%d: different keys are not equal (vacuity guard)' % N)
    return ('dkeq-%d' % N, job)

def job_safe(W, kind, N):
    """no failure edge of the entry point is reachable for any input; inputs unmodified"""
    def job(rec):
        rec.ctx(W.ctx); need_sample(W)
        M, a, got = run_entry(W, kind, N)
        what = '%s-%d' % (kind, N)
        rec.machine(M, what)
        rec.req(all(x is not None for g in got for x in g), what + ': every output byte defined')
        selfcheck(W, rec, '%s_%d' % (kind, N), a, got, entry_spec(kind, N)[1], kind in TAPE and sum(M.rng), 1, 11, good_inputs(kind, N))
    return ('safe-%s-%d' % (kind, N), job)

def job_safe_obj(W, N):
    def job(rec):
        rec.ctx(W.ctx); need_sample(W)
        for how in ('init', 'gen'):
            M = Machine(W.prog)
            p, n = dk_object(W, M, N, how)
            M.call(W.entry('dkdrop_%d' % N), [p])
            rec.machine(M, 'construct (%s) and drop-%d' % (how, N))
        M = Machine(W.prog)
        p, n = dk_object(W, M, N, 'init', sy('dk', S.PARAMS[N].dk))
        M.call(W.entry('dkeq_%d' % N), [M.new(sy('dl', S.PARAMS[N].dk)), p])
        rec.machine(M, 'compare-%d' % N)
    return ('safe-objects-%d' % N, job)

def job_erase(W, N, how):
    """after drop every secret byte is zero, by volatile stores"""
    def job(rec):
        rec.ctx(W.ctx)
        if how == 'gen': need_sample(W)
        what = 'drop-%s-%d' % (how, N)
        P = S.PARAMS[N]
        # which bytes of the object hold secrets: those that depend on the secret vector or the rejection seed
        M = Machine(W.prog)
        p, n = dk_object(W, M, N, 'init')
        sec = {sym('dk%d' % i) for i in list(range(384 * P.k)) + list(range(P.dk - 32, P.dk))}
        off = []; cover = set()
        for i in range(n):
            v = M.ld(p + i, 1)
            if v is None or v.__class__ is int: continue
            s = [x for x in T.support([v]) if x in sec]
            if s: off.append(i); cover |= set(s)
        rec.req(len(cover) == len(sec), what + ': the object holds every byte of the secret vector and rejection seed', '%d of %d' % (len(cover), len(sec)))
        if how == 'gen':
            M = Machine(W.prog); p, n = dk_object(W, M, N, 'gen')
        M.track_vol = True
        M.call(W.entry('dkdrop_%d' % N), [p])
        rec.machine(M, what)
        vol = M.vol.get(p >> 32, {})
        left = [i for i in off if M.ld(p + i, 1) != 0]
        nonvol = [i for i in off if vol.get(i) != 0]
        rec.ok(what + ': secret byte is zero after drop', len(off) - len(left))
        rec.ok(what + ': secret byte overwritten by a volatile store', len(off) - len(nonvol))
        from .driver import _ranges
        if left: rec.fail(what + ': secret byte is zero after drop', 'object bytes %s keep a secret' % _ranges(left), len(left))
        if nonvol: rec.fail(what + ': secret byte overwritten by a volatile store', 'object bytes %s are not written by volatile stores' % _ranges(nonvol), len(nonvol))
    return ('erase-%s-%d' % (how, N), job)

def erase_native(path, N, how, dk, tape=bytes(range(1, 65))):
    """drop a natively built key in place -> what survived, or None"""
    import ctypes, pickle
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        nl = native.Lib(path); L = nl.l
        f = getattr(L, 'dksize_%d' % N); f.restype = ctypes.c_size_t; n = f()
        buf = (ctypes.c_uint64 * (n // 8 + 2))()
        p = ctypes.addressof(buf)
        if how == 'init': getattr(L, 'dkinit_%d' % N)(ctypes.c_void_p(p), ctypes.c_char_p(bytes(dk)))
        else: nl.tape(tape); getattr(L, 'dkgen_%d' % N)(ctypes.c_void_p(p))
        before = ctypes.string_at(p, n)
        getattr(L, 'dkdrop_%d' % N)(ctypes.c_void_p(p))
        after = ctypes.string_at(p, n)
        os.write(w, pickle.dumps((before, after))); os._exit(0)
    os.close(w); d = b''
    while True:
        x = os.read(r, 65536)
        if not x: break
        d += x
    os.close(r); os.waitpid(pid, 0)
    if not d: return 'abnormal termination'
    before, after = pickle.loads(d)
    # secrets in memory: rejection seed verbatim, secret vector as 16-bit coefficients
    if how == 'init':
        z = bytes(dk[-32:]); s = b''.join(int(c % 3329).to_bytes(2, 'little') for c in ref.dec(12, dk[:384 * S.PARAMS[N].k]).reshape(-1))
    else: z = tape[32:]; s = None
    for nm, v in (('rejection seed', z), ('secret vector', s)):
        i = before.find(v) if v else -1
        if i >= 0 and any(after[i:i + len(v)]): return '%s survives drop (object bytes from %d)' % (nm, i)
    return None
def hunt_erase(W):
    def hunt(bad):
        rng = random.Random(5)
        for N in SETS:
            for how, zz in (('init', rng.randbytes(32)), ('gen', None), ('init', bytes(32)), ('init', b'\xff' * 32)):
                ek, dk = ref.keygen(N, rng.randbytes(32), zz or bytes(32))
                b = erase_native(W.nat, N, how, dk)
                if b: return {'entry': 'dkdrop_%d' % N, 'how': how, 'inputs': [bytes(dk).hex()], 'what': b, 'erase': True}
        return None
    return hunt

# ---------------------------------------------------------------------------------------------- C13
def pke_fns(W, N):
    e = [f for f in W.ctx.find(lambda n: n == '<ml_kem::pke::EncryptionKey<ml_kem::MlKem%dParams>>::encrypt' % N)]
    d = [f for f in W.ctx.find(lambda n: n == '<ml_kem::pke::DecryptionKey<ml_kem::MlKem%dParams>>::decrypt' % N)]
    V = ('v',); P = ('p',)
    if not all(f.sig[0] == V and [x[0] for x in f.sig[1]] == [P] * 4 for f in e): e = []
    if not all(f.sig[0] == V and [x[0] for x in f.sig[1]] == [P] * 3 for f in d): d = []
    return e, d

@contextlib.contextmanager
def hooked(fns, h):
    old = [f.hook for f in fns]
    for f in fns: f.hook = h
    try: yield
    finally:
        for f, o in zip(fns, old): f.hook = o

def job_ct(W, N):
    """Noninterference of the comparison: with the decrypted message and the re-encrypted ciphertext replaced by arbitrary
    values (their producers are cut by contract), no branch, memory address or early-exit comparison may depend on
    the re-encrypted ciphertext, hence neither on the comparison nor on the selected secret."""
    def job(rec):
        rec.ctx(W.ctx)
        what = 'dec-%d' % N
        P = S.PARAMS[N]
        ef, df = pke_fns(W, N)
        if not ef or not df: return job_ct_whole(W, N)[1](rec)
        c2 = sy('kc', P.ct); mp = sy('km', 32)
        M = Machine(W.prog)
        calls = {'e': 0, 'd': 0}
        src = {}
        def eh(M2, a):
            calls['e'] += 1
            src['m'] = M2.bytes_at(a[2], 32); src['r'] = M2.bytes_at(a[3], 32)
            for i, v in enumerate(c2): M2.st(a[0] + i, 1, v)
            return None
        def dh(M2, a):
            calls['d'] += 1
            for i, v in enumerate(mp): M2.st(a[0] + i, 1, v)
            return None
        with hooked(ef, eh), hooked(df, dh): M, a, got = run_entry_on(W, M, 'dec', N)
        rec.machine(M, what)
        rec.req(calls['e'] == 1 and calls['d'] == 1, what + ': decryption and re-encryption each run exactly once, unconditionally', str(calls))
        taint = set(c2)
        ct_report(rec, what, M, lambda t: any(x in taint for x in T.support([t])))
        # both secrets computed, choice by the comparison only: the result is the specified selection
        h = a['dk'][384 * P.k + P.ek:384 * P.k + P.ek + 32]; z = a['dk'][P.dk - 32:]
        kr = S.sha3_512(mp + list(h)); kbar = S.shake256(list(z) + list(a['c']), 32)
        same = T.band(*[T.eq(x, y) for x, y in zip(a['c'], c2)])
        rec.eq(what + ': result is selected by full equality of the two ciphertexts', got[0], [T.ite(same, x, y) for x, y in zip(kr[:32], kbar)])
        rec.eq(what + ': re-encryption uses the decrypted message and derived coins', src.get('m', []) + src.get('r', []), mp + kr[32:])
    return ('ct-%d' % N, job)

def ct_report(rec, what, M, tainted):
    nb = 0; bad = []
    for (fn, blk), conds in M.branches.items():
        for c in conds:
            nb += 1
            if tainted(c): bad.append('%s in %s' % ('early-exit comparison (memcmp)' if blk == 'memcmp' else 'branch', fn))
    na = 0; bada = []
    for fn, p in M.symaddr:
        na += 1
        if tainted(p): bada.append('address in %s' % fn)
    rec.notes['undecided branch conditions examined'] = rec.notes.get('undecided branch conditions examined', 0) + nb
    rec.notes['symbolic addresses examined'] = rec.notes.get('symbolic addresses examined', 0) + na
    rec.req(not bad, what + ': no branch or early-exit comparison depends on the re-encrypted ciphertext', '; '.join(sorted(set(bad)))[:400])
    rec.req(not bada, what + ': no memory address depends on the re-encrypted ciphertext', '; '.join(sorted(set(bada)))[:400])

def job_ct_whole(W, N):
    """fallback without the cut: a condition is tainted when a re-encrypted ciphertext byte of the specification occurs in it"""
    def job(rec):
        rec.ctx(W.ctx); need_sample(W)
        what = 'dec-%d' % N
        P = S.PARAMS[N]
        M, a, got = run_entry(W, 'dec', N)
        rec.machine(M, what)
        k, kbar, c2 = S.decaps_parts(P, a['dk'], a['c'])
        marks = set()
        for x, y in zip(a['c'], c2):
            e = T.eq(x, y)
            if e.__class__ is not int: marks |= {e} | set(e.args[0] if e.op == 'band' else ())
        marks |= {x for x in c2 if x.__class__ is not int}
        memo = {}
        def occurs(t):
            if t.__class__ is not T.Node: return False
            r = memo.get(t)
            if r is None:
                memo[t] = False
                r = memo[t] = t in marks or any(occurs(x) for x in T.children_of(t))
            return r
        ct_report(rec, what, M, occurs)
        same = T.band(*[T.eq(x, y) for x, y in zip(a['c'], c2)])
        rec.eq(what + ': result is selected by full equality of the two ciphertexts', got[0], [T.ite(same, x, y) for x, y in zip(k, kbar)])
    return ('ct-%d' % N, job)
