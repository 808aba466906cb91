"""Obligations of the x-wing crate."""
import os, random, ctypes, pickle
from . import terms as T, spec as S, contracts as C, native, ref, hunt as H
from .terms import sym, Unsupported
from .exec import Machine
from .mlkem import World, standard_contracts, sy, need_sample, pke_fns, hooked
from .driver import _ranges

# entry -> inputs, outputs, random bytes drawn
ENTRIES = {'xpk': ([('sk', 32)], [1216], 0), 'xgen': ([], [32, 1216], 32), 'xgen2': ([], [32], 32), 'xos': ([], [32, 1216], 32), 'xos2': ([], [32], 32),
           'xenc': ([('pk', 1216)], [1120, 32], 64), 'xdec': ([('sk', 32), ('ct', 1120)], [32], 0),
           'xgenenc': ([('sk', 32)], [1120, 32], 64), 'xpkrt': ([('pk', 1216)], [1216], 0), 'xctrt': ([('ct', 1120)], [1120], 0),
           'xskrt': ([('sk', 32)], [32], 0), 'xpkeq': ([('pk', 1216)], [1], 0), 'xcteq': ([('ct', 1120)], [1], 0),
           'xround': ([('sk', 32)], [32, 32], 64)}
def world(native_too=True, sample=True, features=None):
    W = World('hx', features, '' if features is None else '-f.' + '.'.join(features), native_too=native_too)
    W.features = features; W.dirtag = W.tag
    standard_contracts(W, sample)
    C.install_x25519(W.ctx)
    return W
def worlds():
    """X-Wing with all optional features and with none"""
    return [world(), world(features=[])]
def want(kind, a):
    r = sy('rng', 64)
    if kind == 'xpk': return [S.xw_pk(a['sk'])]
    if kind in ('xgen', 'xos'): return [r[:32], S.xw_pk(r[:32])]
    if kind in ('xgen2', 'xos2'): return [r[:32]]
    if kind == 'xenc': return list(S.xw_encaps(a['pk'], r[:32], r[32:]))
    if kind == 'xdec': return [S.xw_decaps(a['sk'], a['ct'])]
    if kind == 'xgenenc': return list(S.xw_encaps(S.xw_pk(a['sk']), r[:32], r[32:]))
    if kind == 'xpkrt': return [S.ek_canonical(S.PARAMS[768], a['pk'][:1184]) + a['pk'][1184:]]
    if kind in ('xctrt', 'xskrt'): return [a['ct' if kind == 'xctrt' else 'sk']]
    if kind in ('xpkeq', 'xcteq'): return [[1]]
def run(W, kind, M=None):
    ins, outs, nt = ENTRIES[kind]
    M = M or Machine(W.prog)
    a = {n: sy(n, l) for n, l in ins}
    ps = [M.new(a[n]) for n, l in ins]; os_ = [M.new([None] * l) for l in outs]
    M.call(W.entry(kind), ps + os_)
    got = [M.bytes_at(p, l) for p, l in zip(os_, outs)]
    for (n, l), p in zip(ins, ps):
        if M.bytes_at(p, l) != a[n]: M.fail('frame', kind, 'input %s modified' % n)
    return M, a, got
def replayed(W, rec, kind, a, got, n=2, seed=3):
    ins, outs, nt = ENTRIES[kind]
    rng = random.Random(seed)
    for _ in range(n):
        conc = []; env = {}; tape = rng.randbytes(nt) if nt else None
        for nm, l in ins:
            b = rng.randbytes(l)
            if nm == 'ct' and rng.randrange(2) and 'sk' in a: b = ref.xwing_encaps(ref.xwing_pk(conc[0]), rng.randbytes(32), rng.randbytes(32))[1]
            if nm == 'pk' and rng.randrange(2): b = ref.xwing_pk(rng.randbytes(32))
            conc.append(b)
            for i, y in enumerate(b): env['%s%d' % (nm, i)] = y
        for i, y in enumerate(tape or b''): env['rng%d' % i] = y
        st, o, pos = native.isolated(W.nat, kind, conc, outs, tape)
        ev = T.evaluate([x for g in got for x in g], lambda s: env.get(s, 0))
        if st == 0 and ev == [y for b in o for y in b]: rec.notes['symbolic results replayed natively'] = rec.notes.get('symbolic results replayed natively', 0) + 1
        else: rec.fail('engine self-check', '%s: symbolic result disagrees with native execution (%s)' % (kind, st)); return

def job_conf(W, kind):
    name = kind + ('' if W.features is None else '[no features]')
    def job(rec):
        rec.ctx(W.ctx)
        if kind in ('xpk', 'xgen', 'xos', 'xenc', 'xdec', 'xgenenc'): need_sample(W)
        nt = ENTRIES[kind][2]
        M, a, got = run(W, kind)
        rec.machine(M, kind)
        rec.req(sum(M.rng) == nt, kind + ': exactly %d random bytes drawn' % nt, 'draws %s' % M.rng)
        ws = want(kind, a)
        for i, (g, w) in enumerate(zip(got, ws)): rec.eq('%s: output %d equals the specification (every byte)' % (kind, i + 1), g, w)
        if len(ws[-1]) > 1: rec.req(T.equal(got[-1][0], ws[-1][1]) is not True, kind + ': wrong postcondition rejected (vacuity guard)')
        replayed(W, rec, kind, a, got)
    return (name, job)

def hunter(W, kinds, seconds=80):
    ws = W if isinstance(W, list) else [W]
    def hunt(bad):
        for w in ws:
            r = H.hunt(w.nat, [k for k in kinds if k in H.GEN], (0,), seconds / len(ws))
            if r:
                r['crate'] = 'hx'
                if w.features is not None: r['features'] = w.features; r['tag'] = w.dirtag
                return r
        return None
    return hunt

# ---------------------------------------------------------------------------------------------- C17
def job_agree(W):
    """xround: with K-PKE decryption answering the encrypted message (hypothesis), both secrets are equal"""
    def job(rec):
        rec.ctx(W.ctx); need_sample(W)
        ef, df = pke_fns(W, 768)
        if not df: raise Unsupported('DecryptionKey::decrypt not found with its shape')
        m = sy('rng', 32); n = [0]
        def dh(M, a):
            n[0] += 1
            for i, v in enumerate(m): M.st(a[0] + i, 1, v)
            return None
        with hooked(df, dh): M, a, got = run(W, 'xround')
        rec.machine(M, 'xround')
        rec.req(n[0] == 1, 'xround: one K-PKE decryption', str(n))
        rec.eq('xround: decapsulated secret equals the encapsulated one (every byte)', got[1], got[0])
        ct, ss = S.xw_encaps(S.xw_pk(a['sk']), m, sy('rng', 64)[32:])
        rec.eq('xround: encapsulated secret equals the specification', got[0], ss)
        rec.assumed.append('hypothesis of the property: K-PKE.Decrypt of the honest ciphertext returns the encrypted message (established below the noise bound by C12)')
    return ('xround', job)

# ---------------------------------------------------------------------------------------------- C20
def obj(W, M, what, how):
    n = Machine(W.prog).call(W.entry('x%ssize' % what), [])
    p = M.new([None] * n)
    if how == 'init': M.call(W.entry('x%sinit' % what), [p, M.new(sy(what, 32 if what == 'sk' else 1120))])
    elif how == 'clone':
        q = M.new([None] * n)
        M.call(W.entry('x%sinit' % what), [q, M.new(sy(what, 32 if what == 'sk' else 1120))])
        M.call(W.entry('x%sclone' % what), [p, q])
    elif how == 'gen': M.call(W.entry('xskgen'), [p])
    elif how == 'enc': M.call(W.entry('xctenc'), [p, M.new(sy('pk', 1216))])
    return p, n
def job_erase(W, what, how, act):
    def job(rec):
        rec.ctx(W.ctx)
        if how in ('gen', 'enc'): need_sample(W)
        nm = 'x%s%s(%s)' % (what, act, how)
        ln = 32 if what == 'sk' else 1120
        M = Machine(W.prog); p, n = obj(W, M, what, 'init')
        ins = {sym('%s%d' % (what, i)) for i in range(ln)}
        off = [i for i in range(n) if M.ld(p + i, 1) in ins]
        rec.req(len({M.ld(p + i, 1) for i in off}) == ln, nm + ': the object holds every byte', '%d of %d' % (len(off), ln))
        M = Machine(W.prog); p, n = obj(W, M, what, how)
        M.track_vol = True
        M.call(W.entry('x%s%s' % (what, act)), [p])
        rec.machine(M, nm)
        vol = M.vol.get(p >> 32, {})
        left = [i for i in off if M.ld(p + i, 1) != 0]; nonvol = [i for i in off if vol.get(i) != 0]
        rec.ok(nm + ': byte is zero afterwards', len(off) - len(left)); rec.ok(nm + ': byte overwritten by a volatile store', len(off) - len(nonvol))
        if left: rec.fail(nm + ': byte is zero afterwards', 'object bytes %s are left' % _ranges(left), len(left))
        if nonvol: rec.fail(nm + ': byte overwritten by a volatile store', 'object bytes %s are not written by volatile stores' % _ranges(nonvol), len(nonvol))
    return ('erase-%s-%s-%s' % (what, how, act), job)
ERASE = [(w, h, a) for w, hs in (('sk', ('init', 'clone', 'gen')), ('ct', ('init', 'clone', 'enc'))) for h in hs for a in ('drop', 'zero')]
def erase_native(path, what, how, act, inp, tape):
    """-> object bytes that keep their (non-zero) value, or None"""
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        L = native.Lib(path); l = L.l; L.tape(tape)
        V = ctypes.c_void_p
        f = getattr(l, 'x%ssize' % what); f.restype = ctypes.c_size_t; n = f()
        bufs = [(ctypes.c_uint64 * (n // 8 + 2))() for _ in range(2)]; p, q = [ctypes.addressof(b) for b in bufs]
        ib = ctypes.create_string_buffer(bytes(inp), len(inp))
        if how == 'init': getattr(l, 'x%sinit' % what)(V(p), ib)
        elif how == 'clone': getattr(l, 'x%sinit' % what)(V(q), ib); getattr(l, 'x%sclone' % what)(V(p), V(q))
        elif how == 'gen': l.xskgen(V(p))
        else: l.xctenc(V(p), ib)
        a = ctypes.string_at(p, n); getattr(l, 'x%s%s' % (what, act))(V(p)); b = ctypes.string_at(p, n)
        os.write(w, pickle.dumps([i for i in range(n) if a[i] and b[i] == a[i]])); os._exit(0)
    os.close(w); d = b''
    while True:
        x = os.read(r, 65536)
        if not x: break
        d += x
    os.close(r); os.waitpid(pid, 0)
    return pickle.loads(d) if d else ['abnormal termination']
def hunt_erase(W):
    def hunt(bad):
        rng = random.Random(2)
        for t in range(6):
            for what, how, act in ERASE:
                ln = {'sk': 32, 'ct': 1120}[what] if how != 'enc' else 1216
                inp = b'\xff' * ln if t == 0 and how != 'enc' else rng.randbytes(ln); tape = bytes(range(1, 65)) if t == 0 else rng.randbytes(64)
                b = erase_native(W.nat, what, how, act, inp, tape)
                if b: return {'crate': 'hx', 'erase': [what, how, act], 'inputs': [inp.hex()], 'random_tape': tape.hex(), 'entry': 'x%s%s' % (what, act),
                              'what': 'object bytes %s survive' % b[:8]}
        return None
    return hunt
