"""Search for a failing input by running the natively compiled code against the reference, once a proof has failed."""
import os, time, mmap, random, pickle, signal, hashlib
from . import ref as R, native

def case_list():
    return {}

class Case:
    """one differential experiment: entry point, inputs, expected outputs"""
    def __init__(self, entry, ins, outs, want, tape=None, used=None, note=''):
        self.entry = entry; self.ins = ins; self.outs = outs; self.want = want; self.tape = tape; self.used = used; self.note = note

def interesting(rng, n):
    """byte strings of several shapes"""
    k = rng.randrange(8)
    if k == 0: return bytes([rng.choice([0, 1, 0x7f, 0x80, 0xfe, 0xff])]) * n
    if k == 1:
        b = bytearray(n)
        b[rng.randrange(n)] = 1 << rng.randrange(8)
        return bytes(b)
    if k == 2:
        b = bytearray(b'\xff' * n); b[rng.randrange(n)] ^= 1 << rng.randrange(8); return bytes(b)
    if k == 3:
        b = bytearray(rng.randbytes(n))
        i = rng.randrange(n); j = min(n, i + rng.randrange(1, 64))
        b[i:j] = bytes([rng.choice([0, 0xff])]) * (j - i)
        return bytes(b)
    return rng.randbytes(n)
def related(rng, n, *vals):
    """a byte string, now and then one that occurs elsewhere in the experiment"""
    vals = [v for v in vals if len(v) == n]
    return rng.choice(vals) if vals and rng.randrange(6) == 0 else interesting(rng, n)
def edge_ek(rng, N):
    """encapsulation keys with coefficients near q and 2^12"""
    k = R.PAR[N][0]
    import numpy as np
    vals = [0, 1, 1664, 1665, 3327, 3328, 3329, 3330, 4094, 4095]
    mode = rng.randrange(4)
    if mode == 0: c = [rng.choice(vals) for _ in range(256 * k)]
    elif mode == 1: c = [rng.choice(vals)] * (256 * k)
    elif mode == 2:
        c = [rng.randrange(3329) for _ in range(256 * k)]
        for _ in range(rng.randrange(1, 4)): c[rng.randrange(len(c))] = rng.choice(vals)
    else: c = [rng.randrange(4096) for _ in range(256 * k)]
    return R.enc(12, np.array(c)) + rng.randbytes(32)

def g_kg(rng, N):
    d = interesting(rng, 32); z = related(rng, 32, d)
    ek, dk = R.keygen(N, d, z)
    return Case('kg_%d' % N, [d, z], [len(dk), len(ek)], [dk, ek])
def g_kgref(rng, N):
    d, z = rng.randbytes(32), interesting(rng, 32)
    ek, dk = R.keygen(N, d, z)
    return Case('kgref_%d' % N, [d, z], [len(ek)], [ek])
def _ek(rng, N):
    if rng.randrange(2): return R.keygen(N, rng.randbytes(32), rng.randbytes(32))[0]
    return edge_ek(rng, N) if rng.randrange(3) else interesting(rng, R.sizes(N)[0])
def g_enc(rng, N):
    ek = _ek(rng, N); m = related(rng, 32, ek[-32:], R.H(ek))
    k, c = R.encaps(N, ek, m)
    return Case('enc_%d' % N, [ek, m], [len(c), 32], [c, k])
def _dkct(rng, N):
    mode = rng.randrange(8)
    e, dsz, csz = R.sizes(N)
    if mode <= 4:
        d, z = rng.randbytes(32), interesting(rng, 32)
        ek, dk = R.keygen(N, d, z)
        m = interesting(rng, 32)
        k, c = R.encaps(N, ek, m)
        if mode == 1:
            c = bytearray(c); c[rng.randrange(csz)] ^= 1 << rng.randrange(8); c = bytes(c)
        if mode == 2:
            c = bytearray(c); c[rng.choice([0, csz - 1, csz // 2, csz - 2])] ^= rng.randrange(1, 256); c = bytes(c)
        if mode == 3:
            c = bytearray(c)
            for _ in range(rng.randrange(2, 5)): c[rng.randrange(csz)] ^= rng.randrange(1, 256)
            c = bytes(c)
        if mode == 4: c = interesting(rng, csz)
    elif mode == 5:
        dk, c = interesting(rng, dsz), interesting(rng, csz)
    elif mode == 6:
        # hand-made dk: non-canonical secret and public part, arbitrary h; ciphertext accepted by it
        k = R.PAR[N][0]
        dk = edge_ek(rng, N)[:384 * k] + edge_ek(rng, N) + rng.randbytes(64)
        c = interesting(rng, csz)
        mp = R.pke_dec(N, dk[:384 * k], c); g = R.G(mp, dk[384 * k + e:384 * k + e + 32])
        c = R.pke_enc(N, dk[384 * k:384 * k + e], mp, g[32:])
    else:
        d, z = rng.randbytes(32), rng.randbytes(32)
        ek, dk = R.keygen(N, d, z)
        dk = bytearray(dk); i = rng.randrange(dsz); dk[i] ^= 1 << rng.randrange(8); dk = bytes(dk)
        k, c = R.encaps(N, ek, rng.randbytes(32))
    return dk, c
def g_dec(rng, N):
    dk, c = _dkct(rng, N)
    return Case('dec_%d' % N, [dk, c], [32], [R.decaps(N, dk, c)])
def g_ekrt(rng, N):
    ek = _ek(rng, N)
    return Case('ekrt_%d' % N, [ek], [len(ek)], [R.canon_ek(N, ek)])
def g_dkrt(rng, N):
    dk, c = _dkct(rng, N)
    return Case('dkrt_%d' % N, [dk], [len(dk)], [R.canon_dk(N, dk)])
def g_dkek(rng, N):
    dk, c = _dkct(rng, N); k = R.PAR[N][0]; e = R.sizes(N)[0]
    return Case('dkek_%d' % N, [dk], [e], [R.canon_ek(N, dk[384 * k:384 * k + e])])
def g_kgdec(rng, N):
    d, z = rng.randbytes(32), interesting(rng, 32)
    ek, dk = R.keygen(N, d, z)
    k, c = R.encaps(N, ek, interesting(rng, 32))
    if rng.randrange(2):
        c = bytearray(c); c[rng.randrange(len(c))] ^= 1 << rng.randrange(8); c = bytes(c)
    return Case('kgdec_%d' % N, [d, z, c], [32], [R.decaps(N, dk, c)])
def g_kgenc(rng, N):
    d = rng.randbytes(32); z = related(rng, 32, d)
    ek, dk = R.keygen(N, d, z); m = related(rng, 32, d, z, ek[-32:], R.H(ek))
    k, c = R.encaps(N, ek, m)
    return Case('kgenc_%d' % N, [d, z, m], [len(c), 32], [c, k])
def g_rkg(rng, N):
    t = interesting(rng, 32); t += related(rng, 32, t)
    ek, dk = R.keygen(N, t[:32], t[32:])
    return Case('rkg_%d' % N, [], [len(dk), len(ek)], [dk, ek], tape=t + rng.randbytes(64), used=64)
def g_renc(rng, N):
    ek = _ek(rng, N); m = related(rng, 32, ek[-32:], R.H(ek))
    k, c = R.encaps(N, ek, m)
    return Case('renc_%d' % N, [ek], [len(c), 32], [c, k], tape=m + rng.randbytes(64), used=32)
def g_dkenc(rng, N):
    k = R.PAR[N][0]; e, dsz, csz = R.sizes(N); ek = _ek(rng, N); m = related(rng, 32, ek[-32:])
    c = R.canon_ek(N, ek)
    kk, ct = R.encaps(N, c, m)
    return Case('dkenc_%d' % N, [edge_ek(rng, N)[:384 * k] + ek + R.H(c) + interesting(rng, 32), m], [len(ct), 32], [ct, kk])
def g_dkcdec(rng, N):
    c = g_dec(rng, N); c.entry = 'dkcdec_%d' % N; return c
def g_ekcenc(rng, N):
    c = g_enc(rng, N); c.entry = 'ekcenc_%d' % N; return c
def g_rkgdec(rng, N):
    c = g_kgdec(rng, N)
    return Case('rkgdec_%d' % N, c.ins[2:], c.outs, c.want, tape=c.ins[0] + c.ins[1] + rng.randbytes(64), used=64)
def g_rkgenc(rng, N):
    c = g_kgenc(rng, N)
    return Case('rkgenc_%d' % N, [], c.outs, c.want, tape=b''.join(c.ins) + rng.randbytes(64), used=96)
GEN = {n[2:]: f for n, f in globals().items() if n.startswith('g_')}

def xw_seed(rng): return interesting(rng, 32)
def xg_pk(rng, _):
    s = xw_seed(rng)
    return Case('xpk', [s], [1216], [R.xwing_pk(s)])
def xg_gen(rng, _):
    s = xw_seed(rng)
    return Case('xgen', [], [32, 1216], [s, R.xwing_pk(s)], tape=s + rng.randbytes(64), used=32)
def _xpk(rng):
    if rng.randrange(3): return R.xwing_pk(rng.randbytes(32))
    return (edge_ek(rng, 768) if rng.randrange(2) else rng.randbytes(1184)) + interesting(rng, 32)
def xg_enc(rng, _):
    pk = _xpk(rng); m = related(rng, 32, pk[-32:]); e = related(rng, 32, m, pk[-32:])
    ss, ct = R.xwing_encaps(pk, m, e)
    return Case('xenc', [pk], [1120, 32], [ct, ss], tape=m + e + rng.randbytes(64), used=64)
def xg_dec(rng, _):
    s = xw_seed(rng)
    if rng.randrange(3):
        ss, ct = R.xwing_encaps(R.xwing_pk(s), rng.randbytes(32), interesting(rng, 32))
        if rng.randrange(2):
            ct = bytearray(ct); ct[rng.choice([0, 1087, 1088, 1119, rng.randrange(1120)])] ^= 1 << rng.randrange(8); ct = bytes(ct)
    else: ct = interesting(rng, 1120)
    return Case('xdec', [s, ct], [32], [R.xwing_decaps(s, ct)])
def _xrun(rng):
    s = xw_seed(rng); ex = R.xwing_expand(s)
    m = related(rng, 32, s, *ex)
    return s, m, related(rng, 32, ex[2], ex[2], ex[2], s, m, ex[0], ex[1], R.xwing_pk(s)[1184:])
def xg_round(rng, _):
    s, m, e = _xrun(rng)
    ss, ct = R.xwing_encaps(R.xwing_pk(s), m, e)
    return Case('xround', [s], [32, 32], [ss, ss], tape=m + e + rng.randbytes(64), used=64)
def xg_os(rng, _):
    c = xg_gen(rng, _); c.entry = 'xos'
    return c
def xg_os2(rng, _):
    c = xg_gen(rng, _)
    return Case('xos2', [], [32], [c.want[0]], tape=c.tape, used=32)
def xg_gen2(rng, _):
    c = xg_gen(rng, _)
    return Case('xgen2', [], [32], [c.want[0]], tape=c.tape, used=32)
def xg_genenc(rng, _):
    s, m, e = _xrun(rng)
    ss, ct = R.xwing_encaps(R.xwing_pk(s), m, e)
    return Case('xgenenc', [s], [1120, 32], [ct, ss], tape=m + e + rng.randbytes(64), used=64)
def xg_pkrt(rng, _):
    pk = _xpk(rng)
    return Case('xpkrt', [pk], [1216], [R.canon_ek(768, pk[:1184]) + pk[1184:]])
def xg_ctrt(rng, _):
    ct = interesting(rng, 1120)
    return Case('xctrt', [ct], [1120], [ct])
def xg_skrt(rng, _):
    s = interesting(rng, 32)
    return Case('xskrt', [s], [32], [s])
XGEN = {'x' + n[3:]: f for n, f in globals().items() if n.startswith('xg_')}
GEN.update(XGEN)

def check_case(L, c):
    if c.tape is not None: L.tape(c.tape)
    o = L.call(c.entry, c.ins, c.outs)
    if o != [bytes(w) for w in c.want]:
        return 'output differs from the specification'
    if c.tape is not None and c.used is not None and L.pos() != c.used:
        return 'draws %d random bytes instead of %d' % (L.pos(), c.used)
    return None

def describe(c, what, history=None):
    return {'history': history, 'entry': c.entry, 'inputs': [x.hex() for x in c.ins], 'output_sizes': c.outs, 'expected': [bytes(w).hex() for w in c.want],
            'random_tape': c.tape.hex() if c.tape is not None else None, 'expected_tape_use': c.used, 'what': what}

def worker(path, kinds, sets, seed, tend, mm, crash_only=False):
    rng = random.Random(seed)
    dn = os.open('/dev/null', os.O_WRONLY); os.dup2(dn, 2)
    L = native.Lib(path)
    n = 0; hist = [kinds, sets, seed]
    while time.time() < tend:
        kind = rng.choice(kinds); N = rng.choice(sets)
        c = GEN[kind](rng, N)
        if not L.has(c.entry): continue
        b = pickle.dumps(describe(c, 'abnormal termination (panic)', hist + [n]))
        mm[8:8 + len(b)] = b; mm[0:8] = len(b).to_bytes(8, 'little')
        what = check_case(L, c)
        if what and not crash_only:
            b = pickle.dumps(describe(c, what, hist + [n]))
            mm[8:8 + len(b)] = b; mm[0:8] = len(b).to_bytes(8, 'little')
            os._exit(1)
        mm[0:8] = bytes(8)
        n += 1
    os._exit(0)

def rerun(path, kinds, sets, seed, n):
    """repeats a worker's calls: what the last of them does after n others in the same process"""
    pid = os.fork()
    if pid == 0:
        try:
            rng = random.Random(seed); L = native.Lib(path); k = 0
            while True:
                c = GEN[rng.choice(kinds)](rng, rng.choice(sets))
                if not L.has(c.entry): continue
                w = check_case(L, c)
                if w: os._exit(1)
                if k == n: os._exit(0)
                k += 1
        finally: os._exit(3)
    return os.waitpid(pid, 0)[1] != 0

def hunt(path, kinds, sets=(512, 768, 1024), seconds=60, seed=1, nproc=8, crash_only=False):
    """-> description of a failing input, or None"""
    tend = time.time() + seconds
    ws = []
    for i in range(nproc):
        mm = mmap.mmap(-1, 1 << 16)
        pid = os.fork()
        if pid == 0:
            try: worker(path, list(kinds), list(sets), seed * 1000 + i, tend, mm, crash_only)
            finally: os._exit(3)
        ws.append((pid, mm))
    found = None
    left = dict(ws)
    while left:
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.05)
            if time.time() > tend + 30:
                for p in left: os.kill(p, signal.SIGKILL)
            continue
        mm = left.pop(pid, None)
        if mm is None: continue
        if st != 0 and not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 3):
            n = int.from_bytes(mm[0:8], 'little')
            if n and found is None:
                found = pickle.loads(mm[8:8 + n])
                for p in left:
                    try: os.kill(p, signal.SIGKILL)
                    except OSError: pass
    return found
