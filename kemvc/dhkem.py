"""Obligations of the dhkem crate.  The group operations of the dependencies are uninterpreted functions of the key objects."""
import os, random, ctypes, pickle
from . import terms as T, spec as S, contracts as C, native
from .terms import sym, Unsupported
from .exec import Machine
from .mlkem import World, sy
from .driver import _ranges

CURVES = {'k256': 'k256::Secp256k1', 'p256': 'p256::NistP256', 'p384': 'p384::NistP384', 'p521': 'p521::NistP521'}
GROUPS = list(CURVES) + ['x255']

def pubkey(g, sk, n):
    """public key object of a secret object"""
    a = T.agg(sk)
    return [T.app('PUB.' + g, i, (a,), 255) for i in range(n)]
def dh(g, sk, pk, n):
    """shared secret of a secret object and a public key object; DH(a, PUB(b)) = DH(b, PUB(a)) is built in"""
    a = T.agg(sk); x = pk[0]
    if x.__class__ is not int and x.op == 'app' and x.args[0] == 'PUB.' + g:
        b = x.args[2][0]
        if list(pk) == [T.app('PUB.' + g, i, (b,), 255) for i in range(len(pk))]:
            return [T.app('DH.' + g, i, tuple(sorted((a, b))), 255) for i in range(n)]
    p = T.agg(pk)
    return [T.app('DHP.' + g, i, (a, p), 255) for i in range(n)]
def encode(g, pk, compress, n):
    p = T.agg(pk)
    return [T.app('ENC.%s.%s' % (g, compress), i, (p,), 255) for i in range(n)]

def rd(M, p, n):
    v = [M.ld(p + i, 1) for i in range(n)]
    return [0 if x is None else x for x in v]          # padding
def wr(M, p, vs):
    for i, v in enumerate(vs): M.st(p + i, 1, v)

class DW(World):
    def __init__(self):
        World.__init__(self, 'hd')
        self.sz = {}
        for g in GROUPS:
            M = Machine(self.prog); o = M.new([None] * 40)
            M.call(self.entry(g + '_sizes'), [o])
            self.sz[g] = dict(zip(('sk', 'pk', 'ss', 'dk', 'ek'), [M.ld(o + 8 * i, 8) for i in range(5)]))
            if g in CURVES: self.sz[g]['pt'] = Machine(self.prog).call(self.entry(g + '_szpt'), [])
        C.install_x25519(self.ctx)
        for g, c in CURVES.items(): self.install(g, c)
    def install(self, g, c):
        z = self.sz[g]; ctx = self.ctx
        def find(pred, what):
            fs = ctx.find(pred)
            if not fs: ctx.dropped.append((what, 'not found'))
            return fs
        def h_random(M, a):
            k = getattr(M, 'nscalar', 0); M.nscalar = k + 1
            wr(M, a[0], sy('sc%d_' % k, z['sk'])); return None
        def h_pub(M, a): wr(M, a[0], pubkey(g, rd(M, a[1], z['sk']), z['pk'])); return None
        def h_dh(M, a): wr(M, a[0], dh(g, rd(M, a[1], z['sk']), rd(M, a[2], z['pk']), z['ss'])); return None
        def h_enc(M, a):
            if a[2].__class__ is not int: raise Unsupported('symbolic compression flag')
            wr(M, a[0], encode(g, rd(M, a[1], z['pk']), a[2], z['pt'])); return None
        for f in find(lambda n: n.startswith('<elliptic_curve::scalar::nonzero::NonZeroScalar<%s>>::random::<' % c), g + ' NonZeroScalar::random'): f.hook = h_random
        for f in find(lambda n: n == '<elliptic_curve::public_key::PublicKey<%s>>::from_secret_scalar' % c, g + ' PublicKey::from_secret_scalar'): f.hook = h_pub
        for f in find(lambda n: n.startswith('elliptic_curve::ecdh::diffie_hellman::<%s,' % c), g + ' ecdh::diffie_hellman'): f.hook = h_dh
        for f in find(lambda n: n.startswith('<elliptic_curve::public_key::PublicKey<%s> as ' % c) and n.endswith('::to_encoded_point'), g + ' to_encoded_point'): f.hook = h_enc
        ctx.assumed.append('elliptic-curve/%s: NonZeroScalar::random draws an arbitrary nonzero scalar from the given source; PublicKey::from_secret_scalar, ecdh::diffie_hellman '
                           'and PublicKey::to_encoded_point are functions of their arguments with DH(a, PUB(b)) = DH(b, PUB(a)) (not proved; compared natively on every run)' % g)

def obj(M, name, n): return M.new(sy(name, n))
def fresh(W, g, k):
    """the k-th secret drawn from the random source"""
    return sy('rng', 32 * (k + 1))[32 * k:] if g == 'x255' else sy('sc%d_' % k, W.sz[g]['sk'])
def g_pub(W, g, sk): return S.x25519(sk, S.X9) if g == 'x255' else pubkey(g, sk, W.sz[g]['pk'])
def g_dh(W, g, sk, pk): return S.x25519(sk, pk) if g == 'x255' else dh(g, sk, pk, W.sz[g]['ss'])
def drawn(M, g): return (sum(M.rng), 0) if g == 'x255' else (32 * getattr(M, 'nscalar', 0), sum(M.rng))

def job_kem(W, g):
    def job(rec):
        rec.ctx(W.ctx)
        z = W.sz[g]
        rec.req(z['dk'] == z['sk'] and z['ek'] == z['pk'], g + ': wrappers have the layout of the key inside')
        # key pair
        M = Machine(W.prog)
        dk = M.new([None] * z['dk']); ek = M.new([None] * z['ek'])
        M.call(W.entry(g + '_kp'), [dk, ek]); rec.machine(M, g + '_kp')
        rec.req(drawn(M, g) == (32, 0), g + '_kp: exactly one secret drawn', str(M.rng))
        rec.eq(g + '_kp: decapsulating key is the drawn secret', rd(M, dk, z['sk']), fresh(W, g, 0))
        rec.eq(g + '_kp: encapsulating key is its public key', rd(M, ek, z['pk']), g_pub(W, g, fresh(W, g, 0)))
        # encapsulation to an arbitrary key
        M = Machine(W.prog)
        ek = obj(M, 'pk', z['ek']); c = M.new([None] * z['pk']); ss = M.new([None] * z['ss'])
        M.call(W.entry(g + '_enc'), [ek, c, ss]); rec.machine(M, g + '_enc')
        rec.req(drawn(M, g) == (32, 0), g + '_enc: exactly one secret drawn', str(M.rng))
        rec.eq(g + '_enc: encapsulated key is the public key of the drawn secret', rd(M, c, z['pk']), g_pub(W, g, fresh(W, g, 0)))
        want = g_dh(W, g, fresh(W, g, 0), sy('pk', z['pk']))
        got = rd(M, ss, z['ss'])
        rec.eq(g + '_enc: shared secret is DH(drawn secret, recipient key)', got, want)
        rec.req(T.equal(got[0], want[1]) is not True, g + '_enc: wrong postcondition rejected (vacuity guard)')
        rec.eq(g + '_enc: recipient key unmodified', rd(M, ek, z['ek']), sy('pk', z['ek']))
        # decapsulation of an arbitrary encapsulated key
        M = Machine(W.prog)
        dk = obj(M, 'sk', z['dk']); c = obj(M, 'pk', z['pk']); ss = M.new([None] * z['ss'])
        M.call(W.entry(g + '_dec'), [dk, c, ss]); rec.machine(M, g + '_dec')
        rec.req(drawn(M, g) == (0, 0), g + '_dec: nothing drawn')
        rec.eq(g + '_dec: shared secret is DH(own secret, encapsulated key)', rd(M, ss, z['ss']), g_dh(W, g, sy('sk', z['sk']), sy('pk', z['pk'])))
        rec.eq(g + '_dec: key unmodified', rd(M, dk, z['dk']), sy('sk', z['dk']))
        # agreement
        M = Machine(W.prog)
        s1 = M.new([None] * z['ss']); s2 = M.new([None] * z['ss'])
        M.call(W.entry(g + '_round'), [s1, s2]); rec.machine(M, g + '_round')
        rec.eq(g + '_round: both sides hold the same secret', rd(M, s2, z['ss']), rd(M, s1, z['ss']))
        rec.eq(g + '_round: the secret is DH(ephemeral, static)', rd(M, s1, z['ss']), g_dh(W, g, fresh(W, g, 1), g_pub(W, g, fresh(W, g, 0))))
        b = oracle(W.nat, g + '_oracle', 40, 3)
        rec.req(b is None, g + ': natively executed exchange agrees with the dependency used directly', str(b)[:300])
    return ('kem-' + g, job)

def job_wrap(W, g):
    def job(rec):
        rec.ctx(W.ctx)
        z = W.sz[g]
        for w, k in (('ek', 'pk'), ('dk', 'sk')):
            n = z[k]
            M = Machine(W.prog); p = obj(M, 'k', n)
            rec.req(z[w] == n, '%s %s: wrapper has the layout of the key inside' % (g, w))
            r = M.call(W.entry('%s_%sref' % (g, w)), [p])
            rec.req(r == p, '%s %s.as_ref(): the key inside itself' % (g, w)); rec.machine(M, '%s_%sref' % (g, w))
            rec.eq('%s %s.as_ref(): key unmodified' % (g, w), M.bytes_at(p, n), sy('k', n))
            for fn in ('from', 'into'):
                M = Machine(W.prog); p = obj(M, 'k', n); o = M.new([None] * n)
                M.call(W.entry('%s_%s%s' % (g, w, fn)), [p, o]); rec.machine(M, '%s_%s%s' % (g, w, fn))
                rec.eq('%s %s %s: every byte of the key' % (g, w, {'from': 'From', 'into': 'into_inner'}[fn]), rd(M, o, n), sy('k', n))
        if g in CURVES:
            for comp in (0, 1):
                M = Machine(W.prog); p = obj(M, 'k', z['ek']); o = M.new([None] * z['pt'])
                M.call(W.entry(g + '_encpt'), [p, comp, o]); rec.machine(M, g + '_encpt')
                rec.eq('%s to_encoded_point(%s): encoding of the key inside' % (g, bool(comp)), rd(M, o, z['pt']), encode(g, sy('k', z['pk']), comp, z['pt']))
        b = oracle(W.nat, g + '_wraps', 20, 3)
        rec.req(b is None, g + ': natively executed wrappers agree with the key inside', str(b)[:300])
    return ('wrap-' + g, job)

ERASE = ['ebytes', 'dbytes', 'elimbs', 'dlimbs', 'dx255', 'ex255', 'dk256', 'dp256', 'dp384', 'dp521']
def job_erase(W, n):
    """erasing (and dropping) the wrapper does to its memory exactly what erasing (dropping) the key inside does, by the same
    volatile stores, and for a secret leaves no byte that depends on it"""
    def job(rec):
        rec.ctx(W.ctx)
        sz = Machine(W.prog).call(W.entry('sz_' + n), [])
        for op, what in (('z', 'zeroize'), ('d', 'drop')):
            res = {}
            for w in 'wi':
                M = Machine(W.prog); M.track_vol = True
                p = obj(M, 'k', sz)
                M.call(W.entry('%s%s_%s' % (op, w, n)), [p]); rec.machine(M, '%s %s %s' % (what, {'w': 'wrapper', 'i': 'key'}[w], n))
                res[w] = (M.bytes_at(p, sz), M.vol.get(p >> 32, {}))
            rec.eq('%s %s: memory equals that after erasing the key inside' % (what, n), res['w'][0], res['i'][0])
            vw, vi = res['w'][1], res['i'][1]
            miss = [i for i in vi if T.equal(vw.get(i, 1), vi[i]) is not True]
            rec.ok('%s %s: volatile store' % (what, n), max(len(vi) - len(miss), 0) or 1)
            if miss: rec.fail('%s %s: volatile store' % (what, n), 'object bytes %s not overwritten' % _ranges(miss), len(miss))
            if op == 'z' or n in ('dx255', 'dk256', 'dp256', 'dp384', 'dp521'):
                left = [i for i, v in enumerate(res['w'][0]) if v is not None and v.__class__ is not int]
                rec.ok('%s %s: byte no longer depends on the key' % (what, n), sz - len(left))
                if left: rec.fail('%s %s: byte no longer depends on the key' % (what, n), 'object bytes %s survive' % _ranges(left), len(left))
    return ('erase-' + n, job)

def job_derived(W):
    def job(rec):
        rec.ctx(W.ctx)
        for w in 'ed':
            def run(fn, *vals, out=False):
                M = Machine(W.prog); ps = [M.new([v]) for v in vals]
                if out: ps.append(M.new([None]))
                r = M.call(W.entry('%s_%s' % (w, fn)), ps); rec.machine(M, '%s_%s' % (w, fn))
                return M.ld(ps[-1], 1) if out else r
            def same(what, x, y): rec.req(x is not None and T.prove_equal(x, y) is True, w + what, 'value %s' % (T.show(x, 3)[:200] if x.__class__ is T.Node else x), 'enumeration')
            a, b = sym('a', 255), sym('b', 255)
            same(': comparison is that of the key inside', run('eq', a, b), T.eq(a, b))
            same(': a key equals itself', run('eq', a, a), 1)
            same(': order is that of the key inside', run('lt', a, b), T.ult(a, b))
            same(': clone is the key inside', run('clone', a, out=True), a)
            same(': default is the default key', run('default', out=True), 0)
    return ('derived', job)

# ---------------------------------------------------------------------------------------------- native
LOW = [bytes(32), b'\x01' + bytes(31), bytes.fromhex('e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800'),
       bytes.fromhex('5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157'), b'\xec' + b'\xff' * 30 + b'\x7f',
       b'\xed' + b'\xff' * 30 + b'\x7f', b'\xee' + b'\xff' * 30 + b'\x7f', b'\xff' * 32, b'\x09' + bytes(31), b'\x09' + bytes(30) + b'\x80']
ORDERS = {'k256': 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141, 'p256': 0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
          'p384': 0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973}
LEN = {'k256': 32, 'p256': 32, 'p384': 48, 'p521': 66, 'x255': 32}
def tapes(g, rng):
    n = LEN[g]
    def one():
        r = rng.randrange(8)
        if r == 0 and g != 'x255': return rng.randrange(1, 5).to_bytes(n, rng.choice(['big', 'little']))
        if r == 1 and g in ORDERS: return (ORDERS[g] - rng.randrange(1, 4)).to_bytes(n, 'big')
        if r == 2 and g == 'x255': return rng.choice([bytes(32), b'\xff' * 32])
        if g == 'p521': return bytes([0, rng.randrange(2)]) + rng.randbytes(64)
        return rng.randbytes(n)
    t = b''.join(one() for _ in range(2)) + b''.join((b'\0\0' if g == 'p521' else b'') + rng.randbytes(n - 2 * (g == 'p521')) for _ in range(20))
    return t, (rng.choice(LOW + [rng.randbytes(32)]) if g == 'x255' and rng.randrange(3) else None)
def call_oracle(path, fn, t, sp):
    L = ctypes.CDLL(path); f = getattr(L, fn); f.restype = ctypes.c_uint64
    b = ctypes.create_string_buffer(t, len(t)); s = ctypes.create_string_buffer(sp, 32) if sp else None
    return f(b, ctypes.c_size_t(len(t)), s)
def oracle(path, fn, count, seed, seconds=20):
    """-> first (tape, special key) on which the harness oracle disagrees, in a child process"""
    import time, mmap
    g = fn.split('_')[0]; mm = mmap.mmap(-1, 1 << 16)
    pid = os.fork()
    if pid == 0:
        os.dup2(os.open('/dev/null', os.O_WRONLY), 2)
        rng = random.Random(seed); tend = time.time() + seconds
        for _ in range(count):
            t, sp = tapes(g, rng)
            d = pickle.dumps((t, sp)); mm[8:8 + len(d)] = d; mm[0:8] = len(d).to_bytes(8, 'little')
            import signal; signal.alarm(10)
            r = call_oracle(path, fn, t, sp)
            if r: os._exit(7)
            mm[0:8] = bytes(8)
            if time.time() > tend: break
        os._exit(0)
    _, st = os.waitpid(pid, 0)
    if not st: return None
    n = int.from_bytes(mm[0:8], 'little')
    if not n: return {'crate': 'hd', 'oracle': fn, 'what': 'abnormal termination'}
    t, sp = pickle.loads(mm[8:8 + n])
    return {'crate': 'hd', 'oracle': fn, 'tape': t.hex(), 'special': sp.hex() if sp else None,
            'what': 'disagreement' if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 7 else 'abnormal termination'}
def once(path, fn, t, sp):
    import signal
    pid = os.fork()
    if pid == 0:
        os.dup2(os.open('/dev/null', os.O_WRONLY), 2); signal.alarm(10)
        os._exit(7 if call_oracle(path, fn, t, sp) else 0)
    st = os.waitpid(pid, 0)[1]
    return None if not st else 'disagreement' if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 7 else 'abnormal termination'
def hunter(W, suffix):
    def hunt(bad):
        for s in range(3):
            for g in GROUPS:
                r = oracle(W.nat, g + suffix, 150, 100 + s, 12)
                if r: return r
        if suffix == '_wraps':
            for n in ERASE:
                r = erase_native(W.nat, n)
                if r: return r
        return None
    return hunt
def erase_native(path, n):
    r, w = os.pipe(); pid = os.fork()
    if pid == 0:
        L = ctypes.CDLL(path); V = ctypes.c_void_p
        f = getattr(L, 'sz_' + n); f.restype = ctypes.c_size_t; sz = f()
        bad = None
        for op in 'zd':
            if op == 'd' and n[1:] in ('bytes', 'limbs') : continue
            out = []
            for x in 'wi':
                b = (ctypes.c_uint64 * (sz // 8 + 2))()
                ctypes.memmove(b, bytes((i * 7 + 1) & 127 | 1 for i in range(sz)), sz)
                getattr(L, '%s%s_%s' % (op, x, n))(V(ctypes.addressof(b)))
                out.append(ctypes.string_at(ctypes.addressof(b), sz))
            if out[0] != out[1]: bad = {'crate': 'hd', 'erase_object': n, 'op': {'z': 'zeroize', 'd': 'drop'}[op], 'what': 'wrapper memory differs from the erased key', 'memory': out[0].hex()}
        os.write(w, pickle.dumps(bad)); os._exit(0)
    os.close(w); d = b''
    while True:
        x = os.read(r, 65536)
        if not x: break
        d += x
    os.close(r); os.waitpid(pid, 0)
    return pickle.loads(d) if d else None
