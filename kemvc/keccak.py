"""Contract of keccak::keccak_p::<u64>(state, 24): the state becomes Keccak-p[1600,24] of the state (FIPS 202 sections 3.2, 3.3).

Loop invariant, checked at every visit of the round loop's head: the state is the specified round function applied to the
state at the previous visit.  One round is compared bit by bit in algebraic normal form over GF(2) (canonical, so the order
and grouping of the exclusive-ors do not matter); the state is then forgotten (fresh lanes) before the next round."""
import numpy as np
from . import terms as T, spec as S
from .terms import sym, Unsupported
from .exec import Machine
ONE = -1
class Anf:
    """set of monomials: ONE, v (one variable), or (v, w) with v < w"""
    def __init__(self): self.memo = {}
    def var(self, atom, bit): return frozenset([int(atom.args[0][2:]) * 64 + bit])
    def mul(self, p, q):
        r = set()
        for a in p:
            for b in q:
                if a == ONE: m = b
                elif b == ONE or a == b: m = a
                elif a.__class__ is int and b.__class__ is int: m = (a, b) if a < b else (b, a)
                else: raise Unsupported('degree')
                r ^= {m}
        return frozenset(r)
    def bit(self, v, i):
        if v.__class__ is int: return frozenset([ONE]) if v >> i & 1 else frozenset()
        k = (v.id, i)
        r = self.memo.get(k)
        if r is None: r = self.memo[k] = self.comp(v, i)
        return r
    def comp(self, v, i):
        op = v.op
        if op == 'sym': return self.var(v, i)
        if op == 'seg':
            if v.args[0] >> i & 1: return frozenset([ONE])
            for o, w, a, al in v.args[1]:
                if o <= i < o + w: return self.bit(a, al + i - o)
            return frozenset()
        if op == 'xor': return self.bit(v.args[0], i) ^ self.bit(v.args[1], i)
        if op == 'and': return self.mul(self.bit(v.args[0], i), self.bit(v.args[1], i))
        if op == 'or':
            p, q = self.bit(v.args[0], i), self.bit(v.args[1], i)
            return p ^ q ^ self.mul(p, q)
        if op == 'not': return (frozenset([ONE]) ^ self.bit(v.args[0], 0)) if i == 0 else frozenset()
        if op == 'band':
            if i: return frozenset()
            r = frozenset([ONE])
            for x in v.args[0]: r = self.mul(r, self.bit(x, 0))
            return r
        if op == 'lut':
            b = v.args[0]; tab = T.tables[v.args[1]]; n = b.nb
            if b.lo or len(tab) != 1 << n: raise Unsupported('Keccak: table of a partial range')
            c = ((tab >> T.U64(i)) & T.U64(1)).astype(np.uint8)
            for j in range(n):                                   # Moebius transform
                d = c.reshape(-1, 2, 1 << j); d[:, 1] ^= d[:, 0]
            r = frozenset()
            for k in np.flatnonzero(c):
                m = frozenset([ONE])
                for j in range(n):
                    if k >> j & 1: m = self.mul(m, self.bit(b, j))
                r ^= m
            return r
        raise Unsupported('Keccak: term %s' % op)

def spec_round():
    """theta, rho, pi, chi of FIPS 202 on variables A[x,y,z] = 64*(x+5y)+z, without iota"""
    A = lambda x, y, z: 64 * (x % 5 + 5 * (y % 5)) + z % 64
    th = {}
    for x in range(5):
        for z in range(64):
            d = frozenset(A(x - 1, y, z) for y in range(5)) ^ frozenset(A(x + 1, y, z - 1) for y in range(5))
            for y in range(5): th[x, y, z] = frozenset([A(x, y, z)]) ^ d
    rot = {(0, 0): 0}; x, y = 1, 0
    for t in range(24):
        rot[x, y] = (t + 1) * (t + 2) // 2
        x, y = y, (2 * x + 3 * y) % 5
    pi = {(x, y, z): th[(x + 3 * y) % 5, x, (z - rot[(x + 3 * y) % 5, x]) % 64] for x in range(5) for y in range(5) for z in range(64)}
    an = Anf(); out = {}
    for x in range(5):
        for y in range(5):
            for z in range(64):
                out[x, y, z] = pi[x, y, z] ^ an.mul(pi[(x + 1) % 5, y, z] ^ {ONE}, pi[(x + 2) % 5, y, z])
    return out

def prove(prog, fn):
    """-> number of obligations discharged, or raises Unsupported"""
    its = [f for f in prog.all_funcs if f.mod is fn.mod and 'slice::iter::Iter<u64>' in f.short and f.short.endswith('::next')]
    if not its: raise Unsupported('round loop not located')
    M = Machine(prog)
    L = [sym('ln%d' % i, 2 ** 64 - 1) for i in range(25)]
    cells = [(v, i, 8) for v in L for i in range(8)]
    p = M.new(list(cells)); size = 200
    want = spec_round(); an = Anf(); st = {'n': 0, 'ok': 0}
    def hook(M2, args):
        n = st['n']; st['n'] += 1
        if n:
            lanes = [M2.ld(p + 8 * i, 8) for i in range(25)]
            for x in range(5):
                for y in range(5):
                    for z in range(64):
                        w = want[x, y, z]
                        if (x, y) == (0, 0) and S._RC[n - 1] >> z & 1: w = w ^ {ONE}
                        if an.bit(lanes[x + 5 * y], z) != w: raise Unsupported('Keccak round %d: bit %s differs from FIPS 202' % (n, (x, y, z)))
                        st['ok'] += 1
            for i, v in enumerate(L): M2.st(p + 8 * i, 8, v)
        return NotImplemented
    old = [(f, f.hook) for f in its]
    try:
        for f in its: f.hook = hook
        M.call(fn, [p, 24])
    finally:
        for f, h in old: f.hook = h
    if M.failures: raise Unsupported('Keccak: %r' % M.failures[0])
    if st['n'] != 25: raise Unsupported('Keccak: %d rounds' % (st['n'] - 1))
    if any(M.ld(p + 8 * i, 8) is not L[i] for i in range(25)): raise Unsupported('Keccak: state changed after the last round')
    return st['ok'], M
def job(prog, fn):
    def run(rec):
        h = fn.hook; fn.hook = None
        try:
            n, M = prove(prog, fn)
            rec.ok('keccak_p: every bit of every round is that of FIPS 202 (loop invariant)', n, 'algebraic normal form')
            rec.machine(M, 'keccak_p')
            rec.contracts = ['keccak::keccak_p::<u64>(_, 24) = Keccak-p[1600,24]']
        except Unsupported as e:
            rec.assumed.append('keccak::keccak_p::<u64>(state, 24) is Keccak-p[1600,24] (FIPS 202): not proved on this build (%s)' % e)
            rec.ok('keccak_p: contract assumed', 1)
        finally: fn.hook = h
    return ('keccak_p', run)
