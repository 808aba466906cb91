"""Proof of the SampleNTT contract: sample_uniform(reader) returns the first 256 accepted 12-bit values of the byte
stream the reader yields, for EVERY stream (no bound on the number of rejections).

The state space of (code state, specification state) is explored exhaustively: a state is the whole call stack and
memory, with stream bytes named relative to the specification's cursor, accepted values replaced by tokens ACC_j
and every value that still depends on consumed bytes forgotten (over-approximation).  Both outcomes of every
comparison on stream bytes are followed; a state seen before closes the induction, so the (finite) set of visited
states is an inductive invariant of all loops involved."""
import time, hashlib
from . import terms as T, spec as S
from .terms import Unsupported, sym, Q, slc, concat, ult
from .exec import Machine, Frame, Dead

class Split(Exception):
    pass

def sbyte(n): return sym('strm%d' % n)
def acc(j): return sym('acc%d' % j, Q - 1)
def dvals(t):
    """the two 12-bit candidates of triple t (FIPS 203 Algorithm 7 lines 5-6)"""
    a, b, c = sbyte(3 * t), sbyte(3 * t + 1), sbyte(3 * t + 2)
    return concat([(a, 8), (slc(b, 0, 4), 4)]), concat([(slc(b, 4, 4), 4), (c, 8)])

class Early(Exception):
    pass

class Explorer:
    def __init__(self, prog, fn, read, size, hooks=None, max_states=60000, budget_s=400):
        self.prog = prog; self.fn = fn; self.read = read; self.size = size
        self.max_states = max_states; self.budget_s = budget_s
        self.lens = set()
        self.states = 0; self.transitions = 0
        self.bad = []
        self.dcache = {}
        self.mapcache = {}

    def branch(self, M, fr, cond, a, b):
        raise Split(cond, a, b)

    # comparisons used as data: with `eager` set every undecided comparison splits the state where it is made; the
    # segment it stands in is run again from its start under each outcome
    eager = False
    def mark(self, M): self.marked = self.snap(M)
    def split(self, M, c):
        self.restore(M, self.marked)
        raise Early(c)
    def read_hook(self, M, args):
        rd, p, n = args
        if n.__class__ is not int or p.__class__ is not int: raise Unsupported('XofReader::read of symbolic length')
        if rd != self.reader: raise Unsupported('XofReader::read on an unexpected reader')
        self.lens.add(n)
        for k in range(n): M.st(p + k, 1, sbyte(self.pos + k))
        self.pos += n
        if self.pos > 5000: raise Unsupported('reads far ahead of the specification')
        return None

    # ---- snapshots
    def snap(self, M):
        fs = []
        for f in M.stack:
            g = Frame(); g.fn = f.fn; g.R = list(f.R); g.pc = f.pc; g.sp = f.sp; g.ret = f.ret; g.nxt = f.nxt
            fs.append(g)
        M.gencount += 1; M.gen = M.gencount
        return (fs, dict(M.mem), M.sp, dict(M.known), dict(M.masks), self.pos, self.j, list(M.pcstack))
    def restore(self, M, s):
        fs, mem, sp, known, masks, pos, j, pcs = s
        M.stack[:] = []
        for f in fs:
            g = Frame(); g.fn = f.fn; g.R = list(f.R); g.pc = f.pc; g.sp = f.sp; g.ret = f.ret; g.nxt = f.nxt
            M.stack.append(g)
        M.mem = dict(mem); M.sp = sp; M.known = dict(known); M.masks = dict(masks)
        self.pos = pos; self.j = j
        M.pcstack[:] = pcs
        M.gencount += 1; M.gen = M.gencount

    # ---- canonicalization
    def advance(self, M):
        """run the specification as far as the path condition determines it; -> (consumed triples, {term: ACC})"""
        t = 0; m = {}
        while 3 * t + 3 <= self.pos and self.j < 256:
            d1, d2 = self.dcache.get(t) or self.dcache.setdefault(t, dvals(t))
            k1 = M.decide(ult(d1, Q))
            if k1 is None: break
            k2 = M.decide(ult(d2, Q))
            if k2 is None:
                # first candidate decided only: name it without consuming the triple
                if k1: m[d1] = acc(self.j)
                break
            if k1:
                m[d1] = acc(self.j); self.j += 1
            if k2 and self.j < 256:
                m[d2] = acc(self.j); self.j += 1
            t += 1
        return t, m

    def canon_state(self, M):
        c, m = self.advance(M)
        c3 = 3 * c
        part = {k: v for k, v in m.items()}
        memo = {}
        half = {}          # the d1 of an incomplete triple keeps its real value
        if c3 * 1 <= self.pos:
            d1, d2 = dvals(c)
            if d1 in part: del part[d1]
        names = self.names(c3)
        def mp(n):
            r = memo.get(n, 0)
            if r.__class__ is not int or r != 0: return r
            if n in part: r = part[n]
            else:
                r = self.rename(n, c3, part)
            memo[n] = r
            return r
        if c:
            for f in M.stack:
                R = f.R
                for i, v in enumerate(R):
                    if v is None or v.__class__ is int: continue
                    if v.__class__ is tuple:
                        R[i] = self.maptup(v, mp)
                    else: R[i] = mp(v)
            for a, o in M.mem.items():
                if o.const or o.gen < 0: continue
                cells = o.cells; new = None
                for i, v in enumerate(cells):
                    if v is None or v.__class__ is int: continue
                    if v.__class__ is tuple:
                        w = mp(v[0])
                        if w is v[0]: continue
                        if w is None: w = None
                        elif w.__class__ is int: w = (w >> (8 * v[1])) & 255
                        else: w = (w, v[1], v[2])
                    else:
                        w = mp(v)
                        if w is v: continue
                    if new is None: new = list(cells)
                    new[i] = w
                if new is not None:
                    if o.gen != M.gen: o = M.cow(a, o)
                    o.cells = new
            self.pos -= c3
            kn = {}
            for k, v in M.known.items():
                r = mp(k)
                if r is not None and r.__class__ is not int and self.live(k): kn[r] = v
            M.known = kn
            mk = {}
            for k, v in M.masks.items():
                r = mp(k)
                if r is not None and r.__class__ is not int and self.live(k): mk[r] = v
            M.masks = mk
            M.pcstack[:] = [(mp(k), v) for k, v in M.pcstack if mp(k) is not None and mp(k).__class__ is not int and self.live(k)]
        key = [self.pos, self.j]
        for f in M.stack:
            key.append(f.fn.name); key.append(f.pc)
            for v in f.R:
                key.append(self.kv(v))
        for a in sorted(M.mem):
            o = M.mem[a]
            if o.const or o.gen < 0: continue
            key.append(a)
            key.append(tuple([self.kv(v) for v in o.cells]))
        key.append(tuple(sorted((k.id, v) for k, v in M.known.items())))
        return hashlib.blake2b(repr(key).encode(), digest_size=20).digest()
    def live(self, k): return True
    def kv(self, v):
        if v is None or v.__class__ is int: return v
        if v.__class__ is tuple: return tuple([self.kv(x) for x in v])
        return ('n', v.id)
    def names(self, c3): return None
    def maptup(self, v, mp):
        out = []
        for x in v:
            if x is None or x.__class__ is int: out.append(x)
            elif x.__class__ is tuple: out.append(self.maptup(x, mp))
            else: out.append(mp(x))
        return tuple(out)
    def rename(self, n, c3, part):
        """n with stream bytes renumbered by -c3; None when it depends on a consumed byte; accepted values inside
        larger terms are replaced as well"""
        key = (n, c3)
        if not part or True:
            sup = T.support([n])
            mx = {}
            bad = False
            for s in sup:
                if s.op != 'sym': return None
                nm = s.args[0]
                if nm.startswith('strm'):
                    k = int(nm[4:])
                    if k < c3: bad = True
                    else: mx[s] = sbyte(k - c3)
            if bad:
                # an accepted value zero-extended or shifted: representable if it is a seg over the value's slices
                return None
            if not mx: return n
            r = self.mapcache.get(key)
            if r is None:
                r = self.mapcache[key] = T.subst([n], mx)[0]
            return r

    # ---- main loop
    def run(self):
        M = Machine(self.prog)
        self.M = M
        M.explore = self; M.eager = self.eager
        self.pos = 0; self.j = 0
        dst = M.new([None] * 512)
        self.reader = M.new([None] * self.size)
        self.dst = dst
        old = self.read.hook
        self.read.hook = self.read_hook
        seen = set(); work = []
        t0 = time.time()
        try:
            r = M.enter(self.fn, [dst, self.reader], None, None)
            assert r is NotImplemented
            work.append((self.snap(M), False) if self.eager else self.snap(M))
            while work:
                s = work.pop()
                if self.eager: s, fresh = s
                self.restore(M, s)
                try:
                    kind, v = M.run(1, -1)
                    self.finish(M)
                    continue
                except Early as e:
                    # the state is that of the segment's start: close it under canonical form first, split it then
                    if fresh:
                        base = self.snap(M)
                        for pol in (1, 0):
                            self.restore(M, base)
                            M.assume(e.args[0], pol); M.pcstack.append((e.args[0], pol))
                            self.transitions += 1
                            work.append((self.snap(M), False))
                        continue
                    key = self.canon_state(M)
                    if key not in seen:
                        seen.add(key); self.states += 1
                        work.append((self.snap(M), True))
                    if self.states > self.max_states or time.time() - t0 > self.budget_s:
                        raise Unsupported('state budget exhausted (%d states)' % self.states)
                    if len(M.failures) > 3 or len(self.bad) > 3: break
                    continue
                except Split as e:
                    if self.eager: raise Unsupported('comparison that cannot be split early')
                    cond, a, b = e.args
                except Dead:
                    if not M.failures: raise
                    continue
                base = self.snap(M)
                self.succ(M, base, cond, a, b, seen, work)
                if self.states > self.max_states or time.time() - t0 > self.budget_s:
                    raise Unsupported('state budget exhausted (%d states)' % self.states)
                if len(M.failures) > 3 or len(self.bad) > 3: break
        finally:
            self.read.hook = old
            M.explore = None; M.eager = False
        return M

    def succ(self, M, base, cond, a, b, seen, work):
        lit = cond
        while lit.op == 'not': lit = lit.args[0]
        if lit.op == 'band':
            for x in lit.args[0]:
                if M.decide(x) is None:
                    lit = x; break
        for pol in (1, 0):
            self.restore(M, base)
            M.assume(lit, pol)
            M.pcstack.append((lit, pol))
            d = M.decide(cond)
            fr = M.stack[-1]
            if d is None:
                self.succ(M, self.snap(M), cond, a, b, seen, work)
                continue
            tgt = a if d else b
            self.transitions += 1
            if tgt.__class__ is tuple:
                try:
                    tgt = M.switch(fr, *tgt)
                except Split as e:
                    c2, a2, b2 = e.args
                    self.succ(M, self.snap(M), c2, a2, b2, seen, work)
                    continue
            fr.pc = tgt
            key = self.canon_state(M)
            if key in seen: continue
            seen.add(key)
            self.states += 1
            work.append(self.snap(M))

    def finish(self, M):
        _, m = self.advance(M)
        out = [M.ld(self.dst + 2 * i, 2) for i in range(256)]
        if self.j < 256 and not (self.j == 255 and m):
            self.bad.append('returns before 256 values were accepted'); return
        for i, v in enumerate(out):
            w = m.get(v, v) if v.__class__ is not int and v is not None else v
            if w is not acc(i):
                self.bad.append('coefficient %d is not the %d-th accepted value of the stream' % (i, i)); return

class _Got(Exception):
    pass

class NextExplorer(Explorer):
    """modular variant: the contract of the element reader's `next` is proved by closing its own state space, then
    sample_uniform is run once with `next` replaced by its contract"""
    def __init__(self, prog, fn, read, nxt, size, **kw):
        Explorer.__init__(self, prog, fn, read, size, **kw)
        self.nxt = nxt

    def first_call(self):
        M = Machine(self.prog)
        self.pos = 0; self.j = 0
        dst = M.new([None] * 512); self.reader = M.new([None] * self.size)
        got = {}
        def cap(M2, args):
            got['args'] = args
            if len(args) == 1 and args[0].__class__ is int: got['cells'] = list(M2.mem[args[0] >> 32].cells)
            raise _Got()
        oldr, oldn = self.read.hook, self.nxt.hook
        self.read.hook = self.read_hook; self.nxt.hook = cap
        try:
            M.call(self.fn, [dst, self.reader])
        except _Got: pass
        finally:
            self.read.hook = oldr; self.nxt.hook = oldn
        if not got or len(got['args']) != 1: raise Unsupported('reader is not consulted')
        p = got['args'][0]
        if p.__class__ is not int or p & 0xffffffff: raise Unsupported('reader argument')
        return M, got['cells'], p

    def run(self):
        M0, cells, p0 = self.first_call()
        if M0.failures: self.bad.append(repr(M0.failures[0]))
        pos0 = self.pos; reader0 = self.reader
        M = Machine(self.prog)
        self.M = M; M.explore = self
        # same allocation number for the reader so that stored pointers keep their meaning
        self.reader = reader0
        M.sp = max(M.sp, (reader0 >> 32) + 1)
        from .exec import Obj
        M.mem[reader0 >> 32] = Obj([None] * self.size, M.gen)
        self.obj = M.new(cells)
        self.pos = pos0; self.j = 0
        old = self.read.hook
        self.read.hook = self.read_hook
        seen = set(); work = []; t0 = time.time()
        self.entries = 0
        try:
            self.enter_next(M, seen, work)
            while work:
                s = work.pop()
                self.restore(M, s)
                try:
                    kind, v = M.run(1, -1)
                    M.pop()
                    self.returned(M, v, seen, work)
                except Split as e:
                    cond, a, b = e.args
                    base = self.snap(M)
                    self.succ(M, base, cond, a, b, seen, work)
                except Dead:
                    if not M.failures: raise
                if self.states > self.max_states or time.time() - t0 > self.budget_s:
                    raise Unsupported('state budget exhausted (%d states)' % self.states)
                if len(M.failures) > 3 or len(self.bad) > 3: break
        finally:
            self.read.hook = old; M.explore = None
        if self.bad or M.failures: return M
        # step C
        self.compose()
        return M
    def enter_next(self, M, seen, work):
        key = self.canon_state(M)
        if key in seen: return
        seen.add(key); self.states += 1; self.entries += 1
        r = M.enter(self.nxt, [self.obj], None, None)
        if r is not NotImplemented: raise Unsupported('next hooked')
        work.append(self.snap(M))
    def returned(self, M, v, seen, work):
        # the returned value is the first accepted value not returned before
        _, m = self.advance_peek(M)
        w = m.get(v, v) if v is not None and v.__class__ is not int else v
        if w is not acc(0):
            self.bad.append('next does not return the next accepted value of the stream'); return
        # force the current triple to be consumed as far as decided, then drop the returned token
        self.canon_state(M)
        if self.j < 1:
            # value returned from a half-decided triple: decide the second candidate
            d1, d2 = dvals(0)
            base = self.snap(M)
            c = ult(d2, Q)
            for pol in (1, 0):
                self.restore(M, base)
                M.assume(c, pol); M.pcstack.append((c, pol))
                self.canon_state(M)
                self.shift(M); self.enter_next(M, seen, work)
            return
        self.shift(M)
        self.enter_next(M, seen, work)
    def advance_peek(self, M):
        j = self.j
        r = self.advance(M)
        self.j = j
        return r
    def shift(self, M):
        mp = {acc(k): acc(k - 1) for k in range(1, 8)}
        mp[acc(0)] = None
        for a, o in list(M.mem.items()):
            if o.const or o.gen < 0: continue
            new = list(o.cells)
            for i, v in enumerate(new):
                if v is None or v.__class__ is int: continue
                if v.__class__ is tuple:
                    w = mp.get(v[0], v[0]); new[i] = None if w is None else (w, v[1], v[2])
                else: new[i] = mp.get(v, v)
            if o.gen != M.gen: o = M.cow(a, o)
            o.cells = new
        self.j -= 1
    def compose(self):
        M = Machine(self.prog)
        self.pos = 0
        dst = M.new([None] * 512); self.reader = M.new([None] * self.size)
        st = {'n': 0, 'p': None, 'cells': None}
        _, cells0, _ = None, None, None
        first = self.first_cells
        def hook(M2, args):
            p, = args
            o = M2.mem[p >> 32]
            if st['n'] == 0:
                if [self.kv(x) for x in o.cells] != first: raise Unsupported('first call of next')
                st['p'] = p
            elif p != st['p'] or o.cells != st['cells']:
                raise Unsupported('reader modified between calls of next')
            fresh = [sym('rdr!%d' % k) for k in range(o.n)]
            if o.gen != M2.gen: o = M2.cow(p >> 32, o)
            o.cells[:] = fresh
            st['cells'] = list(fresh)
            st['n'] += 1
            return acc(st['n'] - 1)
        oldr, oldn = self.read.hook, self.nxt.hook
        reads = []
        def rh(M2, args):
            if st['n']: raise Unsupported('stream read outside next')
            return self.read_hook(M2, args)
        self.read.hook = rh; self.nxt.hook = hook
        try:
            M.call(self.fn, [dst, self.reader])
        finally:
            self.read.hook = oldr; self.nxt.hook = oldn
        if M.failures: self.bad.append(repr(M.failures[0])); return
        for i in range(256):
            if M.ld(dst + 2 * i, 2) is not acc(i):
                self.bad.append('coefficient %d is not the %d-th accepted value of the stream' % (i, i)); return
    @property
    def first_cells(self):
        if not hasattr(self, '_fc'):
            r = self.reader
            pos = self.pos
            M, cells, p = self.first_call()
            self._fc = [self.kv(x) for x in cells]
            self.reader = r; self.pos = 0
        return self._fc
