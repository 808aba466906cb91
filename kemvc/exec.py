"""Executor: runs compiled IR over terms, generating and discharging obligations.

Memory: allocation id -> Obj (list of byte cells).  A cell is an int, a one-byte Node, a triple (T, k, n) meaning
byte k of the n-byte term T, or None (undefined).  Pointers are (id << 32) + offset.
A branch on an undecided condition runs both sides to the immediate post-dominator and merges (strongest
postcondition with ite), so every path of every loop is covered; nothing is bounded or sampled."""
import sys, time
from . import terms as T
from .terms import Unsupported, Node, ite, slc, eq, band, not_, concat, sym
from .ir import Func, Extern, PANIC_RE, seg_target_block, FBASE, GBASE

sys.setrecursionlimit(100000)

class Dead(Exception): pass
class Budget(Unsupported): pass
# wall-clock limits: of the whole check (set by the driver) and of the contract attempt under way
import time
LIMITS = []
def over_time():
    return bool(LIMITS) and time.time() > min(LIMITS)

class Obj:
    __slots__ = ('cells', 'n', 'gen', 'name', 'const', 'esc')
    def __init__(self, cells, gen, name=None, const=False):
        self.cells = cells; self.n = len(cells); self.gen = gen; self.name = name; self.const = const

class Frame:
    __slots__ = ('fn', 'R', 'pc', 'sp', 'ret', 'nxt')

class Failure:
    def __init__(self, kind, where, detail, pc, cond=None):
        self.kind = kind; self.where = where; self.detail = detail; self.pc = pc; self.cond = cond
    def __repr__(self): return ('%s at %s: %s' % (self.kind, self.where, self.detail))[:300]

_points = {}
_feas = {}
class Machine:
    def __init__(self, prog, budget=400_000_000):
        self.prog = prog
        self.mem = {}
        self.sp = 1024
        self.gen = 0
        self.gencount = 0
        self.journal = None
        self.stack = []
        self.known = {}
        self.masks = {}
        self.failures = []
        self.obl = {}            # kind -> count discharged
        self.rng = []            # list of draw sizes
        self.rngsyms = 0
        self.vol = {}            # alloc id -> set of offsets volatile-written
        self.track_vol = False
        self.branches = {}       # (fn name, block) -> set of conditions (undecided branches)
        self.steps = 0
        self.budget = budget
        self.calls = {}
        self.undef = 0
        self.symaddr = []        # symbolic addresses loaded from
        self.pcstack = []
        self.fns = set()
        self.explore = None
        self.eager = False
        self.fences = 0

    # -------------------------------------------------- obligations
    def discharged(self, kind, n=1):
        self.obl[kind] = self.obl.get(kind, 0) + n
    def fail(self, kind, where, detail, cond=None):
        self.failures.append(Failure(kind, where, detail, list(self.pcstack), cond))

    # -------------------------------------------------- memory
    def new(self, cells, name=None):
        a = self.sp; self.sp += 1
        self.mem[a] = Obj(list(cells), self.gen, name)
        return a << 32
    def alloca(self, n):
        a = self.sp; self.sp = a + 1
        self.mem[a] = Obj([None] * n, self.gen)
        return a << 32
    def obj(self, a):
        o = self.mem.get(a)
        if o is None:
            if GBASE <= a < FBASE:
                cells, const = self.prog.global_cells(a)
                if not const:       # left by any history of earlier calls
                    cells = [sym('global:%s[%d]' % (self.prog.ginfo[a][1], i)) for i in range(len(cells))]
                o = self.mem[a] = Obj(cells, -1, self.prog.ginfo[a][1], const)
            else:
                self.fail('memory-safety', self.here(), 'access through an invalid pointer (allocation %#x)' % a)
                raise Dead('invalid pointer')
        return o
    def here(self):
        return self.stack[-1].fn.dem if self.stack else '?'
    def cow(self, a, o):
        if o.const:
            self.fail('memory-safety', self.here(), 'write to constant memory')
            raise Dead('const write')
        if self.journal is not None:
            if a not in self.journal: self.journal[a] = o
        n = Obj(list(o.cells), self.gen, o.name)
        self.mem[a] = n
        return n
    def oob(self, o, off, n):
        self.fail('memory-safety', self.here(), 'access of %d bytes at offset %d of a %d-byte object' % (n, off, o.n))
        raise Dead('out of bounds')

    def ld(self, p, n):
        if p.__class__ is not int: return self.ld_sym(p, n)
        a = p >> 32
        o = self.mem.get(a)
        if o is None: o = self.obj(a)
        off = p & 0xffffffff
        if off + n > o.n: self.oob(o, off, n)
        if n == 1:
            c = o.cells[off]
            if c.__class__ is tuple: return slc(c[0], 8 * c[1], 8)
            return c
        cs = o.cells[off:off + n]
        try:
            return int.from_bytes(cs, 'little')
        except TypeError:
            pass
        c = cs[0]
        if c.__class__ is tuple and c[1] == 0 and c[2] == n:
            t = c[0]
            for k in range(1, n):
                d = cs[k]
                if d.__class__ is not tuple or d[0] is not t or d[1] != k: break
            else:
                return t
        return self.join(cs)
    def join(self, cs):
        """value of a list of cells, little endian"""
        if all(c is None for c in cs): return None
        parts = []
        i = 0; n = len(cs)
        while i < n:
            c = cs[i]
            k = c.__class__
            if k is tuple:
                t, b, w = c
                j = i + 1
                while j < n and cs[j].__class__ is tuple and cs[j][0] is t and cs[j][1] == b + (j - i): j += 1
                parts.append((slc(t, 8 * b, 8 * (j - i)), 8 * (j - i)))
                i = j
                continue
            if c is None:
                self.undef += 1
                c = sym('undef!%d' % self.undef)
            parts.append((c, 8)); i += 1
        return concat(parts)
    def ldw(self, p, n, w):
        v = self.ld(p, n)
        if v.__class__ is int: return v & ((1 << w) - 1)
        return v if v is None else slc(v, 0, w)
    def st(self, p, n, v):
        if p.__class__ is not int: return self.st_sym(p, n, v)
        a = p >> 32
        o = self.mem.get(a)
        if o is None: o = self.obj(a)
        if o.gen != self.gen: o = self.cow(a, o)
        off = p & 0xffffffff
        if off + n > o.n: self.oob(o, off, n)
        if v.__class__ is int:
            o.cells[off:off + n] = v.to_bytes(n, 'little')
        elif n == 1: o.cells[off] = v
        elif v is None: o.cells[off:off + n] = [None] * n
        else: o.cells[off:off + n] = [(v, k, n) for k in range(n)]
    def ld_sym(self, p, n):
        if p is None: raise Unsupported('load through undefined pointer')
        d = self.split_ptr(p)
        self.symaddr.append((self.here(), p))
        if d is not None:
            c, x, y = d
            k = self.decide(c)
            if k is not None: return self.ld(x if k else y, n)
            return self.merge_val(c, self.ld(x, n), self.ld(y, n))
        b = p.base
        if b.op == 'seg' and (b.args[0] or b.hi != (1 << b.nb) - 1 or len(b.args[1]) > 1):
            v = self.ld_bits(p, n)
            if v is not NotImplemented: return v
        # function of one small base: table lookup
        b = p.base
        if T.is_small(b) and p.hi < (1 << 62):
            t = T.table_of(p, b)
            m = self.masks.get(b)
            vals = []
            first = None
            ok = True
            for i in range(len(t)):
                if m is not None and not m[i]:
                    vals.append(None); continue
                v = self.ld(int(t[i]), n)
                if v.__class__ is not int: ok = False
                vals.append(v)
            live = [v for v in vals if v is not None]
            if not live: raise Dead('infeasible')
            if ok:
                arr = T.np.array([live[0] if v is None else v for v in vals], dtype=T.U64)
                return T.mk_lut(b, arr)
            if len(vals) <= 4096:
                r = None
                for i, v in enumerate(vals):
                    if v is None: continue
                    r = v if r is None else self.merge_val(eq(b, b.lo + i), v, r)
                return r
        v = self.ld_bits(p, n)
        if v is not NotImplemented: return v
        raise Unsupported('symbolic load address in ' + self.here())
    def ld_bits(self, p, n):
        # function of a few bits of several atoms
        bits = T.bit_support(p, 12)
        if bits is not None:
            order = sorted(bits.items())
            t = T.enum_bits(p, order)
            if t is not None:
                b = T.seg_of_bits(order)
                vals = [self.ld(int(x), n) for x in t]
                if all(v.__class__ is int for v in vals) and T.is_small(b):
                    return T.mk_lut(b, T.np.array(vals, dtype=T.U64))
        return NotImplemented
    def split_ptr(self, p):
        if p.op == 'ite': return p.args
        if p.op == 'add' and p.args[1].__class__ is int and p.args[0].op == 'ite':
            c, x, y = p.args[0].args
            return c, T.add(x, p.args[1]), T.add(y, p.args[1])
        return None
    def st_sym(self, p, n, v):
        if p is None: raise Unsupported('store through undefined pointer')
        d = self.split_ptr(p)
        self.symaddr.append((self.here(), p))
        if d is not None:
            c, x, y = d
            k = self.decide(c)
            if k is not None: return self.st(x if k else y, n, v)
            self.st(x, n, self.merge_val(c, v, self.ld(x, n)))
            self.st(y, n, self.merge_val(c, self.ld(y, n), v))
            return
        b = p.base
        if T.is_small(b) and b.hi - b.lo < 4096 and p.hi < (1 << 62):
            t = T.table_of(p, b)
            m = self.masks.get(b)
            for i in range(len(t)):
                if m is not None and not m[i]: continue
                q = int(t[i])
                self.st(q, n, self.merge_val(eq(b, b.lo + i), v, self.ld(q, n)))
            return
        raise Unsupported('symbolic store address in ' + self.here())
    def memcpy(self, d, s, n):
        if n.__class__ is not int:
            raise Unsupported('symbolic memcpy length')
        if n == 0: return
        if d.__class__ is not int or s.__class__ is not int:
            for k in range(n):
                from .rt import gep
                self.st(gep(d, k), 1, self.ld(gep(s, k), 1))
            return
        a = s >> 32
        o = self.mem.get(a)
        if o is None: o = self.obj(a)
        so = s & 0xffffffff
        if so + n > o.n: self.oob(o, so, n)
        cells = o.cells[so:so + n]
        a = d >> 32
        o = self.mem.get(a)
        if o is None: o = self.obj(a)
        if o.gen != self.gen: o = self.cow(a, o)
        do = d & 0xffffffff
        if do + n > o.n: self.oob(o, do, n)
        o.cells[do:do + n] = cells
    def memset(self, d, v, n):
        if n.__class__ is not int: raise Unsupported('symbolic memset length')
        if n == 0: return
        if v.__class__ is not int and v is not None and v.nb > 8: v = slc(v, 0, 8)
        a = d >> 32
        o = self.mem.get(a)
        if o is None: o = self.obj(a)
        if o.gen != self.gen: o = self.cow(a, o)
        do = d & 0xffffffff
        if do + n > o.n: self.oob(o, do, n)
        o.cells[do:do + n] = [v] * n
    def volatile(self, p, n, v):
        if self.track_vol and p.__class__ is int:
            s = self.vol.setdefault(p >> 32, {})
            off = p & 0xffffffff
            for k in range(n): s[off + k] = v
    def volatile_range(self, p, n):
        if self.track_vol and p.__class__ is int and n.__class__ is int:
            s = self.vol.setdefault(p >> 32, {})
            off = p & 0xffffffff
            for k in range(n): s[off + k] = 0
    def fence(self): self.fences += 1
    def trap(self):
        self.fail('panic-free', self.here(), 'trap reached')
        raise Dead('trap')
    def unsupported(self, what): raise Unsupported(what)
    def udiv(self, a, b):
        if T.lo_of(b) == 0:
            self.obligation(not_(T.iszero(b)), 'no-ub', 'division by zero')
        return T.udiv(a, b)
    def urem(self, a, b):
        if T.lo_of(b) == 0:
            self.obligation(not_(T.iszero(b)), 'no-ub', 'division by zero')
        return T.urem(a, b)
    def sdiv(self, a, b, w):
        if a.__class__ is int and b.__class__ is int and a < (1 << (w - 1)) and b < (1 << (w - 1)): return a // b
        if T.hi_of(a) < (1 << (w - 1)) and T.hi_of(b) < (1 << (w - 1)): return self.udiv(a, b)
        raise Unsupported('sdiv')
    def srem(self, a, b, w):
        if a.__class__ is int and b.__class__ is int and a < (1 << (w - 1)) and b < (1 << (w - 1)): return a % b
        if T.hi_of(a) < (1 << (w - 1)) and T.hi_of(b) < (1 << (w - 1)): return self.urem(a, b)
        raise Unsupported('srem')
    def select(self, c, a, b):
        if c is None: raise Unsupported('select on undef')
        k = self.decide(c)
        if k is not None: return a if k else b
        return self.merge_val(c, a, b)

    # -------------------------------------------------- path knowledge
    def decide(self, c):
        if c.__class__ is int: return c
        pol = 1
        while c.op == 'not':
            c = c.args[0]; pol ^= 1
        k = self.known.get(c)
        if k is not None: return k if pol else 1 - k
        if c.op == 'band':
            allt = True
            for x in c.args[0]:
                d = self.decide(x)
                if d == 0: return 0 if pol else 1
                if d is None: allt = False
            if allt: return pol
        b = c.base
        m = self.masks.get(b)
        if m is not None:
            t = T.table_of(c, b) != 0
            if not t[m].any(): return 1 - pol
            if t[m].all(): return pol
        elif self.pcstack and b is not c and T.is_mid(b):
            t = self.feasible(c, b)
            if t is not None: return t if pol else 1 - t
        return None
    def feasible(self, c, b):
        """truth of c if it is the same at every point of the enumerable base b that satisfies the path condition over b"""
        ps = []
        for x, pol in self.pcstack:
            if x.__class__ is not int and x.base is b and x.shp is not None: ps.append((x, pol))
        if not ps or c.shp is None: return None
        key = (c.shp, b.lo, b.hi, tuple((x.shp, pol) for x, pol in ps))
        if key in _feas: return _feas[key]
        r = None
        try:
            xs = None; k = (b.lo, b.hi)
            for x, pol in ps:
                k = k + ((x.shp, pol),)
                y = _points.get(k)
                if y is None:
                    pts = T.points(b) if xs is None else xs
                    t = T.eval_at(x, b, pts) != 0
                    if not pol: t = ~t
                    y = pts[t]
                    if len(_points) > 8: _points.clear()
                    _points[k] = y
                xs = y
            if len(xs):
                t = T.eval_at(c, b, xs) != 0
                if not t.any(): r = 0
                elif t.all(): r = 1
        except Unsupported:
            pass
        _feas[key] = r
        return r
    def assume(self, c, pol):
        if c.__class__ is int:
            return
        while c.op == 'not':
            c = c.args[0]; pol ^= 1
        self.known[c] = pol
        if c.op == 'band' and pol:
            for x in c.args[0]: self.assume(x, 1)
        b = c.base
        if T.is_small(b) and b.op != 'band' and c.op != 'band':
            t = T.table_of(c, b) != 0
            if not pol: t = ~t
            m = self.masks.get(b)
            self.masks[b] = t if m is None else (m & t)
    def obligation(self, c, kind, detail):
        """require c; assume it afterwards"""
        d = self.decide(c)
        if d == 1 or (d is None and self.prove(c)):
            self.discharged(kind)
            return True
        self.fail(kind, self.here(), detail, c)
        if d == 0: raise Dead(detail)
        self.assume(c, 1)
        return False
    def prove(self, c):
        """c valid under the path condition? complete enumeration over joint small support only"""
        pcs = list(self.pcstack)
        sup = T.cut_leaves(c)
        if sup is None: return False
        ids = {x.id for x in sup}
        rel = []
        for (p, pol) in pcs:
            l = T.cut_leaves(p)
            if l is not None and l and all(x.id in ids for x in l): rel.append((p, pol))
        tot = 1
        for x in sup:
            tot *= x.hi - x.lo + 1
            if tot > T.BIG: return False
        goal = c
        for (p, pol) in rel:
            goal = T.bor(goal, not_(p) if pol else p)
        if goal.__class__ is int: return goal == 1
        try:
            return T._enum_multi(goal, 1, sup, tot)
        except Unsupported:
            return False

    # -------------------------------------------------- merging
    def merge_val(self, c, a, b):
        if a is b: return a
        if a is None: return b
        if b is None: return a
        ac = a.__class__; bc = b.__class__
        if ac is int and bc is int:
            return a if a == b else ite(c, a, b)
        if ac is tuple or bc is tuple:
            if ac is not bc or len(a) != len(b): return None
            return tuple([self.merge_val(c, x, y) for x, y in zip(a, b)])
        return ite(c, a, b)
    def merge_cells(self, c, x, y):
        n = len(x)
        if x == y: return list(x)
        out = list(x)
        k = 0
        while k < n:
            a = x[k]; b = y[k]
            if a is b or (a.__class__ is int and b.__class__ is int and a == b):
                k += 1; continue
            if a.__class__ is tuple and b.__class__ is tuple and a == b:
                k += 1; continue
            # chunk sizes
            w = 1
            for q in (a, b):
                if q.__class__ is tuple and q[1] == 0 and q[2] > w and k + q[2] <= n: w = q[2]
            if w > 1:
                va = self.chunk(x, k, w); vb = self.chunk(y, k, w)
                if va is not None and vb is not None:
                    v = self.merge_val(c, va, vb)
                    if v.__class__ is int: out[k:k + w] = list(v.to_bytes(w, 'little'))
                    else: out[k:k + w] = [(v, j, w) for j in range(w)]
                    k += w
                    continue
            if a is None or b is None:
                out[k] = b if a is None else a
                k += 1; continue
            # runs of differing ints (pointers, integers): merge as 8-byte words when aligned
            if a.__class__ is int and b.__class__ is int and k + 8 <= n and k % 8 == 0:
                xa = x[k:k + 8]; ya = y[k:k + 8]
                if all(q.__class__ is int for q in xa) and all(q.__class__ is int for q in ya):
                    v = ite(c, int.from_bytes(xa, 'little'), int.from_bytes(ya, 'little'))
                    out[k:k + 8] = [(v, j, 8) for j in range(8)]
                    k += 8; continue
            va = slc(a[0], 8 * a[1], 8) if a.__class__ is tuple else a
            vb = slc(b[0], 8 * b[1], 8) if b.__class__ is tuple else b
            out[k] = ite(c, va, vb)
            k += 1
        return out
    def chunk(self, cells, k, w):
        cs = cells[k:k + w]
        if any(q is None for q in cs): return None
        try: return int.from_bytes(cs, 'little')
        except TypeError: pass
        c = cs[0]
        if c.__class__ is tuple and c[1] == 0 and c[2] == w and all(q.__class__ is tuple and q[0] is c[0] and q[1] == j for j, q in enumerate(cs)):
            return c[0]
        return self.join(cs)

    # -------------------------------------------------- running
    def call(self, fn, args):
        """run fn to completion; returns its value"""
        d0 = len(self.stack)
        r = self.enter(fn, args, None, None)
        if r is not NotImplemented: return r[0]
        try:
            kind, v = self.run(d0 + 1, -1)
        finally:
            while len(self.stack) > d0: self.pop()
        return v
    def enter(self, fn, args, ret, nxt):
        """push a frame (returns NotImplemented) or apply a hook (returns (value,))"""
        h = fn.hook
        if h is not None:
            v = h(self, args)
            if v is not NotImplemented: return (v,)
        if fn.__class__ is Extern:
            return (self.extern(fn, args),)
        if not fn.ready:
            try: fn.prepare()
            except KeyError as e: raise Unsupported('compile %s: %r' % (fn.dem, e))
        self.fns.add(fn)
        fr = Frame()
        fr.fn = fn
        R = [None] * fn.nregs
        if len(args) != len(fn.params): raise Unsupported('arity ' + fn.dem)
        for s, a in zip(fn.params, args): R[s] = a
        fr.R = R; fr.pc = 0; fr.sp = self.sp; fr.ret = ret; fr.nxt = nxt
        self.stack.append(fr)
        if len(self.stack) > 400: raise Unsupported('call depth')
        return NotImplemented
    def pop(self):
        fr = self.stack.pop()
        mem = self.mem
        for a in range(fr.sp, self.sp): mem.pop(a, None)
        self.sp = fr.sp
    def extern(self, fn, args):
        nm = fn.name
        if nm in ('memcmp', 'bcmp'):
            return self.memcmp(*args)
        if nm in ('memcpy', 'memmove'):
            self.memcpy(args[0], args[1], args[2]); return args[0]
        if nm == 'memset':
            self.memset(args[0], slc(args[1], 0, 8), args[2]); return args[0]
        if nm == 'kv_rng_fill':
            return self.rng_fill(args[0], args[1])
        if PANIC_RE.search(fn.dem):
            self.fail('panic-free', self.here(), 'reaches ' + fn.dem)
            raise Dead('panic')
        raise Unsupported('external function ' + fn.dem)
    def rng_fill(self, p, n):
        if self.journal is not None: raise Unsupported('random draw under a symbolic branch')
        if n.__class__ is not int: raise Unsupported('random draw of symbolic length')
        for k in range(n):
            self.st(p + k, 1, sym('rng%d' % (self.rngsyms + k)))
        self.rngsyms += n
        self.rng.append(n)
        return None
    def memcmp(self, p, q, n):
        if n.__class__ is not int: raise Unsupported('symbolic memcmp length')
        cs = []
        diff = None
        for k in range(n):
            a = self.ld(p + k, 1); b = self.ld(q + k, 1)
            if a.__class__ is int and b.__class__ is int:
                if a != b:
                    if not cs: return 1 if a > b else 0xffffffff
                    cs.append(0); break
                continue
            cs.append(eq(a, b))
        e = band(*cs)
        if e.__class__ is int: return 0 if e else 1
        self.branches.setdefault((self.here(), 'memcmp'), set()).add(e)
        return ite(e, 0, 1)

    def cmp(self, c):
        if not self.eager or c is None or c.__class__ is int: return c
        d = self.decide(c)
        return self.explore.split(self, c) if d is None else d
    def run(self, depth, stop):
        stack = self.stack
        fr = stack[-1]
        segs = fr.fn.segs; R = fr.R; pc = fr.pc
        steps = 0
        limit = self.budget - self.steps
        while True:
            if pc == stop and len(stack) == depth:
                fr.pc = pc
                self.steps += steps
                return ('stop', None)
            steps += 1
            if steps > limit: raise Budget('step budget exhausted')
            if self.eager:
                fr.pc = pc; self.explore.mark(self)
            act = segs[pc](R, self)
            if act.__class__ is int:
                pc = act
                continue
            k = act[0]
            if k == 1 or k == 5:
                cs = act[1]
                tgt = cs.target
                if k == 5:
                    fp = act[3]
                    if fp.__class__ is not int: raise Unsupported('symbolic function pointer in ' + fr.fn.dem)
                    tgt = self.prog.fby.get(fp >> 32)
                    if tgt is None: raise Unsupported('bad function pointer')
                fr.pc = pc
                r = self.enter(tgt, act[2], cs.ret, cs.nxt)
                if r is NotImplemented:
                    fr = stack[-1]
                    segs = fr.fn.segs; R = fr.R; pc = 0
                else:
                    if cs.ret is not None: R[cs.ret] = r[0]
                    pc = cs.nxt
                continue
            if k == 2:
                v = act[1]
            elif k == 0:
                fr.pc = pc
                self.steps += steps; limit -= steps; steps = 0
                r = self.fork(fr, act[1], act[2], act[3])
                limit = self.budget - self.steps
                R = fr.R
                if r.__class__ is int:
                    pc = r
                    continue
                v = r[1]
            elif k == 3:
                # symbolic switch: turn into a chain of equality forks
                fr.pc = pc
                self.steps += steps; limit -= steps; steps = 0
                r = self.switch(fr, act[1], list(act[2].items()), act[3])
                limit = self.budget - self.steps
                R = fr.R
                if r.__class__ is int:
                    pc = r
                    continue
                v = r[1]
            else:
                self.fail('panic-free', self.here(), 'reaches ' + fr.fn.panic_msg.get(fr.fn.seg_block[pc], 'unreachable code'))
                raise Dead('unreachable')
            # return v from frame
            if len(stack) == depth:
                fr.pc = pc
                self.steps += steps
                return ('ret', v)
            ret = fr.ret; nxt = fr.nxt
            stack.pop()
            mem = self.mem
            for a in range(fr.sp, self.sp): del mem[a]
            self.sp = fr.sp
            fr = stack[-1]
            segs = fr.fn.segs; R = fr.R
            if ret is not None: R[ret] = v
            pc = nxt

    def switch(self, fr, v, cases, dflt):
        if v is None: raise Unsupported('switch on undef in ' + fr.fn.dem)
        if not cases: return dflt
        (k, tgt) = cases[0]
        c = eq(v, k)
        d = self.decide(c)
        if d == 1: return tgt
        if d == 0: return self.switch(fr, v, cases[1:], dflt)
        return self.fork(fr, c, tgt, (v, cases[1:], dflt))

    def fork(self, fr, cond, a, b):
        if cond is None: raise Unsupported('branch on undefined value in ' + fr.fn.dem)
        d = self.decide(cond)
        if d is not None and b.__class__ is int:
            return a if d else b
        if LIMITS and over_time(): raise Budget('time limit reached while splitting in ' + fr.fn.dem)
        fn = fr.fn
        blk = fn.seg_block[fr.pc]
        dA = fn.doomed[seg_target_block(fn, a)]
        dB = b.__class__ is int and fn.doomed[seg_target_block(fn, b)]
        if dA != dB:
            bad = a if dA else b
            good = b if dA else a
            msg = fn.panic_msg.get(seg_target_block(fn, bad), 'unreachable code')
            self.obligation(not_(cond) if dA else cond, 'panic-free', 'may reach ' + msg)
            if good.__class__ is int: return good
            return self.switch(fr, *good)
        if dA and dB:
            self.fail('panic-free', fn.dem, 'always reaches ' + fn.panic_msg.get(seg_target_block(fn, a), 'unreachable'))
            raise Dead('panic')
        if self.explore is not None:
            return self.explore.branch(self, fr, cond, a, b)
        self.branches.setdefault((fn.dem, fn.block_names[blk]), set()).add(cond)
        ip = fn.ipdom[blk]
        stop = -1 if ip is None or ip == fn.nblocks else fn.seg_of_block[ip]
        depth = len(self.stack)
        R0 = fr.R; pc0 = fr.pc
        known0 = self.known; masks0 = self.masks; gen0 = self.gen; j0 = self.journal
        outs = []
        npc = len(self.pcstack)
        for pol, tgt in ((1, a), (0, b)):
            fr.R = list(R0); fr.pc = pc0
            self.known = dict(known0); self.masks = dict(masks0)
            self.assume(cond, pol)
            self.pcstack.append((cond, pol))
            self.gencount += 1
            self.gen = self.gencount
            self.journal = {}
            nfail = len(self.failures)
            try:
                try:
                    r = None
                    if tgt.__class__ is tuple:
                        r = self.switch(fr, *tgt)
                        if r.__class__ is int: fr.pc = r; r = None
                    else:
                        fr.pc = tgt
                    if r is None:
                        kind, v = self.run(depth, stop)
                    else:
                        kind, v = 'ret', r[1]
                except Dead:
                    while len(self.stack) > depth: self.pop()
                    kind, v = 'dead', None
            finally:
                dirty = {}
                mem = self.mem
                for al, old in self.journal.items():
                    if al in mem:
                        dirty[al] = mem[al]
                        mem[al] = old
                del self.pcstack[npc:]
                self.gen = gen0; self.journal = j0; self.known = known0; self.masks = masks0
            outs.append((kind, v, fr.R, dirty))
        (k1, v1, R1, D1), (k2, v2, R2, D2) = outs
        if k1 == 'dead' and k2 == 'dead':
            fr.R = R0
            raise Dead('both sides')
        if k1 == 'dead' or k2 == 'dead':
            kind, v, R, D = outs[1] if k1 == 'dead' else outs[0]
            fr.R = R
            self.apply_dirty(D)
            self.assume(cond, 0 if k1 == 'dead' else 1)
            self.pcstack.append((cond, 0 if k1 == 'dead' else 1))
            return ('ret', v) if kind == 'ret' else stop
        if k1 != k2: raise Unsupported('merge shape in ' + fn.dem)
        # merge memory
        mem = self.mem
        for al in set(D1) | set(D2):
            o1 = D1.get(al); o2 = D2.get(al)
            old = mem[al]
            c1 = (o1 or old).cells; c2 = (o2 or old).cells
            m = self.merge_cells(cond, c1, c2)
            if old.gen != self.gen: old = self.cow(al, old)
            old.cells = m
        if k1 == 'ret':
            fr.R = R0
            return ('ret', self.merge_val(cond, v1, v2))
        R = R1
        for i in range(len(R)):
            x = R[i]; y = R2[i]
            if x is not y: R[i] = self.merge_val(cond, x, y)
        fr.R = R
        return stop
    def apply_dirty(self, D):
        for al, o in D.items():
            old = self.mem[al]
            if old.gen != self.gen: old = self.cow(al, old)
            old.cells = o.cells

    def speculate(self, thunk):
        """run thunk on the current state and roll every effect back"""
        known0 = self.known; masks0 = self.masks; gen0 = self.gen; j0 = self.journal
        npc = len(self.pcstack); sp0 = self.sp; nf = len(self.failures); rng0 = list(self.rng); rs = self.rngsyms
        self.known = dict(known0); self.masks = dict(masks0)
        self.gencount += 1; self.gen = self.gencount
        self.journal = {}
        try:
            return thunk()
        finally:
            for al, old in self.journal.items():
                if al in self.mem: self.mem[al] = old
            for a in range(sp0, self.sp): self.mem.pop(a, None)
            self.sp = sp0
            del self.pcstack[npc:]
            del self.failures[nf:]
            self.rng = rng0; self.rngsyms = rs
            self.gen = gen0; self.journal = j0; self.known = known0; self.masks = masks0
    def havoc(self, p, n):
        a = p >> 32
        o = self.mem[a]
        if o.gen != self.gen: o = self.cow(a, o)
        off = p & 0xffffffff
        o.cells[off:off + n] = [None] * n

    # -------------------------------------------------- convenience
    def bytes_at(self, p, n): return [self.ld(p + k, 1) for k in range(n)]
    def syms(self, name, n): return [sym('%s%d' % (name, k)) for k in range(n)]
