"""Contracts on functions of /repo's crates (and the few assumed ones on dependencies).

A contract is (a) *proved* by running the function's own compiled body on arbitrary inputs satisfying the
precondition and comparing every output with the postcondition, and (b) *applied* at call sites, where the
precondition is checked and only the postcondition is used.  A contract that cannot be located or proved is not
applied: the callers then run the body itself, so a contract never decides a property on its own."""
import time
from . import terms as T, spec as S
from .terms import Unsupported, sym, modq, res, slc, concat, agg, Q
from .exec import Machine, Dead, LIMITS

class Ctx:
    def __init__(self, prog):
        self.prog = prog
        self.by = {}
        for f in prog.all_funcs: self.by.setdefault(f.short, []).append(f)
        self.names = list(self.by)
        self.log = []            # (obligation name, back end, discharged?)
        self.proved = []         # contract names
        self.dropped = []        # (contract, why)
        self.assumed = []
        self.undischarged = []
        self.contract_fns = set()
    def get(self, name, near=None):
        """near: prefer the instance in the module of that function"""
        fs = self.by.get(name)
        if fs and near is not None:
            for f in fs:
                if f.mod is near.mod: return f
        return fs[0] if fs else None
    def find(self, pred): return [f for n, fs in self.by.items() if pred(n) for f in fs]

def cells16(v): return [(v, 0, 2), (v, 1, 2)] if v.__class__ is not int else [v & 255, v >> 8]
def new_poly(M, cs): return M.new([x for c in cs for x in cells16(c)])
def rd_poly(M, p): return [M.ld(p + 2 * i, 2) for i in range(256)]
def wr_poly(M, p, cs):
    for i, c in enumerate(cs): M.st(p + 2 * i, 2, c)
def inq(v): return v is not None and (v < Q if v.__class__ is int else v.hi < Q)

# ------------------------------------------------------------------ field element operations
def fe_post(op):
    def f(a, b):
        if op == 'add': return modq(T.poly_add(res(a), res(b)))
        if op == 'sub': return modq(T.poly_add(res(a), T.poly_scale(res(b), Q - 1)))
        return modq(T.poly_mul(res(a), res(b)))
    return f
I16 = ('i', 16)
def is_fe_op(fn):
    rt, ps = fn.sig
    return rt == I16 and [p[0] for p in ps] == [I16, I16]

def machine(ctx, **kw):
    return Machine(ctx.prog, **kw)

def outcome(M, what):
    """failures recorded while running a body"""
    return ['%s: %r' % (what, f) for f in M.failures]

def prove_fe(ctx, fn, op):
    T_a = sym('fa', Q - 1); T_b = sym('fb', Q - 1)
    M = machine(ctx)
    r = M.call(fn, [T_a, T_b])
    bad = outcome(M, op)
    e = fe_post(op)(T_a, T_b)
    if r is None or T.prove_equal(r, e) is not True: bad.append('%s: result differs from the contract' % op)
    return bad, M

def fe_hook(op):
    post = fe_post(op)
    def hook(M, args):
        a, b = args
        if not inq(a) or not inq(b): return NotImplemented
        return post(a, b)
    return hook

def install_fe(ctx):
    for op, tr in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul')):
        fn = ctx.get('<ml_kem::algebra::FieldElement as ops::arith::%s>::%s' % (tr, op))
        name = 'FieldElement::' + op
        attempt(ctx, name, fn, is_fe_op, lambda f: prove_fe(ctx, f, op), fe_hook(op))

def attempt(ctx, name, fn, shape_ok, prove, hook):
    """prove the contract on the body; apply it only if proved"""
    if fn is None or not shape_ok(fn):
        ctx.dropped.append((name, 'function not found with the expected signature')); return False
    t0 = time.time()
    LIMITS.append(t0 + 60)
    try:
        bad, M = prove(fn)
    except Exception as e:
        ctx.dropped.append((name, 'could not be decided: %s' % (str(e)[:200]))); return False
    finally:
        LIMITS.pop()
    if bad:
        ctx.dropped.append((name, '; '.join(bad)[:600])); return False
    fn.hook = hook
    ctx.proved.append({'contract': name, 'function': fn.short, 's': round(time.time() - t0, 2),
                       'checks': dict(M.obl)})
    ctx.contract_fns.add(fn.short)
    for f in M.fns: ctx.contract_fns.add(f.short)
    return True

# ------------------------------------------------------------------ NTT
def lin_forms(Mx, f):
    out = []
    for i in range(256):
        p = {}
        for j in range(256):
            c = int(Mx[i, j])
            if c: p[(f[j],)] = c
        out.append(modq(p))
    return out
def is_pp(fn):
    rt, ps = fn.sig
    return rt == ('v',) and [p[0] for p in ps] == [('p',), ('p',)]
def prove_ntt(ctx, fn, inverse):
    f = [sym('nf%d' % i, Q - 1) for i in range(256)]
    M = machine(ctx)
    src = new_poly(M, f); dst = M.new([None] * 512)
    M.call(fn, [dst, src])
    bad = outcome(M, 'ntt')
    want = lin_forms(S._INTT if inverse else S._NTT, f)
    got = rd_poly(M, dst)
    for i in range(256):
        if got[i] is not want[i]: bad.append('coefficient %d is not the specified linear form' % i); break
    if rd_poly(M, src) != f: bad.append('input modified')
    return bad, M
def ntt_hook(inverse):
    fn = S.intt if inverse else S.ntt
    def hook(M, args):
        dst, src = args
        if dst.__class__ is not int or src.__class__ is not int: return NotImplemented
        f = rd_poly(M, src)
        if not all(inq(v) for v in f): return NotImplemented
        wr_poly(M, dst, fn(f))
        return None
    return hook
def install_ntt(ctx):
    for name, nm, inv in (('Polynomial::ntt', '<ml_kem::algebra::Polynomial>::ntt', False),
                          ('NttPolynomial::ntt_inverse', '<ml_kem::algebra::NttPolynomial>::ntt_inverse', True)):
        attempt(ctx, name, ctx.get(nm), is_pp, lambda f: prove_ntt(ctx, f, inv), ntt_hook(inv))

# ------------------------------------------------------------------ SamplePolyCBD
def cbd_arg(M, p, eta):
    bs = [M.ld(p + i, 1) for i in range(64 * eta)]
    return None if any(b is None for b in bs) else bs
def prove_cbd(ctx, fn, eta):
    bs = [sym('cb%d' % i) for i in range(64 * eta)]
    M = machine(ctx)
    src = M.new(list(bs)); dst = M.new([None] * 512)
    M.call(fn, [dst, src])
    bad = outcome(M, 'sample_cbd')
    got = rd_poly(M, dst); want = S.sample_cbd(eta, bs)
    for i in range(256):
        if got[i] is None or T.canon(got[i]) is not want[i]: bad.append('coefficient %d is not the specified function of its bits' % i); break
    if cbd_arg(M, src, eta) != bs: bad.append('input modified')
    return bad, M
def cbd_hook(eta):
    def hook(M, args):
        dst, src = args
        if dst.__class__ is not int or src.__class__ is not int: return NotImplemented
        bs = cbd_arg(M, src, eta)
        if bs is None: return NotImplemented
        wr_poly(M, dst, S.sample_cbd(eta, bs))
        return None
    return hook
def install_cbd(ctx):
    import re
    for eta in (2, 3):
        pat = re.compile(r'^<ml_kem::algebra::Polynomial>::sample_cbd::<[\w:]*U%d>$' % eta)
        for fn in ctx.find(lambda n: pat.match(n)):
            attempt(ctx, 'Polynomial::sample_cbd<%d>' % eta, fn, is_pp, lambda f: prove_cbd(ctx, f, eta), cbd_hook(eta))

# ------------------------------------------------------------------ Keccak (contract on the dependency `keccak`, proved in keccak.py)
EXTRA_JOBS = []
def keccak_hook(M, args):
    p, rounds = args
    if p.__class__ is not int or rounds.__class__ is not int or rounds != 24: return NotImplemented
    st = [M.ld(p + k, 1) for k in range(200)]
    if any(v is None for v in st): return NotImplemented
    out = S.keccak_bytes(st)
    for k in range(200): M.st(p + k, 1, out[k])
    return None
def install_keccak(ctx):
    fn = ctx.get('keccak::keccak_p::<u64>')
    if fn is None:
        ctx.dropped.append(('keccak_p', 'not found')); return
    fn.hook = keccak_hook
    from . import keccak
    EXTRA_JOBS.append(keccak.job(ctx.prog, fn))            # proves it

# ------------------------------------------------------------------ SampleNTT
def sample_fns(ctx):
    """the instances of sample_uniform over a SHAKE128 reader"""
    return ctx.find(lambda n: 'NttPolynomial>::sample_uniform::<' in n and n.endswith('>>') and '{closure' not in n)
def find_reader_read(ctx, fn):
    """the XofReader::read implementation for the reader type sample_uniform is instantiated with"""
    i = fn.short.index('sample_uniform::<') + len('sample_uniform::<')
    r = fn.short[i:-1]
    return ctx.get('<%s as digest::XofReader>::read' % r, fn), r

class _Cap(Exception): pass

RATE = 168
def capture_reader(ctx, fn, entry, mkargs):
    """cells of the first reader object handed to sample_uniform by real code"""
    M = machine(ctx); got = {}
    def cap(M2, args):
        got['p'] = args[1]
        got['cells'] = list(M2.mem[args[1] >> 32].cells)
        raise _Cap()
    old = fn.hook; fn.hook = cap
    try:
        M.call(entry, mkargs(M))
    except _Cap: pass
    finally: fn.hook = old
    if not got: raise Unsupported('sample_uniform is not reached')
    return got['cells'], got['p'] & 0xffffffff

def cell_val(c):
    if c.__class__ is tuple: return slc(c[0], 8 * c[1], 8)
    return c

def initial_form(cells):
    """reader form before the first squeeze: every non-constant byte is a byte of the sponge state.  The state is the
    run of 200 bytes containing all symbolic bytes."""
    vals = [cell_val(c) for c in cells]
    symb = [i for i, v in enumerate(vals) if v is not None and v.__class__ is not int]
    if not symb or symb[-1] - symb[0] >= 200: raise Unsupported('unrecognised reader state')
    return vals, symb

def reader_lemma(ctx, fn, read, lens, cells):
    """For every Keccak state st: a reader in the captured initial form with state st yields, through any number of read
    calls of the lengths `lens`, the consecutive bytes of SHAKE128's squeezing.  Closed by induction over forms."""
    vals, symb = initial_form(cells)
    n = len(vals)
    err = None
    for off in [o for o in range(max(0, symb[-1] - 199), min(symb[0], n - 200) + 1) if o % 8 == 0]:
        core = vals[off:off + 200]
        post = all(v is not None and v.__class__ is not int and v.op == 'app' and v.args[0] == 'KECCAK' for v in core) and \
            core == S.keccak_bytes(list(T.agg_vals(core[0].args[2][0])))
        try:
            return _reader_lemma(ctx, read, lens, vals, off, post)
        except Unsupported as e:
            err = e
    raise err if err else Unsupported('reader state not located')

def _reader_lemma(ctx, read, lens, vals, off, post):
    """Form: cell -> constant | (d, i) byte i of the Keccak state d steps before the one in the core | 'arb'.
    Key: (offset in block, level of the next stream block relative to the core state)."""
    n = len(vals)
    DEPTH = 2
    form0 = [(0, i - off) if off <= i < off + 200 else (v if v.__class__ is int else 'arb') for i, v in enumerate(vals)]
    key0 = (0, 0 if post else 1)
    forms = {key0: form0}
    work = [key0]; runs = 0
    while work:
        key = work.pop()
        o, delta = key
        for L in sorted(lens):
            runs += 1
            if runs > 600: raise Unsupported('reader forms do not close')
            M = machine(ctx)
            st = [sym('kst%d' % i) for i in range(200)]
            levels = [st]
            def lev(k):
                while len(levels) <= k: levels.append(S.keccak_bytes(levels[-1]))
                return levels[k]
            F = forms[key]
            cs = [lev(DEPTH - f[0])[f[1]] if f.__class__ is tuple else (f if f.__class__ is int else sym('arb%d' % i))
                  for i, f in enumerate(F)]
            rd = M.new(cs); buf = M.new([0] * L)
            M.call(read, [rd, buf, L])
            if M.failures: raise Unsupported('reader: %r' % M.failures[0])
            out = [M.ld(buf + k, 1) for k in range(L)]
            b = DEPTH + delta; pos = o; want = []
            while len(want) < L:
                if pos == RATE: b += 1; pos = 0
                take = min(RATE - pos, L - len(want))
                want += lev(b)[pos:pos + take]; pos += take
            if pos == RATE: b += 1; pos = 0
            if out != want: raise Unsupported('reader output is not the SHAKE128 stream')
            core = [M.ld(rd + off + i, 1) for i in range(200)]
            cl = None
            for k in range(b + 2):
                if core == lev(k): cl = k; break
            if cl is None: raise Unsupported('reader core state is not a Keccak iterate')
            lv = {}
            for k in range(max(0, cl - DEPTH), cl + 1):
                for i, x in enumerate(lev(k)): lv[x] = (cl - k, i)
            fin = []
            for i in range(n):
                v = M.ld(rd + i, 1)
                fin.append('arb' if v is None else v if v.__class__ is int else lv.get(v, 'arb'))
            k2 = (pos, b - cl)
            known = forms.get(k2)
            if known is None:
                forms[k2] = fin; work.append(k2)
            else:
                merged = [x if x == y else 'arb' for x, y in zip(known, fin)]
                if merged != known:
                    forms[k2] = merged
                    if k2 not in work: work.append(k2)
    f0 = forms[key0]
    if f0[off:off + 200] != [(0, i) for i in range(200)]: raise Unsupported('reader state is not preserved')
    return {'off': off, 'form': f0, 'runs': runs, 'offsets': sorted(forms), 'post': post}

def sample_hook(ctx, fn, lem):
    off, form, post = lem['off'], lem['form'], lem['post']
    ctl = [(i, f) for i, f in enumerate(form) if f.__class__ is int]
    def hook(M, args):
        dst, reader = args
        if dst.__class__ is not int or reader.__class__ is not int: return NotImplemented
        st = [M.ld(reader + off + k, 1) for k in range(200)]
        if any(v is None for v in st): raise Unsupported('undefined sponge state')
        for i, f in ctl:
            if M.ld(reader + i, 1) != f: raise Unsupported('sample_uniform called with a reader in an unknown state')
        if post:
            v = st[0]
            if v.__class__ is int:
                if any(x.__class__ is not int for x in st): raise Unsupported('sponge state')
                wr_poly(M, dst, S.samplentt_post(st)); M.havoc(reader, len(form)); return None
            if v.op != 'app' or v.args[0] != 'KECCAK': raise Unsupported('sample_uniform called with an unknown sponge state')
            g = v.args[2][0]
            if st != S.keccak_bytes(list(T.agg_vals(g))): raise Unsupported('sample_uniform called with an unknown sponge state')
        else: g = agg(st)
        wr_poly(M, dst, [S.papp('SAMPLENTT', i, (g,), Q - 1) for i in range(256)])
        M.havoc(reader, len(form))
        return None
    return hook

def assign_entries(ctx, fns, entries):
    """for each instance an entry point that reaches it"""
    got = {}
    for e, mk in entries:
        class Stop(Exception): pass
        seen = []
        def cap(f):
            def h(M2, args):
                got.setdefault(f, (e, mk)); raise _Cap()
            return h
        olds = [f.hook for f in fns]
        for f in fns: f.hook = cap(f)
        try: M = machine(ctx); M.call(e, mk(M))
        except _Cap: pass
        finally:
            for f, o in zip(fns, olds): f.hook = o
    def unreached(M2, args): raise Unsupported('unproved instance of sample_uniform reached')
    for f in fns:
        if f not in got: f.hook = unreached
    return [got.get(f, (None, None)) for f in fns]

def install_sample(ctx, entry, mkargs, whole_budget=250, fn=None, more=()):
    from .explore import Explorer, NextExplorer
    fns = sample_fns(ctx)
    if not fns:
        ctx.dropped.append(('sample_uniform', 'no instance found')); return False
    if fn is None:
        # one instance per crate that instantiates it; every one is proved on its own
        r = [install_sample(ctx, e, m, whole_budget, f) for f, (e, m) in zip(fns, assign_entries(ctx, fns, [(entry, mkargs)] + list(more)))]
        if not all(r):
            ctx.proved = [p for p in ctx.proved if not p['contract'].startswith('NttPolynomial::sample_uniform')]
            for f in fns: f.hook = None
        return all(r)
    if entry is None: return True          # not reachable from any entry point
    read, r = find_reader_read(ctx, fn)
    if read is None:
        ctx.dropped.append(('sample_uniform', 'reader implementation not found')); return False
    t0 = time.time()
    cells, o = capture_reader(ctx, fn, entry, mkargs)
    if o: raise Unsupported('reader is not at the start of its object')
    nxt = ctx.get('<ml_kem::algebra::FieldElementReader>::next', fn)
    ex = None; bad = None; how = None
    if nxt is not None and len(nxt.sig[1]) == 1:
        try:
            ex = NextExplorer(ctx.prog, fn, read, nxt, len(cells)); M = ex.run()
            bad = [repr(f) for f in M.failures] + ex.bad
            how = 'FieldElementReader::next'
        except Exception as e:
            bad = ['%s: %s' % (type(e).__name__, str(e)[:200])]
    if bad is None or bad:
        bad1 = bad
        try:
            ex = Explorer(ctx.prog, fn, read, len(cells), max_states=400000, budget_s=whole_budget); M = ex.run()
            bad = [repr(f) for f in M.failures] + ex.bad
            how = 'whole function'
        except Exception as e:
            bad = (bad1 or []) + ['%s: %s' % (type(e).__name__, str(e)[:200])]
        if bad:
            # comparisons may be used as data instead of by branches
            try:
                ex = Explorer(ctx.prog, fn, read, len(cells), max_states=400000, budget_s=whole_budget); ex.eager = True; M = ex.run()
                bad1 = bad; bad = [repr(f) for f in M.failures] + ex.bad
                how = 'whole function'
                if bad: bad = bad1 + bad
            except Exception as e:
                bad = bad + ['%s: %s' % (type(e).__name__, str(e)[:200])]
    if bad:
        ctx.dropped.append(('sample_uniform', '; '.join(bad)[:400])); return False
    lem = reader_lemma(ctx, fn, read, ex.lens, cells)
    fn.hook = sample_hook(ctx, fn, lem)
    ctx.proved.append({'contract': 'NttPolynomial::sample_uniform (%s)' % how, 'function': fn.short, 's': round(time.time() - t0, 2),
                       'checks': {'states': ex.states, 'transitions': ex.transitions, 'reader runs': lem['runs'],
                                  'reader offsets': lem['offsets'], 'read lengths': sorted(ex.lens)}})
    ctx.contract_fns.add(fn.short)
    if how != 'whole function':
        ctx.proved.append({'contract': 'FieldElementReader::next', 'function': nxt.short, 's': 0, 'checks': {'entry states': ex.entries}})
        ctx.contract_fns.add(nxt.short)
    return True

# ------------------------------------------------------------------ X25519 (assumed contracts on curve25519-dalek)
def install_x25519(ctx):
    def rd(M, p, n=32):
        v = [M.ld(p + i, 1) for i in range(n)]
        if any(x is None for x in v): raise Unsupported('undefined X25519 operand')
        return v
    def wr(M, p, vs):
        for i, v in enumerate(vs): M.st(p + i, 1, v)
    def mul(M, a):
        u, k = rd(M, a[1]), rd(M, a[2]); wr(M, a[0], S.x25519(k, u)); return None
    def mbase(M, a):
        k = rd(M, a[1]); wr(M, a[0], S.x25519(k, S.X9)); return None
    def ebase(M, a):
        """an Edwards point known only through its Montgomery form"""
        k = rd(M, a[1]); wr(M, a[0], S.x25519(k, S.X9) + [sym('edw%d' % i) for i in range(128)]); return None
    def tomont(M, a):
        v = rd(M, a[1], 160)
        if v[32:] != [sym('edw%d' % i) for i in range(128)]: raise Unsupported('Edwards point of unknown origin')
        wr(M, a[0], v[:32]); return None
    n = 0
    for nm, h in (('montgomery::MontgomeryPoint>::mul_clamped', mul), ('montgomery::MontgomeryPoint>::mul_base_clamped', mbase),
                  ('edwards::EdwardsPoint>::mul_base_clamped', ebase), ('edwards::EdwardsPoint>::to_montgomery', tomont)):
        f = ctx.get('<curve25519_dalek::' + nm)
        if f is None: ctx.dropped.append((nm, 'not found')); continue
        f.hook = h; n += 1
    ctx.assumed.append('curve25519-dalek: MontgomeryPoint::mul_clamped(u, k) = X25519(k, u) of RFC 7748 (which ignores the top bit of u and the clamped bits of k); '
                       'EdwardsPoint::mul_base_clamped(k).to_montgomery() = X25519(k, 9); X25519(a, X25519(b, 9)) = X25519(b, X25519(a, 9)); compared natively with an independent implementation on every run, not proved')
