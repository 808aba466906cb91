"""Term language of the VC generator.

Every term denotes a *natural number* (never a wrapped machine word): zero-extension is the identity,
truncation is a slice, and wrap-around appears only where an operation may really leave the range of its
machine type.  A value is either a Python int or a hash-consed Node.

Normal forms (the "normalizer" back end):
  seg    bit-level concatenation of slices of atoms plus known-one bits
  lut    a function of ONE small-range node (its base), tabulated exhaustively
  modq   canonical polynomial over Z_3329 in terms, reduced to [0,3328]
  band   conjunction of a set of boolean terms; iszero; not; ult
  app    application of an uninterpreted / contract function
  ite, add, mul, sub, xor, and, or, udiv, urem ... otherwise

Back end "enumeration": a node whose value depends on a single base node is decided by evaluating it on
every value of the base's range (numpy, complete, up to 2^25 values), cached by alpha-equivalence.
"""
import numpy as np

Q = 3329
SMALL = 65536            # bases with at most this many values are tabulated eagerly
BIG = 1 << 25            # bases with at most this many values are enumerated on demand
BIGF = 1 << 27           # bases of single-base facts (evaluated in chunks)
U64 = np.uint64

class Unsupported(Exception):
    pass

class Node:
    __slots__ = ('op', 'args', 'lo', 'hi', 'base', 'shp', 'id', 'nb', 'pm', '_tab', '_ones')
    def __hash__(self):
        return self.id
    def __eq__(self, o):
        return self is o
    def __repr__(self):
        return show(self, 3)
    # natural-number operators, used by generated code
    def __add__(self, o): return add(self, o)
    __radd__ = __add__
    def __mul__(self, o): return mul(self, o)
    __rmul__ = __mul__
    def __and__(self, o): return and_(self, o)
    __rand__ = __and__
    def __or__(self, o): return or_(self, o)
    __ror__ = __or__
    def __xor__(self, o): return xor(self, o)
    __rxor__ = __xor__
    def __rshift__(self, k): return lshr(self, k)
    def __lshift__(self, k): return shl(self, k)
    def __bool__(self):
        raise Unsupported('symbolic value used as a Python condition')

_tbl = {}
_nodes = []
_shapes = {}
_shape_facts = {}
stats = {'enum_evals': 0, 'enum_facts': 0, 'enum_s': 0.0, 'tables': 0}

def reset():
    _tbl.clear(); _nodes.clear()
    _polys.clear(); _poly_list.clear(); _aggs.clear(); _agg_list.clear()
    _node_res.clear(); _memo_eq.clear(); _canon.clear(); _eqv.clear()

def shape_id(key):
    s = _shapes.get(key)
    if s is None:
        s = _shapes[key] = len(_shapes)
    return s

def hi_of(v): return v if v.__class__ is int else v.hi
def lo_of(v): return v if v.__class__ is int else v.lo
def pm_of(v): return v if v.__class__ is int else v.pm

def shp_of(v):
    """shape of v as a child: constants by value, bases as X(range)"""
    if v.__class__ is int:
        return ('c', v)
    if v.base is v:
        return ('X', v.lo, v.hi)
    return v.shp

def mk(op, args, lo, hi, base='auto', kids=()):
    key = (op, args)
    n = _tbl.get(key)
    if n is not None:
        return n
    if lo == hi and op != 'sym':
        return lo
    n = Node()
    n.op = op; n.args = args; n.lo = lo; n.hi = hi
    n.nb = hi.bit_length()
    n.pm = (1 << n.nb) - 1
    n.id = len(_nodes)
    n._tab = None
    n._ones = None
    _nodes.append(n)
    if base == 'auto':
        b = None
        for k in kids:
            if k.__class__ is int: continue
            kb = k.base
            if b is None: b = kb
            elif b is not kb:
                b = n; break
        n.base = b if b is not None else n
    elif base is None:
        n.base = n
    else:
        n.base = base
    if n.base is not n:
        if op == 'seg':
            n.shp = shape_id(('seg', args[0], tuple((o, w, shp_of(a), al) for (o, w, a, al) in args[1])))
        elif op == 'lut':
            n.shp = shape_id(('lut', args[1]))
        elif op in ('modq', 'band', 'app'):
            n.base = n; n.shp = None
        else:
            n.shp = shape_id((op,) + tuple((shp_of(a) if isinstance(a, Node) else ('c', a)) for a in args))
    else:
        n.shp = None
    _tbl[key] = n
    return n

# ---------------------------------------------------------------- atoms
def sym(name, hi=255, lo=0):
    n = _tbl.get(('sym', (name, lo, hi)))
    return n if n is not None else mk('sym', (name, lo, hi), lo, hi, None)

_aggs = {}
_agg_list = []
def agg(vals):
    """intern a tuple of values -> aggregate id (int)"""
    vals = tuple(vals)
    key = tuple([v if v.__class__ is int else ('n', v.id) for v in vals])
    i = _aggs.get(key)
    if i is None:
        i = _aggs[key] = len(_agg_list)
        _agg_list.append(vals)
    return i
def agg_vals(i): return _agg_list[i]

APPS = {}     # name -> concrete evaluator (extra, *aggs as lists of ints) -> int
def app(fn, extra, aggs, hi, lo=0):
    """extra: hashable constants; aggs: tuple of aggregate ids"""
    return mk('app', (fn, extra, tuple(aggs)), lo, hi, None)

# ---------------------------------------------------------------- numpy evaluation over one base
def _bigcheck(hi):
    if hi >= (1 << 64): raise Unsupported('enumeration of wide value')

def _ev(n, base, xs, memo):
    if n.__class__ is int:
        _bigcheck(n)
        return U64(n)
    if n is base:
        return xs
    r = memo.get(n)
    if r is not None:
        return r
    op = n.op; a = n.args
    if op == 'lut':
        r = tables[a[1]][(_ev(a[0], base, xs, memo) - U64(a[0].lo)).astype(np.int64)]
    elif op == 'seg':
        r = np.full(xs.shape, a[0], dtype=U64) if a[0] < (1 << 64) else _bigcheck(a[0])
        for (o, w, at, al) in a[1]:
            _bigcheck(n.hi)
            v = _ev(at, base, xs, memo)
            r = r | (((v >> U64(al)) & U64((1 << w) - 1)) << U64(o))
    elif op == 'add':
        _bigcheck(n.hi); r = _ev(a[0], base, xs, memo) + _ev(a[1], base, xs, memo)
    elif op == 'mul':
        _bigcheck(n.hi); r = _ev(a[0], base, xs, memo) * _ev(a[1], base, xs, memo)
    elif op == 'sub':
        r = _ev(a[0], base, xs, memo) - _ev(a[1], base, xs, memo)
    elif op == 'subw':
        r = (_ev(a[0], base, xs, memo) - _ev(a[1], base, xs, memo)) & U64((1 << a[2]) - 1)
    elif op == 'and':
        r = _ev(a[0], base, xs, memo) & _ev(a[1], base, xs, memo)
    elif op == 'or':
        r = _ev(a[0], base, xs, memo) | _ev(a[1], base, xs, memo)
    elif op == 'xor':
        r = _ev(a[0], base, xs, memo) ^ _ev(a[1], base, xs, memo)
    elif op == 'udiv':
        r = _ev(a[0], base, xs, memo) // _ev(a[1], base, xs, memo)
    elif op == 'urem':
        r = _ev(a[0], base, xs, memo) % _ev(a[1], base, xs, memo)
    elif op == 'shlv':
        _bigcheck(n.hi); r = _ev(a[0], base, xs, memo) << _ev(a[1], base, xs, memo)
    elif op == 'lshrv':
        s = _ev(a[1], base, xs, memo)
        r = np.where(s > U64(63), U64(0), _ev(a[0], base, xs, memo) >> np.minimum(s, U64(63)))
    elif op == 'ult':
        r = (_ev(a[0], base, xs, memo) < _ev(a[1], base, xs, memo)).astype(U64)
    elif op == 'slt':
        w = a[2]; off = U64(1 << (w - 1))
        r = ((_ev(a[0], base, xs, memo) ^ off) < (_ev(a[1], base, xs, memo) ^ off)).astype(U64)
    elif op == 'iszero':
        r = (_ev(a[0], base, xs, memo) == U64(0)).astype(U64)
    elif op == 'not':
        r = U64(1) - _ev(a[0], base, xs, memo)
    elif op == 'ite':
        c = _ev(a[0], base, xs, memo) != U64(0)
        r = np.where(c, _ev(a[1], base, xs, memo), _ev(a[2], base, xs, memo))
    elif op == 'popc':
        v = np.broadcast_to(np.asarray(_ev(a[0], base, xs, memo), dtype=U64), xs.shape)
        r = np.bitwise_count(v).astype(U64)
    elif op == 'modq':
        r = np.zeros(xs.shape, dtype=U64)
        for mono, c in poly_items(a[0]):
            t = np.full(xs.shape, c, dtype=U64)
            for at in mono:
                t = t * (_ev(at, base, xs, memo) % U64(Q)) % U64(Q)
            r = (r + t) % U64(Q)
    elif op == 'band':
        r = np.ones(xs.shape, dtype=U64)
        for x in a[0]:
            r = r & _ev(x, base, xs, memo)
    else:
        raise Unsupported('enumerate ' + op)
    memo[n] = r
    return r

def table_of(n, base):
    """uint64 table of n over the range of the (small) base"""
    if n.__class__ is int:
        return np.full(base.hi - base.lo + 1, n, dtype=U64)
    if n is base:
        return np.arange(base.lo, base.hi + 1, dtype=U64)
    if n.op == 'lut' and n.args[0] is base:
        return tables[n.args[1]]
    if n._tab is None:
        xs = np.arange(base.lo, base.hi + 1, dtype=U64)
        r = _ev(n, base, xs, {})
        n._tab = tables_intern(np.broadcast_to(np.asarray(r, dtype=U64), xs.shape))
    return tables[n._tab]

tables = []
_table_ids = {}
def tables_intern(arr):
    arr = np.ascontiguousarray(arr, dtype=U64)
    k = arr.tobytes()
    i = _table_ids.get(k)
    if i is None:
        i = _table_ids[k] = len(tables)
        arr.setflags(write=False)
        tables.append(arr)
        stats['tables'] += 1
    return i

def is_small(b): return b.hi - b.lo < SMALL and b.hi < (1 << 63)

def is_mid(b):
    """not tabulated, but few enough values to enumerate"""
    return not is_small(b) and b.hi - b.lo < BIG and b.hi < (1 << 62)

def points(b):
    return np.arange(b.lo, b.hi + 1, dtype=U64)

def eval_at(n, base, xs):
    """values of n at the points xs of its base"""
    step = 1 << 20
    return np.concatenate([np.broadcast_to(_ev(n, base, xs[i:i + step], {}), xs[i:i + step].shape)
                           for i in range(0, len(xs), step)])

def enum_chunks(base):
    n = base.hi - base.lo + 1
    step = 1 << 20
    for s in range(0, n, step):
        yield np.arange(base.lo + s, base.lo + min(n, s + step), dtype=U64)

def facts(n):
    """exact (lo, hi, affine-mod-q or None) of a node over its (big) base; cached by shape"""
    import time
    b = n.base
    if b is n or b.hi - b.lo >= BIGF or b.hi >= (1 << 62):
        return None
    key = (n.shp, b.lo, b.hi)
    f = _shape_facts.get(key)
    if f is not None:
        return f
    t0 = time.time()
    lo = None; hi = None
    modok = True; ok = True
    try:
        for xs in enum_chunks(b):
            r = np.broadcast_to(_ev(n, b, xs, {}), xs.shape)
            l = int(r.min()); h = int(r.max())
            lo = l if lo is None else min(lo, l)
            hi = h if hi is None else max(hi, h)
            if modok:
                modok = h < Q and bool((xs % U64(Q) == r).all())
            stats['enum_evals'] += len(xs)
    except Unsupported:
        ok = False
    f = (lo, hi, modok) if ok else (n.lo, n.hi, False)
    stats['enum_facts'] += 1
    stats['enum_s'] += time.time() - t0
    _shape_facts[key] = f
    return f

def refine(n):
    """post-processing of a freshly made generic node: tabulate or use enumeration facts"""
    if n.__class__ is int:
        return n
    b = n.base
    if b is n:
        return n
    if is_small(b):
        if n.op in ('lut', 'seg', 'modq', 'iszero', 'not', 'band', 'ite'):
            return n
        return mk_lut(b, table_of(n, b))
    f = facts(n)
    if f is None:
        return n
    lo, hi, m = f
    if lo == hi:
        return lo
    if m:
        return modq(res(b))
    if lo > n.lo or hi < n.hi:
        n.lo = max(lo, n.lo); n.hi = min(hi, n.hi)
        n.nb = n.hi.bit_length(); n.pm = (1 << n.nb) - 1
    return n

# ---------------------------------------------------------------- lut
_lut_memo = {}
def mk_lut(base, arr):
    """value arr[base-lo]; canonicalized"""
    tid = tables_intern(arr)
    return mk_lut_t(base, tid)

def mk_lut_t(base, tid):
    key = (base.id, tid)
    r = _lut_memo.get(key)
    if r is not None and r[0] is base:
        return r[1]
    v = _mk_lut(base, tid)
    _lut_memo[key] = (base, v)
    return v

_tclass = {}
def _classify(tid, lo, hi):
    key = (tid, lo, hi)
    c = _tclass.get(key)
    if c is not None:
        return c
    arr = tables[tid]
    mn = int(arr.min()); mx = int(arr.max())
    if mn == mx:
        c = ('const', mn)
    else:
        xs = np.arange(lo, hi + 1, dtype=U64)
        c = None
        if (arr == xs).all():
            c = ('id',)
        if c is None:
            nb = mx.bit_length()
            for k in range(0, max(1, hi.bit_length())):
                if ((xs >> U64(k)) & U64((1 << nb) - 1) == arr).all():
                    c = ('slice', k, nb); break
        if c is None:
            ored = int(np.bitwise_or.reduce(arr))
            tz = (ored & -ored).bit_length() - 1
            if tz > 0:
                c = ('shift', tz, tables_intern(arr >> U64(tz)))
        if c is None and mn == 0 and mx == 1 and hi - lo + 1 > 1:
            nz = int(arr.sum())
            if lo == 0 and arr[0] == 1 and nz == 1 and hi > 1:
                c = ('iszero',)
            elif lo == 0 and arr[0] == 0 and nz == len(arr) - 1 and hi > 1:
                c = ('nonzero',)
            elif hi - lo == 1 and lo == 0:
                c = ('notbit',)
        if c is None and hi - lo >= 2 and ((arr == U64(mn)) | (arr == U64(mx))).all() and not (mn == 0 and mx == 1):
            c = ('two', mn, mx, tables_intern((arr == U64(mx)).astype(U64)))
        if c is None and hi - lo >= 2 and mx < Q:
            a = (int(arr[1]) - int(arr[0])) % Q
            b = (int(arr[0]) - a * lo) % Q
            if (((xs % U64(Q)) * U64(a) + U64(b)) % U64(Q) == arr).all():
                c = ('affq', a, b)
        if c is None:
            c = ('lut', mn, mx)
    _tclass[key] = c
    return c

def _mk_lut(base, tid):
    c = _classify(tid, base.lo, base.hi)
    k = c[0]
    if k == 'const': return c[1]
    if k == 'id': return base
    if k == 'slice': return slc(base, c[1], c[2])
    if k == 'shift': return shl(mk_lut_t(base, c[2]), c[1])
    if k == 'iszero': return iszero(base)
    if k == 'nonzero': return not_(iszero(base))
    if k == 'notbit': return not_(base)
    if k == 'two':
        b = mk_lut_t(base, c[3])
        return ite(b, c[2], c[1])
    if k == 'affq':
        rb = res(base)
        if not (len(rb) == 1 and rb.get((base,)) == 1):
            return modq(poly_add_const(poly_scale(rb, c[1]), c[2]))
        arr = tables[tid]
        c = ('lut', int(arr.min()), int(arr.max()))
    if base.hi - base.lo == 1:
        arr = tables[tid]
        if base.lo == 0:
            return ite(base, int(arr[1]), int(arr[0]))
    return mk('lut', (base, tid), c[1], c[2], base)

def try_small(op, *args):
    """if all non-const args share one small base: tabulate op over it"""
    b = None
    for a in args:
        if a.__class__ is int: continue
        if b is None: b = a.base
        elif b is not a.base: return None
    if b is None or not is_small(b):
        return None
    for a in args:
        if hi_of(a) >= (1 << 64): return None
    return b

_op_memo = {}
def tab_op(op, b, args, w=None):
    """op over tables with memo; returns canonical value"""
    keys = []
    arrs = []
    for a in args:
        if a.__class__ is int:
            keys.append(a); arrs.append(None)
        elif a is b:
            keys.append('X'); arrs.append(None)
        elif a.op == 'lut' and a.args[0] is b:
            keys.append(('t', a.args[1])); arrs.append(None)
        else:
            t = table_of(a, b)
            if a is not b and a._tab is not None:
                keys.append(('t', a._tab))
            else:
                keys.append(('t', tables_intern(t)))
            arrs.append(None)
    key = (op, w, b.lo, b.hi, tuple(keys))
    tid = _op_memo.get(key)
    if tid is None:
        arrs = [U64(a) if a.__class__ is int else table_of(a, b) for a in args]
        x = arrs[0]
        y = arrs[1] if len(arrs) > 1 else None
        with np.errstate(over='ignore'):
            if op == 'add':
                if hi_of(args[0]) + hi_of(args[1]) >= (1 << 64): return None
                r = x + y
            elif op == 'mul':
                if hi_of(args[0]) * hi_of(args[1]) >= (1 << 64): return None
                r = x * y
            elif op == 'sub':
                r = (x - y)
                if w < 64: r = r & U64((1 << w) - 1)
            elif op == 'and': r = x & y
            elif op == 'or': r = x | y
            elif op == 'xor': r = x ^ y
            elif op == 'udiv':
                if args[1].__class__ is not int and not y.all(): return None
                r = x // y
            elif op == 'urem':
                if args[1].__class__ is not int and not y.all(): return None
                r = x % y
            elif op == 'ult': r = (x < y).astype(U64)
            elif op == 'slt':
                off = U64(1 << (w - 1)); r = ((x ^ off) < (y ^ off)).astype(U64)
            elif op == 'shl':
                if hi_of(args[1]) > 63 or hi_of(args[0]) << hi_of(args[1]) >= (1 << 64): return None
                r = x << y
            elif op == 'lshr':
                r = np.where(y > U64(63), U64(0), x >> np.minimum(y, U64(63)))
            elif op == 'popc': r = np.bitwise_count(np.asarray(x, dtype=U64)).astype(U64)
            elif op == 'slice':
                r = (x >> U64(w[0])) & U64((1 << w[1]) - 1)
            elif op == 'ite':
                r = np.where(x != U64(0), y, arrs[2])
            else:
                raise Unsupported('tab_op ' + op)
        r = np.broadcast_to(np.asarray(r, dtype=U64), (b.hi - b.lo + 1,))
        tid = tables_intern(r)
        _op_memo[key] = tid
    return mk_lut_t(b, tid)

# ---------------------------------------------------------------- seg
def mk_seg(c, pieces):
    """c: known-one bits; pieces: list of (off, w, atom, alo), any order, disjoint."""
    if not pieces:
        return c
    pieces.sort(key=lambda p: p[0])
    # merge adjacent
    out = []
    for p in pieces:
        if out:
            o, w, a, al = out[-1]
            o2, w2, a2, al2 = p
            if a is a2 and o + w == o2 and al + w == al2:
                out[-1] = (o, w + w2, a, al)
                continue
            if a.op == 'lut' and a2.op == 'lut' and a.args[0] is a2.args[0] and al == 0 and al2 == 0 \
                    and w == a.nb and w2 == a2.nb and (o2 - o) + w2 <= 63 \
                    and (c >> o) & ((1 << (o2 - o)) - 1) == 0:
                t = tables[a.args[1]] | (tables[a2.args[1]] << U64(o2 - o))
                m = mk_lut(a.args[0], t)
                if m.__class__ is not int and m.op == 'lut':
                    out[-1] = (o, m.nb, m, 0)
                    continue
        out.append(p)
    if len(out) == 1 and c == 0:
        o, w, a, al = out[0]
        if o == 0 and al == 0 and w >= a.nb:
            return a
    pm = c
    for (o, w, a, al) in out:
        pm |= ((1 << w) - 1) << o
    key = ('seg', (c, tuple(out)))
    n = _tbl.get(key)
    if n is not None:
        return n
    base = None
    atoms = {p[2] for p in out}
    if len(atoms) == 1:
        a = out[0][2]
        if a.base.hi - a.base.lo < BIGF or (len(out) == 1 and out[0][3] == 0 and out[0][1] >= a.nb):
            base = a.base
    elif len(out) <= 4:
        bs = {a.base for a in atoms}
        if len(bs) == 1:
            b = next(iter(bs))
            if is_small(b): base = b
    lo = c
    hi = pm
    if len(out) == 1:
        o, w, a, al = out[0]
        if al == 0 and w >= a.nb:
            lo = c | (a.lo << o) if c & (a.pm << o) == 0 else c
            hi = c + (a.hi << o)
    n = mk('seg', (c, tuple(out)), lo, hi, base)
    if n.__class__ is int: return n
    n.pm = pm
    return n

def pieces_of(v, lo=0, w=None):
    """(const, [(off,w,atom,alo)]) of slice [lo, lo+w) of v, offsets relative to lo"""
    if v.__class__ is int:
        x = v >> lo
        if w is not None: x &= (1 << w) - 1
        return x, []
    if v.op == 'seg':
        c, ps = v.args
        c = c >> lo
        if w is not None: c &= (1 << w) - 1
        out = []
        hi = lo + w if w is not None else None
        for (o, pw, a, al) in ps:
            s = o if o > lo else lo
            e = o + pw
            if hi is not None and e > hi: e = hi
            if s >= e: continue
            if s == o and e == o + pw:
                out.append((o - lo, pw, a, al))
            else:
                c2, pp = pieces_of_atom(a, al + (s - o), e - s, s - lo)
                c |= c2; out.extend(pp)
        return c, out
    return pieces_of_atom(v, lo, w if w is not None else max(v.nb - lo, 0), 0)

def pieces_of_atom(a, lo, w, off):
    """slice of an atom as pieces at offset off"""
    if lo >= a.nb: return 0, []
    if lo + w > a.nb: w = a.nb - lo
    if lo == 0 and w == a.nb:
        return 0, [(off, w, a, 0)]
    if a.op == 'lut':
        v = tab_op('slice', a.args[0], (a,), (lo, w))
    elif a.op == 'ite':
        v = ite(a.args[0], slc(a.args[1], lo, w), slc(a.args[2], lo, w))
    elif a.op in ('xor', 'and', 'or'):
        f = {'xor': xor, 'and': and_, 'or': or_}[a.op]
        v = f(slc(a.args[0], lo, w), slc(a.args[1], lo, w))
    elif a.op == 'seg':
        v = slc(a, lo, w)
    else:
        return 0, [(off, w, a, lo)]
    c, ps = pieces_of(v)
    return c << off, [(o + off, w2, x, al) for (o, w2, x, al) in ps]

def slc(v, lo, w):
    """(v >> lo) & (2^w - 1)"""
    if v.__class__ is int:
        return (v >> lo) & ((1 << w) - 1)
    if lo == 0 and v.nb <= w:
        return v
    if lo >= v.nb:
        return 0
    if v.op == 'add' or v.op == 'subw' or v.op == 'mul' or v.op == 'sub':
        if lo == 0 and v.op == 'subw' and w <= v.args[2]:
            return subw(slc(v.args[0], 0, w), slc(v.args[1], 0, w), w)
    c, ps = pieces_of(v, lo, w)
    r = mk_seg(c, ps)
    if r.__class__ is not int and r.base is not r and not is_small(r.base):
        r = refine(r)
    return r

def concat(parts):
    """parts: list of (value, width) LSB first"""
    c = 0; ps = []; off = 0
    for v, w in parts:
        if v.__class__ is int:
            c |= (v & ((1 << w) - 1)) << off
        else:
            c2, p2 = pieces_of(v, 0, w)
            c |= c2 << off
            ps.extend([(o + off, pw, a, al) for (o, pw, a, al) in p2])
        off += w
    return mk_seg(c, ps)

def shl(v, k):
    """natural v << k"""
    if k.__class__ is not int:
        b = try_small('shl', v, k)
        if b is not None:
            r = tab_op('shl', b, (v, k))
            if r is not None: return r
        return refine(mk('shlv', (v, k), lo_of(v) << lo_of(k), hi_of(v) << hi_of(k), 'auto', (v, k)))
    if v.__class__ is int: return v << k
    if k == 0: return v
    if v.op == 'ite':
        return ite(v.args[0], shl(v.args[1], k), shl(v.args[2], k))
    c, ps = pieces_of(v)
    return mk_seg(c << k, [(o + k, w, a, al) for (o, w, a, al) in ps])

def lshr(v, k):
    if k.__class__ is not int:
        b = try_small('lshr', v, k)
        if b is not None:
            r = tab_op('lshr', b, (v, k))
            if r is not None: return r
        return refine(mk('lshrv', (v, k), 0, hi_of(v), 'auto', (v, k)))
    if v.__class__ is int: return v >> k
    return slc(v, k, max(v.nb - k, 0)) if k < v.nb else 0

def _cuts(v, w):
    """cut points of v's piece structure within [0,w)"""
    if v.__class__ is int:
        return None
    c, ps = pieces_of(v)
    s = set()
    for (o, pw, a, al) in ps:
        s.add(o); s.add(o + pw)
    return s

def _bitwise(op, a, b):
    """piecewise xor/and/or of two non-const or one-const values"""
    if a.__class__ is not int and b.__class__ is not int and a.base is b.base and (a.op == 'lut' or b.op == 'lut') and is_small(a.base):
        r = tab_op(op, a.base, (a, b))
        if r is not None: return r
    w = max(hi_of(a).bit_length(), hi_of(b).bit_length())
    # quick path: disjoint
    if op != 'and' and pm_of(a) & pm_of(b) == 0:
        c1, p1 = pieces_of(a); c2, p2 = pieces_of(b)
        return mk_seg(c1 | c2, p1 + p2)
    ca, pa = pieces_of(a); cb, pb = pieces_of(b)
    cuts = {0, w}
    for (o, pw, _, _) in pa: cuts.add(o); cuts.add(o + pw)
    for (o, pw, _, _) in pb: cuts.add(o); cuts.add(o + pw)
    # cuts of constant runs of ones against variable pieces
    for c, ps in ((ca, pb), (cb, pa)):
        if c:
            x = c; o = 0
            s = bin(c)[:1:-1]
            prev = '0'
            for i, ch in enumerate(s):
                if ch != prev: cuts.add(i); prev = ch
            cuts.add(len(s))
    cs = sorted(cuts)
    if len(cs) == 2:
        lo, hi = cs
        return _bit_atom(op, a, b)
    rc = 0; rp = []
    for lo, hi in zip(cs, cs[1:]):
        x = slc(a, lo, hi - lo); y = slc(b, lo, hi - lo)
        r = _bit_chunk(op, x, y, hi - lo)
        c, ps = pieces_of(r)
        rc |= c << lo
        rp.extend([(o + lo, pw, at, al) for (o, pw, at, al) in ps])
    return mk_seg(rc, rp)

def _bit_chunk(op, x, y, w):
    M = (1 << w) - 1
    if x.__class__ is int and y.__class__ is int:
        return x ^ y if op == 'xor' else (x & y if op == 'and' else x | y)
    if x.__class__ is int: x, y = y, x
    if y.__class__ is int:
        if y == 0: return 0 if op == 'and' else x
        if y == M:
            if op == 'and': return x
            if op == 'or': return M
    return _bit_atom(op, x, y)

def _xor_mk(x, y):
    h = (1 << max(hi_of(x).bit_length(), hi_of(y).bit_length())) - 1
    return refine(mk('xor', (x, y), 0, h, 'auto', (x, y)))

def _xor_leaves(x, y):
    """(constant, leaves in id order) of x ^ y when one of them is itself a xor; equal leaves cancel"""
    xi = x.__class__ is not int and x.op == 'xor'
    yi = y.__class__ is not int and y.op == 'xor'
    if not xi and not yi: return None
    k = 0; s = {}; st = [x, y]; n = 0
    while st:
        v = st.pop()
        if v.__class__ is int: k ^= v; continue
        if v.op == 'xor':
            st.extend(v.args); continue
        n += 1
        if n > 64: return None
        if v.id in s: del s[v.id]
        else: s[v.id] = v
    return k, [s[i] for i in sorted(s)]

def _bit_atom(op, x, y):
    if x is y:
        return 0 if op == 'xor' else x
    b = try_small(op, x, y)
    if b is not None:
        r = tab_op(op, b, (x, y))
        if r is not None: return r
    # ite lifting
    r = _lift2(op, {'xor': xor, 'and': and_, 'or': or_}[op], x, y)
    if r is not None: return r
    if x.__class__ is not int and y.__class__ is not int and x.hi <= 1 and y.hi <= 1:
        if op == 'and': return band(x, y)
        if op == 'or': return not_(band(not_(x), not_(y)))
    if x.__class__ is int or (y.__class__ is not int and y.id < x.id): x, y = y, x
    if op == 'xor':
        # flatten the xor tree, cancel equal leaves, rebuild in one order
        lv = _xor_leaves(x, y)
        if lv is not None:
            k, ns = lv
            if not ns: return k
            if not (len(ns) == 2 and k == 0 and ns[0] is x and ns[1] is y):
                r = ns[0]
                for n in ns[1:]: r = _xor_mk(r, n)
                return r if k == 0 else _xor_mk(r, k)
    h = (1 << max(hi_of(x).bit_length(), hi_of(y).bit_length())) - 1
    if op == 'and': h = min(hi_of(x), hi_of(y))
    lo = 0
    if op == 'or': lo = max(lo_of(x), lo_of(y))
    return refine(mk(op, (x, y), lo, h, 'auto', (x, y)))

def _lift2(op, f, x, y):
    xi = x.__class__ is not int and x.op == 'ite'
    yi = y.__class__ is not int and y.op == 'ite'
    if xi and yi:
        if x.args[0] is y.args[0]:
            return ite(x.args[0], f(x.args[1], y.args[1]), f(x.args[2], y.args[2]))
        if op == 'and':
            for u, v in ((x, y), (y, x)):
                if u.args[2] == 0 or u.args[1] == 0:
                    return ite(u.args[0], f(u.args[1], v), f(u.args[2], v))
        cx = x.args[1].__class__ is int and x.args[2].__class__ is int
        cy = y.args[1].__class__ is int and y.args[2].__class__ is int
        if cx and cy and op in ('or', 'and', 'xor', 'add', 'sub'):
            return None
        return None
    if xi or yi:
        u, v = (x, y) if xi else (y, x)
        if v.__class__ is int or (u.args[1].__class__ is int and u.args[2].__class__ is int and op == 'and'
                                  and (u.args[2] == 0 or u.args[1] == 0)):
            if xi:
                return ite(u.args[0], f(u.args[1], v), f(u.args[2], v))
            return ite(u.args[0], f(v, u.args[1]), f(v, u.args[2]))
    return None

def xor(a, b):
    if a.__class__ is int and b.__class__ is int: return a ^ b
    if a is b: return 0
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int:
        if b == 0: return a
        if a.hi <= 1 and b == 1: return not_(a)
    else:
        # masked-difference select: a ^ (c ? p : 0)  ==  c ? a ^ p : a
        for u, v in ((a, b), (b, a)):
            if u.op == 'ite' and u.hi > 15 and v.op != 'ite':
                p, q = u.args[1], u.args[2]
                if q.__class__ is int and q == 0 and p.__class__ is not int: return ite(u.args[0], xor(v, p), v)
                if p.__class__ is int and p == 0 and q.__class__ is not int: return ite(u.args[0], v, xor(v, q))
    return _bitwise('xor', a, b)

def and_(a, b):
    if a.__class__ is int and b.__class__ is int: return a & b
    if a is b: return a
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int:
        if b == 0: return 0
        if a.pm & ~b == 0: return a
        if b & (b + 1) == 0:
            return slc(a, 0, b.bit_length())
    if pm_of(a) & pm_of(b) == 0: return 0
    return _bitwise('and', a, b)

def or_(a, b):
    if a.__class__ is int and b.__class__ is int: return a | b
    if a is b: return a
    if a.__class__ is int:
        a, b = b, a
    if b.__class__ is int and b == 0: return a
    return _bitwise('or', a, b)

# ---------------------------------------------------------------- arithmetic
def add(a, b):
    ai = a.__class__ is int; bi = b.__class__ is int
    if ai and bi: return a + b
    if ai: a, b = b, a; ai, bi = bi, ai
    if bi and b == 0: return a
    if pm_of(a) & pm_of(b) == 0:
        return or_(a, b)
    s = try_small('add', a, b)
    if s is not None:
        r = tab_op('add', s, (a, b))
        if r is not None: return r
    r = _lift2('add', add, a, b)
    if r is not None: return r
    if bi:
        # fold constants: add(add(x,c),d), add(sub(x,c),d)
        if a.op == 'add' and a.args[1].__class__ is int:
            return add(a.args[0], a.args[1] + b)
        return refine(mk('add', (a, b), a.lo + b, a.hi + b, 'auto', (a, b)))
    if b.op == 'add' and b.args[1].__class__ is int:
        return add(add(a, b.args[0]), b.args[1])
    if a.op == 'add' and a.args[1].__class__ is int:
        return add(add(a.args[0], b), a.args[1])
    if b.id < a.id: a, b = b, a
    return refine(mk('add', (a, b), a.lo + b.lo, a.hi + b.hi, 'auto', (a, b)))

def mul(a, b):
    ai = a.__class__ is int; bi = b.__class__ is int
    if ai and bi: return a * b
    if ai: a, b = b, a; ai, bi = bi, ai
    if bi:
        if b == 0: return 0
        if b == 1: return a
        if b & (b - 1) == 0: return shl(a, b.bit_length() - 1)
    s = try_small('mul', a, b)
    if s is not None:
        r = tab_op('mul', s, (a, b))
        if r is not None: return r
    r = _lift2('mul', mul, a, b)
    if r is not None: return r
    if not bi and b.id < a.id: a, b = b, a
    return refine(mk('mul', (a, b), a.lo * lo_of(b), a.hi * hi_of(b), 'auto', (a, b)))

def subw(a, b, w):
    """(a - b) mod 2^w"""
    ai = a.__class__ is int; bi = b.__class__ is int
    if ai and bi: return (a - b) & ((1 << w) - 1)
    if bi and b == 0: return a
    if a is b: return 0
    if w <= 64:
        s = try_small('sub', a, b)
        if s is not None:
            r = tab_op('sub', s, (a, b), w)
            if r is not None: return r
    r = _lift2('sub', lambda x, y: subw(x, y, w), a, b)
    if r is not None: return r
    if lo_of(a) >= hi_of(b):
        if bi and a.op == 'add' and a.args[1].__class__ is int and a.args[1] >= b:
            return add(a.args[0], a.args[1] - b)
        return refine(mk('sub', (a, b), lo_of(a) - hi_of(b), hi_of(a) - lo_of(b), 'auto', (a, b)))
    if not ai and not bi and a.base is b.base and a.base is not a and w <= 64:
        c = ult(a, b)
        if c == 0 and c.__class__ is int:
            return refine(mk('sub', (a, b), 0, hi_of(a), 'auto', (a, b)))
    if hi_of(a) < lo_of(b):
        # always wraps exactly once: 2^w + a - b
        return subw(add(a, 1 << w), b, w + 1)
    return refine(mk('subw', (a, b, w), 0, (1 << w) - 1, 'auto', (a, b)))

def addw(a, b, w):
    r = add(a, b)
    if hi_of(r) < (1 << w): return r
    if b.__class__ is int and a.__class__ is not int:
        # x + (2^w - k)  ==  x - k
        k = (1 << w) - b
        if k < b: return subw(a, k, w)
    return slc(r, 0, w)

def mulw(a, b, w):
    r = mul(a, b)
    if hi_of(r) < (1 << w): return r
    if b.__class__ is int and b == (1 << w) - 1: return subw(0, a, w)
    return slc(r, 0, w)

def shlw(a, k, w):
    r = shl(a, k)
    return slc(r, 0, w) if hi_of(r) >= (1 << w) else r

def notw(a, w):
    return xor(a, (1 << w) - 1)

def udiv(a, b):
    if a.__class__ is int and b.__class__ is int: return a // b
    if b.__class__ is int and b & (b - 1) == 0: return lshr(a, b.bit_length() - 1)
    s = try_small('udiv', a, b)
    if s is not None:
        r = tab_op('udiv', s, (a, b))
        if r is not None: return r
    return refine(mk('udiv', (a, b), lo_of(a) // max(hi_of(b), 1), hi_of(a) // max(lo_of(b), 1), 'auto', (a, b)))

def urem(a, b):
    if a.__class__ is int and b.__class__ is int: return a % b
    if hi_of(a) < lo_of(b): return a
    if b.__class__ is int and b & (b - 1) == 0: return and_(a, b - 1)
    s = try_small('urem', a, b)
    if s is not None:
        r = tab_op('urem', s, (a, b))
        if r is not None: return r
    if b.__class__ is int and b == Q:
        return modq(res(a))
    return refine(mk('urem', (a, b), 0, max(hi_of(b) - 1, 0), 'auto', (a, b)))

def popc(a):
    if a.__class__ is int: return bin(a).count('1')
    s = try_small('popc', a)
    if s is not None:
        r = tab_op('popc', s, (a,))
        if r is not None: return r
    c, ps = pieces_of(a)
    if len(ps) > 1:
        t = bin(c).count('1')
        for (o, w, at, al) in ps: t = add(t, popc(slc(at, al, w)))
        return t
    return refine(mk('popc', (a,), 0, a.nb, 'auto', (a,)))

def ashr(a, k, w):
    """arithmetic shift right of the w-bit value a"""
    if a.__class__ is int and k.__class__ is int:
        s = a - (1 << w) if a >> (w - 1) else a
        return (s >> k) & ((1 << w) - 1)
    sg = slc(a, w - 1, 1)
    top = ite(sg, ((1 << k) - 1) << (w - k), 0)
    return or_(lshr(a, k), top)

def sext(a, w, w2):
    if a.__class__ is int:
        return a | (((1 << (w2 - w)) - 1) << w) if a >> (w - 1) else a
    sg = slc(a, w - 1, 1)
    if sg.__class__ is int and sg == 0: return a
    return or_(a, ite(sg, ((1 << (w2 - w)) - 1) << w, 0))

# ---------------------------------------------------------------- booleans
def not_(b):
    if b.__class__ is int: return 1 - b
    if b.op == 'not': return b.args[0]
    if b.op == 'lut':
        t = tables[b.args[1]]
        tid = tables_intern(U64(1) - t)
        c = _classify(tid, b.args[0].lo, b.args[0].hi)
        if c[0] == 'lut':
            # canonical polarity: keep the table whose first entry is 0
            return mk_lut_t(b.args[0], tid)
    if b.op == 'ite' and b.args[1].__class__ is int and b.args[2].__class__ is int:
        return ite(b.args[0], 1 - b.args[1], 1 - b.args[2])
    return mk('not', (b,), 0, 1, b.base if b.base is not b else b, (b,))

def band(*xs):
    s = {}
    for x in xs:
        if x.__class__ is int:
            if x == 0: return 0
            continue
        if x.op == 'band':
            for y in x.args[0]: s[y.id] = y
        else:
            s[x.id] = x
    for y in s.values():
        if y.op == 'not' and y.args[0].id in s and s[y.args[0].id] is y.args[0]: return 0
    if not s: return 1
    if len(s) == 1: return next(iter(s.values()))
    return mk('band', (frozenset(s.values()),), 0, 1, None)

def bor(*xs):
    return not_(band(*[not_(x) for x in xs]))

def iszero(x):
    if x.__class__ is int: return 1 if x == 0 else 0
    if x.lo > 0: return 0
    if x.hi <= 1: return not_(x)
    if x.op == 'seg':
        if x.args[0]: return 0
        return band(*[iszero(slc(a, al, w)) if not (al == 0 and w >= a.nb) else iszero(a)
                      for (o, w, a, al) in x.args[1]]) if not (len(x.args[1]) == 1 and x.args[1][0][0] == 0) \
            else mk('iszero', (x,), 0, 1, x.base if x.base is not x else x, (x,))
    if x.op == 'or':
        return band(iszero(x.args[0]), iszero(x.args[1]))
    if x.op == 'ite':
        return ite(x.args[0], iszero(x.args[1]), iszero(x.args[2]))
    if x.op == 'lut':
        b = x.args[0]
        t = (tables[x.args[1]] == U64(0)).astype(U64)
        return mk_lut(b, t)
    if x.op == 'add':
        if x.args[0].__class__ is not int and x.args[1].__class__ is not int:
            return band(iszero(x.args[0]), iszero(x.args[1]))
    if x.base is not x and not is_small(x.base):
        return refine(mk('iszero', (x,), 0, 1, x.base, (x,)))
    return mk('iszero', (x,), 0, 1, x.base if x.base is not x else x, (x,))

def eq(a, b):
    if a.__class__ is int and b.__class__ is int: return 1 if a == b else 0
    if a is b: return 1
    if hi_of(a) < lo_of(b) or hi_of(b) < lo_of(a): return 0
    if hi_of(a) <= 1 and hi_of(b) <= 1:
        return not_(xor(a, b))
    s = try_small('eq', a, b)
    if s is not None:
        ta = table_of(a, s) if a.__class__ is not int else U64(a)
        tb = table_of(b, s) if b.__class__ is not int else U64(b)
        return mk_lut(s, np.broadcast_to((ta == tb).astype(U64), (s.hi - s.lo + 1,)))
    if b.__class__ is int:
        if a.op == 'ite':
            return ite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    elif a.__class__ is int and b.op == 'ite':
        return ite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    return iszero(xor(a, b))

def ult(a, b):
    if a.__class__ is int and b.__class__ is int: return 1 if a < b else 0
    if a is b: return 0
    if hi_of(a) < lo_of(b): return 1
    if lo_of(a) >= hi_of(b): return 0
    if b.__class__ is int and b == 1: return iszero(a)
    if a.__class__ is int and a == 0: return not_(iszero(b))
    if a.__class__ is not int and a.op == 'add' and (_same(a.args[0], b) or _same(a.args[1], b)): return 0
    if b.__class__ is not int and b.op == 'sub' and _same(b.args[0], a): return 0
    s = try_small('ult', a, b)
    if s is not None:
        r = tab_op('ult', s, (a, b))
        if r is not None: return r
    r = _lift2('ult', ult, a, b)
    if r is not None: return r
    return refine(mk('ult', (a, b), 0, 1, 'auto', (a, b)))

def slt(a, b, w):
    if a.__class__ is int and b.__class__ is int:
        h = 1 << (w - 1)
        return 1 if (a ^ h) < (b ^ h) else 0
    h = 1 << (w - 1)
    if hi_of(a) < h and hi_of(b) < h: return ult(a, b)
    s = try_small('slt', a, b)
    if s is not None and w <= 64:
        r = tab_op('slt', s, (a, b), w)
        if r is not None: return r
    return refine(mk('slt', (a, b, w), 0, 1, 'auto', (a, b)))

_canonc = {}
def _eq_slice(n):
    """n == iszero(slice(A, al, w) ^ slice(B, bl, w)) -> (A, al, B, bl, w), A.id < B.id"""
    if n.op != 'iszero': return None
    x = n.args[0]
    if x.op != 'xor' or x.args[0].__class__ is int or x.args[1].__class__ is int: return None
    r = []
    w = x.nb
    for y in x.args:
        if y.op == 'seg':
            c, ps = y.args
            if c or len(ps) != 1 or ps[0][0] != 0: return None
            if ps[0][1] > w: return None
            r.append((ps[0][2], ps[0][3], ps[0][1]))
        else:
            r.append((y, 0, y.nb))
    if r[0][2] != r[1][2] or r[0][0] is r[1][0]: return None
    if r[0][0].id > r[1][0].id: r.reverse()
    return r[0][0], r[0][1], r[1][0], r[1][1], r[0][2]

def canon_cond(c):
    """a conjunction of slice equalities, adjacent slices joined into maximal ones"""
    n = _canonc.get(c.id)
    if n is not None and n[0] is c: return n[1]
    g = {}; rest = []
    for x in c.args[0]:
        e = _eq_slice(x)
        if e is None: rest.append(x)
        else: g.setdefault((e[0].id, e[2].id, e[1] - e[3]), []).append((e[1], e, x))
    merged = False
    for es in g.values():
        es.sort(key=lambda t: t[0])
        run = []
        for t in es + [None]:
            if t is not None and run and run[-1][0] + run[-1][1][4] == t[0]:
                run.append(t); continue
            if len(run) == 1: rest.append(run[0][2])
            elif run:
                a, al, b, bl, _ = run[0][1]
                w = sum(r[1][4] for r in run)
                rest.append(iszero(xor(slc(a, al, w), slc(b, bl, w))))
                merged = True
            run = [t] if t is not None else []
    r = band(*rest) if merged else c
    _canonc[c.id] = (c, r)
    if r is not c and r.__class__ is not int: _canonc[r.id] = (r, r)
    return r

_ite_depth = [0]
def ite(c, a, b):
    if c.__class__ is int: return a if c else b
    if a is b or (a.__class__ is int and b.__class__ is int and a == b): return a
    if c.op == 'not': return ite(c.args[0], b, a)
    if c.op == 'band':
        c = canon_cond(c)
        if c.__class__ is int: return a if c else b
        if c.op == 'not': return ite(c.args[0], b, a)
    if a.__class__ is int and b.__class__ is int:
        if a == 1 and b == 0: return c
        if a == 0 and b == 1: return not_(c)
    # small base
    cb = c.base
    if is_small(cb) and (a.__class__ is int or a.base is cb) and (b.__class__ is int or b.base is cb) \
            and not (a.__class__ is int and b.__class__ is int) \
            and hi_of(a) < (1 << 64) and hi_of(b) < (1 << 64):
        r = tab_op('ite', cb, (c, a, b))
        if r is not None: return r
    # nested
    if a.__class__ is not int and a.op == 'ite':
        if a.args[0] is c: return ite(c, a.args[1], b)
        if _same(a.args[2], b): return ite(band(c, a.args[0]), a.args[1], b)
        if _same(a.args[1], b): return ite(band(c, not_(a.args[0])), a.args[2], b)
    if b.__class__ is not int and b.op == 'ite':
        if b.args[0] is c: return ite(c, a, b.args[2])
        if _same(b.args[1], a): return ite(bor(c, b.args[0]), a, b.args[2])
        if _same(b.args[2], a): return ite(bor(c, not_(b.args[0])), a, b.args[1])
    if hi_of(a) <= 1 and hi_of(b) <= 1:
        if b.__class__ is int: return band(c, a) if b == 0 else not_(band(c, not_(a)))
        if a.__class__ is int: return band(not_(c), b) if a == 0 else not_(band(not_(c), not_(b)))
    n = mk('ite', (c, a, b), min(lo_of(a), lo_of(b)), max(hi_of(a), hi_of(b)), 'auto', (c, a, b))
    if n.__class__ is int: return n
    n.pm = pm_of(a) | pm_of(b)
    if n.base is not n and not is_small(n.base):
        n = refine(n)
    return n

def _same(a, b):
    return a is b or (a.__class__ is int and b.__class__ is int and a == b)

# ---------------------------------------------------------------- polynomials over Z_q
# poly: dict {monomial(tuple of atom Nodes sorted by id): coef}
_polys = {}
_poly_list = []
_node_res = {}
MAXPOLY = 4000

def poly_items(pid):
    return _poly_list[pid]

def poly_intern(p):
    items = tuple(sorted(p.items(), key=lambda kv: tuple(a.id for a in kv[0])))
    key = tuple((tuple(a.id for a in m), c) for m, c in items)
    i = _polys.get(key)
    if i is None:
        i = _polys[key] = len(_poly_list)
        _poly_list.append(items)
    return i

def poly_add(p, q):
    if len(p) < len(q): p, q = q, p
    r = dict(p)
    for m, c in q.items():
        x = (r.get(m, 0) + c) % Q
        if x: r[m] = x
        else: r.pop(m, None)
    return r
def poly_scale(p, k):
    k %= Q
    if k == 0: return {}
    if k == 1: return p
    return {m: c * k % Q for m, c in p.items()}
def poly_add_const(p, k):
    return poly_add(p, {(): k % Q}) if k % Q else p
def poly_mul(p, q):
    if len(p) * len(q) > MAXPOLY * 4: raise Unsupported('polynomial too large')
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = tuple(sorted(m + n, key=lambda a: a.id)) if m and n else (m or n)
            x = (r.get(k, 0) + c * d) % Q
            r[k] = x
    return {m: c for m, c in r.items() if c}

def res(v):
    """residue of the natural-number term v modulo q as a polynomial"""
    if v.__class__ is int:
        return {(): v % Q} if v % Q else {}
    r = _node_res.get(v)
    if r is not None: return r
    op = v.op
    if op == 'modq':
        r = dict(poly_items(v.args[0]))
    elif op == 'add':
        r = poly_add(res(v.args[0]), res(v.args[1]))
    elif op == 'sub':
        r = poly_add(res(v.args[0]), poly_scale(res(v.args[1]), Q - 1))
    elif op == 'mul':
        a, b = res(v.args[0]), res(v.args[1])
        r = poly_mul(a, b) if len(a) * len(b) <= MAXPOLY else {(v,): 1}
    elif op == 'seg' and len(v.args[1]) == 1 and v.args[1][0][3] == 0 and v.args[1][0][1] >= v.args[1][0][2].nb:
        o, w, a, al = v.args[1][0]
        r = poly_add_const(poly_scale(res(a), pow(2, o, Q)), v.args[0])
    elif op == 'lut' or (op == 'ite' and v.base is not v and is_small(v.base)):
        b = v.base
        arr = table_of(v, b) % U64(Q)
        xs = np.arange(b.lo, b.hi + 1, dtype=U64) % U64(Q)
        r = None
        cv = canon(v)
        if cv is not v:
            r = _node_res[v] = res(cv)
            return r
        if len(arr) >= 2 and b is not v:
            k = (int(arr[1]) - int(arr[0])) % Q
            c = (int(arr[0]) - k * b.lo) % Q
            if ((xs * U64(k) + U64(c)) % U64(Q) == arr).all():
                r = poly_add_const(poly_scale(res(b), k), c)
        if r is None: r = {(v,): 1}
    elif op == 'ite':
        a, b = res(v.args[1]), res(v.args[2])
        r = a if a == b else {(v,): 1}
    else:
        cv = canon(v) if v.hi < 65536 else v
        r = {(v,): 1} if cv is v else res(cv)
    _node_res[v] = r
    return r

def modq(p):
    """value in [0,q-1] congruent to p"""
    if not p: return 0
    if len(p) <= 4:
        if len(p) == 1:
            (m, c), = p.items()
            if m == (): return c
            if len(m) == 1 and c == 1 and m[0].hi < Q: return m[0]
        b = None
        for m in p:
            for a in m:
                if b is None: b = a.base
                elif b is not a.base: b = 0; break
            if b == 0: break
        if b.__class__ is Node and is_small(b) and b.op != 'modq':
            rb = res(b)
            if len(rb) == 1 and rb.get((b,)) == 1:
                xs = np.arange(b.lo, b.hi + 1, dtype=U64)
                r = np.zeros(len(xs), dtype=U64)
                for m, c in p.items():
                    t = np.full(len(xs), c, dtype=U64)
                    for a in m: t = t * (table_of(a, b) % U64(Q)) % U64(Q)
                    r = (r + t) % U64(Q)
                return mk_lut(b, r)
    return mk('modq', (poly_intern(p),), 0, Q - 1, None)

# ---------------------------------------------------------------- concrete evaluation
def evaluate(roots, env):
    """evaluate a list of values under env: sym name -> int.  Iterative; memoized per call."""
    memo = {}
    aggmemo = {}
    out = []
    def children(n):
        op = n.op
        if op == 'sym': return ()
        if op == 'seg': return [p[2] for p in n.args[1]]
        if op == 'lut': return (n.args[0],)
        if op == 'band': return n.args[0]
        if op == 'modq':
            return [a for m, c in poly_items(n.args[0]) for a in m]
        if op == 'app':
            return [v for g in n.args[2] for v in _agg_list[g] if v.__class__ is not int]
        return [a for a in n.args if a.__class__ is Node]
    def val(v):
        return v if v.__class__ is int else memo[v]
    def comp(n):
        op = n.op; a = n.args
        if op == 'sym': return env(a[0]) if callable(env) else env[a[0]]
        if op == 'seg':
            r = a[0]
            for (o, w, at, al) in a[1]:
                r |= ((memo[at] >> al) & ((1 << w) - 1)) << o
            return r
        if op == 'lut': return int(tables[a[1]][memo[a[0]] - a[0].lo])
        if op == 'band': return 1 if all(memo[x] for x in a[0]) else 0
        if op == 'modq':
            r = 0
            for m, c in poly_items(a[0]):
                t = c
                for x in m: t = t * memo[x] % Q
                r += t
            return r % Q
        if op == 'app':
            vals = []
            for g in a[2]:
                t = aggmemo.get(g)
                if t is None:
                    t = aggmemo[g] = tuple(val(x) for x in _agg_list[g])
                vals.append(t)
            return APPS[a[0]](a[1], *vals)
        if op == 'add': return val(a[0]) + val(a[1])
        if op == 'sub': return val(a[0]) - val(a[1])
        if op == 'subw': return (val(a[0]) - val(a[1])) & ((1 << a[2]) - 1)
        if op == 'mul': return val(a[0]) * val(a[1])
        if op == 'and': return val(a[0]) & val(a[1])
        if op == 'or': return val(a[0]) | val(a[1])
        if op == 'xor': return val(a[0]) ^ val(a[1])
        if op == 'udiv': return val(a[0]) // val(a[1])
        if op == 'urem': return val(a[0]) % val(a[1])
        if op == 'shlv': return val(a[0]) << val(a[1])
        if op == 'lshrv': return val(a[0]) >> val(a[1])
        if op == 'ult': return 1 if val(a[0]) < val(a[1]) else 0
        if op == 'slt': return slt(val(a[0]), val(a[1]), a[2])
        if op == 'iszero': return 1 if val(a[0]) == 0 else 0
        if op == 'not': return 1 - val(a[0])
        if op == 'ite': return val(a[1]) if val(a[0]) else val(a[2])
        if op == 'popc': return bin(val(a[0])).count('1')
        raise Unsupported('evaluate ' + op)
    for root in roots:
        if root.__class__ is int:
            out.append(root); continue
        st = [root]
        while st:
            n = st[-1]
            if n in memo: st.pop(); continue
            todo = [c for c in children(n) if c.__class__ is not int and c not in memo]
            if todo: st.extend(todo)
            else:
                memo[n] = comp(n); st.pop()
        out.append(memo[root])
    return out

def children_of(n):
    op = n.op
    if op == 'sym': return ()
    if op == 'seg': return [p[2] for p in n.args[1]]
    if op == 'lut': return (n.args[0],)
    if op == 'band': return list(n.args[0])
    if op == 'modq': return [a for m, c in poly_items(n.args[0]) for a in m]
    if op == 'app': return [v for g in n.args[2] for v in _agg_list[g] if v.__class__ is not int]
    return [a for a in n.args if a.__class__ is Node]

def support(roots, stop=lambda n: False):
    """set of atoms (sym/app) reachable"""
    seen = set(); out = set()
    st = [r for r in roots if r.__class__ is not int]
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        if n.op == 'sym' or stop(n):
            out.add(n)
            continue
        st.extend(c for c in children_of(n) if c not in seen)
    return out

def depends(roots, pred, stop=None):
    seen = set()
    st = [r for r in roots if r.__class__ is not int]
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        if pred(n): return True
        if stop is not None and stop(n): continue
        st.extend(c for c in children_of(n) if c not in seen)
    return False

def subst(roots, m):
    """rebuild terms replacing nodes by m (Node -> value); through the smart constructors"""
    memo = dict(m)
    aggm = {}
    def val(v): return v if v.__class__ is int else memo[v]
    def build(n):
        op = n.op; a = n.args
        ch = children_of(n)
        if all(memo[c] is c for c in ch): return n
        if op == 'seg':
            r = a[0]
            for (o, w, at, al) in a[1]:
                r = or_(r, shl(slc(val(at), al, w), o))
            return r
        if op == 'lut':
            b = val(a[0])
            arr = tables[a[1]]
            if b.__class__ is int: return int(arr[b - a[0].lo])
            bb = b.base
            if is_small(bb):
                t = table_of(b, bb)
                return mk_lut(bb, arr[(t - U64(a[0].lo)).astype(np.int64)])
            if b.lo < a[0].lo or b.hi > a[0].hi: raise Unsupported('subst lut range')
            return mk_lut(b, arr[b.lo - a[0].lo: b.hi - a[0].lo + 1])
        if op == 'band': return band(*[val(x) for x in a[0]])
        if op == 'modq':
            p = {}
            for mono, c in poly_items(a[0]):
                t = {(): c}
                for x in mono: t = poly_mul(t, res(val(x)))
                p = poly_add(p, t)
            return modq(p)
        if op == 'app':
            gs = []
            for g in a[2]:
                t = aggm.get(g)
                if t is None:
                    t = aggm[g] = agg([val(x) for x in _agg_list[g]])
                gs.append(t)
            if a[0] in APP_MK:
                return APP_MK[a[0]](a[1], gs)
            return app(a[0], a[1], gs, n.hi, n.lo)
        f = {'add': add, 'mul': mul, 'and': and_, 'or': or_, 'xor': xor, 'udiv': udiv, 'urem': urem,
             'ult': ult, 'iszero': iszero, 'not': not_, 'ite': ite, 'popc': popc, 'shlv': shl, 'lshrv': lshr}.get(op)
        if f: return f(*[val(x) for x in a])
        if op == 'sub': return subw(val(a[0]), val(a[1]), max(hi_of(val(a[0])).bit_length(), 1) + 1) if True else None
        if op == 'subw': return subw(val(a[0]), val(a[1]), a[2])
        if op == 'slt': return slt(val(a[0]), val(a[1]), a[2])
        raise Unsupported('subst ' + op)
    out = []
    for root in roots:
        if root.__class__ is int:
            out.append(root); continue
        st = [root]
        while st:
            n = st[-1]
            if n in memo: st.pop(); continue
            if n.op == 'sym':
                memo[n] = n; st.pop(); continue
            todo = [c for c in children_of(n) if c not in memo]
            if todo: st.extend(todo)
            else:
                memo[n] = build(n); st.pop()
        out.append(memo[root])
    return out
APP_MK = {}

def show(v, d=3):
    if v.__class__ is int: return hex(v) if v > 9 else str(v)
    if v.op == 'sym': return str(v.args[0])
    if d <= 0: return '#%d' % v.id
    if v.op == 'seg':
        return '{' + ','.join('%d:%s[%d+%d]' % (o, show(a, d - 1), al, w) for (o, w, a, al) in v.args[1][:8]) + \
            ('..' if len(v.args[1]) > 8 else '') + ('|%#x' % v.args[0] if v.args[0] else '') + '}'
    if v.op == 'lut': return 'lut%d(%s)' % (v.args[1], show(v.args[0], d - 1))
    if v.op == 'modq':
        it = poly_items(v.args[0])
        return 'mod(' + '+'.join('%d*%s' % (c, '*'.join(show(a, d - 2) for a in m)) for m, c in it[:6]) + ('..%d' % len(it) if len(it) > 6 else '') + ')'
    if v.op == 'band': return 'band%d(' % len(v.args[0]) + ','.join(show(x, d - 1) for x in list(v.args[0])[:3]) + ')'
    if v.op == 'app': return '%s%s<%s>' % (v.args[0], v.args[1], ','.join(map(str, v.args[2])))
    return v.op + '(' + ','.join(show(a, d - 1) if isinstance(a, (Node, int)) else str(a) for a in v.args) + ')'

# canonical form of a small coefficient: a table over the concatenation of the bits it depends on
_canon = {}
def canon(v):
    if v.__class__ is int or v.op in ('app', 'sym'): return v
    r = _canon.get(v)
    if r is not None and r[0] is v: return r[1]
    w = _canon1(v)
    _canon[v] = (v, w)
    if w.__class__ is not int: _canon[w] = (w, w)
    return w
def bit_support(v, limit=14):
    """set of (atom, bit) the value may depend on, or None"""
    bits = {}
    st = [v]; seen = set()
    while st:
        n = st.pop()
        if n.__class__ is int or n in seen: continue
        seen.add(n)
        if n.op == 'seg':
            for (o, w, a, al) in n.args[1]:
                if a.op in ('sym', 'app'):
                    for k in range(al, al + w): bits[(a.id, k)] = a
                else: st.append(a)
        elif n.op in ('sym', 'app', 'modq'):
            if n.op == 'modq' and any(len(m) > 1 for m, c in poly_items(n.args[0])): return None
            if n.op == 'modq': st.extend(children_of(n))
            else:
                if n.lo: return None
                for k in range(n.nb): bits[(n.id, k)] = n
        else: st.extend(children_of(n))
        if len(bits) > limit: return None
    return bits
def enum_bits(v, order):
    """values of v over all assignments of the bits in order ([((atom id, bit), atom)])"""
    n = len(order)
    xs = np.arange(1 << n, dtype=U64)
    memo = {}
    atoms = {}
    for k, ((aid, b), a) in enumerate(order):
        atoms.setdefault(a, []).append((b, k))
    for a, bl in atoms.items():
        x = np.zeros(len(xs), dtype=U64)
        for b, k in bl: x |= ((xs >> U64(k)) & U64(1)) << U64(b)
        if a.hi + 1 != (1 << a.nb): return None      # partial range
        memo[a] = x
    try:
        return np.broadcast_to(np.asarray(_ev(v, None, xs, memo), dtype=U64), xs.shape)
    except Unsupported:
        return None
def seg_of_bits(order):
    return concat([(slc(a, b, 1), 1) for ((aid, b), a) in order])
def _canon1(v):
    bits = bit_support(v)
    if bits is None: return v
    order = sorted(bits.items())
    n = len(order)
    r = enum_bits(v, order)
    if r is None: return v
    xs = np.arange(1 << n, dtype=U64)
    # drop inessential bits
    ess = []
    for k in range(n):
        m = U64(1 << k)
        if not np.array_equal(r, r[(xs ^ m).astype(np.int64)]): ess.append(k)
    if not ess: return int(r[0])
    idx = np.zeros(1 << len(ess), dtype=np.int64)
    ys = np.arange(1 << len(ess))
    for j, k in enumerate(ess): idx |= ((ys >> j) & 1) << k
    tab = r[idx]
    seg = concat([(slc(order[k][1], order[k][0][1], 1), 1) for k in ess])
    return mk_lut(seg, tab)


# ---------------------------------------------------------------- equality prover
_memo_eq = {}
def cut_leaves(n, limit=64):
    """leaves (base nodes) of n, or None if too many"""
    out = {}
    seen = set()
    st = [n]
    while st:
        x = st.pop()
        if x.__class__ is int or x in seen: continue
        seen.add(x)
        if x.base is x and x.op in ('sym', 'app', 'seg'):
            if x.op == 'seg':
                for p in x.args[1]: st.append(p[2])
                continue
            out[x.id] = x
            if len(out) > limit: return None
            continue
        st.extend(children_of(x))
    return list(out.values())

def prove_equal(a, b):
    """True if proven; False if refuted by enumeration; None if undecided"""
    if _same(a, b): return True
    if a.__class__ is int and b.__class__ is int: return False
    if hi_of(a) < lo_of(b) or hi_of(b) < lo_of(a): return False
    # joint small support
    la = [] if a.__class__ is int else cut_leaves(a)
    lb = [] if b.__class__ is int else cut_leaves(b)
    if la is not None and lb is not None:
        ls = list({x.id: x for x in la + lb}.values())
        tot = 1
        for x in ls:
            tot *= (x.hi - x.lo + 1)
            if tot > BIG: break
        if tot <= BIG:
            try:
                return _enum_multi(a, b, ls, tot)
            except Unsupported:
                pass
    return None

def _enum_multi(a, b, ls, tot):
    k = (a, b, tuple(x.id for x in ls))
    r = _memo_eq.get(k)
    if r is None: r = _memo_eq[k] = _enum_multi1(a, b, ls, tot)
    return r
def _enum_multi1(a, b, ls, tot):
    step = 1 << 20
    for s in range(0, tot, step):
        idx = np.arange(s, min(tot, s + step), dtype=U64)
        memo = {}
        r = idx
        for x in ls:
            n = x.hi - x.lo + 1
            memo[x] = r % U64(n) + U64(x.lo)
            r = r // U64(n)
        stats['enum_evals'] += len(idx)
        va = _ev(a, None, idx, memo); vb = _ev(b, None, idx, memo)
        if not np.array_equal(np.broadcast_to(va, idx.shape), np.broadcast_to(vb, idx.shape)):
            return False
    return True

# ---------------------------------------------------------------- structural equality prover
def _bits_of_iszero(x):
    """iszero(x) as a set of literals (polarity, bit node)"""
    out = []
    for i in range(hi_of(x).bit_length()):
        b = slc(x, i, 1)
        if b.__class__ is int:
            if b: return None
            continue
        out.append(not_(b))
    return out

def _conj(c):
    """conjunction c as a set of members, iszero members split into bits"""
    ms = c.args[0] if c.op == 'band' else (c,)
    out = set()
    for m in ms:
        if m.op == 'iszero':
            bs = _bits_of_iszero(m.args[0])
            if bs is None: return None
            for b in bs:
                if b.__class__ is int: 
                    if b == 0: return None
                    continue
                out.update(b.args[0] if b.op == 'band' else (b,))
        else: out.add(m)
    return out

def _blk_leaves(n, limit=24):
    """bit leaves below n: {bit node}; opaque nodes (xor, sym, app, ...) are split into bits"""
    out = {}; opq = {}
    st = [n]; seen = set()
    while st:
        x = st.pop()
        if x.__class__ is int or x in seen: continue
        seen.add(x)
        if x.base is x and x.op not in ('seg', 'band', 'not', 'iszero'):
            bs = []
            for i in range(x.nb):
                b = slc(x, i, 1)
                if b.__class__ is int: bs.append(b); continue
                neg = 0
                if b.op == 'not': b = b.args[0]; neg = 1
                out[b] = True
                bs.append((b, neg))
            opq[x] = bs
            if len(out) > limit: return None
            continue
        st.extend(children_of(x))
    return out, opq

def conj_equal(a, b):
    A = _conj(a); B = _conj(b)
    if A is None or B is None: return False
    da = A - B; db = B - A
    if not da and not db: return True
    common = A & B
    # components by shared leaf bits
    info = []
    for side, ms in ((0, da), (1, db)):
        for m in ms:
            l = _blk_leaves(m)
            if l is None: return None
            info.append((side, m, l))
    # common members whose leaves meet take part in both sides
    leafset = set()
    for _, m, (l, o) in info: leafset.update(l)
    for m in common:
        l = _blk_leaves(m, 9)
        if l is not None and leafset.intersection(l[0]):
            info.append((2, m, l))
    par = {}
    def find(x):
        while par[x] is not x: par[x] = par[par[x]]; x = par[x]
        return x
    for _, m, (l, o) in info:
        ls = list(l)
        for x in ls: par.setdefault(x, x)
        for x in ls[1:]: par[find(x)] = find(ls[0])
    comps = {}
    for e in info:
        comps.setdefault(find(next(iter(e[2][0]))), []).append(e)
    sig = {}
    for es in comps.values():
        leaves = {}
        for _, m, (l, o) in es: leaves.update(l)
        if len(leaves) > 22: return None
        idx = np.arange(1 << len(leaves), dtype=U64)
        memo0 = {}
        for k, x in enumerate(leaves): memo0[x] = (idx >> U64(k)) & U64(1)
        val = [np.ones(len(idx), dtype=U64), np.ones(len(idx), dtype=U64)]
        memo = dict(memo0)
        for side, m, (l, opq) in es:
            for x, bs in opq.items():
                if x in memo0: memo[x] = memo0[x]; continue
                v = np.zeros(len(idx), dtype=U64)
                for i, bb in enumerate(bs):
                    if bb.__class__ is int: v |= U64(bb << i)
                    else: v |= (memo0[bb[0]] ^ U64(bb[1])) << U64(i)
                memo[x] = v
            try:
                r = _ev(m, None, idx, memo)
            except Unsupported:
                return None
            if side in (0, 2): val[0] = val[0] & r
            if side in (1, 2): val[1] = val[1] & r
        stats['enum_evals'] += len(idx)
        if not np.array_equal(val[0], val[1]): return None
    return True

_eqv = {}
def equal(a, b):
    """True if a == b is proven (structure, enumeration), else None/False"""
    if _same(a, b): return True
    if a.__class__ is int or b.__class__ is int:
        return prove_equal(a, b)
    k = (a, b)
    r = _eqv.get(k, 0)
    if r != 0: return r
    _eqv[k] = None
    r = _equal(a, b)
    _eqv[k] = r
    return r

def _neg_eq(a, b):
    return equal(a, not_(b))

def _equal(a, b):
    if a.op == 'not' and b.op == 'not': return equal(a.args[0], b.args[0])
    if a.op == 'ite' and b.op == 'ite':
        if equal(a.args[0], b.args[0]) and equal(a.args[1], b.args[1]) and equal(a.args[2], b.args[2]): return True
        if _same(a.args[1], b.args[2]) and _same(a.args[2], b.args[1]) and _neg_eq(a.args[0], b.args[0]): return True
    if a.op == 'seg' and b.op == 'seg' and a.args[0] == b.args[0] and len(a.args[1]) == len(b.args[1]) \
            and all(p[0] == q[0] and p[1] == q[1] and p[3] == q[3] for p, q in zip(a.args[1], b.args[1])):
        if all(equal(p[2], q[2]) for p, q in zip(a.args[1], b.args[1])): return True
    if a.hi <= 1 and b.hi <= 1 and (a.op == 'band' or b.op == 'band'):
        r = conj_equal(a, b)
        if r: return True
    if a.op == 'app' and b.op == 'app' and a.args[0] == b.args[0] and a.args[1] == b.args[1] and len(a.args[2]) == len(b.args[2]):
        if all(g == h or (len(_agg_list[g]) == len(_agg_list[h]) and all(equal(x, y) for x, y in zip(_agg_list[g], _agg_list[h])))
               for g, h in zip(a.args[2], b.args[2])): return True
    return prove_equal(a, b)
