"""LLVM IR front end: parses the .ll files rustc wrote for /repo's current source, and compiles each function,
on demand, to small Python functions (one per straight-line segment) that the executor in exec.py runs over terms.

Nothing is dropped from the IR except: alignment/metadata/attributes (no semantic content for the properties),
lifetime and assume intrinsics, and floating point (unsupported: raises)."""
import re
from .terms import Unsupported

TOK = re.compile(r'''\s*(?:(c"(?:[^"\\]|\\(?:\\|[0-9A-Fa-f]{2}))*")|([%@]"[^"]*")|([%@][-A-Za-z0-9_.$]+)|(-?[0-9]+(?:\.[0-9eE+-]+)?)|([A-Za-z_][A-Za-z0-9_.]*)|([!#][-A-Za-z0-9_.]*)|(<\{|\}>|\.\.\.|[][(){},=*<>:|]))''')

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '': break
            raise Unsupported('lex: ' + s[pos:pos + 60])
        out.append(m.group(0).strip())
        pos = m.end()
    return out

class P:
    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.mod = mod
    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1
        return x
    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False
    def expect(self, x):
        y = self.next()
        if y != x: raise Unsupported('parse: expected %s got %s in %s' % (x, y, ' '.join(self.t)[:200]))

    def type(self):
        x = self.next()
        if x[0] == 'i' and x[1:].isdigit(): t = ('i', int(x[1:]))
        elif x == 'ptr': t = ('p',)
        elif x == 'void': t = ('v',)
        elif x == '[':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect(']')
            t = ('a', n, e)
        elif x == '{' or x == '<{':
            end = '}' if x == '{' else '}>'
            es = []
            if not self.accept(end):
                while True:
                    es.append(self.type())
                    if self.accept(end): break
                    self.expect(',')
            t = ('s', tuple(es), x == '<{')
        elif x == '<':
            n = int(self.next()); self.expect('x'); e = self.type(); self.expect('>')
            t = ('vec', n, e)
        elif x[0] == '%':
            t = self.mod.named_type(x)
        elif x in ('float', 'double', 'metadata', 'label', 'token', 'half'):
            t = (x,)
        else:
            raise Unsupported('type ' + x)
        # function type
        if self.peek() == '(' and t[0] != 'label':
            # only appears in varargs calls: skip
            d = 0
            while True:
                y = self.next()
                if y == '(': d += 1
                elif y == ')':
                    d -= 1
                    if d == 0: break
        return t

    def attrs(self):
        """skip parameter attributes; returns set of interesting ones"""
        got = {}
        while True:
            x = self.peek()
            if x is None or x in (',', ')'): return got
            if x[0] in '%@' or x[0].isdigit() or x[0] == '-' : return got
            if x in ('null', 'undef', 'poison', 'zeroinitializer', 'true', 'false', 'getelementptr', 'inttoptr', 'ptrtoint',
                     'none', '{', '[', '<{', '<'): return got
            self.i += 1
            if x in ('sret', 'byval', 'dereferenceable', 'dereferenceable_or_null', 'align', 'captures', 'range', 'initializes',
                     'elementtype', 'nofpclass'):
                if self.peek() == '(':
                    d = 0; start = self.i
                    while True:
                        y = self.next()
                        if y == '(': d += 1
                        elif y == ')':
                            d -= 1
                            if d == 0: break
                    if x in ('sret', 'byval'):
                        sub = P(self.t[start + 1:self.i - 1], self.mod)
                        got[x] = sub.type()
                elif x == 'align':
                    self.next()
    # operands: ('r',name) | ('k',int) | ('u',) | ('g',name,off) | ('agg',[...]) | ('z',type)
    def value(self, ty):
        x = self.next()
        if x[0] == '%': return ('r', x)
        if x[0] == '@': return ('g', x, 0)
        if x[0].isdigit() or x[0] == '-':
            w = ty[1] if ty[0] == 'i' else 64
            return ('k', int(x) & ((1 << w) - 1))
        if x == 'true': return ('k', 1)
        if x == 'false': return ('k', 0)
        if x == 'null': return ('k', 0)
        if x in ('undef', 'poison'): return ('u',)
        if x == 'zeroinitializer': return ('z', ty)
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw'): self.next()
            self.expect('(')
            bt = self.type(); self.expect(',')
            pt = self.type(); base = self.value(pt)
            off = 0; first = True; cur = bt
            while self.accept(','):
                it = self.type(); iv = self.value(it)
                if iv[0] != 'k': raise Unsupported('const gep')
                k = iv[1]
                if k >> 63: k -= 1 << 64
                if first:
                    off += k * sizeof(cur); first = False
                else:
                    o, cur = field(cur, k); off += o
            self.expect(')')
            if base[0] == 'g': return ('g', base[1], base[2] + off)
            if base[0] == 'k': return ('k', base[1] + off)
            raise Unsupported('const gep base')
        if x in ('inttoptr', 'ptrtoint'):
            self.expect('(')
            t = self.type(); v = self.value(t); self.expect('to'); self.type(); self.expect(')')
            return v
        if x == '{' or x == '<{' or x == '[' or x == '<':
            end = {'{': '}', '<{': '}>', '[': ']', '<': '>'}[x]
            vs = []
            if not self.accept(end):
                while True:
                    t = self.type(); vs.append((t, self.value(t)))
                    if self.accept(end): break
                    self.expect(',')
            return ('agg', vs)
        if x[0] == 'c' and x[1:2] == '"':
            return ('str', cstr(x[2:-1]))
        raise Unsupported('value ' + x)
    def tv(self):
        t = self.type()
        a = self.attrs()
        return t, self.value(t)

def cstr(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)

def alignof(t):
    k = t[0]
    if k == 'i': return 16 if t[1] > 64 else max(1, 1 << ((t[1] + 7) // 8 - 1).bit_length())
    if k == 'p': return 8
    if k in ('a', 'vec'): return alignof(t[2])
    if k == 's': return 1 if t[2] or not t[1] else max(alignof(x) for x in t[1])
    raise Unsupported('alignof ' + str(t))
def sizeof(t):
    k = t[0]
    if k == 'i':
        b = (t[1] + 7) // 8
        a = alignof(t)
        return (b + a - 1) // a * a
    if k == 'p': return 8
    if k == 'a': return t[1] * sizeof(t[2])
    if k == 'vec': return t[1] * sizeof(t[2])
    if k == 's':
        o = 0
        for x in t[1]:
            if not t[2]:
                a = alignof(x); o = (o + a - 1) // a * a
            o += sizeof(x)
        a = alignof(t)
        return (o + a - 1) // a * a
    raise Unsupported('sizeof ' + str(t))
def field(t, i):
    if t[0] in ('a', 'vec'): return i * sizeof(t[2]), t[2]
    if t[0] == 's':
        o = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                a = alignof(x); o = (o + a - 1) // a * a
            if j == i: return o, x
            o += sizeof(x)
    raise Unsupported('field')
def width(t):
    if t[0] == 'i': return t[1]
    if t[0] == 'p': return 64
    raise Unsupported('width ' + str(t))

class Module:
    def __init__(self, path, prog):
        self.path = path; self.prog = prog
        self.types = {}; self.tcache = {}
        self.globals = {}      # name -> line
        self.funcs = {}        # name -> Func
        self.aliases = {}
        self.decls = set()
        self.gaddr = {}
        self.scan()
    def scan(self):
        with open(self.path) as f:
            lines = f.read().split('\n')
        i = 0; n = len(lines); prev = ''
        while i < n:
            l = lines[i]
            c = l[:1]
            if c == 'd' and l.startswith('define'):
                j = i
                while lines[j] != '}': j += 1
                k = i - 1; dem = None
                while k >= 0 and lines[k].startswith(';'):
                    if not lines[k].startswith('; Function Attrs'):
                        dem = lines[k][2:]
                    k -= 1
                m = re.search(r'@("[^"]*"|[-A-Za-z0-9_.$]+)\(', l)
                name = '@' + m.group(1)
                self.funcs[name] = Func(self, name, dem or name[1:], l, lines[i + 1:j])
                i = j
            elif c == '@':
                m = re.match(r'(@(?:"[^"]*"|[-A-Za-z0-9_.$]+)) = (.*)', l)
                nm, rest = m.groups()
                if ' alias ' in ' ' + rest:
                    mm = re.search(r'alias .*?(@(?:"[^"]*"|[-A-Za-z0-9_.$]+))\s*$', re.sub(r', ![a-z]+ !\d+', '', rest))
                    self.aliases[nm] = mm.group(1)
                else:
                    self.globals[nm] = rest
            elif c == '%':
                m = re.match(r'(%(?:"[^"]*"|[-A-Za-z0-9_.$]+)) = type (.*)', l)
                if m: self.types[m.group(1)] = m.group(2)
            elif c == 'd' and l.startswith('declare'):
                m = re.search(r'@("[^"]*"|[-A-Za-z0-9_.$]+)\(', l)
                if m: self.decls.add('@' + m.group(1))
            i += 1
    def named_type(self, x):
        t = self.tcache.get(x)
        if t is None:
            t = self.tcache[x] = P(tokenize(self.types[x]), self).type()
        return t

INSTR_RE = re.compile(r'^\s+(?:(%(?:"[^"]*"|[-A-Za-z0-9_.$]+)) = )?(.*)$')

NOOP_INTR = ('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.assume', 'llvm.invariant')

_U = re.compile(r'UInt<(U\d+|UTerm), (?:bit::)?B([01])>')
_short = {}
def short(s):
    """demangled name with type-level numbers folded (U256) and common crate prefixes dropped"""
    r = _short.get(s)
    if r is not None: return r
    k = s
    s = re.sub(r'typenum::\w+::', '', s)
    while True:
        t = _U.sub(lambda m: 'U%d' % (2 * (0 if m.group(1) == 'UTerm' else int(m.group(1)[1:])) + int(m.group(2))), s)
        if t == s: break
        s = t
    s = re.sub(r'\b(?:hybrid_array|digest::core_api|core)::', '', s)
    _short[k] = s
    return s

class Func:
    @property
    def short(self): return short(self.dem)
    def __init__(self, mod, name, dem, header, body):
        self.mod = mod; self.name = name; self.dem = dem
        self.header = header; self.body = body
        self.ready = False
        self.hook = None           # contract applied at call sites
        self._sig = None
    def __repr__(self): return '<fn %s>' % self.dem[:80]
    @property
    def sig(self):
        """(ret type, [(type, sret type or None)])"""
        if self._sig is None:
            h = re.sub(r'^define\s+', '', self.header)
            h = h[:h.rindex('{')]
            i = h.index(self.name + '(')
            pre = h[:i].split()
            args = h[i + len(self.name):]
            p = P(tokenize(h[:i]), self.mod)
            while p.peek() and not (p.peek()[0] in '%[{<' or p.peek() in ('ptr', 'void') or re.fullmatch(r'i\d+', p.peek())):
                x = p.next()
                if x in ('align', ): p.next()
                elif p.peek() == '(':
                    while p.next() != ')': pass
            rt = p.type()
            p = P(tokenize(args), self.mod)
            p.expect('(')
            ps = []
            if not p.accept(')'):
                while True:
                    if p.peek() == '...': p.next(); p.expect(')'); break
                    t = p.type(); a = p.attrs()
                    nm = p.next() if p.peek() and p.peek()[0] == '%' else '%' + str(len(ps))
                    ps.append((t, a.get('sret') or None, nm, a.get('byval')))
                    if p.accept(')'): break
                    p.expect(',')
            self._sig = (rt, ps)
        return self._sig
    def shape(self):
        rt, ps = self.sig
        return (rt, tuple((t, s, bv) for (t, s, n, bv) in ps))
    def nsites(self): return getattr(self, 'sites', 0)
    def prepare(self):
        if not self.ready:
            compile_func(self)
            self.ready = True

# ------------------------------------------------------------------ compilation
class CallSite:
    __slots__ = ('target', 'ret', 'nxt', 'fn', 'loc')
BIN = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'}

def parse_instr(line, mod):
    """-> (dst, op, data)"""
    m = INSTR_RE.match(line)
    dst, rest = m.groups()
    # strip metadata suffix
    k = rest.find(', !')
    if k >= 0 and not rest.startswith('switch'): rest = rest[:k]
    if rest.startswith('fence'): return dst, 'fence', None
    p = P(tokenize(rest), mod)
    op = p.next()
    if op in ('tail', 'musttail', 'notail'): op = p.next()
    if op in BIN:
        flags = set()
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'): flags.add(p.next())
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return dst, 'bin', (op, t, a, b, flags)
    if op == 'icmp':
        while p.peek() in ('samesign',): p.next()
        pred = p.next(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return dst, 'icmp', (pred, t, a, b)
    if op in CAST:
        while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
        t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
        return dst, 'cast', (op, t, a, t2)
    if op == 'alloca':
        t = p.type(); n = 1
        if p.accept(','):
            if p.peek() != 'align':
                it = p.type(); v = p.value(it)
                if v[0] != 'k': raise Unsupported('dynamic alloca')
                n = v[1]
        return dst, 'alloca', sizeof(t) * n
    if op == 'load':
        vol = p.accept('volatile')
        p.accept('atomic')      # sequential semantics; the contents of mutable globals are arbitrary (exec.Machine.obj)
        t = p.type(); p.expect(','); pt = p.type(); a = p.value(pt)
        return dst, 'load', (t, a, vol)
    if op == 'store':
        vol = p.accept('volatile')
        p.accept('atomic')
        t = p.type(); v = p.value(t); p.expect(','); pt = p.type(); a = p.value(pt)
        return dst, 'store', (t, v, a, vol)
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
        bt = p.type(); p.expect(','); pt = p.type(); base = p.value(pt)
        idx = []
        while p.accept(','):
            t = p.type(); idx.append((t, p.value(t)))
        return dst, 'gep', (bt, base, idx)
    if op == 'br':
        if p.accept('label'):
            return dst, 'br', p.next()
        t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = p.next(); p.expect(','); p.expect('label'); b = p.next()
        return dst, 'cbr', (c, a, b)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next(); p.expect('[')
        cs = []
        while not p.accept(']'):
            t2 = p.type(); k = p.value(t2); p.expect(','); p.expect('label'); cs.append((k[1], p.next()))
        return dst, 'switch', (t, v, d, cs)
    if op == 'ret':
        t = p.type()
        return dst, 'ret', (t, None if t[0] == 'v' else p.value(t))
    if op == 'unreachable': return dst, 'unreachable', None
    if op == 'resume': return dst, 'unreachable', None
    if op == 'phi':
        t = p.type(); ins = []
        while True:
            p.expect('['); v = p.value(t); p.expect(','); b = p.next(); p.expect(']')
            ins.append((v, b))
            if not p.accept(','): break
        return dst, 'phi', (t, ins)
    if op == 'select':
        t = p.type(); c = p.value(t); p.expect(','); t1 = p.type(); a = p.value(t1); p.expect(','); t2 = p.type(); b = p.value(t2)
        if t[0] != 'i': raise Unsupported('vector select')
        return dst, 'select', (c, t1, a, b)
    if op == 'extractvalue':
        t = p.type(); v = p.value(t); ix = []
        while p.accept(','): ix.append(int(p.next()))
        return dst, 'extractvalue', (t, v, ix)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); w = p.value(t2); ix = []
        while p.accept(','): ix.append(int(p.next()))
        return dst, 'insertvalue', (t, v, w, ix)
    if op == 'fence': return dst, 'fence', None
    if op == 'freeze':
        t = p.type(); v = p.value(t)
        return dst, 'freeze', v
    if op in ('call', 'invoke'):
        while p.peek() in ('fastcc', 'coldcc', 'ccc'): p.next()
        # return attributes
        while True:
            x = p.peek()
            if x in ('zeroext', 'signext', 'noundef', 'nonnull', 'noalias', 'inreg'): p.next()
            elif x == 'align': p.next(); p.next()
            elif x in ('range', 'dereferenceable', 'dereferenceable_or_null'):
                p.next()
                d = 0
                while True:
                    y = p.next()
                    if y == '(': d += 1
                    elif y == ')':
                        d -= 1
                        if d == 0: break
            else: break
        rt = p.type()
        callee = p.next()
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                t = p.type(); at = p.attrs()
                if t[0] == 'metadata': raise Unsupported('metadata arg')
                if 'byval' in at: raise Unsupported('byval')
                args.append((t, p.value(t)))
                if p.accept(')'): break
                p.expect(',')
        nd = None
        if op == 'invoke':
            while p.peek() != 'to': p.next()
            p.next(); p.expect('label'); nd = p.next()
        return dst, 'call', (rt, callee, args, nd)
    if op == 'atomicrmw':
        vol = p.accept('volatile'); o = p.next()
        if o not in ('xchg', 'add', 'sub', 'and', 'or', 'xor'): raise Unsupported('atomicrmw ' + o)
        pt = p.type(); a = p.value(pt); p.expect(','); t = p.type(); v = p.value(t)
        return dst, 'rmw', (o, t, a, v)
    if op == 'cmpxchg': raise Unsupported(op)
    if op in ('landingpad',): return dst, 'landingpad', None
    raise Unsupported('instruction ' + op)

PANIC_RE = re.compile(r'panicking|panic_|_fail\b|unwrap_failed|expect_failed|len_mismatch_fail|handle_alloc_error|::fail$|slice_index_fail|slice_error_fail|fail_dispatch|cold_path_panic|const_panic')

def blocks_of(fn):
    """[(label, [instr])] ; instr = (dst, op, data, comment)"""
    blocks = []
    cur = None
    com = None
    lines = fn.body
    i = 0
    nparams = len(fn.sig[1])
    while i < len(lines):
        l = lines[i]; i += 1
        if not l or l.isspace(): continue
        if l[0] == ';': com = l[2:]; continue
        if l[0] != ' ':
            m = re.match(r'("[^"]*"|[-A-Za-z0-9_.$]+):', l)
            cur = []
            blocks.append(('%' + m.group(1), cur))
            com = None
            continue
        if l.lstrip().startswith('switch') and '[' in l and ']' not in l:
            while ']' not in lines[i]:
                l += ' ' + lines[i].strip(); i += 1
            l += ' ' + lines[i].strip(); i += 1
        if ' invoke ' in l or l.lstrip().startswith('invoke'):
            l += ' ' + lines[i].strip(); i += 1
        if cur is None:
            cur = []
            blocks.append(('%' + str(nparams), cur))
        cur.append((l, com))
        com = None
    return blocks

def succs(term):
    d, op, x = term[:3]
    if op == 'br': return [x]
    if op == 'cbr': return [x[1], x[2]]
    if op == 'switch': return [x[2]] + [b for _, b in x[3]]
    if op == 'call' and x[3]: return [x[3]]
    return []

def compile_func(fn):
    mod = fn.mod; prog = mod.prog
    raw = blocks_of(fn)
    blocks = []
    for lab, ls in raw:
        ins = []
        for l, c in ls:
            d, op, x = parse_instr(l, mod)
            ins.append((d, op, x, c))
        blocks.append((lab, ins))
    bidx = {lab: i for i, (lab, _) in enumerate(blocks)}
    nb = len(blocks)
    sc = []
    for lab, ins in blocks:
        sc.append([bidx[s] for s in succs(ins[-1])])
    # must-panic blocks
    doomed = [False] * nb
    for i, (lab, ins) in enumerate(blocks):
        if ins[-1][1] == 'unreachable': doomed[i] = True
    ch = True
    while ch:
        ch = False
        for i in range(nb):
            if not doomed[i] and sc[i] and all(doomed[s] for s in sc[i]):
                doomed[i] = True; ch = True
    # immediate post-dominators (ignoring doomed blocks); nb = virtual exit
    live_succ = [[s for s in ss if not doomed[s]] for ss in sc]
    for i, (lab, ins) in enumerate(blocks):
        if ins[-1][1] == 'ret': live_succ[i] = [nb]
    ipdom = compute_ipdom(live_succ, nb)
    # segments
    seg_code = []          # list of (list of code lines)
    seg_of_block = {}
    nseg = 0
    # first pass: split
    segs = []              # (block index, start, end) instrs; ends at call or terminator
    for i, (lab, ins) in enumerate(blocks):
        k = 0
        while k < len(ins) and ins[k][1] == 'phi': k += 1
        st = k
        seg_of_block[i] = len(segs)
        while True:
            e = st
            while True:
                d, op, x, c = ins[e]
                if op in ('br', 'cbr', 'switch', 'ret', 'unreachable'): break
                if op == 'call' and not inline_call(x): break
                e += 1
            segs.append((i, st, e))
            if ins[e][1] == 'call' and not ins[e][2][3]:
                st = e + 1
            else:
                break
    # edge segments for phis
    edges = {}
    def edge(i, j):
        """segment index to go from block i to block j"""
        if blocks[j][1][0][1] != 'phi': return seg_of_block[j]
        k = edges.get((i, j))
        if k is None:
            k = edges[(i, j)] = len(segs) + len(edges)
        return k
    # register allocation
    defseg = {}
    for (t, s, nm, bv) in fn.sig[1]: defseg[nm] = -1
    for si, (i, st, e) in enumerate(segs):
        for k in range(st, e + 1):
            d = blocks[i][1][k][0]
            if d:
                defseg[d] = si if blocks[i][1][k][1] != 'call' or k < e else -2
    for i, (lab, ins) in enumerate(blocks):
        for d, op, x, c in ins:
            if op == 'phi': defseg[d] = -3
    slot = {}
    def need(nm):
        if nm not in slot: slot[nm] = len(slot)
        return slot[nm]
    for (t, s, nm, bv) in fn.sig[1]: need(nm)
    def uses(op, x):
        if op == 'bin': return [x[2], x[3]]
        if op == 'icmp': return [x[2], x[3]]
        if op == 'cast': return [x[2]]
        if op == 'load': return [x[1]]
        if op == 'store': return [x[1], x[2]]
        if op == 'rmw': return [x[2], x[3]]
        if op == 'gep': return [x[1]] + [v for _, v in x[2]]
        if op == 'cbr': return [x[0]]
        if op == 'switch': return [x[1]]
        if op == 'ret': return [x[1]] if x[1] is not None else []
        if op == 'select': return [x[0], x[2], x[3]]
        if op == 'extractvalue': return [x[1]]
        if op == 'insertvalue': return [x[1], x[2]]
        if op == 'freeze': return [x]
        if op == 'call':
            us = [v for _, v in x[2]]
            if x[1][0] == '%': us.append(('r', x[1]))
            return us
        return []
    def flat(v):
        if v is None: return
        if v[0] == 'r': yield v[1]
        elif v[0] == 'agg':
            for t, w in v[1]: yield from flat(w)
    for si, (i, st, e) in enumerate(segs):
        for k in range(st, e + 1):
            d, op, x, c = blocks[i][1][k]
            for u in uses(op, x):
                for nm in flat(u):
                    if defseg.get(nm) != si: need(nm)
    for i, (lab, ins) in enumerate(blocks):
        for d, op, x, c in ins:
            if op == 'phi':
                need(d)
                for v, b in x[1]:
                    for nm in flat(v): need(nm)
    src = []
    consts = {}
    pyname = {}
    def pv(nm):
        y = pyname.get(nm)
        if y is None: y = pyname[nm] = 'v%d' % len(pyname)
        return y
    def cname(o):
        k = 'K%d' % len(consts)
        consts[k] = o
        return k

    class G:  # generator for one segment
        pass
    def emit_segment(si):
        i, st, e = segs[si]
        L = []
        local = set()
        loaded = {}
        def val(v):
            k = v[0]
            if k == 'r':
                nm = v[1]
                if nm in local: return pv(nm)
                if nm in loaded: return loaded[nm]
                y = pv(nm)
                L.append('%s=R[%d]' % (y, slot[nm]))
                loaded[nm] = y
                return y
            if k == 'k': return str(v[1])
            if k == 'u': return 'None'
            if k == 'g': return str(prog.addr(mod, v[1]) + v[2])
            if k == 'agg': return '(' + ''.join(val(w) + ',' for t, w in v[1]) + ')'
            if k == 'z':
                t = v[1]
                if t[0] in ('i', 'p'): return '0'
                if t[0] == 's': return '(' + ''.join(val(('z', x)) + ',' for x in t[1]) + ')'
            raise Unsupported('operand ' + k)
        def isk(s): return s.isdigit()
        def both(a, b):
            c = []
            if not isk(a): c.append('%s.__class__ is int' % a)
            if not isk(b) and b != a: c.append('%s.__class__ is int' % b)
            return ' and '.join(c) if c else 'True'
        def setd(d, expr):
            y = pv(d)
            if slot.get(d) is not None:
                L.append('%s=R[%d]=%s' % (y, slot[d], expr))
            else:
                L.append('%s=%s' % (y, expr))
            local.add(d)
        ins = blocks[i][1]
        for k in range(st, e + 1):
            d, op, x, c = ins[k]
            if op == 'bin':
                o, t, a, b, fl = x
                if t[0] != 'i': raise Unsupported('vector op')
                w = t[1]; M = (1 << w) - 1
                a = val(a); b = val(b)
                cc = both(a, b)
                if o == 'add': fast = '(%s+%s)&%d' % (a, b, M); slow = 'addw(%s,%s,%d)' % (a, b, w)
                elif o == 'sub': fast = '(%s-%s)&%d' % (a, b, M); slow = 'subw(%s,%s,%d)' % (a, b, w)
                elif o == 'mul': fast = '(%s*%s)&%d' % (a, b, M); slow = 'mulw(%s,%s,%d)' % (a, b, w)
                elif o == 'and': fast = '%s&%s' % (a, b); slow = 'and_(%s,%s)' % (a, b)
                elif o == 'or': fast = '%s|%s' % (a, b); slow = 'or_(%s,%s)' % (a, b)
                elif o == 'xor': fast = '%s^%s' % (a, b); slow = 'xor(%s,%s)' % (a, b)
                elif o == 'shl': fast = '(%s<<%s)&%d' % (a, b, M); slow = 'shlw(%s,%s,%d)' % (a, b, w)
                elif o == 'lshr': fast = '%s>>%s' % (a, b); slow = 'lshr(%s,%s)' % (a, b)
                elif o == 'ashr': fast = slow = 'ashr(%s,%s,%d)' % (a, b, w)
                elif o == 'udiv': fast = '%s//%s' % (a, b); slow = 'E.udiv(%s,%s)' % (a, b)
                elif o == 'urem': fast = '%s%%%s' % (a, b); slow = 'E.urem(%s,%s)' % (a, b)
                elif o in ('sdiv', 'srem'): fast = slow = 'E.%s(%s,%s,%d)' % (o, a, b, w)
                setd(d, '%s if %s else %s' % (fast, cc, slow))
            elif op == 'icmp':
                pred, t, a, b = x
                if t[0] == 'vec': raise Unsupported('vector icmp')
                w = width(t)
                a = val(a); b = val(b); cc = both(a, b)
                f = {'eq': ('%s==%s', 'eq(%s,%s)'), 'ne': ('%s!=%s', 'not_(eq(%s,%s))'), 'ult': ('%s<%s', 'ult(%s,%s)'),
                     'ugt': ('%s>%s', 'ugt(%s,%s)'), 'ule': ('%s<=%s', 'ule(%s,%s)'), 'uge': ('%s>=%s', 'uge(%s,%s)')}
                if pred in f:
                    fa, sl = f[pred]
                    setd(d, '(1 if %s else 0) if %s else E.cmp(%s)' % (fa % (a, b), cc, sl % (a, b)))
                else:
                    q = {'slt': 'slt(%s,%s,%d)' % (a, b, w), 'sgt': 'slt(%s,%s,%d)' % (b, a, w),
                         'sle': 'not_(slt(%s,%s,%d))' % (b, a, w), 'sge': 'not_(slt(%s,%s,%d))' % (a, b, w)}[pred]
                    setd(d, "E.cmp(%s)" % q)
            elif op == 'cast':
                o, t, a, t2 = x
                if t[0] == 'vec': raise Unsupported('vector cast')
                a = val(a)
                if o == 'trunc':
                    w = t2[1]
                    setd(d, '%s&%d if %s.__class__ is int else slc(%s,0,%d)' % (a, (1 << w) - 1, a, a, w) if not isk(a) else str(int(a) & ((1 << w) - 1)))
                elif o == 'sext':
                    setd(d, 'sext(%s,%d,%d)' % (a, t[1], t2[1]))
                elif o == 'zext': setd(d, a)
                elif o in ('ptrtoint', 'inttoptr', 'bitcast'):
                    setd(d, a)
            elif op == 'alloca':
                setd(d, 'E.alloca(%d)' % x)
            elif op == 'load':
                t, a, vol = x
                a = val(a)
                if t[0] == 'i':
                    n = (t[1] + 7) // 8
                    setd(d, 'E.ld(%s,%d)' % (a, n) if t[1] % 8 == 0 else 'E.ldw(%s,%d,%d)' % (a, n, t[1]))
                elif t[0] == 'p': setd(d, 'E.ld(%s,8)' % a)
                else: raise Unsupported('load ' + str(t))
            elif op == 'store':
                t, v, a, vol = x
                v = val(v); a = val(a)
                if t[0] not in ('i', 'p'): raise Unsupported('store ' + str(t))
                n = (width(t) + 7) // 8
                L.append('E.st(%s,%d,%s)' % (a, n, v))
                if vol: L.append('E.volatile(%s,%d,%s)' % (a, n, v))
            elif op == 'rmw':
                o, t, a, v = x
                if t[0] != 'i' or t[1] % 8: raise Unsupported('atomicrmw ' + str(t))
                a = val(a); v = val(v); w = t[1]; n = w // 8
                old = pv(d) if d is not None else '_rmw'
                if d is not None: setd(d, 'E.ld(%s,%d)' % (a, n))
                else: L.append('_rmw=E.ld(%s,%d)' % (a, n))
                new = {'xchg': v, 'add': 'addw(%s,%s,%d)' % (old, v, w), 'sub': 'subw(%s,%s,%d)' % (old, v, w),
                       'and': 'and_(%s,%s)' % (old, v), 'or': 'or_(%s,%s)' % (old, v), 'xor': 'xor(%s,%s)' % (old, v)}[o]
                L.append('E.st(%s,%d,%s)' % (a, n, new))
            elif op == 'gep':
                bt, base, idx = x
                b = val(base)
                off = 0; terms = []
                cur = bt; first = True
                for t, v in idx:
                    if first:
                        s = sizeof(cur); first = False
                        if v[0] == 'k':
                            kk = v[1]
                            if kk >> (t[1] - 1): kk -= 1 << t[1]
                            off += kk * s
                        else: terms.append((val(v), s))
                    else:
                        if v[0] == 'k':
                            o, cur = field(cur, v[1]); off += o
                        else:
                            s = sizeof(cur[2]); terms.append((val(v), s)); cur = cur[2]
                if not terms:
                    setd(d, '%s+%d if %s.__class__ is int else gep(%s,%d)' % (b, off, b, b, off) if not isk(b) else str(int(b) + off))
                else:
                    ex = b; exs = b
                    cl = [] if isk(b) else ['%s.__class__ is int' % b]
                    for (v, s) in terms:
                        ex += '+%s*%d' % (v, s) if s != 1 else '+' + v
                        exs = 'gepi(%s,%s,%d)' % (exs, v, s)
                        if not isk(v): cl.append('%s.__class__ is int' % v)
                    if off: ex += '+%d' % off; exs = 'gep(%s,%d)' % (exs, off)
                    setd(d, '(%s)&0xffffffffffffffff if %s else %s' % (ex, ' and '.join(cl) or 'True', exs))
            elif op == 'select':
                cnd, t, a, b = x
                cnd = val(cnd); a = val(a); b = val(b)
                setd(d, '(%s if %s else %s) if %s.__class__ is int else E.select(%s,%s,%s)' % (a, cnd, b, cnd, cnd, a, b) if not isk(cnd) else (a if int(cnd) else b))
            elif op == 'extractvalue':
                t, v, ix = x
                setd(d, val(v) + ''.join('[%d]' % q for q in ix))
            elif op == 'insertvalue':
                t, v, w, ix = x
                setd(d, 'insv(%s,%s,%s,%d)' % (val(v), val(w), tuple(ix), len(t[1]) if t[0] == 's' else t[1]))
            elif op == 'freeze':
                setd(d, val(x))
            elif op == 'fence': L.append('E.fence()')
            elif op == 'landingpad': raise Unsupported('landingpad')
            elif op == 'br':
                L.append('return %d' % edge(i, bidx[x]))
            elif op == 'cbr':
                cnd, a, b = x
                cnd = val(cnd)
                a = edge(i, bidx[a]); b = edge(i, bidx[b])
                L.append('if %s.__class__ is int: return %d if %s else %d' % (cnd, a, cnd, b))
                L.append('return (0,%s,%d,%d)' % (cnd, a, b))
            elif op == 'switch':
                t, v, dflt, cs = x
                v = val(v)
                D = {kk: edge(i, bidx[b]) for kk, b in cs}
                dd = edge(i, bidx[dflt])
                kn = cname(D)
                L.append('if %s.__class__ is int: return %s.get(%s,%d)' % (v, kn, v, dd))
                L.append('return (3,%s,%s,%d)' % (v, kn, dd))
            elif op == 'ret':
                t, v = x
                L.append('return (2,%s)' % ('None' if v is None else val(v)))
            elif op == 'unreachable':
                L.append('return (4,)')
            elif op == 'call':
                rt, callee, args, nd = x
                av = [val(v) for _, v in args]
                if inline_call(x):
                    emit_intrinsic(L, setd, d, callee[1:], av, args, rt)
                else:
                    cs = CallSite()
                    cs.ret = slot.get(d) if d else None
                    cs.nxt = seg_of_block[bidx[nd]] if nd else si + 1
                    cs.fn = fn
                    cs.loc = c or callee
                    cs.target = None
                    if nd: cs.nxt = edge(i, bidx[nd])
                    if callee[0] == '@':
                        cs.target = prog.resolve(mod, callee)
                        L.append('return (1,%s,(%s))' % (cname(cs), ''.join(a + ',' for a in av)))
                    else:
                        L.append('return (5,%s,(%s),%s)' % (cname(cs), ''.join(a + ',' for a in av), val(('r', callee))))
            else:
                raise Unsupported('codegen ' + op)
        return L
    for si in range(len(segs)):
        L = emit_segment(si)
        src.append('def s%d(R,E):\n' % si + ''.join('  ' + l + '\n' for l in L))
    # edges (may be added while emitting)
    done = 0
    el = list(edges.items())
    for (i, j), k in sorted(el, key=lambda z: z[1]):
        li = blocks[i][0]
        phis = [(d, x) for d, op, x, c in blocks[j][1] if op == 'phi']
        asg = []
        for d, (t, ins) in phis:
            v = None
            for vv, b in ins:
                if b == li: v = vv
            if v is None: raise Unsupported('phi edge')
            if v[0] == 'r': e = 'R[%d]' % slot[v[1]]
            elif v[0] == 'k': e = str(v[1])
            elif v[0] == 'u': e = 'None'
            elif v[0] == 'g': e = str(prog.addr(mod, v[1]) + v[2])
            elif v[0] == 'z' : e = '0' if v[1][0] in 'ip' else None
            elif v[0] == 'agg': e = '(' + ''.join(('R[%d]' % slot[w[1]] if w[0] == 'r' else ('None' if w[0] == 'u' else str(w[1]))) + ',' for t2, w in v[1]) + ')'
            else: raise Unsupported('phi value')
            asg.append((slot[d], e))
        body = '  ' + ';'.join('t%d=%s' % (q, e) for q, (s, e) in enumerate(asg)) + '\n'
        body += '  ' + ';'.join('R[%d]=t%d' % (s, q) for q, (s, e) in enumerate(asg)) + '\n'
        src.append('def s%d(R,E):\n%s  return %d\n' % (k, body, seg_of_block[j]))
    from . import rt
    env = dict(rt.ENV)
    env.update(consts)
    code = re.sub(r'(?<![\w.])\d+\.__class__ is int', 'True', ''.join(src))
    exec(compile(code, '<%s>' % fn.dem[:60], 'exec'), env)
    n = len(segs) + len(edges)
    fn.segs = [env['s%d' % k] for k in range(n)]
    # per-segment block info
    fn.seg_block = [s[0] for s in segs] + [None] * len(edges)
    for (i, j), k in edges.items():
        fn.seg_block[k] = i
    fn.edge_src = {k: i for (i, j), k in edges.items()}
    fn.edge_dst = {k: j for (i, j), k in edges.items()}
    fn.seg_of_block = seg_of_block
    fn.ipdom = ipdom
    fn.nblocks = nb
    fn.doomed = doomed
    fn.nregs = len(slot)
    fn.params = [slot[nm] for (t, s, nm, bv) in fn.sig[1]]
    fn.block_names = [b[0] for b in blocks]
    fn.panic_msg = {}
    for i, (lab, ins) in enumerate(blocks):
        if doomed[i]:
            for d, op, x, c in ins:
                if op == 'call' and x[1][0] == '@':
                    fn.panic_msg[i] = (c or x[1]).replace('call ', '')
    fn.src = None
    fn.sites = sum(1 for i in range(nb) if not doomed[i] for t in sc[i] if doomed[t])

def seg_target_block(fn, seg):
    """block index a segment id (possibly an edge) leads to"""
    if seg in fn.edge_dst: return fn.edge_dst[seg]
    return fn.seg_block[seg]

def compute_ipdom(succ, nb):
    """immediate post-dominators; node nb is the exit; None if none"""
    n = nb + 1
    pred = [[] for _ in range(n)]
    for i in range(nb):
        for s in succ[i]: pred[s].append(i)
    # reverse postorder from exit on reversed graph
    order = []; seen = [False] * n
    st = [(nb, iter(pred[nb]))]; seen[nb] = True
    while st:
        v, it = st[-1]
        for w in it:
            if not seen[w]:
                seen[w] = True
                st.append((w, iter(pred[w])))
                break
        else:
            order.append(v); st.pop()
    rpo = order[::-1]
    num = {v: i for i, v in enumerate(rpo)}
    idom = {nb: nb}
    ch = True
    while ch:
        ch = False
        for v in rpo[1:]:
            new = None
            for s in succ[v]:
                if s in idom:
                    if new is None: new = s
                    else:
                        a, b = new, s
                        while a != b:
                            while num[a] > num[b]: a = idom[a]
                            while num[b] > num[a]: b = idom[b]
                        new = a
            if new is not None and idom.get(v) != new:
                idom[v] = new; ch = True
    return [idom.get(i) for i in range(nb)]

def inline_call(x):
    rt, callee, args, nd = x
    return callee.startswith('@llvm.')

def emit_intrinsic(L, setd, d, nm, av, args, rt):
    if nm.startswith(NOOP_INTR): return
    w = None
    for t, _ in args:
        if t[0] == 'i': w = t[1]; break
    if nm.startswith('llvm.memcpy') or nm.startswith('llvm.memmove'):
        L.append('E.memcpy(%s,%s,%s)' % (av[0], av[1], av[2]))
        if av[3] != '0': L.append('E.volatile_range(%s,%s)' % (av[0], av[2]))
    elif nm.startswith('llvm.memset'):
        L.append('E.memset(%s,%s,%s)' % (av[0], av[1], av[2]))
        if av[3] != '0': L.append('E.volatile_range(%s,%s)' % (av[0], av[2]))
    elif '.with.overflow' in nm:
        o = nm.split('.')[1]
        setd(d, 'ovf_%s(%s,%s,%d)' % (o, av[0], av[1], w))
    elif nm.startswith('llvm.uadd.sat'): setd(d, 'uaddsat(%s,%s,%d)' % (av[0], av[1], w))
    elif nm.startswith('llvm.usub.sat'): setd(d, 'usubsat(%s,%s,%d)' % (av[0], av[1], w))
    elif nm.startswith('llvm.ctpop'): setd(d, 'popc(%s)' % av[0])
    elif nm.startswith('llvm.fshl'): setd(d, 'fsh(%s,%s,%s,%d,0)' % (av[0], av[1], av[2], w))
    elif nm.startswith('llvm.fshr'): setd(d, 'fsh(%s,%s,%s,%d,1)' % (av[0], av[1], av[2], w))
    elif nm.startswith('llvm.bswap'): setd(d, 'bswap(%s,%d)' % (av[0], w))
    elif nm.startswith('llvm.bitreverse'): setd(d, 'bitrev(%s,%d)' % (av[0], w))
    elif nm.startswith('llvm.cttz'): setd(d, 'cttz(%s,%d)' % (av[0], w))
    elif nm.startswith('llvm.ctlz'): setd(d, 'ctlz(%s,%d)' % (av[0], w))
    elif nm.startswith('llvm.umin'): setd(d, 'umin(%s,%s)' % (av[0], av[1]))
    elif nm.startswith('llvm.umax'): setd(d, 'umax(%s,%s)' % (av[0], av[1]))
    elif nm.startswith('llvm.ucmp'): setd(d, 'ucmp(%s,%s,%d)' % (av[0], av[1], rt[1]))
    elif nm.startswith('llvm.is.constant'): setd(d, '0')
    elif nm.startswith('llvm.expect'): setd(d, av[0])
    elif nm.startswith('llvm.trap'): L.append('E.trap()')
    elif nm.startswith('llvm.threadlocal') : raise Unsupported(nm)
    else: L.append('E.unsupported(%r)' % nm)

class Extern:
    def __init__(self, name, dem): self.name = name; self.dem = dem; self.hook = None
    def __repr__(self): return '<extern %s>' % self.name

GBASE = 1 << 20
FBASE = 1 << 24

class Program:
    """all modules; address space of globals and functions"""
    def __init__(self, paths):
        self.modules = []
        self.ginfo = {}      # alloc id -> (module, name)
        self.faddr = {}      # id(func) -> address
        self.fby = {}        # alloc id -> Func/Extern
        self.gcount = 0
        self.externs = {}
        self.gmap = {}
        for p in paths: self.modules.append(Module(p, self))
        self.by_name = {}
        for m in self.modules:
            for n, f in m.funcs.items():
                self.by_name.setdefault(n, f)
        self.all_funcs = [f for m in self.modules for f in m.funcs.values()]
        self.gobj = {}
    def resolve(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None: return f
        a = mod.aliases.get(name)
        if a is not None: return self.resolve(mod, a)
        f = self.by_name.get(name)
        if f is not None: return f
        for m in self.modules:
            if name in m.aliases: return self.resolve(m, m.aliases[name])
        e = self.externs.get(name)
        if e is None:
            e = self.externs[name] = Extern(name[1:], demangle(name[1:]))
        return e
    def fingerprint(self, roots):
        """digest of everything reachable from roots, up to symbol names and metadata: equal digests = the same program"""
        import hashlib
        idx = {}; todo = []
        def ref(mod, name):
            if name in mod.funcs or name in mod.decls or name in mod.aliases:
                o = self.resolve(mod, name)
                if isinstance(o, Extern): return '@extern:' + re.sub(r'17h[0-9a-f]{16}E|Cs[0-9A-Za-z]+_', '', name)
                k = id(o)
            else:
                o = self.ginfo[self.addr(mod, name) >> 32]; k = (o[0].path, o[1])
            if k not in idx: idx[k] = len(idx); todo.append(o)
            return '@%d' % idx[k]
        h = hashlib.sha256()
        for f in roots:
            if id(f) not in idx: idx[id(f)] = len(idx); todo.append(f)
        i = 0
        while i < len(todo):
            o = todo[i]; i += 1
            if isinstance(o, tuple): m = o[0]; lines = [m.globals[o[1]]]
            else: m = o.mod; lines = [o.header] + o.body
            t = '\n'.join(lines)
            t = re.sub(r'(?m)\s*;.*$', '', t) if not isinstance(o, tuple) else t
            if isinstance(o, tuple): t = re.sub(r', (align \d+|section "[^"]*"|comdat(\([^)]*\))?|!\w+ !\d+)', '', t)
            else: t = re.sub(r'(,\s*![A-Za-z_.]+ !\d+)|( ![A-Za-z_.]+ !\d+)|( ?#\d+)|(, comdat(\([^)]*\))?)|(\b(dso_local|internal|hidden|private|local_unnamed_addr|unnamed_addr|linkonce_odr)\b ?)', '', t)
            t = re.sub(r'@(?:"[^"]*"|[-A-Za-z0-9_.$]+)', lambda x: ref(m, x.group(0)), t)
            loc = {}
            t = re.sub(r'(?m)^("[^"]*"|[-A-Za-z0-9_.$]+):', r'%\1:', t)
            t = re.sub(r'%(?:"[^"]*"|[-A-Za-z0-9_.$]+)', lambda x: '%%%d' % loc.setdefault(x.group(0).replace('"', ''), len(loc)), t)
            h.update(t.encode()); h.update(b'\0')
        return h.hexdigest()
    def addr(self, mod, name):
        if name in mod.funcs or (name in mod.decls) or name in mod.aliases:
            f = self.resolve(mod, name)
            return self.func_addr(f)
        m = mod
        if name not in m.globals:
            for m2 in self.modules:
                if name in m2.globals: m = m2; break
            else: raise Unsupported('unknown global ' + name)
        rest = m.globals[name]
        if rest.startswith('external'):
            for m2 in self.modules:
                if name in m2.globals and not m2.globals[name].startswith('external'): m = m2; break
        k = (m.path, name)
        a = self.gmap.get(k)
        if a is None:
            self.gcount += 1
            a = self.gmap[k] = GBASE + self.gcount
            self.ginfo[a] = (m, name)
        return a << 32
    def func_addr(self, f):
        a = self.faddr.get(f)
        if a is None:
            a = self.faddr[f] = FBASE + len(self.faddr)
            self.fby[a] = f
        return a << 32
    def global_cells(self, aid):
        """initial bytes of a global: list of cells, constant flag"""
        m, name = self.ginfo[aid]
        rest = m.globals[name]
        rest = re.sub(r', (align \d+|section "[^"]*"|comdat(\([^)]*\))?|!\w+ !\d+)', '', rest)
        p = P(tokenize(rest), m)
        const = False
        while True:
            x = p.next()
            if x == 'constant': const = True; break
            if x == 'global': break
        t = p.type()
        v = p.value(t)
        cells = []
        self._bytes(m, t, v, cells)
        return cells, const
    def _bytes(self, m, t, v, out):
        n = sizeof(t)
        if v[0] == 'str': out.extend(v[1]); return
        if v[0] == 'z': out.extend([0] * n); return
        if v[0] == 'u': out.extend([None] * n); return
        if v[0] == 'k': out.extend(v[1].to_bytes(n, 'little')); return
        if v[0] == 'g': out.extend((self.addr(m, v[1]) + v[2]).to_bytes(8, 'little')); return
        if v[0] == 'agg':
            st = len(out)
            packed = t[0] != 's' or t[2]
            for et, ev in v[1]:
                if not packed:
                    a = alignof(et)
                    while (len(out) - st) % a: out.append(0)
                self._bytes(m, et, ev, out)
            while len(out) - st < n: out.append(0)
            return
        raise Unsupported('initializer')

_dem = {}
def demangle(s):
    r = _dem.get(s)
    if r is None:
        import subprocess
        try: r = subprocess.run(['c++filt', s], capture_output=True, text=True).stdout.strip() or s
        except OSError: r = s
        _dem[s] = r
    return r
