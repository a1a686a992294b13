"""Sponge functions of fips202.c and fips202x4.c, for every message and every length.

Each function runs over the contract of the Keccak permutation with a symbolic length and streams of
symbolic bytes.  Loops over whole blocks are closed by an inferred invariant (difference of two visits
of the same program point: byte counters move by the consumed amount Z, the length by what is left, the
state is `the specified state after Z bytes`), which is then checked to be inductive.  A path that ends
has a known number of bytes, and its final state and output are compared with the byte-wise sponge."""
import time
import numpy as np
from . import term as t, contracts as C, proto, spec, leaf, execu, smt
from .term import T, Vec, UNDEF
from .execu import X, Violation, Aborted, short
from .ir import Unsupported

LMAX = (1 << 62) - 1
BIG = 1 << 40
L = t.var('len', 64, lo=0, hi=LMAX)
Mv = t.var('rest', 64, lo=0, hi=LMAX)
Z = t.var('moved', 64)          # bytes processed before the current visit of a loop head
ZU = t.var('movedu', 64)        # the same in blocks, when the length counts blocks
M64 = t.M(64)


class SymLen(Unsupported):
    pass


class DivLen(Unsupported):
    """the code divides the length by a block size"""
    def __init__(self, b):
        Unsupported.__init__(self, 'division of the length by %d' % b)
        self.b = b


class Refuted(Exception):
    """exact path: the function's result differs from the specification for this length"""
    def __init__(self, msg, n=None):
        Exception.__init__(self, msg)
        self.n = n


# ---------------------------------------------------------------- byte-wise sponge
def xor_bytes(st, p, bs):
    st = list(st)
    i = 0
    while i < len(bs):
        ln, o = divmod(p + i, 8)
        n = min(8 - o, len(bs) - i)
        parts = ([(0, 8 * o)] if o else []) + [(b, 8) for b in bs[i:i + n]] + ([(0, 8 * (8 - o - n))] if o + n < 8 else [])
        st[ln] = t.xor(st[ln], t.cat(parts), 64)
        i += n
    return st


def s_absorb(pr, st, p, bs, r):
    i = 0
    while i < len(bs):
        n = min(r - p, len(bs) - i)
        st = xor_bytes(st, p, bs[i:i + n])
        i += n
        p += n
        if p == r:
            st = proto.kperm(pr, st)
            p = 0
    return st, p


def s_final(st, p, r, dom):
    return xor_bytes(xor_bytes(st, p, [dom]), r - 1, [0x80])


def s_squeeze(pr, st, p, n, r):
    out = []
    while len(out) < n:
        if p == r:
            st = proto.kperm(pr, st)
            p = 0
        k = min(r - p, n - len(out))
        for i in range(p, p + k):
            out.append(t.ext(st[i // 8], 8 * (i % 8), 8, 64))
        p += k
    return out, st, p


# ---------------------------------------------------------------- interval sets
def norm(iv):
    iv = sorted((a, b) for a, b in iv if a <= b)
    out = []
    for a, b in iv:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def inter(p, q):
    return norm([(max(a, c), min(b, d)) for a, b in p for c, d in q])


def compl(p):
    out = []
    x = 0
    for a, b in norm(p):
        if a > x:
            out.append((x, a - 1))
        x = b + 1
    if x <= M64:
        out.append((x, M64))
    return out


def shift(p, c):
    """{v : v + c mod 2^64 in p}"""
    out = []
    for a, b in p:
        a, b = (a - c) & M64, (b - c) & M64
        if a <= b:
            out.append((a, b))
        else:
            out += [(a, M64), (0, b)]
    return norm(out)


def lin2(v, memo=None):
    """v = sum of coef*atom + const modulo 2^64: ({atom: coef}, const)"""
    if type(v) is int:
        return {}, v & M64
    if v.op in ('add', 'sub') and v.w == 64:
        (p, a), (q, b) = lin2(v.a[0]), lin2(v.a[1])
        s = 1 if v.op == 'add' else -1
        r = dict(p)
        for k, c in q.items():
            c = (r.get(k, 0) + s * c) & M64
            if c:
                r[k] = c
            else:
                r.pop(k, None)
        return r, (a + s * b) & M64
    if v.op == 'mul' and v.w == 64 and type(v.a[1]) is int:
        p, a = lin2(v.a[0])
        r = {k: c * v.a[1] & M64 for k, c in p.items()}
        return {k: c for k, c in r.items() if c}, a * v.a[1] & M64
    if v.op == 'cat' and v.w == 64 and len(v.a) == 2 and type(v.a[0]) is int and type(v.a[1]) is T:
        # const + 2^k * x, as it is normalised
        y, k = v.a[1], v.p[0]
        if y.op == 'ext' and y.p == 0 and y.a[0].w == 64:
            p, a = lin2(y.a[0])
            r = {j: c << k & M64 for j, c in p.items()}
            return {j: c for j, c in r.items() if c}, ((a << k) + v.a[0]) & M64
    return {v: 1}, 0


def lin(v, var):
    """v = c*var + const with c in {0,1}: (c, const), or None"""
    p, b = lin2(v)
    if not p:
        return 0, b
    if len(p) == 1 and p.get(var) == 1:
        return 1, b
    return None


def canon(v):
    """equal linear terms of 64 bits get the same form"""
    if type(v) is not T or v.w != 64 or v.op not in ('add', 'sub', 'mul', 'cat'):
        return v
    p, b = lin2(v)
    if any(c not in (1, M64) for c in p.values()):
        r = 0
        for k, c in sorted(p.items(), key=lambda z: z[0].id):
            r = t.add(r, t.mul(k, c, 64), 64)
        return t.add(r, b, 64)
    r = 0
    for k, c in sorted(p.items(), key=lambda z: z[0].id):
        if c == 1:
            r = t.add(r, k, 64)
    for k, c in sorted(p.items(), key=lambda z: z[0].id):
        if c != 1:
            r = t.sub(r, k, 64)
    return t.add(r, b, 64)


def unmoved(a, b, zmin, eq):
    """cancel the moved amount on both sides of a comparison; zmin: its least value (bytes, blocks)"""
    (p, c), (q, d) = lin2(a), lin2(b)
    for z, m in ((Z, zmin[0]), (ZU, zmin[1])):
        if p.get(z) == 1 and q.get(z) == 1:
            if not eq and not (t.signed(c, 64) + m >= 0 and t.signed(d, 64) + m >= 0):
                return None
            if not eq and any(k not in (z, Mv) or x != 1 for w in (p, q) for k, x in w.items()):
                return None
            p, q = dict(p), dict(q)
            del p[z], q[z]
            # Z + c and Z + Mv + d stay below 2^63, so the order is that of c and Mv + d as integers
            if not eq and (t.signed(c, 64) < 0 or t.signed(d, 64) < 0):
                c, d = (c + m) & M64, (d + m) & M64
    return (p, c), (q, d)


def scaled(op, a, b):
    """values v with a0*v + a1 OP b0*v + b1, one side constant; v is a number of blocks, so a0*v is below 2^62"""
    if a[0] and b[0]:
        return None
    c, k = (a[0], a[1]) if a[0] else (b[0], b[1])
    k = t.signed(k, 64)
    if abs(k) >> 61:
        return None

    def within(lo, hi):
        """lo <= c*v + k <= hi"""
        lo, hi = -((k - lo) // c), (hi - k) // c
        return norm([(max(lo, 0), min(hi, LMAX // c))])
    K = b[1] if a[0] else a[1]
    big = (1 << 63) - 1
    if op == 'eq':
        K = t.signed(K, 64)
        return within(K, K)
    if op == 'ult':
        if a[0]:
            return within(0, min(K - 1, big)) if K <= big else None
        return inter(compl(within(0, K)), [(0, LMAX // c)]) if K <= big else None
    K = t.signed(K, 64)
    return within(-big, K - 1) if a[0] else within(K + 1, big)


def truth(c, var, zmin=(0, 0)):
    """set of values of var for which the 1-bit term is 1, or None"""
    if type(c) is int:
        return [(0, M64)] if c else []
    if c.op == 'xor' and len(c.a) == 2 and c.a[1] == 1:
        p = truth(c.a[0], var, zmin)
        return None if p is None else compl(p)
    if c.op in ('eq', 'ult', 'slt') and c.p == 64:
        u = unmoved(c.a[0], c.a[1], zmin, c.op == 'eq')
        if u is None:
            return None
        ab = []
        for p, k in u:
            if not p:
                ab.append((0, k))
            elif len(p) == 1 and 1 <= p.get(var, 0) < 4096:
                ab.append((p[var], k))
            else:
                return None
        a, b = ab
        if a[0] > 1 or b[0] > 1:
            return scaled(c.op, a, b)
        if a[0] and b[0]:
            return None
        if c.op == 'eq':
            if not a[0]:
                a, b = b, a
            return shift([(b[1], b[1])], a[1])
        if c.op == 'ult':
            if a[0]:
                return shift([(0, b[1] - 1)], a[1]) if b[1] else []
            return shift([(a[1] + 1, M64)], b[1]) if a[1] < M64 else []
        H = 1 << 63
        if a[0]:
            # x + a <s b : (x + a + 2^63) <u b + 2^63
            k = b[1] ^ H
            return shift([(0, k - 1)], a[1] + H) if k else []
        k = a[1] ^ H
        return shift([(k + 1, M64)], b[1] + H) if k < M64 else []
    return None


def zlin(v, unit=1):
    """v = Z + const ? -> const"""
    p, b = lin2(v)
    if len(p) == 1 and (p.get(Z) == 1 or p.get(ZU) == unit):
        return b
    return None


class XS(X):
    """executor with unbounded input/output streams and one symbolic length"""
    def __init__(self, prog):
        X.__init__(self, prog)
        self.streams = {}
        self.lv = L
        self.zmin = (0, 0)
        self.unit = 1
        self.mset = [(0, LMAX)]
        self.tail = None
        self.pow2 = False
        self.rel = False
        self.rd = {}
        self.out = {}
        self.visits = {}
        self.g = None

    def clone(self):
        y = X.clone(self)
        y.rd = dict(self.rd)
        y.out = {a: dict(d) for a, d in self.out.items()}
        y.visits = {a: b[:] for a, b in self.visits.items()}
        return y

    def stream(self, kind, name):
        base = (self.nextobj << 32) + 0x10001
        self.nextobj += 1
        self.streams[base >> 32] = (kind, name, base)
        if kind == 'in':
            self.rd[name] = 0
        else:
            self.out[name] = {}
        return base

    def sat(self, addr):
        """(stream, offset) addressed, or None"""
        if type(addr) is int:
            s = self.streams.get(addr >> 32)
            if s is None:
                return None
            if self.rel:
                raise Unsupported('absolute stream address after generalisation')
            off = addr - s[2]
        else:
            c = zlin(addr, self.unit)
            if c is None:
                return None
            s = self.streams.get(c >> 32)
            if s is None:
                return None
            off = c - s[2]
        if off < 0:
            raise Violation('memory', 'access before the start of %s' % s[1], self.where())
        return s, off

    def inb(self, name, j):
        return t.var('%s%s:%d' % ('r' if self.rel else '', name, j), 8)

    def load(self, addr, n, al=1):
        s = self.sat(addr)
        if s is None:
            return X.load(self, addr, n, al)
        (kind, name, base), off = s
        if al > 1:
            raise Violation('alignment', 'aligned read of a byte stream', self.where())
        if kind == 'out':
            d = self.out[name]
            return t.cat([(d[off + i] if off + i in d else t.fresh('uninit', 8, undef=True), 8) for i in range(n)])
        if off + n > self.rd[name]:
            self.rd[name] = off + n
        return t.cat([(self.inb(name, off + i), 8) for i in range(n)])

    def store(self, addr, v, n, al=1):
        s = self.sat(addr)
        if s is None:
            return X.store(self, addr, v, n, al)
        (kind, name, base), off = s
        if al > 1:
            raise Violation('alignment', 'aligned write to a byte stream', self.where())
        if kind == 'in':
            raise Violation('frame', 'write to input %s' % name, self.where())
        d = self.out[name]
        for i in range(n):
            d[off + i] = t.ext(v, 8 * i, 8, 8 * n)

    def loadv(self, addr, nb, ew, al):
        if self.sat(addr) is None:
            return X.loadv(self, addr, nb, ew, al)
        if al > 1:
            raise Violation('alignment', 'aligned read of a byte stream', self.where())
        b = ew // 8
        return Vec(ew, [self.load(t.add(addr, i, 64), b) for i in range(0, nb, b)])

    def storev(self, addr, v, nb, al):
        if self.sat(addr) is None:
            return X.storev(self, addr, v, nb, al)
        if al > 1:
            raise Violation('alignment', 'aligned write to a byte stream', self.where())
        b = v.ew // 8
        for i, z in enumerate(v.l):
            self.store(t.add(addr, i * b, 64), z, b)

    def memcpy(self, d, s, n):
        if type(n) is int and n and (self.sat(s) or self.sat(d)):
            for i in range(n):
                self.store(t.add(d, i, 64), self.load(t.add(s, i, 64), 1), 1)
            return
        if type(n) is T:
            p, k = lin2(n)
            n = self.concretise(n) if p else k
            return self.memcpy(d, s, n)
        X.memcpy(self, d, s, n)

    def concretise(self, v):
        if len(self.mset) == 1 and self.mset[0][0] == self.mset[0][1]:
            r = t.subst([v], {self.lv: self.mset[0][0]}, canon)[0]
            if type(r) is T:
                raise Unsupported('copy of %s bytes' % t.show(r, 3))
            return r
        raise SymLen('symbolic length in a copy')

    def divop(self, op, a, b, w):
        if type(a) is T and type(b) is int and w == 64 and b > 1 and (self.pow2 or b & (b - 1)) and op in ('udiv', 'urem'):
            p, k = lin2(a)
            k = t.signed(k, 64)
            if set(p) <= {self.lv, Z, ZU}:
                if any(c % b or c >> 12 for c in p.values()):
                    raise DivLen(b)
                lo = min(m[0] for m in self.mset) if self.mset else 0
                if self.tail is not None and sum(c * (lo if y is self.lv else self.zmin[1]) for y, c in p.items()) + k >= 0 and set(p) <= {self.lv, ZU}:
                    if op == 'urem':
                        return k % b
                    r = k // b & M64
                    for y, c in sorted(p.items(), key=lambda z: z[0].id):
                        r = t.add(r, t.mul(y, c // b, 64), 64)
                    return r
        return t.divop(op, a, b, w)

    def pick(self, c):
        """decide a condition on the length"""
        if t.flags(c) & UNDEF:
            raise Violation('uninit', 'branch depends on uninitialised memory', self.where())
        p = truth(c, self.lv, self.zmin)
        if p is None:
            return None
        a = inter(self.mset, p)
        b = inter(self.mset, compl(p))
        if not b:
            return True
        if not a:
            return False
        return None

    def branch(self, c):
        self.events.append(('branch', t.flags(c), self.where(), None))
        r = self.pick(c)
        if r is not None:
            return r
        return None

    def setlen(self, n):
        env = {self.lv: n}

        def g(v):
            if type(v) is Vec:
                return Vec(v.ew, [g(z) for z in v.l])
            if type(v) is T and self.lv in t.support(v):
                return t.subst([v], env, canon)[0]
            return v
        for fr in self.frames:
            fr.R = [g(v) for v in fr.R]
        for oid, o in list(self.mem.items()):
            if o.ro or o.tag == 'const':
                continue
            ch = [(k, g(v), n_) for k, (v, n_) in o.cells.items() if type(v) is T and self.lv in t.support(v)]
            if ch:
                o = self.wobj(o)
                for k, v, n_ in ch:
                    o.cells[k] = (v, n_)
        self.mset = [(n, n)]

    def size(self):
        return sum(b - a + 1 for a, b in self.mset)


class Gen:
    pass


def same(a, b):
    return a is b or (type(a) is int and type(b) is int and a == b) or \
        (type(a) is Vec and type(b) is Vec and a.ew == b.ew and all(same(p, q) for p, q in zip(a.l, b.l)))


class Fn:
    """one sponge function under contract"""
    # kind: absorb | once | squeeze | blocks | digest
    def __init__(self, w, pr, fname, kind, r, dom=None, lanes=1, dlen=None, stlen=208):
        self.w, self.pr, self.fname, self.kind, self.r, self.dom, self.lanes, self.dlen = w, pr, fname, kind, r, dom, lanes, dlen
        self.stlen = stlen
        self.unit = r if kind == 'blocks' else 1
        self.tail = None         # length = r * (number of blocks) + tail, when the code divides it
        self.fix = None          # one concrete length
        self.G = {}
        self.paths = 0
        self.closed = 0
        self.maxover = 0

    def mkx(self, S, p):
        x = XS(self.w.prog)
        x.contracts = self.H
        x.unit = self.unit
        x.steps = 0
        x.deadline = self.end
        n = self.lanes
        ln = L
        if self.tail is not None:
            x.tail = self.tail
            x.mset = [(0, LMAX // self.unit - 1)]
            ln = t.add(t.mul(L, self.unit, 64), self.tail, 64)
        if self.fix is not None:
            ln = self.fix
            x.mset = [(ln, ln)]
            x.deadline = min(self.end, time.time() + 4)
        self.p0 = p
        self.S0 = S
        if self.kind != 'digest':
            st = x.new(self.stlen, 32 if n == 4 else 8, 'state')
            self.stid = st.id
            if S is not None:
                for l in range(n):
                    for i in range(25):
                        x.store(st.base + 8 * (n * i + l), S[l][i], 8)
            if p is not None and n == 1:
                x.store(st.base + 200, p, 4)
        sfx = [str(l) for l in range(n)]
        if self.kind == 'absorb':
            args = [st.base, x.stream('in', 'in0'), ln]
        elif self.kind == 'once':
            args = [st.base] + [x.stream('in', 'in' + s) for s in sfx] + [ln]
        elif self.kind in ('squeeze', 'blocks'):
            args = [x.stream('out', 'out' + s) for s in sfx] + [ln, st.base]
        else:
            h = x.new(self.dlen, 1, 'h')
            self.hid = h.id
            args = [h.base, x.stream('in', 'in0'), ln]
        f = self.w.prog.funcs.get(self.w.name(self.fname))
        if f is None:
            raise Unsupported('no function ' + self.fname)
        if len(f.params) != len(args):
            raise Unsupported('signature of ' + self.fname)
        x.push(f, args, -1)
        return x

    # ------------------------------------------------ relation
    def amount(self, x):
        """bytes consumed / produced since the start of the region (same for all lanes)"""
        d = x.rd if self.kind in ('absorb', 'once', 'digest') else {a: (max(d) + 1 if d else 0) for a, d in x.out.items()}
        return max(d.values())

    def lanes_of(self, x):
        n = self.lanes
        if self.kind == 'digest':
            raise Unsupported('no state object')
        b = x.mem[self.stid].base
        return [[x.load(b + 8 * (n * i + l), 8) for i in range(25)] for l in range(n)]

    def start(self, x):
        if x.g is not None:
            return x.g.S, x.g.p
        S = self.S0
        if S is None:
            S = [[0] * 25 for _ in range(self.lanes)]
        return S, self.p0 or 0

    def expect(self, x, c):
        """specified lanes and position after c bytes of this region, plus expected output"""
        S, p = self.start(x)
        out = []
        res = []
        q = p
        for l in range(self.lanes):
            if self.kind in ('absorb', 'once', 'digest'):
                s, q = s_absorb(self.pr, S[l], p, [x.inb('in%d' % l, j) for j in range(c)], self.r)
            else:
                o, s, q = s_squeeze(self.pr, S[l], p, c, self.r)
                out.append(o)
            res.append(s)
        return res, q, out

    def checkout(self, x, c, out):
        if self.kind in ('squeeze', 'blocks'):
            for l in range(self.lanes):
                d = x.out['out%d' % l]
                if set(d) != set(range(c)):
                    ex = sorted(set(d) ^ set(range(c)))
                    return 'output bytes written are not exactly 0..%d (first difference at %d)' % (c - 1, ex[0])
                for j in range(c):
                    if d[j] is not out[l][j]:
                        return 'output byte %d of lane %d is %s, specified %s' % (j, l, t.show(d[j], 3), t.show(out[l][j], 3))
        return None

    def findstate(self, x, lanes):
        """address of the object part that holds the given lanes (digest functions keep the state in a local)"""
        if self.kind != 'digest':
            b = x.mem[self.stid].base
            return b if self.lanes_eq(self.lanes_of(x), lanes) is None else None
        for oid, o in x.mem.items():
            if o.ro or o.tag in ('const', 'global') or o.size < 200:
                continue
            c = o.cells.get(0)
            if c is None or c[1] != 8:
                continue
            if all(o.cells.get(8 * i, (None, 0))[1] == 8 and same(o.cells[8 * i][0], lanes[0][i]) for i in range(25)):
                return o.base
        return None

    def lanes_eq(self, a, b):
        for l in range(len(a)):
            for i in range(25):
                if not same(a[l][i], b[l][i]):
                    return l, i
        return None

    # ------------------------------------------------ exploration
    def live(self, x):
        o = []
        for d, fr in enumerate(x.frames):
            ret = x.frames[d + 1].ret if d + 1 < len(x.frames) else -1
            for r in fr.f.live[fr.seg]:
                v = fr.R[r]
                if v is not None and r != ret:
                    o.append((d, r, v))
        return o

    def key(self, x):
        return tuple((id(f.f), f.seg) for f in x.frames)

    def cells(self, x, skip):
        res = {}
        for oid, o in x.mem.items():
            if o.ro or o.tag in ('const', 'global'):
                continue
            for k, (v, n) in o.cells.items():
                if skip is not None and skip <= o.base + k < skip + 200 * self.lanes:
                    continue
                res[(oid, k, n)] = v
        return res

    def pos(self, x, c):
        """specified position after c bytes of this region"""
        p = self.start(x)[1]
        if self.kind in ('absorb', 'once', 'digest'):
            return (p + c) % self.r
        return p if not c else (p + c - 1) % self.r + 1

    def header(self, x):
        """unbounded side of a fork: True when the state is covered by an invariant"""
        k = self.key(x)
        c = self.amount(x)
        q = self.pos(x, c)
        G = self.G.get((k, q))
        x.forks_ = getattr(x, 'forks_', 0) + 1
        if x.forks_ > 3000:
            raise Unsupported('no loop invariant found')
        vs = x.visits.get((k, q), [])
        if G is None and (x.g is not None or not vs):
            x.visits[(k, q)] = vs + [(self.live(x), self.cells(x, None), c)]
            return False
        lanes, q, out = self.expect(x, c)
        sb = self.findstate(x, lanes)
        if sb is None:
            raise Unsupported('the state after %d bytes is not the specified one at a loop head' % c)
        w = self.checkout(x, c, out)
        if w:
            raise Unsupported('at a loop head: ' + w)
        regs = self.live(x)
        if G is not None:
            why = self.instance(x, G, regs, c, sb)
            if why == 'memory differs':
                # weaken: cells outside the state that are not the same on every visit are arbitrary
                cc = self.cells(x, sb)
                bad = [kk for kk, v in G.cells.items() if kk not in cc or not same(cc[kk], v)]
                if any(type(G.cells[kk]) is T and t.support(G.cells[kk]) & {Z, ZU} for kk in bad):
                    raise Unsupported('loop invariant is not inductive: ' + why)
                if all(kk in cc for kk in bad):
                    for kk in bad:
                        del G.cells[kk]
                        G.havoc.add(kk)
                    why = self.instance(x, G, regs, c, sb)
                    if why is None:
                        self.work.append(self.instantiate(x, G))
            if why is None:
                self.closed += 1
                return True
            raise Unsupported('loop invariant is not inductive: ' + why)
        v3 = (regs, self.cells(x, None), c)
        G = self.infer(x, k, q, vs[-1], v3, sb)
        if G is None:
            if len(vs) > 4:
                raise Unsupported('no loop invariant found')
            x.visits[(k, q)] = vs + [v3]
            return False
        self.G[(k, q)] = G
        why = self.instance(x, G, regs, c, sb)
        if why is not None:
            raise Unsupported('inferred invariant does not cover the state: ' + why)
        self.work.append(self.instantiate(x, G))
        return True

    def lt(self, v, lv):
        """v = lv - a: a"""
        if type(v) is not T:
            return None
        a = lin(v, lv)
        return None if a is None or a[0] != 1 else -a[1] & M64

    def infer(self, x, k, q, v2, v3, sb):
        r2, m2, c2 = v2
        r3, m3, c3 = v3
        obj = x.mem[sb >> 32]
        reg = (sb >> 32, sb - obj.base, sb - obj.base + 200 * self.lanes)
        out_ = lambda m: {kk: v for kk, v in m.items() if not (kk[0] == reg[0] and reg[1] <= kk[1] < reg[2])}
        m2, m3 = out_(m2), out_(m3)
        G = Gen()
        G.k, G.p, G.c = k, q, c3
        G.d = c3 - c2
        if G.d <= 0 or [(a, b) for a, b, _ in r2] != [(a, b) for a, b, _ in r3]:
            return None
        G.regs = []
        G.a3 = None
        rest = []
        for (d, r, a), (_, _, b) in zip(r2, r3):
            rw = x.frames[d].f.regw.get(r) or 64
            e = self.gen1(G, a, b, rw, rest)
            if e is None:
                return None
            G.regs.append((d, r, e))
        G.cnt = G.a3 is None
        if G.cnt:
            # nothing counts down: what is left is the length minus the amount processed
            if c3 % self.unit or x.g is not None or not rest:
                return None
            G.a3, G.dl = c3 // self.unit, G.d // self.unit
        # other occurrences of the length: L = rest + Z + (a3 - c3), when it is counted in bytes
        if rest:
            if G.dl * self.unit != G.d or c3 % self.unit:
                return None
            env = {x.lv: t.add(t.add(Mv, ZU if self.unit > 1 else Z, 64), (G.a3 - c3 // self.unit) & M64, 64)}
            G.regs = [(d, r, self.mapv(e, lambda v: canon(t.subst([v], env)[0]) if type(v) is T and x.lv in t.support(v) else v)) for d, r, e in G.regs]
        G.havoc = set()
        G.cells = {}
        for kk in set(m2) | set(m3):
            a, b = m2.get(kk), m3.get(kk)
            if a is not None and b is not None and same(a, b) and not (type(b) is T and x.lv in t.support(b)):
                G.cells[kk] = b
            elif type(a) is int and type(b) is int and kk[2] == 8 and self.gen1(G, a, b, 64, []) is not None:
                G.cells[kk] = self.gen1(G, a, b, 64, [])
            else:
                G.havoc.add(kk)
        G.mset = [(a - G.a3, b) for a, b in x.mset if b >= BIG and a >= G.a3]
        if len(G.mset) != 1:
            return None
        G.mset = [(G.mset[0][0], LMAX if self.tail is None else LMAX // self.unit - 1)]
        G.sb = sb
        G.off = c3 - G.a3 * self.unit
        G.S = [[t.var('H%d_%d' % (l, i), 64) for i in range(25)] for l in range(self.lanes)]
        return G

    def mapv(self, v, f):
        return Vec(v.ew, [f(z) for z in v.l]) if type(v) is Vec else f(v)

    def gen1(self, G, a, b, rw, rest):
        if type(a) is Vec or type(b) is Vec:
            if type(a) is not Vec or type(b) is not Vec or a.ew != b.ew:
                return None
            o = [self.gen1(G, p, q, a.ew, rest) for p, q in zip(a.l, b.l)]
            return None if any(z is None for z in o) else Vec(a.ew, o)
        la, lb = self.lt(a, L), self.lt(b, L)
        if la is not None and lb is not None:
            if la == lb:
                rest.append(1)
                return b
            dl = (lb - la) & M64
            if G.a3 is None:
                G.a3, G.dl = lb, dl
            if G.dl != dl:
                return None
            return t.add(Mv, (G.a3 - lb) & M64, 64)
        if same(a, b):
            if type(b) is T and L in t.support(b):
                rest.append(1)
            return b
        if type(a) is int and type(b) is int and rw == 64 and b - a == G.d:
            return t.add(Z, (b - G.c) & M64, 64)
        if type(a) is int and type(b) is int and rw == 64 and self.unit > 1 and (b - a) * self.unit == G.d and G.c % self.unit == 0:
            return t.add(ZU, (b - G.c // self.unit) & M64, 64)
        return None

    def instance(self, x, G, regs, c, sb):
        if sb != G.sb:
            return 'state moved'
        if [(d, r) for d, r, _ in G.regs] != [(d, r) for d, r, _ in regs]:
            return 'different live registers'
        lv = x.lv
        # value of `rest` and of Z in this state
        rest = None
        zc = t.add(Z, c, 64) if x.g is not None else c
        for (d, r, e), (_, _, v) in zip(G.regs, regs):
            if e is Mv:
                rest = v
        if rest is None:
            for (d, r, e), (_, _, v) in zip(G.regs, regs):
                if type(e) is T and lin(e, Mv) and lin(e, Mv)[0] == 1:
                    rest = t.add(v, -lin(e, Mv)[1] & M64, 64) if type(v) is T else (v - lin(e, Mv)[1]) & M64
        if rest is None and G.cnt:
            a = c - (0 if x.g is not None else G.off)
            if a % self.unit:
                return 'a part of a block is processed'
            rest = t.add(lv, -(a // self.unit) & M64, 64)
        if rest is None:
            return 'no remaining-length register'
        env = {Mv: rest, Z: zc}
        if self.unit > 1:
            if c % self.unit:
                return 'a part of a block is processed'
            env[ZU] = t.add(ZU, c // self.unit, 64) if x.g is not None else c // self.unit
        def f(e):
            if type(e) is T and any(z in t.support(e) for z in env):
                return canon(t.subst([e], env)[0])
            return e
        for (d, r, e), (_, _, v) in zip(G.regs, regs):
            if not same(self.mapv(e, f), self.mapv(v, canon)):
                return 'register %s is %s, invariant %s' % (r, t.show(v, 3) if type(v) is T else v, e)
        cc = self.cells(x, sb)
        for kk, v in G.cells.items():
            if kk not in cc or not same(canon(cc[kk]) if kk[2] == 8 and type(cc[kk]) is T else cc[kk], f(v)):
                return 'memory differs'
        # range of the remaining length
        a = self.lt(rest, lv)
        if a is None:
            return 'remaining length is ' + t.show(rest, 3)
        if c != t.signed(a, 64) * self.unit + (0 if x.g is not None else G.off):
            return 'amount processed does not match the remaining length'
        for lo, hi in x.mset:
            lo2, hi2 = lo - a, hi - a
            if not any(p <= lo2 and hi2 <= q for p, q in G.mset):
                return 'remaining length in [%d,%d]' % (lo2, hi2)
        return None

    def instantiate(self, x, G):
        y = x.clone()
        y.g = G
        y.rel = True
        y.lv = Mv
        y.zmin = (G.c, G.c // self.unit)
        y.mset = G.mset[:]
        y.rd = {a: 0 for a in y.rd}
        y.out = {a: {} for a in y.out}
        y.visits = {}
        for d, r, e in G.regs:
            y.frames[d].R[r] = e
        for d, fr in enumerate(y.frames):
            ok = {r for e, r, _ in G.regs if d == e}
            for r in range(len(fr.R)):
                if r not in ok:
                    fr.R[r] = None
        for kk in G.havoc:
            oid, k, n = kk
            if oid in y.mem and y.mem[oid].cells.get(k, (0, 0))[1] == n:
                y.store(y.mem[oid].base + k, t.fresh('havoc', 8 * n), n)
        for (oid, k, n), e in G.cells.items():
            if type(e) is T and oid in y.mem and y.mem[oid].cells.get(k, (0, 0))[1] == n:
                y.store(y.mem[oid].base + k, e, n)
        n = self.lanes
        for l in range(n):
            for i in range(25):
                y.store(G.sb + 8 * (n * i + l), G.S[l][i], 8)
        return y

    def explore(self, x):
        self.work = [x]
        while self.work:
            x = self.work.pop()
            if time.time() > self.end:
                raise Unsupported('time limit')
            r = x.step_until_fork()
            if r is None:
                self.paths += 1
                self.final(x)
                continue
            c, et, ef = r
            p = truth(c, x.lv, x.zmin)
            if p is None:
                if x.size() > 400:
                    raise Unsupported('condition on the length: ' + t.show(c, 3))
                # few lengths left: take them one by one, from this point
                fr = x.frames[-1]
                for a, b in x.mset:
                    for n in range(a, b + 1):
                        y = x.clone()
                        y.setlen(n)
                        v = t.subst([c], {x.lv: n}, canon)[0]
                        if type(v) is not int:
                            raise Unsupported('condition ' + t.show(v, 3))
                        y.take(et if v else ef)
                        self.work.append(y)
                continue
            sides = []
            for s, e in ((p, et), (compl(p), ef)):
                m = inter(x.mset, s)
                if m:
                    sides.append((m, e))
            for n, (m, e) in enumerate(sides):
                y = x if n == len(sides) - 1 else x.clone()
                y.mset = m
                y.take(e)
                if m[-1][1] >= BIG and self.header(y):
                    continue
                if 1 < y.size() <= self.split:
                    for a, b in y.mset:
                        for v in range(a, b + 1):
                            z = y.clone()
                            z.setlen(v)
                            self.work.append(z)
                    continue
                self.work.append(y)

    def final(self, x):
        c = self.amount(x)
        unit = self.unit
        off = x.g.off if x.g is not None else 0
        if self.kind in ('once', 'absorb', 'digest') and self.lanes == 4 and x.mset[0][0] == x.mset[-1][1]:
            # gathers read up to 7 bytes past the end
            n = x.mset[0][0] - off
            if c - 7 <= n <= c:
                self.maxover = max(self.maxover, c - n)
                c = n
        n, bad = divmod(c + off - (self.tail or 0), unit)
        if x.mset != [(n, n)] or bad:
            n = next((v for a, b in x.mset for v in (a, b) if v * unit != c + off), 0)
            self.refute(x, 'of %d %s, %d bytes are %s' % (n, 'blocks' if unit > 1 else 'bytes', c, 'consumed' if x.rd else 'written'), n)
        lanes, q, out = self.expect(x, c)
        if self.kind in ('once', 'digest'):
            lanes = [s_final(s, q, self.r, self.dom) for s in lanes]
            q = self.r
        wv = self.checkout(x, c, out)
        if wv:
            self.refute(x, wv, c // unit)
        if self.kind == 'digest':
            o, _, _ = s_squeeze(self.pr, lanes[0], self.r, self.dlen, self.r)
            b = x.mem[self.hid].base
            for i in range(self.dlen):
                v = x.load(b + i, 1)
                if not same(v, o[i]):
                    self.refute(x, 'digest byte %d of a %d-byte message is %s, specified %s' % (i, c, t.show(v, 3) if type(v) is T else v, t.show(o[i], 3)), c)
            return
        d = self.lanes_eq(self.lanes_of(x), lanes)
        if d:
            self.refute(x, 'state word %d (lane %d) after %d %s differs from the specification' % (d[1], d[0], c // unit, 'blocks' if unit > 1 else 'bytes'), c // unit)
        if self.lanes == 1:
            v = x.load(x.mem[self.stid].base + 200, 4)
            if not same(v, q):
                self.refute(x, 'position after %d bytes is %s, specified %d' % (c // unit, t.show(v, 3) if type(v) is T else v, q), c // unit)

    def refute(self, x, msg, n):
        if x.rel:
            raise Unsupported('after the inferred invariant: ' + msg)
        raise Refuted(msg, n)

    def explore_div(self, S, p):
        """every length as r * blocks + tail, for each tail"""
        self.unit = self.r
        try:
            for self.tail in range(self.r):
                for self.split in (0, 8, 400):
                    self.G = {}
                    try:
                        self.explore(self.mkx(S, p))
                        break
                    except SymLen:
                        if self.split == 400:
                            raise
                    except Refuted as e:
                        if e.n is not None:
                            e.n = e.n * self.r + self.tail
                        raise
        finally:
            self.unit, self.tail = 1, None

    def run(self, S, ps, seconds):
        self.end = time.time() + seconds
        self.H = proto.keccak_handlers(self.pr)
        try:
            self.every(S, ps)
        except Refuted:
            raise
        except Unsupported as e:
            self.narrow(S, ps[0])
            raise e

    def narrow(self, S, p):
        """not provable for every length: single lengths beyond the usual machine widths"""
        self.G, self.split = {}, 0
        end = self.end = time.time() + 30
        for w in (32, 16, 31, 8):
            for d in (0, 1, 5) if self.unit > 1 else (1, self.r + 3):
                self.fix = (1 << w) + d
                try:
                    self.explore(self.mkx(S, p))
                except Refuted as e:
                    if e.n == self.fix:
                        e.p = p
                        raise
                except Exception:
                    pass
                finally:
                    self.fix = None

    def every(self, S, ps):
        for p in ps:
            try:
                known = dict(self.G)
                for self.split in (0, 8, 400):
                    self.G = dict(known)
                    try:
                        self.explore(self.mkx(S, p))
                        break
                    except SymLen:
                        if self.split == 400:
                            raise
                    except DivLen as e:
                        if e.b != self.r or self.unit != 1:
                            raise
                        self.explore_div(S, p)
                        self.G = known
                        break
            except Refuted as e:
                e.p = p
                raise
            except Aborted:
                raise Refuted('abort() is reached')


def sym_state(lanes=1):
    return [[t.var('S%d_%d' % (l, i), 64) for i in range(25)] for l in range(lanes)]


# ---------------------------------------------------------------- one-shot functions over the callees' contracts
QV = t.var('blocks', 64, lo=0, hi=(1 << 53) - 1)
INL = t.var('inlen', 64, lo=0, hi=LMAX)


class XO(X):
    def __init__(self, prog, r):
        X.__init__(self, prog)
        self.r = r
        self.strm = {}
        self.outb = {}
        self.cover = {}

    def mkstream(self, name):
        base = (self.nextobj << 32) + 0x10001
        self.nextobj += 1
        self.strm[base >> 32] = (name, base)
        if name.startswith('out'):
            self.outb[name] = {}
            self.cover[name] = []
        return base

    def lin(self, v):
        """v = a*r*QV + b -> (a,b)"""
        if type(v) is int:
            return 0, v
        b = 0
        if v.op == 'add' and type(v.a[1]) is int:
            v, b = v.a[0], v.a[1]
        if v is t.mul(QV, self.r, 64):
            return 1, b
        return None

    def sat(self, addr):
        l = self.lin(addr)
        if l is None:
            return None
        s = self.strm.get(l[1] >> 32)
        return None if s is None else (s[0], l[0], t.signed((l[1] - s[1]) & M64, 64))

    def divop(self, op, a, b, w):
        if b == self.r and w == 64 and type(a) is T:
            l = self.lin(a)
            if l is not None and l[0] == 1 and l[1] < 1 << 20:
                return t.add(QV, l[1] // b, 64) if op == 'udiv' else l[1] % b if op == 'urem' else t.divop(op, a, b, w)
        return t.divop(op, a, b, w)

    def load(self, addr, n, al=1):
        if self.sat(addr):
            raise Unsupported('reads a stream outside the sponge functions')
        return X.load(self, addr, n, al)

    def loadv(self, addr, nb, ew, al):
        if self.sat(addr):
            raise Unsupported('reads a stream outside the sponge functions')
        return X.loadv(self, addr, nb, ew, al)

    def store(self, addr, v, n, al=1):
        s = self.sat(addr)
        if s is None:
            return X.store(self, addr, v, n, al)
        nm, a, j = s
        if nm not in self.outb:
            raise Violation('frame', 'write to input ' + nm, self.where())
        for i in range(n):
            self.outb[nm][(a, j + i)] = t.ext(v, 8 * i, 8, 8 * n)

    def storev(self, addr, v, nb, al):
        if self.sat(addr) is None:
            return X.storev(self, addr, v, nb, al)
        b = v.ew // 8
        for i, z in enumerate(v.l):
            self.store(t.add(addr, i * b, 64), z, b)

    def memcpy(self, d, s, n):
        if type(n) is int and n and self.sat(d):
            for i in range(n):
                self.store(t.add(d, i, 64), self.load(s + i, 1), 1)
            return
        X.memcpy(self, d, s, n)


def xo(lane, a, j):
    return t.uf('xo', 8, (lane, a, j))


def oneshot(w, fname, v, r, lanes, seconds=120):
    """shake128/256(x4): for every input length and every output length r*blocks + rest"""
    f = w.prog.funcs.get(w.name(fname))
    x4 = 'x4' if lanes == 4 else ''
    end = time.time() + seconds
    ev = []

    def setup(tt):
        x = XO(w.prog, r)
        x.deadline = end
        st = dict(addr=None, pos=None, phase=None)
        x.ghost = st
        ins = [x.mkstream('in%d' % l) for l in range(lanes)]
        outs = [x.mkstream('out%d' % l) for l in range(lanes)]

        def state(x, a, phase):
            g = x.ghost
            if g.get('addr') != a or g.get('phase') != phase:
                raise Unsupported('%s state used out of order' % fname)
            return g

        def whole(x, a, n):
            if list(a) != ins or n is not INL:
                raise Unsupported('input is not absorbed in one call')

        def once(x, args):
            whole(x, args[1:1 + lanes], args[1 + lanes])
            C.need_align(x, args[0], 32 if lanes == 4 else 8, 'absorb_once')
            x.obj(args[0], 800 if lanes == 4 else 208, 'write (in absorb_once)')
            for i in range(25 * lanes):
                x.store(args[0] + 8 * i, t.fresh('lane', 64), 8)
            if lanes == 1:
                x.store(args[0] + 200, r, 4)
            x.ghost = dict(addr=args[0], pos=(0, 0), phase='squeeze')

        def init(x, args):
            x.ghost = dict(addr=args[0], pos=None, phase='init')

        def absorb(x, args):
            g = state(x, args[0], 'init')
            whole(x, args[1:2], args[2])
            x.ghost = dict(addr=args[0], pos=None, phase='absorbed')

        def final(x, args):
            state(x, args[0], 'absorbed')
            x.ghost = dict(addr=args[0], pos=(0, 0), phase='squeeze')

        def put(x, outp, na, nb):
            """na*r*QV + nb bytes from the current position"""
            a, j = x.ghost['pos']
            for l in range(lanes):
                s = x.sat(outp[l])
                if s is None:
                    if na:
                        raise Unsupported('unbounded output into a local')
                    for i in range(nb):
                        x.store(outp[l] + i, xo(l, a, j + i), 1)
                    continue
                nm, sa, sj = s
                if nm not in x.outb:
                    raise Violation('frame', 'write to input', x.where())
                if na:
                    if a or sa:
                        raise Unsupported('symbolic number of blocks twice')
                    x.cover[nm] = x.cover[nm] + [(sj, j, nb, l)]
                else:
                    d = dict(x.outb[nm])
                    for i in range(nb):
                        d[(sa, sj + i)] = xo(l, a, j + i)
                    x.outb[nm] = d
            x.ghost = dict(x.ghost, pos=(a + na, j + nb))

        def blocks(x, args):
            g = state(x, args[lanes + 1], 'squeeze')
            if g['pos'][1] % r:
                raise Unsupported('whole blocks squeezed from the middle of one')
            n = args[lanes]
            if type(n) is int:
                put(x, args[:lanes], 0, n * r)
            elif n is QV:
                put(x, args[:lanes], 1, 0)
            elif n.op == 'add' and n.a[0] is QV and type(n.a[1]) is int and n.a[1] < 8:
                put(x, args[:lanes], 1, n.a[1] * r)
            else:
                raise Unsupported('number of blocks')

        def squeeze(x, args):
            state(x, args[2], 'squeeze')
            n = x.lin(args[1])
            if n is None or n[1] >> 32:
                raise Unsupported('number of bytes')
            put(x, args[:1], *n)
        p = 'shake%s%s_' % (v, x4)
        x.contracts = {p + 'absorb_once': once, p + 'squeezeblocks': blocks}
        if lanes == 1:
            x.contracts.update({p + 'squeeze': squeeze, p + 'init': init, p + 'absorb': absorb, p + 'finalize': final})
        ol = t.add(t.mul(QV, r, 64), tt, 64)
        x.push(f, outs + [ol] + ins + [INL], -1)
        return x

    for tt in range(r):
        x = setup(tt)
        if x.step_until_fork() is not None:
            raise Unsupported('branch on the number of blocks')
        for l in range(lanes):
            nm = 'out%d' % l
            d = dict(x.outb[nm])
            cv = x.cover[nm]
            j0 = 0
            if len(cv) != 1:
                raise Unsupported('whole blocks are not produced by one call')
            sj, j, nb, ll = cv[0]
            # bytes [sj, r*QV + sj + nb) hold stream bytes [j, r*QV + j + nb)
            if ll != l or sj != j:
                raise Refuted('output %d receives lane %d from byte %d of the stream at offset %d' % (l, ll, j, sj), r + tt)
            want = {(0, i) for i in range(sj)} | {(1, i) for i in range(sj + nb, tt)}
            if set(d) - want or want - set(d) or sj + nb > tt:
                raise Refuted('output bytes written after the whole blocks are not exactly %d' % tt, r + tt)
            for q in want:
                if d[q] is not xo(l, *q):
                    raise Refuted('output %d byte %d after the whole blocks is %s' % (l, q[1], t.show(d[q], 2)), r + tt)
    return r * lanes


# ---------------------------------------------------------------- native side
ALG = {'128': ('shake128', 168), '256': ('shake256', 136)}


def hexpect(alg, msg, n):
    import hashlib
    h = {'shake128': hashlib.shake_128, 'shake256': hashlib.shake_256, 'sha3_256': hashlib.sha3_256, 'sha3_512': hashlib.sha3_512}[alg](msg)
    return h.digest(n) if alg.startswith('shake') else h.digest()


GUARD = 32


def hrun(impl, c):
    """perform a hash case natively: list of outputs (None when memory after an output was touched).
    c: dict(alg, mode, msgs, parts, outs)"""
    import ctypes
    from . import native
    F = lambda n: native.sym(impl, c.get('k', 2), n)
    P = ctypes.c_void_p
    Z_ = ctypes.c_size_t
    alg, mode = c['alg'], c['mode']
    msgs = [bytes(m) for m in c.get('msgs', ())]

    def buf(n):
        return native.Buf(bytes(n) + b'\xa5' * GUARD, off=c.get('oo', 1))

    def res(b, n):
        d = b.bytes()
        return d[:n] if d[n:] == b'\xa5' * GUARD else None
    if mode == 'huge':
        return huge(F, c)
    mb = [native.Buf(m + b'\x3c' * 16, off=c.get('io', 1)) for m in msgs]
    if mode == 'oneshot':
        if alg.startswith('sha3'):
            n = 32 if alg == 'sha3_256' else 64
            o = buf(n)
            F(alg)(o.ptr, mb[0].ptr, Z_(len(msgs[0])))
        else:
            n = c['outs'][0]
            o = buf(n)
            F(alg)(o.ptr, Z_(n), mb[0].ptr, Z_(len(msgs[0])))
        return [res(o, n)]
    if mode == 'x4':
        n = c['outs'][0]
        os_ = [buf(n) for _ in range(4)]
        F(alg + 'x4')(*[o.ptr for o in os_], Z_(n), *[b.ptr for b in mb], Z_(len(msgs[0])))
        return [res(o, n) for o in os_]
    r = 168 if alg == 'shake128' else 136
    if mode == 'x4blocks':
        st = native.Buf(bytes([0x77]) * 800)
        F(alg + 'x4_absorb_once')(st.ptr, *[b.ptr for b in mb], Z_(len(msgs[0])))
        tot = [b''] * 4
        for nb in c['outs']:
            os_ = [buf(nb * r) for _ in range(4)]
            F(alg + 'x4_squeezeblocks')(*[o.ptr for o in os_], Z_(nb), st.ptr)
            for l in range(4):
                d = res(os_[l], nb * r)
                if d is None:
                    return [None] * 4
                tot[l] += d
        return tot
    # incremental: parts = lengths of the absorb calls ([] : absorb_once); outs: lengths of squeezes, ('b', blocks) for whole blocks
    st = native.Buf(bytes([0x77]) * 208)
    if c['parts'] is None:
        F(alg + '_absorb_once')(st.ptr, mb[0].ptr, Z_(len(msgs[0])))
    else:
        F(alg + '_init')(st.ptr)
        o = 0
        for n in c['parts']:
            F(alg + '_absorb')(st.ptr, P(mb[0].p + o), Z_(n))
            o += n
        F(alg + '_finalize')(st.ptr)
    tot = b''
    for n in c['outs']:
        if isinstance(n, (list, tuple)):
            b = buf(n[1] * r)
            F(alg + '_squeezeblocks')(b.ptr, Z_(n[1]), st.ptr)
            d = res(b, n[1] * r)
        else:
            b = buf(n)
            F(alg + '_squeeze')(b.ptr, Z_(n), st.ptr)
            d = res(b, n)
        if d is None:
            return [None]
        tot += d
    return [tot]


def hwant(c):
    if c['mode'] == 'huge':
        return hugewant(c)
    r = 168 if c['alg'] == 'shake128' else 136
    n = sum(x[1] * r if isinstance(x, (list, tuple)) else x * r if c['mode'] == 'x4blocks' else x for x in c['outs']) if c.get('outs') else 0
    return [hexpect(c['alg'], bytes(m), n) for m in c['msgs']]


def huge(F, c):
    """one call with a length of gigabytes: zero bytes in, or an output region that is only looked at in places.
    Returns the digest, or the beginning and the end of the output"""
    import ctypes, mmap
    fn, alg, n, p = c['fn'], c['alg'], c['n'], c.get('p') or 0
    Z_, P = ctypes.c_size_t, ctypes.c_void_p
    pg = 1 << 20

    def region(n):
        lc = ctypes.CDLL(None, use_errno=True)
        lc.mmap.restype = ctypes.c_void_p
        lc.mmap.argtypes = [P, Z_, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        a = lc.mmap(None, n, 3, 0x4022, -1, 0)       # private, anonymous, noreserve
        if a in (None, 2 ** 64 - 1):
            raise RuntimeError('mmap')
        return a
    st = ctypes.create_string_buffer(1024)
    sp = P((ctypes.addressof(st) + 63) & ~63)
    if c['io'] == 'in':
        m = region(n + 64)
        o = ctypes.create_string_buffer(64)
        if fn.startswith('sha3'):
            F(fn)(o, P(m), Z_(n))
            return [o.raw[:32 if fn == 'sha3_256' else 64]]
        if 'x4' in fn:
            os_ = [ctypes.create_string_buffer(200) for _ in range(4)]
            if fn == alg + 'x4':
                F(fn)(*os_, Z_(32), *[P(m)] * 4, Z_(n))
            else:
                F(alg + 'x4_absorb_once')(sp, *[P(m)] * 4, Z_(n))
                F(alg + 'x4_squeezeblocks')(*os_, Z_(1), sp)
            return [x.raw[:32] for x in os_]
        if fn == alg:
            F(fn)(o, Z_(32), P(m), Z_(n))
            return [o.raw[:32]]
        if fn.endswith('_absorb_once'):
            F(fn)(sp, P(m), Z_(n))
        else:
            F(alg + '_init')(sp)
            if p:
                F(alg + '_absorb')(sp, P(m), Z_(p))
            F(alg + '_absorb')(sp, P(m), Z_(n))
            F(alg + '_finalize')(sp)
        F(alg + '_squeeze')(o, Z_(32), sp)
        return [o.raw[:32]]
    r = 168 if alg == 'shake128' else 136
    nb = n * (r if fn.endswith('blocks') else 1)
    i = ctypes.create_string_buffer(bytes(range(33)), 40)
    ln = 4 if 'x4' in fn else 1
    full = nb <= 1 << 33
    os_ = [region(nb + 4096 if full else 1 << 31) for _ in range(ln)]
    ps = [P(a) for a in os_]
    if fn == alg:
        F(fn)(ps[0], Z_(n), i, Z_(33))
    elif fn == alg + 'x4':
        F(fn)(*ps, Z_(n), i, i, i, i, Z_(33))
    elif 'x4' in fn:
        F(alg + 'x4_absorb_once')(sp, i, i, i, i, Z_(33))
        F(fn)(*ps, Z_(n), sp)
    else:
        F(alg + '_absorb_once')(sp, i, Z_(33))
        if p:
            F(alg + '_squeeze')(ctypes.create_string_buffer(p), Z_(p), sp)
        F(fn)(ps[0], Z_(n), sp)
    return [ctypes.string_at(a, pg) + (b'' if not full else bytes([any(ctypes.string_at(a + nb - 64, 64))])) for a in os_]


def hugewant(c):
    import hashlib
    alg, n, p = c['alg'], c['n'], c.get('p') or 0
    lanes = 4 if 'x4' in c['fn'] else 1
    if c['io'] == 'in':
        h = getattr(hashlib, alg.replace('shake', 'shake_'))()
        z = bytes(1 << 24)
        k = n + p
        while k:
            h.update(z[:min(k, len(z))])
            k -= min(k, len(z))
        return [h.digest(32) if alg.startswith('shake') else h.digest()] * lanes
    r = 168 if alg == 'shake128' else 136
    d = hexpect(alg, bytes(range(33)), (1 << 20) + p)[p:]
    return [d + (b'\1' if n * (r if c['fn'].endswith('blocks') else 1) <= 1 << 33 else b'')] * lanes


def hdiff(impl, c):
    """description of the difference, or None"""
    got, want = hrun(impl, c), hwant(c)
    for l, (g, x) in enumerate(zip(got, want)):
        if g is None:
            return '%s writes past its output buffer' % hname(c)
        if g != x:
            i = next((i for i in range(min(len(g), len(x))) if g[i] != x[i]), min(len(g), len(x)))
            return '%s: output %d differs from FIPS 202 at byte %d: got %s, expected %s' % (hname(c), l, i, g[i:i + 4].hex(), x[i:i + 4].hex())
    return None


def hname(c):
    if c['mode'] == 'huge':
        return '%s with %s %d%s' % (c['fn'], 'a message of zero bytes, length' if c['io'] == 'in' else 'output blocks' if c['fn'].endswith('blocks') else 'output length', c['n'],
                                    ' at position %d' % c['p'] if c.get('p') else '')
    ml = len(c['msgs'][0])
    if c['mode'] == 'oneshot':
        return '%s of %d bytes%s' % (c['alg'], ml, ', %d bytes out' % c['outs'][0] if c.get('outs') else '')
    if c['mode'] == 'x4':
        return '%sx4 of %d bytes, %d bytes out' % (c['alg'], ml, c['outs'][0])
    if c['mode'] == 'x4blocks':
        return '%sx4_absorb_once(%d bytes), squeezeblocks%s' % (c['alg'], ml, c['outs'])
    return '%s absorbing %s bytes, squeezing %s' % (c['alg'], c['parts'] if c['parts'] is not None else '%d (once)' % ml, c['outs'])


def cases(rnd, x4, which=None):
    """bounded sample of call sequences: every length around the block boundaries"""
    if x4:
        for alg, r in ALG.values():
            for n in list(range(0, 2 * r + 10)) + [3 * r - 1, 3 * r, 3 * r + 1, 5 * r + 3]:
                for o in (32, r, rnd.randrange(3 * r)):
                    yield dict(alg=alg, mode='x4', msgs=[rnd.randbytes(n) for _ in range(4)], outs=[o])
            for o in range(0, 3 * r + 2):
                yield dict(alg=alg, mode='x4', msgs=[rnd.randbytes(33) for _ in range(4)], outs=[o])
            for n in (0, 1, 33, 34, r - 1, r, r + 1):
                for bs in ([1], [2], [3], [1, 1], [2, 1, 1], [3, 2], [0, 1]):
                    yield dict(alg=alg, mode='x4blocks', msgs=[rnd.randbytes(n) for _ in range(4)], outs=bs)
        return
    for alg, r in (('sha3_256', 136), ('sha3_512', 72)):
        for n in list(range(0, 3 * r + 3)) + [1184, 1568, 4096]:
            yield dict(alg=alg, mode='oneshot', msgs=[rnd.randbytes(n)])
    for alg, r in ALG.values():
        for n in range(0, 3 * r + 3):
            for o in (32, rnd.randrange(2 * r)):
                yield dict(alg=alg, mode='oneshot', msgs=[rnd.randbytes(n)], outs=[o])
        for o in range(0, 4 * r + 3):
            yield dict(alg=alg, mode='oneshot', msgs=[rnd.randbytes(33)], outs=[o])
        for n in range(0, 2 * r + 3):
            yield dict(alg=alg, mode='inc', parts=None, msgs=[rnd.randbytes(n)], outs=[('b', 1), 7])
        for n1 in range(0, r + 1):
            for n2 in {0, 1, 7, 8, r - n1 - 1, r - n1, r - n1 + 1, 2 * r - n1 - 1, 2 * r - n1, 2 * r - n1 + 1, rnd.randrange(2 * r)}:
                if n2 < 0:
                    continue
                n3 = rnd.choice((0, 1, rnd.randrange(r)))
                yield dict(alg=alg, mode='inc', parts=[n1, n2, n3], msgs=[rnd.randbytes(n1 + n2 + n3)], outs=[rnd.choice((8, 32, r))])
            for m2 in {0, 1, r - n1 - 1, r - n1, r - n1 + 1, 2 * r - n1, 2 * r - n1 + 1, rnd.randrange(2 * r)}:
                if m2 >= 0:
                    yield dict(alg=alg, mode='inc', parts=[5, 28], msgs=[rnd.randbytes(33)], outs=[n1, m2, rnd.choice((0, 1, rnd.randrange(r)))])
        for bs in ([('b', 1), ('b', 2)], [('b', 3), 5], [('b', 0), 1], [('b', 2), 1, 1]):
            yield dict(alg=alg, mode='inc', parts=[34], msgs=[rnd.randbytes(34)], outs=bs)


def deep(rnd, x4):
    """lengths beyond 16 bits"""
    for e in (1 << 16, 1 << 17):
        for d in (-1, 0, 1, 33):
            for alg, r in ALG.values():
                if x4:
                    yield dict(alg=alg, mode='x4', msgs=[rnd.randbytes(e + d) for _ in range(4)], outs=[32])
                    yield dict(alg=alg, mode='x4', msgs=[rnd.randbytes(33) for _ in range(4)], outs=[e + d])
                    yield dict(alg=alg, mode='x4blocks', msgs=[rnd.randbytes(33) for _ in range(4)], outs=[e // r + 1, 2])
                else:
                    yield dict(alg=alg, mode='oneshot', msgs=[rnd.randbytes(e + d)], outs=[32])
                    yield dict(alg=alg, mode='oneshot', msgs=[rnd.randbytes(33)], outs=[e + d])
                    yield dict(alg=alg, mode='inc', parts=[5, e + d - 5], msgs=[rnd.randbytes(e + d)], outs=[7, e + d])
            if not x4:
                for alg in ('sha3_256', 'sha3_512'):
                    yield dict(alg=alg, mode='oneshot', msgs=[rnd.randbytes(e + d)])


def hsearch(impl, gen, seconds):
    """(cases run, failing case, crash)"""
    import itertools, mmap, struct
    from . import native, search
    native.lib(impl, 2)
    at = mmap.mmap(-1, 8)       # number of the case being run, kept when the child dies

    def go():
        end = time.time() + seconds
        n = 0
        for c in gen:
            at[:8] = struct.pack('<Q', n)
            if hdiff(impl, c):
                return n + 1, c
            n += 1
            if time.time() > end:
                break
        return n, None
    r = search.isolated(go, seconds + 60)
    if r[0] == 'ok':
        return r[1][0], r[1][1], None
    if r[0] == 'error':
        raise RuntimeError(r[1])
    n, = struct.unpack('<Q', at[:8])
    return n + 1, next(itertools.islice(gen, n, None), None), r


def around(fname, e, rnd):
    """native call sequences at the length of a refuted path"""
    import itertools
    n, p = e.n or 0, getattr(e, 'p', None) or 0
    v = '256' if '256' in fname else '128'
    alg, r = ALG[v]
    if n >= 1 << 31:
        io = ['in'] if 'absorb' in fname or fname.startswith('sha3') else ['out'] if 'squeeze' in fname else ['out', 'in']
        for q in io:
            yield dict(mode='huge', fn=fname, alg=fname if fname.startswith('sha3') else alg, n=n, io=q, p=p)
        return
    n = min(n, 1 << 20)
    for d in (0, 1, -1, 2):
        m = max(0, n + d)
        if fname.startswith('sha3'):
            yield dict(alg=fname, mode='oneshot', msgs=[rnd.randbytes(m)])
        elif 'x4' in fname:
            if 'squeezeblocks' in fname:
                yield dict(alg=alg, mode='x4blocks', msgs=[rnd.randbytes(33) for _ in range(4)], outs=[m, 1])
            elif 'absorb' in fname:
                yield dict(alg=alg, mode='x4blocks', msgs=[rnd.randbytes(m) for _ in range(4)], outs=[2])
            else:
                yield dict(alg=alg, mode='x4', msgs=[rnd.randbytes(33) for _ in range(4)], outs=[m])
        elif fname.endswith('_absorb'):
            yield dict(alg=alg, mode='inc', parts=[p, m, 3], msgs=[rnd.randbytes(p + m + 3)], outs=[64])
            yield dict(alg=alg, mode='inc', parts=[p, m], msgs=[rnd.randbytes(p + m)], outs=[64])
        elif fname.endswith('_finalize'):
            yield dict(alg=alg, mode='inc', parts=[p], msgs=[rnd.randbytes(p)], outs=[64])
        elif fname.endswith('_squeeze'):
            yield dict(alg=alg, mode='inc', parts=[33], msgs=[rnd.randbytes(33)], outs=[p, m, 3])
            yield dict(alg=alg, mode='inc', parts=None, msgs=[rnd.randbytes(33)], outs=[p, m, 200])
        elif fname.endswith('_squeezeblocks'):
            yield dict(alg=alg, mode='inc', parts=None, msgs=[rnd.randbytes(33)], outs=[('b', m), ('b', 1)])
        elif fname.endswith('_absorb_once'):
            yield dict(alg=alg, mode='inc', parts=None, msgs=[rnd.randbytes(m)], outs=[('b', 2), 5])
        else:
            yield dict(alg=alg, mode='oneshot', msgs=[rnd.randbytes(33)], outs=[m])
            yield dict(alg=alg, mode='oneshot', msgs=[rnd.randbytes(m)], outs=[32])


# ---------------------------------------------------------------- jobs
def hworld(impl, rec, k=2, assume=True):
    from . import build
    w = C.World(build.prog(impl, k, only=lambda s: 'fips202' in s or 'keccak' in s.lower() or 'symmetric' in s), rec)
    w.assume_keccak = assume
    pr = C.Proto(w)
    pr.public = set()
    return w, pr


def settle(rec, impl, fname, name, e, x4):
    """a refuted or unsupported obligation: search the real functions for a failing call sequence"""
    import random, itertools
    rnd = random.Random(11)
    if isinstance(e, Unsupported):
        gen = deep(rnd, x4)
        if impl == 'ref' and fname in ('shake128', 'shake256'):
            gen = itertools.chain(gen, [dict(mode='huge', fn=fname, alg=fname, n=(1 << 32) + (1 << 20), io='out', p=0)])
    else:
        gen = itertools.chain(around(fname, e, rnd), cases(rnd, x4), deep(rnd, x4))
    n, c, crash = hsearch(impl, gen, 60)
    rec.bounded.append(('native call sequences against hashlib for %s' % fname, n))
    if c is not None:
        rec.bad(name, 'sponge VC' if isinstance(e, Refuted) else 'native execution', str(e), dict(hash=c, impl=impl))
    else:
        rec.unk(name, '%s; no call sequence shows a difference (%d tried)' % (e, n))


def job_sponge(rec, impl, fname, kind, r, ps=None, lanes=1, dom=None, dlen=None):
    w, pr = hworld(impl, rec)
    stlen = 800 if lanes == 4 else 208
    S = sym_state(lanes) if kind in ('absorb', 'squeeze', 'blocks') else None
    what = dict(absorb='state and position after absorbing any number of bytes', once='padded state for every message length',
                squeeze='output, state and position for every output length', blocks='output and state for every number of blocks',
                digest='digest of every message of every length')[kind]
    name = '%s %s: %s' % (impl, fname, what)
    fn = Fn(w, pr, fname, kind, r, dom=dom, lanes=lanes, dlen=dlen, stlen=stlen)
    t0 = time.time()
    rec.func(fname, impl)
    try:
        fn.run(S, ps or [None], 400)
        rec.ok(name + (', from positions %d..%d' % (ps[0], ps[-1]) if ps and len(ps) > 1 else ''), 'sponge VC, induction over blocks', fn.paths + fn.closed, time.time() - t0)
        if fn.maxover:
            rec.assume.add('the 4-way absorb functions read whole 8-byte words: each input buffer must be readable up to the next multiple of 8 bytes (the bytes past the message do not influence the result)')
    except (Refuted, Violation, Unsupported) as e:
        settle(rec, impl, fname, name, e, lanes == 4)


def job_small(rec, impl, x4=False):
    """init, finalize, one-shot composition, and the KEM's own uses"""
    w, pr = hworld(impl, rec)
    for v, r in (('128', 168), ('256', 136)):
        names = ['shake%sx4' % v] if x4 else ['shake' + v]
        for fname in names:
            name = '%s %s: whole output = absorb, squeeze of every input and output length' % (impl, fname)
            rec.func(fname, impl)
            t0 = time.time()
            try:
                n = oneshot(w, fname, v, r, 4 if x4 else 1)
                rec.ok(name, 'sponge VC over callee contracts', n, time.time() - t0)
            except (Refuted, Violation, Unsupported) as e:
                settle(rec, impl, fname, name, e, x4)
        if x4:
            continue
        H = proto.keccak_handlers(pr)
        fname = 'shake%s_init' % v
        name = '%s %s: empty state' % (impl, fname)
        rec.func(fname, impl)
        try:
            x = X(w.prog)
            o = x.new(208, 8, 'state')
            x.run(w.name(fname), [o.base])
            if any(x.load(o.base + 8 * i, 8) != 0 or type(x.load(o.base + 8 * i, 8)) is T for i in range(25)) or x.load(o.base + 200, 4) != 0:
                raise Refuted('state is not empty', 0)
            rec.ok(name, 'sponge VC', 26)
        except (Refuted, Violation, Unsupported) as e:
            settle(rec, impl, fname, name, e, x4)
        fname = 'shake%s_finalize' % v
        name = '%s %s: domain separation and padding at every position' % (impl, fname)
        rec.func(fname, impl)
        try:
            S = sym_state()[0]
            for p in range(r):
                x = X(w.prog)
                o = x.new(208, 8, 'state')
                for i in range(25):
                    x.store(o.base + 8 * i, S[i], 8)
                x.store(o.base + 200, p, 4)
                x.run(w.name(fname), [o.base])
                want = s_final(S, p, r, 0x1f)
                if any(not same(x.load(o.base + 8 * i, 8), want[i]) for i in range(25)) or x.load(o.base + 200, 4) != r:
                    e = Refuted('wrong state at position %d' % p, 0)
                    e.p = p
                    raise e
            rec.ok(name, 'sponge VC', 26 * r)
        except (Refuted, Violation, Unsupported) as e:
            settle(rec, impl, fname, name, e, x4)


def job_kem_hash(rec, impl, k):
    """kyber_shake128_absorb, kyber_shake256_prf, kyber_shake256_rkprf"""
    w, pr = hworld(impl, rec, k)
    z = spec.sizes(k)
    H = proto.keccak_handlers(pr)

    def bytesobj(x, nm, n):
        o = x.new(n, 1, nm, ro=True)
        vs = [t.var('%s%d' % (nm, i), 8) for i in range(n)]
        for i, v in enumerate(vs):
            o.cells[i] = (v, 1)
            o.own[i] = i
        return o, vs

    def mk():
        x = X(w.prog)
        x.contracts = H
        x.deadline = time.time() + 100
        return x

    def one(fname, go):
        name = '%s/K=%d %s' % (impl, k, fname)
        rec.func(fname, '%s/K=%d' % (impl, k))
        t0 = time.time()
        try:
            what, n = go()
            rec.ok(name + ': ' + what, 'sponge VC', n, time.time() - t0)
        except (Refuted, Violation) as e:
            rec.bad(name, 'sponge VC', str(e), getattr(e, 'cex', None))
        except Unsupported as e:
            rec.unk(name, 'unsupported: ' + str(e))

    def prf():
        n = 0
        for eta in {spec.PARAMS[k]['eta1'], spec.PARAMS[k]['eta2']}:
            x = mk()
            o = x.new(64 * eta, 1, 'out')
            key, kv = bytesobj(x, 'key', 32)
            nv = t.var('nonce', 8)
            x.run(w.name('kyber_shake256_prf'), [o.base, 64 * eta, key.base, nv])
            want = proto.sponge(pr, 136, 0x1f, kv + [nv], 64 * eta)
            for i in range(64 * eta):
                if x.load(o.base + i, 1) is not want[i]:
                    import hashlib
                    e = Refuted('output byte %d is not SHAKE256(key || nonce)' % i)
                    kb = bytes(range(7, 39))
                    e.cex = dict(fn='kyber_shake256_prf', args=[dict(kind='bytes', val=[0] * 64 * eta, role='out'), dict(kind='int', val=64 * eta),
                                 dict(kind='bytes', val=list(kb), role='in'), dict(kind='int', val=200, w=32)],
                                 expect=dict(arg=0, whole=list(hashlib.shake_256(kb + b'\xc8').digest(64 * eta))))
                    raise e
            n += 64 * eta
        return 'SHAKE256(key || nonce)', n

    def rkprf():
        x = mk()
        o = x.new(32, 1, 'out')
        key, kv = bytesobj(x, 'key', 32)
        ct, cv = bytesobj(x, 'ct', z['ct'])
        x.run(w.name('kyber_shake256_rkprf'), [o.base, key.base, ct.base])
        want = proto.sponge(pr, 136, 0x1f, kv + cv, 32)
        for i in range(32):
            if x.load(o.base + i, 1) is not want[i]:
                import hashlib, random
                kb, cb = bytes(range(7, 39)), random.Random(5).randbytes(z['ct'])
                e = Refuted('output byte %d is not SHAKE256(z || ciphertext)' % i)
                e.cex = dict(fn='kyber_shake256_rkprf', args=[dict(kind='bytes', val=[0] * 32, role='out'), dict(kind='bytes', val=list(kb), role='in'),
                             dict(kind='bytes', val=list(cb), role='in')], expect=dict(arg=0, whole=list(hashlib.shake_256(kb + cb).digest(32))))
                raise e
        return 'SHAKE256(z || ciphertext)', 32

    def xof():
        x = mk()
        o = x.new(208, 8, 'state')
        sd, sv = bytesobj(x, 'seed', 32)
        a, b = t.var('x', 8), t.var('y', 8)
        x.run(w.name('kyber_shake128_absorb'), [o.base, sd.base, a, b])
        st, q = s_absorb(pr, [0] * 25, 0, sv + [a, b], 168)
        st = s_final(st, q, 168, 0x1f)
        for i in range(25):
            if not same(x.load(o.base + 8 * i, 8), st[i]):
                raise Refuted('state word %d is not that of SHAKE128(seed || x || y)' % i)
        return 'SHAKE128 state of seed || x || y', 25
    one('kyber_shake256_prf', prf)
    one('kyber_shake256_rkprf', rkprf)
    one('kyber_shake128_absorb', xof)


def job_perm(rec, impl):
    """the permutation itself"""
    w, pr = hworld(impl, rec, assume=False)
    w.cfgname = impl
    ks = proto.kperms(w)
    if not ks:
        rec.unk('%s Keccak-f[1600]' % impl, 'no permutation function found')


def job_hash_native(rec, impl, seed, seconds, x4=False):
    import random, itertools
    rnd = random.Random('%s/%s/%s' % (seed, impl, x4))
    g = cases(rnd, x4)
    if seconds > 30:
        g = itertools.chain(g, deep(rnd, x4), itertools.chain.from_iterable(cases(rnd, x4) for _ in range(1000)))
    n, c, crash = hsearch(impl, g, seconds)
    rec.bounded.append(('native call sequences of the %s interface against hashlib' % ('4-way' if x4 else 'SHA3/SHAKE'), n))
    if c is not None:
        rec.bad('%s: %s' % (impl, hname(c)), 'native execution', 'differs from FIPS 202' if crash is None else str(crash), dict(hash=c, impl=impl), kind='native')


def confirm_hash(fails, tier, seed, end):
    from . import search, props
    for f in fails:
        c = f.get('cex')
        if c and 'hash' in c:
            h, impl = c['hash'], c['impl']
            r = search.isolated(lambda: hdiff(impl, h), 120)
            tx = r[1] if r[0] == 'ok' else '%s: native call ends with %s' % (hname(h), r)
            if tx:
                if 'msgs' in h:
                    h = dict(h, msgs=[bytes(m).hex() for m in h['msgs']]) if len(h['msgs'][0]) < 70000 else dict(h, msgs='%d random bytes' % len(h['msgs'][0]))
                return dict(type='hash', impl=impl, case=h, found=True, text=impl + ' ' + tx)
    v = props.confirm_fns(fails, tier, seed, end)
    if v and v.get('found'):
        return v
    # a failed permutation, or a failure in the KEM's wrappers: any hash shows it
    import random, itertools
    rnd = random.Random(seed)
    for impl in sorted({f['impl'] for f in fails if 'impl' in f}):
        for x4 in ((False, True) if impl == 'avx2' else (False,)):
            n, c, crash = hsearch(impl, cases(rnd, x4), 40)
            if c is not None:
                r = search.isolated(lambda: hdiff(impl, c), 120)
                tx = r[1] if r[0] == 'ok' else '%s: native call ends with %s' % (hname(c), r)
                if tx:
                    return dict(type='hash', impl=impl, case=dict(c, msgs=[bytes(m).hex() for m in c['msgs']]), found=True, text=impl + ' ' + tx)
    return v
