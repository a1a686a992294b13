"""Keccak-f[1600]: contract of the permutation functions, and its proof against FIPS 202.

Proof: the executor runs the real permutation on 25 (or 4x25) lane variables.  The
specification's lanes after round r, written over the ghost names of the lanes after
round r-1, are registered beforehand; terms are hash-consed in an AC normal form, so
when the code builds a lane equal to a specified lane, it *is* that term and gets the
ghost name of round r.  A lane written in another way is recognised by its value on one
concrete run and replaced only after its algebraic normal form over the bits of the previous
round's lanes is shown equal to the specified one (class Anf).  The postcondition is that the
25 stored lanes are exactly the ghost names of round 24."""
import os, random, time
from . import term as t, execu, spec, ir
from .execu import X, short
from .ir import Unsupported
from .term import T


def rotl(v, n):
    if n == 0:
        return v
    return t.cat([(t.ext(v, 64 - n, n, 64), n), (t.ext(v, 0, 64 - n, 64), 64 - n)])


def andn(a, b):
    return t.and_(t.xor(a, t.M(64), 64), b, 64)


def setup(lanes):
    """registers the spec rounds; returns names[l][r][i]"""
    names = []
    specs = {}
    for l in range(lanes):
        n = [[t.var('k%d_%d_%d' % (l, r, i), 64, secret=True) for i in range(25)] for r in range(25)]
        for r in range(24):
            out = spec.keccak_round(n[r], spec.RC[r], lambda a, b: t.xor(a, b, 64), andn, rotl)
            for i in range(25):
                t.REPL[out[i]] = n[r + 1][i]
                specs[l, r + 1, i] = out[i]
        names.append(n)
    return names, specs


class Anf:
    """lanes that equal a specified lane (or its complement) without being the same term"""
    def __init__(self, names, seed=7):
        rnd = random.Random(seed)
        self.sig = {}
        self.val = {}
        self.where = {}
        self.bits = {}
        self.idx = {}
        self.proofs = 0
        for l, n in enumerate(names):
            st = [rnd.getrandbits(64) for _ in range(25)]
            for r in range(25):
                for i in range(25):
                    v = n[r][i]
                    self.sig[v] = st[i]
                    self.idx[v] = i
                    self.val.setdefault(st[i], (l, r, i))
                    self.where[v] = (l, r)
                if r < 24:
                    st = spec.keccakf(st, r, r + 1)
        self.names = names
        self.specs = {}

    def value(self, x):
        if type(x) is int:
            return x
        v = self.sig.get(x)
        if v is not None or x in self.sig:
            return v
        v = None
        a = [self.value(y) for y in x.a]
        if a and None not in a:
            if x.op == 'xor':
                v = 0
                for y in a:
                    v ^= y
            elif x.op == 'and':
                v = a[0]
                for y in a:
                    v &= y
            elif x.op == 'or':
                v = 0
                for y in a:
                    v |= y
            elif x.op == 'ext':
                v = a[0] >> x.p & t.M(x.w)
            elif x.op == 'cat':
                v = o = 0
                for y, w in zip(a, x.p):
                    v |= y << o
                    o += w
        self.sig[x] = v
        return v

    def bit(self, x, i):
        """(linear part incl. constant, set of products of linear forms) of bit i, over the bits of one round's lanes"""
        if type(x) is int:
            return x >> i & 1, frozenset()
        r = self.bits.get((x, i), 0)
        if r == 0:
            r = self.bits[x, i] = self.bit_(x, i)
        return r

    def bit_(self, x, i):
        if x in self.where:
            if self.rd is None:
                self.rd = self.where[x]
            return (2 << (64 * self.idx[x] + i), frozenset()) if self.where[x] == self.rd else None
        if x.op == 'ext':
            return self.bit(x.a[0], i + x.p)
        if x.op == 'cat':
            for y, w in zip(x.a, x.p):
                if i < w:
                    return self.bit(y, i)
                i -= w
        if x.op in ('xor', 'and', 'or'):
            p = None
            for y in x.a:
                q = self.bit(y, i)
                if q is None:
                    return None
                p = q if p is None else self.add(p, q) if x.op == 'xor' else self.mul(p, q, x.op == 'or')
                if p is None:
                    return None
            return p
        return None

    def add(self, p, q):
        return p[0] ^ q[0], p[1] ^ q[1]

    def mul(self, p, q, isor):
        if p[1] or q[1]:
            return None
        a, b = p[0] & ~1, q[0] & ~1
        l = (a if q[0] & 1 else 0) ^ (b if p[0] & 1 else 0) ^ (p[0] & q[0] & 1)
        s = frozenset()
        if a == b:
            l ^= a
        elif a and b:
            s = frozenset([(min(a, b), max(a, b))])
        r = l, s
        return self.add(r, self.add(p, q)) if isor else r

    def same(self, x, y, flip):
        for i in range(64):
            p, q = self.bit(x, i), self.bit(y, i)
            if p is None or q is None or p[0] ^ q[0] ^ flip:
                return False
            mono = set()
            for a, b in p[1] ^ q[1]:
                for u in ones(a):
                    for v in ones(b):
                        mono ^= {(min(u, v), max(u, v))}
            if mono:
                return False
        return True

    def __call__(self, x):
        if x in self.where or x.op in ('var', 'uf'):
            return None
        v = self.value(x)
        if v is None:
            return None
        for flip in (0, 1):
            h = self.val.get(v ^ (t.M(64) if flip else 0))
            if h is not None and h[1] > 0:
                l, r, i = h
                self.bits.clear()
                self.rd = l, r - 1
                if x is not self.specs.get(h) and self.same(x, self.specs[h], flip):
                    self.proofs += 1
                    nm = self.names[l][r][i]
                    return t.xor(nm, t.M(64), 64) if flip else nm
        return None


def ones(m):
    while m:
        b = m & -m
        yield b
        m ^= b


def run_concrete(prog, f, lanes, rnd):
    x = X(prog)
    x.maxsteps = 200000
    o = x.new(200 * lanes, 32, 'state')
    st = [[rnd.getrandbits(64) for _ in range(25)] for _ in range(lanes)]
    for i in range(25):
        for l in range(lanes):
            x.store(o.base + 8 * (lanes * i + l), st[l][i], 8)
    x.push(f, [o.base], -1)
    if x.step_until_fork() is not None:
        return None
    out = [[x.load(o.base + 8 * (lanes * i + l), 8) for i in range(25)] for l in range(lanes)]
    return st, out


def find(prog):
    """permutation functions: name -> number of interleaved states, recognised by what they compute"""
    res = {}
    rnd = random.Random(1)
    for m in prog.mods:
        for f in m.funcs.values():
            if len(f.params) != 1 or f.params[0][0] != ('i', 64):
                continue
            for lanes in (1, 4):
                try:
                    r = run_concrete(prog, f, lanes, rnd)
                except Exception:
                    continue
                if r is None:
                    continue
                st, out = r
                if st != out and all(len(o) == 25 for o in out):
                    good = sum(o == spec.keccakf(s) for s, o in zip(st, out))
                    if good == lanes or f.name.lower().find('permute') >= 0 and '12rounds' not in f.name:
                        if good == lanes or (lanes == (4 if 'times4' in f.name or '4x' in f.name else 1)):
                            res[f] = lanes
                            break
    return res


def verify(prog, f, lanes, rec, cfg):
    t0 = time.time()
    t.REPL.clear()
    names, specs = setup(lanes)
    anf = Anf(names)
    anf.specs = specs
    t.HOOK = anf
    x = X(prog)
    x.maxsteps = 300000
    x.deadline = time.time() + 120
    o = x.new(200 * lanes, 32 if lanes == 4 else 8, 'state')
    for i in range(25):
        for l in range(lanes):
            x.store(o.base + 8 * (lanes * i + l), names[l][0][i], 8)
    try:
        x.push(f, [o.base], -1)
        x.drive()
        out = [[x.load(o.base + 8 * (lanes * i + l), 8) for i in range(25)] for l in range(lanes)]
    except Exception as e:
        e.x = x
        raise
    finally:
        t.REPL.clear()
        t.HOOK = None
    bad = [(l, i) for l in range(lanes) for i in range(25) if out[l][i] is not names[l][24][i]]
    return bad, x, time.time() - t0
