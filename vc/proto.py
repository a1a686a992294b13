"""Whole-operation verification: keypair_derand / enc_derand / dec of the real code, executed over
the callees' contracts, against FIPS 203 written over the same ghost symbols."""
import time
import numpy as np
from . import term as t, poly, spec, leaf, execu, keccak, smt, contracts as C
from .term import T, SECRET, UNDEF
from .execu import X, Violation, Aborted, short
from .ir import Unsupported

Q = 3329


class Mismatch(Exception):
    """a postcondition of an operation is refuted (terms differ from the specification)"""
    def __init__(self, what, why):
        Exception.__init__(self, '%s: %s' % (what, why))
        self.what = what
        self.why = why


# ---------------------------------------------------------------- Keccak in the ghost algebra
def kperm(pr, lanes):
    if all(type(v) is int for v in lanes):
        return spec.keccakf(lanes)
    fl = 0
    for v in lanes:
        fl |= t.flags(v)
    k = pr.intern(('kf', tuple(lanes)))
    return [t.uf('kf', 64, (i, k), fl) for i in range(25)]


def kperms(w):
    """permutation functions of the program with their proofs (once per configuration)"""
    if w.keccak is None:
        w.keccak = {}
        for f, lanes in keccak.find(w.prog).items():
            nm = short(f.name)
            if w.assume_keccak:
                w.keccak[nm] = (lanes, True, [])
                w.rec.assume.add('%s is Keccak-f[1600] (decided by C10/C11)' % nm)
                continue
            try:
                bad, x, secs = keccak.verify(w.prog, f, lanes, w.rec, w.cfg)
            except Violation as e:
                w.rec.bad('%s %s' % (w.cfg, nm), 'execution', str(e))
                w.keccak[nm] = (lanes, False, None)
                continue
            except Unsupported as e:
                w.rec.unk('%s %s = Keccak-f[1600]' % (w.cfg, nm), str(e))
                w.keccak[nm] = (lanes, None, None)
                continue
            w.rec.func(nm, w.cfg)
            w.rec.secs['hash-consed normal form'] = w.rec.secs.get('hash-consed normal form', 0) + secs
            leaks = sorted({(e[0], str(e[2]), str(e[3])) for e in x.events if e[1] & SECRET})
            if bad:
                w.rec.bad('%s %s = Keccak-f[1600] on every lane' % (w.cfg, nm), 'normal form',
                          'state %d lane %d differs from the specification' % bad[0], keccak_cex(w, f, lanes))
                w.keccak[nm] = (lanes, False, leaks)
            else:
                w.rec.ok('%s %s = Keccak-f[1600] on all lanes of %d state(s)' % (w.cfg, nm, lanes), 'normal form', 25 * lanes)
                w.keccak[nm] = (lanes, True, leaks)
    return w.keccak


def keccak_cex(w, f, lanes):
    import random
    rnd = random.Random(7)
    for n in range(20):
        try:
            st, out = keccak.run_concrete(w.prog, f, lanes, rnd)
        except Exception:
            return None
        want = [spec.keccakf(s) for s in st]
        if out != want:
            inb = b''.join(st[l][i].to_bytes(8, 'little') for i in range(25) for l in range(lanes))
            wb = b''.join(want[l][i].to_bytes(8, 'little') for i in range(25) for l in range(lanes))
            return dict(fn=short(f.name), args=[dict(kind='bytes', val=list(inb), role='inout', align=32)],
                        expect=dict(arg=0, whole=list(wb)))
    return None


def keccak_handlers(pr):
    w = pr.w
    H = {}

    def mk(nm, lanes, ok):
        def h(x, args):
            if not ok:
                i = C.Inst('%s %s' % (w.cfg, nm), nm)
                i.status = 'failed' if ok is False else 'unknown'
                i.why = 'the permutation is not established'
                raise C.ContractFailure(i)
            a = args[0]
            C.need_align(x, a, 32 if lanes == 4 else 8, nm)
            st = [[x.load(a + 8 * (lanes * i + l), 8) for i in range(25)] for l in range(lanes)]
            if leaks and any(t.flags(v) & SECRET for q in st for v in q):
                for e in leaks:
                    x.events.append((e[0], SECRET, '%s: %s' % (nm, e[1]), e[2]))
            for l in range(lanes):
                for v in st[l]:
                    if t.flags(v) & UNDEF:
                        raise Violation('uninit', '%s permutes an uninitialised state' % nm, x.where())
                for i, v in enumerate(kperm(pr, st[l])):
                    x.store(a + 8 * (lanes * i + l), v, 8)
        return h
    for nm, (lanes, ok, leaks) in kperms(w).items():
        H[nm] = mk(nm, lanes, ok)
    return H


def sponge(pr, rate, dom, msg, outlen):
    """FIPS 202 sponge over byte terms"""
    s = [0] * 25
    p = list(msg) + [dom]
    while len(p) % rate:
        p.append(0)
    p[-1] = t.xor(p[-1], 0x80, 8)
    for o in range(0, len(p), rate):
        for i in range(rate // 8):
            s[i] = t.xor(s[i], t.cat([(p[o + 8 * i + j], 8) for j in range(8)]), 64)
        s = kperm(pr, s)
    out = []
    while len(out) < outlen:
        for v in s[:rate // 8]:
            out += [t.ext(v, 8 * j, 8, 64) for j in range(8)]
        if len(out) < outlen:
            s = kperm(pr, s)
    return out[:outlen]


def bflags(bs):
    f = 0
    for b in bs:
        f |= t.flags(b)
    return f


# ---------------------------------------------------------------- FIPS 203 over ghost terms
class Fips:
    def __init__(self, pr):
        self.pr = pr
        self.k = pr.w.k
        self.P = pr.w.P

    def G(self, m):
        h = sponge(self.pr, 72, 6, m, 64)
        return h[:32], h[32:]

    def H(self, m):
        return sponge(self.pr, 136, 6, m, 32)

    def J(self, m):
        return sponge(self.pr, 136, 0x1f, m, 32)

    def prf(self, s, b, eta):
        return sponge(self.pr, 136, 0x1f, list(s) + [b], 64 * eta)

    def cbd(self, bs, eta):
        d = 2 * eta
        return [self.pr.res_of(self.pr.cbd(C.field(bs, i * d, d), eta)) for i in range(256)]

    def A(self, rho, i, j):
        """entry (i,j): SampleNTT(rho || j || i)"""
        return [{(v,): 1} for v in matrix_syms(self.pr, rho, j, i)]

    def ntt(self, v):
        fl = self.fl(v)
        return self.pr.atoms('ntt', v, fl)

    def intt(self, v):
        return self.pr.atoms('intt', v, self.fl(v))

    def fl(self, v):
        f = 0
        for r in v:
            for m in r:
                for s in m:
                    f |= s.fl
        return f

    def add(self, a, b):
        return [poly.resadd(x, y) for x, y in zip(a, b)]

    def sub(self, a, b):
        return [poly.resadd(x, y, -1) for x, y in zip(a, b)]

    def mulacc(self, rows, vec):
        acc = [{} for _ in range(256)]
        idn = list(range(256))
        for a, b in zip(rows, vec):
            acc = self.add(acc, C.basemul_spec(a, b, idn, 1))
        return acc

    def enc12(self, v):
        fl = self.fl(v)
        return C.pack([(self.pr.canon(r, fl), 12) for r in v])

    def dec12(self, bs):
        return [self.pr.res_of(self.pr.f12(C.field(bs, 12 * i, 12))) for i in range(256)]

    def comp(self, v, d):
        fl = self.fl(v)
        return C.pack([(self.pr.comp(r, d, fl), d) for r in v])

    def decomp(self, bs, d):
        return [self.pr.res_of(self.pr.decomp(C.field(bs, d * i, d), d)) for i in range(256)]

    def kpke_keygen(self, d):
        k, P = self.k, self.P
        rho, sigma = self.G(list(d) + [k])
        self.pr.public |= set(rho)
        s = [self.ntt(self.cbd(self.prf(sigma, i, P['eta1']), P['eta1'])) for i in range(k)]
        e = [self.ntt(self.cbd(self.prf(sigma, k + i, P['eta1']), P['eta1'])) for i in range(k)]
        tt = [self.add(self.mulacc([self.A(rho, i, j) for j in range(k)], s), e[i]) for i in range(k)]
        return sum((self.enc12(x) for x in tt), []) + rho, sum((self.enc12(x) for x in s), [])

    def kpke_enc(self, ek, m, r):
        k, P = self.k, self.P
        th = [self.dec12(ek[384 * i:384 * i + 384]) for i in range(k)]
        rho = ek[384 * k:384 * k + 32]
        y = [self.ntt(self.cbd(self.prf(r, i, P['eta1']), P['eta1'])) for i in range(k)]
        e1 = [self.cbd(self.prf(r, k + i, P['eta2']), P['eta2']) for i in range(k)]
        e2 = self.cbd(self.prf(r, 2 * k, P['eta2']), P['eta2'])
        c = []
        for i in range(k):
            u = self.add(self.intt(self.mulacc([self.A(rho, j, i) for j in range(k)], y)), e1[i])
            c += self.comp(u, P['du'])
        mu = self.decomp(m, 1)
        v = self.add(self.add(self.intt(self.mulacc(th, y)), e2), mu)
        return c + self.comp(v, P['dv'])

    def kpke_dec(self, dk, c):
        k, P = self.k, self.P
        n = 32 * P['du']
        u = [self.decomp(c[n * i:n * i + n], P['du']) for i in range(k)]
        v = self.decomp(c[n * k:], P['dv'])
        s = [self.dec12(dk[384 * i:384 * i + 384]) for i in range(k)]
        a = self.mulacc(s, [self.ntt(x) for x in u])
        return self.comp(self.sub(v, self.intt(a)), 1)

    def keygen(self, coins):
        ek, dk = self.kpke_keygen(coins[:32])
        return ek, dk + ek + self.H(ek) + list(coins[32:64])

    def encaps(self, ek, m):
        K, r = self.G(list(m) + self.H(ek))
        return self.kpke_enc(ek, m, r), K

    def decaps(self, dk, c):
        """(re-encryption, accepted secret, rejected secret)"""
        n = 384 * self.k
        dkp, ek, h, z = dk[:n], dk[n:2 * n + 32], dk[2 * n + 32:2 * n + 64], dk[2 * n + 64:2 * n + 96]
        m = self.kpke_dec(dkp, c)
        K, r = self.G(m + list(h))
        return self.kpke_enc(ek, m, r), K, self.J(list(z) + list(c))


def matrix_syms(pr, seed, x, y):
    """SampleNTT(seed || x || y): 256 symbols below q"""
    k = pr.intern(('A', tuple(seed), x, y))
    fl = 0
    if not set(seed) <= pr.public:
        fl = bflags(seed)
    return [t.uf('A', 16, (k, i), fl, info=dict(lo=0, hi=Q - 1), mb=0xfff) for i in range(256)]


# ---------------------------------------------------------------- remaining callee contracts
def gen_matrix_handler(pr, inst):
    """contract of gen_matrix; inst() yields (status, leaks) of its proof"""
    w = pr.w
    k = w.k

    def h(x, args):
        a, seed, tr = args
        if type(tr) is not int:
            raise Unsupported('symbolic transposed flag')
        if tr not in (0, 1):
            raise Unsupported('transposed flag %d' % tr)
        if w.prove_matrix:
            from . import mat
            mi = mat.matrix(w, tr)
        x.obj(a, 512 * k * k, 'write (in gen_matrix)')
        x.obj(seed, 32, 'read (in gen_matrix)')
        C.need_align(x, a, leaf.palign(w.prog), 'gen_matrix')
        if C.overlap(a, 512 * k * k, seed, 32):
            raise Unsupported('aliased arguments of gen_matrix')
        sd = [x.load(seed + i, 1) for i in range(32)]
        fl = bflags(sd)
        if fl & UNDEF:
            raise Violation('uninit', 'gen_matrix reads an uninitialised seed', x.where())
        if fl & SECRET and not set(sd) <= pr.public:
            pr.seeds.append(sd)
            x.events.append(('branch', SECRET, 'gen_matrix', 'rejection sampling of a secret seed'))
        for i in range(k):
            for j in range(k):
                s = matrix_syms(pr, sd, *((i, j) if tr else (j, i)))
                for p in range(256):
                    x.store(a + 512 * (k * i + j) + 2 * p, s[w.pi[p]], 2)
    return h


def verify_eq(w, n, al=1):
    """verify(a,b,n) = 1 iff some byte differs"""
    def go(inst):
        def mk(x):
            objs = []
            for nm in 'ab':
                o = x.new(n, al, nm, ro=True)
                for i in range(n):
                    o.cells[i] = (t.var('S:%s%d' % (nm, i), 8, secret=True), 1)
                    o.own[i] = i
                objs.append(o)
            return [objs[0].base, objs[1].base, n], objs
        x = w.runx(inst, 'verify', mk)
        r = x.result
        inst.backend['verify = (some byte differs), %d bytes (z3)' % n] = 1
        d = 0
        for i in range(n):
            d = t.or_(d, t.xor(t.var('S:a%d' % i, 8, secret=True), t.var('S:b%d' % i, 8, secret=True), 8), 8)
        want = t.zext(t.xor(t.eq(d, 0, 8), 1, 1), 1, 32) if n else 0
        if type(r) is T and r.fl & UNDEF:
            inst.status, inst.why = 'failed', 'result depends on uninitialised memory'
            return
        # quick refutation: single differing bit at each position, equal strings
        cex = eq_search(r, n)
        if cex is None:
            st, m = smt.equal(unsum(r), want, 32, 60)
            if st == 'unsat':
                w.overflow(inst, x, poly.Ctx())
                return
            if st == 'unknown':
                inst.status, inst.why = 'unknown', 'z3: unknown'
                return
            cex = {v.p: c for v, c in m.items()}
        a = [cex.get('S:a%d' % i, 0) for i in range(n)]
        b = [cex.get('S:b%d' % i, 0) for i in range(n)]
        inst.status, inst.kind = 'failed', 'value'
        inst.why = 'verify(%d bytes) does not return %d' % (n, int(a != b))
        inst.cex = dict(fn='verify', args=[dict(kind='bytes', val=a, role='in'), dict(kind='bytes', val=b, role='in'), dict(kind='int', val=n)],
                        expect=dict(ret=int(a != b)))
    return go


def unsum(r):
    """r = f(sum) with a sum of terms that cannot wrap and f sensitive to zero only: the same with the terms or-ed; else r"""
    if type(r) is not T:
        return r
    for A in reversed(t.topo([r])):
        if type(A) is not T or A.op != 'add':
            continue
        parts, st, tot = [], [A], 0
        while st:
            q = st.pop()
            if type(q) is T and q.op == 'add':
                st.extend(q.a)
            else:
                parts.append(q)
                tot += t.maybe(q)
        if tot >> A.w or len(parts) < 2:
            continue
        v = t.var('sum!', A.w, lo=0, hi=tot, secret=True) if A.w < 64 or tot < 1 << 63 else None
        if v is None:
            continue
        f, = t.subst([r], {A: v})
        if type(f) is not T or t.support(f) != frozenset([v]):
            continue
        nz = t.zext(t.xor(t.eq(v, 0, A.w), 1, 1), 1, r.w)
        if smt.equal(f, nz, r.w, 20)[0] != 'unsat':
            return r
        d = 0
        for q in parts:
            d = t.or_(d, q, A.w)
        return t.zext(t.xor(t.eq(d, 0, A.w), 1, 1), 1, r.w)
    return r


def eq_search(r, n):
    N = min(8 * n, 16384)
    env = {}
    base = np.random.RandomState(3).randint(0, 256, size=n)
    sup = t.support(r) if type(r) is T else frozenset()
    if not sup:
        return None
    idx = np.arange(N)
    names = {v.p: v for v in sup}
    for i in range(n):
        a = np.full(N, base[i], dtype=np.uint64)
        b = a.copy()
        sel = idx // 8 == i
        b[sel] ^= (1 << (idx[sel] % 8)).astype(np.uint64)
        for nm, val in (('S:a%d' % i, a), ('S:b%d' % i, b)):
            if nm in names:
                env[names[nm]] = val
    try:
        v = t.npeval([r], env)[r]
    except Exception:
        return None
    bad = np.nonzero(np.broadcast_to(v, (N,)) != 1)[0]
    if len(bad):
        k = int(bad[0])
        out = {}
        for i in range(n):
            out['S:a%d' % i] = int(base[i])
            out['S:b%d' % i] = int(base[i]) ^ ((1 << (k % 8)) if k // 8 == i else 0)
        return out
    return None


def verify_handler(pr):
    w = pr.w

    def h(x, args):
        a, b, n = args[:3]
        if type(n) is not int:
            raise Unsupported('symbolic length in verify')
        i = w.inst(('verify', n), 'verify', verify_eq(w, n))
        C.addr_range(x, a, i.foot[0], 'verify')
        C.addr_range(x, b, i.foot[1], 'verify')
        va = [x.load(a + q, 1) for q in range(n)]
        vb = [x.load(b + q, 1) for q in range(n)]
        fl = bflags(va) | bflags(vb)
        if fl & UNDEF:
            raise Violation('uninit', 'verify compares uninitialised bytes', x.where())
        pr.leak(x, i, fl)
        return t.zext(neq(pr, va, vb), 1, 32)
    return h


def neq(pr, va, vb):
    if all(p is q or (type(p) is int and p == q) for p, q in zip(va, vb)):
        return 0
    fl = bflags(va) | bflags(vb)
    ps = tuple((p, q) if key_(p) <= key_(q) else (q, p) for p, q in zip(va, vb))
    s = t.uf('neq', 1, (pr.intern(('neq', ps)),), fl)
    return s


def key_(v):
    return (0, v) if type(v) is int else (1, v.id)


# ---------------------------------------------------------------- operations
def setup(w, pr=None, extra=None):
    pr = pr or C.Proto(w)
    if not hasattr(pr, 'public'):
        pr.public = set()
    pr.fips = Fips(pr)
    x = X(w.prog)
    x.deadline = time.time() + 600
    H = dict(C.handlers(pr))
    H.update(keccak_handlers(pr))
    H['gen_matrix'] = gen_matrix_handler(pr, None)
    H['verify'] = verify_handler(pr)
    if extra:
        H.update(extra(pr))
    x.contracts = H
    return pr, x


def inbytes(x, name, n, secret):
    """input buffer of exactly n bytes, byte-aligned, read-only; secret(i) labels byte i"""
    o = x.new(n, 1, name, ro=True)
    vs = []
    for i in range(n):
        v = t.var('in:%s%d%s' % (name, i, 's' if secret(i) else ''), 8, secret=bool(secret(i)))
        vs.append(v)
        o.cells[i] = (v, 1)
        o.own[i] = i
    return o, vs


def select_z3(got, cv, re, K, J):
    """got[i] = (cv = re ? K[i] : J[i]) for every i"""
    d = 0
    for p, q in zip(cv, re):
        d = t.or_(d, t.xor(p, q, 8), 8)
    c = t.eq(d, 0, 8)
    for i in range(len(got)):
        st, m = smt.equal(got[i], t.ite(c, K[i], J[i], 8), 8, 60)
        if st == 'unknown':
            raise Unsupported('z3: selection undecided')
        if st != 'unsat':
            return False
    return True


def outbytes(x, o, n):
    o = x.mem[o.id]
    bs = []
    for i in range(n):
        b = x.load(o.base + i, 1)
        bs.append(b)
    return bs


def diff(got, want):
    return [i for i, (a, b) in enumerate(zip(got, want)) if a is not b and not (type(a) is int and type(b) is int and a == b)]


class OpRun:
    """result of one symbolic operation"""
    def __init__(self, op, w):
        self.op = op
        self.w = w
        self.outs = []       # (name, got, want)
        self.ret = None
        self.x = None
        self.pr = None
        self.bad = []


def run_op(w, op, pr=None, name=None, withspec=True):
    z = spec.sizes(w.k)
    pr, x = setup(w, pr)
    n = 384 * w.k
    r = OpRun(op, w)
    r.x, r.pr = x, pr
    if op == 'keygen':
        pk, sk = x.new(z['pk'], 1, 'pk'), x.new(z['sk'], 1, 'sk')
        c, cv = inbytes(x, 'coins', 64, lambda i: True)
        want = pr.fips.keygen(cv)
        x.run(w.name(name or 'keypair_derand'), [pk.base, sk.base, c.base])
        r.outs = [('pk', outbytes(x, pk, z['pk']), want[0]), ('sk', outbytes(x, sk, z['sk']), want[1])]
        r.ins = [('coins', c, cv)]
    elif op == 'enc':
        ct, ss = x.new(z['ct'], 1, 'ct'), x.new(32, 1, 'ss')
        pk, pv = inbytes(x, 'pk', z['pk'], lambda i: False)
        c, cv = inbytes(x, 'm', 32, lambda i: True)
        want = pr.fips.encaps(pv, cv)
        x.run(w.name(name or 'enc_derand'), [ct.base, ss.base, pk.base, c.base])
        r.outs = [('ct', outbytes(x, ct, z['ct']), want[0]), ('ss', outbytes(x, ss, 32), want[1])]
        r.ins = [('pk', pk, pv), ('coins', c, cv)]
    else:
        ss = x.new(32, 1, 'ss')
        ct, cv = inbytes(x, 'ct', z['ct'], lambda i: False)
        sk, sv = inbytes(x, 'sk', z['sk'], lambda i: i < n or i >= 2 * n + 64)
        re, K, J = pr.fips.decaps(sv, cv)
        x.run(w.name(name or 'dec'), [ss.base, ct.base, sk.base])
        got = outbytes(x, ss, 32)
        ne = neq(pr, cv, re)
        g1 = t.subst(got, {ne: 1})
        g0 = t.subst(got, {ne: 0})
        if (diff(g0, K) or diff(g1, J)) and type(ne) is T and not any(type(g) is T and ne in t.support(g) for g in got):
            # the comparison is not a call of verify: decide the selection with z3
            if select_z3(got, cv, re, K, J):
                g0, g1 = K, J
        r.outs = [('ss (ciphertext accepted)', g0, K), ('ss (ciphertext rejected)', g1, J)]
        r.raw = got
        r.ins = [('ct', ct, cv), ('sk', sk, sv)]
        r.reenc = re
    r.ret = x.result
    for nm, got, want in r.outs:
        d = diff(got, want)
        if d:
            r.bad.append((nm, d))
    return r
