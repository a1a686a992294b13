"""Contracts on the arithmetic and coding functions of /repo.

Each contract has
  * a caller side (`handler`): checks the precondition at the call (sizes, alignment, frame,
    coefficient ranges), havocs exactly the footprint and assumes the postcondition;
  * a callee side (`verify_*`): runs the function's own code on arguments constrained only by
    that precondition and discharges the postcondition for every value.
Instances are keyed by the ranges the callers establish and verified on first use.
"""
import time, random
import numpy as np
from . import term as t, poly, spec, leaf, execu, keccak, smt
from .term import T, SECRET, UNDEF
from .execu import X, Violation, Aborted
from .ir import Unsupported

Q = 3329
R16 = pow(2, 16, Q)
RINV = pow(R16, -1, Q)


class ContractFailure(Exception):
    """an instance of a contract could not be established for its callee"""
    def __init__(self, inst):
        Exception.__init__(self, inst.name)
        self.inst = inst


class Inst:
    """verification result of one contract instance"""
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.ok = False
        self.status = 'unknown'   # proved / failed / unknown
        self.why = ''
        self.cex = None           # dict(fn, args...) replayable natively
        self.iv = None            # output interval(s)
        self.foot = None          # per pointer argument (rlo,rhi,wlo,whi)
        self.leaks = []
        self.nobl = 0
        self.backend = {}
        self.secs = 0.0


SLACK = 64
LINEAR = ('poly_ntt', 'poly_invntt_tomont', 'poly_reduce', 'poly_tomont', 'poly_basemul_montgomery')


class World:
    """everything verified about one configuration (implementation, K)"""

    def __init__(self, prog, rec):
        self.prog = prog
        self.k = prog.k
        self.impl = prog.impl
        self.rec = rec
        self.insts = {}
        self.P = spec.PARAMS[prog.k]
        self.fields = leaf.FieldCheck()
        self._pi = None
        self.vec = {}
        self.calls = {}
        self.keccak = None
        self.joint = {}
        self.jbudget = 120.0
        self.prove_matrix = True
        self.only = None          # contracts this check decides; others are assumed (decided by their own checks)
        self.dummy = leaf.Rec()
        self.assume_keccak = False
        self.addcheck = False
        self.kinds = None         # kinds of failure that belong to the property
        self.ub = False           # signed overflow is decided by this check (C05, C07); elsewhere values are those of wrapping arithmetic

    @property
    def cfg(self):
        return leaf.cfgname(self.prog)

    # ---------------------------------------------------------- permutation of the NTT domain
    @property
    def pi(self):
        """pi[pos] = FIPS 203 index of the coefficient stored at pos in transform-domain polynomials"""
        if self._pi is None:
            if self.impl == 'ref':
                self._pi = list(range(256))
            else:
                # position of the constants: the layout is whatever poly_nttunpack does to natural order
                x = X(self.prog)
                o = x.new(512, 32, 'p')
                for i in range(256):
                    x.store(o.base + 2 * i, i, 2)
                n = self.prog.find('poly_nttunpack')
                if n is None:
                    raise Unsupported('poly_nttunpack missing')
                x.run(n, [o.base])
                self._pi = [x.load(x.mem[o.id].base + 2 * i, 2) for i in range(256)]
                if sorted(self._pi) != list(range(256)):
                    self.rec.bad('%s poly_nttunpack permutes the coefficients' % self.cfg, 'execution', 'not a permutation')
                    raise Unsupported('poly_nttunpack is not a permutation')
        return self._pi

    @property
    def ipi(self):
        p = [0] * 256
        for pos, i in enumerate(self.pi):
            p[i] = pos
        return p

    def recof(self, fn):
        return self.rec if self.only is None or fn in self.only else self.dummy

    # ---------------------------------------------------------- instances
    def inst(self, key, fn, verify):
        i = self.insts.get(key)
        if i is None:
            t0 = time.time()
            name = '%s %s%s' % (self.cfg, fn, ' '.join(str(x) for x in key[1:]) and ' [' + ' '.join(str(x) for x in key[1:]) + ']')
            i = Inst(name, fn)
            self.insts[key] = i
            try:
                verify(i)
                if i.status == 'unknown' and not i.why:
                    i.status = 'proved'
            except Violation as e:
                i.status = 'failed'
                i.why = str(e)
                i.kind = 'value' if e.kind == 'value' else 'safety'
            except Unsupported as e:
                i.status = 'unknown'
                i.why = 'unsupported: ' + str(e)
            except Aborted:
                i.status = 'failed'
                i.why = 'abort() reached'
            i.secs = time.time() - t0
            if i.status == 'failed' and 'uninitialised memory' in i.why:
                i.kind = 'safety'
            rec = self.recof(fn)
            if i.status == 'failed' and self.kinds is not None and getattr(i, 'kind', None) not in self.kinds:
                rec = self.dummy
            rec.func(fn, self.cfg)
            if i.status == 'proved':
                i.ok = True
                for b, n in i.backend.items():
                    rec.ok(i.name + ': ' + b, b, n, 0)
                rec.secs['vcgen+ipoly+enumeration'] = rec.secs.get('vcgen+ipoly+enumeration', 0) + i.secs
            elif i.status == 'failed':
                rec.bad(i.name, 'ipoly/enumeration', i.why, i.cex, getattr(i, 'kind', None))
            else:
                rec.unk(i.name, i.why)
        if not i.ok:
            if (self.recof(fn) is self.dummy or self.kinds is not None) and i.foot is not None and (i.iv is not None or fn not in LINEAR):
                self.rec.assume.add('contract of %s (decided by another check)' % fn)
                return i
            raise ContractFailure(i)
        return i

    def name(self, fn):
        n = self.prog.find(fn)
        if n is None:
            raise Unsupported('no function ' + fn)
        return n

    # ---------------------------------------------------------- callee-side runs
    def runx(self, inst, fn, mk):
        """mk(X) -> (args, objs). Returns X after the run, ctx; handles obligations and leaks"""
        x = X(self.prog)
        x.deadline = time.time() + 200
        args, objs = mk(x)
        for o in objs:
            o.trk = True
        try:
            x.run(self.name(fn), args)
        except Exception:
            # what was observed before the run stopped
            inst.leaks = sorted({(e[0], str(e[2]), str(e[3])) for e in x.events if e[1] & SECRET})
            raise
        inst.foot = []
        for o in objs:
            p = x.mem[o.id]
            inst.foot.append((p.rlo if p.rhi >= 0 else 0, max(p.rhi, 0), p.wlo if p.whi >= 0 else 0, max(p.whi, 0)))
        inst.leaks = sorted({(e[0], str(e[2]), str(e[3])) for e in x.events if e[1] & SECRET})
        return x

    def overflow(self, inst, x, ctx):
        n, bad, dt = leaf.check_obls(x, ctx, self.rec, inst.name)
        if n:
            inst.backend['no signed overflow / bad shift (interval of integer polynomial)'] = n - len(bad)
        if bad and not self.ub:
            self.rec.assume.add('signed overflow, where it cannot be excluded, wraps (decided by C05 and C07)')
        elif bad:
            op, a, b, w, loc = bad[0]
            inst.status = 'failed'
            inst.why = 'cannot exclude signed overflow of %s (i%d) at %s' % (op, w, loc)
            inst.kind = 'overflow'
            inst.badobl = bad
            return False
        return True


# ---------------------------------------------------------------- linear maps in place
def lin_spec(w, fn):
    """expected output residue of position j as a linear map of the input positions; dict pos->coef"""
    pi = w.pi if fn in ('poly_ntt', 'poly_invntt_tomont') else None
    if fn == 'poly_ntt':
        M = NTTM()
        return [{p: M[pi[j]][p] for p in range(256) if M[pi[j]][p]} for j in range(256)]
    if fn == 'poly_invntt_tomont':
        M = INTTM()
        return [{p: M[j][pi[p]] * R16 % Q for p in range(256) if M[j][pi[p]]} for j in range(256)]
    if fn == 'poly_reduce':
        return [{j: 1} for j in range(256)]
    if fn == 'poly_tomont':
        return [{j: R16} for j in range(256)]
    raise KeyError(fn)


_m = {}


def NTTM():
    if 'n' not in _m:
        c = [spec.ntt([int(i == j) for i in range(256)]) for j in range(256)]
        _m['n'] = [[c[j][i] for j in range(256)] for i in range(256)]
    return _m['n']


def INTTM():
    if 'i' not in _m:
        c = [spec.intt([int(i == j) for i in range(256)]) for j in range(256)]
        _m['i'] = [[c[j][i] for j in range(256)] for i in range(256)]
    return _m['i']


def verify_linear(w, fn, lo, hi, outmax=None):
    def go(inst):
        ctx = poly.Ctx()
        vs = []

        def mk(x):
            o = x.new(512 + SLACK, leaf.palign(w.prog), 'r')
            for i in range(256):
                v = t.var('S:a%d[%d,%d]' % (i, lo, hi), 16, lo=lo, hi=hi, secret=True)
                vs.append(v)
                o.cells[2 * i] = (v, 2)
                o.own[2 * i] = o.own[2 * i + 1] = 2 * i
            return [o.base], [o]
        x = w.runx(inst, fn, mk)
        o = [q for q in x.mem.values() if q.name == 'r'][0]
        out = leaf.getpoly(x, o)
        want = lin_spec(w, fn)
        want = [{(vs[p],): c % Q for p, c in r.items()} for r in want]
        L, H = 0, 0
        bad = None
        amb = None
        for j in range(256):
            r, iv, exact = coef_facts(ctx, out[j])
            if iv is None:
                inst.status, inst.why = 'failed', 'coefficient %d depends on uninitialised memory' % j
                return
            L, H = min(L, iv[0]), max(H, iv[1])
            if r != want[j] and not single(w, out[j], want[j]):
                if bad is None or wraps(r):
                    bad = j
                    inst.wrap = wraps(r)
        inst.iv = (L, H)
        inst.backend['coefficients congruent to the specified map (integer-polynomial normal form)'] = 256
        if bad is not None:
            inst.status = 'failed'
            inst.kind = 'wrap' if inst.wrap else 'residue'
            inst.why = 'coefficient %d is not provably congruent to the specified linear map%s' % (bad, ' (a 16-bit wrap-around of an intermediate cannot be excluded)' if inst.wrap else '')
            inst.cex = search_lin(w, fn, lo, hi, out, vs, want)
            return
        if not w.overflow(inst, x, ctx):
            inst.cex = search_lin(w, fn, lo, hi, out, vs, want)
            return
        if outmax is not None:
            inst.backend['output range within [%d,%d]' % outmax] = 256
            if L < outmax[0] or H > outmax[1]:
                inst.status = 'failed'
                inst.kind = 'range'
                inst.why = 'output range [%d,%d] exceeds [%d,%d]' % (L, H, outmax[0], outmax[1])
                inst.cex = search_range(w, fn, lo, hi, out, vs, outmax)
                return
    return go


def wraps(r):
    """a residue that mentions the low bits of something: some truncation was not shown to be exact"""
    return any(getattr(s, 'isL', False) for m in r for s in m)


def coef_facts(ctx, y):
    """(residue, exact-or-sound interval, exact?) of a 16-bit coefficient as signed integer"""
    if type(y) is int:
        v = t.signed(y, 16)
        return ({(): v % Q} if v % Q else {}), (v, v), True
    if y.fl & UNDEF:
        return None, None, False
    p = ctx.sv(y, 16)
    iv = ctx.iv(p)
    r = leaf.range1(y, 16, True)
    if r is not None:
        iv = (max(iv[0], r[0]), min(iv[1], r[1]))
    return ctx.residue(p), iv, r is not None


def single(w, y, want):
    """a coefficient that is a function of one variable: exhaustive check of its residue"""
    if type(y) is int or len(want) != 1:
        return False
    (m, c), = want.items()
    if len(m) != 1 or t.support(y) != {m[0]}:
        return False
    sg, _ = leaf.signature(y)
    k = ('single', sg, c)
    r = w.joint.get(k)
    if r is None:
        dom, val = leaf.enum1(y, m[0])
        r = bool(np.all((sgn16(val) - c * dom) % Q == 0))
        w.joint[k] = r
    return r


def rand_poly(rnd, lo, hi, mode):
    if mode == 0:
        return [rnd.randint(lo, hi) for _ in range(256)]
    if mode == 1:
        return [rnd.choice((lo, hi)) for _ in range(256)]
    if mode == 2:
        a, b = rnd.choice(((lo, hi), (hi, lo), (lo, lo), (hi, hi)))
        s = 1 << rnd.randint(0, 7)
        return [a if (i // s) & 1 else b for i in range(256)]
    if mode == 3:
        p = [0] * 256
        for _ in range(rnd.randint(1, 4)):
            p[rnd.randrange(256)] = rnd.randint(lo, hi)
        return p
    c = rnd.randint(lo, hi)
    return [c] * 256


def npcols(vs, cols):
    """environment for npeval: one column of samples per variable"""
    return {v: (np.array(c, dtype=np.int64).astype(np.uint64) & np.uint64(0xffff)) for v, c in zip(vs, cols)}


def sgn16(a):
    a = np.asarray(a).astype(np.int64)
    return (a ^ 0x8000) - 0x8000


def search_lin(w, fn, lo, hi, out, vs, want, n=4000):
    """look for an input of the precondition on which the code's own terms differ from the specified map;
    samples plus sign-directed extremes for every output"""
    rnd = random.Random(int(__import__('os').environ.get('VERIF_SEED', '1')))
    S = []
    for i in range(400):
        S.append(rand_poly(rnd, lo, hi, i % 5))
    M = np.array([[want[j].get((v,), 0) for v in vs] for j in range(256)], dtype=np.int64)
    # extremes along each row of the map (centered coefficients)
    for j in range(256):
        row = M[j]
        c = np.where(row > Q // 2, row - Q, row)
        S.append([hi if x > 0 else lo for x in c])
        S.append([lo if x > 0 else hi for x in c])
    for ln in (1, 2, 4, 8, 16, 32, 64, 128):
        for a, b in ((lo, hi), (hi, lo)):
            S.append([a if (i // ln) & 1 else b for i in range(256)])
    S += extremes(w, fn, lo, hi, vs)
    A = np.array(S, dtype=np.int64)
    env = {v: A[:, i].astype(np.uint64) & np.uint64(0xffff) for i, v in enumerate(vs)}
    try:
        val = t.npeval([y for y in out if type(y) is T], env)
    except Exception as e:
        return None
    exp = A @ M.T % Q
    for j in range(256):
        y = out[j]
        g = sgn16(val[y]) if type(y) is T else np.full(len(S), t.signed(y, 16))
        g = np.broadcast_to(g, (len(S),))
        bad = np.nonzero((g - exp[:, j]) % Q)[0]
        if len(bad):
            return dict(fn=fn, args=[dict(kind='poly', val=S[int(bad[0])], role='inout')],
                        expect=dict(arg=0, index=j, mod=Q, want=int(exp[int(bad[0]), j])))
    return None


def extremes(w, fn, lo, hi, vs):
    """inputs that push intermediate sums to their limits: for every add/sub node the choice of signs
    that maximises its linear approximation (found by executing on unit perturbations)"""
    res = []
    try:
        x = X(w.prog)
        o = x.new(512 + SLACK, leaf.palign(w.prog), 'r')
        for i, v in enumerate(vs):
            o.cells[2 * i] = (v, 2)
            o.own[2 * i] = o.own[2 * i + 1] = 2 * i
        x.run(w.name(fn), [o.base])
        out = leaf.getpoly(x, o)
        rnd = np.random.RandomState(1)
        nodes = [y for y in t.topo([q for q in out if type(q) is T]) if y.op in ('add', 'sub') and y.w == 16]
        if not nodes:
            return res
        # hill-climb: random +-extreme vectors, keep for each node the best by |value|
        base = rnd.choice([lo, hi], size=(512, 256))
        for it in range(3):
            env = {v: base[:, i].astype(np.int64).astype(np.uint64) & np.uint64(0xffff) for i, v in enumerate(vs)}
            val = t.npeval(nodes, env)
            best = []
            for y in nodes[-600:]:
                g = sgn16(val[y])
                if g.shape:
                    best.append(int(np.argmax(g)))
                    best.append(int(np.argmin(g)))
            b = base[sorted(set(best))]
            m = b.copy()
            flip = rnd.rand(*m.shape) < 0.03
            m = np.where(flip, lo + hi - m, m)
            base = np.concatenate([b, m])[:1500]
        res = [list(map(int, r)) for r in base]
    except Exception:
        pass
    return res


def search_range(w, fn, lo, hi, out, vs, mx):
    rnd = random.Random(1)
    S = [rand_poly(rnd, lo, hi, i % 5) for i in range(2000)] + extremes(w, fn, lo, hi, vs)
    if all(len(t.support(y)) <= 1 for y in out):
        for c in list(range(lo, hi + 1))[:70000:16]:
            pass
        S = [[min(hi, lo + c0 + i) for i in range(256)] for c0 in range(0, hi - lo + 1, 256)]
    A = np.array(S, dtype=np.int64)
    env = {v: A[:, i].astype(np.uint64) & np.uint64(0xffff) for i, v in enumerate(vs)}
    try:
        val = t.npeval([y for y in out if type(y) is T], env)
    except Exception:
        return None
    for j, y in enumerate(out):
        if type(y) is not T:
            continue
        g = np.broadcast_to(sgn16(val[y]), (len(S),))
        bad = np.nonzero((g < mx[0]) | (g > mx[1]))[0]
        if len(bad):
            return dict(fn=fn, args=[dict(kind='poly', val=S[int(bad[0])], role='inout')],
                        expect=dict(arg=0, index=j, range=list(mx)))
    return None


# ---------------------------------------------------------------- basemul
def basemul_spec(a, b, pi, scale):
    """residue vectors a, b (by position, residue dicts) -> residues by position"""
    ipi = [0] * 256
    for pos, i in enumerate(pi):
        ipi[i] = pos
    out = [None] * 256
    mul = poly.resmul
    for i in range(128):
        a0, a1, b0, b1 = a[ipi[2 * i]], a[ipi[2 * i + 1]], b[ipi[2 * i]], b[ipi[2 * i + 1]]
        r0 = poly.resadd(mul(a0, b0, Q), mul(a1, b1, Q), spec.GAMMA[i])
        r1 = poly.resadd(mul(a0, b1, Q), mul(a1, b0, Q))
        out[ipi[2 * i]] = poly.resscale(r0, scale)
        out[ipi[2 * i + 1]] = poly.resscale(r1, scale)
    return [{m: c for m, c in r.items() if c} for r in out]


def verify_basemul(w, fn, ia, ib, outmax=None):
    def go(inst):
        ctx = poly.Ctx()
        va, vb = [], []

        def mk(x):
            objs = []
            r = x.new(512 + SLACK, leaf.palign(w.prog), 'r')
            for nm, vs, (lo, hi) in (('a', va, ia), ('b', vb, ib)):
                o = x.new(512 + SLACK, leaf.palign(w.prog), nm, ro=True)
                for i in range(256):
                    v = t.var('S:%s%d[%d,%d]' % (nm, i, lo, hi), 16, lo=lo, hi=hi, secret=True)
                    vs.append(v)
                    o.cells[2 * i] = (v, 2)
                    o.own[2 * i] = o.own[2 * i + 1] = 2 * i
                objs.append(o)
            return [r.base, objs[0].base, objs[1].base], [r] + objs
        x = w.runx(inst, fn, mk)
        o = [q for q in x.mem.values() if q.name == 'r'][0]
        out = leaf.getpoly(x, o)
        want = basemul_spec([{(v,): 1} for v in va], [{(v,): 1} for v in vb], w.pi, RINV)
        L = H = 0
        bad = None
        for j in range(256):
            r, iv, ex = coef_facts(ctx, out[j])
            if iv is None:
                inst.status, inst.why = 'failed', 'coefficient %d depends on uninitialised memory' % j
                return
            L, H = min(L, iv[0]), max(H, iv[1])
            if r != want[j] and (bad is None or wraps(r)):
                bad = j
                inst.wrap = wraps(r)
        inst.iv = (L, H)
        inst.backend['coefficients congruent to R^-1 times the product (integer-polynomial normal form)'] = 256
        if bad is not None:
            inst.status, inst.kind = 'failed', 'wrap' if inst.wrap else 'residue'
            inst.why = 'coefficient %d is not provably congruent to the specified product%s' % (bad, ' (a wrap-around of an intermediate cannot be excluded)' if inst.wrap else '')
            inst.cex = search_mul(w, fn, ia, ib, out, va, vb)
            return
        if not w.overflow(inst, x, ctx):
            inst.cex = search_mul(w, fn, ia, ib, out, va, vb)
            return
    return go


def search_mul(w, fn, ia, ib, out, va, vb):
    rnd = random.Random(1)
    A = np.array([rand_poly(rnd, ia[0], ia[1], i % 5) for i in range(3000)], dtype=np.int64)
    B = np.array([rand_poly(rnd, ib[0], ib[1], (i // 5) % 5) for i in range(3000)], dtype=np.int64)
    env = {v: A[:, i].astype(np.uint64) & np.uint64(0xffff) for i, v in enumerate(va)}
    env.update({v: B[:, i].astype(np.uint64) & np.uint64(0xffff) for i, v in enumerate(vb)})
    try:
        val = t.npeval([y for y in out if type(y) is T], env)
    except Exception:
        return None
    ipi = w.ipi
    for i in range(128):
        p0, p1 = ipi[2 * i], ipi[2 * i + 1]
        a0, a1, b0, b1 = A[:, p0], A[:, p1], B[:, p0], B[:, p1]
        for pos, e in ((p0, a0 * b0 + a1 * b1 % Q * spec.GAMMA[i]), (p1, a0 * b1 + a1 * b0)):
            e = e % Q * RINV % Q
            y = out[pos]
            g = np.broadcast_to(sgn16(val[y]) if type(y) is T else np.array(t.signed(y, 16)), (len(A),))
            bad = np.nonzero((g - e) % Q)[0]
            if len(bad):
                s = int(bad[0])
                return dict(fn=fn, args=[dict(kind='poly', val=[0] * 256, role='out'), dict(kind='poly', val=A[s].tolist(), role='in'),
                                         dict(kind='poly', val=B[s].tolist(), role='in')],
                            expect=dict(arg=0, index=pos, mod=Q, want=int(e[s])))
    return None


# ---------------------------------------------------------------- encoders: polynomials -> bytes
def enc_len(d, n):
    return 32 * d * n


def want_canon(dom):
    return dom % Q


def want_comp(d):
    return lambda dom: ((2 * ((dom % Q) << d) + Q) // (2 * Q)) % (1 << d)


def verify_encode(w, fn, d, kind, lo, hi, npoly, perm):
    """field f (d bits) of the output = F(coefficient at position perm[f])"""
    def go(inst):
        vs = []
        n = 256 * npoly
        nb = enc_len(d, npoly)

        def mk(x):
            r = x.new(nb + SLACK, 1, 'r')
            a = x.new(512 * npoly, leaf.palign(w.prog), 'a', ro=True)
            for i in range(n):
                v = t.var('S:e%d[%d,%d]' % (i, lo, hi), 16, lo=lo, hi=hi, secret=True)
                vs.append(v)
                a.cells[2 * i] = (v, 2)
                a.own[2 * i] = a.own[2 * i + 1] = 2 * i
            return [r.base, a.base], [r, a]
        x = w.runx(inst, fn, mk)
        r = [q for q in x.mem.values() if q.name == 'r'][0]
        bs = leaf.getbytes(x, r, nb)
        f = want_canon if kind == 'canon' else want_comp(d)
        tot = 0
        for j in range(n):
            x_ = field(bs, j * d, d)
            src = vs[(j & ~255) + perm[j & 255]]
            ok, info = w.fields.check(x_, src, f, (kind, d))
            if ok is None:
                # the code's own expression is not a function of that coefficient alone
                ok, info = joint(w, x_, src, f, (kind, d))
            if ok is True:
                tot += 1
                continue
            if ok is False:
                inst.status, inst.kind = 'failed', 'value'
                if isinstance(info, dict):
                    vals = [info.get(v, max(lo, min(hi, 0))) for v in vs]
                else:
                    vals = [max(lo, min(hi, 0))] * n
                    vals[(j & ~255) + perm[j & 255]] = info
                inst.why = 'field %d of the output differs from the specification' % j
                inst.cex = dict(fn=fn, args=[dict(kind='bytes', val=[0] * nb, role='out'), dict(kind='poly', val=vals, role='in')],
                                expect=dict(arg=0, bits=[j * d, d], want=int(f(np.array([vals[(j & ~255) + perm[j & 255]]]))[0])))
                return
            inst.status, inst.kind = 'failed', 'value'
            inst.why = 'field %d: %s' % (j, info)
            inst.cex = search_encode(w, fn, d, f, lo, hi, n, perm, bs, vs)
            return
        inst.backend['output fields (exhaustive over every coefficient value)'] = tot
        if inst.foot[0][3] > nb:
            inst.extra = inst.foot[0][3] - nb
        w.overflow(inst, x, poly.Ctx())
    return go


def field(bs, bit, d):
    parts = []
    p = bit
    end = bit + d
    while p < end:
        b, o = p >> 3, p & 7
        n = min(8 - o, end - p)
        parts.append((t.ext(bs[b], o, n, 8), n))
        p += n
    return t.cat(parts)


def joint(w, x, src, f, key=None):
    """the field's term mentions other leaves: z3 decides whether it really depends on them; if it does not,
    the restricted term is enumerated.  Shared between structurally identical fields."""
    if type(x) is T and x.fl & UNDEF:
        return None, 'depends on uninitialised memory'
    if type(x) is T:
        sg, lv = leaf.signature(x)
        ck = (sg, lv.index(src) if src in lv else None, key)
        if key is not None and w.joint.get(ck) is True:
            return True, None
        if sum(v.w for v in lv) <= 4096 and len(lv) <= 256 and w.jbudget > 0:
            t0 = time.time()
            try:
                st, y = smt.independent(x, src, 20)
            except ValueError as e:
                st, y = 'unknown', str(e)
            w.jbudget -= time.time() - t0
            if st == 'unsat':
                ok, info = w.fields.check(y, src, f, key)
                if ok is True:
                    w.joint[ck] = True
                if ok is False:
                    env = {v: None for v in lv}
                    return False, {src: info}
                return ok, info
            if st == 'sat':
                for m in y:
                    lo, hi = leaf.leafrange(src)
                    sv = m.get(src, max(lo, min(hi, 0)))
                    g = t.ceval([x], {v: c & t.M(v.w) for v, c in m.items()})[0]
                    if g != int(f(np.array([sv]))[0]) & t.M(x.w):
                        m = dict(m)
                        m[src] = sv
                        return False, m
    # sample
    sup = t.support(x)
    rnd = np.random.RandomState(1)
    env = {}
    dom = {}
    for v in sup | {src}:
        lo, hi = leaf.leafrange(v)
        dom[v] = rnd.randint(lo, hi + 1, size=20000)
        env[v] = dom[v].astype(np.uint64) & np.uint64(t.M(v.w))
    try:
        val = t.npeval([x], env)[x] if type(x) is T else np.full(20000, x)
    except Exception as e:
        return None, str(e)
    bad = np.nonzero(np.broadcast_to(val, (20000,)).astype(np.int64) != (f(dom[src]) & t.M(x.w if type(x) is T else 64)))[0]
    if len(bad):
        return False, {v: int(dom[v][bad[0]]) for v in dom}
    return None, 'term depends on %d leaves; not decided' % len(sup)


def search_encode(w, fn, d, f, lo, hi, n, perm, bs, vs):
    return None


# ---------------------------------------------------------------- decoders: bytes -> polynomials
def verify_decode(w, fn, d, npoly, want, key, perm, align=1, slack=SLACK, outpad=0):
    """coefficient at position p = want(field perm^-1) for every value of the d-bit field"""
    def go(inst):
        n = 256 * npoly
        nb = enc_len(d, npoly)
        fs = [t.var('S:f%d:%d' % (j, d), d, secret=True) for j in range(n)]

        def mk(x):
            r = x.new(512 * npoly, leaf.palign(w.prog), 'r')
            a = x.new(nb + slack, align, 'a', ro=True)
            for i in range(nb):
                lo, hi = 8 * i, 8 * i + 8
                parts = []
                p = lo
                while p < hi:
                    j, o = divmod(p, d)
                    m = min(d - o, hi - p)
                    parts.append((t.ext(fs[j], o, m, d), m))
                    p += m
                a.cells[i] = (t.cat(parts), 1)
                a.own[i] = i
            return [r.base, a.base], [r, a]
        x = w.runx(inst, fn, mk)
        r = [q for q in x.mem.values() if q.name == 'r'][0]
        out = leaf.getpoly(x, r, npoly)
        lo = hi = 0
        for j in range(n):
            y = out[(j & ~255) + perm[j & 255]]
            wf = lambda dom: want(dom) & 0xffff
            ok, info = w.fields.check(y, fs[j], wf, key)
            if ok is None:
                ok, info = joint(w, y, fs[j], wf, key)
            if ok is not True:
                inst.status, inst.kind = 'failed', 'value'
                inst.why = 'coefficient of field %d: %s' % (j, 'wrong value' if ok is False else info)
                vals = [0] * n
                if ok is False:
                    for v, c in (info.items() if isinstance(info, dict) else [(fs[j], info)]):
                        if v in fs:
                            vals[fs.index(v)] = c
                else:
                    s = sample_decode(y, fs, j, want)
                    if s is None:
                        return
                    vals = s
                v = sum(x_ << (d * i) for i, x_ in enumerate(vals))
                inst.cex = dict(fn=fn, args=[dict(kind='poly', val=[0] * n, role='out'),
                                             dict(kind='bytes', val=list(v.to_bytes(nb, 'little')), role='in', align=align)],
                                expect=dict(arg=0, index=(j & ~255) + perm[j & 255], want=int(want(np.array([vals[j]]))[0])))
                return
        inst.backend['decoded coefficients (exhaustive over every field value)'] = n
        w.overflow(inst, x, poly.Ctx())
    return go


def sample_decode(y, fs, j, want):
    rnd = np.random.RandomState(1)
    sup = t.support(y)
    if any(v not in fs for v in sup):
        return None
    N = 5000
    dom = {v: rnd.randint(0, 1 << v.w, size=N) for v in set(sup) | {fs[j]}}
    try:
        val = t.npeval([y], {v: d.astype(np.uint64) for v, d in dom.items()})[y] if type(y) is T else np.full(N, y)
    except Exception:
        return None
    bad = np.nonzero(np.broadcast_to(val, (N,)).astype(np.int64) != (want(dom[fs[j]]) & 0xffff))[0]
    if not len(bad):
        return None
    return [int(dom[v][bad[0]]) if v in dom else 0 for v in fs]


def want_dec(d):
    return lambda y: (2 * Q * y + (1 << d)) // (1 << (d + 1))


def want_cbd(eta):
    def f(y):
        r = np.zeros_like(y)
        for i in range(eta):
            r = r + (y >> i & 1) - (y >> (eta + i) & 1)
        return r
    return f


# ====================================================================== caller side
def addr_range(x, addr, foot, what):
    """the footprint of the contract must be accessible at the call"""
    if type(addr) is not int:
        raise Unsupported('symbolic pointer passed to ' + what)
    rlo, rhi, wlo, whi = foot
    if rhi > rlo:
        x.obj(addr + rlo, rhi - rlo, 'read (in %s)' % what)
        o = x.mem[addr >> 32]
        if o.trk:
            o.rlo = min(o.rlo, addr + rlo - o.base)
            o.rhi = max(o.rhi, addr + rhi - o.base)
    if whi > wlo:
        o, off = x.obj(addr + wlo, whi - wlo, 'write (in %s)' % what)
        if o.ro:
            raise Violation('frame', '%s writes to read-only %s' % (what, o.name), x.where())


def need_align(x, addr, al, what):
    if addr % al:
        o = x.mem[addr >> 32]
        raise Violation('alignment', '%s called with %s+%d, needs alignment %d' % (what, o.name, addr - o.base, al), x.where())


def overlap(a, n, b, m):
    return a < b + m and b < a + n


class Proto:
    """caller-side semantics inside one top-level run"""
    last = 0

    def __init__(self, w):
        self.w = w
        self.ctx = poly.Ctx()
        self.keys = {}
        self.n = 0
        self.public = set()
        self.seeds = []           # secret seeds given to the matrix sampler
        self.argfl = 0            # flags of the arguments of the contract being instantiated

    # ghost algebra -------------------------------------------------
    def intern(self, key):
        i = self.keys.get(key)
        if i is None:
            Proto.last += 1
            i = Proto.last               # unique in the process: symbols of different runs never coincide
            self.keys[key] = i
        return i

    def normvec(self, v):
        """(c, key) with v = c * v', v' normalised"""
        for r in v:
            if r:
                k = min(r, key=lambda m: tuple(poly._sk(x) for x in m))
                c = r[k]
                break
        else:
            return 0, None, None
        ci = pow(c, -1, Q)
        nv = [poly.resscale(r, ci) for r in v]
        return c, self.intern(('vec', tuple(poly.reskey(r) for r in nv))), nv

    def atoms(self, name, v, fl):
        """residues of NTT/INTT of a residue vector (natural order)"""
        c, key, nv = self.normvec(v)
        if not c:
            return [{} for _ in range(256)]
        out = []
        for i in range(256):
            s = t.uf(name, 16, (key, i), fl, info=dict(lo=0, hi=Q - 1))
            out.append({(s,): c})
        return out

    def canon(self, r, fl):
        k = poly.reskey(r)
        if not k:
            return 0
        if len(r) == 1 and () in r:
            return r[()]
        return t.uf('canon', 12, (self.intern(k),), fl, info=dict(lo=0, hi=Q - 1, res=r))

    def comp(self, r, d, fl):
        k = poly.reskey(r)
        if not k or (len(r) == 1 and () in r):
            return spec.compress1(r.get((), 0), d)
        return t.uf('comp', d, (self.intern(k),), fl)

    def decomp(self, y, d):
        if type(y) is int:
            return spec.decompress1(y, d)
        return t.uf('dec', 16, (d, y), y.fl, info=dict(lo=0, hi=Q))

    def f12(self, y):
        if type(y) is int:
            return y
        if y.op == 'uf' and y.p[0] == 'canon':
            # decoding an encoded canonical residue: same residue, canonical range
            return t.uf('f12', 16, (y,), y.fl, info=dict(lo=0, hi=Q - 1, res=y.info['res']))
        return t.uf('f12', 16, (y,), y.fl, info=dict(lo=0, hi=4095))

    def cbd(self, y, eta):
        if type(y) is int:
            return int(want_cbd(eta)(np.array([y]))[0]) & 0xffff
        return t.uf('cbd', 16, (eta, y), y.fl, info=dict(lo=-eta, hi=eta))

    def res_of(self, y):
        """residue of a 16-bit ghost value"""
        return self.ctx.residue(self.ctx.sv(y, 16)) if type(y) is T else ({(): t.signed(y, 16) % Q} if t.signed(y, 16) % Q else {})

    # reading arguments --------------------------------------------
    def readpoly(self, x, addr, n=1):
        vs = [x.load(addr + 2 * i, 2) for i in range(256 * n)]
        rs, lo, hi, fl = [], None, None, 0
        for y in vs:
            if type(y) is int:
                v = t.signed(y, 16)
                a = b = v
                r = {(): v % Q} if v % Q else {}
            else:
                if y.fl & UNDEF:
                    raise Violation('uninit', 'uninitialised coefficient used', x.where())
                fl |= y.fl
                p = self.ctx.sv(y, 16)
                a, b = self.ctx.iv(p)
                r = self.ctx.residue(p)
            rs.append(r)
            lo = a if lo is None or a < lo else lo
            hi = b if hi is None or b > hi else hi
        return vs, rs, lo, hi, fl

    def writepoly(self, x, addr, rs, iv, fl, name):
        self.n += 1
        for i, r in enumerate(rs):
            if not r and False:
                v = 0
            else:
                v = t.fresh('g_%s%d' % (name, i), 16, lo=iv[0], hi=iv[1], info=dict(res=r))
                v.fl |= fl
            x.store(addr + 2 * i, v, 2)

    def leak(self, x, inst, fl):
        if fl & SECRET:
            for e in inst.leaks:
                x.events.append((e[0], SECRET, '%s: %s' % (inst.fn, e[1]), e[2]))


def handlers(pr):
    """caller-side handlers for one Proto"""
    w = pr.w
    al = leaf.palign(w.prog)
    k = w.k

    def lin(fn, name):
        def h(x, args):
            a = args[0]
            vs, rs, lo, hi, fl = pr.readpoly(x, a)
            pr.argfl = fl
            key = (fn, lo, hi)
            i = w.inst(key, fn, verify_linear(w, fn, lo, hi))
            addr_range(x, a, i.foot[0], fn)
            need_align(x, a, al, fn)
            pr.leak(x, i, fl)
            if fn == 'poly_ntt':
                at = pr.atoms('ntt', rs, fl)
                out = [at[w.pi[p]] for p in range(256)]
            elif fn == 'poly_invntt_tomont':
                nat = [rs[w.ipi[i_]] for i_ in range(256)]
                out = [poly.resscale(r, R16) for r in pr.atoms('intt', nat, fl)]
            elif fn == 'poly_reduce':
                out = rs
            else:
                out = [poly.resscale(r, R16) for r in rs]
            pr.writepoly(x, a, out, i.iv, fl, name)
        return h

    def basemul(x, args):
        r, a, b = args
        fn = 'poly_basemul_montgomery'
        _, ra, la, ha, fa = pr.readpoly(x, a)
        _, rb, lb, hb, fb = pr.readpoly(x, b)
        pr.argfl = fa | fb
        i = w.inst((fn, la, ha, lb, hb), fn, verify_basemul(w, fn, (la, ha), (lb, hb)))
        for p, f in zip(args, i.foot):
            addr_range(x, p, f, fn)
            need_align(x, p, al, fn)
        if overlap(r, 512, a, 512) or overlap(r, 512, b, 512):
            raise Unsupported('aliased arguments of ' + fn)
        pr.leak(x, i, fa | fb)
        pr.writepoly(x, r, basemul_spec(ra, rb, w.pi, RINV), i.iv, fa | fb, 'bm')

    def encode(fn, d, kind, npoly, perm):
        def h(x, args):
            r, a = args[:2]
            vs, rs, lo, hi, fl = pr.readpoly(x, a, npoly)
            pr.argfl = fl
            pm = perm()
            i = w.inst((fn, lo, hi), fn, verify_encode(w, fn, d, kind, lo, hi, npoly, pm))
            addr_range(x, r, i.foot[0], fn)
            addr_range(x, a, i.foot[1], fn)
            need_align(x, a, al, fn)
            pr.leak(x, i, fl)
            nb = enc_len(d, npoly)
            if overlap(r, nb, a, 512 * npoly):
                raise Unsupported('aliased arguments of ' + fn)
            fs = []
            for j in range(256 * npoly):
                src = rs[(j & ~255) + pm[j & 255]]
                fs.append((pr.canon(src, fl) if kind == 'canon' else pr.comp(src, d, fl), d))
            bs = pack(fs)
            for q, b in enumerate(bs):
                x.store(r + q, b, 1)
            for q in range(nb, i.foot[0][3]):
                x.store(r + q, t.fresh('clobber ' + fn, 8, undef=True), 1)
        return h

    def decode(fn, d, npoly, want, key, perm, mkv, align=1):
        def h(x, args):
            r, a = args[:2]
            pm = perm()
            pr.argfl = 0
            if type(a) is int:
                for q in range(enc_len(d, npoly)):
                    pr.argfl |= t.flags(x.load(a + q, 1))
            i = w.inst((fn,), fn, verify_decode(w, fn, d, npoly, want, key, pm, align))
            addr_range(x, r, i.foot[0], fn)
            addr_range(x, a, i.foot[1], fn)
            need_align(x, r, al, fn)
            need_align(x, a, align, fn)
            nb = enc_len(d, npoly)
            if overlap(a, nb, r, 512 * npoly):
                raise Unsupported('aliased arguments of ' + fn)
            bs = [x.load(a + q, 1) for q in range(nb)]
            fl = 0
            for b in bs:
                fl |= t.flags(b)
            if fl & UNDEF:
                raise Violation('uninit', '%s reads uninitialised bytes' % fn, x.where())
            pr.leak(x, i, fl)
            for j in range(256 * npoly):
                y = field(bs, j * d, d)
                x.store(r + 2 * ((j & ~255) + pm[j & 255]), mkv(y), 2)
        return h

    ident = lambda: list(range(256))
    du, dv, e1, e2 = w.P['du'], w.P['dv'], w.P['eta1'], w.P['eta2']
    H = {
        'poly_ntt': lin('poly_ntt', 'ntt'),
        'poly_invntt_tomont': lin('poly_invntt_tomont', 'intt'),
        'poly_reduce': lin('poly_reduce', 'red'),
        'poly_tomont': lin('poly_tomont', 'tom'),
        'poly_basemul_montgomery': basemul,
        'poly_tobytes': encode('poly_tobytes', 12, 'canon', 1, lambda: w.ipi),
        'poly_frombytes': decode('poly_frombytes', 12, 1, lambda y: y, 'id12', lambda: w.ipi, pr.f12),
        'poly_compress': encode('poly_compress', dv, 'comp', 1, ident),
        'poly_decompress': decode('poly_decompress', dv, 1, want_dec(dv), ('dec', dv), ident, lambda y: pr.decomp(y, dv)),
        'polyvec_compress': encode('polyvec_compress', du, 'comp', k, ident),
        'polyvec_decompress': decode('polyvec_decompress', du, k, want_dec(du), ('dec', du), ident, lambda y: pr.decomp(y, du)),
        'poly_tomsg': encode('poly_tomsg', 1, 'comp', 1, ident),
        'poly_frommsg': decode('poly_frommsg', 1, 1, want_dec(1), ('dec', 1), ident, lambda y: pr.decomp(y, 1)),
        'poly_cbd_eta1': decode('poly_cbd_eta1', 2 * e1, 1, want_cbd(e1), ('cbd', e1), ident, lambda y: pr.cbd(y, e1), 1 if w.impl == 'ref' else 32),
        'poly_cbd_eta2': decode('poly_cbd_eta2', 2 * e2, 1, want_cbd(e2), ('cbd', e2), ident, lambda y: pr.cbd(y, e2), 1 if w.impl == 'ref' else 32),
    }
    if w.addcheck:
        H.update(addsub(pr))
    return H


def verify_addsub(w, fn, ia, ib):
    """poly_add / poly_sub: coefficientwise, exact in 16 bits for every pair of operands"""
    def go(inst):
        va, vb = [], []

        def mk(x):
            objs = [x.new(512 + SLACK, leaf.palign(w.prog), 'r')]
            for nm, vs, (lo, hi) in (('a', va, ia), ('b', vb, ib)):
                o = x.new(512 + SLACK, leaf.palign(w.prog), nm, ro=True)
                for i in range(256):
                    v = t.var('S:%s%d[%d,%d]' % (nm, i, lo, hi), 16, lo=lo, hi=hi, secret=True)
                    vs.append(v)
                    o.cells[2 * i] = (v, 2)
                    o.own[2 * i] = o.own[2 * i + 1] = 2 * i
                objs.append(o)
            return [q.base for q in objs], objs
        x = w.runx(inst, fn, mk)
        out = leaf.getpoly(x, [q for q in x.mem.values() if q.name == 'r'][0])
        f = t.add if fn == 'poly_add' else t.sub
        s = 1 if fn == 'poly_add' else -1
        lo = ia[0] + (ib[0] if s > 0 else -ib[1])
        hi = ia[1] + (ib[1] if s > 0 else -ib[0])
        inst.iv = (lo, hi)
        mk_cex = lambda j, a, b: dict(fn=fn, args=[dict(kind='poly', val=[0] * 256, role='out'), dict(kind='poly', val=[a] * 256, role='in'),
                                                    dict(kind='poly', val=[b] * 256, role='in')], expect=dict(arg=0, index=j, want16=a + s * b, want=a + s * b))
        for j in range(256):
            if out[j] is not f(va[j], vb[j], 16):
                inst.status, inst.kind, inst.why = 'failed', 'value', 'coefficient %d is not a[%d]%sb[%d]' % (j, j, '+' if s > 0 else '-', j)
                inst.cex = mk_cex(j, min(ia[1], 5), min(ib[1], 3))
                return
        inst.backend['coefficientwise sum (normal form)'] = 256
        if lo < -32768 or hi > 32767:
            inst.status, inst.kind = 'failed', 'range'
            inst.why = 'operands in [%d,%d] and [%d,%d]: the result leaves int16' % (ia + ib)
            a, b = (ia[1], ib[1] if s > 0 else ib[0]) if hi > 32767 else (ia[0], ib[0] if s > 0 else ib[1])
            inst.cex = mk_cex(0, a, b)
            inst.cex['expect'] = dict(arg=0, index=0, exact=a + s * b)
            return
        inst.backend['result range [%d,%d] inside int16' % (lo, hi)] = 256
        w.overflow(inst, x, poly.Ctx())
    return go


def addsub(pr):
    w = pr.w

    def mk(fn):
        def h(x, args):
            va, ra, la, ha, fa = pr.readpoly(x, args[1])
            vb, rb, lb, hb, fb = pr.readpoly(x, args[2])
            i = w.inst((fn, la, ha, lb, hb), fn, verify_addsub(w, fn, (la, ha), (lb, hb)))
            for p, f in zip(args, i.foot):
                addr_range(x, p, f, fn)
                need_align(x, p, leaf.palign(w.prog), fn)
            op = t.add if fn == 'poly_add' else t.sub
            pr.argfl = fa | fb
            pr.leak(x, i, fa | fb)
            for q in range(256):
                x.store(args[0] + 2 * q, op(va[q], vb[q], 16), 2)
        return h
    return {f: mk(f) for f in ('poly_add', 'poly_sub') if w.prog.find(f) is not None}


def pack(fs):
    """list of (field,width) -> bytes"""
    bs = []
    cur = []
    n = 0
    for v, w in fs:
        o = 0
        while o < w:
            m = min(8 - n, w - o)
            cur.append((t.ext(v, o, m, w), m))
            n += m
            o += m
            if n == 8:
                bs.append(t.cat(cur))
                cur = []
                n = 0
    return bs
