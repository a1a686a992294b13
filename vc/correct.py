"""Decryption inverts encryption within the noise bound (C16).

Composition of the contracts of the real code, key generation -> encryption -> decryption, in one ghost
algebra: the residue handed to poly_tomsg is  mu(m) + (e2 - s.e1 + INTT(e o y)) + compression errors  and
nothing else (matrix, message-independent secrets and masks cancel for every value); and poly_tomsg of any
value closer than floor(q/4) to mu(b) is b, by enumeration on the code of poly_frommsg and poly_tomsg."""
import time, random
import numpy as np
from . import term as t, contracts as C, proto, spec, leaf, search, native, poly, arith as A
from .term import T, SECRET, UNDEF
from .execu import Violation
from .ir import Unsupported
from .jobs import world, guarded, opname

Q = 3329
BOUND = 832


class PKE(C.Proto):
    """remembers what the ghost symbols stand for, so that decryption can be composed with encryption"""

    def __init__(self, w, share=None):
        C.Proto.__init__(self, w)
        if share is not None:
            self.keys, self.public, self.mem = share.keys, share.public, share.mem
        else:
            self.mem = dict(comp={}, intt={}, err={})
        self.msgr = []

    def comp(self, r, d, fl):
        y = C.Proto.comp(self, r, d, fl)
        if type(y) is T:
            self.mem['comp'][y] = r
        return y

    def decomp(self, y, d):
        r = self.mem['comp'].get(y) if type(y) is T else None
        if r is None or d == 1:
            return C.Proto.decomp(self, y, d)
        # Decompress(Compress(r)) = r + (compression error), the error being part of the noise by definition
        e = t.uf('err', 16, (y,), y.fl)
        self.mem['err'][y] = e
        return t.uf('dcm', 16, (d, y), y.fl, info=dict(lo=0, hi=Q, res=poly.resadd(r, {(e,): 1})))

    def split(self, v, name):
        """v = sum of c * (whole symbol vector of an earlier inverse transform) + rest"""
        parts = {}
        for m, c in v[0].items():
            if len(m) == 1 and m[0] in self.mem[name]:
                parts[m[0]] = c
        got, rest = [], [dict(r) for r in v]
        for s0, c in parts.items():
            vec, syms = self.mem[name][s0]
            if all(rest[i].get((syms[i],)) == c for i in range(256)):
                for i in range(256):
                    del rest[i][(syms[i],)]
                got.append((c, vec))
        return got, rest

    def atoms(self, name, v, fl):
        if name == 'ntt':
            got, rest = self.split(v, 'intt')
            out = C.Proto.atoms(self, 'ntt', rest, fl)
            for c, vec in got:
                out = [poly.resadd(a, b, c) for a, b in zip(out, vec)]
            return out
        out = C.Proto.atoms(self, name, v, fl)
        if name == 'intt':
            c, key, nv = self.normvec(v)
            if c:
                syms = [next(iter(r))[0] for r in out]
                self.mem['intt'][syms[0]] = (nv, syms)
        return out


def msg_handlers(pr):
    """poly_frommsg / poly_tomsg with the footprint of their contracts; what they compute is decided by
    the threshold obligation"""
    w = pr.w
    k = w.k
    al = leaf.palign(w.prog)

    def foot(x, a, n, wr, what):
        if type(a) is not int:
            raise Unsupported('symbolic pointer passed to ' + what)
        o, _ = x.obj(a, n, ('write' if wr else 'read') + ' (in %s)' % what)

    def frommsg(x, args):
        r, a = args[:2]
        foot(x, a, 32, False, 'poly_frommsg')
        foot(x, r, 512, True, 'poly_frommsg')
        C.need_align(x, r, al, 'poly_frommsg')
        bs = [x.load(a + i, 1) for i in range(32)]
        if any(t.flags(b) & UNDEF for b in bs):
            raise Violation('uninit', 'poly_frommsg reads uninitialised bytes', x.where())
        lo, hi = pr.murange
        for i in range(256):
            b = t.ext(bs[i // 8], i % 8, 1, 8)
            x.store(r + 2 * i, t.uf('mu', 16, (b,), t.flags(b), info=dict(lo=lo, hi=hi)), 2)

    def tomsg(x, args):
        r, a = args[:2]
        foot(x, r, 32, True, 'poly_tomsg')
        C.need_align(x, a, al, 'poly_tomsg')
        vs, rs, lo, hi, fl = pr.readpoly(x, a)
        pr.msgr.append((rs, lo, hi))
        n = len(pr.msgr)
        for i in range(32):
            x.store(r + i, t.uf('tomsg', 8, (pr.intern(('tomsg', tuple(poly.reskey(q) for q in rs))), i), fl), 1)
    return {'poly_frommsg': frommsg, 'poly_tomsg': tomsg}


FNS = ['poly_ntt', 'poly_invntt_tomont', 'poly_basemul_montgomery', 'poly_tomont', 'poly_reduce', 'poly_tobytes', 'poly_frombytes']


def has(w, fn, n):
    f = w.prog.find(fn)
    return f is not None and len(w.prog.funcs[f].params) == n


def setup(w, pr):
    return proto.setup(w, pr, msg_handlers)


def fill(x, name, n, vals):
    o = x.new(n, 1, name, ro=True)
    for i, v in enumerate(vals):
        o.cells[i] = (v, 1)
        o.own[i] = i
    return o


# ---------------------------------------------------------------- the algebra
def mu_values(w, rec):
    """poly_frommsg on the real code: coefficient i as a function of message bit i"""
    inst = C.Inst('%s poly_frommsg' % w.cfg, 'poly_frommsg')
    bits = [t.var('S:b%d' % i, 1, secret=True) for i in range(256)]

    def mk(x):
        r = x.new(512 + C.SLACK, leaf.palign(w.prog), 'r')
        a = x.new(32 + C.SLACK, 1, 'a', ro=True)
        for i in range(32):
            a.cells[i] = (t.cat([(bits[8 * i + j], 1) for j in range(8)]), 1)
            a.own[i] = i
        return [r.base, a.base], [r, a]
    x = w.runx(inst, 'poly_frommsg', mk)
    out = leaf.getpoly(x, [q for q in x.mem.values() if q.name == 'r'][0])
    res = []
    for i in range(256):
        if type(out[i]) is T and out[i].fl & UNDEF:
            raise Violation('uninit', 'poly_frommsg leaves coefficient %d unset' % i, '')
        sup = t.support(out[i])
        if not sup <= {bits[i]}:
            st, y = smt_ind(out[i], bits[i])
            if st is None:
                return bits, res, i
            out[i] = st
        v = [t.subst([out[i]], {bits[i]: b})[0] for b in (0, 1)]
        if not all(type(q) is int for q in v):
            return bits, res, i
        res.append(tuple(t.signed(q, 16) for q in v))
    return bits, res, None


def smt_ind(y, b):
    from . import smt
    try:
        st, z = smt.independent(y, b, 30)
    except ValueError:
        return None, None
    return (z, None) if st == 'unsat' else (None, None)


def job_threshold(rec, impl, k):
    """poly_tomsg(mu(b) + n) = b for every |n| < 832, on the values poly_tomsg can be given"""
    w = world(impl, k, rec)
    name = '%s threshold' % w.cfg

    def go():
        if w.prog.find('poly_frommsg') is None or w.prog.find('poly_tomsg') is None:
            rec.unk(name, 'poly_frommsg / poly_tomsg do not exist any more')
            return
        bits, mus, stop = mu_values(w, rec)
        rec.func('poly_frommsg', w.cfg)
        if stop is not None:
            rec.bad('%s poly_frommsg: coefficient %d is a function of message bit %d' % (w.cfg, stop, stop), 'z3', 'it depends on other bits',
                    cex_frommsg(stop, None), kind='value')
            return
        rec.ok('%s poly_frommsg: coefficient i is a function of message bit i' % w.cfg, 'term support', 256)
        lo, hi = msgrange(w, rec, mus)
        inst = C.Inst('%s poly_tomsg' % w.cfg, 'poly_tomsg')
        vs = []

        def mk(x):
            r = x.new(32 + C.SLACK, 1, 'r')
            a = x.new(512, leaf.palign(w.prog), 'a', ro=True)
            for i in range(256):
                v = t.var('S:w%d[%d,%d]' % (i, lo, hi), 16, lo=lo, hi=hi, secret=True)
                vs.append(v)
                a.cells[2 * i] = (v, 2)
                a.own[2 * i] = a.own[2 * i + 1] = 2 * i
            return [r.base, a.base], [r, a]
        x = w.runx(inst, 'poly_tomsg', mk)
        rec.func('poly_tomsg', w.cfg)
        bs = leaf.getbytes(x, [q for q in x.mem.values() if q.name == 'r'][0], 32)
        cache = {}
        n = 0
        for i in range(256):
            y = t.ext(bs[i // 8], i % 8, 1, 8)
            ob = '%s poly_tomsg(mu(b)+n) bit %d is b for every |n| < %d' % (w.cfg, i, BOUND)
            if type(y) is T and y.fl & UNDEF:
                rec.bad(ob, 'enumeration', 'depends on uninitialised memory')
                return
            if not t.support(y) <= {vs[i]}:
                z, _ = smt_ind(y, vs[i])
                if z is None:
                    c = sample_tomsg(y, vs, i, mus[i])
                    if c:
                        rec.bad(ob, 'evaluation of the code\'s own terms', 'depends on other coefficients', c, kind='value')
                    else:
                        rec.unk(ob, 'depends on other coefficients; not decided')
                    return
                y = z
            sg = (leaf.signature(y)[0], mus[i])
            r = cache.get(sg)
            if r is None:
                dom, val = leaf.enum1(y, vs[i])
                r = (None, None)
                for b in (0, 1):
                    d = (dom - mus[i][b]) % Q
                    d = np.minimum(d, Q - d)
                    bad = np.nonzero((d < BOUND) & (val.astype(np.int64) != b))[0]
                    if len(bad):
                        r = (int(dom[bad[0]]), b)
                cache[sg] = r
            if r[0] is not None:
                v, b = r
                rec.bad(ob, 'enumeration', 'value %d is within %d of mu(%d) = %d and is decoded as %d' % (v, BOUND, b, mus[i][b], 1 - b), tomsg_cex(i, v, b), kind='value')
                return
            n += 1
        rec.ok('%s poly_tomsg(mu(b)+n) = b for every |n| < %d, arguments in [%d,%d]' % (w.cfg, BOUND, lo, hi), 'enumeration of every coefficient value', n)
    guarded(rec, name, go)


def tomsg_cex(i, v, b):
    p = [0] * 256
    p[i] = v
    return dict(fn='poly_tomsg', args=[dict(kind='bytes', val=[0] * 32, role='out'), dict(kind='poly', val=p, role='in')],
                expect=dict(arg=0, bits=[i, 1], want=b))


def cex_frommsg(i, v):
    return None


def sample_tomsg(y, vs, i, mu):
    rnd = np.random.RandomState(1)
    N = 20000
    dom = {}
    for v in t.support(y) | {vs[i]}:
        lo, hi = leaf.leafrange(v)
        dom[v] = rnd.randint(lo, hi + 1, size=N)
    val = t.npeval([y], {v: d.astype(np.uint64) & np.uint64(0xffff) for v, d in dom.items()})[y]
    for b in (0, 1):
        d = (dom[vs[i]] - mu[b]) % Q
        d = np.minimum(d, Q - d)
        bad = np.nonzero((d < BOUND) & (val.astype(np.int64) != b))[0]
        if len(bad):
            s = int(bad[0])
            p = [int(dom[v][s]) if v in dom else 0 for v in vs]
            return dict(fn='poly_tomsg', args=[dict(kind='bytes', val=[0] * 32, role='out'), dict(kind='poly', val=p, role='in')],
                        expect=dict(arg=0, bits=[i, 1], want=b))
    return None


def quietworld(impl, k, rec, w0=None):
    w = A.cworld(impl, k, rec, FNS)
    return w


def msgrange(w, rec, mus):
    """range of the coefficients given to poly_tomsg by indcpa_dec, for every secret key and ciphertext"""
    w2 = A.cworld(w.impl, w.k, leaf.Rec(), FNS)
    try:
        pr = PKE(w2)
        pr.murange = (0, 1665)
        pr, x = setup(w2, pr)
        z = spec.sizes(w.k)
        m = x.new(32, 1, 'm')
        c, _ = proto.inbytes(x, 'c', z['ct'], lambda i: False)
        s, _ = proto.inbytes(x, 's', 384 * w.k, lambda i: True)
        x.run(w2.name('indcpa_dec'), [m.base, c.base, s.base])
        lo = min(r[1] for r in pr.msgr)
        hi = max(r[2] for r in pr.msgr)
        return lo, hi
    except Exception as e:
        rec.assume.add('%s: range of the argument of poly_tomsg not derived (%s); [0,q-1] is used' % (w.cfg, str(e)[:120]))
        return 0, Q - 1


def job_algebra(rec, k, ik, ie, idc):
    """key generation (implementation ik), encryption (ie), decryption (idc) composed"""
    ws = {}
    for i in {ik, ie, idc}:
        ws[i] = A.cworld(i, k, rec, FNS)
    name = 'K=%d indcpa_keypair_derand(%s) ; indcpa_enc(%s) ; indcpa_dec(%s)' % (k, ik, ie, idc)
    z = spec.sizes(k)
    P = spec.PARAMS[k]
    n = 384 * k

    def go():
        for i, fn, na in ((ik, 'indcpa_keypair_derand', 3), (ie, 'indcpa_enc', 4), (idc, 'indcpa_dec', 3)):
            if not has(ws[i], fn, na):
                rec.unk(name, '%s: %s has another interface' % (i, fn))
                return
        mr = [0, 0]
        for i in ws.values():
            try:
                for m in mu_values(i, rec)[1]:
                    mr = [min(mr[0], *m), max(mr[1], *m)]
            except (Unsupported, Violation):
                pass
        # key pair
        p1 = PKE(ws[ik])
        p1.murange = mr
        p1, x1 = setup(ws[ik], p1)
        pk, sk = x1.new(n + 32, 1, 'pk'), x1.new(n, 1, 'sk')
        d, dv = proto.inbytes(x1, 'd', 32, lambda i: True)
        # the matrix seed may be treated as public: it is part of the public key
        rho, sigma = p1.fips.G(list(dv) + [k])
        p1.public |= set(rho)
        x1.run(ws[ik].name('indcpa_keypair_derand'), [pk.base, sk.base, d.base])
        pkb, skb = proto.outbytes(x1, pk, n + 32), proto.outbytes(x1, sk, n)
        # encryption
        p2 = PKE(ws[ie], p1)
        p2.murange = mr
        p2, x2 = setup(ws[ie], p2)
        ct = x2.new(z['ct'], 1, 'c')
        m, mv = proto.inbytes(x2, 'm', 32, lambda i: True)
        co, cv = proto.inbytes(x2, 'r', 32, lambda i: True)
        pko = fill(x2, 'pk', n + 32, pkb)
        x2.run(ws[ie].name('indcpa_enc'), [ct.base, m.base, pko.base, co.base])
        ctb = proto.outbytes(x2, ct, z['ct'])
        # decryption
        p3 = PKE(ws[idc], p1)
        p3.murange = mr
        p3, x3 = setup(ws[idc], p3)
        mo = x3.new(32, 1, 'm')
        cto, sko = fill(x3, 'c', z['ct'], ctb), fill(x3, 'sk', n, skb)
        x3.run(ws[idc].name('indcpa_dec'), [mo.base, cto.base, sko.base])
        out = proto.outbytes(x3, mo, 32)
        for x, i in ((x1, ik), (x2, ie), (x3, idc)):
            for f in x.calls:
                if f not in ws[i].insts:
                    rec.func(f, ws[i].cfg)
            for f in x.inlined:
                rec.inl.setdefault(f, set()).add(ws[i].cfg)
        for fn, i in (('indcpa_keypair_derand', ik), ('indcpa_enc', ie), ('indcpa_dec', idc)):
            rec.func(fn, ws[i].cfg)
        if len(p3.msgr) != 1:
            rec.unk(name, 'poly_tomsg is called %d times' % len(p3.msgr))
            return
        R = p3.msgr[0][0]
        for i, b in enumerate(out):
            if not (type(b) is T and b.op == 'uf' and b.p[0] == 'tomsg' and b.p[-1] == i or type(b) is T and b.op == 'uf'):
                rec.bad(name + ': the output is what poly_tomsg wrote', 'ghost-term identity', 'byte %d is %s' % (i, t.show(b, 3) if type(b) is T else b))
                return
        # expected noise, in the same algebra
        F = p1.fips
        S = [F.cbd(F.prf(sigma, i, P['eta1']), P['eta1']) for i in range(k)]
        E = [F.cbd(F.prf(sigma, k + i, P['eta1']), P['eta1']) for i in range(k)]
        Y = [F.cbd(F.prf(cv, i, P['eta1']), P['eta1']) for i in range(k)]
        E1 = [F.cbd(F.prf(cv, k + i, P['eta2']), P['eta2']) for i in range(k)]
        E2 = F.cbd(F.prf(cv, 2 * k, P['eta2']), P['eta2'])
        MU = [{(t.uf('mu', 16, (b,), t.flags(b), info=dict(lo=mr[0], hi=mr[1])),): 1} for b in (t.ext(mv[i // 8], i % 8, 1, 8) for i in range(256))]
        nu = 32 * P['du']
        U = [[C.field(ctb[nu * j:nu * j + nu], P['du'] * i, P['du']) for i in range(256)] for j in range(k)]
        V = [C.field(ctb[nu * k:], P['dv'] * i, P['dv']) for i in range(256)]

        def err(y):
            e = p1.mem['err'].get(y)
            return {(e,): 1} if e is not None else None
        EU = [[err(y) for y in u] for u in U]
        EV = [err(y) for y in V]
        if any(q is None for u in EU for q in u) or any(q is None for q in EV):
            # what decryption decompresses is not what encryption compressed
            j, i = next(((j, i) for j, u in enumerate(EU + [EV]) for i, q in enumerate(u) if q is None))
            rec.bad(name + ': decryption reads the fields encryption wrote', 'ghost-term identity', 'coefficient %d of component %d of the ciphertext' % (i, j), dict(op='roundtrip'))
            return
        got, rest = p3.split(R, 'intt')
        tot = [{} for _ in range(256)]
        for c, vec in got:
            tot = [poly.resadd(a, b, c) for a, b in zip(tot, vec)]
        tot = [{m_: c for m_, c in q.items() if c} for q in tot]
        wrest = F.add(F.add(MU, E2), EV)
        wt = F.mulacc([F.ntt(e) for e in E], [F.ntt(y) for y in Y])
        wt = F.sub(wt, F.mulacc([F.ntt(s) for s in S], [F.ntt(F.add(a, b)) for a, b in zip(E1, EU)]))
        wt = [{m_: c for m_, c in q.items() if c} for q in wt]
        rest = [{m_: c for m_, c in q.items() if c} for q in rest]
        bad = [i for i in range(256) if rest[i] != wrest[i]]
        b2 = [i for i in range(256) if tot[i] != wt[i]]
        if bad:
            g = poly.resadd(rest[bad[0]], wrest[bad[0]], -1)
            rec.bad(name + ': additive part is mu(m) + e2 + compression error of v', 'ghost-term identity',
                    'coefficient %d: surplus %s' % (bad[0], ' + '.join('%d*%s' % (c, '*'.join(t.show(s, 2) for s in m_)) for m_, c in list(g.items())[:6] if c)), dict(op='roundtrip'))
        else:
            rec.ok(name + ': additive part is mu(m) + e2 + compression error of v', 'ghost-term identity', 256)
        if b2:
            g = poly.resadd(tot[b2[0]], wt[b2[0]], -1)
            rec.bad(name + ': transform part is e.y - s.(e1 + compression error of u); the matrix cancels', 'ghost-term identity',
                    'point %d: surplus %s' % (b2[0], ' + '.join('%d*%s' % (c, '*'.join(t.show(s, 2) for s in m_)) for m_, c in list(g.items())[:6] if c)), dict(op='roundtrip'))
        else:
            rec.ok(name + ': transform part is e.y - s.(e1 + compression error of u); the matrix cancels', 'ghost-term identity', 256)
    guarded(rec, name, go)


# ---------------------------------------------------------------- agreement of the KEM
def job_agree(rec, impl, k):
    """if decryption returns the encrypted message, encapsulation and decapsulation agree"""
    w = world(impl, k, rec)
    w.assume_keccak = True
    w.only = {'verify', 'cmov'}
    name = '%s agreement' % w.cfg
    z = spec.sizes(k)
    n = 384 * k

    def go():
        for fn, na in (('indcpa_keypair_derand', 3), ('indcpa_enc', 4), ('indcpa_dec', 3)):
            if not has(w, fn, na):
                rec.unk(name, '%s has another interface' % fn)
                return
        mem = {}

        def byts(x, a, m):
            v = [x.load(a + i, 1) for i in range(m)]
            if any(t.flags(b) & UNDEF for b in v):
                raise Violation('uninit', 'uninitialised bytes passed to the public-key encryption', x.where())
            return v

        def H(pr):
            def kp(x, args):
                pk, sk, d = args
                key = pr.intern(('ikp', tuple(byts(x, d, 32))))
                P_ = [t.uf('ipk', 8, (key, i)) for i in range(n + 32)]
                S_ = [t.uf('isk', 8, (key, i), SECRET) for i in range(n)]
                for i, v in enumerate(P_):
                    x.store(pk + i, v, 1)
                for i, v in enumerate(S_):
                    x.store(sk + i, v, 1)
                mem['kp', tuple(S_)] = tuple(P_)

            def enc(x, args):
                c, m, pk, coins = args
                mb, pb = tuple(byts(x, m, 32)), tuple(byts(x, pk, n + 32))
                key = pr.intern(('ienc', mb, pb, tuple(byts(x, coins, 32))))
                cb = [t.uf('ict', 8, (key, i), SECRET) for i in range(z['ct'])]
                for i, v in enumerate(cb):
                    x.store(c + i, v, 1)
                mem['ct', tuple(cb)] = (mb, pb)

            def dec(x, args):
                m, c, s = args
                cb, sb = tuple(byts(x, c, z['ct'])), tuple(byts(x, s, n))
                q = mem.get(('ct', cb))
                if q is not None and mem.get(('kp', sb)) == q[1]:
                    out = q[0]          # the noise is in bound: decryption returns the message
                else:
                    key = pr.intern(('idec', cb, sb))
                    out = [t.uf('idec', 8, (key, i), SECRET) for i in range(32)]
                for i, v in enumerate(out):
                    x.store(m + i, v, 1)
            return {'indcpa_keypair_derand': kp, 'indcpa_enc': enc, 'indcpa_dec': dec}

        pr0 = C.Proto(w)
        pr, x1 = proto.setup(w, pr0, H)
        pk, sk = x1.new(z['pk'], 1, 'pk'), x1.new(z['sk'], 1, 'sk')
        d, _ = proto.inbytes(x1, 'coins', 64, lambda i: True)
        x1.run(w.name('keypair_derand'), [pk.base, sk.base, d.base])
        pkb, skb = proto.outbytes(x1, pk, z['pk']), proto.outbytes(x1, sk, z['sk'])
        pr, x2 = proto.setup(w, pr0, H)
        ct, s1 = x2.new(z['ct'], 1, 'ct'), x2.new(32, 1, 'ss')
        m, _ = proto.inbytes(x2, 'm', 32, lambda i: True)
        pko = fill(x2, 'pk', z['pk'], pkb)
        x2.run(w.name('enc_derand'), [ct.base, s1.base, pko.base, m.base])
        ctb, ssb = proto.outbytes(x2, ct, z['ct']), proto.outbytes(x2, s1, 32)
        pr, x3 = proto.setup(w, pr0, H)
        s2 = x3.new(32, 1, 'ss')
        cto, sko = fill(x3, 'ct', z['ct'], ctb), fill(x3, 'sk', z['sk'], skb)
        x3.run(w.name('dec'), [s2.base, cto.base, sko.base])
        got = proto.outbytes(x3, s2, 32)
        for op in ('keygen', 'enc', 'dec'):
            rec.func(opname(op), w.cfg)
        for x in (x1, x2, x3):
            for f in x.inlined:
                rec.inl.setdefault(f, set()).add(w.cfg)
        d = proto.diff(got, ssb)
        if d:
            rec.bad(name + ': decapsulation returns the encapsulated secret when decryption returns the message', 'ghost-term identity',
                    'byte %d: %s instead of %s' % (d[0], t.show(got[d[0]], 3) if type(got[d[0]]) is T else got[d[0]], t.show(ssb[d[0]], 3)), dict(op='roundtrip'))
        else:
            rec.ok(name + ': decapsulation returns the encapsulated secret when decryption returns the message', 'ghost-term identity', 32)
    guarded(rec, name, go)


# ---------------------------------------------------------------- native
def roundtrip(ik, ie, idc, k, d, m):
    r, pk, sk = native.keygen(ik, k, d)
    r, ct, ss = native.encaps(ie, k, pk, m)
    r, s2 = native.decaps(idc, k, sk, ct)
    return ss == s2


def job_native(rec, k, ik, ie, idc, seed, seconds):
    from . import fast

    def go():
        rnd = random.Random(seed * 77 + k)
        roundtrip(ik, ie, idc, k, bytes(64), bytes(32))     # compiles
        end = time.time() + seconds
        n = 0
        while time.time() < end or n < 50:
            d, m = rnd.randbytes(64), rnd.randbytes(32)
            if n == 0:
                m = bytes(32)
            if n == 1:
                m = b'\xff' * 32
            n += 1
            if not roundtrip(ik, ie, idc, k, d, m):
                if maxnoise(k, d, m) < BOUND:
                    return n, (d, m)
        return n, None
    r = search.isolated(go, seconds + 200)
    nm = 'K=%d native key generation (%s), encapsulation (%s), decapsulation (%s) agree' % (k, ik, ie, idc)
    if r[0] == 'ok':
        rec.bounded.append((nm, r[1][0]))
        if r[1][1]:
            d, m = r[1][1]
            rec.bad(nm, 'native execution', 'the shared secrets differ', dict(op='roundtrip', impls=[ik, ie, idc], coins=list(d), m=list(m)), kind='native')
    elif r[0] == 'crash':
        rec.bad(nm, 'native execution', 'crashed: %s' % (r,), kind='native')
    else:
        rec.unk(nm, str(r)[:400])


def maxnoise(k, d, m):
    """largest decryption noise of this execution according to FIPS 203"""
    from . import fast
    pk, sk = fast.keygen(d, k)
    ct, ss = fast.encaps(pk, m, k)
    # v - s.u against mu(m)
    P = spec.PARAMS[k]
    nu = 32 * P['du']
    dec = lambda bs, b: [int.from_bytes(bs, 'little') >> (b * i) & (1 << b) - 1 for i in range(256)]
    U = [[spec.decompress1(y, P['du']) for y in dec(ct[nu * j:nu * j + nu], P['du'])] for j in range(k)]
    V = [spec.decompress1(y, P['dv']) for y in dec(ct[nu * k:], P['dv'])]
    S = [dec(sk[384 * j:384 * j + 384], 12) for j in range(k)]
    acc = [0] * 256
    for s, u in zip(S, U):
        p = spec.basemul(s, spec.ntt(u))
        acc = [(a + b) % Q for a, b in zip(acc, p)]
    w = spec.intt(acc)
    mx = 0
    for i in range(256):
        mu = 1665 * (m[i // 8] >> i % 8 & 1)
        n = (V[i] - w[i] - mu) % Q
        mx = max(mx, min(n, Q - n))
    return mx


def confirm(fails, tier, seed, end):
    from . import props
    for f in fails:
        c = f.get('cex')
        if c and c.get('op') == 'roundtrip' and 'coins' in c:
            i = c['impls']
            k = next(q for q in (2, 3, 4) if 'K=%d ' % q in f['name'])
            return dict(type='roundtrip', k=k, impls=i, coins=c['coins'], m=c['m'], found=True,
                        text='K=%d: encapsulation (%s) and decapsulation (%s) disagree although the noise is in bound' % (k, i[1], i[2]))
    v = props.confirm_fns(fails, tier, seed, end)
    if v and v.get('found'):
        return v
    for f in fails:
        w = props.confirm_mul(f)
        if w:
            return w
    return v
