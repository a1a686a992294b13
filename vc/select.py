"""verify, cmov, cmov_int16 and the selection made by decapsulation (C15)."""
import time, random
import numpy as np
from . import term as t, contracts as C, proto, spec, leaf, smt, search, native
from .term import T, UNDEF
from .execu import Violation
from .ir import Unsupported
from .jobs import world, guarded, opname, op_obligations, directed

KEM = sorted(spec.sizes(k)['ct'] for k in (2, 3, 4))


def nocheck(w, i):
    return i.status == 'proved'


def quiet(f, *a):
    try:
        f(*a)
    except C.ContractFailure:
        pass


# ---------------------------------------------------------------- leaf functions, one instance per length
def bytevars(x, nm, n, ro):
    o = x.new(n, 1, nm, ro=ro)
    vs = []
    for i in range(n):
        v = t.var('%s%d' % (nm, i), 8, secret=True)
        vs.append(v)
        o.cells[i] = (v, 1)
        o.own[i] = i
    return o, vs


def cmov_inst(w, n):
    """cmov(r,x,n,b) for b in {0,1}: r becomes x if b = 1 and is unchanged if b = 0"""
    def go(inst):
        b = t.var('b', 8, lo=0, hi=1, secret=True)
        keep = []

        def mk(x):
            r, rv = bytevars(x, 'r', n, False)
            s, xv = bytevars(x, 'x', n, True)
            keep.extend([r, rv, xv])
            return [r.base, s.base, n, b], [r, s]
        x = w.runx(inst, 'cmov', mk)
        r, rv, xv = keep
        out = leaf.getbytes(x, r, n)
        if any(t.flags(v) & UNDEF for v in out):
            inst.status, inst.why = 'failed', 'result depends on uninitialised memory'
            return
        for bv in (0, 1):
            got = t.subst(out, {b: bv})
            for i, (g, e) in enumerate(zip(got, xv if bv else rv)):
                if g is e:
                    continue
                st, m = smt.equal(g, e, 8, 60)
                if st == 'unsat':
                    continue
                if st == 'unknown':
                    inst.status, inst.why = 'unknown', 'z3: unknown'
                    return
                env = {v.p: c for v, c in m.items()}
                R = [env.get('r%d' % j, 0x5a) for j in range(n)]
                S = [env.get('x%d' % j, 0xa5) for j in range(n)]
                inst.status, inst.kind = 'failed', 'value'
                inst.why = 'cmov of %d bytes, flag %d: byte %d is not the specified one' % (n, bv, i)
                inst.cex = dict(fn='cmov', args=[dict(kind='bytes', val=R, role='inout'), dict(kind='bytes', val=S, role='in'),
                                                 dict(kind='int', val=n), dict(kind='int', val=bv, w=32)],
                                expect=dict(arg=0, whole=S if bv else R))
                return
        inst.backend['byte i = (flag ? x[i] : r[i]) (term identity / z3)'] = max(1, 2 * n)
        w.overflow(inst, x, leaf.poly.Ctx())
    return go


def cmov16_inst(w):
    def go(inst):
        b = t.var('b', 16, lo=0, hi=1, secret=True)
        rv, vv = t.var('r', 16, secret=True), t.var('v', 16, secret=True)
        keep = []

        def mk(x):
            r = x.new(2, 2, 'r')
            x.store(r.base, rv, 2)
            keep.append(r)
            return [r.base, vv, b], [r]
        x = w.runx(inst, 'cmov_int16', mk)
        out = leaf.rd(x, keep[0], 0, 2)
        for bv in (0, 1):
            g, e = t.subst([out], {b: bv})[0], vv if bv else rv
            if g is e:
                continue
            st, m = smt.equal(g, e, 16, 60)
            if st == 'unsat':
                continue
            if st == 'unknown':
                inst.status, inst.why = 'unknown', 'z3: unknown'
                return
            env = {v.p: c for v, c in m.items()}
            R, V = env.get('r', 0), env.get('v', 0)
            inst.status, inst.kind, inst.why = 'failed', 'value', 'cmov_int16 with flag %d' % bv
            E = V if bv else R
            inst.cex = dict(fn='cmov_int16', args=[dict(kind='poly', val=[R], align=2), dict(kind='int', val=V, w=32), dict(kind='int', val=bv, w=32)],
                            expect=dict(arg=0, whole=[E & 255, E >> 8]))
            return
        inst.backend['*r = (flag ? v : *r) (term identity / z3)'] = 2
        w.overflow(inst, x, leaf.poly.Ctx())
    return go


def job_verify(rec, impl, lens):
    w = world(impl, 2, rec)
    if w.prog.find('verify') is None:
        rec.assume.add('%s has no function verify; the comparison is decided inside crypto_kem_dec' % impl)
        return
    for n in lens:
        quiet(w.inst, ('verify', n), 'verify', proto.verify_eq(w, n))


def job_cmov(rec, impl, lens):
    w = world(impl, 2, rec)
    if w.prog.find('cmov') is not None:
        for n in lens:
            quiet(w.inst, ('cmov', n), 'cmov', cmov_inst(w, n))
    else:
        rec.assume.add('%s has no function cmov; the selection is decided inside crypto_kem_dec' % impl)
    if w.prog.find('cmov_int16') is not None:
        quiet(w.inst, ('cmov_int16',), 'cmov_int16', cmov16_inst(w))


# ---------------------------------------------------------------- selection in decapsulation
def abstract_pke(pr):
    """indcpa_dec and indcpa_enc as functions of their arguments (what they compute is decided by C02/C03)"""
    w = pr.w
    z = spec.sizes(w.k)
    n = 384 * w.k

    def byts(x, a, m):
        v = [x.load(a + i, 1) for i in range(m)]
        if any(t.flags(b) & UNDEF for b in v):
            raise Violation('uninit', 'uninitialised bytes passed to the public-key encryption', x.where())
        return v

    def dec(x, args):
        m, c, s = args
        key = pr.intern(('idec', tuple(byts(x, c, z['ct'])), tuple(byts(x, s, n))))
        for i in range(32):
            x.store(m + i, t.uf('idec', 8, (key, i), t.SECRET), 1)
        pr.rec_dec.append((key, c, s))

    def enc(x, args):
        c, m, pk, coins = args
        key = pr.intern(('ienc', tuple(byts(x, m, 32)), tuple(byts(x, pk, n + 32)), tuple(byts(x, coins, 32))))
        for i in range(z['ct']):
            x.store(c + i, t.uf('ienc', 8, (key, i), t.SECRET), 1)
    return {'indcpa_dec': dec, 'indcpa_enc': enc}


def sel_equal(pr, got, cv, re, K, J, rec, name):
    """got[i] = (ct = re ? K[i] : J[i]) for every i, through the neq ghost or by z3"""
    ne = proto.neq(pr, cv, re)
    a, b = t.subst(got, {ne: 0}), t.subst(got, {ne: 1})
    d0, d1 = proto.diff(a, K), proto.diff(b, J)
    if not d0 and not d1:
        return None, 'ghost-term identity'
    if type(ne) is T and any(ne in t.support(g) for g in got if type(g) is T):
        return ('byte %d of the secret when the ciphertext equals the re-encryption is %s' % (d0[0], t.show(a[d0[0]], 3)) if d0 else
                'byte %d of the secret when the ciphertext differs is %s' % (d1[0], t.show(b[d1[0]], 3))), 'ghost-term identity'
    if not proto.select_z3(got, cv, re, K, J):
        return 'the secret is not the selected one', 'z3'
    return None, 'z3'


def job_select(rec, impl, k):
    """crypto_kem_dec returns K if ct = re-encryption and J(z || ct) otherwise"""
    w = world(impl, k, rec)
    # this check decides verify; the arithmetic is decided elsewhere
    w.assume_keccak = True
    name = '%s crypto_kem_dec' % w.cfg
    rec.directed = []
    z = spec.sizes(k)
    n = 384 * k

    def go():
        pr = C.Proto(w)
        pr.rec_dec = []
        H = abstract_pke(pr)
        ab = all(w.prog.find(f) is not None and len(w.prog.funcs[w.prog.find(f)].params) == q for f, q in (('indcpa_dec', 3), ('indcpa_enc', 4)))
        pr, x = proto.setup(w, pr, (lambda p: H) if ab else None)
        ss = x.new(32, 1, 'ss')
        ct, cv = proto.inbytes(x, 'ct', z['ct'], lambda i: False)
        sk, sv = proto.inbytes(x, 'sk', z['sk'], lambda i: i < n or i >= 2 * n + 64)
        F = pr.fips
        if ab:
            key = pr.intern(('idec', tuple(cv), tuple(sv[:n])))
            m = [t.uf('idec', 8, (key, i), t.SECRET) for i in range(32)]
            K, r = F.G(m + list(sv[2 * n + 32:2 * n + 64]))
            key = pr.intern(('ienc', tuple(m), tuple(sv[n:2 * n + 32]), tuple(r)))
            re = [t.uf('ienc', 8, (key, i), t.SECRET) for i in range(z['ct'])]
            J = F.J(list(sv[2 * n + 64:]) + list(cv))
        else:
            rec.assume.add('the public-key encryption has another interface; its components are used through their contracts')
            re, K, J = F.decaps(sv, cv)
        x.run(w.name('dec'), [ss.base, ct.base, sk.base])
        got = proto.outbytes(x, ss, 32)
        rec.func(opname('dec'), w.cfg)
        for s in x.calls:
            rec.func(s, w.cfg)
        for s in sorted(x.inlined):
            rec.inl.setdefault(s, set()).add(w.cfg)
        why, how = sel_equal(pr, got, cv, re, K, J, rec, name)
        o = '%s: secret is K when every ciphertext byte equals the re-encryption, J(z||ct) otherwise' % name
        if why:
            rec.bad(o, how, why, kind='select')
        else:
            rec.ok(o, how, 64)
        if x.result == 0:
            rec.ok(name + ' returns 0', 'symbolic execution')
        else:
            rec.bad(name + ' returns 0', 'symbolic execution', 'returns %s' % (x.result,))
    guarded(rec, name + ' selection', go)


# ---------------------------------------------------------------- native
BIG = [256, 257, 288, 600, 1000, 4096, 5000, 8191, 8192, 8224, 65535, 65536, 65600]


def native_verify(impl, n, a, b):
    f = search.find_fn(impl, 2, 'verify')
    p, q = native.Buf(a, 64, 1), native.Buf(b, 64, 3)
    return f(p.ptr, q.ptr, n) & 0xffffffff


def job_native(rec, impl, seed, seconds):
    """sweeps on the compiled code: every byte position, pairs of differences"""
    if search.find_fn(impl, 2, 'verify') is None:
        return

    def go():
        import ctypes
        rnd = random.Random(seed)
        f = search.find_fn(impl, 2, 'verify')
        end = time.time() + seconds
        cnt = 0
        for n in KEM + [32, 1, 31, 33, 0] + BIG:
            base = rnd.randbytes(n)
            p, q = native.Buf(base + bytes(8), 64, 1), native.Buf(base + bytes(8), 64, 3)
            P, Q_ = (ctypes.c_uint8 * max(n, 1)).from_address(p.p), (ctypes.c_uint8 * max(n, 1)).from_address(q.p)
            sz = ctypes.c_size_t(n)

            def one(ds):
                for i, v in ds:
                    Q_[i] ^= v
                bad = None
                e = int(bytes(P)[:n] != bytes(Q_)[:n])
                if f(p.ptr, q.ptr, sz) & 0xffffffff != e:
                    bad = dict(fn='verify', args=[dict(kind='bytes', val=list(bytes(P)[:n]), role='in'), dict(kind='bytes', val=list(bytes(Q_)[:n]), role='in'),
                                                  dict(kind='int', val=n)], expect=dict(ret=e))
                for i, v in ds:
                    Q_[i] ^= v
                return bad
            step = 1 if n < 20000 else 509
            stop = time.time() + (seconds * 0.15 if n in BIG else seconds)
            for i in list(range(n - 1, -1, -step)) + [0] * (n > 0):
                if time.time() > stop:
                    break
                for v in (1, 2, 4, 8, 16, 32, 64, 128, 255) if n < 600 or n in KEM else (128, 1, 255):
                    cnt += 1
                    c = one([(i, v)])
                    if c:
                        return cnt, c
            c = one([])
            cnt += 1
            if c:
                return cnt, c
            while n > 1 and n not in BIG and time.time() < end - seconds * 0.5:
                i = rnd.randrange(n)
                j = (i + rnd.choice((1, 2, 4, 8, 16, 32, 64, 128, 256, rnd.randrange(1, n)))) % n
                if i == j:
                    continue
                v = rnd.randrange(1, 256)
                cnt += 1
                c = one([(i, v), (j, rnd.choice((v, 256 - v, v)))])
                if c:
                    return cnt, c
                if cnt % 20000 == 0:
                    break
        return cnt, None
    r = search.isolated(go, seconds + 60)
    if r[0] == 'ok':
        rec.bounded.append(('native verify on single and paired differences at every position', r[1][0]))
        if r[1][1]:
            rec.bad('%s verify reports equality exactly' % impl, 'native execution', 'wrong answer', r[1][1], kind='native')
            rec.fail[-1].update(impl=impl, k=2)
    elif r[0] == 'crash':
        rec.bad('%s verify' % impl, 'native execution', 'crashed: %s' % (r,), kind='native')
    else:
        rec.unk('%s native verify' % impl, str(r)[:400])


def job_cmov_native(rec, impl, seed, seconds):
    """copy and no copy at many lengths, with the bytes around the buffers watched"""
    if search.find_fn(impl, 2, 'cmov') is None:
        return

    def go():
        import ctypes
        rnd = random.Random(seed)
        f = search.find_fn(impl, 2, 'cmov')
        cnt = 0
        end = time.time() + seconds
        big = [8192 * i + d for i in range(1, 9) for d in (0, 1, 31, 32)]
        for n in list(range(0, 700)) + BIG + big + [rnd.randrange(600, 20000) for _ in range(200)]:
            if time.time() > end:
                break
            R, S = rnd.randbytes(n + 8), rnd.randbytes(n)
            for b in (0, 1):
                p, q = native.Buf(R, 64, 1 + n % 7), native.Buf(S + bytes(8), 64, 3)
                f(p.ptr, q.ptr, ctypes.c_size_t(n), ctypes.c_uint8(b))
                cnt += 1
                want = (S if b else R[:n])
                if p.bytes() != want + R[n:] or q.bytes()[:n] != S:
                    return cnt, dict(fn='cmov', args=[dict(kind='bytes', val=list(R[:n]), role='inout'), dict(kind='bytes', val=list(S), role='in'),
                                                      dict(kind='int', val=n), dict(kind='int', val=b, w=32)], expect=dict(arg=0, whole=list(want)))
        return cnt, None
    r = search.isolated(go, seconds + 60)
    if r[0] == 'ok':
        rec.bounded.append(('native cmov with both flags at lengths up to 65600', r[1][0]))
        if r[1][1]:
            rec.bad('%s cmov copies all or nothing' % impl, 'native execution', 'wrong bytes', r[1][1], kind='native')
            rec.fail[-1].update(impl=impl, k=2)
    elif r[0] == 'crash':
        rec.bad('%s cmov' % impl, 'native execution', 'crashed: %s' % (r,), kind='native')
    else:
        rec.unk('%s native cmov' % impl, str(r)[:400])


def flips(rec, impl, k, seed):
    """every bit of a valid ciphertext flipped: decapsulation rejects"""
    from . import fast, spec as S

    def go():
        z = S.sizes(k)
        pk, sk = fast.keygen(bytes((seed + i) & 255 for i in range(64)), k)
        ct, ss = fast.encaps(pk, bytes(range(32)), k)
        zz = sk[-32:]
        n = 1
        if native.decaps(impl, k, sk, ct) != (0, ss):
            return n, dict(sk=sk, ct=ct)
        import hashlib
        for i in range(8 * z['ct']):
            c = bytearray(ct)
            c[i // 8] ^= 1 << i % 8
            c = bytes(c)
            n += 1
            if native.decaps(impl, k, sk, c) != (0, hashlib.shake_256(zz + c).digest(32)):
                return n, dict(sk=sk, ct=c)
        return n, None
    r = search.isolated(go, 300)
    if r[0] == 'ok':
        rec.bounded.append(('native decapsulation of every single-bit modification of a ciphertext', r[1][0]))
        if r[1][1]:
            rec.bad('%s/K=%d crypto_kem_dec rejects modified ciphertexts' % (impl, k), 'native execution', 'differs', dict(op='dec', ins=r[1][1]), kind='native')
    elif r[0] == 'crash':
        rec.bad('%s/K=%d crypto_kem_dec' % (impl, k), 'native execution', 'crashed: %s' % (r,), kind='native')
    else:
        rec.unk('%s/K=%d native decapsulation' % (impl, k), str(r)[:400])
