"""Checks about single components (C06-C09, C12, C13): the contracts of the functions a property names, at
the ranges their callers establish, plus the property's own lemmas."""
import time, os
import numpy as np
from . import xof, term as t, poly, spec, leaf, contracts as C, proto, jobs as J, fnspec, search, mat, execu, safety
from .term import T, SECRET, UNDEF
from .execu import X, Violation, Aborted
from .ir import Unsupported

Q = 3329
R16 = C.R16
RINV = C.RINV


def cworld(impl, k, rec, fns):
    w = J.world(impl, k, rec)
    w.only = set(fns)
    w.assume_keccak = True
    w.prove_matrix = False
    return w


def collect(w, ops=('keygen', 'enc', 'dec'), pr=None):
    """run the operations over contracts; instances of the functions in w.only are recorded.  Returns the
    completed runs and the reasons others stopped"""
    done, stop = [], []
    for op in ops:
        try:
            done.append(proto.run_op(w, op))
        except C.ContractFailure as e:
            stop.append((op, 'stopped at ' + e.inst.name, e.inst.fn))
        except Violation as e:
            stop.append((op, str(e), None))
        except Aborted:
            stop.append((op, 'abort()', None))
        except Unsupported as e:
            stop.append((op, 'unsupported: ' + str(e), None))
    return done, stop


def ranges(w, fn):
    """ranges of the polynomial arguments of fn met so far"""
    out = []
    for key in w.insts:
        if key[0] == fn and len(key) > 1:
            r = list(key[1:])
            out.append([(r[i], r[i + 1]) for i in range(0, len(r) - 1, 2)])
    return out


DEFAULT = {
    'poly_ntt': [(-3, 3)], 'poly_invntt_tomont': [(-Q + 1, Q - 1)], 'poly_reduce': [(-32768, 32767)], 'poly_tomont': [(-Q + 1, Q - 1)],
    'poly_basemul_montgomery': [(-Q + 1, Q - 1), (-Q + 1, Q - 1)],
    'poly_tobytes': [(0, Q - 1)], 'poly_compress': [(0, Q - 1)], 'polyvec_compress': [(0, Q - 1)], 'poly_tomsg': [(0, Q - 1)],
}


def instance(w, fn, rng=None):
    """verify one instance outside any caller"""
    P = w.P
    du, dv, e1, e2, k = P['du'], P['dv'], P['eta1'], P['eta2'], w.k
    ident = list(range(256))
    al = 1 if w.impl == 'ref' else 32
    r = rng or DEFAULT.get(fn)
    if fn in ('poly_ntt', 'poly_invntt_tomont', 'poly_reduce', 'poly_tomont'):
        lo, hi = r[0]
        return w.inst((fn, lo, hi), fn, C.verify_linear(w, fn, lo, hi))
    if fn == 'poly_basemul_montgomery':
        (a, b), (c, d) = r
        return w.inst((fn, a, b, c, d), fn, C.verify_basemul(w, fn, (a, b), (c, d)))
    enc = {'poly_tobytes': (12, 'canon', 1, w.ipi), 'poly_compress': (dv, 'comp', 1, ident), 'polyvec_compress': (du, 'comp', k, ident),
           'poly_tomsg': (1, 'comp', 1, ident)}
    if fn in enc:
        d, kind, n, pm = enc[fn]
        lo, hi = r[0]
        return w.inst((fn, lo, hi), fn, C.verify_encode(w, fn, d, kind, lo, hi, n, pm))
    dec = {'poly_frombytes': (12, 1, lambda y: y, 'id12', w.ipi, 1), 'poly_decompress': (dv, 1, C.want_dec(dv), ('dec', dv), ident, 1),
           'polyvec_decompress': (du, k, C.want_dec(du), ('dec', du), ident, 1), 'poly_frommsg': (1, 1, C.want_dec(1), ('dec', 1), ident, 1),
           'poly_cbd_eta1': (2 * e1, 1, C.want_cbd(e1), ('cbd', e1), ident, al), 'poly_cbd_eta2': (2 * e2, 1, C.want_cbd(e2), ('cbd', e2), ident, al)}
    d, n, f, key, pm, al = dec[fn]
    return w.inst((fn,), fn, C.verify_decode(w, fn, d, n, f, key, pm, al))


def job_contracts(rec, impl, k, fns, seed=1, native_s=0.6, defaults=True):
    """contracts of fns at every range the three operations establish (and the documented domain)"""
    w = cworld(impl, k, rec, fns)
    done, stop = collect(w)
    for op, why, fn in stop:
        if fn not in w.only:
            rec.assume.add('%s %s: ranges after the point where verification stops (%s) are not collected' % (w.cfg, J.opname(op), why))
    for fn in fns:
        if fn not in DEFAULT and fn not in ('poly_frombytes', 'poly_decompress', 'polyvec_decompress', 'poly_frommsg', 'poly_cbd_eta1', 'poly_cbd_eta2'):
            continue
        if w.prog.find(fn) is None:
            rec.unk('%s %s' % (w.cfg, fn), 'the function does not exist any more')
            continue
        if fn in DEFAULT and (not defaults or fn in ('poly_reduce',) and impl == 'avx2') and ranges(w, fn):
            continue
        try:
            instance(w, fn)
        except C.ContractFailure:
            pass
        except Unsupported as e:
            rec.unk('%s %s' % (w.cfg, fn), str(e))
    native_fns(rec, w, fns, seed, native_s)
    return w, done


def native_fns(rec, w, fns, seed, secs):
    """bounded native differential of each function; decides nothing when the proof succeeded, finds inputs when it did not"""
    for fn in fns:
        rg = ranges(w, fn)
        if fn in DEFAULT and fn not in ('poly_reduce',):
            rg = rg + [DEFAULT[fn]]
        if fn in ('poly_add', 'poly_sub'):
            rg = [[(-Q, Q), (-Q, Q)]]
        rg = rg or ([DEFAULT[fn]] if fn in DEFAULT else None)
        bad = any(s != 'proved' for n, s, *_ in rec.obl if (' ' + fn + ' ') in n + ' ' or n.endswith(' ' + fn))
        try:
            n, x, crash = fnspec.diff_fn(w.impl, w.k, fn, rg, secs * (12 if bad else 1), seed)
        except Exception as e:
            rec.unk('%s %s native differential' % (w.cfg, fn), str(e)[-300:])
            continue
        if n:
            rec.bounded.append(('native %s against its specification on sampled in-range arguments' % fn, n))
        if x is not None or crash:
            rec.bad('%s native %s agrees with its specification' % (w.cfg, fn), 'native execution', str(crash or 'differs'), x, kind='native')


# ---------------------------------------------------------------- C06
def lemma_ring(rec):
    """INTT(NTT(a) o NTT(b)) = a*b mod X^256+1: both sides bilinear, checked on all 65536 basis pairs; M*Minv = I"""
    t0 = time.time()
    N = np.array(C.NTTM(), dtype=np.int64)
    I = np.array(C.INTTM(), dtype=np.int64)
    if np.any((I @ N - np.eye(256, dtype=np.int64)) % Q):
        rec.bad('inverse transform matrix inverts the transform matrix', 'exact arithmetic', 'specification matrices are not inverse')
    else:
        rec.ok('lemma: inverse transform o transform = identity (matrix product)', 'exact integer arithmetic (numpy)', 1)
    g = np.array(spec.GAMMA, dtype=np.int64)
    ok = True
    for i in range(256):
        a = N[:, i]
        B = N                                   # columns: all basis b
        o = np.empty((256, 256), dtype=np.int64)
        o[0::2] = (a[0::2, None] * B[0::2] + a[1::2, None] * B[1::2] % Q * g[:, None]) % Q
        o[1::2] = (a[0::2, None] * B[1::2] + a[1::2, None] * B[0::2]) % Q
        c = I @ o % Q
        want = np.zeros((256, 256), dtype=np.int64)
        for j in range(256):
            e = i + j
            want[e % 256, j] = 1 if e < 256 else Q - 1
        if np.any((c - want) % Q):
            ok = False
            break
    if ok:
        rec.ok('lemma: INTT(NTT(X^i) o NTT(X^j)) = X^(i+j) mod X^256+1 for all 65536 pairs', 'exact integer arithmetic (numpy)', 65536, time.time() - t0)
    else:
        rec.bad('lemma: transform-domain product is the ring product', 'exact integer arithmetic (numpy)', 'fails for i=%d' % i)


def job_lemma_ring(rec):
    lemma_ring(rec)


def resvec(pr, pre, lo, hi, n=256):
    return [t.var('S:%s%d[%d,%d]' % (pre, i, lo, hi), 16, lo=lo, hi=hi, secret=True) for i in range(n)]


def putpoly(x, o, vs, off=0):
    for i, v in enumerate(vs):
        p = off + 2 * i
        o.cells[p] = (v, 2)
        o.own[p] = o.own[p + 1] = p


def job_mul(rec, impl, k, seed=1):
    """the code's own multiplication path, on vectors, over the callee contracts"""
    fns = ['poly_ntt', 'poly_invntt_tomont', 'poly_basemul_montgomery', 'poly_reduce', 'poly_tomont']
    w, done = job_contracts(rec, impl, k, fns[:3], seed, defaults=False)
    w.only = set(fns)
    al = leaf.palign(w.prog)
    for lo, hi in ((-3, 3), (0, Q - 1)):
        nm = '%s multiplication of vectors with coefficients in [%d,%d]' % (w.cfg, lo, hi)

        def go():
            pr, x = proto.setup(w)
            A, B, o = x.new(512 * k, al, 'a'), x.new(512 * k, al, 'b'), x.new(512, al, 'r')
            va, vb = resvec(pr, 'ma', lo, hi, 256 * k), resvec(pr, 'mb', lo, hi, 256 * k)
            putpoly(x, A, va)
            putpoly(x, B, vb)
            pol = lambda f, a: x.contracts[f](x, a) if f in x.contracts else x.run(w.name(f), a)
            pol('polyvec_ntt', [A.base])
            pol('polyvec_ntt', [B.base])
            # keys travel as bytes of canonical residues: operands of the product are reduced as in the operations
            pol('polyvec_reduce', [A.base])
            pol('polyvec_reduce', [B.base])
            pol('polyvec_basemul_acc_montgomery', [o.base, A.base, B.base])
            _, rs, l1, h1, fl = pr.readpoly(x, o.base)
            F = pr.fips
            ra = [[pr.res_of(v) for v in va[256 * i:256 * i + 256]] for i in range(k)]
            rb = [[pr.res_of(v) for v in vb[256 * i:256 * i + 256]] for i in range(k)]
            want = F.mulacc([F.ntt(a) for a in ra], [F.ntt(b) for b in rb])
            want = [poly.resscale(q, RINV) for q in want]
            bad = [p for p in range(256) if rs[p] != want[w.pi[p]]]
            if bad:
                rec.bad(nm + ': accumulated product', 'ghost-term identity', 'coefficient %d is not R^-1 times the sum of the products' % bad[0],
                        dict(mul=True, lo=lo, hi=hi))
            else:
                rec.ok(nm + ': accumulated product is R^-1 * sum of products, |c| <= %d' % max(-l1, h1), 'ghost-term identity', 256)
            pol('poly_invntt_tomont', [o.base])
            _, rs, l2, h2, fl = pr.readpoly(x, o.base)
            at = F.intt([poly.resscale(q, R16) for q in want]) if not bad else None
            if at is not None:
                b2 = [p for p in range(256) if rs[p] != at[p]]
                if b2:
                    rec.bad(nm + ': inverse transform', 'ghost-term identity', 'coefficient %d: %r vs %r' % (b2[0], [(c, [t.show(q,1) for q in m]) for m, c in list(rs[0].items())[:3]], [(c, [t.show(q,1) for q in m]) for m, c in list(at[0].items())[:3]]), dict(mul=True, lo=lo, hi=hi))
                else:
                    rec.ok(nm + ': inverse transform gives the ring product with Montgomery factor 1', 'ghost-term identity', 256)
            for f in x.calls:
                rec.func(f, w.cfg)
            for f in x.inlined:
                rec.inl.setdefault(f, set()).add(w.cfg)
        J.guarded(rec, nm, go)
    n, bad = muldiff(impl, k, seed, 1.0 if not rec.fail else 8.0)
    rec.bounded.append(('native transform/multiply/inverse against schoolbook-checked oracle', n))
    if bad:
        rec.bad('%s native multiplication agrees with the ring product' % w.cfg, 'native execution', bad['why'], bad, kind='native')


def muldiff(impl, k, seed, secs):
    from . import native, fast
    import random
    native.lib(impl, k)
    rnd = random.Random('%s mul %s %d' % (seed, impl, k))

    def go():
        end = time.time() + secs
        n = 0
        while n < 2 or time.time() < end:
            lo, hi = rnd.choice(((-3, 3), (0, Q - 1)))
            a, b = fnspec.rpoly(rnd, lo, hi, k), fnspec.rpoly(rnd, lo, hi, k)
            n += 1
            why = mulone(impl, k, a, b)
            if why:
                return n, dict(mulnative=True, a=[int(v) for v in a], b=[int(v) for v in b], why=why)
        return n, None
    r = search.isolated(go, secs + 60)
    if r[0] == 'ok':
        return r[1]
    return 0, dict(mulnative=True, why=str(r), a=[0] * 256 * k, b=[0] * 256 * k)


def mulone(impl, k, a, b):
    """native product of two vectors against the ring product; text if it differs"""
    from . import native, fast
    f = lambda n: native.sym(impl, k, n)
    A, B, o = native.Buf(native.from_i16([int(v) for v in a])), native.Buf(native.from_i16([int(v) for v in b])), native.Buf(bytes(512))
    for n in ('polyvec_ntt', 'polyvec_reduce', 'polyvec_basemul_acc_montgomery', 'poly_invntt_tomont'):
        if f(n) is None:
            return None
    for q in (A, B):
        f('polyvec_ntt')(q.ptr)
        f('polyvec_reduce')(q.ptr)
    f('polyvec_basemul_acc_montgomery')(o.ptr, A.ptr, B.ptr)
    f('poly_invntt_tomont')(o.ptr)
    g = native.i16s(o.bytes())
    w = np.zeros(256, dtype=np.int64)
    for i in range(k):
        w += fast.intt(fast.basemul(fast.ntt(a[256 * i:256 * i + 256]), fast.ntt(b[256 * i:256 * i + 256])))
    for i in range(256):
        if (g[i] - int(w[i])) % Q:
            return '%s/K=%d: coefficient %d of the vector product is %d, ring product is %d modulo q' % (impl, k, i, g[i], int(w[i]) % Q)
    return None


# ---------------------------------------------------------------- C07
MDOM = (-Q * (1 << 15), Q * (1 << 15) - 1)


def enum_range(term, v, lo, hi, step=1 << 20):
    """values of a term of one 32-bit variable over [lo,hi], in chunks"""
    a = lo
    while a <= hi:
        b = min(hi, a + step - 1)
        dom = np.arange(a, b + 1, dtype=np.int64)
        env = {v: dom.astype(np.uint64) & np.uint64(t.M(v.w))}
        val = t.npeval([term], env)[term] if type(term) is T else np.full(dom.shape, term, dtype=np.uint64)
        yield dom, np.broadcast_to(val, dom.shape).astype(np.int64)
        a = b + 1


def job_montgomery(rec, impl, ks, part=0, parts=1):
    """montgomery_reduce on every value of its documented domain"""
    seen = {}
    for k in ks:
        w = J.world(impl, k, rec)
        n = w.prog.find('montgomery_reduce')
        if n is None:
            continue
        nm = '%s montgomery_reduce' % w.cfg

        def go():
            x = X(w.prog)
            v = t.var('a[%d,%d]' % MDOM, 32, lo=MDOM[0], hi=MDOM[1], secret=True)
            x.run(n, [v])
            y = x.result
            y = t.ext(y, 0, 16, y.w) if type(y) is T and y.w > 16 else y
            if part == 0:
                ctx = poly.Ctx()
                no, bad, dt = leaf.check_obls(x, ctx, rec, nm)
                for op, a, b, wd, loc in bad:
                    # exact: enumerate the operands
                    if not obl_enum(op, a, b, wd, v):
                        rec.bad(nm + ': no signed overflow', 'enumeration', 'overflow of %s (i%d) at %s' % (op, wd, loc), kind='overflow')
                        return
                rec.ok(nm + ': no signed overflow', 'interval of integer polynomial', no, dt)
                rec.func('montgomery_reduce', w.cfg)
            sg = leaf.signature(y)[0]
            if sg in seen:
                r = seen[sg]
            else:
                r = None
                span = (MDOM[1] - MDOM[0] + parts) // parts
                lo = MDOM[0] + part * span
                hi = min(MDOM[1], lo + span - 1)
                t0 = time.time()
                for dom, val in enum_range(y, v, lo, hi):
                    g = C.sgn16(val)
                    bad = np.nonzero(((g * (1 << 16) - dom) % Q != 0) | (g < -Q + 1) | (g > Q - 1))[0]
                    if len(bad):
                        r = int(dom[bad[0]])
                        break
                seen[sg] = r
                rec.secs['enumeration'] = rec.secs.get('enumeration', 0) + time.time() - t0
            if r is None:
                rec.ok(nm + ': congruent to a*2^-16, in [-q+1,q-1], for every a in [-q*2^15, q*2^15-1] (part %d of %d)' % (part + 1, parts), 'exhaustive enumeration of the verification condition', 1)
            else:
                rec.bad(nm + ': congruent and in range', 'exhaustive enumeration', 'wrong for a = %d' % r,
                        dict(fn='montgomery_reduce', args=[dict(kind='int', val=r, w=32)], retw=16, expect=dict(retmod=r * RINV % Q, mod=Q, range=[-Q + 1, Q - 1])), kind='value')
        J.guarded(rec, nm, go)


def obl_enum(op, a, b, w, v):
    """exact no-overflow check of one operation by enumeration of a single variable"""
    lo, hi = leaf.leafrange(v)
    for part in range(lo, hi + 1, 1 << 20):
        dom = np.arange(part, min(hi + 1, part + (1 << 20)), dtype=np.int64)
        env = {v: dom.astype(np.uint64) & np.uint64(t.M(v.w))}
        vals = []
        for q in (a, b):
            if type(q) is int or q is None:
                vals.append(np.int64(t.signed(q or 0, w)))
            else:
                z = np.broadcast_to(t.npeval([q], env)[q], dom.shape).astype(np.int64)
                s = 1 << (w - 1)
                vals.append((z ^ s) - s if w < 64 else z)
        r = vals[0] * vals[1] if op == 'mul' else vals[0] + vals[1] if op == 'add' else vals[0] - vals[1] if op == 'sub' else None
        if op == 'shiftamt':
            if np.any((vals[0] < 0) | (vals[0] >= w)):
                return False
            continue
        if r is None or np.any((r < -(1 << (w - 1))) | (r >= 1 << (w - 1))):
            return False
    return True


def job_barrett(rec, impl, ks):
    for k in ks:
        w = J.world(impl, k, rec)
        n = w.prog.find('barrett_reduce')
        if n is None:
            continue
        nm = '%s barrett_reduce' % w.cfg

        def go():
            x = X(w.prog)
            v = t.var('a16', 16, lo=-32768, hi=32767, secret=True)
            x.run(n, [v])
            y = x.result
            y = t.ext(y, 0, 16, y.w) if type(y) is T and y.w > 16 else y
            rec.func('barrett_reduce', w.cfg)
            for (op, a, b, wd), loc in x.obls.items():
                if not obl_enum(op, a, b, wd, v):
                    rec.bad(nm + ': no signed overflow', 'enumeration', 'overflow of %s (i%d) at %s' % (op, wd, loc), kind='overflow')
                    return
            rec.ok(nm + ': no signed overflow', 'exhaustive enumeration', len(x.obls))
            for dom, val in enum_range(y, v, -32768, 32767):
                g = C.sgn16(val)
                bad = np.nonzero(((g - dom) % Q != 0) | (abs(g) > (Q - 1) // 2))[0]
                if len(bad):
                    r = int(dom[bad[0]])
                    rec.bad(nm + ': congruent and in range', 'exhaustive enumeration', 'wrong for a = %d' % r,
                            dict(fn='barrett_reduce', args=[dict(kind='int', val=r, w=32)], retw=16, expect=dict(retmod=r % Q, mod=Q, range=[-(Q - 1) // 2, (Q - 1) // 2])), kind='value')
                    return
            rec.ok(nm + ': congruent, in [-(q-1)/2,(q-1)/2], for all 65536 inputs', 'exhaustive enumeration of the verification condition', 65536)
        J.guarded(rec, nm, go)


REDOUT = {('ref', 'poly_reduce'): (-(Q - 1) // 2, (Q - 1) // 2), ('avx2', 'poly_reduce'): (0, Q),
          ('ref', 'poly_tomont'): (-Q + 1, Q - 1), ('avx2', 'poly_tomont'): (-Q + 1, Q - 1)}


def job_vecreduce(rec, impl, k):
    """poly_reduce / poly_tomont on every int16 value of every coefficient"""
    w = J.world(impl, k, rec)
    w.kinds = {'range', 'wrap', 'residue', 'value', 'safety', None}
    w.ub = True
    for fn in ('poly_reduce', 'poly_tomont'):
        if w.prog.find(fn) is None:
            rec.unk('%s %s' % (w.cfg, fn), 'the function does not exist any more')
            continue
        try:
            w.inst((fn, -32768, 32767), fn, C.verify_linear(w, fn, -32768, 32767, REDOUT[impl, fn]))
        except C.ContractFailure:
            pass
    safety.overflows(rec, w)


LINFNS = ['poly_ntt', 'poly_invntt_tomont', 'poly_basemul_montgomery', 'poly_reduce', 'poly_tomont', 'poly_add', 'poly_sub']


def job_overflow(rec, impl, k, op):
    """no intermediate of the operation leaves its machine word"""
    w = cworld(impl, k, rec, LINFNS)
    w.addcheck = True
    w.kinds = {'range', 'wrap'}
    w.ub = True
    nm = '%s %s' % (w.cfg, J.opname(op))
    done, stop = collect(w, [op])
    for o, why, fn in stop:
        rec.assume.add('%s: arithmetic after the point where verification stops (%s) is not covered' % (nm, why))
        rec.unk(nm + ': no overflow', why)
    for r in done:
        J.op_obligations(w, r, rec, nm)
        for f in r.x.inlined:
            rec.inl.setdefault(f, set()).add(w.cfg)
        safety.overflows(rec, w)
        rec.ok(nm + ': every transform, product, reduction and addition is called inside its proved range', 'interval precondition at the call', sum(r.x.calls.values()))


# ---------------------------------------------------------------- C08 / C09
SER = ['poly_tobytes', 'poly_frombytes']
COMP = ['poly_compress', 'poly_decompress', 'polyvec_compress', 'polyvec_decompress', 'poly_tomsg', 'poly_frommsg']


def job_serial(rec, impl, k, seed=1):
    w, done = job_contracts(rec, impl, k, SER, seed)
    al = leaf.palign(w.prog)
    n = 384 * k
    for lo, hi in sorted({r[0] for r in ranges(w, 'poly_tobytes')} | {(0, Q - 1)}):
        nm = '%s polyvec_tobytes / polyvec_frombytes, coefficients in [%d,%d]' % (w.cfg, lo, hi)

        def go():
            pr, x = proto.setup(w)
            A, B, C_, D = x.new(512 * k, al, 'a'), x.new(n, 1, 'bytes'), x.new(512 * k, al, 'c'), x.new(n, 1, 'bytes2')
            va = resvec(pr, 'sa', lo, hi, 256 * k)
            putpoly(x, A, va)
            x.run(w.name('polyvec_tobytes'), [B.base, A.base])
            rs = [pr.res_of(v) for v in va]
            want = C.pack([(pr.canon(rs[(j & ~255) + w.ipi[j & 255]], SECRET), 12) for j in range(256 * k)])
            got = leaf.getbytes(x, x.mem[B.id], n)
            d = proto.diff(got, want)
            if d:
                rec.bad(nm + ': bytes are the packed canonical residues', 'ghost-term identity', 'byte %d' % d[0])
            else:
                rec.ok(nm + ': bytes are the packed canonical residues', 'ghost-term identity', n)
            x.run(w.name('polyvec_frombytes'), [C_.base, B.base])
            vs, r2, l2, h2, _ = pr.readpoly(x, C_.base, k)
            if not d:
                if r2 != rs or l2 < 0 or h2 >= Q:
                    rec.bad(nm + ': decoding the encoding gives the canonical residues', 'ghost-term identity', 'residues differ or leave [0,q-1]: [%s,%s], %r vs %r' % (l2, h2, {tuple(t.show(q, 2) for q in m): c for m, c in r2[0].items()}, {tuple(t.show(q, 2) for q in m): c for m, c in rs[0].items()}))
                else:
                    rec.ok(nm + ': decoding the encoding gives the canonical residues', 'ghost-term identity', 256 * k)
            for f in x.inlined:
                rec.func(f, w.cfg)
        J.guarded(rec, nm, go)
    nm = '%s polyvec_frombytes, arbitrary bytes' % w.cfg

    def go2():
        pr, x = proto.setup(w)
        B, bv = proto.inbytes(x, 'b', n, lambda i: True)
        A = x.new(512 * k, al, 'a')
        x.run(w.name('polyvec_frombytes'), [A.base, B.base])
        got = leaf.getpoly(x, x.mem[A.id], k)
        bad = [j for j in range(256 * k) if got[(j & ~255) + w.ipi[j & 255]] is not pr.f12(C.field(bv, 12 * j, 12))]
        if bad:
            rec.bad(nm + ': 12-bit fields in order', 'ghost-term identity', 'field %d' % bad[0])
        else:
            rec.ok(nm + ': 12-bit fields in order', 'ghost-term identity', 256 * k)
    J.guarded(rec, nm, go2)
    native_fns(rec, w, ['polyvec_tobytes', 'polyvec_frombytes'], seed, 0.6)


def job_lemma_serial(rec):
    y = np.arange(4096)
    ok = np.array_equal(C.want_canon(y[:Q]), y[:Q])
    (rec.ok if ok else rec.bad)('lemma: the encoder contract maps a decoded canonical field to itself, all y < q', 'enumeration', *(() if ok else ('fails',)))


def job_lemma_comp(rec):
    for d in (1, 4, 5, 10, 11):
        y = np.arange(1 << d)
        x = np.arange(Q)
        c = C.want_comp(d)
        dd = C.want_dec(d)
        exact = [((2 * (v << d) + Q) // (2 * Q)) % (1 << d) for v in range(Q)]
        e2 = [(2 * Q * v + (1 << d)) // (1 << (d + 1)) for v in range(1 << d)]
        r = dd(c(x)) - x
        r = (r + Q // 2) % Q - Q // 2
        bound = (Q + (1 << d)) >> (d + 1)      # round(q/2^(d+1))
        for nm, ok in (('compression contract is round(2^d x/q) mod 2^d', list(c(x)) == exact), ('decompression contract is round(q y/2^d)', list(dd(y)) == e2),
                       ('compress(decompress(y)) = y', np.array_equal(c(dd(y)), y)), ('|decompress(compress(x)) - x| <= round(q/2^(d+1)) = %d' % bound, bool(np.all(abs(r) <= bound)))):
            if ok:
                rec.ok('lemma d=%d: %s' % (d, nm), 'enumeration of all values', Q if 'x' in nm else 1 << d)
            else:
                rec.bad('lemma d=%d: %s' % (d, nm), 'enumeration', 'fails')


def job_compress(rec, impl, k, seed=1):
    job_contracts(rec, impl, k, COMP, seed)


# ---------------------------------------------------------------- C12
def job_matrix(rec, impl, k, tr):
    w = J.world(impl, k, rec)
    J.guarded(rec, '%s gen_matrix(transposed=%d)' % (w.cfg, tr), lambda: mat.matrix(w, tr))


SEEDS = None


def interesting_seeds(k, rnd, n):
    """seeds whose streams are unusual: some entry needs more blocks than usual, or ends exactly at a block edge"""
    from . import fast
    out = []
    for _ in range(n):
        s = rnd.randbytes(32)
        sc = 0
        for i in range(k):
            for j in range(k):
                c = fast.cands(hashlib_shake(s + bytes([i, j]), 168 * 4))
                a = np.cumsum(c < Q)
                b3 = a[335]
                if b3 < 256:
                    sc += 100            # a fourth block is needed
                sc += 10 * (b3 in (255, 256, 257)) + bool(np.any(c[:336] == Q)) + bool(np.any(c[:336] == Q - 1))
        out.append((sc, s))
    out.sort(key=lambda p: -p[0])
    return [s for _, s in out]


def hashlib_shake(b, n):
    import hashlib
    return hashlib.shake_128(b).digest(n)


def job_matrix_native(rec, impl, k, seed, secs):
    """bounded: native gen_matrix and rej_uniform on directed inputs"""
    import random
    from . import native
    rnd = random.Random('mat %s %d' % (seed, k))
    try:
        native.lib(impl, k)
    except Exception as e:
        rec.unk('%s/K=%d native matrix' % (impl, k), str(e)[-300:])
        return
    seeds = interesting_seeds(k, rnd, 60 if secs < 10 else 600)[:24]

    def dirs():
        pi = fnspec.perm(impl, k)
        for s in seeds:
            for tr in (0, 1):
                yield [fnspec.P_([0] * (256 * k * k), 'out'), fnspec.B_(s), dict(kind='int', val=tr, w=32)], fnspec.matrix_expect(s, tr, k, pi)
    for fn in ('gen_matrix', 'rej_uniform', 'rej_uniform_avx'):
        try:
            n, x, crash = fnspec.diff_fn(impl, k, fn, None, secs, seed, dirs() if fn == 'gen_matrix' else ())
        except Exception as e:
            rec.unk('%s/K=%d %s native differential' % (impl, k, fn), str(e)[-300:])
            continue
        if n:
            rec.bounded.append(('native %s against SampleNTT on directed and sampled streams' % fn, n))
        if x is not None or crash:
            rec.bad('%s/K=%d native %s agrees with SampleNTT' % (impl, k, fn), 'native execution', str(crash or 'differs'), x, kind='native')
    try:
        n, x, why = xof.search_matrix(impl, k, secs, seed)
    except Exception as e:
        rec.unk('%s/K=%d gen_matrix over scripted streams' % (impl, k), str(e)[-300:])
        return
    if n:
        rec.bounded.append(('native gen_matrix over scripted XOF streams (rejections beyond any known seed)', n))
    if x is not None:
        rec.bad('%s/K=%d gen_matrix over scripted XOF streams agrees with SampleNTT' % (impl, k), 'native execution', why, x, kind='native')


# ---------------------------------------------------------------- C13
def job_noise(rec, impl, k, seed=1):
    w, done = job_contracts(rec, impl, k, ['poly_cbd_eta1', 'poly_cbd_eta2'], seed)
    e1, e2 = w.P['eta1'], w.P['eta2']
    al = leaf.palign(w.prog)
    forms = [('poly_getnoise_eta1', [e1]), ('poly_getnoise_eta2', [e2]), ('poly_getnoise_eta1_4x', [e1] * 4), ('poly_getnoise_eta1122_4x', [e1, e1, e2, e2])]
    keccak_w = C.World(w.prog, rec)          # permutation proved here, not assumed
    w.keccak = proto.kperms(keccak_w)
    for fn, es in forms:
        name = w.prog.find(fn)
        if name is None and fn == 'poly_getnoise_eta1_4x':
            name = w.prog.find('poly_getnoise_eta2_4x')
        if name is None:
            if fn in ('poly_getnoise_eta1', 'poly_getnoise_eta2') or impl == 'avx2' and (fn.endswith('eta1_4x') or k == 2):
                rec.unk('%s %s' % (w.cfg, fn), 'the function does not exist any more')
            continue
        nm = '%s %s' % (w.cfg, fn)

        def go():
            pr, x = proto.setup(w)
            S, sv = proto.inbytes(x, 'seed', 32, lambda i: True)
            outs = [x.new(512, al, 'r%d' % i) for i in range(len(es))]
            nn = [t.var('nonce%d' % i, 8) for i in range(len(es))]
            f = w.prog.funcs[name]
            nw = f.params[-1][0][1]
            x.run(name, [o.base for o in outs] + [S.base] + [t.zext(v, 8, nw) if nw > 8 else v for v in nn])
            rec.func(fn, w.cfg)
            for g in x.inlined:
                rec.inl.setdefault(g, set()).add(w.cfg)
            for i, e in enumerate(es):
                want = [pr.cbd(C.field(pr.fips.prf(sv, nn[i], e), 2 * e * j, 2 * e), e) for j in range(256)]
                got = leaf.getpoly(x, x.mem[outs[i].id])
                d = proto.diff(got, want)
                if d:
                    rec.bad('%s: output %d is CBD_%d(SHAKE256(seed||nonce))' % (nm, i, e), 'ghost-term identity', 'coefficient %d' % d[0])
                else:
                    rec.ok('%s: output %d is CBD_%d(SHAKE256(seed||nonce%d)) for every seed and nonce' % (nm, i, e, i), 'ghost-term identity', 256)
        J.guarded(rec, nm, go)
    native_fns(rec, w, ['poly_getnoise_eta1', 'poly_getnoise_eta2'] + (['poly_getnoise_eta1_4x', 'poly_getnoise_eta1122_4x'] if impl == 'avx2' else []), seed, 0.5)
