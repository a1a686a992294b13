"""Native functions against their specification on sampled arguments: bounded stand-in for functions the
verifier could not bring under contract, and search for concrete inputs of failed obligations."""
import random, time, ctypes, hashlib
import numpy as np
from . import spec, fast, native, search, build

Q = 3329
R = pow(2, 16, Q)
RINV = pow(R, -1, Q)


def perm(impl, k):
    """position of the transform-domain coefficients, read off the native poly_nttunpack"""
    if impl == 'ref':
        return np.arange(256)
    f = native.sym(impl, k, 'poly_nttunpack')
    if f is None:
        return None
    b = native.Buf(native.from_i16(range(256)))
    f(b.ptr)
    return np.array(native.i16s(b.bytes()))


def rpoly(rnd, lo, hi, n=1):
    """sampled coefficients of [lo,hi]: mixtures of uniform, extreme, boundary, sparse and constant vectors"""
    m = rnd.randrange(8)
    N = 256 * n
    r = np.random.RandomState(rnd.getrandbits(31))
    if m == 0:
        return r.choice([lo, hi], size=N)
    if m == 1:
        s = 1 << rnd.randrange(8)
        a, b = rnd.choice(((lo, hi), (hi, lo)))
        return np.where((np.arange(N) // s) & 1, b, a)
    if m == 2:
        p = np.full(N, min(max(0, lo), hi))
        for _ in range(rnd.randint(1, 4)):
            p[rnd.randrange(N)] = rnd.randint(lo, hi)
        return p
    if m == 3:
        return np.full(N, rnd.choice((lo, hi, rnd.randint(lo, hi))))
    if m == 4:
        c = rnd.randint(lo, hi)
        return lo + (c - lo + np.arange(N)) % (hi - lo + 1)
    return r.randint(lo, hi + 1, size=N)


def rbytes(rnd, n):
    m = rnd.randrange(6)
    if m == 0:
        return bytes([rnd.choice((0, 255, 1, 128, 0x55, 0xaa))]) * n
    if m == 1:
        b = bytearray(n)
        for _ in range(rnd.randint(1, 4)):
            b[rnd.randrange(n)] = rnd.randrange(256)
        return bytes(b)
    return rnd.randbytes(n)


P_ = lambda v, role='in': dict(kind='poly', val=[int(x) for x in v], role=role)
B_ = lambda v, role='in', al=1: dict(kind='bytes', val=list(v), role=role, align=al)


def case(impl, k, fn, rnd, rng, pi):
    """one sampled call with its expected result; rng: list of (lo,hi) per polynomial argument"""
    P = spec.PARAMS[k]
    du, dv, e1, e2 = P['du'], P['dv'], P['eta1'], P['eta2']
    z = lambda n: [0] * n
    r0 = rng[0] if rng else (0, Q - 1)
    dom = lambda v: [int(x) for x in v]
    ipi = np.argsort(pi)
    al = 32 if impl == 'avx2' else 1
    if fn == 'poly_ntt':
        a = rpoly(rnd, *r0)
        return [P_(a, 'inout')], dict(arg=0, poly=dom(fast.ntt(a)[pi]), mod=Q)
    if fn == 'poly_invntt_tomont':
        a = rpoly(rnd, *r0)
        return [P_(a, 'inout')], dict(arg=0, poly=dom(fast.intt(a[ipi]) * R % Q), mod=Q)
    if fn == 'poly_reduce':
        a = rpoly(rnd, *r0)
        return [P_(a, 'inout')], dict(arg=0, poly=dom(a), mod=Q, range=[-(Q - 1) // 2, (Q - 1) // 2] if impl == 'ref' else [0, Q])
    if fn == 'poly_tomont':
        a = rpoly(rnd, *r0)
        return [P_(a, 'inout')], dict(arg=0, poly=dom(a * R % Q), mod=Q, range=[-Q, Q])
    if fn == 'poly_basemul_montgomery':
        a, b = rpoly(rnd, *r0), rpoly(rnd, *rng[1])
        w = fast.basemul(a[ipi], b[ipi]) * RINV % Q
        return [P_(z(256), 'out'), P_(a), P_(b)], dict(arg=0, poly=dom(w[pi]), mod=Q)
    if fn in ('poly_add', 'poly_sub'):
        a, b = rpoly(rnd, *r0), rpoly(rnd, *rng[1])
        return [P_(z(256), 'out'), P_(a), P_(b)], dict(arg=0, poly=dom(a + b if fn == 'poly_add' else a - b))
    if fn == 'poly_tobytes':
        a = rpoly(rnd, *r0)
        return [B_(z(384), 'out'), P_(a)], dict(arg=0, whole=list(fast.encode((a % Q)[ipi], 12)))
    if fn == 'polyvec_tobytes':
        a = rpoly(rnd, *r0, n=k)
        w = b''.join(fast.encode((a[256 * i:256 * i + 256] % Q)[ipi], 12) for i in range(k))
        return [B_(z(384 * k), 'out'), P_(a)], dict(arg=0, whole=list(w))
    if fn == 'poly_frombytes':
        b = rbytes(rnd, 384)
        return [P_(z(256), 'out'), B_(b)], dict(arg=0, poly=dom(fast.decode(b, 12)[pi]))
    if fn == 'polyvec_frombytes':
        b = rbytes(rnd, 384 * k)
        w = np.concatenate([fast.decode(b[384 * i:384 * i + 384], 12)[pi] for i in range(k)])
        return [P_(z(256 * k), 'out'), B_(b)], dict(arg=0, poly=dom(w))
    if fn in ('poly_compress', 'poly_tomsg'):
        d = dv if fn == 'poly_compress' else 1
        a = rpoly(rnd, *r0)
        return [B_(z(32 * d), 'out'), P_(a)], dict(arg=0, whole=list(fast.encode(fast.compress(a, d), d)))
    if fn == 'polyvec_compress':
        a = rpoly(rnd, *r0, n=k)
        w = fast.encode(fast.compress(a, du), du)
        return [B_(z(len(w) + 2), 'out'), P_(a)], dict(arg=0, whole=list(w))
    if fn in ('poly_decompress', 'poly_frommsg'):
        d = dv if fn == 'poly_decompress' else 1
        b = rbytes(rnd, 32 * d)
        return [P_(z(256), 'out'), B_(b)], dict(arg=0, poly=dom(fast.decompress(fast.decode(b, d), d)))
    if fn == 'polyvec_decompress':
        b = rbytes(rnd, 32 * du * k)
        return [P_(z(256 * k), 'out'), B_(list(b) + z(12))], dict(arg=0, poly=dom(fast.decompress(fast.decode(b, du), du)))
    if fn in ('poly_cbd_eta1', 'poly_cbd_eta2'):
        e = e1 if fn.endswith('1') else e2
        b = rbytes(rnd, 64 * e)
        return [P_(z(256), 'out'), B_(list(b) + (z(32) if impl == 'avx2' else []), al=al)], dict(arg=0, poly=dom(fast.cbd(b, e)))
    if fn in ('poly_getnoise_eta1', 'poly_getnoise_eta2'):
        e = e1 if fn.endswith('1') else e2
        s, n = rbytes(rnd, 32), rnd.randrange(256)
        return [P_(z(256), 'out'), B_(s), dict(kind='int', val=n, w=32)], dict(arg=0, poly=dom(fast.cbd(spec.prf(s, n, e), e)))
    if fn in ('poly_getnoise_eta1_4x', 'poly_getnoise_eta1122_4x'):
        s = rbytes(rnd, 32)
        n = [rnd.randrange(256) for _ in range(4)]
        es = [e1] * 4 if fn == 'poly_getnoise_eta1_4x' else [e1, e1, e2, e2]
        return [P_(z(256), 'out') for _ in n] + [B_(s)] + [dict(kind='int', val=x, w=32) for x in n], \
            dict(args=[dict(arg=i, poly=dom(fast.cbd(spec.prf(s, n[i], es[i]), es[i]))) for i in range(4)])
    if fn == 'rej_uniform' or fn == 'rej_uniform_avx':
        return rejcase(fn, rnd, k, impl)
    if fn == 'gen_matrix':
        s = rbytes(rnd, 32)
        tr = rnd.randrange(2)
        return [P_(z(256 * k * k), 'out'), B_(s), dict(kind='int', val=tr, w=32)], matrix_expect(s, tr, k, pi)
    if fn == 'montgomery_reduce':
        a = rnd.choice((rnd.randint(-Q * 32768, Q * 32768 - 1), -Q * 32768 + rnd.randrange(70000), Q * 32768 - 1 - rnd.randrange(70000), rnd.randint(-70000, 70000)))
        return [dict(kind='int', val=a, w=32)], dict(retmod=a * RINV % Q, mod=Q, range=[-Q + 1, Q - 1], retw=16)
    if fn == 'barrett_reduce':
        a = rnd.randint(-32768, 32767)
        return [dict(kind='int', val=a, w=32)], dict(retmod=a % Q, mod=Q, range=[-(Q - 1) // 2, (Q - 1) // 2], retw=16)
    if fn == 'fqmul':
        a, b = rnd.randint(-32768, 32767), rnd.randint(-Q + 1, Q - 1)
        return [dict(kind='int', val=a, w=32), dict(kind='int', val=b, w=32)], dict(retmod=a * b * RINV % Q, mod=Q, range=[-Q + 1, Q - 1], retw=16)
    return None


def matrix_expect(s, tr, k, pi):
    w = []
    for i in range(k):
        for j in range(k):
            w += [int(x) for x in fast.sample_ntt(s + bytes([i, j] if tr else [j, i]))[pi]]
    return dict(arg=0, poly=w)


def rejcase(fn, rnd, k, impl):
    """stream of candidates of chosen shape; the function must keep those below q, in order"""
    n = {'rej_uniform': rnd.choice((168, 504, 3, 336, 171)), 'rej_uniform_avx': None}[fn]
    L = rnd.choice((256, 256, rnd.randrange(257), 8, 1))
    if fn == 'rej_uniform_avx':
        n, L = 504, 256
    nc = n * 2 // 3
    m = rnd.randrange(6)
    if m == 0:
        c = [rnd.choice((Q - 1, Q, Q + 1, 0, 4095)) for _ in range(nc)]
    elif m == 1:
        c = [rnd.randrange(4096) for _ in range(nc)]
    elif m == 2:
        c = [rnd.randrange(Q, 4096) if rnd.random() < 0.5 else rnd.randrange(Q) for _ in range(nc)]
    elif m == 3:
        j = rnd.randrange(nc)
        c = [rnd.randrange(Q) for _ in range(nc)]
        c[j] = rnd.randrange(4096)
    elif m == 4:
        p = rnd.randint(230, 290)
        c = [rnd.randrange(Q) if i < p else rnd.randrange(Q, 4096) for i in range(nc)]
    else:
        c = [4095] * nc
        for _ in range(rnd.randint(1, 9)):
            c[rnd.randrange(nc)] = rnd.randrange(4096)
    buf = bytearray()
    for i in range(0, nc - 1, 2):
        buf += bytes([c[i] & 255, c[i] >> 8 | (c[i + 1] & 15) << 4, c[i + 1] >> 4])
    buf = bytes(buf)
    cc = [x for x in c[:2 * (n // 3)] if x < Q][:L]
    if fn == 'rej_uniform':
        return [P_([0] * 256, 'out'), dict(kind='int', val=L, w=32), B_(buf), dict(kind='int', val=len(buf), w=32)], dict(arg=0, prefix=cc, ret=len(cc))
    return [P_([0] * 256, 'out'), B_(list(buf) + [0] * 64, al=32)], dict(arg=0, prefix=cc, ret=len(cc))


def cex(fn, args, e):
    d = dict(fn=fn, args=args, expect=e)
    if 'retw' in e:
        d['retw'] = e['retw']
    return d


def diff_fn(impl, k, fn, rngs, seconds, seed, directed=()):
    """(cases, cex | None, crash | None)"""
    native.lib(impl, k)
    rnd = random.Random('%s/%s/%d/%s' % (seed, impl, k, fn))

    import os, pickle
    if search.find_fn(impl, k, fn) is None:
        return 0, None, None
    prog = os.path.join(build.scratch(), 'lastfn.%d.%s%d%s' % (os.getpid(), impl, k, fn))

    def go():
        pi = perm(impl, k)
        if pi is None or sorted(pi) != list(range(256)):
            return 0, None
        end = time.time() + seconds
        n = 0
        it = iter(directed)
        while n < 2 or time.time() < end:
            c = next(it, None)
            if c is None:
                c = case(impl, k, fn, rnd, rngs[n % len(rngs)] if rngs else None, pi)
            if c is None:
                return n, None
            x = cex(fn, *c)
            if n % 16 == 0 or n < 16:
                with open(prog, 'wb') as f:
                    pickle.dump(x, f)
            try:
                ret, outs = search.call_fn(impl, k, x)
            except KeyError:
                return 0, None
            n += 1
            if search.check_expect(x, ret, outs):
                return n, x
        return n, None
    r = search.isolated(go, seconds + 60)
    if r[0] == 'ok':
        return r[1][0], r[1][1], None
    if r[0] == 'error':
        raise RuntimeError(r[1])
    try:
        x = pickle.load(open(prog, 'rb'))
    except Exception:
        x = None
    return 0, x, r
