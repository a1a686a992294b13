"""gen_matrix compiled natively over scripted XOF streams: rare shapes that no seed is known for.

Bounded; finds inputs, decides nothing.  The stub replaces SHAKE128 at link time (lib/xofstub.c)."""
import os, time, random, ctypes
import numpy as np
from . import build, native, fast, fnspec, search

Q = 3329
MARK = bytes(range(0x40, 0x60))
NB = 24          # blocks per stream; zeros (accepted) afterwards
FNS = ['shake128_init', 'shake128_absorb_once', 'shake128_squeezeblocks', 'shake128_squeeze']
_L = {}


def lib(impl, k):
    if (impl, k) in _L:
        return _L[impl, k]
    out = os.path.join(build.scratch(), 'xof_%s_%d.so' % (impl, k))
    if not os.path.exists(out):
        srcs = [os.path.join(build.REPO, impl, s) for s in build.sources(impl)]
        w = ['-Wl,--wrap=pqcrystals_kyber_fips202_%s_' % impl + f for f in FNS]
        flags = []
        if impl == 'avx2':
            flags = ['-mavx2', '-mbmi2', '-mpopcnt', '-DVC_X4']
            w += ['-Wl,--wrap=pqcrystals_kyber_fips202x4_avx2_' + f for f in ('shake128x4_absorb_once', 'shake128x4_squeezeblocks')]
        tmp = out + '.%d' % os.getpid()
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        build.sh(['gcc', '-shared', '-fPIC', '-O2', '-w', '-fno-lto', '-DKYBER_K=%d' % k, '-Wa,-I' + os.path.join(build.REPO, impl), '-Wl,-z,noexecstack']
                 + flags + w + srcs + [os.path.join(here, 'lib/xofstub.c'), '-o', tmp])
        os.rename(tmp, out)
    _L[impl, k] = ctypes.CDLL(out)
    return _L[impl, k]


def pack(c):
    c = np.asarray(c).reshape(-1, 2)
    o = np.empty((len(c), 3), dtype=np.uint8)
    o[:, 0] = c[:, 0] & 255
    o[:, 1] = c[:, 0] >> 8 | (c[:, 1] & 15) << 4
    o[:, 2] = c[:, 1] >> 4
    return o.tobytes()


def stream(rnd):
    """candidates of one stream: acceptance pattern chosen around block edges"""
    n = NB * 112
    rej = lambda: rnd.choice((Q, Q + 1, 4095, rnd.randrange(Q, 4096)))
    acc = lambda: rnd.choice((0, Q - 1, rnd.randrange(Q), rnd.randrange(Q), rnd.randrange(Q)))
    m = rnd.randrange(7)
    if m == 0:
        return [rnd.randrange(4096) for _ in range(n)]
    if m == 1:
        p = rnd.choice((0.02, 0.1, 0.3, 0.5, 0.7, 0.76))
        return [acc() if rnd.random() < p else rej() for _ in range(n)]
    if m == 2:
        b = rnd.randrange(1, 12) * 112 + rnd.choice((0, 0, -1, 1, 2))
        return [rej() if i < b else acc() for i in range(n)]
    # exactly t candidates accepted in the first b blocks, the rest soon after
    b = rnd.choice((3, 3, 3, 4, 4, 5, 6, 7)) * 112
    t = min(b, rnd.choice((256, 255, 254, 257, 250, 249, 248, 224, 1, 0)))
    ix = list(range(b))
    if m == 3:
        rnd.shuffle(ix)
    elif m == 4:
        ix.reverse()
    elif m == 5:
        ix = [i for i in ix if i % 8 == 7] + [i for i in ix if i % 8 != 7]
    ok = set(ix[:t])
    p = rnd.choice((0, 0.1, 0.8, 1))
    g = rnd.choice((0, 0, 112, 113, 224))
    return [(acc() if i in ok else rej()) if i < b else rej() if i < b + g else acc() if rnd.random() < max(p, .05) else rej() for i in range(n)]


def expect(cs, tr, k, pi):
    w = []
    for i in range(k):
        for j in range(k):
            c = np.asarray(cs[i * k + j] if tr else cs[j * k + i])
            a = c[c < Q]
            a = np.concatenate([a, np.zeros(256, dtype=a.dtype)])[:256]
            w += [int(x) for x in a[pi]]
    return w


def one(impl, k, data, tr, cs, pi):
    """description of a difference, None, or False when the stub did not serve every entry"""
    L = lib(impl, k)
    f = getattr(L, 'pqcrystals_kyber%d_%s_gen_matrix' % ({2: 512, 3: 768, 4: 1024}[k], impl))
    tb = ctypes.create_string_buffer(data, len(data))
    mk = ctypes.create_string_buffer(MARK, 32)
    L.vc_xof_set(mk, tb, ctypes.c_size_t(k), ctypes.c_size_t(NB * 168))
    a = native.Buf(b'\x5a' * (512 * k * k) + b'\xa5' * 64)
    s = native.Buf(MARK)
    f(a.ptr, s.ptr, ctypes.c_int(tr))
    if L.vc_xof_engaged() != k * k:
        return False
    got = native.i16s(a.bytes()[:512 * k * k])
    if a.bytes()[512 * k * k:] != b'\xa5' * 64:
        return 'gen_matrix writes past the matrix'
    for n, (g, x) in enumerate(zip(got, expect(cs, tr, k, pi))):
        if g != x:
            return '%s/K=%d gen_matrix(transposed=%d) over scripted XOF streams: entry %d coefficient %d is %d, element of SampleNTT is %d' % (impl, k, tr, n // 256, n % 256, g, x)
    return None


def search_matrix(impl, k, seconds, seed):
    """(cases, failing case or None, crash)"""
    lib(impl, k)
    pi = fnspec.perm(impl, k)

    def case(i):
        rnd = random.Random('xof %s %d %s %d' % (seed, k, impl, i))
        cs = [stream(rnd) for _ in range(k * k)]
        return b''.join(pack(c) for c in cs), i & 1, cs
    import mmap, struct
    at = mmap.mmap(-1, 8)

    def go():
        end = time.time() + seconds
        i = 0
        while True:
            at[:8] = struct.pack('<Q', i)
            d, tr, cs = case(i)
            r = one(impl, k, d, tr, cs, pi)
            if r is False:
                return 0, None, None
            i += 1
            if r:
                return i, (d, tr), r
            if time.time() > end:
                return i, None, None
    r = search.isolated(go, seconds + 60)
    if r[0] == 'ok':
        return r[1][0], (dict(xof=r[1][1][0], tr=r[1][1][1], impl=impl, k=k) if r[1][1] else None), r[1][2]
    if r[0] == 'error':
        raise RuntimeError(r[1])
    i, = struct.unpack('<Q', at[:8])
    d, tr, cs = case(i)
    return i + 1, dict(xof=d, tr=tr, impl=impl, k=k), str(r)


def replay(c):
    impl, k = c['impl'], c['k']
    d = bytes(c['xof'])
    n = NB * 168
    cs = [fast.cands(d[i * n:i * n + n]) for i in range(k * k)]
    r = search.isolated(lambda: one(impl, k, d, c['tr'], cs, fnspec.perm(impl, k)), 60)
    if r[0] == 'ok':
        return r[1] or None
    return '%s/K=%d gen_matrix over scripted XOF streams: native call ends with %s' % (impl, k, r)
