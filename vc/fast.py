"""numpy version of the FIPS 203 oracle, for the bounded differential searches (checked against spec.py)."""
import hashlib
import numpy as np
from . import spec
from .contracts import NTTM, INTTM

Q = 3329
_M = {}


def mats():
    if not _M:
        _M['n'] = np.array(NTTM(), dtype=np.int64)
        _M['i'] = np.array(INTTM(), dtype=np.int64)
        _M['g'] = np.array(spec.GAMMA, dtype=np.int64)
    return _M


def ntt(f):
    return mats()['n'] @ (np.asarray(f) % Q) % Q


def intt(f):
    return mats()['i'] @ (np.asarray(f) % Q) % Q


def basemul(a, b):
    a, b = a % Q, b % Q
    o = np.empty(256, dtype=np.int64)
    o[0::2] = (a[0::2] * b[0::2] + a[1::2] * b[1::2] % Q * mats()['g']) % Q
    o[1::2] = (a[0::2] * b[1::2] + a[1::2] * b[0::2]) % Q
    return o


def compress(x, d):
    x = np.asarray(x) % Q
    return (2 * (x << d) + Q) // (2 * Q) % (1 << d)


def decompress(y, d):
    return (2 * Q * np.asarray(y) + (1 << d)) // (1 << (d + 1))


def encode(f, d):
    f = np.asarray(f)
    bits = (f[:, None] >> np.arange(d)) & 1
    return np.packbits(bits.astype(np.uint8).reshape(-1), bitorder='little').tobytes()


def decode(b, d):
    bits = np.unpackbits(np.frombuffer(b, dtype=np.uint8), bitorder='little').reshape(-1, d).astype(np.int64)
    return (bits << np.arange(d)).sum(axis=1)


def cbd(b, eta):
    bits = np.unpackbits(np.frombuffer(b, dtype=np.uint8), bitorder='little').reshape(256, 2 * eta).astype(np.int64)
    return bits[:, :eta].sum(axis=1) - bits[:, eta:].sum(axis=1)


def cands(buf):
    b = np.frombuffer(buf, dtype=np.uint8).astype(np.int64).reshape(-1, 3)
    o = np.empty((len(b), 2), dtype=np.int64)
    o[:, 0] = b[:, 0] | (b[:, 1] & 15) << 8
    o[:, 1] = b[:, 1] >> 4 | b[:, 2] << 4
    return o.reshape(-1)


def sample_ntt(seed34):
    n = 504
    while True:
        c = cands(hashlib.shake_128(seed34).digest(n))
        c = c[c < Q]
        if len(c) >= 256:
            return c[:256]
        n += 168


def kpke_keygen(d, k):
    P = spec.PARAMS[k]
    rho, sigma = spec.G(d + bytes([k]))
    s = [ntt(cbd(spec.prf(sigma, i, P['eta1']), P['eta1'])) for i in range(k)]
    e = [ntt(cbd(spec.prf(sigma, k + i, P['eta1']), P['eta1'])) for i in range(k)]
    ek = b''
    for i in range(k):
        a = e[i]
        for j in range(k):
            a = a + basemul(sample_ntt(rho + bytes([j, i])), s[j])
        ek += encode(a % Q, 12)
    return ek + rho, b''.join(encode(x, 12) for x in s)


def kpke_enc(ek, m, r, k):
    P = spec.PARAMS[k]
    th = [decode(ek[384 * i:384 * i + 384], 12) for i in range(k)]
    rho = ek[384 * k:384 * k + 32]
    y = [ntt(cbd(spec.prf(r, i, P['eta1']), P['eta1'])) for i in range(k)]
    e1 = [cbd(spec.prf(r, k + i, P['eta2']), P['eta2']) for i in range(k)]
    e2 = cbd(spec.prf(r, 2 * k, P['eta2']), P['eta2'])
    c = b''
    for i in range(k):
        a = np.zeros(256, dtype=np.int64)
        for j in range(k):
            a += basemul(sample_ntt(rho + bytes([i, j])), y[j])
        c += encode(compress(intt(a) + e1[i], P['du']), P['du'])
    a = np.zeros(256, dtype=np.int64)
    for j in range(k):
        a += basemul(th[j], y[j])
    v = intt(a) + e2 + decompress(decode(m, 1), 1)
    return c + encode(compress(v, P['dv']), P['dv'])


def kpke_dec(dk, c, k):
    P = spec.PARAMS[k]
    n = 32 * P['du']
    a = np.zeros(256, dtype=np.int64)
    for i in range(k):
        u = decompress(decode(c[n * i:n * i + n], P['du']), P['du'])
        a += basemul(decode(dk[384 * i:384 * i + 384], 12), ntt(u))
    v = decompress(decode(c[n * k:], P['dv']), P['dv'])
    return encode(compress(v - intt(a), 1), 1)


def keygen(coins, k):
    ek, dk = kpke_keygen(coins[:32], k)
    return ek, dk + ek + spec.H(ek) + coins[32:64]


def encaps(ek, m, k):
    K, r = spec.G(m + spec.H(ek))
    return kpke_enc(ek, m, r, k), K


def decaps(dk, c, k):
    n = 384 * k
    dkp, ek, h, z = dk[:n], dk[n:2 * n + 32], dk[2 * n + 32:2 * n + 64], dk[2 * n + 64:2 * n + 96]
    K, r = spec.G(kpke_dec(dkp, c, k) + h)
    return K if kpke_enc(ek, kpke_dec(dkp, c, k), r, k) == c else spec.J(z + c)


def selftest(n=2):
    import os, random
    rnd = random.Random(5)
    for k in (2, 3, 4):
        z = spec.sizes(k)
        for i in range(n):
            c = rnd.randbytes(64)
            pk, sk = spec.keygen(c, k)
            assert (pk, sk) == keygen(c, k)
            m = rnd.randbytes(32)
            p = pk if i & 1 else rnd.randbytes(z['pk'])
            ct, ss = spec.encaps(p, m, k)
            assert (ct, ss) == encaps(p, m, k)
            ct = spec.encaps(pk, m, k)[0]
            assert spec.decaps(sk, ct, k) == decaps(sk, ct, k) == spec.encaps(pk, m, k)[1]
            ct = bytes([ct[0] ^ 1]) + ct[1:]
            assert spec.decaps(sk, ct, k) == decaps(sk, ct, k)
    return True
