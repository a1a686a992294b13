"""Executable FIPS 203 / FIPS 202 specification, written from the standards (no code shared with /repo)."""
import hashlib

Q = 3329
N = 256
PARAMS = {2: dict(k=2, eta1=3, eta2=2, du=10, dv=4), 3: dict(k=3, eta1=2, eta2=2, du=10, dv=4),
          4: dict(k=4, eta1=2, eta2=2, du=11, dv=5)}


def bitrev7(i):
    r = 0
    for _ in range(7):
        r = r << 1 | i & 1
        i >>= 1
    return r


ZETA = [pow(17, bitrev7(i), Q) for i in range(128)]
GAMMA = [pow(17, 2 * bitrev7(i) + 1, Q) for i in range(128)]


def ntt(f):
    f = list(f)
    i = 1
    ln = 128
    while ln >= 2:
        for s in range(0, 256, 2 * ln):
            z = ZETA[i]
            i += 1
            for j in range(s, s + ln):
                x = z * f[j + ln] % Q
                f[j + ln] = (f[j] - x) % Q
                f[j] = (f[j] + x) % Q
        ln //= 2
    return f


def intt(f):
    f = list(f)
    i = 127
    ln = 2
    while ln <= 128:
        for s in range(0, 256, 2 * ln):
            z = ZETA[i]
            i -= 1
            for j in range(s, s + ln):
                x = f[j]
                f[j] = (x + f[j + ln]) % Q
                f[j + ln] = z * (f[j + ln] - x) % Q
        ln *= 2
    return [x * 3303 % Q for x in f]


def basemul(a, b):
    r = [0] * 256
    for i in range(128):
        a0, a1, b0, b1 = a[2 * i], a[2 * i + 1], b[2 * i], b[2 * i + 1]
        r[2 * i] = (a0 * b0 + a1 * b1 * GAMMA[i]) % Q
        r[2 * i + 1] = (a0 * b1 + a1 * b0) % Q
    return r


def add(a, b):
    return [(x + y) % Q for x, y in zip(a, b)]


def sub(a, b):
    return [(x - y) % Q for x, y in zip(a, b)]


def compress1(x, d):
    x %= Q
    # round(2^d x / q), ties cannot occur because q is odd ... half rounds up
    return ((2 * (x << d) + Q) // (2 * Q)) % (1 << d)


def decompress1(y, d):
    return (2 * Q * y + (1 << d)) // (1 << (d + 1))


def encode(f, d):
    v = 0
    for i, x in enumerate(f):
        v |= x << (d * i)
    return v.to_bytes(32 * d, 'little')


def decode(b, d):
    v = int.from_bytes(b, 'little')
    m = (1 << d) - 1
    return [v >> (d * i) & m for i in range(256)]


def cbd(b, eta):
    v = int.from_bytes(b, 'little')
    r = []
    for i in range(256):
        x = bin(v >> (2 * i * eta) & ((1 << eta) - 1)).count('1')
        y = bin(v >> (2 * i * eta + eta) & ((1 << eta) - 1)).count('1')
        r.append((x - y) % Q)
    return r


def sample_ntt(seed34):
    n = 672
    while True:
        b = hashlib.shake_128(seed34).digest(n)
        r = []
        for i in range(0, n - 2, 3):
            d1 = b[i] + 256 * (b[i + 1] % 16)
            d2 = b[i + 1] // 16 + 16 * b[i + 2]
            if d1 < Q:
                r.append(d1)
            if d2 < Q and len(r) < 256:
                r.append(d2)
            if len(r) >= 256:
                return r[:256]
        n *= 2


def H(x):
    return hashlib.sha3_256(x).digest()


def G(x):
    h = hashlib.sha3_512(x).digest()
    return h[:32], h[32:]


def J(x):
    return hashlib.shake_256(x).digest(32)


def prf(s, b, eta):
    return hashlib.shake_256(s + bytes([b])).digest(64 * eta)


def matrix(rho, k):
    """A[i][j] from rho||j||i"""
    return [[sample_ntt(rho + bytes([j, i])) for j in range(k)] for i in range(k)]


def kpke_keygen(d, k):
    P = PARAMS[k]
    rho, sigma = G(d + bytes([k]))
    A = matrix(rho, k)
    s = [ntt(cbd(prf(sigma, i, P['eta1']), P['eta1'])) for i in range(k)]
    e = [ntt(cbd(prf(sigma, k + i, P['eta1']), P['eta1'])) for i in range(k)]
    t = []
    for i in range(k):
        a = e[i]
        for j in range(k):
            a = add(a, basemul(A[i][j], s[j]))
        t.append(a)
    ek = b''.join(encode(x, 12) for x in t) + rho
    dk = b''.join(encode(x, 12) for x in s)
    return ek, dk


def kpke_enc(ek, m, r, k):
    P = PARAMS[k]
    th = [[x % Q for x in decode(ek[384 * i:384 * i + 384], 12)] for i in range(k)]
    rho = ek[384 * k:384 * k + 32]
    A = matrix(rho, k)
    y = [ntt(cbd(prf(r, i, P['eta1']), P['eta1'])) for i in range(k)]
    e1 = [cbd(prf(r, k + i, P['eta2']), P['eta2']) for i in range(k)]
    e2 = cbd(prf(r, 2 * k, P['eta2']), P['eta2'])
    c = b''
    for i in range(k):
        a = [0] * 256
        for j in range(k):
            a = add(a, basemul(A[j][i], y[j]))
        u = add(intt(a), e1[i])
        c += encode([compress1(x, P['du']) for x in u], P['du'])
    a = [0] * 256
    for j in range(k):
        a = add(a, basemul(th[j], y[j]))
    mu = [decompress1(x, 1) for x in decode(m, 1)]
    v = add(add(intt(a), e2), mu)
    return c + encode([compress1(x, P['dv']) for x in v], P['dv'])


def kpke_dec(dk, c, k):
    P = PARAMS[k]
    n = 32 * P['du']
    u = [[decompress1(x, P['du']) for x in decode(c[n * i:n * i + n], P['du'])] for i in range(k)]
    v = [decompress1(x, P['dv']) for x in decode(c[n * k:], P['dv'])]
    s = [[x % Q for x in decode(dk[384 * i:384 * i + 384], 12)] for i in range(k)]
    a = [0] * 256
    for i in range(k):
        a = add(a, basemul(s[i], ntt(u[i])))
    w = sub(v, intt(a))
    return encode([compress1(x, 1) for x in w], 1)


def keygen(coins, k):
    d, z = coins[:32], coins[32:64]
    ek, dk = kpke_keygen(d, k)
    return ek, dk + ek + H(ek) + z


def encaps(ek, m, k):
    K, r = G(m + H(ek))
    return kpke_enc(ek, m, r, k), K


def decaps(dk, c, k):
    n = 384 * k
    dkp, ek, h, z = dk[:n], dk[n:2 * n + 32], dk[2 * n + 32:2 * n + 64], dk[2 * n + 64:2 * n + 96]
    m = kpke_dec(dkp, c, k)
    K, r = G(m + h)
    if kpke_enc(ek, m, r, k) == c:
        return K
    return J(z + c)


def sizes(k):
    P = PARAMS[k]
    pk = 384 * k + 32
    return dict(pk=pk, sk=384 * k + pk + 64, ct=32 * (P['du'] * k + P['dv']), ss=32)


# ------------------------------------------------------------ Keccak
RC = []
_l = 1
for _r in range(24):
    c = 0
    for _j in range(7):
        if _l & 1:
            c |= 1 << ((1 << _j) - 1)
        _l = (_l << 1) ^ (0x171 if _l & 0x80 else 0)
    RC.append(c)
RHO = {}
_x, _y = 1, 0
RHO[(0, 0)] = 0
for _t in range(24):
    RHO[(_x, _y)] = ((_t + 1) * (_t + 2) // 2) % 64
    _x, _y = _y, (2 * _x + 3 * _y) % 5
MASK64 = (1 << 64) - 1


def keccak_round(A, rc, xor, andn, rotl):
    """one round of Keccak-f[1600] over an abstract lane algebra; A[x+5*y]"""
    C = []
    for x in range(5):
        c = A[x]
        for y in range(1, 5):
            c = xor(c, A[x + 5 * y])
        C.append(c)
    D = [xor(C[(x - 1) % 5], rotl(C[(x + 1) % 5], 1)) for x in range(5)]
    B = [None] * 25
    for x in range(5):
        for y in range(5):
            B[y + 5 * ((2 * x + 3 * y) % 5)] = rotl(xor(A[x + 5 * y], D[x]), RHO[(x, y)])
    out = [xor(B[x + 5 * y], andn(B[(x + 1) % 5 + 5 * y], B[(x + 2) % 5 + 5 * y])) for y in range(5) for x in range(5)]
    out[0] = xor(out[0], rc)
    return out


def keccakf(A, r0=0, r1=24):
    rot = lambda v, n: ((v << n) | (v >> (64 - n))) & MASK64 if n else v
    for r in range(r0, r1):
        A = keccak_round(A, RC[r], lambda a, b: a ^ b, lambda a, b: ~a & b & MASK64, rot)
    return A


def sponge(rate, dom, msg, outlen):
    s = [0] * 25
    p = bytearray(msg) + bytes([dom])
    while len(p) % rate:
        p.append(0)
    p[-1] |= 0x80
    for o in range(0, len(p), rate):
        for i in range(rate // 8):
            s[i] ^= int.from_bytes(p[o + 8 * i:o + 8 * i + 8], 'little')
        s = keccakf(s)
    out = b''
    while len(out) < outlen:
        out += b''.join(x.to_bytes(8, 'little') for x in s[:rate // 8])
        if len(out) < outlen:
            s = keccakf(s)
    return out[:outlen]


def selftest():
    m = b'abc' * 100
    assert sponge(136, 6, m, 32) == hashlib.sha3_256(m).digest()
    assert sponge(72, 6, m, 64) == hashlib.sha3_512(m).digest()
    assert sponge(168, 0x1f, m, 500) == hashlib.shake_128(m).digest(500)
    assert sponge(136, 0x1f, m, 500) == hashlib.shake_256(m).digest(500)
    f = [(i * i * 7 + 3) % Q for i in range(256)]
    g = [(i * 31 + 5) % Q for i in range(256)]
    assert intt(ntt(f)) == f
    h = [0] * 512
    for i in range(256):
        for j in range(256):
            h[i + j] += f[i] * g[j]
    assert intt(basemul(ntt(f), ntt(g))) == [(h[i] - h[i + 256]) % Q for i in range(256)]


if __name__ == '__main__':
    selftest()
    print('ok')
