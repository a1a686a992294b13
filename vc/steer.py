"""Decapsulation inputs built backwards, so that adversarial intermediate values meet an accepted ciphertext.

The secret key carries h, and r depends on m and h only; with m, h and rho chosen first the whole
encryption noise is known, t-hat and s-hat can still be anything.  So the product s-hat*u-hat (input of the
inverse transform), or v - s*u (input of the message decoder), takes any wanted value while re-encryption
reproduces the ciphertext: a difference in any intermediate coefficient shows in the shared secret."""
import numpy as np
from . import spec, fast

Q = 3329
R = 65536 % Q


def inverse(b):
    """per pair inverse in Z_q[X]/(X^2-gamma), or None"""
    g = fast.mats()['g']
    b0, b1 = b[0::2] % Q, b[1::2] % Q
    n = (b0 * b0 - b1 * b1 % Q * g) % Q
    if not n.all():
        return None
    i = np.array([pow(int(x), Q - 2, Q) for x in n], dtype=np.int64)
    o = np.empty(256, dtype=np.int64)
    o[0::2] = b0 * i % Q
    o[1::2] = -b1 * i % Q
    return o


def enc12(x, rnd, dirty):
    x = np.asarray(x) % Q
    if dirty:
        up = np.array([rnd.random() < dirty for _ in range(256)])
        x = np.where(up & (x + Q < 4096), x + Q, x)
    return fast.encode(x, 12)


def signs(rnd):
    """sign patterns that add up along the butterflies of an inverse transform"""
    m = rnd.choice((0, 0, 0, 1, 2, 4, 8, 16, 32, 64, 128, rnd.randrange(256)))
    return np.array([-1 if bin(i & m).count('1') & 1 else 1 for i in range(256)], dtype=np.int64) * rnd.choice((1, -1))


def product(rnd, k):
    """k summands of the transform-domain product, extreme in Montgomery form"""
    s = signs(rnd)
    c = rnd.choice((1664, 1664, 1664, 1665, 1600, 1300, 900))
    if rnd.random() < .3:
        c = np.array([rnd.choice((c, 1664, c - 1)) for _ in range(256)])
    if rnd.random() < .3:
        z = rnd.choice((0, 1))
        s = s * (np.arange(256) % 2 == z)
    return [s * c * R % Q for _ in range(k)]


def decoder(rnd, m):
    """v - s*u with decoded bits m, at the edges of the decision intervals"""
    e0 = [0, 1, 831, 832, 2497, 2498, 3328, 833 - 2, 2496 + 2]
    e1 = [833, 834, 2495, 2496, 1664, 1665, 840, 2490, 835]
    bits = fast.decode(m, 1)
    mode = rnd.randrange(3)
    o = []
    for b in bits:
        if mode == 0 or mode == 2 and rnd.random() < .5:
            o.append(rnd.choice(e1 if b else e0))
        else:
            o.append(rnd.randrange(833, 2497) if b else rnd.randrange(2497, Q + 833) % Q)
    return np.array(o, dtype=np.int64)


def decaps_input(k, rnd, mode=None):
    """dict(sk, ct) for an accepted ciphertext, or None when a draw has no inverse"""
    P = spec.PARAMS[k]
    mode = rnd.randrange(4) if mode is None else mode
    m, h, rho, z = (rnd.randbytes(32) for _ in range(4))
    K, r = spec.G(m + h)
    y = [fast.ntt(fast.cbd(spec.prf(r, i, P['eta1']), P['eta1'])) for i in range(k)]
    c = b''
    uh = []
    for i in range(k):
        a = np.zeros(256, dtype=np.int64)
        for j in range(k):
            a += fast.basemul(fast.sample_ntt(rho + bytes([i, j])), y[j])
        u = fast.compress(fast.intt(a) + fast.cbd(spec.prf(r, k + i, P['eta2']), P['eta2']), P['du'])
        c += fast.encode(u, P['du'])
        uh.append(fast.ntt(fast.decompress(u, P['du'])))
    known = fast.cbd(spec.prf(r, 2 * k, P['eta2']), P['eta2']) + fast.decompress(fast.decode(m, 1), 1)
    used = range(k) if rnd.random() < .7 else [rnd.randrange(k)]
    ui = {j: inverse(uh[j]) for j in used}
    j0 = rnd.randrange(k)
    yi = inverse(y[j0])
    if yi is None or any(x is None for x in ui.values()):
        return None
    if mode == 0 or mode == 3:
        # extreme input of the inverse transform in decryption; v follows
        parts = product(rnd, len(ui))
        mp = fast.intt(sum(parts))
        v = fast.compress(mp + fast.decompress(fast.decode(m, 1), 1), P['dv'])
        target = (fast.decompress(v, P['dv']) - known) % Q
        th = fast.ntt(target)
    elif mode == 1:
        # the decoder's argument at its edges
        w = decoder(rnd, m)
        v = np.array([rnd.randrange(1 << P['dv']) for _ in range(256)], dtype=np.int64)
        vv = fast.decompress(v, P['dv'])
        mp = (vv - w) % Q
        th = fast.ntt(vv - known)
        parts = [np.array([rnd.randrange(Q) for _ in range(256)], dtype=np.int64) for _ in ui]
        parts[-1] = (fast.ntt(mp) - sum(parts[:-1])) % Q
    else:
        # extreme input of the inverse transform in (re-)encryption
        th = sum(product(rnd, 1))
        v = fast.compress(fast.intt(th) + known, P['dv'])
        w = fast.decompress(fast.decode(m, 1), 1)
        mp = (fast.decompress(v, P['dv']) - w) % Q
        parts = [np.array([rnd.randrange(Q) for _ in range(256)], dtype=np.int64) for _ in ui]
        parts[-1] = (fast.ntt(mp) - sum(parts[:-1])) % Q
    dirty = rnd.choice((0, 0, .5, 1))
    zero = np.zeros(256, dtype=np.int64)
    sh = {j: fast.basemul(p, ui[j]) for j, p in zip(ui, parts)}
    sk = b''.join(enc12(sh.get(j, zero), rnd, dirty) for j in range(k))
    pk = b''.join(enc12(fast.basemul(th, yi) if j == j0 else zero, rnd, dirty) for j in range(k)) + rho
    return dict(sk=sk + pk + h + z, ct=c + fast.encode(v, P['dv']))


def stream(k, rnd):
    while True:
        r = decaps_input(k, rnd)
        if r is not None:
            yield r


def selftest():
    import random
    rnd = random.Random(3)
    for k in (2, 3, 4):
        for mode in range(4):
            ins = None
            while ins is None:
                ins = decaps_input(k, rnd, mode)
            a = spec.decaps(ins['sk'], ins['ct'], k)
            assert a == fast.decaps(ins['sk'], ins['ct'], k) != spec.J(ins['sk'][-32:] + ins['ct']), (k, mode)
    return True
