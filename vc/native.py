"""Native build of the working tree (gcc -O2/-O3 as shipped) for replaying counterexamples, via ctypes in a forked child."""
import ctypes, os, subprocess, random, mmap
from . import build

LIBS = {}


def lib(impl, k):
    """shared object with every exported symbol of the implementation; randombytes/syscall from libc"""
    key = (impl, k)
    if key in LIBS:
        return LIBS[key]
    out = os.path.join(build.scratch(), 'nat_%s_%d.so' % key)
    if not os.path.exists(out):
        srcs = [os.path.join(build.REPO, impl, s) for s in build.sources(impl)]
        tmp = out + '.%d.tmp' % os.getpid()
        flags = ['-mavx2', '-mbmi2', '-mpopcnt'] if impl == 'avx2' else []
        build.sh(['gcc', '-shared', '-fPIC', '-O2', '-w', '-DKYBER_K=%d' % k, '-Wa,-I' + os.path.join(build.REPO, impl), '-Wl,-z,noexecstack']
                 + flags + srcs + ['-o', tmp])
        os.rename(tmp, out)
    LIBS[key] = ctypes.CDLL(out)
    return LIBS[key]


def sym(impl, k, name):
    """find an exported function by un-namespaced name"""
    L = lib(impl, k)
    for n in ('pqcrystals_kyber%d_%s_%s' % ({2: 512, 3: 768, 4: 1024}[k], impl, name),
              'pqcrystals_kyber_fips202_%s_%s' % (impl, name), 'pqcrystals_kyber_fips202x4_%s_%s' % (impl, name),
              'pqcrystals_kyber_fips202_ref_%s' % name, name):
        try:
            return getattr(L, n)
        except AttributeError:
            pass
    return None


class Buf:
    """buffer ending right before an inaccessible page is overkill here; keep 64-byte aligned storage"""
    def __init__(self, data, align=64, off=0):
        n = len(data)
        self.n = n
        self.raw = ctypes.create_string_buffer(n + 2 * align + 64)
        a = ctypes.addressof(self.raw)
        self.p = (a + align - 1) // align * align + off
        ctypes.memmove(self.p, bytes(data), n)

    @property
    def ptr(self):
        return ctypes.c_void_p(self.p)

    def bytes(self):
        return ctypes.string_at(self.p, self.n)


def i16s(b):
    return [int.from_bytes(b[i:i + 2], 'little', signed=True) for i in range(0, len(b), 2)]


def from_i16(l):
    return b''.join((x & 0xffff).to_bytes(2, 'little') for x in l)


def keygen(impl, k, coins):
    from . import spec
    z = spec.sizes(k)
    pk, sk = Buf(bytes(z['pk'])), Buf(bytes(z['sk']))
    c = Buf(coins)
    r = sym(impl, k, 'keypair_derand')(pk.ptr, sk.ptr, c.ptr)
    return r, pk.bytes(), sk.bytes()


def encaps(impl, k, pk, coins):
    from . import spec
    z = spec.sizes(k)
    ct, ss = Buf(bytes(z['ct'])), Buf(bytes(32))
    p, c = Buf(pk), Buf(coins)
    r = sym(impl, k, 'enc_derand')(ct.ptr, ss.ptr, p.ptr, c.ptr)
    return r, ct.bytes(), ss.bytes()


def decaps(impl, k, sk, ct):
    ss = Buf(bytes(32))
    s, c = Buf(sk), Buf(ct)
    r = sym(impl, k, 'dec')(ss.ptr, c.ptr, s.ptr)
    return r, ss.bytes()
