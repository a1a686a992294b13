"""Replay and bounded differential search against natively compiled sources of the working tree."""
import os, sys, time, random, pickle, signal, ctypes
from . import steer, build, native, spec, fast

PUBLIC_OPS = ('keygen', 'enc', 'dec')


def isolated(fn, timeout=120):
    """run fn() in a forked child: ('ok', value) | ('crash', signal) | ('timeout',) | ('error', text)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                v = ('ok', fn())
            except BaseException as e:
                import traceback
                v = ('error', traceback.format_exc()[-1500:])
            with os.fdopen(w, 'wb') as f:
                pickle.dump(v, f)
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    end = time.time() + timeout
    import select
    while True:
        left = end - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return ('timeout',)
        if select.select([r], [], [], min(left, 1))[0]:
            b = os.read(r, 1 << 20)
            if not b:
                break
            data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return ('crash', os.WTERMSIG(st))
    try:
        return pickle.loads(data)
    except Exception:
        return ('crash', st)


# ---------------------------------------------------------------- one operation on one input
def run_native(impl, k, op, ins):
    if op == 'keygen':
        return native.keygen(impl, k, ins['coins'])
    if op == 'enc':
        return native.encaps(impl, k, ins['pk'], ins['coins'])
    return native.decaps(impl, k, ins['sk'], ins['ct'])


def run_spec(k, op, ins, mod=fast):
    if op == 'keygen':
        return (0,) + tuple(mod.keygen(ins['coins'], k))
    if op == 'enc':
        return (0,) + tuple(mod.encaps(ins['pk'], ins['coins'], k))
    return 0, mod.decaps(ins['sk'], ins['ct'], k)


def gen_inputs(k, op, seed, directed=()):
    """endless stream of inputs: directed ones first, then boundary patterns, then random ones"""
    rnd = random.Random('%s/%d/%s' % (seed, k, op))
    z = spec.sizes(k)
    for d in directed:
        yield d
    base = bytes(range(64))
    pk0, sk0 = fast.keygen(base, k)
    ct0, ss0 = fast.encaps(pk0, base[:32], k)
    if op == 'keygen':
        for b in (0, 255, 1, 0x80, 0x55):
            yield dict(coins=bytes([b]) * 64)
        while True:
            yield dict(coins=rnd.randbytes(64))
    elif op == 'enc':
        for b in (0, 255, 1):
            yield dict(pk=pk0, coins=bytes([b]) * 32)
            yield dict(pk=bytes([b]) * z['pk'], coins=base[:32])
        n = 0
        while True:
            n += 1
            m = rnd.randbytes(32)
            if n % 3 == 0:
                yield dict(pk=rnd.randbytes(z['pk']), coins=m)
            elif n % 3 == 1:
                yield dict(pk=fast.keygen(rnd.randbytes(64), k)[0], coins=m)
            else:
                p = bytearray(pk0)
                for _ in range(rnd.randint(1, 6)):
                    p[rnd.randrange(z['pk'])] = rnd.choice((0, 255, rnd.randrange(256)))
                yield dict(pk=bytes(p), coins=m)
    else:
        yield dict(sk=sk0, ct=ct0)
        yield dict(sk=sk0, ct=bytes(z['ct']))
        yield dict(sk=sk0, ct=b'\xff' * z['ct'])
        st = steer.stream(k, rnd)
        for _ in range(40):
            yield next(st)
        # one bit flipped in every byte
        for i in list(range(z['ct'] - 1, -1, -1)):
            c = bytearray(ct0)
            c[i] ^= 1 << rnd.randrange(8)
            yield dict(sk=sk0, ct=bytes(c))
        n = 0
        while True:
            n += 1
            yield next(st)
            pk, sk = fast.keygen(rnd.randbytes(64), k)
            ct = fast.encaps(pk, rnd.randbytes(32), k)[0]
            m = n % 6
            if m == 0:
                yield dict(sk=sk, ct=rnd.randbytes(z['ct']))
            elif m == 1:
                yield dict(sk=rnd.randbytes(z['sk']), ct=rnd.randbytes(z['ct']))
            elif m == 2:
                c = bytearray(ct)
                for _ in range(rnd.randint(1, 3)):
                    c[rnd.randrange(len(c))] ^= 1 << rnd.randrange(8)
                yield dict(sk=sk, ct=bytes(c))
            elif m == 3:
                c = bytearray(ct)
                i, j = rnd.randrange(len(c)), rnd.randrange(len(c))
                b = rnd.randrange(1, 256)
                c[i] ^= b
                c[j] ^= b
                yield dict(sk=sk, ct=bytes(c))
            elif m == 4:
                # all differences in the top half / only one block of the ciphertext
                c = bytearray(ct)
                i = rnd.randrange(len(c) // 32) * 32
                c[i:i + 32] = rnd.randbytes(32)
                yield dict(sk=sk, ct=bytes(c))
            else:
                yield dict(sk=sk, ct=ct)


def diff_op(impl, k, op, seconds, seed, directed=(), against=None):
    """first input on which the native operation differs from the oracle (or from implementation `against`)"""
    native.lib(impl, k)
    if against:
        native.lib(against, k)

    prog = os.path.join(build.scratch(), 'last.%d.%s%d%s' % (os.getpid(), impl, k, op))

    def go():
        end = time.time() + seconds
        n = 0
        for ins in gen_inputs(k, op, seed, directed):
            with open(prog, 'wb') as f:
                pickle.dump(ins, f)
            got = run_native(impl, k, op, ins)
            want = run_native(against, k, op, ins) if against else run_spec(k, op, ins)
            n += 1
            if tuple(got) != tuple(want):
                return n, ins
            if time.time() > end:
                break
        os.unlink(prog)
        return n, None
    r = isolated(go, seconds + 60)
    if r[0] == 'ok':
        return r[1][0], r[1][1], None
    if r[0] == 'error':
        raise RuntimeError(r[1])
    try:
        ins = pickle.load(open(prog, 'rb'))
    except Exception:
        ins = None
    return 0, ins, r      # crashed or hung on this input


def confirm_op(impl, k, op, ins, against=None):
    """does the native operation really differ on this input?  description or None"""
    r = isolated(lambda: run_native(impl, k, op, ins), 60)
    if r[0] != 'ok':
        return 'native %s K=%d %s: %s' % (impl, k, op, r)
    want = run_native(against, k, op, ins) if against else run_spec(k, op, ins, spec)
    for nm, g, x in zip(('return value', 'first output', 'second output'), r[1], want):
        if g != x:
            if isinstance(g, bytes):
                i = [p for p in range(len(g)) if g[p] != x[p]]
                return '%s of %s/K=%d %s differs from %s in %d bytes, first at offset %d: got %02x, expected %02x' % (
                    nm, impl, k, op, against or 'FIPS 203', len(i), i[0], g[i[0]], x[i[0]])
            return '%s of %s/K=%d %s is %r, expected %r' % (nm, impl, k, op, g, x)
    return None


# ---------------------------------------------------------------- one function on one input
def static_lib(impl, k, src, hide=False):
    """a source file compiled with `static` and `inline` erased so that file-local functions can be called"""
    key = ('st', impl, k, src)
    if key in native.LIBS:
        return native.LIBS[key]
    out = os.path.join(build.scratch(), 'st_%s_%d_%s.so' % (impl, k, src))
    if not os.path.exists(out):
        flags = ['-mavx2', '-mbmi2', '-mpopcnt'] if impl == 'avx2' else []
        o = out + '.o'
        pre = ['-include', 'immintrin.h'] if impl == 'avx2' else []
        build.sh(['gcc', '-c', '-fPIC', '-O2', '-w', '-include', 'stdint.h', '-include', 'stddef.h', '-include', 'string.h',
                  '-include', 'stdlib.h'] + pre + ['-Dstatic=', '-Dinline=', '-DKYBER_K=%d' % k] + flags + [os.path.join(build.REPO, impl, src), '-o', o])
        others = [os.path.join(build.REPO, impl, s) for s in build.sources(impl) if s != src]
        build.sh(['gcc', '-shared', '-fPIC', '-O2', '-w', '-DKYBER_K=%d' % k, '-Wa,-I' + os.path.join(build.REPO, impl),
                  '-Wl,--allow-multiple-definition', '-Wl,-z,noexecstack'] + flags + [o] + others + ['-o', out])
    native.LIBS[key] = ctypes.CDLL(out)
    return native.LIBS[key]


ALIAS = {'poly_getnoise_eta1_4x': ['poly_getnoise_eta1_4x', 'poly_getnoise_eta2_4x']}


def find_fn(impl, k, fn):
    """ctypes function: exported, or file-local (compiled with `static` erased)"""
    for a in ALIAS.get(fn, [fn]):
        f = native.sym(impl, k, a)
        if f is not None:
            return f
    import re
    for src in build.sources(impl):
        if not src.endswith('.c'):
            continue
        if re.search(r'\b%s\s*\(' % re.escape(fn), open(os.path.join(build.REPO, impl, src)).read()):
            try:
                return getattr(static_lib(impl, k, src), fn)
            except (build.BuildError, AttributeError, OSError):
                pass
    return None


def call_fn(impl, k, cex):
    """perform the call; returns (ret, list of final argument bytes or None)"""
    fn = cex['fn']
    f = find_fn(impl, k, fn)
    if f is None:
        raise KeyError(fn)
    bufs, args = [], []
    for a in cex['args']:
        if a['kind'] == 'int':
            bufs.append(None)
            w = a.get('w', 64)
            args.append(ctypes.c_uint64(a['val'] & (1 << 64) - 1) if w > 32 else ctypes.c_uint32(a['val'] & 0xffffffff))
            continue
        d = native.from_i16(a['val']) if a['kind'] == 'poly' else bytes(a['val'])
        al = a.get('align', 32 if a['kind'] == 'poly' else 1)
        b = native.Buf(d + bytes(64), 64, al % 64 if al > 1 else 1 if impl == 'ref' else 0)
        b.n = len(d)
        bufs.append(b)
        args.append(b.ptr)
    rw = cex.get('retw', 32)
    f.restype = {16: ctypes.c_int16, 32: ctypes.c_int32, 64: ctypes.c_int64}[rw]
    r = f(*args)
    return r, [b.bytes() if b else None for b in bufs]


def check_expect(cex, ret, outs):
    """violated expectation as text, or None"""
    e = cex['expect']
    if 'args' in e:
        for q in e['args']:
            r = check_expect(dict(cex, expect=q), ret, outs)
            if r:
                return r
        return None
    if 'ret' in e and 'prefix' in e:
        if ret & 0xffffffff != e['ret']:
            return '%s returned %d, expected %d' % (cex['fn'], ret, e['ret'])
        g = native.i16s(outs[e['arg']])
        for i, x in enumerate(e['prefix']):
            if g[i] != x:
                return '%s: element %d is %d, expected %d' % (cex['fn'], i, g[i], x)
        return None
    if 'ret' in e:
        g = ret & 0xffffffff if e['ret'] >= 0 else ret
        return None if g == e['ret'] else '%s returned %d, expected %d' % (cex['fn'], ret, e['ret'])
    if 'retmod' in e:
        lo, hi = e['range']
        if (ret - e['retmod']) % e['mod'] or not lo <= ret <= hi:
            return '%s returned %d, expected a value congruent to %d modulo %d in [%d,%d]' % (cex['fn'], ret, e['retmod'], e['mod'], lo, hi)
        return None
    b = outs[e['arg']]
    if 'poly' in e:
        g = native.i16s(b)
        for i, x in enumerate(e['poly']):
            if 'mod' in e:
                if (g[i] - x) % e['mod']:
                    return '%s: coefficient %d is %d, expected a value congruent to %d modulo %d' % (cex['fn'], i, g[i], x % e['mod'], e['mod'])
            elif g[i] != t_signed16(x):
                return '%s: coefficient %d is %d, expected %d' % (cex['fn'], i, g[i], t_signed16(x))
            if 'range' in e and not e['range'][0] <= g[i] <= e['range'][1]:
                return '%s: coefficient %d is %d, outside [%d,%d]' % (cex['fn'], i, g[i], e['range'][0], e['range'][1])
        return None
    if 'whole' in e:
        w = bytes(e['whole'])
        o = e.get('off', 0)
        for i, x in enumerate(w):
            if b[o + i] != x:
                return '%s: output byte %d is %02x, expected %02x' % (cex['fn'], o + i, b[o + i], x)
        return None
    if 'bits' in e:
        p, n = e['bits']
        g = int.from_bytes(b, 'little') >> p & ((1 << n) - 1)
        return None if g == e['want'] else '%s: output bits %d..%d are %d, expected %d' % (cex['fn'], p, p + n - 1, g, e['want'])
    g = native.i16s(b)[e['index']]
    if 'mod' in e:
        return None if (g - e['want']) % e['mod'] == 0 else '%s: coefficient %d is %d, expected a value congruent to %d modulo %d' % (
            cex['fn'], e['index'], g, e['want'], e['mod'])
    if 'range' in e:
        lo, hi = e['range']
        return None if lo <= g <= hi else '%s: coefficient %d is %d, outside [%d,%d]' % (cex['fn'], e['index'], g, lo, hi)
    if 'exact' in e:
        return None if g == e['exact'] else '%s: coefficient %d is %d, the exact value is %d (wrapped)' % (cex['fn'], e['index'], g, e['exact'])
    w = t_signed16(e['want'])
    return None if g == w else '%s: coefficient %d is %d, expected %d' % (cex['fn'], e['index'], g, w)


def t_signed16(v):
    v &= 0xffff
    return v - 65536 if v & 0x8000 else v


def confirm_fn(impl, k, cex):
    """run the real function on the counterexample: ('confirmed', text) | ('refuted', text) | ('error', text)"""
    try:
        native.lib(impl, k)
    except build.BuildError as e:
        return 'error', str(e)

    def go():
        r, outs = call_fn(impl, k, cex)
        return check_expect(cex, r, outs)
    r = isolated(go, 60)
    if r[0] == 'ok':
        return ('confirmed', r[1]) if r[1] else ('refuted', 'the native function returned the expected value')
    if r[0] == 'crash':
        return 'confirmed', 'native call of %s died with signal %s' % (cex['fn'], r[1])
    return 'error', str(r)
