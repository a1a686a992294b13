"""Randomised operations over the contract of randombytes, and absence of state that outlives a call (C18)."""
import os, time, random, ctypes
from . import term as t, build, contracts as C, proto, spec, search, native, execu, fast
from .term import T, UNDEF
from .execu import X, Violation
from .ir import Unsupported
from .jobs import world, guarded, opname

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RAND = {'keygen': 'keypair', 'enc': 'enc'}


def rb_handler(coins, log):
    """randombytes(out, n): the next n coins; each coin is handed out once"""
    def h(x, args):
        out, n = args
        if type(n) is not int:
            raise Unsupported('symbolic request length')
        used = sum(log)
        log.append(n)
        if used + n > len(coins):
            raise Violation('coins', 'more than %d random bytes are drawn' % len(coins), x.where())
        for i in range(n):
            x.store(out + i, coins[used + i], 1)
    return h


def job_fresh(rec, impl, k, op):
    """crypto_kem_keypair / crypto_kem_enc = the deterministic operation on freshly drawn coins; crypto_kem_dec draws none"""
    w = world(impl, k, rec)
    w.only = set()          # what the components compute is decided by the other checks
    w.assume_keccak = True
    execu.GW.clear()
    z = spec.sizes(k)
    name = '%s crypto_kem_%s' % (w.cfg, RAND.get(op, 'dec'))
    frm = []

    def go():
        log = []
        if op == 'dec':
            pr = C.Proto(w)
            pr.public = set()
            pr, x = proto.setup(w, pr)
            ss = x.new(32, 1, 'ss')
            n = 384 * k
            ct, cv = proto.inbytes(x, 'ct', z['ct'], lambda i: False)
            sk, sv = proto.inbytes(x, 'sk', z['sk'], lambda i: i < n or i >= 2 * n + 64)
            x.contracts['randombytes'] = rb_handler([], log)
            x.run(w.name('dec'), [ss.base, ct.base, sk.base])
            rec.func(opname('dec'), w.cfg)
            if any(log):
                rec.bad(name + ' draws no random bytes', 'symbolic execution', '%d bytes drawn' % sum(log), kind='coins')
            else:
                rec.ok(name + ' draws no random bytes', 'symbolic execution')
            return
        r = proto.run_op(w, op)
        rec.func(opname(op), w.cfg)
        coins = r.ins[-1][2]
        pr, x = proto.setup(w, r.pr)
        x.contracts['randombytes'] = rb_handler(coins, log)
        if op == 'keygen':
            a, b = x.new(z['pk'], 1, 'pk'), x.new(z['sk'], 1, 'sk')
            x.run(w.name('keypair'), [a.base, b.base])
            outs = [('pk', proto.outbytes(x, a, z['pk'])), ('sk', proto.outbytes(x, b, z['sk']))]
        else:
            a, b = x.new(z['ct'], 1, 'ct'), x.new(32, 1, 'ss')
            pk, pv = proto.inbytes(x, 'pk', z['pk'], lambda i: False)
            x.run(w.name('enc'), [a.base, b.base, pk.base])
            outs = [('ct', proto.outbytes(x, a, z['ct'])), ('ss', proto.outbytes(x, b, 32))]
        rec.func('crypto_kem_' + RAND[op], w.cfg)
        for s in x.calls:
            rec.func(s, w.cfg)
        if sum(log) != len(coins):
            rec.bad(name + ' draws exactly %d random bytes' % len(coins), 'symbolic execution', '%d bytes drawn' % sum(log), kind='coins')
        else:
            rec.ok(name + ' draws exactly %d random bytes' % len(coins), 'symbolic execution')
        for (nm, got), (_, want, _) in zip(outs, r.outs):
            d = proto.diff(got, want)
            if d:
                rec.bad('%s: %s equals the deterministic operation on the drawn coins' % (name, nm), 'ghost-term identity',
                        'byte %d is %s, deterministic operation %s' % (d[0], t.show(got[d[0]], 3)[:200] if type(got[d[0]]) is T else got[d[0]],
                                                                        t.show(want[d[0]], 3)[:200] if type(want[d[0]]) is T else want[d[0]]), kind='coins')
            else:
                rec.ok('%s: %s equals the deterministic operation on the drawn coins' % (name, nm), 'ghost-term identity', len(got))
        if x.result is not r.ret and x.result != r.ret:
            rec.bad(name + ': return value of the deterministic operation', 'symbolic execution', 'differs', kind='coins')
        else:
            rec.ok(name + ': return value of the deterministic operation', 'symbolic execution')
    guarded(rec, name, go)
    # permutations run as leaves of their own
    if op == 'dec':
        w2 = world(impl, k, type(rec)())
        proto.kperms(w2)
    on = '%s: no object of static storage is written by the operation or any function it uses' % name
    if execu.GW:
        rec.bad(on, 'symbolic execution', '; '.join('%s written at %s' % (o, ', '.join(sorted(str(q) for q in ws))) for o, ws in sorted(execu.GW.items()))[:400], kind='state')
    else:
        rec.ok(on, 'frame check during execution')


# ---------------------------------------------------------------- native
def stub_so(impl, k):
    key = ('rb', impl, k)
    if key in native.LIBS:
        return native.LIBS[key]
    out = os.path.join(build.scratch(), 'rbs_%s_%d.so' % (impl, k))
    if not os.path.exists(out):
        srcs = [os.path.join(build.REPO, impl, s) for s in build.sources(impl) if s != 'randombytes.c'] + [os.path.join(HERE, 'lib/rbstub.c')]
        flags = ['-mavx2', '-mbmi2', '-mpopcnt'] if impl == 'avx2' else []
        tmp = out + '.%d' % os.getpid()
        build.sh(['gcc', '-shared', '-fPIC', '-O2', '-w', '-DKYBER_K=%d' % k, '-Wa,-I' + os.path.join(build.REPO, impl), '-Wl,-z,noexecstack'] + flags + srcs + ['-o', tmp])
        os.rename(tmp, out)
    native.LIBS[key] = ctypes.CDLL(out)
    return native.LIBS[key]


def call(impl, k, c, shift=0):
    """(return value, outputs, bytes drawn) of one call; c = (op, randomised, inputs...)"""
    lib = stub_so(impl, k)
    ns = 'pqcrystals_kyber%d_%s_' % ({2: 512, 3: 768, 4: 1024}[k], impl)
    z = spec.sizes(k)
    op, rnd = c[0], c[1]
    fill = bytes([(0x35 + shift) & 255])
    lib.vc_rb_used.restype = ctypes.c_size_t
    coins = c[-1] if op != 'dec' else b''
    src = native.Buf(coins + bytes(8))
    lib.vc_rb_set(src.ptr, ctypes.c_size_t(len(coins) if rnd else 0))
    if op == 'dec':
        o = [native.Buf(fill * 32, 64, shift % 8)]
        i = [native.Buf(c[3]), native.Buf(c[2])]
        r = getattr(lib, ns + 'dec')(o[0].ptr, i[0].ptr, i[1].ptr)
    elif op == 'keygen':
        o = [native.Buf(fill * z['pk'], 64, shift % 8), native.Buf(fill * z['sk'], 64, shift % 4)]
        i = []
        r = getattr(lib, ns + 'keypair')(o[0].ptr, o[1].ptr) if rnd else getattr(lib, ns + 'keypair_derand')(o[0].ptr, o[1].ptr, src.ptr)
    else:
        o = [native.Buf(fill * z['ct'], 64, shift % 8), native.Buf(fill * 32, 64, shift % 4)]
        i = [native.Buf(c[2])]
        r = getattr(lib, ns + 'enc')(o[0].ptr, o[1].ptr, i[0].ptr) if rnd else getattr(lib, ns + 'enc_derand')(o[0].ptr, o[1].ptr, i[0].ptr, src.ptr)
    return r, [b.bytes() for b in o], lib.vc_rb_used()


def pool(k, seed):
    rnd = random.Random(seed)
    z = spec.sizes(k)
    P = []
    keys = [fast.keygen(rnd.randbytes(64), k) for _ in range(3)]
    for pk, sk in keys:
        ct, _ = fast.encaps(pk, rnd.randbytes(32), k)
        c2 = bytearray(ct)
        c2[-1] ^= 1
        P += [('dec', sk, ct), ('dec', sk, bytes(c2))]
    m = rnd.randbytes(32)
    m2 = m[:-1] + bytes([m[-1] ^ 1])
    pk = keys[0][0]
    P += [('enc', pk, m), ('enc', pk, m2), ('enc', keys[1][0], m)]
    # keys that agree in almost everything
    for i in [len(pk) - 1, len(pk) - 9, len(pk) - 16, len(pk) - 17, len(pk) - 25, len(pk) - 32, len(pk) - 33, 0, 1, 383, 384]:
        q = bytearray(pk)
        q[i] ^= 1
        P.append(('enc', bytes(q), m))
    sk = keys[0][1]
    ct = fast.encaps(pk, m, k)[0]
    for i in [0, 384 * k - 1, z['sk'] - 97, z['sk'] - 64, z['sk'] - 33, z['sk'] - 32, z['sk'] - 1, 768 * k + 31]:
        q = bytearray(sk)
        q[i] ^= 1
        P.append(('dec', bytes(q), ct))
    d = rnd.randbytes(64)
    for i in (None, 0, 31, 32, 63):
        q = bytearray(d)
        if i is not None:
            q[i] ^= 1
        P.append(('keygen', bytes(q)))
    return [(p[0], False) + p[1:] for p in P] + [(p[0], True) + p[1:] for p in P if p[0] != 'dec']


def base(impl, k, c):
    """the call as the first one of a process"""
    r = search.isolated(lambda: call(impl, k, c), 60)
    return r


def job_native(rec, impl, k, seed, seconds):
    bad = None
    n = 0
    end = time.time() + seconds
    stub_so(impl, k)
    P = pool(k, seed)
    B = {}
    for c in P:
        r = base(impl, k, c)
        if r[0] != 'ok':
            rec.bad('%s/K=%d native %s' % (impl, k, c[0]), 'native execution', str(r), dict(seq=[c], impl=impl, k=k), kind='native')
            return
        B[c] = r[1]
    for c in P:
        if c[1]:
            r, o, u = B[c]
            want = B[(c[0], False) + c[2:]]
            n += 1
            if (r, o) != (want[0], want[1]) or u != len(c[-1]):
                bad = dict(seq=[c], impl=impl, k=k)
                break
        elif B[c][2]:
            bad = dict(seq=[c], impl=impl, k=k)
            break
    rnd = random.Random(seed + 1)

    def seqrun(seq):
        for i, c in enumerate(seq):
            if call(impl, k, c, i + 1) != B[c]:
                return i
        return None

    def go():
        cnt = 0
        while time.time() < end:
            seq = [rnd.choice(P) for _ in range(60)]
            if rnd.random() < 0.5:
                sub = rnd.sample(P, 3)
                seq = [rnd.choice(sub) for _ in range(60)]
            i = search.isolated(lambda: seqrun(seq), 60)
            cnt += len(seq)
            if i[0] != 'ok':
                return cnt, seq
            if i[1] is not None:
                return cnt, seq[:i[1] + 1]
        return cnt, None
    if bad is None:
        m, seq = go()
        n += m
        if seq:
            # shorten: a single predecessor is usually enough
            for j in range(len(seq) - 1):
                s = [seq[j], seq[-1]]
                r = search.isolated(lambda: seqrun(s), 60)
                if r != ('ok', None):
                    seq = s
                    break
            bad = dict(seq=seq, impl=impl, k=k)
    rec.bounded.append(('native calls in random orders against the same call in a fresh process, scripted random source', n))
    if bad:
        rec.bad('%s/K=%d equal inputs and coins give equal results, coins drawn once and in full' % (impl, k), 'native execution', 'differs', bad, kind='native')


def check_seq(impl, k, seq):
    """text of the difference or None"""
    seq = [tuple(c) for c in seq]
    b = base(impl, k, seq[-1])
    if b[0] != 'ok':
        return 'first call in a process: %s' % (b,)
    c = seq[-1]
    if c[1]:
        d = base(impl, k, (c[0], False) + c[2:])
        if d[0] != 'ok' or d[1][:2] != b[1][:2] or b[1][2] != len(c[-1]):
            return 'crypto_kem_%s does not equal the deterministic operation on the %d bytes drawn (drew %d)' % (RAND[c[0]], len(c[-1]), b[1][2])
    elif b[1][2]:
        return '%s draws %d random bytes' % (opname(c[0]), b[1][2])

    def go():
        for i, q in enumerate(seq):
            r = call(impl, k, q, i + 1)
        return r
    r = search.isolated(go, 60)
    if r[0] != 'ok' or r[1] != b[1]:
        return 'the same call (%s) gives another result after %d earlier call(s) [%s] than as the first call of a process' % (
            c[0] if not c[1] else RAND[c[0]], len(seq) - 1, ', '.join(q[0] for q in seq[:-1]))
    return None


def confirm(fails, tier, seed, end):
    for f in fails:
        c = f.get('cex')
        if c and 'seq' in c:
            tx = check_seq(c['impl'], c['k'], c['seq'])
            if tx:
                return dict(type='seq', found=True, text='%s/K=%d: %s' % (c['impl'], c['k'], tx), **c)
    return None
