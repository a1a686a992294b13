"""Memory safety, initialisation, alignment, frame and undefined arithmetic of every public operation (C05).

The executor checks every access of the real code against the exact object it belongs to: bounds, alignment
the instruction needs, read-only inputs, initialised addresses and branches.  A function with a contract is run
on its own with buffers larger than its interface; its measured footprint becomes part of the contract and is
checked at every call against the caller's objects."""
import os, re, struct, time, random, subprocess, itertools
import numpy as np
from . import term as t, contracts as C, proto, spec, leaf, build, keccak, search, native, mat, hashing as HS, select as S, rand as RB
from .term import T, SECRET, UNDEF
from .execu import X, Violation, Aborted, short
from .ir import Unsupported
from .jobs import world, opname

SAFE = {'safety'}
NAME = {'keygen': 'crypto_kem_keypair_derand', 'enc': 'crypto_kem_enc_derand', 'dec': 'crypto_kem_dec'}


def sworld(impl, k, rec):
    w = world(impl, k, rec)
    w.assume_keccak = True
    w.prove_matrix = False
    w.addcheck = True
    w.kinds = SAFE
    w.ub = True
    return w


def functional(e):
    return isinstance(e, Violation) and e.kind in ('value', 'coins')


def run(rec, name, f, seen=()):
    """f() executes real code; only safety violations belong to this check"""
    try:
        return f()
    except C.ContractFailure as e:
        i = e.inst
        if not (i.status == 'failed' and getattr(i, 'kind', None) in SAFE):
            rec.unk(name, 'rests on the contract of %s, which is %s (%s)' % (i.fn, i.status, i.why))
    except Violation as e:
        if functional(e):
            rec.unk(name, 'stops at a functional failure: %s' % e)
        else:
            rec.bad(name, 'execution', str(e), kind='safety:' + e.kind)
    except Aborted:
        rec.unk(name, 'abort() is reached')
    except (Unsupported, RecursionError) as e:
        rec.unk(name, '%s' % e)
    return None


# ---------------------------------------------------------------- undefined arithmetic: witness search
VN = re.compile(r'^(?:S:)?([a-z])(\d+)')


def sv(a, w):
    a = np.asarray(a).astype(np.uint64)
    if w == 64:
        return a.astype(np.int64).astype(object)
    a = a.astype(np.int64)
    return (a ^ (1 << (w - 1))) - (1 << (w - 1))


def violating(ob, n=40000, seed=1):
    """assignment of the leaves that makes the arithmetic of obligation `ob` undefined, or None; exhaustive for one leaf"""
    op, a, b, w, loc = ob
    ts = [v for v in (a, b) if type(v) is T]
    sup = sorted(set().union(*[t.support(v) for v in ts]), key=lambda v: v.id) if ts else []
    if not sup or len(sup) > 600:
        return None, False
    rg = [leaf.leafrange(v) for v in sup]
    exact = False
    if len(sup) == 1 and rg[0][1] - rg[0][0] < 1 << 17:
        dom = [np.arange(rg[0][0], rg[0][1] + 1)]
        exact = True
    else:
        r = np.random.RandomState(seed)
        n = min(n, 4000000 // len(sup))
        dom = []
        mode = r.randint(0, 3, size=n)
        for lo, hi in rg:
            u = lo + (r.rand(n) * (hi - lo + 1)).astype(np.int64)
            e = np.where(r.rand(n) < 0.5, lo, hi)
            dom.append(np.where(mode == 0, u, np.where(mode == 1, e, np.where(r.rand(n) < 0.5, u, e))))
    env = {v: d.astype(np.int64).astype(np.uint64) & np.uint64(t.M(v.w)) for v, d in zip(sup, dom)}
    try:
        val = t.npeval(ts, env)
    except Exception:
        return None, False
    g = lambda v: np.broadcast_to(val[v] if type(v) is T else np.array(v & t.M(w), dtype=np.uint64), dom[0].shape)
    if op == 'shiftamt':
        bad = g(a).astype(np.uint64) >= np.uint64(w)
    else:
        p, q = sv(g(a), w), sv(g(b), w)
        if w > 32:
            p, q = p.astype(object), q.astype(object)
        x = p + q if op == 'add' else p - q if op == 'sub' else p * q if op == 'mul' else None
        if x is None:
            return None, False
        bad = (x < -(1 << (w - 1))) | (x >= 1 << (w - 1))
    i = np.nonzero(np.asarray(bad, dtype=bool))[0]
    if len(i):
        return {v: int(d[i[0]]) for v, d in zip(sup, dom)}, exact
    return None, exact


def args_of(w, inst, asg):
    """arguments of a call of inst.fn with the leaves set as in asg"""
    fn = inst.fn
    val = {}
    wid = {}
    for v, c in asg.items():
        m = VN.match(v.p) if type(v.p) is str else None
        if not m:
            return None
        val.setdefault(m.group(1), {})[int(m.group(2))] = c
        wid[m.group(1)] = v.w

    def poly(l, n=1, role='in', dflt=0):
        d = val.get(l, {})
        return dict(kind='poly', val=[d.get(i, dflt) for i in range(256 * n)], role=role)

    def byts(l, n, role='in'):
        d = val.get(l, {})
        return dict(kind='bytes', val=[d.get(i, 0) & 255 for i in range(n)], role=role)
    k, P = w.k, w.P
    if fn in ('poly_ntt', 'poly_invntt_tomont', 'poly_reduce', 'poly_tomont'):
        return [poly('a', role='inout')]
    if fn in ('poly_basemul_montgomery', 'poly_add', 'poly_sub'):
        return [poly('z', role='out'), poly('a'), poly('b')]
    enc = {'poly_tobytes': (12, 1), 'poly_compress': (P['dv'], 1), 'polyvec_compress': (P['du'], k), 'poly_tomsg': (1, 1)}
    if fn in enc:
        d, n = enc[fn]
        lo, hi = inst.key[1], inst.key[2]
        return [dict(kind='bytes', val=[0] * (32 * d * n), role='out'), poly('e', n, dflt=max(lo, min(0, hi)))]
    dec = {'poly_frombytes': (12, 1), 'poly_decompress': (P['dv'], 1), 'polyvec_decompress': (P['du'], k), 'poly_frommsg': (1, 1),
           'poly_cbd_eta1': (2 * P['eta1'], 1), 'poly_cbd_eta2': (2 * P['eta2'], 1)}
    if fn in dec:
        d, n = dec[fn]
        v = sum((c & t.M(d)) << (d * i) for i, c in val.get('f', {}).items())
        return [poly('z', n, role='out'), dict(kind='bytes', val=list(v.to_bytes(32 * d * n, 'little')) + [0] * 64, role='in', align=32)]
    if fn == 'verify':
        n = inst.key[1]
        return [byts('a', n), byts('b', n), dict(kind='int', val=n)]
    if fn == 'cmov':
        n = inst.key[1]
        return [byts('r', n, 'inout'), byts('x', n), dict(kind='int', val=n), dict(kind='int', val=val.get('b', {}).get(0, 0), w=32)]
    return None


def overflows(rec, w, insts=None):
    """arithmetic obligations the interval analysis could not exclude: reported only with a witness"""
    for key, i in (insts or w.insts).items():
        if i.status != 'failed' or getattr(i, 'kind', None) != 'overflow':
            continue
        i.key = key
        bad = getattr(i, 'badobl', None)
        if bad is None:
            # poly_add / poly_sub: the stored sum wraps; int16 conversion is defined
            continue
        hit = None
        allexact = True
        for ob in bad[:400]:
            asg, exact = violating(ob)
            allexact &= exact
            if asg is not None:
                hit = ob, asg
                break
        nm = '%s: no signed overflow, shifts in range' % i.name
        if hit:
            ob, asg = hit
            args = args_of(w, i, asg)
            cex = dict(fn=i.fn, args=args, trap=True, at=str(ob[4])) if args else None
            what = dict(add='addition', sub='subtraction', mul='multiplication', shiftamt='shift amount').get(ob[0], ob[0])
            rec.bad(nm, 'interval of integer polynomial; witness by enumeration', 'undefined %s (%d bits) at %s for %s' % (
                what, ob[3], ob[4], ', '.join('%s=%d' % (v.p, c) for v, c in sorted(asg.items(), key=lambda z: z[0].id)[:4])), cex, 'overflow')
        elif allexact and len(bad) <= 400:
            rec.ok(nm, 'enumeration', len(bad))
        else:
            rec.unk(nm, i.why + '; no witness found')


# ---------------------------------------------------------------- whole operations
def derand(w, which):
    """contract of the deterministic operation, verified in the same job: touches exactly its buffers"""
    z = spec.sizes(w.k)
    outs, ins = {'keygen': ((('pk', z['pk']), ('sk', z['sk'])), (64,)), 'enc': ((('ct', z['ct']), ('ss', 32)), (z['pk'], 32))}[which]

    def h(x, args):
        for a, n in zip(args[len(outs):], ins):
            x.obj(a, n, 'read (in %s)' % NAME[which])
            if any(t.flags(x.load(a + i, 1)) & UNDEF for i in range(n)):
                raise Violation('uninit', '%s is given uninitialised bytes' % NAME[which], x.where())
        for a, (nm, n) in zip(args, outs):
            o, _ = x.obj(a, n, 'write (in %s)' % NAME[which])
            if o.ro:
                raise Violation('frame', '%s writes to read-only %s' % (NAME[which], o.name), x.where())
        for a, (nm, n) in zip(args, outs):
            for i in range(n):
                x.store(a + i, t.fresh('o_' + nm, 8), 1)
        x.ghost['derand'] = True
        return 0
    return h


def randombytes_contract(x, args):
    """writes exactly the requested bytes (memory behaviour of the body: checked by this property's own job)"""
    out, n = args
    if type(n) is not int:
        raise Unsupported('symbolic request length')
    if n:
        o, _ = x.obj(out, n, 'write (in randombytes)')
        if o.ro:
            raise Violation('frame', 'randombytes writes to read-only %s' % o.name, x.where())
    for i in range(n):
        x.store(out + i, t.fresh('coin', 8), 1)


def job_op(rec, impl, k, op):
    w = sworld(impl, k, rec)
    nm = '%s %s' % (w.cfg, NAME[op])

    def go():
        r = proto.run_op(w, op)
        x = r.x
        rec.stats['IR instructions executed'] = x.steps
        rec.func(NAME[op], w.cfg)
        for f in x.calls:
            rec.func(f, w.cfg)
        for f in x.inlined:
            rec.inl.setdefault(f, set()).add(w.cfg)
        rec.ok(nm + ': every access lies inside its object, is aligned as the instruction needs and depends on initialised memory only',
               'symbolic execution, all inputs', 1)
        rec.ok(nm + ': writes only to its output buffers and its own locals; inputs unchanged', 'frame check during execution', len(r.outs))
        rec.ok(nm + ': footprint, alignment and initialisation preconditions of every callee contract hold at the call', 'symbolic execution, all inputs', max(1, sum(x.calls.values())))
        for o, g, _ in r.outs:
            un = [i for i, b in enumerate(g) if t.flags(b) & UNDEF]
            if un:
                rec.bad('%s: %s is fully initialised' % (nm, o), 'initialisation labels', 'byte %d of the output is uninitialised' % un[0], kind='safety:uninit')
            else:
                rec.ok('%s: %s is fully initialised' % (nm, o), 'initialisation labels', len(g))
        n, bad, dt = leaf.check_obls(x, r.pr.ctx, rec, nm)
        if n - len(bad):
            rec.ok(nm + ': no signed overflow, shifts in range', 'interval of integer polynomial', n - len(bad), dt)
        for op_, a, b, wd, loc in bad[:5]:
            asg, exact = violating((op_, a, b, wd, loc))
            if asg is None and exact:
                rec.ok(nm + ': no signed overflow at %s' % loc, 'enumeration')
            else:
                rec.unk(nm + ': no signed overflow at %s' % loc, 'cannot exclude overflow of %s (i%d)%s' % (op_, wd, ', reached for some value of its operands taken as free' if asg else ''))
        return r
    r = run(rec, nm, go)
    overflows(rec, w)
    if op == 'dec' or r is None:
        return
    rn = '%s crypto_kem_%s' % (w.cfg, dict(keygen='keypair', enc='enc')[op])

    def go2():
        pr, x = proto.setup(w)
        x.contracts['randombytes'] = randombytes_contract
        x.contracts[dict(keygen='keypair_derand', enc='enc_derand')[op]] = derand(w, op)
        z = spec.sizes(k)
        if op == 'keygen':
            a, b = x.new(z['pk'], 1, 'pk'), x.new(z['sk'], 1, 'sk')
            x.run(w.name('keypair'), [a.base, b.base])
            outs = [(a, z['pk']), (b, z['sk'])]
        else:
            a, b = x.new(z['ct'], 1, 'ct'), x.new(32, 1, 'ss')
            pk, pv = proto.inbytes(x, 'pk', z['pk'], lambda i: False)
            x.run(w.name('enc'), [a.base, b.base, pk.base])
            outs = [(a, z['ct']), (b, 32)]
        rec.func('crypto_kem_%s' % dict(keygen='keypair', enc='enc')[op], w.cfg)
        un = [o.name for o, n in outs for v in proto.outbytes(x, o, n) if t.flags(v) & UNDEF]
        if un:
            rec.bad(rn + ': outputs fully initialised', 'initialisation labels', '%s has uninitialised bytes' % un[0], kind='safety:uninit')
        else:
            rec.ok(rn + ': accesses in bounds, aligned, initialised; only outputs written', 'symbolic execution, all inputs', 1)
    run(rec, rn, go2)


def job_matrix(rec, impl, k, tr):
    w = sworld(impl, k, rec)
    nm = '%s gen_matrix(transposed=%d): accesses in bounds, aligned, initialised for every seed and every stream' % (w.cfg, tr)

    def go():
        mat.matrix(w, tr)
    run(rec, nm, go)
    overflows(rec, w)


def job_funcs(rec, impl, k):
    """exported sampling and layout functions on their own (not all of them are used at every K)"""
    w = sworld(impl, k, rec)
    al = leaf.palign(w.prog)
    for fn, n in (('poly_getnoise_eta1', 1), ('poly_getnoise_eta2', 1), ('poly_getnoise_eta1_4x', 4), ('poly_getnoise_eta2_4x', 4), ('poly_getnoise_eta1122_4x', 4)):
        name = w.prog.find(fn)
        if name is None or name not in w.prog.funcs or len(w.prog.funcs[name].params) != 2 * n + 1:
            continue
        nm = '%s %s: accesses in bounds, aligned, initialised for every seed and nonce' % (w.cfg, fn)

        def go():
            pr, x = proto.setup(w)
            sd, svs = proto.inbytes(x, 'seed', 32, lambda i: True)
            outs = [x.new(512, al, 'r%d' % i) for i in range(n)]
            nw = w.prog.funcs[name].params[-1][0][1]
            vs = [t.var('nonce%d' % i, 8) for i in range(n)]
            x.run(name, [o.base for o in outs] + [sd.base] + [t.zext(v, 8, nw) if nw > 8 else v for v in vs])
            for o in outs:
                if any(t.flags(v) & UNDEF for v in leaf.getpoly(x, x.mem[o.id])):
                    raise Violation('uninit', '%s leaves coefficients unset or dependent on uninitialised memory' % fn)
            rec.func(fn, w.cfg)
            rec.ok(nm, 'symbolic execution, all inputs')
        run(rec, nm, go)
    if w.prog.find('poly_nttunpack') is not None:
        def go():
            x = X(w.prog)
            o = x.new(512, al, 'r')
            for i in range(256):
                x.store(o.base + 2 * i, t.var('a%d' % i, 16, secret=True), 2)
            x.run(w.name('poly_nttunpack'), [o.base])
            rec.func('poly_nttunpack', w.cfg)
            rec.ok('%s poly_nttunpack: accesses in bounds, aligned, initialised' % w.cfg, 'symbolic execution, all inputs')
        run(rec, '%s poly_nttunpack' % w.cfg, go)
    overflows(rec, w)


# ---------------------------------------------------------------- hashing, comparison, random source
def sponge_args():
    js = []
    for i in ('ref', 'avx2'):
        for v, r in (('128', 168), ('256', 136)):
            js.append(dict(impl=i, fname='shake%s_absorb' % v, kind='absorb', r=r, ps=[0, 1, 7, 8, r - 8, r - 1]))
            js.append(dict(impl=i, fname='shake%s_squeeze' % v, kind='squeeze', r=r, ps=[0, 1, 7, 8, r - 1, r]))
            js.append(dict(impl=i, fname='shake%s_absorb_once' % v, kind='once', r=r, dom=0x1f))
            js.append(dict(impl=i, fname='shake%s_squeezeblocks' % v, kind='blocks', r=r, ps=[r]))
        for f, r, n in (('sha3_256', 136, 32), ('sha3_512', 72, 64)):
            js.append(dict(impl=i, fname=f, kind='digest', r=r, dom=6, dlen=n))
    for v, r in (('128', 168), ('256', 136)):
        js.append(dict(impl='avx2', fname='shake%sx4_absorb_once' % v, kind='once', r=r, dom=0x1f, lanes=4))
        js.append(dict(impl='avx2', fname='shake%sx4_squeezeblocks' % v, kind='blocks', r=r, ps=[r], lanes=4))
    return js


def fullps(a):
    r = a['r']
    if a['kind'] == 'absorb':
        return [0] + list(range(1, r))
    if a['kind'] == 'squeeze':
        return list(range(r + 1))
    return a.get('ps')


def job_sponge(rec, impl, fname, kind, r, ps=None, lanes=1, dom=None, dlen=None):
    w, pr = HS.hworld(impl, rec)
    Sy = HS.sym_state(lanes) if kind in ('absorb', 'squeeze', 'blocks') else None
    nm = '%s %s: accesses in bounds, aligned, initialised; exactly the message is read and the output written' % (impl, fname)
    fn = HS.Fn(w, pr, fname, kind, r, dom=dom, lanes=lanes, dlen=dlen, stlen=800 if lanes == 4 else 208)
    rec.func(fname, impl)
    t0 = time.time()
    try:
        fn.run(Sy, ps or [None], 400)
        rec.ok(nm, 'sponge VC, induction over blocks', fn.paths + fn.closed, time.time() - t0)
        if fn.maxover:
            rec.assume.add('the 4-way absorb functions read whole 8-byte words: each input buffer must be readable up to the next multiple of 8 bytes')
    except (HS.Refuted, Unsupported) as e:
        hash_native(rec, impl, fname, nm, e)
    except Violation as e:
        hash_native(rec, impl, fname, nm, e, viol=True)


def hash_native(rec, impl, fname, nm, e, viol=False):
    """the sponge VC stopped: sanitizer runs around the point decide what is reported"""
    rnd = random.Random(5)
    x4 = 'x4' in fname
    try:
        e.n = getattr(e, 'n', None)
    except AttributeError:
        pass
    gen = itertools.chain(HS.around(fname, e, rnd) if not isinstance(e, Unsupported) else (), HS.cases(rnd, x4))
    cs = [hcase(c, o) for c in itertools.islice(gen, 2500) for o in (0, 1)]
    bad, n, why = sanrun(impl, 2, cs)
    rec.bounded.append(('sanitizer runs of %s' % fname, n))
    if bad is not None:
        rec.bad(nm, 'execution' if viol else 'native execution (sanitizers)', '%s; sanitizer: %s' % (e, why), dict(san=bad, impl=impl, k=2), kind='safety')
    else:
        rec.unk(nm, '%s; no sanitizer report in %d native calls' % (e, n))


def job_misc(rec, impl, k):
    """verify, cmov, cmov_int16 at the lengths in use and around them; init/finalize; permutation; KEM hash wrappers"""
    w = sworld(impl, k, rec)
    z = spec.sizes(k)
    for fn, mk in (('verify', proto.verify_eq), ('cmov', S.cmov_inst)):
        if w.prog.find(fn) is None:
            continue
        for n in ([z['ct']] if fn == 'verify' else [32]) + ([0, 1, 2, 31, 32, 33, 64, 65] if k == 2 else []):
            run(rec, '%s %s(%d bytes)' % (w.cfg, fn, n), lambda: exact(w, rec, fn, n, mk))
    if w.prog.find('cmov_int16') is not None:
        run(rec, '%s cmov_int16' % w.cfg, lambda: w.inst(('cmov_int16',), 'cmov_int16', S.cmov16_inst(w)))
    overflows(rec, w)
    sub = leaf.Rec()
    HS.job_kem_hash(sub, impl, k)
    take(rec, sub)
    if k == 2:
        sub = leaf.Rec()
        HS.settle, keep = (lambda rec_, impl_, fname, name, e, x4: hash_native(rec_, impl_, fname, name, e, isinstance(e, Violation))), HS.settle
        try:
            HS.job_small(sub, impl)
            if impl == 'avx2':
                HS.job_small(sub, impl, x4=True)
        finally:
            HS.settle = keep
        take(rec, sub)
        p = w.prog
        for f, lanes in keccak.find(p).items():
            def go():
                bad, x, secs = keccak.verify(p, f, lanes, leaf.Rec(), impl)
                rec.func(short(f.name), impl)
                rec.ok('%s %s: accesses stay inside the state, its constants and its locals; aligned' % (impl, short(f.name)), 'symbolic execution, all inputs', 1)
            run(rec, '%s %s' % (impl, short(f.name)), go)


def exact(w, rec, fn, n, mk):
    i = w.inst((fn, n), fn, mk(w, n))
    return i


def take(rec, sub):
    """keep what another check's job says about safety"""
    for n, s, b, c in sub.obl:
        if s == 'proved':
            rec.ok(n + ' (accesses in bounds, aligned, initialised)', b, c)
    for f in sub.fail:
        if str(f.get('kind') or '').startswith('safety') or re.match(r'^(memory|alignment|uninit|frame|ub|abi):', str(f['why'])):
            rec.bad(f['name'], f['backend'], f['why'], f.get('cex'), 'safety')
        else:
            rec.unk(f['name'], 'a functional failure stops the proof: %s' % f['why'])
    for u in sub.unknown:
        rec.unk(u['name'], u['why'])
    for k, v in sub.funcs.items():
        rec.funcs.setdefault(k, set()).update(v)
    rec.assume |= sub.assume
    rec.bounded += sub.bounded


def job_rand(rec, impl, variant, seed):
    sub = leaf.Rec()
    RB.job_rand(sub, impl, variant, seed)
    for f in sub.fail:
        if re.search(r'outside|overwrit|memset|delivered bytes|memory|uninit', f['name'].split(':', 1)[-1]) and 'nreturn' not in f['name']:
            v = (f.get('cex') or {}).get('rb', {}).get('verdict')
            if v in (13, 24) or v is None:
                f['kind'] = 'safety'
    take(rec, sub)


# ---------------------------------------------------------------- native: AddressSanitizer and UBSan
def exe(impl, k):
    out = os.path.join(build.scratch(), 'san_%s_%d' % (impl, k))
    if os.path.exists(out):
        return out
    flags = ['-mavx2', '-mbmi2', '-mpopcnt', '-DVC_X4'] if impl == 'avx2' else []
    d = os.path.join(build.REPO, impl)
    tmp = out + '.%d' % os.getpid()
    # clang: its intrinsics headers require only the alignment the instructions do
    srcs = [s for s in build.sources(impl) if not s.startswith('randombytes')]
    cmd = ([build.LLVM + 'clang', '-g', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DKYBER_K=%d' % k, '-I' + d, '-Wl,-z,noexecstack'] + flags +
             [os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib/san.c')] +
             [os.path.join(d, s) if s.endswith('.c') else build.s_to_obj(impl, k, s) for s in srcs] + ['-o', tmp])
    try:
        build.sh(cmd + ['-DVC_NOISE', '-Werror=implicit-function-declaration'])
        open(out + '.noise', 'w').close()
    except build.BuildError:
        build.sh(cmd)
    os.rename(tmp, out)
    return out


def u32(v):
    return struct.pack('<I', v)


def opcase(op, ins, off, rnd=False):
    if op == 'keygen':
        return bytes([3 if rnd else 0, off]) + ins['coins']
    if op == 'enc':
        return bytes([4 if rnd else 1, off]) + ins['pk'] + ins['coins']
    return bytes([2, off]) + ins['ct'] + ins['sk']


def hcase(c, off):
    alg = {'shake128': 0, 'shake256': 1, 'sha3_256': 2, 'sha3_512': 3}[c['alg']]
    ms = [bytes(m) for m in c['msgs']]
    if c['mode'] == 'oneshot':
        n = c['outs'][0] if c.get('outs') else 32 if alg == 2 else 64
        return bytes([5, off, alg]) + u32(len(ms[0])) + u32(n) + ms[0]
    if c['mode'] == 'x4':
        return bytes([7, off, alg]) + u32(len(ms[0])) + b''.join(ms) + u32(c['outs'][0]) if len(ms[0]) < 65000 else b''
    if c['mode'] == 'x4blocks':
        return bytes([8, off, alg]) + u32(len(ms[0])) + b''.join(ms) + bytes([len(c['outs'])]) + b''.join(u32(n) for n in c['outs']) if len(ms[0]) < 65000 else b''
    ps = c['parts'] if c['parts'] is not None else [len(ms[0])]
    return bytes([6, off, alg, 1 if c['parts'] is None else 0, len(ps)]) + b''.join(u32(p) for p in ps) + bytes([len(c['outs'])]) + \
        b''.join(u32(n[1] | 1 << 31) if isinstance(n, (tuple, list)) else u32(n) for n in c['outs']) + ms[0]


REP = re.compile(r'(runtime error: .*|ERROR: AddressSanitizer: .*|VC: an input buffer was modified)')


def sanrun(impl, k, cs, timeout=300):
    """(failing case, cases run, report)"""
    cs = [c for c in cs if c]
    f = os.path.join(build.scratch(), 'san.%d.in' % os.getpid())
    with open(f, 'wb') as h:
        for c in cs:
            h.write(c)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='print_stacktrace=1')
    try:
        r = subprocess.run([exe(impl, k), f], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return None, 0, 'timeout'
    finally:
        os.unlink(f)
    e = r.stderr.decode(errors='replace')
    at = re.findall(r'^@(\d+)$', e, re.M)
    m = REP.search(e)
    if m:
        i = int(at[-1]) if at else 0
        fr = [x for x in re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) \S*?([^/\s]+:\d+)', e[m.start():]) if 'san.c' not in x[1]]
        return cs[i], i + 1, '%s%s' % (m.group(1)[:200], ' in ' + ' < '.join('%s (%s)' % (short(a), b) for a, b in fr[:4]) if fr else '')
    if r.returncode or 'VC: all' not in e:
        if r.returncode < 0 and at:
            return cs[int(at[-1])], int(at[-1]) + 1, 'killed by signal %d' % -r.returncode
        raise RuntimeError('sanitizer run failed (%d): %s' % (r.returncode, e[-300:]))
    return None, len(cs), None


def job_native(rec, impl, k, seed, n=30, hashes=True):
    rnd = random.Random('%s%d%s' % (impl, k, seed))
    cs = []
    for op in ('keygen', 'enc', 'dec'):
        for i, ins in enumerate(itertools.islice(search.gen_inputs(k, op, seed), n)):
            cs.append(opcase(op, ins, i & 1))
            if op != 'dec' and i < 4:
                cs.append(opcase(op, ins, i & 1, True))
    try:
        if os.path.exists(exe(impl, k) + '.noise'):
            for a in range(4):
                for o in (0, 1):
                    cs.append(bytes([9, o, a, rnd.randrange(252)]) + rnd.randbytes(32))
    except build.BuildError as e:
        rec.unk('%s/K=%d sanitizer runs' % (impl, k), str(e)[-300:])
        return
    if hashes:
        for x4 in ((False, True) if impl == 'avx2' else (False,)):
            for i, c in enumerate(HS.cases(rnd, x4)):
                if i % 4 == 0:
                    cs.append(hcase(c, i // 4 & 1))
    try:
        bad, m, why = sanrun(impl, k, cs)
    except (build.BuildError, RuntimeError) as e:
        rec.unk('%s/K=%d sanitizer runs' % (impl, k), str(e)[-300:])
        return
    rec.bounded.append(('operations and hash calls under AddressSanitizer and UBSan, exact-size and misaligned buffers', m))
    if bad is not None:
        rec.bad('%s/K=%d runs clean under AddressSanitizer and UBSan' % (impl, k), 'native execution (sanitizers)', why, dict(san=bad, impl=impl, k=k), kind='native')


def traplib(impl, k, fn):
    """the library with undefined arithmetic trapping and file-local functions of fn's file callable"""
    src = next((s for s in build.sources(impl) if s.endswith('.c') and re.search(r'\b%s\s*\([^;]*\)\s*\{' % re.escape(fn), open(os.path.join(build.REPO, impl, s)).read())), None)
    if src is None:
        return None
    out = os.path.join(build.scratch(), 'trap_%s_%d_%s.so' % (impl, k, src))
    if not os.path.exists(out):
        flags = ['-mavx2', '-mbmi2', '-mpopcnt'] if impl == 'avx2' else []
        d = os.path.join(build.REPO, impl)
        srcs = [os.path.join(d, s) for s in build.sources(impl)]
        tmp = out + '.%d' % os.getpid()
        build.sh(['gcc', '-shared', '-fPIC', '-O1', '-w', '-fsanitize=undefined', '-fsanitize-undefined-trap-on-error', '-DKYBER_K=%d' % k, '-Wa,-I' + d, '-Wl,-z,noexecstack'] + flags + srcs + ['-o', tmp])
        os.rename(tmp, out)
    return out


def trapcall(impl, k, cex):
    import ctypes
    so = traplib(impl, k, cex['fn'])
    if so is None:
        return None

    def go():
        native.LIBS[(impl, k)] = ctypes.CDLL(so)
        search.call_fn(impl, k, cex)
        return None
    r = search.isolated(go, 60)
    if r[0] == 'crash' and r[1] in (4, 5):
        return 'native %s/K=%d %s traps on undefined arithmetic (%s) for the verifier\'s arguments' % (impl, k, cex['fn'], cex.get('at'))
    return None


def describe(impl, k, case, why):
    op = {0: 'crypto_kem_keypair_derand', 1: 'crypto_kem_enc_derand', 2: 'crypto_kem_dec', 3: 'crypto_kem_keypair', 4: 'crypto_kem_enc', 5: 'one-shot hash', 6: 'incremental hash', 7: '4-way hash', 8: '4-way blocks', 9: 'poly_getnoise_*'}[case[0]]
    return '%s/K=%d %s, buffers at offset %d: %s' % (impl, k, op, case[1], why)


def confirm(fails, tier, seed, end):
    for f in fails:
        c = f.get('cex')
        if c and 'san' in c:
            bad, n, why = sanrun(c['impl'], c['k'], [c['san']])
            if bad is not None:
                return dict(type='san', impl=c['impl'], k=c['k'], case=bad, found=True, text=describe(c['impl'], c['k'], bad, why))
        if c and 'rb' in c:
            v = RB.confirm([f], tier, seed, end)
            if v:
                return v
    for f in fails:
        c = f.get('cex')
        if c and c.get('trap') and c.get('args'):
            tx = trapcall(f['impl'], f['k'], c)
            if tx:
                return dict(type='trap', impl=f['impl'], k=f['k'], cex=c, found=True, text=tx)
    for i, k in sorted({(f['impl'], f.get('k', 2)) for f in fails if 'impl' in f}):
        if time.time() > end - 60:
            break
        r = leaf.Rec()
        job_native(r, i, k, seed + 5, 150)
        for f in r.fail:
            c = f['cex']
            return dict(type='san', impl=i, k=k, case=c['san'], found=True, text=describe(i, k, c['san'], f['why']))
    return None
