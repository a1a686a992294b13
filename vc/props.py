"""The checks: which jobs decide which property, and how a failed obligation is turned into a concrete failing input."""
import time
from . import jobs as J, search, build, spec, xof
from .main import Job

CFG = [(i, k) for k in (2, 3, 4) for i in ('ref', 'avx2')]
PROPS = {}


def diffjob(rec, impl, k, op, seconds, seed, against=None):
    n, ins, crash = search.diff_op(impl, k, op, seconds, seed, against=against)
    rec.bounded.append(('differential runs of native %s against %s' % (J.opname(op), against or 'the FIPS 203 oracle'), n))
    if ins is not None or crash:
        rec.bad('%s/K=%d %s agrees with %s on sampled inputs' % (impl, k, J.opname(op), against or 'FIPS 203'), 'native execution',
                'differs (%s)' % (crash,) if crash else 'differs', dict(op=op, ins=ins), kind='native')


def confirm_ops(ops, against=None):
    """look for an input of the operation that shows the failure natively"""
    def go(fails, tier, seed, end):
        cand = []
        for f in fails:
            c = f.get('cex')
            if c and 'op' in c and c.get('ins'):
                cand.append((f.get('impl', 'ref'), f['k'], c['op'], c['ins'], f))
        for impl, k, op, ins, f in cand:
            tx = search.confirm_op(impl, k, op, ins, against)
            if tx:
                return dict(type='op', impl=impl, k=k, op=op, ins=ins, against=against, found=True, text=tx)
        todo = []
        for f in fails:
            if 'k' not in f:
                continue
            impls = [f['impl']] if 'impl' in f else ['avx2' if against else 'ref']
            for i in impls:
                for op in ([f['op']] if 'op' in f else ops):
                    key = (i, f['k'], op)
                    if key not in [x[0] for x in todo]:
                        todo.append((key, f.get('directed') or []))
        from .main import run_jobs
        left = max(20, min(90, end - time.time() - 30))
        js = [Job('search', searchjob, dict(impl=i, k=k, op=op, seconds=left * 8 / max(8, len(todo)), seed=seed + 17, dirs=d, against=against), timeout=left + 60)
              for (i, k, op), d in todo]
        run_jobs(js, deadline=end)
        for j in js:
            for f in j.rec.fail:
                c = f['cex']
                if c and c.get('ins'):
                    tx = search.confirm_op(j.kw['impl'], j.kw['k'], c['op'], c['ins'], against)
                    if tx:
                        return dict(type='op', impl=j.kw['impl'], k=j.kw['k'], op=c['op'], ins=c['ins'], against=against, found=True, text=tx)
        # function-level counterexample as supporting material
        v = confirm_fns(fails, tier, seed, end)
        if v and v.get('found'):
            v['found'] = False
            v['text'] = 'no failing input of the whole operation found; function-level counterexample: ' + v['text']
        return v
    return go


def searchjob(rec, impl, k, op, seconds, seed, dirs, against=None):
    n, ins, crash = search.diff_op(impl, k, op, seconds, seed, directed=dirs, against=against)
    if ins is not None or crash:
        rec.bad('native', 'native execution', str(crash or 'differs'), dict(op=op, ins=ins))


def confirm_fns(fails, tier, seed, end):
    """replay function-level counterexamples natively"""
    best = None
    seen = 0
    for f in fails:
        c = f.get('cex')
        if not c or 'fn' not in c or 'impl' not in f:
            continue
        seen += 1
        if seen > 30 or time.time() > end:
            break
        st, tx = search.confirm_fn(f['impl'], f['k'], c)
        if st == 'confirmed':
            return dict(type='fn', impl=f['impl'], k=f['k'], cex=c, found=True, text='%s/K=%d: %s' % (f['impl'], f['k'], tx))
        if best is None:
            best = dict(type='obligation', found=False, text='counterexample of the verifier not reproduced natively: %s' % tx, cex=c)
    return best


ASM_OP = ['machine arithmetic is modelled exactly (two\'s complement, bit-precise); no mathematical-integer abstraction is trusted without its no-wrap obligation',
          'ghost functions for Keccak, compression and the transforms are uninterpreted at operation level; their meaning is fixed by the callee contracts, each verified against the real function body in the same run']


def opjobs(op):
    def f(tier, seed):
        q = tier == 'quick'
        return [Job('%s/K=%d %s' % (i, k, op), J.job_op, dict(impl=i, k=k, op=op), timeout=500 if q else 2500) for i, k in CFG[::-1]] + \
               [Job('diff %s/K=%d %s' % (i, k, op), diffjob, dict(impl=i, k=k, op=op, seconds=5 if q else 120, seed=seed), kind='bounded') for i, k in CFG]
    return f


for _id, _op in (('C01', 'keygen'), ('C02', 'enc'), ('C03', 'dec')):
    PROPS[_id] = dict(level='proof', jobs=opjobs(_op), confirm=confirm_ops([_op]), assumptions=ASM_OP,
                      technique='function contracts verified by symbolic VC generation over LLVM IR/AVX2 asm, callers over callee contracts')


def c04jobs(tier, seed):
    q = tier == 'quick'
    return [Job('K=%d %s' % (k, op), J.job_equiv, dict(k=k, op=op), timeout=500 if q else 2500) for k in (4, 3, 2) for op in ('dec', 'enc', 'keygen')] + \
           [Job('diff K=%d %s' % (k, op), diffjob, dict(impl='avx2', k=k, op=op, seconds=4 if q else 120, seed=seed, against='ref'), kind='bounded')
            for k in (2, 3, 4) for op in ('keygen', 'enc', 'dec')]


PROPS['C04'] = dict(level='proof', jobs=c04jobs, confirm=confirm_ops(['keygen', 'enc', 'dec'], 'ref'), assumptions=ASM_OP,
                    technique='relational verification of both implementations over shared function contracts')


# ---------------------------------------------------------------- components
from . import arith as A, fnspec


def fnsearch(rec, impl, k, fn, rngs, seconds, seed):
    n, x, crash = fnspec.diff_fn(impl, k, fn, rngs, seconds, seed)
    if x is not None or crash:
        rec.bad('native', 'native execution', str(crash or 'differs'), x)


def confirm_mul(f):
    c = f.get('cex')
    if c and c.get('mulnative') and 'impl' in f:
        import numpy as np
        r = search.isolated(lambda: A.mulone(f['impl'], f['k'], np.array(c['a']), np.array(c['b'])), 60)
        if r[0] != 'ok' or r[1]:
            return dict(type='mul', impl=f['impl'], k=f['k'], a=c['a'], b=c['b'], found=True, text=str(r[1]))
    return None


def confirm_comp(fns, ops=('enc', 'keygen', 'dec')):
    """function-level counterexample first, then sampled native calls, then whole operations"""
    def go(fails, tier, seed, end):
        for f in fails:
            v = confirm_mul(f)
            if v:
                return v
        for f in fails:
            c = f.get('cex')
            if c and 'xof' in c:
                tx = xof.replay(c)
                if tx:
                    return dict(type='xof', impl=c['impl'], k=c['k'], case=dict(tr=c['tr'], streams=bytes(c['xof']).hex()), found=True, text=tx)
        v = confirm_fns(fails, tier, seed, end)
        if v and v.get('found'):
            return v
        from .main import run_jobs
        cfg = sorted({(f['impl'], f['k']) for f in fails if 'impl' in f and 'k' in f})
        todo = [(i, k, fn) for i, k in cfg for fn in fns]
        left = max(10, min(100, end - time.time() - 60))
        js = [Job('search', fnsearch, dict(impl=i, k=k, fn=fn, rngs=[A.DEFAULT[fn]] if fn in A.DEFAULT else None, seconds=max(1, left * 4 / max(8, len(todo))), seed=seed + 3), timeout=left + 30)
              for i, k, fn in todo if fn not in ('poly_add', 'poly_sub')]
        run_jobs(js, deadline=end)
        fs = []
        for j in js:
            for f in j.rec.fail:
                fs.append(dict(f, impl=j.kw['impl'], k=j.kw['k']))
        w = confirm_fns(fs, tier, seed, end)
        if w and w.get('found'):
            return w
        if end - time.time() > 60:
            w = confirm_ops(list(ops))(fails, tier, seed, end)
            if w and w.get('found'):
                return w
        return v
    return go


def cjobs(job, extra=(), native=None):
    def f(tier, seed):
        q = tier == 'quick'
        js = [Job('%s/K=%d' % (i, k), job, dict(impl=i, k=k, seed=seed), timeout=500 if q else 2500) for i, k in CFG[::-1]]
        for e in extra:
            js.append(Job(e.__name__, e, {}, timeout=300))
        return js
    return f


COMPA = ['machine arithmetic is modelled exactly; the argument ranges of each instance are those the three operations establish at the call (verified in the same run) and the documented domain']
TECH = 'function contracts verified by symbolic VC generation over LLVM IR/AVX2 asm'
PROPS['C06'] = dict(level='proof', jobs=cjobs(A.job_mul, [A.job_lemma_ring]), confirm=confirm_comp(['poly_ntt', 'poly_invntt_tomont', 'poly_basemul_montgomery']),
                    assumptions=COMPA, technique=TECH + ' (integer-polynomial normal forms), ring lemma on all basis pairs')


def c07jobs(tier, seed):
    js = [Job('overflow %s/K=%d %s' % (i, k, op), A.job_overflow, dict(impl=i, k=k, op=op), timeout=500) for i, k in CFG[::-1] for op in ('dec', 'enc', 'keygen')]
    js += [Job('montgomery part %d' % p, A.job_montgomery, dict(impl='ref', ks=[2, 3, 4], part=p, parts=8), timeout=500) for p in range(8)]
    js += [Job('barrett', A.job_barrett, dict(impl='ref', ks=[2, 3, 4]), timeout=300)]
    js += [Job('vector reductions %s/K=%d' % (i, k), A.job_vecreduce, dict(impl=i, k=k), timeout=300) for i, k in CFG]
    return js


PROPS['C07'] = dict(level='proof', jobs=c07jobs, confirm=confirm_comp(['poly_reduce', 'poly_tomont']), assumptions=COMPA,
                    technique=TECH + '; interval/no-wrap obligations at every call; scalar reductions by exhaustive enumeration of the verification condition')
PROPS['C08'] = dict(level='proof', jobs=cjobs(A.job_serial, [A.job_lemma_serial]), confirm=confirm_comp(A.SER + ['polyvec_tobytes', 'polyvec_frombytes']), assumptions=COMPA,
                    technique=TECH + ', output fields enumerated over every coefficient value')
PROPS['C09'] = dict(level='proof', jobs=cjobs(A.job_compress, [A.job_lemma_comp]), confirm=confirm_comp(A.COMP), assumptions=COMPA,
                    technique=TECH + ', output fields enumerated over every coefficient value')


def c12jobs(tier, seed):
    q = tier == 'quick'
    return [Job('%s/K=%d transposed=%d' % (i, k, tr), A.job_matrix, dict(impl=i, k=k, tr=tr), timeout=500 if q else 2500) for i, k in CFG[::-1] for tr in (0, 1)] + \
           [Job('native %s/K=%d' % (i, k), A.job_matrix_native, dict(impl=i, k=k, seed=seed, secs=3 if q else 60), timeout=600, kind='bounded') for i, k in CFG]


PROPS['C12'] = dict(level='proof', jobs=c12jobs, confirm=confirm_comp(['gen_matrix', 'rej_uniform', 'rej_uniform_avx'], ('keygen', 'enc')), assumptions=[
    'machine arithmetic is modelled exactly; SampleNTT is specified with an unbounded stream, the squeeze loop is closed by induction over the number of blocks (termination of rejection sampling is probabilistic and not claimed)'],
    technique=TECH + '; loop invariant over ghost counters for the rejection sampler, induction over squeezed blocks')
PROPS['C13'] = dict(level='proof', jobs=cjobs(A.job_noise), confirm=confirm_comp(['poly_cbd_eta1', 'poly_cbd_eta2', 'poly_getnoise_eta1', 'poly_getnoise_eta2', 'poly_getnoise_eta1_4x', 'poly_getnoise_eta1122_4x']),
                    assumptions=COMPA, technique=TECH + '; samplers executed over the Keccak contract for symbolic seed and nonce')


# ---------------------------------------------------------------- hashing
from . import hashing as HS


def c10jobs(tier, seed):
    q = tier == 'quick'
    js = []
    for i in ('ref', 'avx2'):
        for v, r in (('128', 168), ('256', 136)):
            for lo in range(0, r, 56 if r == 168 else 68):
                js.append(Job('%s shake%s_absorb' % (i, v), HS.job_sponge, dict(impl=i, fname='shake%s_absorb' % v, kind='absorb', r=r,
                              ps=[0] + list(range(max(lo, 1), min(r, lo + (56 if r == 168 else 68)))))))
            js.append(Job('%s shake%s_squeeze' % (i, v), HS.job_sponge, dict(impl=i, fname='shake%s_squeeze' % v, kind='squeeze', r=r, ps=list(range(r + 1)))))
            js.append(Job('%s shake%s_absorb_once' % (i, v), HS.job_sponge, dict(impl=i, fname='shake%s_absorb_once' % v, kind='once', r=r, dom=0x1f)))
            js.append(Job('%s shake%s_squeezeblocks' % (i, v), HS.job_sponge, dict(impl=i, fname='shake%s_squeezeblocks' % v, kind='blocks', r=r, ps=[r])))
        for f, r, n in (('sha3_256', 136, 32), ('sha3_512', 72, 64)):
            js.append(Job('%s %s' % (i, f), HS.job_sponge, dict(impl=i, fname=f, kind='digest', r=r, dom=6, dlen=n)))
        js.append(Job('%s one-shot, init, finalize' % i, HS.job_small, dict(impl=i)))
        js.append(Job('%s permutation' % i, HS.job_perm, dict(impl=i)))
        js.append(Job('%s native' % i, HS.job_hash_native, dict(impl=i, seed=seed, seconds=8 if q else 400), timeout=600, kind='bounded'))
        for k in (2, 3, 4):
            js.append(Job('%s/K=%d symmetric' % (i, k), HS.job_kem_hash, dict(impl=i, k=k)))
    return js


HASHA = ['lengths up to 2^62 bytes (objects cannot be larger)', 'absorb and squeeze contracts are stated for every state and position; a sequence of calls is their composition over the byte-wise sponge']
PROPS['C10'] = dict(level='proof', jobs=c10jobs, confirm=HS.confirm_hash, assumptions=HASHA,
                    technique=TECH + '; block loops by inferred and checked inductive invariants; permutation by hash-consed normal form')


def c11jobs(tier, seed):
    q = tier == 'quick'
    js = []
    i = 'avx2'
    for v, r in (('128', 168), ('256', 136)):
        js.append(Job('shake%sx4_absorb_once' % v, HS.job_sponge, dict(impl=i, fname='shake%sx4_absorb_once' % v, kind='once', r=r, dom=0x1f, lanes=4)))
        js.append(Job('shake%sx4_squeezeblocks' % v, HS.job_sponge, dict(impl=i, fname='shake%sx4_squeezeblocks' % v, kind='blocks', r=r, ps=[r], lanes=4)))
    js.append(Job('one-shot', HS.job_small, dict(impl=i, x4=True)))
    js.append(Job('permutation', HS.job_perm, dict(impl=i)))
    js.append(Job('native', HS.job_hash_native, dict(impl=i, seed=seed, seconds=8 if q else 400, x4=True), timeout=600, kind='bounded'))
    return js


PROPS['C11'] = dict(level='proof', jobs=c11jobs, confirm=HS.confirm_hash, assumptions=HASHA[:1],
                    technique=TECH + '; block loops by inferred and checked inductive invariants; permutation by hash-consed normal form')


# ---------------------------------------------------------------- safety
from . import safety as SF


def c05jobs(tier, seed):
    q = tier == 'quick'
    js = [Job('%s/K=%d %s' % (i, k, op), SF.job_op, dict(impl=i, k=k, op=op), timeout=500) for i, k in CFG[::-1] for op in ('dec', 'enc', 'keygen')]
    js += [Job('%s/K=%d transposed=%d' % (i, k, tr), SF.job_matrix, dict(impl=i, k=k, tr=tr), timeout=500) for i, k in CFG[::-1] for tr in (0, 1)]
    js += [Job('%s/K=%d exported functions' % (i, k), SF.job_funcs, dict(impl=i, k=k), timeout=500) for i, k in CFG]
    for a in SF.sponge_args():
        js.append(Job('%s %s' % (a['impl'], a['fname']), SF.job_sponge, a if q else dict(a, ps=SF.fullps(a)), timeout=500 if q else 2500))
    js += [Job('%s/K=%d small functions' % (i, k), SF.job_misc, dict(impl=i, k=k), timeout=500) for i, k in CFG]
    for i in ('ref', 'avx2'):
        for v, _ in RB.VARIANTS:
            js.append(Job('%s randombytes %s' % (i, v), SF.job_rand, dict(impl=i, variant=v, seed=seed), timeout=500))
    js += [Job('sanitizers %s/K=%d' % (i, k), SF.job_native, dict(impl=i, k=k, seed=seed, n=30 if q else 1500), timeout=500, kind='bounded') for i, k in CFG]
    return js


# ---------------------------------------------------------------- comparison and selection
from . import select as SEL, cmpall as CA, search as SEARCH


def c15jobs(tier, seed):
    q = tier == 'quick'
    js = []
    for i in ('ref', 'avx2'):
        for n in SEL.KEM[::-1]:
            js.append(Job('%s verify %d' % (i, n), SEL.job_verify, dict(impl=i, lens=[n]), timeout=500))
        L = list(range(0, 130)) if q else list(range(0, 600)) + [1000, 1100, 2000]
        for a in range(4):
            js.append(Job('%s verify short %d' % (i, a), SEL.job_verify, dict(impl=i, lens=L[a::4]), timeout=500 if q else 2500))
        js.append(Job('%s cmov' % i, SEL.job_cmov, dict(impl=i, lens=list(range(0, 130)) if q else list(range(0, 600))), timeout=500 if q else 2500))
        js += [Job('%s %s every length' % (i, f), CA.job_all, dict(impl=i, fname=f), timeout=400) for f in ('verify', 'cmov')]
        js.append(Job('%s native cmov' % i, SEL.job_cmov_native, dict(impl=i, seed=seed, seconds=6 if q else 100), timeout=400, kind='bounded'))
        js.append(Job('%s native verify' % i, SEL.job_native, dict(impl=i, seed=seed, seconds=6 if q else 200), timeout=400, kind='bounded'))
    for i, k in CFG[::-1]:
        js.append(Job('%s/K=%d selection' % (i, k), SEL.job_select, dict(impl=i, k=k), timeout=500))
        js.append(Job('%s/K=%d flips' % (i, k), SEL.flips, dict(impl=i, k=k, seed=seed), timeout=400, kind='bounded'))
    return js


def confirm_select(fails, tier, seed, end):
    for f in fails:
        c = f.get('cex')
        if c and 'huge' in c:
            r = SEARCH.isolated(lambda: CA.huge(c['impl'], c['fn'], c['huge']), 120)
            tx = r[1] if r[0] == 'ok' else '%s of %d bytes: native call ends with %s' % (c['fn'], c['huge'], r[0])
            if tx:
                return dict(type='call', impl=c['impl'], fn=c['fn'], length=c['huge'], found=True, text='%s: %s' % (c['impl'], tx))
    fs = [dict(f, k=f.get('k', 2)) for f in fails]
    ops = [f for f in fs if f.get('cex') and 'op' in f['cex']] + [f for f in fs if 'select' == f.get('kind')]
    v = confirm_fns(fs, tier, seed, end)
    if v and v.get('found'):
        return v
    if ops:
        w = confirm_ops(['dec'])(ops, tier, seed, end)
        if w and w.get('found'):
            return w
    w = confirm_ops(['dec'])(fs, tier, seed, end)
    if w and w.get('found'):
        return w
    return v


PROPS['C15'] = dict(level='proof', jobs=c15jobs, confirm=confirm_select, assumptions=[
    'verify and cmov are proved for all contents at every length by an inferred invariant, and besides length by length at the lengths a KEM operation uses and up to 129',
    'indcpa_dec/indcpa_enc are taken as functions of their arguments here (decided by C02/C03), Keccak as decided by C10'],
    technique=TECH + '; term identity and z3 bit-vector equivalence')


# ---------------------------------------------------------------- random source
from . import rand as RB


def c17jobs(tier, seed):
    q = tier == 'quick'
    js = []
    for i in ('ref', 'avx2'):
        for v, _ in RB.VARIANTS:
            js.append(Job('%s %s' % (i, v), RB.job_rand, dict(impl=i, variant=v, seed=seed)))
            js.append(Job('%s %s native' % (i, v), RB.job_native, dict(impl=i, variant=v, seconds=5 if q else 200, seed=seed), timeout=500, kind='bounded'))
    return js


PROPS['C17'] = dict(level='proof', jobs=c17jobs, confirm=RB.confirm, assumptions=[
    'contract assumed of the operating system: a request for n > 0 random bytes delivers between 1 and min(n, 0x7ffff000) bytes or fails with an errno; EINTR is an interruption, EAGAIN is treated as either; everything else is unrecoverable',
    'the branches for other systems are compiled here by their preprocessor conditions, the _WIN32 one against declarations in /verif/lib/win',
    'termination (that the source eventually delivers) is not claimed'],
    technique=TECH + ' with ghost delivery state; loop invariants by Houdini weakening; z3')


# ---------------------------------------------------------------- randomised operations
from . import fresh as FR


def c18jobs(tier, seed):
    q = tier == 'quick'
    return [Job('%s/K=%d %s' % (i, k, op), FR.job_fresh, dict(impl=i, k=k, op=op), timeout=500) for i, k in CFG[::-1] for op in ('dec', 'enc', 'keygen')] + \
           [Job('native %s/K=%d' % (i, k), FR.job_native, dict(impl=i, k=k, seed=seed, seconds=6 if q else 200), timeout=500, kind='bounded') for i, k in CFG]


PROPS['C18'] = dict(level='proof', jobs=c18jobs, confirm=FR.confirm, assumptions=[
    'randombytes is used through its contract (decided by C17)',
    'state that outlives a call is state in objects of static storage (the code calls nothing else that keeps state); heap is not used'],
    technique=TECH + '; randomised operation over the contract of randombytes against the deterministic one, frame condition on static storage')


# ---------------------------------------------------------------- decryption under the noise bound
from . import correct as CO

MIX = [('ref', 'ref', 'ref'), ('avx2', 'avx2', 'avx2'), ('ref', 'avx2', 'ref'), ('avx2', 'ref', 'avx2')]


def c16jobs(tier, seed):
    q = tier == 'quick'
    js = []
    for k in (4, 3, 2):
        for a, b, c in MIX:
            js.append(Job('K=%d %s,%s,%s' % (k, a, b, c), CO.job_algebra, dict(k=k, ik=a, ie=b, idc=c), timeout=500))
            js.append(Job('native K=%d %s,%s,%s' % (k, a, b, c), CO.job_native, dict(k=k, ik=a, ie=b, idc=c, seed=seed, seconds=3 if q else 120), timeout=500, kind='bounded'))
    for i, k in CFG[::-1]:
        js.append(Job('threshold %s/K=%d' % (i, k), CO.job_threshold, dict(impl=i, k=k), timeout=300))
        js.append(Job('agreement %s/K=%d' % (i, k), CO.job_agree, dict(impl=i, k=k), timeout=300))
        js.append(Job('compression %s/K=%d' % (i, k), A.job_compress, dict(impl=i, k=k, seed=seed), timeout=300))
    js.append(Job('ring lemma', A.job_lemma_ring, {}, timeout=300))
    return js


PROPS['C16'] = dict(level='proof', jobs=c16jobs, confirm=CO.confirm, assumptions=[
    'the noise is the FIPS 203 quantity e.y + e2 - s.e1 + compression errors; compression errors are those of FIPS 203: the code\'s compression and decompression are proved equal to it',
    'Keccak, the matrix sampler, and the noise samplers are used through their contracts (decided by C10/C11, C12, C13); how large the noise is for honest keys is a probability statement and not claimed'],
    technique=TECH + '; key generation, encryption and decryption composed over their contracts in one ghost algebra; decoding threshold enumerated on the code')


# ---------------------------------------------------------------- constant time
from . import ctime as CT


def c14jobs(tier, seed):
    q = tier == 'quick'
    js = []
    for i, k in CFG[::-1]:
        for op in ('dec', 'enc', 'keygen'):
            js.append(Job('%s/K=%d %s' % (i, k, op), CT.job_op, dict(impl=i, k=k, op=op), timeout=500))
        js.append(Job('memcheck %s/K=%d' % (i, k), CT.job_native, dict(impl=i, k=k, seed=seed, runs=1 if q else 10), timeout=600 if q else 2500, kind='bounded'))
    for i in ('ref', 'avx2'):
        js.append(Job('%s permutation' % i, CT.job_perm, dict(impl=i), timeout=300))
        js.append(Job('%s verify, cmov' % i, CT.job_small, dict(impl=i), timeout=300))
    return js


PROPS['C14'] = dict(level='proof', jobs=c14jobs, confirm=CT.confirm, assumptions=[
    'the statement is about compiler IR (clang -O0 + mem2reg) and the hand-written assembly: an optimising compiler may turn straight-line code into branches',
    'the matrix seed is public as soon as it is computed (it is part of the public key); the rejection sampler may branch on it',
    'instructions other than branches, memory accesses and divisions take data-independent time'],
    technique=TECH + ' with information-flow labels; no event may carry the secret label')


PROPS['C05'] = dict(level='proof', jobs=c05jobs, confirm=SF.confirm, assumptions=[
    'objects are laid out as the C abstract machine gives them at clang -O0; pointer arithmetic that leaves an object without an access, and left shifts of negative values (both undefined in C, defined by every compiler the library supports), are not checked',
    'callers pass disjoint buffers of the documented sizes; byte buffers may have any alignment, poly/polyvec and state objects the alignment of their type',
    'Keccak-f[1600] bodies are verified once per implementation and used through their contract'],
    technique=TECH + ': every access checked against its object, footprints as contracts, overflow obligations by interval analysis of integer polynomials')
