"""No secret-dependent branch, address or division (C14).

Every function is executed on labelled arguments: a term carries SECRET when any of its leaves does, and the
executor emits an event for each branch condition, memory address, variable length and division operand it
meets.  The contract proved of each function is "no event carries SECRET"; a caller assumes it of a callee
whenever an argument it passes is secret, so each leaf is verified with all of its contents secret."""
import os, re, time, random, subprocess, tempfile, shutil
from . import term as t, contracts as C, proto, spec, leaf, build, keccak, search, native
from .term import T, SECRET
from .execu import Violation, Aborted, short
from .ir import Unsupported
from .jobs import world, guarded, opname

KIND = {'branch': 'branch condition', 'addr': 'memory address', 'div': 'division operand', 'alloca': 'stack allocation size'}


def text(e):
    return '%s depends on secret data at %s%s' % (KIND.get(e[0], e[0]), e[2], ' (%s)' % e[3] if e[3] and e[3] != 'None' else '')


def report(rec, name, evs, extra=None):
    seen = {}
    for e in evs:
        seen.setdefault((e[0], str(e[2])), e)
    for (k, loc), e in sorted(seen.items(), key=lambda q: str(q[0]))[:12]:
        rec.bad('%s: no %s depends on a secret' % (name, KIND.get(k, k)), 'information-flow labels', text(e), kind='leak')


def job_op(rec, impl, k, op):
    w = world(impl, k, rec)
    w.assume_keccak = True
    w.prove_matrix = False
    w.only = set()            # functional contracts are decided by other checks
    name = '%s %s' % (w.cfg, opname(op))
    pr = C.Proto(w)
    state = {}

    proto_setup = proto.setup

    def spy(w_, pr_=None, extra=None):
        p, x = proto_setup(w_, pr_, extra)
        state['x'] = x
        return p, x
    proto.setup = spy
    why = None
    r = None
    try:
        r = proto.run_op(w, op, pr)
    except C.ContractFailure as e:
        why = 'stopped at %s (%s)' % (e.inst.name, e.inst.why)
        if e.inst.leaks and pr.argfl & SECRET:
            report(rec, '%s (called by %s)' % (e.inst.name, opname(op)), [(a, SECRET, b, c) for a, b, c in e.inst.leaks])
    except (Violation, Aborted, Unsupported) as e:
        why = '%s: %s' % (type(e).__name__, e)
    finally:
        proto.setup = proto_setup
    x = state.get('x')
    if x is None:
        rec.unk(name, why)
        return
    evs = [e for e in x.events if e[1] & SECRET]
    if r is not None and op == 'keygen':
        # a seed that is output as part of the public key is public
        pub = set(r.outs[0][1])
        if all(set(s) <= pub for s in pr.seeds):
            evs = [e for e in evs if not (e[2] == 'gen_matrix' and 'secret seed' in str(e[3]))]
    report(rec, name, evs)
    rec.func(opname(op), w.cfg)
    for f in x.calls:
        rec.func(f, w.cfg)
    for f in x.inlined:
        rec.inl.setdefault(f, set()).add(w.cfg)
    if why:
        rec.unk(name + ': no secret-dependent branch, address or division', why + '; the rest of the operation is not covered')
        return
    # vacuity: the labels reach the results
    got = [b for nm, g, _ in r.outs for b in g]
    lab = sum(1 for b in got if t.flags(b) & SECRET)
    if lab == 0:
        rec.unk(name, 'no output carries a secret label: the analysis would be vacuous')
        return
    if not evs:
        rec.ok('%s: every branch condition, address, length and division operand is public (%d output bytes carry the secret label)' % (name, lab),
               'information-flow labels', max(1, len(x.events)))
        for key, i in w.insts.items():
            if not i.leaks:
                rec.ok('%s: all contents secret, no secret-dependent control flow or address' % i.name, 'information-flow labels')
            elif not any(i.fn in str(e[2]) for e in evs):
                # only ever called on public data
                rec.assume.add('%s branches on its data and is called on public data only' % i.name)


def job_perm(rec, impl):
    p = build.prog(impl, 2)
    fs = keccak.find(p)
    if not fs:
        rec.unk('%s permutation' % impl, 'not found')
    for f, lanes in fs.items():
        nm = '%s %s' % (impl, short(f.name))
        rec.func(short(f.name), impl)
        try:
            bad, x, secs = keccak.verify(p, f, lanes, rec, nm)
        except (Violation, Unsupported) as e:
            x = getattr(e, 'x', None)
            evs = [q for q in (x.events if x else []) if q[1] & SECRET]
            report(rec, nm, evs)
            rec.unk(nm, str(e))
            continue
        evs = [q for q in x.events if q[1] & SECRET]
        report(rec, nm, evs)
        if not evs:
            rec.ok(nm + ': secret state, no secret-dependent control flow or address', 'information-flow labels', max(1, len(x.events)))


def job_small(rec, impl):
    """verify / cmov / cmov_int16 on their own, secret contents and secret condition"""
    from . import select as S
    w = world(impl, 2, leaf.Rec())
    for fn, key, v in (('verify', ('verify', 32), proto.verify_eq(w, 32)), ('cmov', ('cmov', 32), S.cmov_inst(w, 32)), ('cmov_int16', ('cmov_int16',), S.cmov16_inst(w))):
        if w.prog.find(fn) is None:
            continue
        try:
            w.inst(key, fn, v)
        except (C.ContractFailure, Unsupported):
            pass
        i = w.insts.get(key)
        if i is None:
            continue
        rec.func(fn, w.cfg)
        nm = '%s %s' % (w.cfg, fn)
        if i.leaks:
            report(rec, nm, [(a, SECRET, b, c) for a, b, c in i.leaks])
        elif i.foot is None:
            rec.unk(nm, i.why)
        else:
            rec.ok(nm + ': secret contents and condition, no secret-dependent control flow or address', 'information-flow labels')


# ---------------------------------------------------------------- native: memcheck with secrets marked undefined
DRIVER = r'''
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <stdlib.h>
#include <valgrind/memcheck.h>
#include "kem.h"
#include "params.h"
void randombytes(uint8_t *o, size_t n) { memset(o, 0x42, n); }
static uint8_t pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES], ct[CRYPTO_CIPHERTEXTBYTES], ss[32], kc[64], ec[32];
int main(int argc, char **argv) {
  int mark = atoi(argv[2]);
  unsigned i, s = atoi(argv[3]);
  for(i=0;i<64;i++) kc[i] = 7*i + 3*s + 1;
  for(i=0;i<32;i++) ec[i] = 5*i + 11*s + 2;
  if(mark && !strcmp(argv[1], "keygen")) VALGRIND_MAKE_MEM_UNDEFINED(kc, 64);
  crypto_kem_keypair_derand(pk, sk, kc);
  VALGRIND_MAKE_MEM_DEFINED(pk, sizeof pk); VALGRIND_MAKE_MEM_DEFINED(sk, sizeof sk);
  if(!strcmp(argv[1], "keygen")) return 0;
  if(mark && !strcmp(argv[1], "enc")) VALGRIND_MAKE_MEM_UNDEFINED(ec, 32);
  crypto_kem_enc_derand(ct, ss, pk, ec);
  VALGRIND_MAKE_MEM_DEFINED(ct, sizeof ct);
  if(!strcmp(argv[1], "enc")) return 0;
  if(s & 1) ct[s % sizeof ct] ^= 1;
  if(mark) { VALGRIND_MAKE_MEM_UNDEFINED(sk, 384*KYBER_K); VALGRIND_MAKE_MEM_UNDEFINED(sk + sizeof sk - 32, 32); }
  crypto_kem_dec(ss, ct, sk);
  return 0;
}
'''
PUBLIC = ('gen_matrix', 'rej_uniform')


def memcheck(impl, k, op, seed, d):
    """list of (what, frames) memcheck reports with the secrets undefined and not with them defined"""
    exe = os.path.join(d, 'ct_%s_%d' % (impl, k))
    if not os.path.exists(exe):
        src = os.path.join(d, 'drv.c')
        open(src, 'w').write(DRIVER)
        flags = ['-mavx2', '-mbmi2', '-mpopcnt', '-Wa,-I' + os.path.join(build.REPO, impl)] if impl == 'avx2' else []
        build.sh(['gcc', '-g', '-O0', '-w', '-DKYBER_K=%d' % k, '-I' + os.path.join(build.REPO, impl)] + flags + [src] +
                 [os.path.join(build.REPO, impl, s) for s in build.sources(impl) if not s.startswith('randombytes')] + ['-o', exe, '-Wl,-z,noexecstack'])
    res = []
    for mark in (1, 0):
        r = subprocess.run(['valgrind', '--error-limit=no', '-q', exe, op, str(mark), str(seed)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=400, cwd=d)
        es = []
        for blk in re.split(r'\n==\d+== *\n', r.stderr):
            m = re.search(r'(Conditional jump or move depends|Use of uninitialised value)', blk)
            if m:
                fr = re.findall(r'(?:at|by) 0x[0-9A-F]+: (\S+) \(([^)]*)\)', blk)
                es.append((m.group(1), fr))
        if mark == 0 and r.returncode:
            raise RuntimeError('memcheck run failed: ' + r.stderr[-400:])
        res.append(es)
    base = {tuple(e[1]) for e in res[1]}
    return [e for e in res[0] if tuple(e[1]) not in base and not any(any(p in f for p in PUBLIC) for f, _ in e[1])]


def job_native(rec, impl, k, seed, runs=1):
    n = 0
    for op in ('keygen', 'enc', 'dec'):
        for s in range(seed, seed + runs * (2 if op == 'dec' else 1)):
            try:
                es = memcheck(impl, k, op, s, build.scratch())
            except (build.BuildError, RuntimeError, subprocess.TimeoutExpired, OSError) as e:
                rec.unk('%s/K=%d native memcheck of %s' % (impl, k, op), str(e)[-300:])
                continue
            n += 1
            for what, fr in es[:3]:
                rec.bad('%s/K=%d %s under memcheck with secrets undefined' % (impl, k, opname(op)), 'native execution (memcheck, -O0)',
                        '%s at %s' % (what, ' < '.join('%s (%s)' % f for f in fr[:4])), dict(op='ct', which=op, seed=s, what=what, frames=[list(f) for f in fr[:6]]), kind='native')
    rec.bounded.append(('memcheck runs with secrets marked undefined (%s/K=%d, gcc -O0)' % (impl, k), n))


def confirm(fails, tier, seed, end):
    for f in fails:
        c = f.get('cex')
        if c and c.get('op') == 'ct':
            return dict(type='ct', impl=f['impl'], k=f['k'], cex=c, found=True,
                        text='%s/K=%d %s, coins of driver seed %d: %s at %s' % (f['impl'], f['k'], opname(c['which']), c['seed'], c['what'], ' < '.join('%s (%s)' % tuple(q) for q in c['frames'][:3])))
    return None
