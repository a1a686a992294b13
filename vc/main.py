"""bin/check <ID> <tier>: verify the contracts a property consists of, report violations, write evidence."""
import os, sys, time, json, pickle, signal, select, traceback
from . import build, leaf

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, 'evidence')
REPL = os.path.join(EVID, 'replay')


class Job:
    def __init__(self, label, fn, kw, timeout=420, kind='proof'):
        self.label, self.fn, self.kw, self.timeout, self.kind = label, fn, kw, timeout, kind
        self.rec = None
        self.secs = 0.0
        self.status = 'pending'


def run_child(job, w):
    rec = leaf.Rec()
    st = 'ok'
    try:
        job.fn(rec, **job.kw)
        from . import execu
        gw = [o for o in execu.GW if 'randombytes' not in o]
        if gw and not any('earlier calls' in o[0] or 'static storage' in o[0] for o in rec.obl):
            rec.unk('%s: no state is kept between calls' % job.label, 'static storage is written (%s): shown for the first call only' % ', '.join(sorted(gw)))
    except build.BuildError as e:
        st = 'build'
        rec.unk(job.label, 'does not build: ' + str(e)[-600:])
    except MemoryError:
        st = 'memory'
        rec.unk(job.label, 'out of memory')
    except BaseException as e:
        from .ir import Unsupported
        if isinstance(e, Unsupported):
            rec.unk(job.label, 'unsupported: ' + str(e))
        else:
            st = 'error'
            rec.unk(job.label, 'engine error: ' + traceback.format_exc()[-1500:])
    try:
        data = pickle.dumps((st, rec))
    except Exception as e:
        r2 = leaf.Rec()
        r2.unk(job.label, 'result not transferable: %s' % e)
        data = pickle.dumps(('error', r2))
    with os.fdopen(w, 'wb') as f:
        f.write(data)


def run_jobs(jobs, par=8, deadline=None):
    """fork one child per job, at most par at a time"""
    todo = list(jobs)
    live = {}
    build.scratch()
    sys.setrecursionlimit(20000)
    while todo or live:
        while todo and len(live) < par:
            j = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    os.setpgid(0, 0)
                    run_child(j, w)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = [j, pid, time.time(), b'']
        rs, _, _ = select.select(list(live), [], [], 0.5)
        for r in rs:
            b = os.read(r, 1 << 20)
            if b:
                live[r][3] += b
                continue
            j, pid, t0, data = live.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            j.secs = time.time() - t0
            try:
                j.status, j.rec = pickle.loads(data)
            except Exception:
                j.status = 'died'
                j.rec = leaf.Rec()
                j.rec.unk(j.label, 'worker died (memory?)')
        now = time.time()
        for r, l in list(live.items()):
            j, pid, t0, data = l
            if now - t0 > j.timeout or (deadline and now > deadline):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                j.secs = now - t0
                j.status = 'timeout'
                j.rec = leaf.Rec()
                j.rec.unk(j.label, 'time limit of %d s' % j.timeout)
    return jobs


TRUSTED = [
    'clang 18 front end and LLVM mem2reg (C to IR at -O0), GNU as and objdump decoding of the AVX2 assembly; the compiler back end that produces the shipped code is not verified',
    'verification-condition generator /verif/vc (symbolic executor, hash-consed normal forms, integer-polynomial analysis), Python 3.12, numpy, z3 5.3.2',
    'FIPS 202/203 transcription in /verif/vc/spec.py (cross-checked against hashlib and the repository test vectors in setup)',
    'the C abstract machine facts used: distinct objects do not overlap unless passed aliased, callers pass pointers aligned as the types require',
]


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from . import props
    os.makedirs(REPL, exist_ok=True)
    P = props.PROPS[pid]
    jobs = P['jobs'](tier, seed)
    limit = 780 if tier == 'quick' else 3400
    run_jobs(jobs, deadline=t0 + limit - 180)
    allrec = leaf.Rec()
    fails, unk = [], []
    for j in jobs:
        allrec.merge(j.rec)
        for k, v in j.rec.inl.items():
            allrec.inl.setdefault(k, set()).update(v)
        allrec.bounded += j.rec.bounded
        for f in j.rec.fail:
            g = dict(f)
            g['job'] = j.label
            g.update({x: j.kw[x] for x in ('impl', 'k', 'op') if x in j.kw})
            g['directed'] = j.rec.directed
            fails.append(g)
        unk += [dict(u, job=j.label) for u in j.rec.unknown]
    vio = None
    if fails:
        vio = P['confirm'](fails, tier, seed, t0 + limit - 60) if P.get('confirm') else None
        if vio is None:
            vio = dict(type='obligation', found=False)
        vio.update(property=pid, tier=tier, failed=[{k: v for k, v in f.items() if k not in ('directed', 'cex')} for f in fails[:40]])
        path = os.path.join(REPL, '%s-%s.json' % (pid, tier))
        with open(path, 'w') as f:
            json.dump(vio, f, indent=1, default=enc)
    wall = time.time() - t0
    # evidence
    by = {}
    for n, s, b, c in allrec.obl:
        d = by.setdefault(b or 'none', dict(discharged=0, failed=0, undecided=0))
        d['discharged' if s == 'proved' else 'failed' if s == 'failed' else 'undecided'] += c
    tot = sum(c for _, s, _, c in allrec.obl)
    dis = sum(c for _, s, _, c in allrec.obl if s == 'proved')
    named = sorted({n for n, s, b, c in allrec.obl if s == 'proved'})
    ev = dict(property=pid, tier=tier, seed=seed, level=P['level'],
              coverage=dict(obligations=tot, discharged=dis, checker_cmd='bin/check %s %s' % (pid, tier),
                            trusted_base=TRUSTED, named_obligations=len(named), by_backend=by,
                            statistics=allrec.stats, solver_seconds={k: round(v, 2) for k, v in allrec.secs.items()},
                            functions_under_contract={k: sorted(v) for k, v in sorted(allrec.funcs.items())},
                            functions_executed_in_callers={k: sorted(v) for k, v in sorted(allrec.inl.items())},
                            obligation_names=named[:400],
                            undecided=unk[:50], bounded=summarise(allrec.bounded),
                            jobs=[dict(job=j.label, status=j.status, seconds=round(j.secs, 1)) for j in jobs]),
              assumptions=P['assumptions'] + sorted(allrec.assume), wall_s=round(wall, 1),
              violations=1 if fails else 0)
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, '.%s.json.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=enc)
    os.rename(tmp, os.path.join(EVID, pid + '.json'))
    print('%s (%s): %d obligations, %d discharged, %d failed, %d undecided; %d functions under contract; %.0f s' % (
        pid, tier, tot, dis, sum(1 for f in fails), len(unk), len(allrec.funcs), wall))
    for b in summarise(allrec.bounded)[:12]:
        print('  bounded: %s' % b)
    for u in unk[:20]:
        print('  undecided: %s -- %s' % (u['name'], str(u['why'])[:1500 if 'engine error' in str(u['why']) else 300]))
    if known(pid):
        for l in known(pid):
            print(l)
    if not fails:
        return 0
    for f in fails[:12]:
        print('  failed: %s -- %s' % (f['name'], str(f['why'])[:400]))
    if vio.get('text'):
        print('  ' + vio['text'])
    print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if vio.get('found') else ' no-failing-input-found'))
    return 1


def summarise(b):
    d = {}
    for what, n in b:
        d[what] = d.get(what, 0) + n
    return ['%s: %d cases' % x for x in sorted(d.items())]


def known(pid):
    """KNOWN-FINDING lines for open (not fixed) findings of this property"""
    p = os.path.join(ROOT, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('KNOWN-FINDING: property=%s ' % pid):
                out.append(l)
    return out


def enc(o):
    import numpy as np
    if isinstance(o, bytes):
        return {'hex': o.hex()}
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, set):
        return sorted(o)
    return str(o)


def dec(o):
    if isinstance(o, dict):
        if set(o) == {'hex'}:
            return bytes.fromhex(o['hex'])
        return {k: dec(v) for k, v in o.items()}
    if isinstance(o, list):
        return [dec(x) for x in o]
    return o


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
