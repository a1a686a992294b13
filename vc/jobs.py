"""Units of work of the checks.  Each job verifies some contracts of one configuration and returns a Rec."""
import time, random, os
import numpy as np
from . import term as t, execu, poly, spec, leaf, build, keccak, smt, contracts as C, proto
from .term import T, SECRET, UNDEF
from .execu import X, Violation, Aborted, short
from .ir import Unsupported

Q = 3329


def world(impl, k, rec):
    p = build.prog(impl, k)
    return C.World(p, rec)


def opname(op):
    return {'keygen': 'crypto_kem_keypair_derand', 'enc': 'crypto_kem_enc_derand', 'dec': 'crypto_kem_dec'}[op]


def guarded(rec, name, f):
    """run f; classify what stops it"""
    try:
        return f()
    except C.ContractFailure as e:
        # the failed instance is already recorded (failed or unknown)
        rec.stopped.append((name, e.inst.name, e.inst.status))
        if not any(n == e.inst.name for n, *_ in rec.obl):
            if e.inst.status == 'failed':
                rec.bad(e.inst.name, 'contract', e.inst.why)
            else:
                rec.unk(e.inst.name, e.inst.why)
        rec.unk(name, 'rests on %s, which is %s' % (e.inst.name, e.inst.status))
    except Violation as e:
        rec.bad(name, 'execution', str(e), kind='safety:' + e.kind)
    except Aborted:
        rec.bad(name, 'execution', 'abort() is reached')
    except Unsupported as e:
        rec.unk(name, 'unsupported: ' + str(e))
    except RecursionError:
        rec.unk(name, 'unsupported: recursion')
    return None


def directed(roots, ins, x=None, pr=None):
    """inputs that drive conditions met during execution or found in the result terms both ways
    (z3 models over the operation's inputs)"""
    res = []
    roots = list(roots)
    if pr is not None:
        for k in pr.keys:
            if k[0] == 'kf':
                roots += [v for v in k[1] if type(v) is T]
    leaves = {}
    for nm, o, vs in ins:
        for i, v in enumerate(vs):
            if type(v) is T:
                leaves[v] = (nm, i)
    conds = []
    t0 = time.time()
    base = {nm: bytes((i * 7 + 3) & 255 for i in range(len(vs))) for nm, o, vs in ins}
    from . import fast
    kk = next((q for q in (2, 3, 4) for nm, o, vs in ins if (nm, len(vs)) in (('pk', spec.sizes(q)['pk']), ('ct', spec.sizes(q)['ct']))), 2)
    hp, hs = fast.keygen(bytes(range(64)), kk)
    honest = dict(base)
    honest.update({nm: b for nm, b in (('pk', hp), ('sk', hs), ('ct', fast.encaps(hp, bytes(range(32)), kk)[0])) if nm in base and len(b) == len(base[nm])})

    def try_(cs):
        sup = frozenset().union(*[t.support(c) for c in cs if type(c) is T])
        if not sup or len(sup) > 64 or not all(v in leaves for v in sup):
            return
        m = smt.model(cs, 5)
        if m:
            for b0 in (base, honest):
                d = {nm: bytearray(b) for nm, b in b0.items()}
                for v, val in m.items():
                    if v in leaves and v in sup:
                        nm, i = leaves[v]
                        d[nm][i] = val & 255
                d = {nm: bytes(b) for nm, b in d.items()}
                if d not in res:
                    res.append(d)
    if x is not None:
        for path, c in x.forkconds:
            if time.time() - t0 > 60 or len(res) > 64:
                break
            # the part of the path that speaks about inputs only
            p = [q for q in path if all(v in leaves for v in t.support(q))]
            try_(p + [c])
            try_(p + [t.xor(c, 1, 1)])
    for y in t.topo([r for r in roots if type(r) is T]):
        if y.op == 'ite' and type(y.a[0]) is T:
            conds.append(y.a[0])
        elif y.op in ('eq', 'ult', 'slt') and len(conds) < 4000:
            conds.append(y)
    seen = set()
    for c in conds:
        if c in seen or len(res) > 128 or time.time() - t0 > 90:
            continue
        seen.add(c)
        try_([c])
        try_([t.xor(c, 1, 1)])
    return res


def op_obligations(w, r, rec, name):
    n, bad, dt = leaf.check_obls(r.x, r.pr.ctx, rec, name)
    if n - len(bad):
        rec.ok(name + ': no signed overflow, shifts in range', 'interval of integer polynomial', n - len(bad), dt)
    if not w.ub:
        if bad:
            rec.assume.add('signed overflow, where it cannot be excluded, wraps (decided by C05 and C07)')
        return
    from .safety import violating
    for op, a, b, wd, loc in bad[:5]:
        asg, exact = violating((op, a, b, wd, loc))
        if asg is None and exact:
            rec.ok(name + ': no signed overflow at %s' % loc, 'enumeration')
        else:
            rec.unk(name + ': no signed overflow at %s' % loc, 'cannot exclude overflow of %s (i%d)%s' % (op, wd, ', reached for some value of its operands taken as free' if asg else ''))


def pieces(k, nm):
    z = spec.sizes(k)
    n = 384 * k
    P = spec.PARAMS[k]
    if nm == 'pk':
        return [('t', 0, n), ('rho', n, n + 32)]
    if nm == 'sk':
        return [('s', 0, n), ('pk', n, 2 * n + 32), ('H(pk)', 2 * n + 32, 2 * n + 64), ('z', 2 * n + 64, 2 * n + 96)]
    if nm == 'ct':
        m = 32 * P['du'] * k
        return [('u', 0, m), ('v', m, z['ct'])]
    return [(nm, 0, 32)]


def stateful(rec, w, op, name, names):
    """the operation writes objects of static storage: it must compute the same whatever they hold at the start"""
    on = '%s: the result does not depend on what earlier calls left in %s' % (name, ', '.join(names))
    for o in w.prog.objs.values():
        if o.tag == 'global' and o.name in names:
            for i in range(o.size):
                o.cells[i] = (t.var('static %s[%d]' % (o.name, i), 8), 1)
                o.own[i] = i
    try:
        r = proto.run_op(w, op)
    except C.ContractFailure as e:
        rec.unk(on, 'rests on %s, which is %s' % (e.inst.name, e.inst.status))
        return
    except (Violation, Aborted) as e:
        rec.bad(on, 'symbolic execution', str(e), kind='state')
        return
    except Unsupported as e:
        rec.unk(on, 'unsupported: ' + str(e))
        return
    for nm, d in r.bad:
        rec.bad(on, 'ghost-term identity', '%s byte %d' % (nm, d[0]), kind='state')
        return
    rec.ok(on, 'ghost-term identity')


def job_op(rec, impl, k, op):
    """operation = FIPS 203 for every input (C01, C02, C03)"""
    w = world(impl, k, rec)
    name = '%s %s' % (w.cfg, opname(op))
    rec.directed = []

    def go():
        r = proto.run_op(w, op)
        rec.func(opname(op), w.cfg)
        for s in sorted(r.x.inlined):
            rec.inl.setdefault(s, set()).add(w.cfg)
        for s in r.x.calls:
            rec.func(s, w.cfg)
        if r.ret != 0:
            rec.bad(name + ' returns 0', 'symbolic execution', 'returns %s' % (r.ret if type(r.ret) is int else t.show(r.ret, 3)))
        else:
            rec.ok(name + ' returns 0', 'symbolic execution')
        allbad = dict(r.bad)
        for nm, got, want in r.outs:
            d = set(allbad.get(nm, []))
            for pn, a, b in pieces(k, nm):
                dd = [i for i in range(a, b) if i in d]
                on = '%s: %s%s bytes %d..%d equal FIPS 203' % (name, nm, '.' + pn if pn != nm else '', a, b - 1)
                if dd:
                    rec.bad(on, 'ghost-term identity', 'byte %d: code computes %s, specification %s' % (
                        dd[0], t.show(got[dd[0]], 4)[:300] if type(got[dd[0]]) is T else got[dd[0]],
                        t.show(want[dd[0]], 4)[:300] if type(want[dd[0]]) is T else want[dd[0]]))
                else:
                    rec.ok(on, 'ghost-term identity', b - a)
        # inputs unchanged is the read-only frame of the executor
        rec.ok(name + ': inputs unchanged, nothing else written', 'frame check during execution')
        op_obligations(w, r, rec, name)
        if any(s == 'failed' for _, s, *_ in rec.obl):
            rec.directed = directed([b for _, g, _ in r.outs for b in g], r.ins, r.x, r.pr)
        return r
    from . import execu
    execu.GW.clear()
    guarded(rec, name + ' = FIPS 203', go)
    if execu.GW:
        stateful(rec, w, op, name, sorted(execu.GW))
    if rec.stopped or rec.unknown or rec.fail:
        # terms for directed inputs even when a contract failed
        pass


def job_equiv(rec, k, op):
    """ref = avx2, directly (C04)"""
    wr, wa = world('ref', k, rec), world('avx2', k, rec)
    name = 'K=%d %s: ref = avx2' % (k, opname(op))
    rec.directed = []

    def go():
        r = proto.run_op(wr, op)
        pr = C.Proto(wa)
        pr.keys = r.pr.keys
        pr.public = r.pr.public
        s = proto.run_op(wa, op, pr)
        for x in (r, s):
            for f in x.x.calls:
                rec.func(f, x.w.cfg)
            rec.func(opname(op), x.w.cfg)
        if r.ret is not s.ret and r.ret != s.ret:
            rec.bad(name + ' (return value)', 'ghost-term identity', 'ref returns %s, avx2 %s' % (r.ret, s.ret))
        for (nm, a, _), (_, b, _) in zip(r.outs, s.outs):
            d = proto.diff(a, b)
            if d:
                rec.bad('%s: %s' % (name, nm), 'ghost-term identity', 'byte %d: ref computes %s, avx2 %s' % (
                    d[0], t.show(a[d[0]], 3)[:300] if type(a[d[0]]) is T else a[d[0]], t.show(b[d[0]], 3)[:300] if type(b[d[0]]) is T else b[d[0]]))
                rec.directed = directed(a + b, r.ins, r.x, r.pr) + directed([], s.ins, s.x, s.pr)
            else:
                rec.ok('%s: %s' % (name, nm), 'ghost-term identity', len(a))
    guarded(rec, name, go)
