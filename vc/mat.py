"""gen_matrix: every entry is SampleNTT of its stream, for every seed and any number of squeezed blocks.

The real gen_matrix runs over the contracts of the Keccak permutation and of rej_uniform /
rej_uniform_avx; everything else (absorb, squeeze, loops, buffers, unpacking) is the code itself.
Ghost symbols per stream s=(x,y) = SHAKE128(seed||x||y):
   st(s,n)      Keccak state after n+1 permutations (block n of the stream is its first 168 bytes)
   cnt(s,B)     min(256, number of candidates below q in blocks 0..B-1)
   accU(s,i,B)  r[i] after B blocks: entry i of A(s) if i < cnt(s,B), unspecified otherwise
   A(s,i)       entry i of SampleNTT(seed||x||y)
A branch deciding cnt(s,B) = 256 turns accU(s,i,B) into A(s,i) on that side.  The squeeze loops are
closed by induction: the state at the loop body is generalised over B (blocks so far) and over the
buffers, and re-established by the body."""
import time
import numpy as np
from . import term as t, poly, leaf, spec, contracts as C, proto, rej
from .term import T, Vec, UNDEF, SECRET
from .execu import X, Violation, Aborted, short
from .ir import Unsupported

Q = 3329
BB = 1000        # block numbers from here on are relative to an arbitrary number of blocks


def rej_inst(w, fn, f, kind, buflen):
    def go(inst):
        N, foot, stats = rej.run_rej(w, fn, f, kind, buflen)
        inst.N = N
        inst.rd = foot
        inst.stats = stats
        inst.backend['accepted candidates kept in order, exact count (inductive ghost count, enumerated lemmas)'] = stats['merges'] + stats['finals']
        inst.backend['compaction lemma instances'] = stats['lemmas']
    return w.inst((fn, buflen), fn, go)


class M:
    def __init__(self, w, pr, transposed):
        self.w = w
        self.pr = pr
        self.tr = transposed
        self.k = w.k
        self.stats = dict(paths=0, merges=0, widened=0)

    def run(self, fname, deadline=240):
        w, k = self.w, self.k
        x = X(w.prog)
        self.end = time.time() + deadline
        al = leaf.palign(w.prog)
        a = x.new(512 * k * k, al, 'a')
        seed = x.new(32, 1, 'seed', ro=True)
        self.seed = [t.var('seed%d' % i, 8) for i in range(32)]
        for i, v in enumerate(self.seed):
            seed.cells[i] = (v, 1)
            seed.own[i] = i
        self.init = {}
        for sx in range(k):
            for sy in range(k):
                m = self.seed + [sx, sy, 0x1f] + [0] * (168 - 35)
                m[-1] = 0x80
                lanes = [t.cat([(b, 8) for b in m[8 * i:8 * i + 8]]) for i in range(21)] + [0] * 4
                self.init[tuple(v if type(v) is int else ('t', v.id) for v in lanes)] = (sx, sy)
        H = {}
        for nm, (lanes, ok, leaks) in proto.kperms(w).items():
            H[nm] = self.perm(nm, lanes, ok)
        for m in w.prog.mods:
            for f in m.funcs.values():
                s = short(f.name)
                if s == 'rej_uniform' and [p[0] for p in f.params] == [('i', 64), ('i', 32), ('i', 64), ('i', 32)]:
                    H[s] = self.rejh(s, f, 'len')
                if s == 'rej_uniform_avx' and len(f.params) == 2:
                    H[s] = self.rejh(s, f, 'avx')
        x.contracts = H
        self.fname = fname
        f = w.prog.funcs[fname]
        x.push(f, [a.base, seed.base, self.tr], -1)
        self.seen = {}
        work = [x]
        finals = []
        while work:
            x = work.pop()
            self.stats['paths'] += 1
            x.deadline = self.end
            r = x.step_until_fork()
            if r is None:
                finals.append(x)
                continue
            c, et, ef = r
            s, B, lt = self.cntcond(c, x)
            y = x.clone()
            # side where cnt(s,B) = 256
            self.promote(y, s, B)
            y.take(ef if lt else et)
            work.append(y)
            x.take(et if lt else ef)
            x = self.merge(x)
            if x is not None:
                work.append(x)
        for x in finals:
            o = [q for q in x.mem.values() if q.name == 'a'][0]
            for i in range(k):
                for j in range(k):
                    s = (i, j) if self.tr else (j, i)
                    for p in range(256):
                        v = x.load(o.base + 512 * (k * i + j) + 2 * p, 2)
                        if v is not self.A(s, w.pi[p]):
                            raise Violation('value', 'entry (%d,%d) coefficient %d is %s, not element %d of SampleNTT(seed,%d,%d)'
                                            % (i, j, p, t.show(v, 2), w.pi[p], s[0], s[1]), 'gen_matrix')
        if not finals:
            raise Unsupported('no path returns')
        self.finals = len(finals)
        return finals

    # ------------------------------------------------ symbols
    def st(self, s, n, i):
        return t.uf('st', 64, (s, n, i))

    def cnt(self, s, B):
        return t.uf('cnt', 32, (s, B), info=dict(lo=0, hi=256), mb=0x1ff)

    def acc(self, s, i, B):
        return t.uf('accU', 16, (s, i, B), info=dict(lo=0, hi=4095))

    def A(self, s, i):
        return t.uf('Ae', 16, (s, i), info=dict(lo=0, hi=Q - 1), mb=0xfff)

    def perm(self, nm, lanes, ok):
        def h(x, args):
            if not ok:
                i = C.Inst('%s %s' % (self.w.cfg, nm), nm)
                i.status = 'failed' if ok is False else 'unknown'
                i.why = 'the permutation is not established'
                raise C.ContractFailure(i)
            a = args[0]
            C.need_align(x, a, 32 if lanes == 4 else 8, nm)
            st = [[x.load(a + 8 * (lanes * i + l), 8) for i in range(25)] for l in range(lanes)]
            for l in range(lanes):
                v = st[l]
                for z in v:
                    if t.flags(z) & UNDEF:
                        raise Violation('uninit', '%s permutes an uninitialised state' % nm, x.where())
                s = self.init.get(tuple(z if type(z) is int else ('t', z.id) for z in v))
                n = 0
                if s is None and type(v[0]) is T and v[0].op == 'uf' and v[0].p[0] == 'st':
                    s0, n0, i0 = v[0].p[1]
                    if i0 == 0 and all(v[i] is self.st(s0, n0, i) for i in range(25)):
                        s, n = s0, n0 + 1
                if s is None:
                    out = proto.kperm(self.pr, v)
                else:
                    out = [self.st(s, n, i) for i in range(25)]
                for i, z in enumerate(out):
                    x.store(a + 8 * (lanes * i + l), z, 8)
        return h

    # ------------------------------------------------ rejection sampling contract
    def table(self, v, w):
        """cnt symbol a term is a function of, and its values for cnt=0..256"""
        sup = t.support(v)
        if len(sup) != 1:
            raise Unsupported('argument ' + t.show(v, 3))
        c, = sup
        if c.op != 'uf' or c.p[0] != 'cnt':
            raise Unsupported('argument ' + t.show(v, 3))
        val = np.broadcast_to(t.npeval([v], {c: np.arange(257, dtype=np.uint64)})[v], (257,))
        return c, val

    def stream(self, x, buf, n):
        """stream and first block of n bytes at buf"""
        b0 = x.load(buf, 1)
        bad = Violation('value', 'rejection sampling reads bytes that are not the stream of its entry', x.where())
        if type(b0) is int or b0.op != 'ext' or b0.a[0].op != 'uf' or b0.a[0].p[0] != 'st':
            raise bad
        s, blk, i = b0.a[0].p[1]
        for q in range(n):
            b, o = divmod(q, 168)
            if x.load(buf + q, 1) is not t.ext(self.st(s, blk + b, o // 8), 8 * (o % 8), 8, 64):
                raise bad
        return s, blk

    def rejh(self, fn, f, kind):
        def h(x, args):
            if kind == 'len':
                r, ln, buf, buflen = args
                if type(buflen) is not int:
                    raise Unsupported('symbolic buffer length')
            else:
                r, buf = args
                ln, buflen = 256, None
            if type(buf) is not int:
                raise Unsupported('symbolic buffer')
            if kind == 'len' and type(ln) is int and ln == 0:
                return 0
            i = rej_inst(self.w, fn, f, kind, buflen)
            nb = i.N * 3 // 2
            if kind == 'len' and nb != buflen or nb % 168:
                raise Unsupported('buffer is not a whole number of blocks')
            x.obj(buf, i.rd, 'read (in %s)' % fn)
            if kind == 'avx' and type(r) is int:
                C.need_align(x, r, 2, fn)
            if type(ln) is int:
                if ln != 256 or type(r) is not int:
                    raise Unsupported('requested length %d' % ln)
                base = r
                s, blk = self.stream(x, buf, nb)
                if blk != 0:
                    raise Violation('value', 'sampling starts at block %d of the stream' % blk, x.where())
                B = 0
                old = 0
            else:
                c, lv = self.table(ln, 32)
                if type(r) is int:
                    raise Violation('value', 'continuation overwrites the start of the polynomial', x.where())
                c2, rv = self.table(r, 64)
                ks = np.arange(257, dtype=np.int64)
                base = int(rv[0])
                if c is not c2 or not (rv.astype(np.int64) == base + 2 * ks).all():
                    raise Violation('value', 'continuation does not append to the accepted coefficients', x.where())
                if not (lv.astype(np.int64) == 256 - ks).all():
                    raise Violation('memory', 'requested length does not match the space left', x.where())
                s0, B = c.p[1]
                s, blk = self.stream(x, buf, nb)
                if s != s0 or blk != B:
                    raise Violation('value', 'continuation consumes block %d of stream %s, expected block %d of stream %s'
                                    % (blk, s, B, s0), x.where())
                for q in range(256):
                    if x.load(base + 2 * q, 2) is not self.acc(s, q, B):
                        raise Violation('value', 'accepted prefix was overwritten', x.where())
                old = c
            x.obj(base, 512, 'write (in %s)' % fn)
            B2 = B + nb // 168
            for q in range(256):
                x.store(base + 2 * q, self.acc(s, q, B2), 2)
            n = self.cnt(s, B2)
            return n if type(old) is int else t.sub(n, old, 32)
        return h

    # ------------------------------------------------ branching and generalisation
    def cntcond(self, c, x):
        cc, val = self.table(c, 1)
        s, B = cc.p[1]
        v = val.astype(bool)
        if v[:256].all() and not v[256]:
            return s, B, True
        if not v[:256].any() and v[256]:
            return s, B, False
        raise Unsupported('branch on ' + t.show(c, 3))

    def rename(self, x, f):
        """apply a symbol renaming to every register and cell"""
        memo = {}

        def g(v):
            if type(v) is int:
                return v
            if type(v) is Vec:
                return Vec(v.ew, [g(z) for z in v.l])
            if type(v) is not T:
                return v
            r = memo.get(v)
            if r is None:
                env = {}
                for q in t.support(v):
                    n = f(q)
                    if n is not q:
                        env[q] = n
                r = t.subst([v], env)[0] if env else v
                memo[v] = r
            return r
        for fr in x.frames:
            fr.R = [g(v) for v in fr.R]
        for oid, o in list(x.mem.items()):
            if o.ro or o.tag == 'const':
                continue
            ch = [(k, g(v), n) for k, (v, n) in o.cells.items() if type(v) is T and g(v) is not v]
            if ch:
                o = x.wobj(o)
                for k, v, n in ch:
                    o.cells[k] = (v, n)

    def promote(self, x, s, B):
        cn = self.cnt(s, B)

        def f(q):
            if q is cn:
                return 256
            if q.op == 'uf' and q.p[0] == 'accU' and q.p[1][0] == s and q.p[1][2] == B:
                return self.A(s, q.p[1][1])
            return q
        self.rename(x, f)

    def merge(self, x):
        """generalise over the number of blocks; None if the state is already covered"""
        live = []
        for d, fr in enumerate(x.frames):
            for r in fr.f.live[fr.seg]:
                if fr.R[r] is not None:
                    live.append((d, r, fr.R[r]))
        act = {}
        for d, r, v in live:
            if type(v) is T:
                for q in t.support(v):
                    if q.op == 'uf' and q.p[0] == 'cnt':
                        s, B = q.p[1]
                        if act.setdefault(s, B) != B:
                            raise Unsupported('two counts of one stream')
        held = []
        for oid, o in sorted(x.mem.items()):
            if o.ro or o.tag == 'const':
                continue
            for k2, (v, n) in sorted(o.cells.items()):
                if type(v) is T and any(q.op == 'uf' and q.p[0] == 'cnt' for q in t.support(v)):
                    held.append((oid, k2))
                    for q in t.support(v):
                        if q.op == 'uf' and q.p[0] == 'cnt':
                            s, B = q.p[1]
                            if act.setdefault(s, B) != B:
                                raise Unsupported('two counts of one stream')
        if not act:
            raise Unsupported('no live counter')
        mx = max(act.values())
        if min(act.values()) != mx:
            raise Unsupported('streams at different blocks')
        delta = BB - mx
        # streams whose Keccak state is at the last block move along
        grp = set(act)
        for o in x.mem.values():
            if o.ro:
                continue
            for v, n in o.cells.values():
                if type(v) is T and v.op == 'uf' and v.p[0] == 'st' and v.p[1][1] == mx - 1:
                    grp.add(v.p[1][0])

        def f(q):
            if q.op == 'uf' and q.p[0] in ('st', 'cnt') and q.p[1][0] in grp:
                if q.p[0] == 'st':
                    s, n, i = q.p[1]
                    return self.st(s, n + delta, i)
                s, n = q.p[1]
                return self.cnt(s, n + delta)
            if q.op == 'uf' and q.p[0] == 'accU' and q.p[1][0] in grp:
                s, i, n = q.p[1]
                return self.acc(s, i, n + delta)
            return q
        if delta:
            self.rename(x, f)
        key = []
        lv = []
        for d, fr in enumerate(x.frames):
            key.append((id(fr.f), fr.seg))
            for r in fr.f.live[fr.seg]:
                v = fr.R[r]
                if v is not None:
                    key.append((r, rej.vkey(v)))
        for oid, k2 in held:
            key.append((oid, k2, rej.vkey(x.mem[oid].cells[k2][0])))
        key = (tuple(key), tuple(sorted(x.mem)))
        self.stats['merges'] += 1
        old = self.seen.get(key)
        if old is None:
            self.seen[key] = x.clone()
            return x
        # widen
        changed = False
        for oid in old.mem:
            a, b = old.mem[oid], x.mem[oid]
            if a is b or a.ro:
                continue
            bad = set()
            for q in range(a.size):
                pass_ = None
            for k in set(a.cells) | set(b.cells):
                ca, cb = a.cells.get(k), b.cells.get(k)
                if ca is not None and cb is not None and ca[1] == cb[1] and (ca[0] is cb[0] or (type(ca[0]) is int and type(cb[0]) is int and ca[0] == cb[0])):
                    continue
                if ca is not None and self.isvar(ca, oid, k) and cb is not None and cb[1] == ca[1]:
                    fl = t.flags(cb[0])
                    if not fl & ~t.flags(ca[0]):
                        continue
                if ca is not None and cb is not None and ca[1] == cb[1]:
                    bad.add((k, ca[1], t.flags(ca[0]) | t.flags(cb[0])))
                else:
                    for c in (ca, cb):
                        if c is not None:
                            for z in range(k, k + c[1]):
                                bad.add((z, 1, UNDEF))
            if bad:
                changed = True
                self.stats['widened'] += len(bad)
                o = old.wobj(a)
                for k, n, fl in sorted(bad):
                    v = t.var('hv:%d:%d:%d%s' % (oid, k, n, 'u' if fl & UNDEF else ''), 8 * n, undef=bool(fl & UNDEF))
                    old.store_raw(o, k, v, n) if False else self.put(old, o, k, v, n)
        if not changed:
            return None
        if time.time() > self.end:
            raise Unsupported('time limit')
        return old.clone()

    def isvar(self, c, oid, k):
        v = c[0]
        return type(v) is T and v.op == 'var' and v.p.startswith('hv:%d:%d:%d' % (oid, k, c[1]))

    def put(self, x, o, k, v, n):
        ro = o.ro
        o = x.wobj(o)
        x.store(o.base + k, v, n)


def verify_matrix(w, tr):
    """Inst body for gen_matrix(.., tr)"""
    def go(inst):
        pr = C.Proto(w)
        m = M(w, pr, tr)
        nm = w.prog.find('gen_matrix')
        if nm is None or nm not in w.prog.funcs:
            raise Unsupported('no function gen_matrix')
        fs = m.run(nm)
        inst.stats = m.stats
        inst.backend['matrix entries = SampleNTT of their stream (induction over squeezed blocks)'] = w.k * w.k * 256 * len(fs)
        inst.backend['generalised loop states'] = len(m.seen)
        inst.leaks = []
    return go


def matrix(w, tr):
    return w.inst(('gen_matrix', int(tr)), 'gen_matrix', verify_matrix(w, int(tr)))
