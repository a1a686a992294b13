"""verify and cmov for every length (C15): the loop invariant is inferred from two successive loop heads and checked.
A register that is neither a counter nor a pointer is an accumulator: its meaning is the ghost fact "all bytes so far
agree", carried by an invariant that z3 shows inductive."""
import time, random, ctypes
from . import term as t, hashing as HS, smt, native, search
from .term import T, UNDEF
from .execu import Vec, Violation, Aborted
from .ir import Unsupported
from .hashing import Refuted, SymLen, DivLen, L, LMAX, lin2

B = t.var('flag', 8, lo=0, hi=1, secret=True)


class XC(HS.XS):
    """with a stream that is read and written in place"""
    def stream(self, kind, name):
        b = HS.XS.stream(self, 'out' if kind == 'io' else kind, name)
        return b

    def load(self, addr, n, al=1):
        s = self.sat(addr)
        if s is None or s[0][0] != 'out':
            return HS.XS.load(self, addr, n, al)
        (kind, name, base), off = s
        if al > 1:
            raise Violation('alignment', 'aligned read of a byte buffer', self.where())
        d = self.out[name]
        if off + n > self.rd.get('io', 0):
            self.rd['io'] = off + n
        return t.cat([(d[off + i] if off + i in d else self.inb(name, off + i), 8) for i in range(n)])


class Sel(HS.Fn):
    count = 0

    def __init__(self, w, fname, mode=0):
        HS.Fn.__init__(self, w, None, fname, 'once', 1)
        self.mode = mode
        self.is_v = fname == 'verify'
        self.queries = 0

    def mkx(self, S, p):
        x = XC(self.w.prog)
        x.unit = self.unit
        x.pow2 = True
        x.steps = 0
        x.deadline = self.end
        ln = L
        if self.tail is not None:
            x.tail = self.tail
            x.mset = [(0, LMAX // self.unit - 1)]
            ln = t.add(t.mul(L, self.unit, 64), self.tail, 64)
        if self.fix is not None:
            ln = self.fix
            x.mset = [(ln, ln)]
            x.deadline = min(self.end, time.time() + 4)
        self.p0 = None
        self.S0 = None
        self.dummy = x.new(200, 8, 'ghost state').base
        if self.is_v:
            args = [x.stream('in', 'in0'), x.stream('in', 'in1'), ln]
        else:
            args = [x.stream('io', 'out0'), x.stream('in', 'in0'), ln, B]
        f = self.w.prog.funcs.get(self.w.name(self.fname))
        if f is None:
            raise Unsupported('no function ' + self.fname)
        x.push(f, args, -1)
        return x

    # relation
    def amount(self, x):
        if self.is_v:
            return max(x.rd.values())
        d = x.out['out0']
        return max(d) + 1 if d else 0

    def pos(self, x, c):
        return 0

    def start(self, x):
        return None, 0

    def expect(self, x, c):
        return [], 0, None

    def findstate(self, x, lanes):
        return self.dummy

    def eqs(self, x, c):
        r = 1
        for j in range(c):
            r = t.and_(r, t.eq(x.inb('in0', j), x.inb('in1', j), 8), 1)
        return r

    def checkout(self, x, c, out):
        if self.is_v:
            if len(set(x.rd.values())) > 1:
                return 'the buffers are not read to the same length'
            return None
        d = x.out['out0']
        if set(d) != set(range(c)):
            ex = sorted(set(d) ^ set(range(c)))
            return 'bytes written are not exactly the first %d (first difference at %d)' % (c, ex[0])
        if max(x.rd.values()) > c:
            return 'reads past the first %d bytes' % c
        for j in range(c):
            for bv in (0, 1):
                g = t.subst([d[j]], {B: bv})[0]
                e = x.inb('in0', j) if bv else x.inb('out0', j)
                if g is not e:
                    self.queries += 1
                    st, m = smt.equal(g, e, 8, 30)
                    if st != 'unsat':
                        self.cex = (c, bv, {v.p: q for v, q in (m or {}).items()}) if st == 'sat' else None
                        return 'byte %d with flag %d is %s' % (j, bv, t.show(g, 3) if type(g) is T else g)
        return None

    # accumulators
    def infer(self, x, k, q, v2, v3, sb):
        self.new = []
        Sel.count += 1
        G = HS.Fn.infer(self, x, k, q, v2, v3, sb)
        if G is None:
            return None
        G.acc = self.new
        G.E = t.var('E%d' % Sel.count, 1)
        hv = {h for h, _, _, _ in self.new}
        G.accreg = {(d, r): e for d, r, e in G.regs if (type(e) is T and e in hv) or (type(e) is Vec and any(type(z) is T and z in hv for z in e.l))}
        return G

    def gen1(self, G, a, b, rw, rest):
        e = HS.Fn.gen1(self, G, a, b, rw, rest)
        if e is not None or type(a) is Vec or type(b) is Vec or type(b) is not T or not self.is_v:
            return e
        w = b.w
        h = t.var('H%d_%d' % (Sel.count, len(self.new)), w, secret=True)
        # value when everything agrees; bits that can be set
        env = {v: t.var(v.p.replace('in1', 'in0'), 8) for v in t.support(b) if 'in1' in str(v.p)}
        v0 = t.subst([b], env)[0]
        if type(v0) is not int:
            return None
        rnd = random.Random(5)
        m = v0
        sup = t.support(b)
        for _ in range(24):
            v = t.subst([b], {s: rnd.getrandbits(s.w) for s in sup})[0]
            m |= v if type(v) is int else 0
        if type(a) is int:
            m |= a
        self.new.append((h, v0, m, w))
        return h

    def rel(self, G, vals, E):
        r = 1
        al = 1
        for (h, v0, m, w), v in zip(G.acc, vals):
            q = t.eq(v, v0, w)
            al = t.and_(al, q, 1)
            if m != (1 << w) - 1:
                r = t.and_(r, t.eq(t.and_(v, ((1 << w) - 1) ^ m, w), 0, w), 1)
            if self.mode == 1:
                r = t.and_(r, t.xor(t.xor(q, E, 1), 1, 1), 1)
        if self.mode == 0:
            r = t.and_(r, t.xor(t.xor(al, E, 1), 1, 1), 1)
        return r

    def context(self, x):
        """(assumption, ghost fact) at the start of the region"""
        if x.g is None:
            return 1, 1
        return self.rel(x.g, [h for h, _, _, _ in x.g.acc], x.g.E), x.g.E

    def prove(self, a, b):
        g = t.or_(t.xor(a, 1, 1), b, 1)
        if g == 1:
            return 'unsat', None
        self.queries += 1
        return smt.equal(g, 1, 1, 20)

    def instance(self, x, G, regs, c, sb):
        real = {(d, r): v for d, r, v in regs}
        if any(k not in real for k in G.accreg):
            return 'different live registers'
        why = HS.Fn.instance(self, x, G, [(d, r, G.accreg.get((d, r), v)) for d, r, v in regs], c, sb)
        if why is not None or not G.acc:
            return why
        vals = {}
        for k, e in G.accreg.items():
            v = real[k]
            if type(e) is Vec:
                if type(v) is not Vec:
                    return 'accumulator shape'
                v = t_relane(v, e.ew)
                for p, q in zip(e.l, v):
                    vals[p] = q
            else:
                vals[e] = v
        for h, _, _, w in G.acc:
            if h not in vals or type(vals[h]) is T and vals[h].w != w:
                return 'accumulator'
        a, E = self.context(x)
        st, m = self.prove(a, self.rel(G, [vals[h] for h, _, _, _ in G.acc], t.and_(E, self.eqs(x, c), 1)))
        return None if st == 'unsat' else 'accumulator invariant: ' + st

    def final(self, x):
        c = self.amount(x)
        off = x.g.off if x.g is not None else 0
        n, bad = divmod(c + off - (self.tail or 0), self.unit)
        self.cex = None
        if x.mset != [(n, n)] or bad:
            n = next((v for a, b in x.mset for v in (a, b) if v * self.unit + (self.tail or 0) != c + off), 0)
            self.cex = None
            self.refute(x, 'of %d bytes, %d are looked at' % (n * self.unit + (self.tail or 0), c), n)
        if c > 3000:
            raise Unsupported('content at %d bytes' % c)
        wv = self.checkout(x, c, None)
        if wv:
            self.refute(x, wv, n)
        if not self.is_v:
            return
        r = x.result
        if type(r) is T and r.fl & UNDEF:
            self.refute(x, 'the result depends on uninitialised memory', n)
        a, E = self.context(x)
        want = t.zext(t.xor(t.and_(E, self.eqs(x, c), 1), 1, 1), 1, 32)
        st, m = self.prove(a, t.eq(r, want, 32))
        if st == 'unknown':
            raise Unsupported('z3: unknown')
        if st == 'sat':
            env = {v.p: q for v, q in m.items()}
            A = [env.get('in0:%d' % j, 0) for j in range(c)]
            Bb = [env.get('in1:%d' % j, 0) for j in range(c)]
            self.cex = dict(fn='verify', args=[dict(kind='bytes', val=A, role='in'), dict(kind='bytes', val=Bb, role='in'), dict(kind='int', val=c)], expect=dict(ret=int(A != Bb)))
            self.refute(x, 'verify of %d bytes is not %d' % (c, int(A != Bb)), n)


def t_relane(v, ew):
    return t.relane(v, ew)


def prove(w, fname, rec, seconds=60):
    """(obligations, None) when shown for every length; otherwise (0, exception)"""
    last = None
    for mode in (0, 1):
        fn = Sel(w, fname, mode)
        fn.cex = None
        fn.end = time.time() + seconds
        try:
            try:
                every(fn)
                return fn.paths + fn.closed + fn.queries, None, fn
            except DivLen as e:
                if e.b > 256:
                    raise
                fn = Sel(w, fname, mode)
                fn.cex = None
                fn.end = time.time() + seconds
                fn.r = e.b
                fn.explore_div(None, None)
                return fn.paths + fn.closed + fn.queries, None, fn
        except (Refuted, Violation, Aborted) as e:
            return 0, e, fn
        except Unsupported as e:
            last = e, fn
            if 'accumulator' not in str(e):
                break
    e, fn = last
    # lengths beyond the usual machine widths, one at a time
    fn.tail, fn.unit, fn.r = None, 1, 1
    try:
        fn.narrow(None, None)
    except Refuted as e2:
        return 0, e2, fn
    return 0, e, fn


def every(fn):
    for fn.split in (0, 8, 400):
        fn.G = {}
        try:
            fn.explore(fn.mkx(None, None))
            return
        except SymLen:
            if fn.split == 400:
                raise


def huge(impl, fname, n):
    """native call on n bytes, the last of which differs; description of a wrong result or None"""
    F = native.sym(impl, 2, fname)
    lc = ctypes.CDLL(None, use_errno=True)
    P, Z = ctypes.c_void_p, ctypes.c_size_t
    lc.mmap.restype = P
    lc.mmap.argtypes = [P, Z, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
    A = [lc.mmap(None, n + 4096, 3, 0x4022, -1, 0) for _ in range(2)]
    ctypes.memset(A[1] + n - 1, 1, 1)
    if fname == 'verify':
        F.restype = ctypes.c_int
        r = F(P(A[0]), P(A[1]), Z(n))
        return None if r == 1 else 'verify of %d bytes that differ in the last returns %d' % (n, r)
    F(P(A[0]), P(A[1]), Z(n), ctypes.c_uint8(1))
    v = ctypes.string_at(A[0] + n - 1, 2)
    return None if v == b'\1\0' else 'cmov of %d bytes with flag 1 leaves the last one unchanged' % n


def job_all(rec, impl, fname):
    from .jobs import world
    w = world(impl, 2, rec)
    if w.prog.find(fname) is None:
        rec.assume.add('%s has no function %s' % (impl, fname))
        return
    what = 'returns whether some byte differs, reads exactly the two buffers' if fname == 'verify' else 'copies all or nothing, touches exactly the two buffers'
    name = '%s %s %s: every length' % (impl, fname, what)
    rec.func(fname, impl)
    t0 = time.time()
    n, e, fn = prove(w, fname, rec)
    if e is None:
        rec.ok(name, 'inferred loop invariant, z3', n, time.time() - t0)
        return
    if isinstance(e, Refuted):
        nn = (e.n or 0) * (fn.unit if fn.tail is not None else 1) + (fn.tail or 0)
        cex = fn.cex if isinstance(fn.cex, dict) else None
        if cex is None:
            def go():
                for m in (nn, nn + 1, 257, 65537):
                    if m:
                        d = huge(impl, fname, m)
                        if d:
                            return m, d
            r = search.isolated(go, 100)
            if r[0] == 'ok' and r[1]:
                rec.bad(name, 'loop invariant', str(e), dict(huge=r[1][0], fn=fname, impl=impl))
                return
            if r[0] == 'ok':
                rec.unk(name, '%s; not reproduced natively' % e)
                return
            rec.bad(name, 'loop invariant', '%s; the native call ends with %s' % (e, r[0]), dict(huge=nn, fn=fname, impl=impl))
            return
        rec.bad(name, 'loop invariant', str(e), cex)
        return
    rec.unk(name, str(e))
