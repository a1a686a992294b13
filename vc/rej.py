"""Rejection sampling of a byte buffer: contract of rej_uniform / rej_uniform_avx, by forward
symbolic execution with an inductive ghost state.

Ghost state: the input buffer is a sequence of 12-bit candidates c_0, c_1, ...; b_j = (c_j < q).
C(n) is the number of accepted ones among the first n.  Invariant carried at every merge point:
   n candidates are consumed, every live counter is C(n) plus a constant, and
   r[0..C(n)) holds exactly the accepted candidates among the first n, in order.
The value of C(n) at a merge point is the symbol L, constrained only by interval facts on L, len
and len-L.  Postcondition: the return value is C(n) with n = N (all candidates consumed) or
C(n) = len, and r[0..ret) are the first ret accepted candidates."""
import time
import numpy as np
from . import term as t, poly, leaf, contracts as C
from .term import T, Vec, UNDEF, SECRET
from .execu import X, Violation, Frame, short
from .ir import Unsupported

Q = 3329


class F:
    """linear form: const + sum coef*atom"""
    __slots__ = ('c', 'm')

    def __init__(self, c=0, m=None):
        self.c = c
        self.m = m or {}

    def __add__(self, o):
        if type(o) is int:
            return F(self.c + o, self.m)
        m = dict(self.m)
        for k, v in o.m.items():
            n = m.get(k, 0) + v
            if n:
                m[k] = n
            else:
                m.pop(k, None)
        return F(self.c + o.c, m)

    def scale(self, k):
        return F(self.c * k, {a: v * k for a, v in self.m.items()} if k else {})

    def __sub__(self, o):
        return self + (o.scale(-1) if type(o) is F else -o)

    def const(self):
        return not self.m

    def key(self):
        return tuple(sorted(self.m.items(), key=str))

    def __repr__(self):
        return '%d%s' % (self.c, ''.join('%+d*%s' % (v, k) for k, v in self.m.items()))


class Fork(Exception):
    """cases: list of (description, function applied to the cloned state)"""
    def __init__(self, cases):
        self.cases = cases


L = 'L'
LEN = 'len'


class XR(X):
    def setup(self, ncand, rsize):
        self.cand = [t.var('cand%d' % j, 12, lo=0, hi=4095) for j in range(ncand)]
        self.cidx = {v: j for j, v in enumerate(self.cand)}
        self.Lv = t.var('ghost:L', 32, lo=0, hi=511)
        self.lenv = t.var('ghost:len', 32, lo=0, hi=511)
        self.bitc = {}
        self.linc = {}
        self.ghost = dict(P=F(0), n=0, pend={}, facts={}, bits={}, rlo=0)
        self.rsize = rsize            # linear form: entries available in r

    # ------------------------------------------------------------ facts
    def iv(self, f):
        """sound interval of a linear form"""
        g = self.ghost
        c = f.c
        m = {}
        for a, k in f.m.items():
            if type(a) is tuple and a[1] in g['bits']:
                c += k * g['bits'][a[1]]
            else:
                m[a] = k
        f = F(0, m)
        lo, hi = self.iv0(f)
        for key, (fl, fh) in g['facts'].items():
            if len(key) < 2:
                continue
            for s in (1, -1):
                r = f - F(0, dict(key)).scale(s)
                if len(r.m) < len(f.m):
                    a, b = self.iv0(r)
                    if s < 0:
                        x, y = -fh, -fl
                    else:
                        x, y = fl, fh
                    lo = max(lo, a + x)
                    hi = min(hi, b + y)
        return lo + c, hi + c

    def iv0(self, f):
        lo = hi = f.c
        for a, k in f.m.items():
            if type(a) is tuple:
                x, y = 0, 1
            else:
                x, y = self.ghost['facts'].get(((a, 1),), (0, 256))
            if k > 0:
                lo += k * x
                hi += k * y
            else:
                lo += k * y
                hi += k * x
        return lo, hi

    def assume(self, f, lo, hi):
        """record lo <= f <= hi"""
        g = self.ghost
        f = self.dec(f)
        k = f.key()
        if not k:
            return
        s = 1 if k[0][1] > 0 else -1
        lo, hi = lo - f.c, hi - f.c
        if s < 0:
            f = f.scale(-1)
            k = f.key()
            lo, hi = -hi, -lo
        if len(k) == 1 and k[0][1] != 1:
            q = k[0][1]
            lo, hi = -((-lo) // q), hi // q
            k = ((k[0][0], 1),)
        a, b = self.iv(F(0, dict(k)))
        g['facts'] = dict(g['facts'])
        g['facts'][k] = (max(a, lo), min(b, hi))

    def dec(self, f):
        """apply decided bits"""
        g = self.ghost['bits']
        c = f.c
        m = {}
        for a, k in f.m.items():
            if type(a) is tuple and a[1] in g:
                c += k * g[a[1]]
            else:
                m[a] = k
        return F(c, m)

    # ------------------------------------------------------------ terms -> forms
    def bit(self, x):
        """1-bit term that is an acceptance test: (j, polarity) or None"""
        r = self.bitc.get(x, 0)
        if r != 0:
            return r
        r = None
        sup = t.support(x)
        if len(sup) == 1:
            v, = sup
            j = self.cidx.get(v)
            if j is not None:
                val = np.broadcast_to(t.npeval([x], {v: np.arange(4096, dtype=np.uint64)})[x], (4096,)).astype(bool)
                acc = np.arange(4096) < Q
                if (val == acc).all():
                    r = (j, 1)
                elif (val == ~acc).all():
                    r = (j, 0)
        self.bitc[x] = r
        return r

    def lin(self, x, w):
        """(form, side conditions)"""
        if type(x) is int:
            return F(t.signed(x, w) if w > 1 else x), ()
        r = self.linc.get(x)
        if r is None:
            r = self.lin1(x)
            self.linc[x] = r
        if r is False:
            raise Unsupported('not a linear counter: ' + t.show(x, 3))
        return r

    def lin1(self, x):
        op, w = x.op, x.w
        if x is self.Lv:
            return F(0, {L: 1}), ()
        if x is self.lenv:
            return F(0, {LEN: 1}), ()
        if w == 1:
            b = self.bit(x)
            if b:
                return (F(0, {('b', b[0]): 1}) if b[1] else F(1, {('b', b[0]): -1})), ()
        try:
            if op == 'popcnt':
                f = F(0)
                sc = ()
                for i in range(x.a[0].w):
                    e = t.ext(x.a[0], i, 1, x.a[0].w)
                    if type(e) is int:
                        f = f + e
                    else:
                        g, s = self.lin(e, 1)
                        f = f + g
                        sc += s
                return f, sc
            if op == 'cat':
                f = F(0)
                sc = ()
                off = 0
                for s, sw in zip(x.a, x.p):
                    if type(s) is int:
                        f = f + (s << off)
                    else:
                        g, q = self.lin(s, sw)
                        sc += q + ((g, 0, t.M(sw)),)
                        f = f + g.scale(1 << off)
                    off += sw
                return f, sc
            if op == 'ext' and x.p == 0:
                g, q = self.lin(x.a[0], x.a[0].w)
                return g, q + ((g, 0, t.M(w)),)
            if op == 'sext':
                g, q = self.lin(x.a[0], x.a[0].w)
                h = 1 << (x.a[0].w - 1)
                return g, q + ((g, -h, h - 1),)
            if op in ('add', 'sub'):
                a, q = self.lin(x.a[0], w)
                b, r = self.lin(x.a[1], w)
                return (a + b if op == 'add' else a - b), q + r
            if op == 'mul' and type(x.a[1]) is int:
                a, q = self.lin(x.a[0], w)
                return a.scale(t.signed(x.a[1], w)), q
        except Unsupported:
            pass
        return False

    def form(self, x, w):
        f, sc = self.lin(x, w)
        for g, lo, hi in sc:
            a, b = self.iv(g)
            if a < lo or b > hi:
                raise Unsupported('counter may wrap: %r in [%d,%d]' % (g, a, b))
        return self.dec(f)

    # ------------------------------------------------------------ decisions
    def decide(self, c):
        """truth value of a 1-bit term under the facts, or raises Fork"""
        if type(c) is int:
            return c
        b = self.bit(c)
        if b:
            v = self.ghost['bits'].get(b[0])
            if v is not None:
                return v if b[1] else 1 - v
            j, pol = b

            def setbit(v):
                def f(y):
                    y.ghost['bits'] = dict(y.ghost['bits'])
                    y.ghost['bits'][j] = v
                return f
            raise Fork([setbit(1), setbit(0)])
        if c.op in ('ult', 'slt', 'eq'):
            w = c.p
            sup = t.support(c)
            if any(v in self.cidx for v in sup) and w == 1:
                x = self.decide(c.a[0])
                y = self.decide(c.a[1])
                return int(x == y)
            try:
                a, b2 = self.form(c.a[0], w), self.form(c.a[1], w)
            except Unsupported:
                # value test on candidates that is not the acceptance test
                raise Unsupported('branch on ' + t.show(c, 3))
            for z in (a, b2):
                lo, hi = self.iv(z)
                top = 1 << (w - 1) if c.op == 'slt' else 1 << w
                bot = -top if c.op == 'slt' else 0
                if c.op == 'ult' and z.const() and z.c < 0:
                    z.c += 1 << w
                    continue
                if lo < bot or hi >= top:
                    raise Unsupported('comparison may wrap')
            d = b2 - a
            lo, hi = self.iv(d)
            if c.op == 'eq':
                if lo > 0 or hi < 0:
                    return 0
                if lo == hi == 0:
                    return 1
                cs = [lambda y: y.assume(d, 0, 0)]
                if hi > 0:
                    cs.append(lambda y: y.assume(d, 1, hi))
                if lo < 0:
                    cs.append(lambda y: y.assume(d, lo, -1))
                raise Fork(cs)
            if lo >= 1:
                return 1
            if hi <= 0:
                return 0
            raise Fork([lambda y: y.assume(d, 1, hi), lambda y: y.assume(d, lo, 0)])
        if c.op == 'xor':
            r = 0
            for y in c.a:
                r ^= self.decide(y)
            return r
        if c.op in ('and', 'or'):
            for y in c.a:
                v = self.decide(y)
                if v == (0 if c.op == 'and' else 1):
                    return v
            return 1 if c.op == 'and' else 0
        if c.op == 'ite':
            return self.decide(c.a[1] if self.decide(c.a[0]) else c.a[2])
        if c.op == 'ext' and c.w == 1:
            f = self.form(c.a[0], c.a[0].w)
            lo, hi = self.iv(f)
            w = c.a[0].w
            if c.p == w - 1 and -(1 << (w - 1)) <= lo and hi < 1 << (w - 1):
                if lo >= 0:
                    return 0
                if hi < 0:
                    return 1
                raise Fork([lambda y: y.assume(f, lo, -1), lambda y: y.assume(f, 0, hi)])
        raise Unsupported('branch on ' + t.show(c, 3))

    def branch(self, c):
        fl = t.flags(c)
        self.events.append(('branch', fl, self.where(), None))
        if fl & UNDEF:
            raise Violation('uninit', 'branch depends on uninitialised memory', self.where())
        return self.decide(c)

    # ------------------------------------------------------------ the output array
    def rform(self, addr):
        """entry index form if the address lies in r, else None"""
        if type(addr) is int:
            if addr >> 32 == self.rid:
                o = addr - self.rbase
                return F(o)
            return None
        f = self.form(addr, 64)
        lo, hi = self.iv(f)
        if lo < 0 or lo >> 32 != hi >> 32:
            raise Unsupported('symbolic address')
        if lo >> 32 != self.rid:
            raise Unsupported('symbolic address outside r')
        return f - self.rbase

    def rstore(self, f, vals, al):
        """vals: list of 16-bit values at byte form f"""
        if f.c % 2 or any(k % 2 for k in f.m.values()):
            raise Unsupported('odd offset in r')
        if al > 2:
            raise Violation('alignment', 'aligned store to r', self.where())
        e = F(f.c // 2, {a: k // 2 for a, k in f.m.items()})
        lo, hi = self.iv(e)
        if lo < 0:
            raise Violation('memory', 'write before the start of r (index %d possible)' % lo, self.where())
        lo, hi = self.iv(self.rsize - e - len(vals))
        if lo < 0:
            raise Violation('memory', 'write of %d entries reaches %d past the space in r' % (len(vals), -lo), self.where())
        g = self.ghost
        d = self.dec(e - g['P'])
        if not d.const():
            self.advance(e)
            d = self.dec(e - self.ghost['P'])
            g = self.ghost
        if not d.const():
            raise Unsupported('write at unknown index')
        if d.c < 0:
            raise Unsupported('write into the accepted prefix')
        g['pend'] = dict(g['pend'])
        for i, v in enumerate(vals):
            g['pend'][d.c + i] = v

    def count_to(self, e):
        """largest n with C(n) = e, or None"""
        g = self.ghost
        d = self.dec(e - g['P'])
        n = g['n']
        best = None
        acc = F(0)
        while True:
            r = self.dec(d - acc)
            if r.const() and r.c == 0:
                best = n
            elif best is not None:
                break
            if n >= len(self.cand):
                break
            acc = acc + F(0, {('b', n): 1})
            und = [a for a in acc.m if a[1] not in g['bits']]
            if any(a not in d.m for a in und):
                break
            n += 1
        return best

    def advance(self, e):
        """establish r[0..e) = accepted prefix; e must be C(n) for some n"""
        g = self.ghost
        n = self.count_to(e)
        if n is None:
            raise Unsupported('counter %r is not a number of accepted candidates' % e)
        js = range(g['n'], n)
        und = [j for j in js if j not in g['bits']]
        if len(und) > 10:
            # split at multiples of the undecided run
            raise Unsupported('too many undecided candidates')
        acc = [v for v in self.bitterms(g['pend'].values())]
        for m in range(1 << len(und)):
            val = {j: m >> i & 1 for i, j in enumerate(und)}
            val.update({j: g['bits'][j] for j in js if j in g['bits']})
            want = [self.cand[j] for j in js if val[j]]
            env = {x: (val[j] if p else 1 - val[j]) for x, j, p in acc if j in val}
            lanes = []
            for p in range(len(want)):
                if p not in g['pend']:
                    raise Violation('value', 'entry %d after the accepted prefix is not written when candidates %s are accepted'
                                    % (p, [j for j in js if val[j]]), self.where())
                lanes.append(g['pend'][p])
            got = t.subst(lanes, env) if env else lanes
            for p, (a, b) in enumerate(zip(got, want)):
                if a is not t.zext(b, 12, 16):
                    raise Violation('value', 'entry %d after the prefix is %s, not candidate %d (acceptance pattern %s)'
                                    % (p, t.show(a, 2), self.cidx[b], ''.join(str(val[j]) for j in js)), self.where())
        self.lemmas = getattr(self, 'lemmas', 0) + (1 << len(und))
        g['pend'] = {}
        g['P'] = e
        g['n'] = n

    def bitterms(self, vals):
        out = []
        for x in t.topo([v for v in vals if type(v) is T]):
            if x.w == 1:
                b = self.bit(x)
                if b:
                    out.append((x, b[0], b[1]))
        return out

    def store(self, addr, v, n, al=1):
        f = self.rform(addr) if type(addr) is T or addr >> 32 == self.rid else None
        if f is None:
            return X.store(self, addr, v, n, al)
        if n % 2:
            raise Unsupported('byte store to r')
        self.rstore(f, [t.ext(v, 16 * i, 16, 8 * n) if type(v) is T else v >> 16 * i & 0xffff for i in range(n // 2)], al)

    def storev(self, addr, v, nb, al):
        f = self.rform(addr) if type(addr) is T or addr >> 32 == self.rid else None
        if f is None:
            return X.storev(self, addr, v, nb, al)
        self.rstore(f, t.relane(v, 16), al)

    def load(self, addr, n, al=1):
        if type(addr) is int and addr >> 32 == self.rid:
            raise Unsupported('read from r')
        return X.load(self, addr, n, al)


# ------------------------------------------------------------------ exploration
def regs_live(x):
    out = []
    for d, fr in enumerate(x.frames):
        lv = fr.f.live[fr.seg]
        for r in lv:
            if fr.R[r] is not None and r != (fr.ret if False else -1):
                out.append((d, r, fr.R[r]))
    return out


def pckey(x):
    return tuple((id(f.f), f.seg) for f in x.frames)


def normalise(x):
    """at a merge point: consume, rename the current count to L. returns (pc, n, shape, facts, regs)"""
    g = x.ghost
    live = regs_live(x)
    forms = {}
    best = None
    for d, r, v in live:
        if type(v) is T:
            s = t.support(v)
            if x.Lv in s or any(y in x.cidx for y in s):
                try:
                    f = x.form(v, v.w)
                except Unsupported:
                    if x.Lv in s:
                        raise
                    continue
                if f.m and (L in f.m or any(type(a) is tuple for a in f.m)):
                    forms[(d, r)] = f
    # target: the form with the most undecided bits, or the decided prefix
    n = g['n']
    dec = g['P']
    cnt = 0
    while n in g['bits'] and (not g['bits'][n] or cnt in g['pend']):
        dec = dec + g['bits'][n]
        cnt += g['bits'][n]
        n += 1
    tgt = dec
    cands = []
    for f in forms.values():
        k = f.m.get(L, 1)
        if k != 1:
            continue
        for c in range(-2, 3):
            m = x.count_to(f - c)
            if m is not None:
                cands.append((m, -abs(c), f - c))
    if cands:
        m, _, f = max(cands, key=lambda z: (z[1], z[0]))
        tgt = f
    x.advance(tgt)
    P = x.dec(g['P'] if False else x.ghost['P'])
    g = x.ghost
    # rename
    facts = {}
    if P.const():
        for k, v in g['facts'].items():
            f = F(0, dict(k))
            if any(a == L or type(a) is tuple for a in f.m):
                continue
            facts[k] = v
        lo = hi = P.c
        ll = x.iv(F(-P.c, {LEN: 1}))
    else:
        lo, hi = x.iv(P)
        ll = x.iv(F(0, {LEN: 1}) - P)
        for k, v in g['facts'].items():
            if all(a == LEN for a, _ in k):
                facts[k] = v
    facts[((L, 1),)] = (lo, hi)
    facts[((L, -1), (LEN, 1))] = ll
    return P, facts, live, forms


LL = ((L, -1), (LEN, 1))


def hull(a, b):
    out = {}
    for k in a:
        if k in b:
            out[k] = (min(a[k][0], b[k][0]), max(a[k][1], b[k][1]))
    return out


class State:
    """generalised state at a merge point"""


def snapshot(x):
    """(key, count regs, facts, X) -- X normalised with the count named L (or a constant P)"""
    P, facts, live, forms = normalise(x)
    g = x.ghost
    s = State()
    s.x = x
    s.n = g['n']
    s.facts = facts
    s.k = P.c if P.const() else None
    s.fix = {}
    s.cnt = {}
    for d, r, v in live:
        if (d, r) in forms:
            f = x.dec(forms[(d, r)] - P)
            if f.const():
                s.cnt[(d, r)] = f.c
                continue
            raise Unsupported('live value %r is not the count plus a constant' % forms[(d, r)])
        s.fix[(d, r)] = v
    s.pc = pckey(x)
    return s


def vkey(v):
    if type(v) is Vec:
        return (v.ew, tuple(vkey(y) for y in v.l))
    return v if type(v) is int else ('t', v.id)


def merge(a, b):
    """smallest state covering both, or None if they cannot be merged"""
    if a.pc != b.pc or a.n != b.n:
        return None
    ca, cb = dict(a.cnt), dict(b.cnt)
    fix = {}
    keys = set(a.fix) | set(a.cnt)
    if keys != set(b.fix) | set(b.cnt):
        return None
    cnt = {}
    for k in keys:
        ia, ib = a.cnt.get(k), b.cnt.get(k)
        if ia is None and a.k is not None and type(a.fix[k]) is int and (ib is not None or (b.k is not None and a.k != b.k and a.fix[k] != b.fix[k])):
            ia = a.fix[k] - a.k
        if ib is None and b.k is not None and type(b.fix[k]) is int and (ia is not None):
            ib = b.fix[k] - b.k
        if ia is not None and ib is not None:
            if ia != ib:
                return None
            cnt[k] = ia
            continue
        if ia is not None or ib is not None:
            return None
        if vkey(a.fix[k]) != vkey(b.fix[k]):
            return None
        fix[k] = a.fix[k]
    s = State()
    s.pc, s.n = a.pc, a.n
    s.fix, s.cnt = fix, cnt
    s.facts = hull(a.facts, b.facts)
    s.k = a.k if a.k is not None and a.k == b.k else None
    s.x = a.x
    return s


def covers(a, b):
    """a covers b"""
    m = merge(a, b)
    return m is not None and m.facts == a.facts and m.cnt == a.cnt and m.k == a.k and set(m.fix) == set(a.fix)


def restart(s):
    x = s.x.clone()
    x.tok = object()
    g = dict(P=F(s.k) if s.k is not None else F(0, {L: 1}), n=s.n, pend={}, facts=dict(s.facts), bits={}, rlo=0)
    if s.k is not None:
        g['facts'] = {k: v for k, v in g['facts'].items() if not any(a == L for a, _ in k)}
        ll = s.facts.get(LL)
        if ll:
            lo, hi = g['facts'].get(((LEN, 1),), (0, 256))
            g['facts'][((LEN, 1),)] = (max(lo, ll[0] + s.k), min(hi, ll[1] + s.k))
    x.ghost = g
    for (d, r), c in s.cnt.items():
        fr = x.frames[d]
        w = fr.R[r].w if type(fr.R[r]) is T else s.w.get((d, r), 32)
        base = t.zext(x.Lv, 32, w) if w > 32 else t.trunc(x.Lv, 32, w)
        fr.R[r] = t.add(base, c & t.M(w), w) if s.k is None else (s.k + c) & t.M(w)
    return x


def explore(prog, name, args, mk, deadline):
    """mk() -> XR ready to run. Returns list of final states (x, result) after checking every path"""
    finals = []
    x0 = mk()
    seen = {}        # (pc,n) -> list of generalised states
    work = []        # (n, seq, X)
    import heapq
    seq = [0]

    def push(n, x):
        seq[0] += 1
        heapq.heappush(work, (n, seq[0], x))
    push(-1, ('x', x0))
    stats = dict(states=0, paths=0, lemmas=0, merges=0)
    while work:
        if time.time() > deadline:
            raise Unsupported('time limit')
        n, _, it = heapq.heappop(work)
        if it[0] == 's':
            s = it[1]
            if s.dead:
                continue
            x = restart(s)
        else:
            x = it[1]
        stats['states'] += 1
        stack = [x]
        while stack:
            x = stack.pop()
            stats['paths'] += 1
            while True:
                # one segment at a time so that a fork can restart it
                if not x.frames:
                    finals.append(x)
                    stats['lemmas'] += getattr(x, 'lemmas', 0)
                    break
                fr = x.frames[-1]
                snap = x.clone()
                try:
                    act = fr.f.segs[fr.seg](fr.R, x)
                    k = act[0]
                    back = False
                    if k == 'br':
                        e, to, back = fr.f.edges[act[1]]
                        if e:
                            e(fr.R)
                        fr.seg = to
                    elif k == 'call':
                        fr.seg += 1
                        x.docall(act[1], act[2], act[3])
                    elif k == 'cbr':
                        v = x.branch(act[1])
                        e, to, back = fr.f.edges[act[2] if v else act[3]]
                        if e:
                            e(fr.R)
                        fr.seg = to
                    elif k == 'ret':
                        x.pop(act[1])
                    else:
                        raise Unsupported(k)
                except Fork as fk:
                    for c in fk.cases:
                        y = snap.clone()
                        c(y)
                        stack.append(y)
                    break
                if back:
                    s = snapshot(x)
                    s.dead = False
                    s.w = {}
                    for d, f in enumerate(x.frames):
                        for r in f.f.live[f.seg]:
                            if type(f.R[r]) is T:
                                s.w[(d, r)] = f.R[r].w
                    stats['merges'] += 1
                    key = (s.pc, s.n)
                    lst = seen.setdefault(key, [])
                    done = False
                    for o in lst:
                        if not o.dead and covers(o, s):
                            done = True
                            break
                    if done:
                        break
                    for o in lst:
                        if o.dead:
                            continue
                        m = merge(o, s)
                        if m is not None:
                            o.dead = True
                            m.dead = False
                            m.w = dict(o.w)
                            m.w.update(s.w)
                            if any(k in m.cnt and k not in o.cnt for k in m.cnt) and s.x is not o.x:
                                pass
                            s = m
                    lst.append(s)
                    if len(lst) > 4000:
                        raise Unsupported('too many states')
                    push(s.n, ('s', s))
                    break
    return finals, stats


def run_rej(w, name, fn, kind, buflen, deadline=120):
    """kind 'len': f(r,len,buf,buflen); 'avx': f(r,buf). Returns (N consumed, footprint of buf, stats)"""
    prog = w.prog
    nb = buflen if kind == 'len' else 168 * 6
    nc = nb * 2 // 3
    if kind == 'len':
        nc = 2 * (buflen // 3)

    def mk():
        x = XR(prog)
        x.rid = 0
        x.setup(nc, F(0, {LEN: 1}) if kind == 'len' else F(256))
        r = x.new(512, 2 if kind == 'len' else 32, 'r')
        x.rid = r.id
        x.rbase = r.base
        b = x.new(nb, 1, 'buf', ro=True)
        b.trk = True
        for i in range(nb):
            parts = []
            p = 8 * i
            while p < 8 * i + 8:
                j, o = divmod(p, 12)
                m = min(12 - o, 8 * i + 8 - p)
                if j < nc:
                    parts.append((t.ext(x.cand[j], o, m, 12), m))
                else:
                    parts.append((t.var('tail%d_%d' % (i, p), m), m))
                p += m
            b.cells[i] = (t.cat(parts), 1)
            b.own[i] = i
        x.bid = b.id
        if kind == 'len':
            x.ghost['facts'] = {((LEN, 1),): (0, 256)}
            args = [r.base, x.lenv, b.base, buflen]
        else:
            args = [r.base, b.base]
        x.push(fn, args, -1)
        return x
    finals, stats = explore(prog, name, None, mk, time.time() + deadline)
    Ns = set()
    for x in finals:
        ret = x.result
        f = x.form(ret, 32)
        # consume what is decided
        x.advance(f)
        n = x.ghost['n']
        rest = (x.rsize - f)
        lo, hi = x.iv(rest)
        if lo < 0:
            raise Violation('value', 'returns more than requested', name)
        if n == nc and kind == 'len':
            Ns.add(n)
            continue
        if hi <= 0:
            continue            # full: ret == len
        if kind == 'avx' and n % 112 == 0 and n:
            Ns.add(n)
            continue
        # neither full nor all consumed: reachable?
        raise Violation('value', 'may return %d..%d with %d of the requested entries missing after consuming only %d of %d candidates'
                        % (x.iv(f) + (hi, n, nc)), name)
    foot = max((x.mem[x.bid].rhi for x in finals), default=0)
    if kind == 'avx' and len(Ns) != 1:
        raise Violation('value', 'number of candidates consumed varies: %s' % sorted(Ns), name)
    stats['finals'] = len(finals)
    leaks = []
    return (Ns.pop() if Ns else nc), foot, stats
