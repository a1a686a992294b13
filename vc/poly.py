"""Integer-polynomial semantics of bit-vector terms.

Every term x of width w is given a polynomial P with dyadic coefficients over
integer-valued symbols such that P is integer valued and x = P (mod 2^w).  When
interval arithmetic shows P inside the signed (unsigned) range of w bits, P *is*
the signed (unsigned) value of x.  Low-bit symbols L_n(P) stand for P mod 2^n
and are canonical in P mod 2^n, which is what makes Montgomery and Barrett
reductions cancel exactly.  From P one gets (a) exact integer bounds by interval
arithmetic and (b) the residue of the value modulo q as a polynomial over the
leaf variables (2 is invertible modulo q, so dyadic coefficients are fine).
"""
from . import term as t
from .term import T, M

Q = 3329
LIM = 5
LIMC = 10


class Sym:
    __slots__ = ('id', 'lo', 'hi', 'res', 'cong', 'name', 'isL', 'node')

    def __repr__(self):
        return self.name


class P:
    """sum d[m]*m / 2^s"""
    __slots__ = ('d', 's', '_iv', '_hasL', '_key')

    def __init__(self, d, s=0):
        if s:
            while s and all(not c & 1 for c in d.values()):
                d = {m: c >> 1 for m, c in d.items()}
                s -= 1
        self.d = d
        self.s = s
        self._iv = None
        self._hasL = None
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (self.s, frozenset(self.d.items()))
        return self._key


class Unknown(Exception):
    pass


class Ctx:
    def __init__(self, q=Q):
        self.q = q
        self.syms = []
        self.leaf = {}
        self.Lk = {}
        self.opq = {}
        self.cutk = {}
        self.memo = {}
        self.rescache = {}
        self.ivover = {}

    # ------------------------------------------------------------ symbols
    def newsym(self, lo, hi, name, res=None, isL=False, node=None):
        s = Sym()
        s.id = len(self.syms)
        s.lo, s.hi, s.name, s.isL, s.node = lo, hi, name, isL, node
        s.res = res
        s.cong = None
        self.syms.append(s)
        return s

    def const(self, c):
        return P({(): c} if c else {})

    def symP(self, s):
        return P({(s.id,): 1})

    def leafsym(self, x):
        s = self.leaf.get(x)
        if s is None:
            i = x.info or {}
            lo, hi = i.get('lo'), i.get('hi')
            if lo is None:
                lo, hi = 0, x.mb
            res = i.get('res')
            s = self.newsym(lo, hi, t.show(x, 1), res=res, node=x)
            if res is None:
                s.res = {(x,): 1}
            self.leaf[x] = s
        return s

    # ------------------------------------------------------------ algebra
    def addP(self, a, b, k=1):
        if a.s == b.s:
            d = dict(a.d)
            for m, c in b.d.items():
                n = d.get(m, 0) + k * c
                if n:
                    d[m] = n
                else:
                    d.pop(m, None)
            return P(d, a.s)
        s = max(a.s, b.s)
        d = {m: c << (s - a.s) for m, c in a.d.items()}
        f = k << (s - b.s)
        for m, c in b.d.items():
            n = d.get(m, 0) + f * c
            if n:
                d[m] = n
            else:
                d.pop(m, None)
        return P(d, s)

    def scale(self, a, k, s=0):
        if k == 0:
            return P({})
        return P({m: c * k for m, c in a.d.items()}, a.s + s)

    def mulP(self, a, b):
        d = {}
        for m, c in a.d.items():
            for n, e in b.d.items():
                mm = m + n if not m or not n else tuple(sorted(m + n))
                v = d.get(mm, 0) + c * e
                if v:
                    d[mm] = v
                else:
                    d.pop(mm, None)
        return P(d, a.s + b.s)

    def iv(self, p):
        """integer bounds"""
        r = p._iv
        if r is not None:
            return r
        lo = hi = 0
        syms = self.syms
        for m, c in p.d.items():
            if not m:
                lo += c
                hi += c
                continue
            if len(m) == 1:
                s = syms[m[0]]
                a, b = s.lo, s.hi
            else:
                a, b = 1, 1
                i = 0
                while i < len(m):
                    s = syms[m[i]]
                    if i + 1 < len(m) and m[i + 1] == m[i]:
                        x, y = s.lo * s.lo, s.hi * s.hi
                        sl, sh = (0 if s.lo <= 0 <= s.hi else min(x, y)), max(x, y)
                        i += 2
                    else:
                        sl, sh = s.lo, s.hi
                        i += 1
                    v = (a * sl, a * sh, b * sl, b * sh)
                    a, b = min(v), max(v)
            if c > 0:
                lo += c * a
                hi += c * b
            else:
                lo += c * b
                hi += c * a
        if p.s:
            lo = -((-lo) >> p.s)
            hi = hi >> p.s
        p._iv = (lo, hi)
        return p._iv

    def clean(self, p):
        """no low-bits symbol survives modulo q"""
        if p._hasL is None:
            q = self.q
            syms = self.syms
            p._hasL = any(c % q and any(syms[i].isL for i in m) for m, c in p.d.items())
        return not p._hasL

    def ccut(self, p):
        return self.cut(p) if len(p.d) > 1 and self.clean(p) else p

    # ------------------------------------------------------------ residues
    def symres(self, s):
        if s.res is None:
            s.res = {(s,): 1}
        return s.res

    def residue(self, p):
        q = self.q
        inv = pow(pow(2, p.s, q), -1, q) if p.s else 1
        out = {}
        for m, c in p.d.items():
            c = c * inv % q
            if not c:
                continue
            if not m:
                v = out.get((), 0) + c
                out[()] = v % q
                continue
            if len(m) == 1:
                r = self.symres(self.syms[m[0]])
                for k, e in r.items():
                    out[k] = (out.get(k, 0) + c * e) % q
            else:
                r = {(): c}
                for i in m:
                    r = resmul(r, self.symres(self.syms[i]), q)
                for k, e in r.items():
                    out[k] = (out.get(k, 0) + e) % q
        return {k: v for k, v in out.items() if v}

    def cut(self, p):
        """replace a long polynomial by one symbol with the same bounds and residue"""
        if len(p.d) == 1 and p.s == 0:
            (m, c), = p.d.items()
            if c == 1 and len(m) == 1:
                return p
        if not p.d or (len(p.d) == 1 and () in p.d):
            return p
        k = p.key()
        s = self.cutk.get(k)
        if s is None:
            lo, hi = self.iv(p)
            s = self.newsym(lo, hi, 'cut%d' % len(self.syms), res=self.residue(p))
            self.cutk[k] = s
        return self.symP(s)

    def norm(self, p):
        if len(p.d) > 1:
            s = self.cutk.get(p.key())
            if s is not None:
                return self.symP(s)
        return p

    # ------------------------------------------------------------ low bits
    def canon(self, p, n):
        """canonical polynomial of p modulo 2^n (dict), or None"""
        if p.s:
            p = self.cut(p)
        mask = (1 << n) - 1
        d = {m: c & mask for m, c in p.d.items() if c & mask}
        for _ in range(400):
            tgt = None
            for m, c in d.items():
                for i in m:
                    s = self.syms[i]
                    if s.cong is not None and (s.cong[0] >= n or s.cong[0] + (c & -c).bit_length() - 1 >= n):
                        tgt = i
                        break
                if tgt is not None:
                    break
            if tgt is None:
                return d
            cn, cd = self.syms[tgt].cong
            nd = {}
            for m, c in d.items():
                if tgt in m and cn + (c & -c).bit_length() - 1 >= n:
                    l = list(m)
                    l.remove(tgt)
                    rest = tuple(l)
                    for m2, c2 in cd.items():
                        mm = tuple(sorted(rest + m2))
                        nd[mm] = (nd.get(mm, 0) + c * c2) & mask
                else:
                    nd[m] = (nd.get(m, 0) + c) & mask
            d = {m: c for m, c in nd.items() if c}
        return d

    def L(self, p, n, sg):
        """P for p mod 2^n as unsigned (sg False) or signed (sg True) value"""
        d = self.canon(p, n)
        if not d:
            return P({})
        if len(d) == 1 and () in d:
            c = d[()]
            if sg and c >> (n - 1):
                c -= 1 << n
            return self.const(c)
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)
        # value already in range (as given)?
        if not p.s or True:
            a, b = self.iv(p)
            if lo <= a and b <= hi:
                return p
        if len(d) == 1:
            (m, c), = d.items()
            if c == 1 and len(m) == 1:
                s = self.syms[m[0]]
                if lo <= s.lo and s.hi <= hi:
                    return self.symP(s)
        c = P(d)
        a, b = self.iv(c)
        if lo <= a and b <= hi:
            return c
        if not sg and not p.s:
            a, b = self.iv(p)
            if a == -1 and b == 0:
                return self.scale(p, -hi)
        k = (n, sg, frozenset(d.items()))
        s = self.Lk.get(k)
        if s is None:
            tz = min((c & -c).bit_length() - 1 for c in d.values())
            if tz:
                # multiple of 2^tz
                inner = self.L(P({m: c >> tz for m, c in d.items()}), n - tz, sg)
                return self.scale(inner, 1 << tz)
            s = self.newsym(lo, hi, 'L%d%s_%d' % (n, 's' if sg else 'u', len(self.syms)), isL=True)
            s.cong = (n, d)
            self.Lk[k] = s
        return self.symP(s)

    # ------------------------------------------------------------ terms
    def sv(self, x, w):
        """signed value"""
        if type(x) is int:
            return self.const(t.signed(x, w))
        p = self.pv(x)
        lo, hi = self.iv(p)
        if -(1 << (w - 1)) <= lo and hi < (1 << (w - 1)):
            return p
        return self.L(p, w, True)

    def uv(self, x, w):
        if type(x) is int:
            return self.const(x)
        p = self.pv(x)
        lo, hi = self.iv(p)
        if 0 <= lo and hi < (1 << w):
            return p
        if w == 1 and -1 <= lo and hi <= 0:
            return self.scale(p, -1)
        return self.L(p, w, False)

    def floor(self, p, k):
        """floor(p / 2^k)"""
        if k == 0:
            return p
        lo, hi = self.iv(p)
        if lo >> k == hi >> k:
            return self.const(lo >> k)
        l = self.L(p, k, False)
        r = self.addP(p, l, -1)
        return P(dict(r.d), r.s + k)

    def opaque(self, x, lo=None, hi=None, res=None):
        s = self.opq.get(x)
        if s is None:
            if lo is None:
                lo, hi = 0, x.mb
            s = self.newsym(lo, hi, 'o%d:%s' % (x.id, x.op), node=x, res=res)
            self.opq[x] = s
        return self.symP(s)

    def pv(self, x):
        if type(x) is int:
            return self.const(x)
        r = self.memo.get(x)
        if r is not None:
            return r
        for y in t.topo([x]):
            if y not in self.memo:
                self.memo[y] = self._pv(y)
        return self.memo[x]

    def _pvc(self, x, w):
        return self.const(t.signed(x, w)) if type(x) is int else self.memo[x]

    def _short(self, p):
        return self.cut(p) if len(p.d) > LIM else p

    def _pv(self, x):
        op, w = x.op, x.w
        if op in ('var', 'uf'):
            return self.symP(self.leafsym(x))
        if op in ('add', 'sub'):
            k = 1 if op == 'add' else -1
            a, b = self.norm(self._pvc(x.a[0], w)), self.norm(self._pvc(x.a[1], w))
            r = self.addP(a, b, k)
            if len(r.d) > LIM and len(r.d) > max(len(a.d), len(b.d)):
                r = self.addP(self.ccut(a), self.ccut(b), k)
            lo, hi = self.iv(r)
            return r
        if op == 'mul':
            a, b = self._pvc(x.a[0], w), self._pvc(x.a[1], w)
            a, b = self.ccut(self.norm(a)), self.ccut(self.norm(b))
            return self.mulP(a, b)
        if op == 'ext':
            y = x.a[0]
            if x.p == 0:
                return self.memo[y]
            top = x.p + w == y.w
            p = self.memo[y]
            lo, hi = self.iv(p)
            if not (-(1 << (y.w - 1)) <= lo and hi < (1 << y.w)):
                p = self.L(p, y.w, False)
            f = self.floor(p, x.p)
            if w == 1 and top:
                # a sign bit: normalise to 0/1
                a, b = self.iv(f)
                if -1 <= a and b <= 0:
                    return self.scale(f, -1)
            return f
        if op == 'cat':
            r = P({})
            off = 0
            n = len(x.a)
            # a top run of sext/sign copies is handled by the sext rule
            for i, (s, sw) in enumerate(zip(x.a, x.p)):
                if i == n - 1:
                    p = self._pvc(s, sw) if type(s) is T else self.const(s)
                else:
                    p = self.uv(s, sw)
                r = self.addP(r, self.scale(p, 1 << off))
                off += sw
            return r
        if op == 'sext':
            y = x.a[0]
            if y.w == 1:
                return self.scale(self.uv(y, 1), -1)
            return self.sv(y, y.w)
        if op == 'and':
            a = x.a
            if len(a) == 2:
                for m, v in ((a[0], a[1]), (a[1], a[0])):
                    if type(m) is T and m.op == 'sext' and m.a[0].w == 1:
                        bit = self.uv(m.a[0], 1)
                        vv = self._pvc(v, w)
                        if len(vv.d) > 1 and len(bit.d) > 1:
                            vv = self.cut(vv)
                        if len(bit.d) > 1:
                            bit = self.cutbit(bit)
                        return self.mulP(bit, vv)
            return self.opaque(x)
        if op == 'xor':
            if w == 1:
                a = x.a
                if len(a) == 2 and type(a[1]) is int:
                    return self.addP(self.const(1), self.uv(a[0], 1), -1)
            elif len(x.a) == 2 and type(x.a[1]) is int and x.a[1] == M(w):
                return self.addP(self.const(-1), self._pvc(x.a[0], w), -1)
            return self.opaque(x)
        if op in ('slt', 'ult', 'eq'):
            ww = x.p
            a, b = x.a
            f = self.sv if op == 'slt' else self.uv
            pa, pb = f(a, ww), f(b, ww)
            la, ha = self.iv(pa)
            lb, hb = self.iv(pb)
            if op == 'eq':
                if ha < lb or hb < la:
                    return self.const(0)
            else:
                if ha < lb:
                    return self.const(1)
                if la >= hb:
                    return self.const(0)
            return self.opaque(x, 0, 1)
        if op == 'ite':
            c, a, b = x.a
            bit = self.uv(c, 1)
            pa, pb = self._pvc(a, w), self._pvc(b, w)
            if type(a) is int and type(b) is int:
                return self.addP(pb, self.scale(bit, t.signed(a, w) - t.signed(b, w)))
            la, ha = self.iv(pa)
            lb, hb = self.iv(pb)
            bit = self.cutbit(bit)
            d = self.addP(pa, pb, -1)
            return self.addP(pb, self.mulP(bit, self.cut(d) if len(d.d) > 1 else d))
        if op == 'popcnt':
            return self.opaque(x, 0, bin(x.a[0].mb).count('1'))
        if op == 'tbl':
            return self.opaque(x, min(x.p), max(x.p))
        return self.opaque(x)

    def cutbit(self, b):
        return self.cut(b)


def resmul(a, b, q):
    o = {}
    for m, c in a.items():
        for n, e in b.items():
            k = m + n if not m or not n else tuple(sorted(m + n, key=_sk))
            o[k] = (o.get(k, 0) + c * e) % q
    return o


def _sk(x):
    return x.id if type(x) is T else -x.id


def resadd(a, b, k=1, q=Q):
    o = dict(a)
    for m, c in b.items():
        v = (o.get(m, 0) + k * c) % q
        if v:
            o[m] = v
        else:
            o.pop(m, None)
    return o


def resscale(a, k, q=Q):
    k %= q
    if not k:
        return {}
    return {m: c * k % q for m, c in a.items()}


def reskey(r):
    """canonical hashable key of a residue polynomial over T leaves"""
    return tuple(sorted(((tuple(_sk(x) for x in m), c) for m, c in r.items())))
