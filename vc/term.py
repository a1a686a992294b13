"""Hash-consed bit-vector terms with canonicalising constructors.

A value is a Python int (a constant, always reduced modulo 2^w by whoever
builds it) or a T.  Constants carry no width; every constructor takes the
width explicitly.
"""
import sys
import numpy as np

sys.setrecursionlimit(100000)

UNDEF = 1      # value depends on uninitialised memory
SECRET = 2     # value depends on secret-labelled input


class T:
    __slots__ = ('op', 'w', 'a', 'p', 'id', 'mb', 'fl', '_sup', '_memo', 'info')

    def __repr__(self):
        return show(self, 3)


_tab = {}
_n = [0]


def reset():
    global HOOK
    _tab.clear()
    REPL.clear()
    HOOK = None


def M(w):
    return (1 << w) - 1


HOOK = None    # called on every new 64-bit term; may return the term to use instead (see keccak.py)
REPL = {}      # term -> ghost name, applied when the term is built (see keccak.py)


def mk(op, w, a, p, mb):
    k = (op, w, a, p)
    t = _tab.get(k)
    if t is not None:
        return REPL.get(t, t) if REPL else t
    if t is None:
        t = T()
        t.op = op
        t.w = w
        t.a = a
        t.p = p
        _n[0] += 1
        t.id = _n[0]
        t.mb = mb
        fl = 0
        for x in a:
            if type(x) is T:
                fl |= x.fl
        t.fl = fl
        t._sup = None
        t._memo = None
        t.info = None
        _tab[k] = t
        if HOOK is not None and w == 64:
            r = HOOK(t)
            if r is not None:
                REPL[t] = r
                return r
    return t


def var(name, w, lo=None, hi=None, secret=False, undef=False, info=None, signed=True):
    """A fresh/named variable. lo/hi bound its signed (or unsigned) value."""
    k = ('var', w, (), name)
    t = _tab.get(k)
    if t is None:
        mb = M(w)
        if lo is not None and lo >= 0 and hi is not None:
            mb = M(max(hi.bit_length(), 1)) if hi else 0
            mb &= M(w)
        t = mk('var', w, (), name, mb)
        t.fl = (UNDEF if undef else 0) | (SECRET if secret else 0)
        t.info = dict(lo=lo, hi=hi)
        if info:
            t.info.update(info)
    return t


_fresh = [0]


def fresh(pfx, w, **kw):
    _fresh[0] += 1
    return var('%s#%d' % (pfx, _fresh[0]), w, **kw)


def uf(name, w, args, fl=0, info=None, mb=None):
    """Ghost function symbol applied to a hashable key."""
    k = ('uf', w, (), (name, args))
    t = _tab.get(k)
    if t is None:
        t = mk('uf', w, (), (name, args), M(w) if mb is None else mb)
        t.fl = fl
        t.info = dict(lo=None, hi=None)
        if info:
            t.info.update(info)
    return t


def flags(x):
    return 0 if type(x) is int else x.fl


def maybe(x):
    return x if type(x) is int else x.mb


def signed(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x


# ---------------------------------------------------------------- segments
def segs(x, w):
    """list of (seg, width) low to high"""
    if type(x) is int:
        return [(x, w)]
    if x.op == 'cat':
        return list(zip(x.a, x.p))
    return [(x, w)]


def cat(parts):
    """parts: list of (value,width) low to high"""
    out = []
    for v, w in parts:
        if w == 0:
            continue
        if type(v) is T and v.op == 'cat':
            sub = list(zip(v.a, v.p))
        else:
            sub = [(v, w)]
        for s, sw in sub:
            if out:
                l, lw = out[-1]
                if type(l) is int and type(s) is int:
                    out[-1] = (l | (s << lw), lw + sw)
                    continue
                if type(l) is T and type(s) is T:
                    if s.op == 'ext':
                        b, blo = s.a[0], s.p
                        if l.op == 'ext' and l.a[0] is b and l.p + lw == blo:
                            out[-1] = (ext(b, l.p, lw + sw, b.w), lw + sw)
                            continue
                        if l is b and l.op != 'cat' and lw == blo:
                            pass
            out.append((s, sw))
    if not out:
        return 0
    if len(out) == 1:
        return out[0][0]
    mb = 0
    off = 0
    for v, w in out:
        mb |= maybe(v) << off
        off += w
    return mk('cat', off, tuple(v for v, _ in out), tuple(w for _, w in out), mb)


def ext(x, lo, n, w):
    """bits lo..lo+n-1 of x (width w)"""
    if type(x) is int:
        return (x >> lo) & ((1 << n) - 1)
    if n == w:
        return x
    if not (x.mb >> lo) & ((1 << n) - 1):
        return 0
    op = x.op
    if op == 'ext':
        return ext(x.a[0], x.p + lo, n, x.a[0].w)
    if op == 'cat':
        parts = []
        off = 0
        hi = lo + n
        for s, sw in zip(x.a, x.p):
            e = off + sw
            if e > lo and off < hi:
                a = max(lo, off) - off
                b = min(hi, e) - off
                parts.append((ext(s, a, b - a, sw), b - a))
            off = e
            if off >= hi:
                break
        return cat(parts)
    if op == 'sext':
        y = x.a[0]
        if lo + n <= y.w:
            return ext(y, lo, n, y.w)
        if lo < y.w:
            return sext(ext(y, lo, y.w - lo, y.w), y.w - lo, n)
        return sext(ext(y, y.w - 1, 1, y.w), 1, n)
    if op == 'ite':
        if type(x.a[1]) is int or type(x.a[2]) is int:
            return ite(x.a[0], ext(x.a[1], lo, n, w), ext(x.a[2], lo, n, w), n)
    if op in ('xor', 'and', 'or'):
        # push down when it makes something simpler (constant or segmented arguments)
        for y in x.a:
            if type(y) is int or y.op == 'sext' or y.mb != M(w):
                f = {'xor': xor, 'and': and_, 'or': or_}[op]
                r = None
                for y in x.a:
                    e = ext(y, lo, n, w)
                    r = e if r is None else f(r, e, n)
                return r
    mb = (x.mb >> lo) & ((1 << n) - 1)
    t = mk('ext', n, (x,), lo, mb)
    return t


def trunc(x, w, n):
    if type(x) is int:
        return x & ((1 << n) - 1)
    return ext(x, 0, n, w)


def zext(x, w, n):
    if type(x) is int or n == w:
        return x
    return cat([(x, w), (0, n - w)])


def sext(x, w, n):
    if type(x) is int:
        return (x | (M(n) ^ M(w))) if x >> (w - 1) & 1 else x
    if n == w:
        return x
    if not x.mb >> (w - 1) & 1:
        return zext(x, w, n)
    if x.op == 'sext':
        return sext(x.a[0], x.a[0].w, n)
    if x.op == 'cat' and w > 1:
        # sign bit lives in the top segment: keep lower segments, extend the top one
        s, sw = x.a[-1], x.p[-1]
        if type(s) is T:
            return cat(list(zip(x.a[:-1], x.p[:-1])) + [(sext(s, sw, n - w + sw), n - w + sw)])
        return cat(list(zip(x.a[:-1], x.p[:-1])) + [(sext(s, sw, n - w + sw), n - w + sw)])
    return mk('sext', n, (x,), None, x.mb | (M(n) ^ M(w)))


def shl_c(x, k, w):
    if type(x) is int:
        return (x << k) & M(w)
    if k == 0:
        return x
    if k >= w:
        return 0
    return cat([(0, k), (ext(x, 0, w - k, w), w - k)])


def lshr_c(x, k, w):
    if type(x) is int:
        return x >> k
    if k == 0:
        return x
    if k >= w:
        return 0
    return cat([(ext(x, k, w - k, w), w - k), (0, k)])


def ashr_c(x, k, w):
    if type(x) is int:
        return (signed(x, w) >> k) & M(w)
    if k == 0:
        return x
    if k >= w:
        k = w - 1
    return sext(ext(x, k, w - k, w), w - k, w)


def _has_const_seg(x):
    return type(x) is int or x.op == 'cat'


def or_disjoint(a, b, w):
    """a|b with a.mb & b.mb == 0; returns a cat, or None"""
    sa = segs(a, w)
    sb = segs(b, w)
    # cut points
    cuts = set()
    o = 0
    for _, x in sa:
        o += x
        cuts.add(o)
    o = 0
    for _, x in sb:
        o += x
        cuts.add(o)
    cuts = sorted(cuts)
    parts = []
    lo = 0
    for c in cuts:
        n = c - lo
        x = ext(a, lo, n, w)
        y = ext(b, lo, n, w)
        if type(x) is int and x == 0:
            parts.append((y, n))
        elif type(y) is int and y == 0:
            parts.append((x, n))
        elif type(x) is int and type(y) is int:
            parts.append((x | y, n))
        else:
            # a constant against a segment: split the constant in runs
            if type(x) is T and type(y) is int:
                x, y = y, x
            if type(x) is int:
                pos = 0
                while pos < n:
                    bit = x >> pos & 1
                    e = pos
                    while e < n and (x >> e & 1) == bit:
                        e += 1
                    if bit:
                        parts.append((M(e - pos), e - pos))
                    else:
                        parts.append((ext(y, pos, e - pos, n), e - pos))
                    pos = e
            else:
                # generic disjoint: split by mb runs of x
                mbx = maybe(x)
                mby = maybe(y)
                pos = 0
                runs = 0
                sub = []
                while pos < n:
                    inx = mbx >> pos & 1
                    e = pos
                    while e < n and (mbx >> e & 1) == inx:
                        e += 1
                    sub.append((ext(x if inx else y, pos, e - pos, n), e - pos))
                    pos = e
                    runs += 1
                if runs > 6:
                    return None
                parts += sub
        lo = c
    return cat(parts)


def _ac(op, a, b, w):
    out = []
    c = None
    for x in (a, b):
        if type(x) is T and x.op == op:
            out.extend(x.a)
        else:
            out.append(x)
    return out


def xor(a, b, w):
    if type(a) is int and type(b) is int:
        return a ^ b
    if a is b:
        return 0
    if type(a) is int:
        if a == 0:
            return b
    elif type(b) is int:
        if b == 0:
            return a
    if not maybe(a) & maybe(b):
        r = or_disjoint(a, b, w)
        if r is not None:
            return r
    c = 0
    cnt = {}
    order = []
    for x in _ac('xor', a, b, w):
        if type(x) is int:
            c ^= x
        elif x in cnt:
            del cnt[x]
        else:
            cnt[x] = 1
    items = list(cnt)
    if not items:
        return c
    # merge disjoint segmented arguments
    if any(x.op == 'cat' for x in items) and len(items) + (1 if c else 0) > 1:
        merged = []
        cats = [x for x in items if x.op == 'cat']
        rest = [x for x in items if x.op != 'cat']
        changed = False
        cats.sort(key=lambda x: x.id)
        for x in cats:
            for i, y in enumerate(merged):
                if not x.mb & y.mb:
                    r = or_disjoint(x, y, w)
                    if r is not None and type(r) is T:
                        merged[i] = r
                        changed = True
                        break
            else:
                merged.append(x)
        if c and merged:
            for i, y in enumerate(merged):
                if not y.mb & c:
                    r = or_disjoint(y, c, w)
                    if r is not None and type(r) is T:
                        merged[i] = r
                        c = 0
                        changed = True
                        break
        if changed:
            items = rest + merged
            if len(items) == 1 and not c:
                return items[0]
    if len(items) == 1:
        x = items[0]
        if not c:
            return x
        if x.op == 'cat':
            parts = []
            off = 0
            for s, sw in zip(x.a, x.p):
                parts.append((xor(s, (c >> off) & M(sw), sw), sw))
                off += sw
            return cat(parts)
        if x.op == 'sext' and c == M(w):
            return sext(xor(x.a[0], M(x.a[0].w), x.a[0].w), x.a[0].w, w)
    items.sort(key=lambda x: x.id)
    mb = 0
    for x in items:
        mb |= x.mb
    if c:
        mb |= c
        items.append(c)
    return mk('xor', w, tuple(items), None, mb)


def and_(a, b, w):
    if type(a) is int:
        a, b = b, a
    if type(a) is int:
        return a & b
    if type(b) is int:
        m = b & a.mb
        if m == 0:
            return 0
        if m == a.mb:
            return a
        # constant mask -> segments
        if a.op == 'cat':
            parts = []
            off = 0
            for s, sw in zip(a.a, a.p):
                parts.append((and_(s, (b >> off) & M(sw), sw), sw))
                off += sw
            return cat(parts)
        b = m
        runs = bin(b ^ (b << 1)).count('1')
        if runs <= 8:
            parts = []
            pos = 0
            while pos < w:
                bit = b >> pos & 1
                e = pos
                while e < w and (b >> e & 1) == bit:
                    e += 1
                parts.append((ext(a, pos, e - pos, w) if bit else 0, e - pos))
                pos = e
            return cat(parts)
        if a.op == 'and' and type(a.a[-1]) is int:
            b &= a.a[-1]
            r = a.a[0]
            for x in a.a[1:-1]:
                r = and_(r, x, w)
            return and_(r, b, w)
    else:
        if a is b:
            return a
        if not a.mb & b.mb:
            return 0
    c = M(w)
    s = {}
    for x in _ac('and', a, b, w):
        if type(x) is int:
            c &= x
        else:
            s[x] = 1
    items = sorted(s, key=lambda x: x.id)
    mb = c
    for x in items:
        mb &= x.mb
    if not mb:
        return 0
    if c != M(w):
        items.append(c)
    if len(items) == 1:
        return items[0]
    return mk('and', w, tuple(items), None, mb)


def or_(a, b, w):
    if type(a) is int:
        a, b = b, a
    if type(a) is int:
        return a | b
    if type(b) is int:
        if b == 0:
            return a
        if b == M(w):
            return b
    elif a is b:
        return a
    if not a.mb & maybe(b):
        r = or_disjoint(a, b, w)
        if r is not None:
            return r
    if type(b) is int:
        if a.op == 'cat':
            parts = []
            off = 0
            for s, sw in zip(a.a, a.p):
                parts.append((or_(s, (b >> off) & M(sw), sw), sw))
                off += sw
            return cat(parts)
    c = 0
    s = {}
    for x in _ac('or', a, b, w):
        if type(x) is int:
            c |= x
        else:
            s[x] = 1
    items = sorted(s, key=lambda x: x.id)
    mb = c
    for x in items:
        mb |= x.mb
    if c:
        items.append(c)
    if len(items) == 1:
        return items[0]
    return mk('or', w, tuple(items), None, mb)


def _addmb(a, b, w):
    return M(min(w, max(maybe(a).bit_length(), maybe(b).bit_length()) + 1))


def add(a, b, w):
    if type(a) is int:
        a, b = b, a
    if type(a) is int:
        return (a + b) & ((1 << w) - 1)
    if type(b) is int:
        if b == 0:
            return a
        if a.op == 'add' and type(a.a[1]) is int:
            return add(a.a[0], (a.a[1] + b) & M(w), w)
    elif a.op == 'add' and type(a.a[1]) is int:
        return add(add(a.a[0], b, w), a.a[1], w)
    elif b.op == 'add' and type(b.a[1]) is int:
        return add(add(a, b.a[0], w), b.a[1], w)
    if type(b) is T:
        if b.op == 'sub' and b.a[1] is a:
            return b.a[0]
        if a.op == 'sub' and a.a[1] is b:
            return a.a[0]
    if not a.mb & maybe(b):
        r = or_disjoint(a, b, w)
        if r is not None:
            return r
    if type(b) is T and b.id < a.id:
        a, b = b, a
    return mk('add', w, (a, b), None, _addmb(a, b, w))


def sub(a, b, w):
    if type(b) is int:
        if type(a) is int:
            return (a - b) & ((1 << w) - 1)
        return add(a, (-b) & M(w), w)
    if a is b:
        return 0
    if type(a) is T and a.op == 'add' and type(a.a[1]) is int:
        return add(sub(a.a[0], b, w), a.a[1], w)
    if type(b) is T and b.op == 'add' and type(b.a[1]) is int:
        return add(sub(a, b.a[0], w), -b.a[1] & M(w), w)
    return mk('sub', w, (a, b), None, M(w))


def mul(a, b, w):
    if type(a) is int:
        a, b = b, a
    if type(a) is int:
        return (a * b) & ((1 << w) - 1)
    if type(b) is int:
        if b == 0:
            return 0
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return shl_c(a, b.bit_length() - 1, w)
        if a.op == 'mul' and type(a.a[1]) is int:
            return mul(a.a[0], (a.a[1] * b) & M(w), w)
        tz = (b & -b).bit_length() - 1
        hb = (a.mb.bit_length() + b.bit_length())
        return mk('mul', w, (a, b), None, M(min(w, hb)))
    if b.id < a.id:
        a, b = b, a
    return mk('mul', w, (a, b), None, M(min(w, a.mb.bit_length() + b.mb.bit_length())))


def shift(op, a, b, w):
    """variable or constant shift; LLVM/x86-agnostic: caller checked the range"""
    if type(b) is int:
        if op == 'shl':
            return shl_c(a, b, w)
        if op == 'lshr':
            return lshr_c(a, b, w)
        return ashr_c(a, b, w)
    return mk(op, w, (a, b), None, M(w))


def divop(op, a, b, w):
    if type(a) is int and type(b) is int:
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        sa, sb = signed(a, w), signed(b, w)
        qq = abs(sa) // abs(sb)
        if (sa < 0) != (sb < 0):
            qq = -qq
        if op == 'sdiv':
            return qq & M(w)
        return (sa - qq * sb) & M(w)
    if type(b) is int and b & (b - 1) == 0 and b:
        if op == 'udiv':
            return lshr_c(a, b.bit_length() - 1, w)
        if op == 'urem':
            return and_(a, b - 1, w)
        if b >> (w - 1) == 0:
            # truncating signed division: floor after adding b-1 to negative values
            k = b.bit_length() - 1
            f = ashr_c(add(a, and_(ashr_c(a, w - 1, w), b - 1, w), w), k, w)
            return f if op == 'sdiv' else sub(a, shl_c(f, k, w), w)
    mb = M(w)
    if op == 'urem' and type(b) is int:
        mb = M(b.bit_length())
    if op == 'udiv' and type(b) is int and type(a) is T:
        mb = M(max(1, (a.mb // b).bit_length()))
    return mk(op, w, (a, b), None, mb)


def eq(a, b, w):
    if type(a) is int:
        a, b = b, a
    if type(a) is int:
        return 1 if a == b else 0
    if a is b:
        return 1
    if type(b) is int:
        if b & ~a.mb:
            return 0
        if w == 1:
            return a if b else xor(a, 1, 1)
        if a.op == 'cat':
            off = 0
            nz = []
            for s, sw in zip(a.a, a.p):
                c = (b >> off) & M(sw)
                if type(s) is int:
                    if s != c:
                        return 0
                else:
                    nz.append((s, c, sw))
                off += sw
            if len(nz) == 1:
                return eq(nz[0][0], nz[0][1], nz[0][2])
            if a.op == 'cat' and len(nz) < len(a.a):
                v = cat([(s, sw) for s, c, sw in nz])
                cv = 0
                o = 0
                for s, c, sw in nz:
                    cv |= c << o
                    o += sw
                return eq(v, cv, o)
        if a.op == 'sext':
            y = a.a[0]
            lowb = b & M(y.w)
            if sext(lowb, y.w, w) != b:
                return 0
            return eq(y, lowb, y.w)
        if a.op == 'ite' and type(a.a[1]) is int and type(a.a[2]) is int:
            r1, r2 = a.a[1] == b, a.a[2] == b
            if r1 and r2:
                return 1
            if not r1 and not r2:
                return 0
            return a.a[0] if r1 else xor(a.a[0], 1, 1)
    else:
        if b.id < a.id:
            a, b = b, a
        if w == 1:
            return xor(xor(a, b, 1), 1, 1)
    return mk('eq', 1, (a, b), w, 1)


def ult(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if a < b else 0
    if a is b:
        return 0
    if type(b) is int and maybe(a) < b:
        return 1
    if type(b) is int and b == 0:
        return 0
    if type(a) is int and a >= maybe(b):
        return 0
    if type(b) is int and type(a) is T and a.op == 'cat' and a.a[-1] == 0 and type(a.a[-1]) is int:
        n = w - a.p[-1]
        if b >> n == 0:
            return ult(trunc(a, w, n), b, n)
        return 1
    if type(a) is int and type(b) is T and b.op == 'cat' and type(b.a[-1]) is int and b.a[-1] == 0:
        n = w - b.p[-1]
        if a >> n == 0:
            return ult(a, trunc(b, w, n), n)
        return 0
    return mk('ult', 1, (a, b), w, 1)


def slt(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if signed(a, w) < signed(b, w) else 0
    if a is b:
        return 0
    top = 1 << (w - 1)
    if not maybe(a) & top and not maybe(b) & top:
        return ult(a, b, w)
    if type(b) is int and b == 0:
        return ext(a, w - 1, 1, w)
    return mk('slt', 1, (a, b), w, 1)


def ite(c, a, b, w):
    if type(c) is int:
        return a if c else b
    if a is b or (type(a) is int and type(b) is int and a == b):
        return a
    if type(a) is int and type(b) is int:
        if w == 1:
            return c if a else xor(c, 1, 1)
        if b == 0 and a == 1:
            return zext(c, 1, w)
        if b == 0 and a == M(w):
            return sext(c, 1, w)
        if a == 0 and b == 1:
            return zext(xor(c, 1, 1), 1, w)
        if a == 0 and b == M(w):
            return sext(xor(c, 1, 1), 1, w)
    return mk('ite', w, (c, a, b), None, maybe(a) | maybe(b))


def popcnt(a, w):
    if type(a) is int:
        return bin(a).count('1')
    if a.op == 'cat':
        nz = [(s, sw) for s, sw in zip(a.a, a.p) if not (type(s) is int and s == 0)]
        if len(nz) < len(a.a):
            v = cat(nz)
            n = sum(sw for _, sw in nz)
            if type(v) is T:
                r = popcnt(v, n)
                return zext(r, n, w)
    return mk('popcnt', w, (a,), None, M(a.mb.bit_length().bit_length()) & M(w))


def tbl(consts, idx, iw, w):
    """constant table lookup: consts tuple, index term"""
    if type(idx) is int:
        return consts[idx]
    mb = 0
    for c in consts:
        mb |= c
    return mk('tbl', w, (idx,), consts, mb)


def psh(ctl, lanes):
    """byte shuffle: lane selected by the low 4 bits of ctl, 0 when its top bit is set"""
    if type(ctl) is int:
        return 0 if ctl & 0x80 else lanes[ctl & 15]
    return mk('psh', 8, (ctl,) + tuple(lanes), None, 255)


# ---------------------------------------------------------------- analysis
def support(t):
    """frozenset of var/uf leaves"""
    if type(t) is int:
        return frozenset()
    if t._sup is not None:
        return t._sup
    stack = [t]
    while stack:
        x = stack[-1]
        if x._sup is not None:
            stack.pop()
            continue
        if x.op in ('var', 'uf'):
            x._sup = frozenset((x,))
            stack.pop()
            continue
        pend = [y for y in x.a if type(y) is T and y._sup is None]
        if pend:
            stack.extend(pend)
            continue
        s = frozenset()
        for y in x.a:
            if type(y) is T:
                s = s | y._sup if s is not y._sup else s
        x._sup = s
        stack.pop()
    return t._sup


def topo(roots):
    """topological order (children first) of all T reachable"""
    seen = set()
    out = []
    for r in roots:
        if type(r) is int or r in seen:
            continue
        stack = [(r, 0)]
        seen.add(r)
        while stack:
            x, i = stack.pop()
            a = x.a
            n = len(a)
            while i < n:
                y = a[i]
                i += 1
                if type(y) is T and y not in seen:
                    seen.add(y)
                    stack.append((x, i))
                    stack.append((y, 0))
                    break
            else:
                out.append(x)
    return out


def _np_mask(v, w):
    if w >= 64:
        return v
    return v & np.uint64(M(w))


def npeval(roots, env):
    """evaluate terms with numpy arrays (dtype uint64). env: leaf -> array. width<=64 only.
    Returns dict T->array (and handles ints in roots by caller)."""
    val = dict(env)
    u = np.uint64
    for x in topo(roots):
        if x in val:
            continue
        op = x.op
        w = x.w
        if w > 64:
            raise ValueError('width')
        if op in ('var', 'uf'):
            raise KeyError(x)

        def g(i):
            y = x.a[i]
            return u(y) if type(y) is int else val[y]
        if op == 'ext':
            r = (g(0) >> u(x.p))
            r = _np_mask(r, w)
        elif op == 'cat':
            r = u(0)
            off = 0
            for i, sw in enumerate(x.p):
                r = r | (g(i) << u(off)) if off else g(i)
                off += sw
        elif op == 'sext':
            y = x.a[0]
            s = u(1 << (y.w - 1))
            v = g(0)
            r = _np_mask((v ^ s) - s, w)
        elif op == 'xor':
            r = g(0)
            for i in range(1, len(x.a)):
                r = r ^ g(i)
        elif op == 'and':
            r = g(0)
            for i in range(1, len(x.a)):
                r = r & g(i)
        elif op == 'or':
            r = g(0)
            for i in range(1, len(x.a)):
                r = r | g(i)
        elif op == 'add':
            r = _np_mask(g(0) + g(1), w)
        elif op == 'sub':
            r = _np_mask(g(0) - g(1), w)
        elif op == 'mul':
            r = _np_mask(g(0) * g(1), w)
        elif op in ('eq', 'ult', 'slt'):
            a, b = g(0), g(1)
            if op == 'eq':
                r = a == b
            elif op == 'ult':
                r = a < b
            else:
                s = u(1 << (x.p - 1))
                r = (a ^ s) < (b ^ s)
            r = np.asarray(r).astype(u)
        elif op == 'ite':
            r = np.where(np.asarray(g(0)).astype(bool), g(1), g(2)).astype(u)
        elif op == 'popcnt':
            v = np.asarray(g(0))
            r = np.zeros_like(v)
            for i in range(x.a[0].w):
                r = r + ((v >> u(i)) & u(1))
        elif op == 'tbl':
            r = np.array(x.p, dtype=u)[np.asarray(g(0)).astype(np.int64)]
        elif op == 'psh':
            c = np.asarray(g(0))
            r = np.zeros_like(c)
            for i in range(16):
                r = np.where((c & u(15)) == u(i), g(i + 1), r).astype(u)
            r = np.where(c & u(0x80), u(0), r).astype(u)
        elif op == 'udiv':
            r = g(0) // g(1)
        elif op == 'urem':
            r = g(0) % g(1)
        elif op in ('sdiv', 'srem'):
            s = u(1 << (w - 1))
            a = (np.asarray(g(0)) ^ s) - s
            b = (np.asarray(g(1)) ^ s) - s
            a = a.astype(np.int64)
            b = b.astype(np.int64)
            qv = np.abs(a) // np.abs(b)
            qv = np.where((a < 0) != (b < 0), -qv, qv)
            r = qv if op == 'sdiv' else a - qv * b
            r = _np_mask(r.astype(u), w)
        elif op == 'shl':
            r = _np_mask(np.where(g(1) < u(w), g(0) << g(1), u(0)), w)
        elif op == 'lshr':
            r = np.where(g(1) < u(w), g(0) >> g(1), u(0))
        elif op == 'ashr':
            s = u(1 << (w - 1))
            a = ((np.asarray(g(0)) ^ s) - s).astype(np.int64)
            r = _np_mask((a >> np.minimum(g(1), u(63)).astype(np.int64)).astype(u), w)
        else:
            raise ValueError('npeval ' + op)
        val[x] = r
    return val


def ceval(roots, env):
    """concrete evaluation, arbitrary width. env: leaf->int"""
    val = dict(env)
    for x in topo(roots):
        if x in val:
            continue
        a = [y if type(y) is int else val[y] for y in x.a]
        op, w = x.op, x.w
        if op == 'ext':
            r = (a[0] >> x.p) & M(w)
        elif op == 'cat':
            r = 0
            off = 0
            for v, sw in zip(a, x.p):
                r |= v << off
                off += sw
        elif op == 'sext':
            r = sext(a[0], x.a[0].w, w)
        elif op == 'xor':
            r = 0
            for v in a:
                r ^= v
        elif op == 'and':
            r = M(w)
            for v in a:
                r &= v
        elif op == 'or':
            r = 0
            for v in a:
                r |= v
        elif op == 'add':
            r = (a[0] + a[1]) & M(w)
        elif op == 'sub':
            r = (a[0] - a[1]) & M(w)
        elif op == 'mul':
            r = (a[0] * a[1]) & M(w)
        elif op == 'eq':
            r = int(a[0] == a[1])
        elif op == 'ult':
            r = int(a[0] < a[1])
        elif op == 'slt':
            r = int(signed(a[0], x.p) < signed(a[1], x.p))
        elif op == 'ite':
            r = a[1] if a[0] else a[2]
        elif op == 'popcnt':
            r = bin(a[0]).count('1')
        elif op == 'tbl':
            r = x.p[a[0]]
        elif op == 'psh':
            r = psh(a[0], a[1:])
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            r = divop(op, a[0], a[1], w)
        elif op == 'shl':
            r = (a[0] << a[1]) & M(w) if a[1] < w else 0
        elif op == 'lshr':
            r = a[0] >> a[1]
        elif op == 'ashr':
            r = (signed(a[0], w) >> min(a[1], w)) & M(w)
        else:
            raise KeyError(x)
        val[x] = r
    return [r if type(r) is int else val[r] for r in roots]


def subst(roots, env, post=None):
    """rebuild terms with leaves replaced"""
    val = dict(env)
    for x in topo(roots):
        if x in val:
            continue
        if not x.a:
            val[x] = x
            continue
        a = [y if type(y) is int else val[y] for y in x.a]
        if all(n is o for n, o in zip(a, x.a)):
            val[x] = x
            continue
        val[x] = rebuild(x, a)
        if post is not None:
            val[x] = post(val[x])
    return [r if type(r) is int else val[r] for r in roots]


def rebuild(x, a):
    op, w = x.op, x.w
    if op == 'ext':
        return ext(a[0], x.p, w, x.a[0].w)
    if op == 'cat':
        return cat(list(zip(a, x.p)))
    if op == 'sext':
        return sext(a[0], x.a[0].w, w)
    if op in ('xor', 'and', 'or'):
        f = {'xor': xor, 'and': and_, 'or': or_}[op]
        r = a[0]
        for y in a[1:]:
            r = f(r, y, w)
        return r
    if op in ('add', 'sub', 'mul'):
        return {'add': add, 'sub': sub, 'mul': mul}[op](a[0], a[1], w)
    if op in ('eq', 'ult', 'slt'):
        return {'eq': eq, 'ult': ult, 'slt': slt}[op](a[0], a[1], x.p)
    if op == 'ite':
        return ite(a[0], a[1], a[2], w)
    if op == 'popcnt':
        return popcnt(a[0], w) if type(a[0]) is T else bin(a[0]).count('1')
    if op == 'tbl':
        return tbl(x.p, a[0], None, w)
    if op == 'psh':
        return psh(a[0], a[1:])
    if op in ('udiv', 'urem', 'sdiv', 'srem'):
        return divop(op, a[0], a[1], w)
    if op in ('shl', 'lshr', 'ashr'):
        return shift(op, a[0], a[1], w)
    raise ValueError(op)


def show(x, d=4):
    if type(x) is int:
        return hex(x) if x > 9 else str(x)
    if x.op == 'var':
        return '%s:%d' % (x.p, x.w)
    if x.op == 'uf':
        return '%s(..)#%d:%d' % (x.p[0], x.id, x.w)
    if d == 0:
        return '<%d>' % x.id
    s = ','.join(show(y, d - 1) for y in x.a[:12])
    if x.op == 'ext':
        return '%s[%d+:%d]' % (s, x.p, x.w)
    return '%s%d(%s%s)' % (x.op, x.w, s, '' if len(x.a) <= 12 else ',..')


# ---------------------------------------------------------------- vectors
class Vec:
    """vector value: lanes (low first) of ew bits each"""
    __slots__ = ('ew', 'l')

    def __init__(self, ew, l):
        self.ew = ew
        self.l = l

    def __repr__(self):
        return 'Vec%d%r' % (self.ew, self.l)


def relane(v, w, total=None):
    """list of w-bit lanes of a value (Vec, or scalar of width total)"""
    if type(v) is Vec:
        ew, l = v.ew, v.l
    else:
        ew, l = total, [v]
    if ew == w:
        return l
    if ew > w:
        k = ew // w
        out = []
        for x in l:
            if type(x) is int:
                m = M(w)
                for i in range(k):
                    out.append((x >> (w * i)) & m)
            else:
                for i in range(k):
                    out.append(ext(x, w * i, w, ew))
        return out
    k = w // ew
    out = []
    for i in range(0, len(l), k):
        out.append(cat([(x, ew) for x in l[i:i + k]]))
    return out
