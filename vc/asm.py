"""Symbolic execution of the assembled AVX2 routines (disassembled from the object file)."""
import re, subprocess
from . import term as t
from .term import Vec, T
from .ir import Unsupported
from . import ir

OBJDUMP = '/usr/lib/llvm-18/bin/llvm-objdump'
GPR = {}
for i, n in enumerate(['ax', 'cx', 'dx', 'bx', 'sp', 'bp', 'si', 'di']):
    GPR['r' + n] = (i, 64)
    GPR['e' + n] = (i, 32)
    GPR[n] = (i, 16)
for n, i in (('al', 0), ('cl', 1), ('dl', 2), ('bl', 3), ('sil', 6), ('dil', 7)):
    GPR[n] = (i, 8)
for i in range(8, 16):
    GPR['r%d' % i] = (i, 64)
    GPR['r%dd' % i] = (i, 32)
    GPR['r%dw' % i] = (i, 16)
    GPR['r%db' % i] = (i, 8)
ARGS = [7, 6, 2, 1, 8, 9]
SAVED = [3, 5, 12, 13, 14, 15, 4]


class AsmFunc:
    def __init__(self, name, addr, obj):
        self.name, self.addr, self.obj = name, addr, obj

    def run(self, X, args):
        Machine(self, X).run(args)


class AsmObj:
    def __init__(self, path, src):
        self.src = src
        self.ins = {}
        self.order = []
        self.nxt = {}
        self.rel = {}


def load(path, src):
    txt = subprocess.run([OBJDUMP, '-d', '-r', '--no-show-raw-insn', path], stdout=subprocess.PIPE, check=True).stdout.decode()
    ao = AsmObj(path, src)
    fs = []
    last = None
    for l in txt.split('\n'):
        m = re.match(r'^([0-9a-f]+) <(.+)>:$', l)
        if m:
            fs.append(AsmFunc(m.group(2), int(m.group(1), 16), ao))
            continue
        m = re.match(r'^\s+([0-9a-f]+):\s+R_X86_64_(\w+)\s+(\S+)', l)
        if m:
            ao.rel[last] = (m.group(2), m.group(3))
            continue
        m = re.match(r'^\s+([0-9a-f]+):\s+(.*)$', l)
        if m:
            a = int(m.group(1), 16)
            s = m.group(2).split('#')[0].strip()
            if not s:
                continue
            if last is not None:
                ao.nxt[last] = a
            last = a
            parts = s.split(None, 1)
            ao.ins[a] = (parts[0], ops(parts[1]) if len(parts) > 1 else [], s)
    return fs


def ops(s):
    s = re.sub(r'<[^>]*>', '', s).strip()
    out = []
    d = 0
    cur = ''
    for c in s:
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
            continue
        d += (c == '(') - (c == ')')
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return [op(x) for x in out]


def num(s):
    neg = s.startswith('-')
    s = s.lstrip('-')
    v = int(s, 16) if s.startswith('0x') else int(s)
    return -v if neg else v


def op(x):
    if x.startswith('$'):
        return ('i', num(x[1:]))
    if x.startswith('%ymm'):
        return ('y', int(x[4:]))
    if x.startswith('%xmm'):
        return ('x', int(x[4:]))
    if x.startswith('%'):
        return ('r',) + GPR[x[1:]] if x[1:] in GPR else ('rip',)
    m = re.match(r'^(-?0x[0-9a-f]+|-?\d+)?\(([^)]*)\)$', x)
    if m:
        disp = num(m.group(1)) if m.group(1) else 0
        p = [y.strip() for y in m.group(2).split(',')]
        base = p[0][1:] if p[0] else None
        idx = p[1][1:] if len(p) > 1 and p[1] else None
        sc = int(p[2]) if len(p) > 2 else 1
        return ('m', disp, base, idx, sc)
    m = re.match(r'^\*?(0x[0-9a-f]+|[0-9a-f]+)$', x)
    if m:
        return ('a', int(m.group(1), 16))
    raise Unsupported('asm operand ' + x)


class Machine:
    def __init__(self, f, X):
        self.f = f
        self.X = X
        self.r = [None] * 16
        self.v = [None] * 16
        self.cmp = None

    # ----------------------------------------------------------- operands
    def addr(self, o):
        _, disp, base, idx, sc = o
        if base == 'rip':
            raise Unsupported('rip-relative')
        a = disp
        for rn, k in ((base, 1), (idx, sc)):
            if rn:
                v = self.r[GPR[rn][0]]
                if v is None:
                    raise Unsupported('address from unset register')
                if type(v) is not int:
                    self.X._addr_event(v, 'asm access')
                    raise Unsupported('symbolic asm address')
                a += v * k
        return a & t.M(64)

    def vsrc(self, o, bits=256, al=1):
        if o[0] == 'y':
            v = self.v[o[1]]
            if v is None:
                raise Unsupported('use of unset vector register')
            return v
        if o[0] == 'x':
            v = self.v[o[1]]
            if v is None:
                raise Unsupported('use of unset vector register')
            return low128(v)
        if o[0] == 'm':
            return self.X.loadv(self.addr(o), bits // 8, 64, al)
        raise Unsupported('vector operand')

    def vset(self, o, v):
        if o[0] == 'x':
            v = Vec(v.ew, list(v.l) + [0] * (128 // v.ew))
        self.v[o[1]] = v

    def gsrc(self, o, w):
        if o[0] == 'i':
            return o[1] & t.M(w)
        if o[0] == 'r':
            v = self.r[o[1]]
            if v is None:
                raise Unsupported('use of unset register')
            return t.trunc(v, 64, w)
        if o[0] == 'm':
            return self.X.load(self.addr(o), w // 8, 1)
        raise Unsupported('operand')

    def gset(self, o, v, w):
        if o[0] == 'r':
            if w == 32:
                v = t.zext(v, 32, 64)
            elif w < 32:
                old = self.r[o[1]]
                v = t.cat([(v, w), (t.ext(old if old is not None else 0, w, 64 - w, 64), 64 - w)])
            self.r[o[1]] = v
        elif o[0] == 'm':
            self.X.store(self.addr(o), v, w // 8, 1)
        else:
            raise Unsupported('dest')

    # ----------------------------------------------------------- run
    def run(self, args):
        X = self.X
        for i, a in enumerate(args[:6]):
            self.r[ARGS[i]] = a
        stk = X.new(8192, 64, 'asm stack', misalign=8)
        sp0 = stk.base + 8192 - 8
        # caller-saved state markers
        for i in SAVED:
            self.r[i] = 0x7777000000000000 + i
        self.r[4] = sp0
        init = [self.r[i] for i in SAVED]
        X.store(sp0, 0xdeadbeefdeadbeef, 8)
        ao = self.f.obj
        pc = self.f.addr
        n = 0
        while True:
            if pc not in ao.ins:
                raise Unsupported('asm: fell off the code at %x' % pc)
            mn, o, s = ao.ins[pc]
            n += 1
            if n > 2_000_000:
                raise Unsupported('asm step limit')
            nxt = ao.nxt.get(pc)
            if mn.startswith('call'):
                if pc in ao.rel and o[0][0] != 'a':
                    raise Unsupported('asm external call')
                self.r[4] -= 8
                X.store(self.r[4], nxt, 8)
                pc = o[0][1]
                continue
            if mn.startswith('ret'):
                a = X.load(self.r[4], 8)
                self.r[4] += 8
                if a == 0xdeadbeefdeadbeef:
                    break
                if type(a) is not int:
                    raise Unsupported('symbolic return')
                pc = a
                continue
            if mn[0] == 'j':
                if mn in ('jmp', 'jmpq') or self.cond(mn[1:]):
                    pc = o[0][1]
                else:
                    pc = nxt
                continue
            try:
                self.ins(mn, o, s)
            except Exception as e:
                if not getattr(e, 'asmloc', None) and hasattr(e, 'loc'):
                    e.loc = '%s: %s' % (self.f.name, s)
                    e.args = (e.args[0] + ' in ' + e.loc,)
                    e.asmloc = True
                raise
            pc = nxt
        for i, v in zip(SAVED, init):
            want = v + 8 if i == 4 else v
            if self.r[i] != want:
                X.violation('callee-saved register %d not preserved by %s' % (i, self.f.name), 'abi')
        del X.mem[stk.id]
        X.ghost['rax'] = self.r[0]

    def cond(self, cc):
        if self.cmp is None:
            raise Unsupported('flags')
        kind, a, b, w = self.cmp
        if type(a) is not int or type(b) is not int:
            fl = t.flags(a) | t.flags(b)
            self.X.events.append(('branch', fl, self.f.name, None))
            raise Unsupported('symbolic asm branch')
        sa, sb = t.signed(a, w), t.signed(b, w)
        if kind == 'logic':
            r = a
            sr = sa
            return {'e': r == 0, 'z': r == 0, 'ne': r != 0, 'nz': r != 0, 's': sr < 0, 'ns': sr >= 0}[cc]
        return {'e': a == b, 'z': a == b, 'ne': a != b, 'nz': a != b, 'b': a < b, 'ae': a >= b, 'a': a > b, 'be': a <= b,
                'c': a < b, 'nc': a >= b, 'l': sa < sb, 'ge': sa >= sb, 'g': sa > sb, 'le': sa <= sb,
                's': t.signed((a - b) & t.M(w), w) < 0, 'ns': t.signed((a - b) & t.M(w), w) >= 0}[cc]

    def ins(self, mn, o, s):
        X = self.X
        if mn[0] == 'v':
            return self.vins(mn, o, s)
        w = {'q': 64, 'l': 32, 'w': 16, 'b': 8}.get(mn[-1])
        base = mn[:-1]
        if mn in ('nop', 'nopw', 'nopl', 'endbr64', 'nopq', 'vzeroupper'):
            return
        if w is None:
            raise Unsupported('asm ' + s)
        if base in ('mov', 'movabs'):
            self.gset(o[1], self.gsrc(o[0], w), w)
        elif base == 'lea':
            self.gset(o[1], self.addr(o[0]) & t.M(w), w)
        elif base in ('add', 'sub', 'and', 'or', 'xor', 'imul'):
            a = self.gsrc(o[1], w)
            if base == 'xor' and o[0] == o[1]:
                a = b = 0
            else:
                b = self.gsrc(o[0], w)
            f = dict(add=t.add, sub=t.sub, imul=t.mul, or_=t.or_, xor=t.xor)
            f['and'] = t.and_
            f['or'] = t.or_
            r = f[base](a, b, w)
            self.gset(o[1], r, w)
            self.cmp = ('sub', a, b, w) if base == 'sub' else ('logic', r, 0, w)
        elif base == 'cmp':
            self.cmp = ('sub', self.gsrc(o[1], w), self.gsrc(o[0], w), w)
        elif base == 'test':
            self.cmp = ('logic', t.and_(self.gsrc(o[1], w), self.gsrc(o[0], w), w), 0, w)
        elif base in ('inc', 'dec'):
            a = self.gsrc(o[0], w)
            r = t.add(a, 1 if base == 'inc' else t.M(w), w)
            self.gset(o[0], r, w)
            self.cmp = ('logic', r, 0, w)
        elif base in ('shl', 'shr', 'sar', 'sal'):
            k = o[0][1] if len(o) > 1 else 1
            a = self.gsrc(o[-1], w)
            r = {'shl': t.shl_c, 'sal': t.shl_c, 'shr': t.lshr_c, 'sar': t.ashr_c}[base](a, k, w)
            self.gset(o[-1], r, w)
            self.cmp = ('logic', r, 0, w)
        elif base == 'neg':
            self.gset(o[0], t.sub(0, self.gsrc(o[0], w), w), w)
        elif base == 'push':
            self.r[4] -= 8
            X.store(self.r[4], self.gsrc(o[0], 64), 8)
        elif base == 'pop':
            self.gset(o[0], X.load(self.r[4], 8), 64)
            self.r[4] += 8
        else:
            raise Unsupported('asm ' + s)

    def vins(self, mn, o, s):
        X = self.X
        if mn == 'vzeroupper':
            return
        d = o[-1]
        bits = 128 if (d[0] == 'x') else 256
        if mn in ('vmovdqa', 'vmovdqu', 'vmovaps', 'vmovups', 'vmovapd', 'vmovupd', 'vlddqu'):
            src = o[0]
            w = 128 if 'x' in (src[0], d[0]) else 256
            al = w // 8 if mn in ('vmovdqa', 'vmovaps', 'vmovapd') else 1
            if d[0] == 'm':
                X.storev(self.addr(d), self.vsrc(src), w // 8, al)
            else:
                self.vset(d, self.vsrc(src, w, al))
            return
        if mn in ('vmovd', 'vmovq'):
            w = 32 if mn == 'vmovd' else 64
            if d[0] in 'xy':
                if o[0][0] == 'x':
                    v = t.relane(low128(self.v[o[0][1]]), 64)[0]
                else:
                    v = self.gsrc(o[0], w)
                self.vset(('x', d[1]), Vec(w, [v] + [0] * (128 // w - 1)))
            else:
                self.gset(d, t.relane(self.v[o[0][1]], w)[0], w)
            return
        if mn in ('vpbroadcastq', 'vpbroadcastd', 'vpbroadcastw', 'vpbroadcastb'):
            w = {'q': 64, 'd': 32, 'w': 16, 'b': 8}[mn[-1]]
            if o[0][0] == 'm':
                vv = X.loadv(self.addr(o[0]), w // 8, w, 1)
                l = vv.l
                self.vset(d, Vec(vv.ew, l * (bits // w)))
            else:
                x = t.relane(self.v[o[0][1]], w)[0]
                self.vset(d, Vec(w, [x] * (bits // w)))
            return
        if mn == 'vbroadcasti128' or mn == 'vbroadcastf128':
            vv = X.loadv(self.addr(o[0]), 16, 64, 1)
            self.vset(d, Vec(vv.ew, vv.l * 2))
            return
        g = lambda i: self.vsrc(o[i], bits)
        W = {'b': 8, 'w': 16, 'd': 32, 'q': 64}
        m = re.match(r'vp(add|sub)([bwdq])$', mn)
        if m:
            f = t.add if m.group(1) == 'add' else t.sub
            w = W[m.group(2)]
            self.vset(d, Vec(w, [f(x, y, w) for x, y in zip(t.relane(g(1), w), t.relane(g(0), w))]))
            return
        if mn in ('vpmullw', 'vpmulld'):
            w = 16 if mn == 'vpmullw' else 32
            self.vset(d, Vec(w, [t.mul(x, y, w) for x, y in zip(t.relane(g(1), w), t.relane(g(0), w))]))
            return
        if mn == 'vpmulhw':
            self.vset(d, ir.mulh(X, g(1), g(0)))
            return
        if mn == 'vpmulhuw':
            self.vset(d, ir.mulhu(X, g(1), g(0)))
            return
        if mn == 'vpmulhrsw':
            self.vset(d, ir.mulhrs(X, g(1), g(0)))
            return
        if mn in ('vpand', 'vpor', 'vpxor', 'vpandn', 'vandps', 'vxorps', 'vorps'):
            a, b = g(1), g(0)
            if mn in ('vpxor', 'vxorps') and o[0] == o[1]:
                self.vset(d, Vec(64, [0] * (bits // 64)))
                return
            w = min(a.ew, b.ew)
            f = {'vpand': t.and_, 'vpor': t.or_, 'vpxor': t.xor, 'vandps': t.and_, 'vxorps': t.xor, 'vorps': t.or_,
                 'vpandn': lambda x, y, w: t.and_(t.xor(x, t.M(w), w), y, w)}[mn]
            self.vset(d, Vec(w, [f(x, y, w) for x, y in zip(t.relane(a, w), t.relane(b, w))]))
            return
        m = re.match(r'vp(sll|srl|sra)([wdq])$', mn)
        if m and o[0][0] == 'i':
            w = W[m.group(2)]
            self.vset(d, ir.shimm({'sll': 'shl', 'srl': 'lshr', 'sra': 'ashr'}[m.group(1)], w)(X, g(1), o[0][1]))
            return
        m = re.match(r'vp(sll|srl)dq$', mn)
        if m:
            l = t.relane(g(1), 8)
            k = o[0][1]
            out = []
            for h in range(0, len(l), 16):
                q = l[h:h + 16]
                out += ([0] * k + q)[:16] if m.group(1) == 'sll' else (q + [0] * k)[k:k + 16]
            self.vset(d, Vec(8, out))
            return
        if mn == 'vperm2i128' or mn == 'vperm2f128':
            k = o[0][1]
            a, b = self.vsrc(o[2]), self.vsrc(o[1])
            w = min(a.ew, b.ew)
            la, lb = t.relane(a, w), t.relane(b, w)
            h = len(la) // 2
            ch = [la[:h], la[h:], lb[:h], lb[h:]]
            lo = [0] * h if k & 8 else ch[k & 3]
            hi = [0] * h if k & 0x80 else ch[(k >> 4) & 3]
            self.vset(d, Vec(w, lo + hi))
            return
        m = re.match(r'vpunpck([lh])(bw|wd|dq|qdq)$', mn)
        if m:
            w = {'bw': 8, 'wd': 16, 'dq': 32, 'qdq': 64}[m.group(2)]
            a, b = t.relane(g(1), w), t.relane(g(0), w)
            a0, b0 = g(1), g(0)
            out = []
            per = 128 // w
            for h in range(0, len(a), per):
                rng = range(h, h + per // 2) if m.group(1) == 'l' else range(h + per // 2, h + per)
                for i in rng:
                    out += [a[i], b[i]]
            self.vset(d, Vec(w, out))
            return
        if mn in ('vmovsldup', 'vmovshdup'):
            l = t.relane(self.vsrc(o[0], bits), 32)
            k = 0 if mn == 'vmovsldup' else 1
            self.vset(d, Vec(32, [l[(i & ~1) + k] for i in range(len(l))]))
            return
        if mn in ('vpblendd', 'vpblendw', 'vblendps'):
            w = 16 if mn == 'vpblendw' else 32
            k = o[0][1]
            a, b = t.relane(self.vsrc(o[2], bits), w), t.relane(self.vsrc(o[1], bits), w)
            self.vset(d, Vec(w, [b[i] if k >> (i % 8) & 1 else a[i] for i in range(len(a))]))
            return
        if mn == 'vpblendvb':
            self.vset(d, ir.blendv8(X, self.vsrc(o[2], bits), self.vsrc(o[1], bits), self.vsrc(o[0], bits)))
            return
        if mn == 'vpshufb':
            self.vset(d, ir.pshufb(X, g(1), g(0)))
            return
        if mn == 'vpshufd':
            l = t.relane(g(1), 32)
            k = o[0][1]
            self.vset(d, Vec(32, [l[(i & ~3) + (k >> (2 * (i & 3)) & 3)] for i in range(len(l))]))
            return
        if mn in ('vpshuflw', 'vpshufhw'):
            l = t.relane(g(1), 16)
            k = o[0][1]
            out = list(l)
            b = 0 if mn == 'vpshuflw' else 4
            for h in range(0, len(l), 8):
                for i in range(4):
                    out[h + b + i] = l[h + b + (k >> (2 * i) & 3)]
            self.vset(d, Vec(16, out))
            return
        if mn == 'vpermq' or mn == 'vpermpd':
            l = t.relane(g(1), 64)
            k = o[0][1]
            self.vset(d, Vec(64, [l[k >> (2 * i) & 3] for i in range(4)]))
            return
        if mn == 'vpermd' or mn == 'vpermps':
            idx = t.relane(self.vsrc(o[1]), 32)
            l = t.relane(self.vsrc(o[0]), 32)
            if any(type(i) is not int for i in idx):
                raise Unsupported('vpermd index')
            self.vset(d, Vec(32, [l[i & 7] for i in idx]))
            return
        if mn == 'vpalignr':
            k = o[0][1]
            a, b = t.relane(self.vsrc(o[2], bits), 8), t.relane(self.vsrc(o[1], bits), 8)
            out = []
            for h in range(0, len(a), 16):
                c = b[h:h + 16] + a[h:h + 16] + [0] * 32
                out += c[k:k + 16]
            self.vset(d, Vec(8, out))
            return
        if mn == 'vextracti128':
            v = self.vsrc(o[1])
            h = len(v.l) // 2
            if v.ew > 128:
                raise Unsupported('lanes')
            part = Vec(v.ew, v.l[h:] if o[0][1] & 1 else v.l[:h])
            if d[0] == 'm':
                X.storev(self.addr(d), part, 16, 1)
            else:
                self.vset(d, part)
            return
        if mn == 'vinserti128':
            a = self.vsrc(o[2])
            b = low128(self.v[o[1][1]]) if o[1][0] == 'x' else X.loadv(self.addr(o[1]), 16, 64, 1)
            w = min(a.ew, b.ew)
            la, lb = t.relane(a, w), t.relane(b, w)
            h = len(la) // 2
            self.vset(d, Vec(w, la[:h] + lb if o[0][1] & 1 else lb + la[h:]))
            return
        m = re.match(r'vpcmp(gt|eq)([bwdq])$', mn)
        if m:
            w = W[m.group(2)]
            a, b = t.relane(g(1), w), t.relane(g(0), w)
            f = (lambda x, y: t.slt(y, x, w)) if m.group(1) == 'gt' else (lambda x, y: t.eq(x, y, w))
            self.vset(d, Vec(w, [t.sext(f(x, y), 1, w) for x, y in zip(a, b)]))
            return
        m = re.match(r'vp(max|min)([us])([bwd])$', mn)
        if m:
            w = W[m.group(3)]
            self.vset(d, ir.minmax(m.group(2) + m.group(1) if False else {'s': 's', 'u': 'u'}[m.group(2)] + m.group(1), w)(X, g(1), g(0)))
            return
        if mn == 'vpmaddwd':
            self.vset(d, ir.pmadd_wd(X, g(1), g(0)))
            return
        if mn == 'vpmaddubsw':
            self.vset(d, ir.pmadd_ubsw(X, g(1), g(0)))
            return
        m = re.match(r'vpack(ss|us)(wb|dw)$', mn)
        if m:
            w = 16 if m.group(2) == 'wb' else 32
            n = w // 2
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if m.group(1) == 'ss' else (0, (1 << n) - 1)
            self.vset(d, ir.packs(w, lo, hi)(X, g(1), g(0)))
            return
        m = re.match(r'vp(sll|srl|sra)v([dq])$', mn)
        if m:
            w = W[m.group(2)]
            self.vset(d, ir.shvar({'sll': 'shl', 'srl': 'lshr', 'sra': 'ashr'}[m.group(1)], w)(X, g(1), g(0)))
            return
        raise Unsupported('asm ' + s)


def low128(v):
    if v.ew > 128:
        return Vec(128, [t.ext(v.l[0], 0, 128, v.ew)])
    return Vec(v.ew, v.l[:128 // v.ew])
