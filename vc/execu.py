"""Forward symbolic executor / verification-condition generator for the parsed IR and assembly."""
import re, time
from . import term as t
from .term import T, Vec, SECRET, UNDEF
from . import ir
from .ir import Unsupported


class Violation(Exception):
    """a safety obligation is refuted on this path"""
    def __init__(self, kind, msg, loc=None):
        Exception.__init__(self, '%s: %s%s' % (kind, msg, ' at ' + loc if loc else ''))
        self.kind = kind
        self.msg = msg
        self.loc = loc


class Aborted(Exception):
    pass


GW = {}      # writes to objects of static storage met during execution: object -> program points


SHORT = re.compile(r'^pqcrystals_kyber(?:512|768|1024)?_(?:(?:fips202x4|fips202)_)?(?:ref|avx2)_')
PREF = re.compile(r'^pqcrystals_')


def short(name):
    n = SHORT.sub('', name)
    return n


class Obj:
    __slots__ = ('id', 'base', 'size', 'cells', 'own', 'tok', 'name', 'ro', 'trk', 'rlo', 'rhi', 'wlo', 'whi',
                 'promised', 'tag', 'ghost')

    def clone(self, tok):
        o = Obj()
        o.id, o.base, o.size = self.id, self.base, self.size
        o.cells = dict(self.cells)
        o.own = self.own[:]
        o.tok = tok
        o.name, o.ro, o.trk = self.name, self.ro, self.trk
        o.rlo, o.rhi, o.wlo, o.whi = self.rlo, self.rhi, self.wlo, self.whi
        o.promised = self.promised
        o.tag = self.tag
        o.ghost = self.ghost
        return o


def mkobj(oid, size, align, name, ro=False, misalign=None):
    o = Obj()
    o.id = oid
    al = max(align, 1)
    if misalign is None:
        # the weakest placement that satisfies `align`: an odd multiple of it
        base = (oid << 32) + 0x10000
        base += al % 64 if al < 64 else 0
    else:
        base = (oid << 32) + 0x10000 + misalign
    o.base = base
    o.size = size
    o.cells = {}
    o.own = [-1] * size
    o.tok = None
    o.name = name
    o.ro = ro
    o.trk = False
    o.rlo = o.wlo = 1 << 60
    o.rhi = o.whi = -1
    o.promised = size
    o.tag = None
    o.ghost = None
    return o


class Prog:
    """linked program: IR modules plus assembly functions"""

    def __init__(self):
        self.mods = []
        self.funcs = {}      # exported name -> Func
        self.glob = {}       # name or (mod,name) -> objid
        self.objs = {}       # objid -> Obj
        self.nextobj = 1
        self.asm = {}
        self.byshort = {}
        self.pending = {}
        self.decl_addr = {}

    def add(self, mod):
        self.mods.append(mod)
        for f in mod.funcs.values():
            if not f.internal:
                self.funcs[f.name] = f
                self.byshort.setdefault(short(f.name), f.name)
        for name, (ty, init, const, al, internal) in mod.globals.items():
            if init is None:
                continue
            o = mkobj(self.nextobj, len(init), al, name, ro=const)
            for i, b in enumerate(init):
                if b is not None:
                    o.cells[i] = (b, 1)
                    o.own[i] = i
            o.tag = 'global' if not const else 'const'
            self.objs[o.id] = o
            self.glob[(id(mod), name) if internal else name] = o.id
            self.nextobj += 1

    def gaddr(self, mod, name):
        k = (id(mod), name)
        if k in self.glob:
            return self.objs[self.glob[k]].base
        if name in self.glob:
            return self.objs[self.glob[name]].base
        # function address or undefined data
        if name not in self.decl_addr:
            self.decl_addr[name] = (self.nextobj << 32) + 0x10000
            self.nextobj += 1
        return self.decl_addr[name]

    def resolve(self, name, mod):
        if mod is not None:
            f = mod.funcs.get(name)
            if f is not None:
                return f
        return self.funcs.get(name)

    def find(self, shortname):
        """exported function by un-namespaced name (C or asm)"""
        n = self.byshort.get(shortname)
        if n:
            return n
        for a in self.asm:
            if short(a) == shortname:
                return a
        return None


class Frame:
    __slots__ = ('f', 'R', 'seg', 'ret', 'allocas')
    # R: register file; seg: current segment; ret: caller register of the result


class X:
    def __init__(self, prog):
        self.prog = prog
        self.mem = dict(prog.objs)
        self.nextobj = max(prog.nextobj, 1) + 1000
        self.tok = object()
        self.frames = []
        self.contracts = {}
        self.skip = None
        self.events = []          # control-flow / address / division observations with flags
        self.obls = {}            # deferred arithmetic obligations
        self.path = []            # path condition terms
        self.decider = None
        self.forkconds = []       # undecided branches met: (path condition, condition)
        self.steps = 0
        self.maxsteps = 50_000_000
        self.calls = {}           # callee -> count (contract uses and inlined)
        self.inlined = set()
        self.result = None
        self.ghost = {}
        self.loc = None
        self.deadline = None

    # -------------------------------------------------------- cloning
    def clone(self):
        y = type(self).__new__(type(self))
        y.__dict__.update(self.__dict__)
        y.mem = dict(self.mem)
        self.tok = object()
        y.tok = object()
        y.frames = []
        for f in self.frames:
            g = Frame()
            g.f, g.seg, g.ret = f.f, f.seg, f.ret
            g.R = f.R[:]
            g.allocas = f.allocas[:]
            y.frames.append(g)
        y.path = self.path[:]
        y.ghost = dict(self.ghost)
        return y

    # -------------------------------------------------------- errors
    def where(self):
        if not self.frames:
            return None
        f = self.frames[-1]
        return '%s(%s)' % (short(f.f.name), f.f.seglabel[f.seg] if f.f.code else '?')

    def violation(self, msg, kind='ub'):
        raise Violation(kind, msg, self.where())

    def unsupported(self, msg):
        raise Unsupported(msg)

    def obl_nsw(self, op, a, b, w, r):
        k = (op, a, b, w)
        if k not in self.obls:
            self.obls[k] = self.where()

    def obl_shift(self, b, w):
        k = ('shiftamt', b, None, w)
        if k not in self.obls:
            self.obls[k] = self.where()

    def divop(self, op, a, b, w):
        return t.divop(op, a, b, w)

    def event_div(self, op, a, b, w):
        fl = t.flags(a) | t.flags(b)
        if fl:
            self.events.append(('div', fl, self.where(), op))

    def sym_pshufb(self, lanes, c):
        return t.psh(c, lanes)

    # -------------------------------------------------------- memory
    def new(self, size, align, name, **kw):
        o = mkobj(self.nextobj, size, align, name, **kw)
        self.nextobj += 1
        o.tok = self.tok
        self.mem[o.id] = o
        return o

    def alloca(self, size, cnt, align, name):
        if type(cnt) is not int:
            if t.flags(cnt) & (SECRET | UNDEF):
                self.events.append(('alloca', t.flags(cnt), self.where(), name))
            raise Unsupported('symbolic alloca')
        o = self.new(size * cnt, max(align, 1), name)
        if self.frames:
            self.frames[-1].allocas.append(o.id)
        return o.base

    def obj(self, addr, n, what):
        o = self.mem.get(addr >> 32)
        if o is None:
            raise Violation('memory', '%s of %d bytes at invalid address' % (what, n), self.where())
        off = addr - o.base
        if off < 0 or off + n > o.size:
            raise Violation('memory', '%s of %d bytes at offset %d outside %s (%d bytes)' % (what, n, off, o.name, o.size), self.where())
        return o, off

    def load(self, addr, n, al=1):
        if type(addr) is not int:
            return self.symload(addr, n, al)
        o = self.mem.get(addr >> 32)
        if o is not None:
            off = addr - o.base
            c = o.cells.get(off)
            if c is not None and c[1] == n:
                if o.trk:
                    if off < o.rlo:
                        o.rlo = off
                    if off + n > o.rhi:
                        o.rhi = off + n
                if addr & (al - 1):
                    self.misaligned(o, off, n, al, 'read')
                return c[0]
        return self.load_slow(addr, n, al)

    def misaligned(self, o, off, n, al, what):
        raise Violation('alignment', '%s of %d bytes in %s+%d needs alignment %d' % (what, n, o.name, off, al), self.where())

    def load_slow(self, addr, n, al):
        o, off = self.obj(addr, n, 'read')
        if addr & (al - 1):
            self.misaligned(o, off, n, al, 'read')
        if o.trk:
            o.rlo = min(o.rlo, off)
            o.rhi = max(o.rhi, off + n)
        parts = []
        i = off
        end = off + n
        while i < end:
            s = o.own[i]
            if s < 0:
                if o.trk and off >= o.promised:
                    nm = 'slack'
                v = t.fresh('uninit %s+%d' % (o.name, i), 8, undef=True)
                o = self.wobj(o)
                o.cells[i] = (v, 1)
                o.own[i] = i
                parts.append((v, 8))
                i += 1
                continue
            v, cn = o.cells[s]
            e = min(end, s + cn)
            if s == i and e == s + cn:
                parts.append((v, 8 * cn))
            else:
                parts.append((t.ext(v, 8 * (i - s), 8 * (e - i), 8 * cn), 8 * (e - i)))
            i = e
        return t.cat(parts)

    def wobj(self, o):
        if o.tok is not self.tok:
            if o.tag == 'global':
                GW.setdefault(o.name, set()).add(self.where())
            o = o.clone(self.tok)
            self.mem[o.id] = o
        return o

    def store(self, addr, v, n, al=1):
        if type(addr) is not int:
            return self.symstore(addr, v, n, al)
        o = self.mem.get(addr >> 32)
        if o is None:
            raise Violation('memory', 'write of %d bytes at invalid address' % n, self.where())
        off = addr - o.base
        if off < 0 or off + n > o.size:
            raise Violation('memory', 'write of %d bytes at offset %d outside %s (%d bytes)' % (n, off, o.name, o.size), self.where())
        if o.ro:
            raise Violation('frame', 'write to read-only %s+%d' % (o.name, off), self.where())
        if addr & (al - 1):
            self.misaligned(o, off, n, al, 'write')
        if o.tok is not self.tok:
            o = self.wobj(o)
        if o.trk:
            if off < o.wlo:
                o.wlo = off
            if off + n > o.whi:
                o.whi = off + n
        c = o.cells.get(off)
        if c is not None and c[1] == n:
            o.cells[off] = (v, n)
            return
        own = o.own
        cells = o.cells
        # split straddling cells
        s = own[off]
        if s >= 0 and s < off:
            self.split(o, s)
        e = own[off + n - 1]
        if e >= 0 and e + cells[e][1] > off + n:
            self.split(o, e)
        for i in range(off, off + n):
            if own[i] == i:
                del cells[i]
            own[i] = off
        cells[off] = (v, n)

    def split(self, o, s):
        v, n = o.cells[s]
        for i in range(n):
            o.cells[s + i] = (t.ext(v, 8 * i, 8, 8 * n), 1)
            o.own[s + i] = s + i

    def loadv(self, addr, nb, ew, al):
        if type(addr) is not int:
            addr_t = addr
            return Vec(ew, [self.load(t.add(addr_t, i * (ew // 8), 64), ew // 8, 1) for i in range(nb * 8 // ew)])
        o = self.mem.get(addr >> 32)
        if o is not None:
            off = addr - o.base
            if off >= 0 and off + nb <= o.size:
                if addr & (al - 1):
                    self.misaligned(o, off, nb, al, 'read')
                c = o.cells.get(off)
                if c is not None:
                    st = c[1]
                    if nb % st == 0:
                        l = []
                        for k in range(off, off + nb, st):
                            c = o.cells.get(k)
                            if c is None or c[1] != st:
                                break
                            l.append(c[0])
                        else:
                            if o.trk:
                                o.rlo = min(o.rlo, off)
                                o.rhi = max(o.rhi, off + nb)
                            return Vec(st * 8, l)
        else:
            self.obj(addr, nb, 'read')
        self.obj(addr, nb, 'read')
        # mixed cells: fall back to the finest natural width present
        g = ew // 8
        for k in range(nb):
            s = o.own[off + k]
            if s < 0:
                g = min(g, 1) if g > 1 and (k % g or any(o.own[min(off + k + j, o.size - 1)] >= 0 for j in range(g))) else g
            elif o.cells[s][1] < g or (s - off) % g:
                c = o.cells[s][1]
                g = min(g, c)
                if (s - off) % g:
                    g = 1
        return Vec(8 * g, [self.load(addr + i, g, 1) for i in range(0, nb, g)])

    def storev(self, addr, v, nb, al):
        if type(addr) is not int:
            self.symstore(addr, v, nb, al)
            return
        ew = v.ew
        l = v.l
        if ew % 8:
            l = t.relane(v, 8)
            ew = 8
        n = ew // 8
        if addr & (al - 1):
            o, off = self.obj(addr, nb, 'write')
            self.misaligned(o, off, nb, al, 'write')
        self.obj(addr, nb, 'write')
        for i, x in enumerate(l):
            self.store(addr + i * n, x, n)

    def _addr_event(self, addr, what):
        fl = t.flags(addr)
        self.events.append(('addr', fl, self.where(), what))
        if fl & UNDEF:
            raise Violation('uninit', '%s address depends on uninitialised memory' % what, self.where())

    def conc_addr(self, addr):
        """try to make an address concrete"""
        return None

    def ite_addr(self, addr):
        if addr.op == 'ite':
            return addr.a
        if addr.op == 'add' and type(addr.a[1]) is int and type(addr.a[0]) is T and addr.a[0].op == 'ite':
            c, a, b = addr.a[0].a
            return c, t.add(a, addr.a[1], 64), t.add(b, addr.a[1], 64)
        return None

    def symload(self, addr, n, al):
        self._addr_event(addr, 'read')
        r = self.ite_addr(addr)
        if r is not None:
            c, a, b = r
            return t.ite(c, self.load(a, n, al), self.load(b, n, al), 8 * n)
        # base + k*index with a small index: constant-table lookup
        if addr.op == 'add' and type(addr.a[1]) is int:
            v, c = addr.a[0], addr.a[1]
        else:
            v, c = addr, 0
        mb = t.maybe(v)
        if c and mb < (1 << 20):
            nz = [(sw, off) for s, sw, off in _segoffs(v) if type(s) is not int]
            lo = min(off for sw, off in nz)
            hi = max(off + sw for sw, off in nz)
            if hi - lo <= 12 and all(s == 0 for s, sw, off in _segoffs(v) if type(s) is int):
                tab = []
                for k in range(1 << (hi - lo)):
                    x = self.load(c + (k << lo), n, al)
                    if type(x) is not int:
                        raise Unsupported('symbolic table')
                    tab.append(x)
                return t.tbl(tuple(tab), t.ext(v, lo, hi - lo, v.w), hi - lo, 8 * n)
        raise Unsupported('symbolic read address %s' % t.show(addr, 3))

    def symstore(self, addr, v, n, al):
        self._addr_event(addr, 'write')
        r = self.ite_addr(addr)
        if r is not None:
            c, a, b = r
            va, vb = self.load(a, n, al), self.load(b, n, al)
            self.store(a, t.ite(c, v, va, 8 * n), n, al)
            vb = self.load(b, n, al)
            self.store(b, t.ite(c, vb, v, 8 * n), n, al)
            return
        raise Unsupported('symbolic write address %s' % t.show(addr, 3))

    def memcpy(self, d, s, n):
        if type(n) is not int:
            fl = t.flags(n)
            self.events.append(('addr', fl, self.where(), 'memcpy length'))
            raise Unsupported('symbolic memcpy')
        if n == 0:
            return
        if type(s) is not int or type(d) is not int:
            for i in range(n):
                self.store(t.add(d, i, 64), self.load(t.add(s, i, 64), 1, 1), 1, 1)
            return
        o, off = self.obj(s, n, 'read')
        self.obj(d, n, 'write')
        items = []
        i = 0
        while i < n:
            c = o.cells.get(off + i)
            if c is not None and c[1] <= n - i:
                items.append((i, self.load(s + i, c[1]), c[1]))
                i += c[1]
            else:
                items.append((i, self.load(s + i, 1), 1))
                i += 1
        for i, v, k in items:
            self.store(d + i, v, k)

    def memset(self, d, c, n):
        if type(n) is not int:
            raise Unsupported('symbolic memset')
        if n == 0:
            return
        self.obj(d, n, 'write')
        c = t.trunc(c, 8, 8) if type(c) is T else c & 255
        if type(c) is int and n % 8 == 0:
            v = c * 0x0101010101010101
            for i in range(0, n, 8):
                self.store(d + i, v, 8)
        else:
            for i in range(n):
                self.store(d + i, c, 1)

    # -------------------------------------------------------- control
    def push(self, f, args, ret):
        if not f.code:
            ir.compile_func(f, self.prog)
        fr = Frame()
        fr.f = f
        fr.R = [None] * f.nregs
        for (ty, n), a in zip(f.params, args):
            fr.R[f.regs[n]] = a
        fr.seg = 0
        fr.ret = ret
        fr.allocas = []
        if len(self.frames) > 200:
            raise Unsupported('recursion depth')
        self.frames.append(fr)

    def pop(self, val):
        fr = self.frames.pop()
        for i in fr.allocas:
            del self.mem[i]
        if self.frames:
            c = self.frames[-1]
            if fr.ret >= 0:
                c.R[fr.ret] = val
        else:
            self.result = val

    def docall(self, name, args, ret):
        """returns True when a frame was pushed"""
        s = short(name)
        h = self.contracts.get(s)
        if h is not None and s != self.skip:
            self.calls[s] = self.calls.get(s, 0) + 1
            v = h(self, args)
            if v is PUSHED:
                return True
            if ret >= 0:
                self.frames[-1].R[ret] = v
            return False
        f = self.prog.resolve(name, self.frames[-1].f.mod if self.frames else None)
        if f is not None:
            self.inlined.add(s)
            self.push(f, args, ret)
            return True
        a = self.prog.asm.get(name)
        if a is not None:
            self.inlined.add(s)
            a.run(self, args)
            return False
        h = LIBC.get(name)
        if h:
            v = h(self, args)
            if ret >= 0:
                self.frames[-1].R[ret] = v
            return False
        raise Unsupported('call to unknown function ' + name)

    def drive(self, join=None, depth=0):
        """run to the end (or to segment join=(frame depth, segment)); undecided branches are explored on both
        sides and the states merged where the sides meet again"""
        while True:
            r = self.step_until_fork(join=join)
            if r is None or r == 'join':
                return
            c, et, ef = r
            fr = self.frames[-1]
            j = (len(self.frames), fr.f.ipd[fr.seg])
            self.forks = getattr(self, 'forks', 0) + 1
            if depth > 24 or self.forks > 20000:
                raise Unsupported('too many undecided branches, last on %s at %s' % (t.show(c, 3), self.where()))
            if len(self.forkconds) < 500:
                self.forkconds.append((self.path[:], c))
            y = self.clone()
            self.take(et)
            y.take(ef)
            n = len(self.path)
            self.path.append(c)
            y.path.append(t.xor(c, 1, 1))
            dead = []
            for z in (self, y):
                try:
                    z.drive(j, depth + 1)
                except Aborted:
                    dead.append(z)
                except Violation as e:
                    from . import smt
                    if smt.feasible(z.path):
                        e.path = z.path
                        raise
                    dead.append(z)
            if len(dead) == 2:
                raise Aborted()
            self.forks = max(self.forks, y.forks)
            if dead:
                live = y if dead[0] is self else self
                if live is y:
                    self.__dict__.update(y.__dict__)
                continue
            del self.path[n:]
            self.merge(c, y)

    def merge(self, c, y):
        """self := ite(c, self, y); both stand at the same program point"""
        if len(self.frames) != len(y.frames):
            raise Unsupported('branches return to different depths')
        for n, (f, g) in enumerate(zip(self.frames, y.frames)):
            top = n == len(self.frames) - 1
            if f.f is not g.f or (top and f.seg != g.seg):
                raise Unsupported('branches do not meet')
            rs = f.f.live[f.seg] if top else range(len(f.R))
            for i in rs:
                a, b = f.R[i], g.R[i]
                if a is b:
                    continue
                if a is None or b is None:
                    f.R[i] = None
                    continue
                f.R[i] = mergev(c, a, b, f.f.regw.get(i))
            for i in g.allocas:
                if i not in f.allocas:
                    f.allocas.append(i)
        if not self.frames and self.result is not y.result:
            self.result = mergev(c, self.result, y.result, 32)
        for oid, o in y.mem.items():
            p = self.mem.get(oid)
            if p is o:
                continue
            if p is None:
                self.mem[oid] = o
                continue
            if p.size != o.size or p.name != o.name:
                raise Unsupported('different objects after a branch')
            p = self.wobj(p)
            p.rlo, p.rhi = min(p.rlo, o.rlo), max(p.rhi, o.rhi)
            p.wlo, p.whi = min(p.wlo, o.wlo), max(p.whi, o.whi)
            if p.own != o.own:
                o = o.clone(None)
                self.align_cells(p, o)
            for off, (v, n) in list(p.cells.items()):
                u = o.cells[off][0]
                if u is not v and not (type(u) is int and type(v) is int and u == v):
                    p.cells[off] = (t.ite(c, v, u, 8 * n), n)
        self.nextobj = max(self.nextobj, y.nextobj)
        self.steps = max(self.steps, y.steps)

    def align_cells(self, p, o):
        """give both objects the same cell boundaries"""
        i = 0
        n = p.size
        while i < n:
            if p.own[i] == o.own[i]:
                s = p.own[i]
                if s == i and p.cells[s][1] == o.cells[s][1]:
                    i += p.cells[s][1]
                    continue
                if s < 0:
                    i += 1
                    continue
            for q in (p, o):
                s = q.own[i]
                if s < 0:
                    q.cells[i] = (t.fresh('uninit %s+%d' % (q.name, i), 8, undef=True), 1)
                    q.own[i] = i
                elif q.cells[s][1] > 1:
                    self.split(q, s)
            i += 1

    def step_until_fork(self, stop=None, join=None):
        """run until the frames are empty (returns None) or an undecided branch is hit
        (returns (cond, edge_true, edge_false)). stop(X) may end at back edges."""
        frames = self.frames
        while frames:
            fr = frames[-1]
            f = fr.f
            if join is not None and (len(frames) < join[0] or (len(frames) == join[0] and fr.seg == join[1])):
                return 'join'
            act = f.segs[fr.seg](fr.R, self)
            self.steps += 1
            if self.steps & 0xfff == 0:
                if self.steps > self.maxsteps:
                    raise Unsupported('step limit')
                if self.deadline and time.time() > self.deadline:
                    raise Unsupported('time limit')
            k = act[0]
            if k == 'br':
                e, to, back = f.edges[act[1]]
                if e:
                    e(fr.R)
                fr.seg = to
                if back and stop is not None:
                    if stop(self):
                        return 'stop'
            elif k == 'call':
                fr.seg += 1
                if not self.docall(act[1], act[2], act[3]):
                    pass
            elif k == 'cbr':
                c = act[1]
                d = self.branch(c)
                if d is None:
                    return (c, act[2], act[3])
                self.take(act[2] if d else act[3])
            elif k == 'ret':
                self.pop(act[1])
            elif k == 'switch':
                v = act[1]
                if type(v) is not int:
                    raise Unsupported('symbolic switch')
                self.take(act[3].get(v, act[4]))
            else:
                raise Violation('ub', 'unreachable reached', self.where())
        return None

    def take(self, edge):
        fr = self.frames[-1]
        e, to, back = fr.f.edges[edge]
        if e:
            e(fr.R)
        fr.seg = to

    def branch(self, c):
        """decide a symbolic condition, or None"""
        fl = t.flags(c)
        self.events.append(('branch', fl, self.where(), None))
        if fl & UNDEF:
            raise Violation('uninit', 'branch depends on uninitialised memory', self.where())
        if self.decider is not None:
            return self.decider(self, c)
        for p in self.path:
            if p is c:
                return True
            if t.xor(p, 1, 1) is c:
                return False
        return None

    def run(self, name, args):
        """single-path run of an exported function (by full name)"""
        f = self.prog.funcs.get(name)
        if f is None:
            a = self.prog.asm.get(name)
            if a is None:
                raise Unsupported('no function ' + name)
            a.run(self, args)
            return None
        self.push(f, args, -1)
        self.drive()
        return self.result


PUSHED = object()


def mergev(c, a, b, rw=None):
    if a is b:
        return a
    if type(a) is Vec or type(b) is Vec:
        if type(a) is not Vec or type(b) is not Vec:
            raise Unsupported('merge of vector and scalar')
        la, lb, ew = a.l, b.l, a.ew
        if a.ew != b.ew:
            ew = min(a.ew, b.ew)
            la, lb = t.relane(a, ew), t.relane(b, ew)
        return Vec(ew, [t.ite(c, x, y, ew) for x, y in zip(la, lb)])
    w = a.w if type(a) is T else b.w if type(b) is T else 64
    if type(a) is not T and type(b) is not T and a != b:
        if rw is None:
            raise Unsupported('merge of integer constants of unknown width')
        w = rw
    return t.ite(c, a, b, w)




def _segoffs(v):
    off = 0
    out = []
    for s, sw in t.segs(v, v.w if type(v) is T else 64):
        out.append((s, sw, off))
        off += sw
    return out


def _memcmp(X, args):
    a, b, n = args[:3]
    if type(n) is not int:
        raise Unsupported('memcmp length')
    fl = 0
    e = 1
    for i in range(n):
        x, y = X.load(a + i, 1), X.load(b + i, 1)
        fl |= t.flags(x) | t.flags(y)
        e = t.and_(e, t.eq(x, y, 8), 1)
    if fl:
        X.events.append(('branch', fl, X.where(), 'memcmp'))
    # sign unspecified: nonzero
    return t.zext(t.xor(e, 1, 1), 1, 32)


def _memcpy(X, args):
    X.memcpy(args[0], args[1], args[2])
    return args[0]


def _memset(X, args):
    X.memset(args[0], t.trunc(args[1], 32, 8), args[2])
    return args[0]


def _abort(X, args):
    raise Aborted()


LIBC = dict(memcmp=_memcmp, bcmp=_memcmp, memcpy=_memcpy, memmove=_memcpy, memset=_memset, abort=_abort)
