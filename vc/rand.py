"""randombytes over the contract of the operating system's random source, for every length and every
sequence of outcomes (C17).

Ghost state: F = bytes of the request delivered so far (always a prefix), E = an unrecoverable error was
returned, B = some error other than an interruption was returned.  A system call asked for n bytes at p
delivers any number 1..n of them or fails with any errno.  Loops are closed by an invariant found by
Houdini-style weakening over the candidates {F, L-F, out+F, L, out, constants}; every step is decided by z3."""
import os, re, time, random, ctypes, subprocess
from . import term as t, ir, execu, build, smt, search
from .term import T, UNDEF
from .execu import X, Violation, Aborted
from .ir import Unsupported

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LMAX = (1 << 62) - 1
L = t.var('outlen', 64, lo=0, hi=LMAX)
OUT = t.var('out', 64, lo=1 << 16, hi=LMAX)
EINTR, EAGAIN = 4, 11

VARIANTS = [('linux', []), ('urandom', ['-U__linux__']), ('netbsd', ['-U__linux__', '-D__NetBSD__']), ('win32', ['-D_WIN32', '-I' + os.path.join(HERE, 'lib/win')])]


class Refuted(Exception):
    pass


def prog(impl, flags, name):
    src = os.path.join(build.REPO, impl, 'randombytes.c')
    out = os.path.join(build.scratch(), 'rb_%s_%s' % (impl, name))
    build.sh([build.LLVM + 'clang', '-O0', '-Xclang', '-disable-O0-optnone', '-w', '-emit-llvm', '-c'] + flags + [src, '-o', out + '.bc'])
    build.sh([build.LLVM + 'opt', '-passes=mem2reg', '-S', out + '.bc', '-o', out + '.ll'])
    p = execu.Prog()
    p.impl, p.k = impl, 0
    m = ir.Module('randombytes.c')
    m.parse(open(out + '.ll').read())
    p.add(m)
    return p


def neg(c):
    return t.xor(c, 1, 1)


def le(a, b):
    return neg(t.ult(b, a, 64))


class XR(X):
    def __init__(self, p):
        X.__init__(self, p)
        self.F, self.E, self.B = 0, 0, 0
        self.ncall = 0
        e = self.new(4, 4, 'errno')
        e.cells[0] = (t.var('errno0', 32), 4)
        for i in range(4):
            e.own[i] = 0
        self.errno = e
        self.fds = set()
        self.eng = None

    def prove(self, c, msg):
        if type(c) is int:
            if c & 1:
                self.eng.nobl += 1
                return
            if smt.feasible(self.path):
                raise Refuted(msg)
            return
        st = self.eng.sat(self.path + [neg(c)])
        if st == 'unsat':
            self.eng.nobl += 1
            return
        if st == 'sat':
            raise Refuted(msg + ' (at %s)' % self.where())
        raise Unsupported('z3: undecided: ' + msg)

    # the request buffer is addressed symbolically
    def inside(self, addr, n):
        self.prove(t.ult(t.sub(addr, OUT, 64), L, 64) if n == 1 else le(t.add(t.sub(addr, OUT, 64), n, 64), L), 'access outside the request buffer')
        self.prove(le(t.sub(addr, OUT, 64), L), 'access outside the request buffer')

    def symload(self, addr, n, al):
        if type(addr) is T and OUT in t.support(addr):
            self.inside(addr, n)
            return t.fresh('reread', 8 * n)
        return X.symload(self, addr, n, al)

    def symstore(self, addr, v, n, al):
        if type(addr) is T and OUT in t.support(addr):
            self.inside(addr, n)
            self.prove(le(self.F, t.sub(addr, OUT, 64)), 'a byte the source delivered is overwritten')
            return
        X.symstore(self, addr, v, n, al)

    def memset(self, d, c, n):
        if type(d) is T and OUT in t.support(d):
            off = t.sub(d, OUT, 64)
            self.prove(le(off, L), 'memset outside the request buffer')
            self.prove(le(n, t.sub(L, off, 64)), 'memset outside the request buffer')
            st = self.eng.sat(self.path + [neg(t.eq(n, 0, 64)), t.ult(off, self.F, 64)])
            if st == 'unsat':
                return
            if st == 'sat':
                raise Refuted('delivered bytes are overwritten')
            raise Unsupported('memset')
        X.memset(self, d, c, n)


def source(x, p, n, what):
    """n bytes at p requested from the operating system: (result as 64-bit term)"""
    if type(p) is int or OUT not in t.support(p):
        raise Unsupported('%s into another buffer' % what)
    x.ncall += 1
    off = t.sub(p, OUT, 64)
    x.prove(le(off, L), '%s writes outside the request buffer' % what)
    x.prove(le(n, t.sub(L, off, 64)), '%s is asked for more bytes than are left in the buffer' % what)
    x.prove(t.or_(t.eq(off, x.F, 64), t.eq(n, 0, 64), 1), '%s does not continue where the delivered bytes end' % what)
    err = t.fresh('err', 1)
    k = t.fresh('got', 64)
    e = t.fresh('errno', 32)
    x.path.append(le(k, n))
    x.path.append(le(k, 0x7ffff000))      # no Linux system call transfers more
    x.path.append(t.or_(t.eq(n, 0, 64), neg(t.eq(k, 0, 64)), 1))
    failed(x, err, e)
    x.F = t.add(x.F, t.ite(err, 0, k, 64), 64)
    return t.ite(err, t.M(64), k, 64)


def failed(x, err, e):
    x.path.append(neg(t.and_(err, t.eq(e, 0, 32), 1)))
    x.store(x.errno.base, t.ite(err, e, x.load(x.errno.base, 4), 32), 4)
    intr = t.eq(e, EINTR, 32)
    again = t.eq(e, EAGAIN, 32)
    x.B = t.or_(x.B, t.and_(err, neg(intr), 1), 1)
    x.E = t.or_(x.E, t.and_(err, t.and_(neg(intr), neg(again), 1), 1), 1)


def handlers():
    def syscall(x, a):
        nr = a[0]
        if type(nr) is not int:
            raise Unsupported('symbolic system call number')
        if nr != 318:
            raise Unsupported('system call %d' % nr)
        flags(x, a[3])
        return source(x, a[1], a[2], 'getrandom')

    def flags(x, f):
        f = f if type(f) is int else None
        if f is None or f & 0xffffffff & ~3:
            raise Unsupported('getrandom flags')

    def getrandom(x, a):
        flags(x, a[2])
        return source(x, a[0], a[1], 'getrandom')

    def read(x, a):
        fd = a[0]
        if type(fd) is int or not (t.support(fd) & x.fds):
            raise Unsupported('read from another descriptor')
        return source(x, a[1], a[2], 'read')

    def openf(x, a):
        p = a[0]
        s = b''
        while type(p) is int:
            c = x.load(p + len(s), 1)
            if type(c) is not int or not c:
                break
            s += bytes([c])
        if s not in (b'/dev/urandom', b'/dev/random'):
            raise Unsupported('open of %r' % s)
        x.ncall += 1
        err = t.fresh('err', 1)
        fd = t.fresh('fd', 32)
        e = t.fresh('errno', 32)
        x.path.append(neg(t.slt(fd, 0, 32)))
        failed(x, err, e)
        x.fds.add(fd)
        return t.ite(err, t.M(32), fd, 32)

    def crypt(x, a):
        x.ncall += 1
        err = t.fresh('err', 1)
        x.store(a[0], t.fresh('hprov', 64), 8)
        x.E = t.or_(x.E, err, 1)
        x.B = t.or_(x.B, err, 1)
        r = t.fresh('true', 32)
        x.path.append(neg(t.eq(r, 0, 32)))
        return t.ite(err, 0, r, 32)

    def cgen(x, a):
        n = t.zext(a[1], 32, 64)
        p = a[2]
        if type(p) is int or OUT not in t.support(p):
            raise Unsupported('CryptGenRandom into another buffer')
        x.ncall += 1
        off = t.sub(p, OUT, 64)
        x.prove(le(off, L), 'CryptGenRandom writes outside the request buffer')
        x.prove(le(n, t.sub(L, off, 64)), 'CryptGenRandom is asked for more bytes than are left in the buffer')
        x.prove(t.or_(t.eq(off, x.F, 64), t.eq(n, 0, 64), 1), 'CryptGenRandom does not continue where the delivered bytes end')
        err = t.fresh('err', 1)
        r = t.fresh('true', 32)
        x.path.append(neg(t.eq(r, 0, 32)))
        x.E = t.or_(x.E, err, 1)
        x.B = t.or_(x.B, err, 1)
        x.F = t.add(x.F, t.ite(err, 0, n, 64), 64)
        return t.ite(err, 0, r, 32)

    def crel(x, a):
        err = t.fresh('err', 1)
        x.B = t.or_(x.B, err, 1)
        r = t.fresh('true', 32)
        x.path.append(neg(t.eq(r, 0, 32)))
        return t.ite(err, 0, r, 32)

    def die(x, a):
        x.prove(x.B, 'the process is aborted although the source only interrupted or delivered')
        raise Aborted()
    return dict(syscall=syscall, getrandom=getrandom, read=read, open=openf, open64=openf, close=lambda x, a: 0,
                __errno_location=lambda x, a: x.errno.base, abort=die, exit=die, _exit=die,
                CryptAcquireContext=crypt, CryptGenRandom=cgen, CryptReleaseContext=crel)


class Inv:
    pass


class Engine:
    def __init__(self, p):
        self.p = p
        self.inv = {}
        self.work = []
        self.nobl = 0
        self.paths = 0
        self.aborts = 0
        self.end = time.time() + 150
        self.q = 0

    def sat(self, conds):
        self.q += 1
        if time.time() > self.end:
            raise Unsupported('time limit')
        tr = smt.Tr()
        return smt.check(tr, [tr(c, 1) == 1 for c in conds if not (type(c) is int and c & 1)] +
                         [tr(c, 1) == 1 for c in conds if type(c) is int and not c & 1], 20)[0]

    def slots(self, x):
        s = {}
        for d, fr in enumerate(x.frames):
            ret = x.frames[d + 1].ret if d + 1 < len(x.frames) else -1
            for r in fr.f.live[fr.seg]:
                v = fr.R[r]
                if v is not None and r != ret:
                    s[('r', d, r)] = (v, fr.f.regw.get(r) or (v.w if type(v) is T else 64))
        for oid, o in x.mem.items():
            if o.ro or o.tag == 'const':
                continue
            for k, (v, n) in o.cells.items():
                s[('m', oid, k)] = (v, 8 * n)
        s['F'] = (x.F, 64)
        s['E'] = (x.E, 1)
        s['B'] = (x.B, 1)
        return s

    def cands(self, key, v, w, x):
        """candidate expressions of a slot as functions of the ghost F"""
        c = []
        if key in ('E', 'B'):
            return [('const', 0), ('const', 1)]
        if key == 'F':
            return [('const', 0), ('fill',)]
        if w == 64:
            c += [('out+F',), ('L-F',), ('F',), ('L',), ('out',)]
        if type(v) is int or not any(z.op == 'var' and z not in self.init for z in t.support(v)):
            c.append(('const', v))
        return c

    def val(self, c, F):
        k = c[0]
        return {'out+F': lambda: t.add(OUT, F, 64), 'L-F': lambda: t.sub(L, F, 64), 'F': lambda: F, 'L': lambda: L, 'out': lambda: OUT,
                'const': lambda: c[1]}[k]()

    def holds(self, x, v, c, w):
        if c[0] == 'fill':
            return True
        u = self.val(c, x.F)
        if v is u or (type(v) is int and type(u) is int and v == u):
            return True
        st = self.sat(x.path + [neg(t.eq(v, u, w))])
        if st == 'unknown':
            raise Unsupported('z3: loop invariant undecided')
        return st == 'unsat'

    def head(self, x):
        k = tuple((id(f.f), f.seg) for f in x.frames)
        s = self.slots(x)
        x.prove(le(x.F, L), 'more bytes are delivered than requested')
        I = self.inv.get(k)
        if I is None:
            I = Inv()
            I.c = {}
            for key, (v, w) in s.items():
                I.c[key] = [c for c in self.cands(key, v, w, x) if self.holds(x, v, c, w)]
            I.shape = self.shape(x)
            self.inv[k] = I
            self.work.append(self.instantiate(x, I, s))
            return
        if I.shape != self.shape(x) or set(s) != set(I.c):
            raise Unsupported('loop state changes shape')
        ch = False
        for key, (v, w) in s.items():
            if not I.c[key]:
                continue
            if self.holds(x, v, I.c[key][0], w):
                continue
            I.c[key] = [c for c in I.c[key][1:] if self.holds(x, v, c, w)]
            ch = True
        if ch:
            self.work.append(self.instantiate(x, I, s))

    def shape(self, x):
        return tuple(sorted((oid, tuple(sorted((k, n) for k, (v, n) in o.cells.items()))) for oid, o in x.mem.items() if not o.ro and o.tag != 'const'))

    def instantiate(self, x, I, s):
        y = x.clone()
        y.path = self.base[:]
        c = I.c['F'][0]
        if c[0] == 'fill':
            F = t.fresh('F', 64)
            y.path.append(le(F, L))
        else:
            F = c[1]
        y.F = F

        def new(key, w):
            c = I.c[key]
            return self.val(c[0], F) if c else t.fresh('any', w)
        y.E, y.B = new('E', 1), new('B', 1)
        for key, (v, w) in s.items():
            if key in ('F', 'E', 'B'):
                continue
            u = new(key, w)
            if key[0] == 'r':
                y.frames[key[1]].R[key[2]] = u
            else:
                o = y.wobj(y.mem[key[1]])
                n = o.cells[key[2]][1]
                o.cells[key[2]] = (u, n)
                if v in self.fdcells.get(key[1:], ()) or (type(u) is T and w == 32 and key[1:] in self.fdkeys):
                    y.fds.add(u) if type(u) is T else None
        return y

    def run(self):
        f = self.p.funcs.get('randombytes')
        if f is None or len(f.params) != 2:
            raise Unsupported('no function randombytes(out, outlen)')
        x = XR(self.p)
        x.eng = self
        x.contracts = handlers()
        self.base = []
        self.init = {L, OUT}
        self.fdkeys, self.fdcells = set(), {}
        # a descriptor kept in a static variable: -1 or one opened by an earlier call
        for oid, o in list(x.mem.items()):
            if o.tag == 'global' and o.size == 4 and all(o.cells.get(i, (0, 0)) == (255, 1) for i in range(4)):
                v = t.var('fd_static', 32)
                o = x.wobj(o)
                o.cells = {0: (v, 4)}
                o.own = [0] * 4
                x.fds.add(v)
                self.init.add(v)
                self.fdkeys.add((oid, 0))
                self.base.append(t.or_(t.eq(v, t.M(32), 32), neg(t.slt(v, 0, 32)), 1))
            elif o.tag == 'global' and not o.ro:
                raise Unsupported('other static state in randombytes.c')
        x.path = self.base[:]
        x.push(f, [OUT, L], -1)
        self.work.append(x)
        n = 0
        while self.work:
            x = self.work.pop()
            n += 1
            if n > 3000:
                raise Unsupported('too many paths')
            try:
                r = x.step_until_fork(stop=lambda z: True)
            except Aborted:
                self.aborts += 1
                continue
            except Violation as e:
                if smt.feasible(x.path):
                    raise Refuted(str(e))
                continue
            if r is None:
                self.paths += 1
                x.prove(t.eq(x.F, L, 64), 'a normal return leaves bytes the source did not deliver')
                x.prove(neg(x.E), 'a normal return follows an unrecoverable error of the source')
                continue
            if r == 'stop':
                self.head(x)
                continue
            c, et, ef = r
            y = x.clone()
            for z, e, cc in ((x, et, c), (y, ef, neg(c))):
                z.path.append(cc)
                st = self.sat(z.path)
                if st == 'unsat':
                    continue
                fr = z.frames[-1]
                ed, to, back = fr.f.edges[e]
                if ed:
                    ed(fr.R)
                fr.seg = to
                if back:
                    self.head(z)
                else:
                    self.work.append(z)
        return self


# ---------------------------------------------------------------- native
def native_so(impl, name, flags):
    out = os.path.join(build.scratch(), 'rbn_%s_%s.so' % (impl, name))
    if not os.path.exists(out):
        o = out + '.%d' % os.getpid()
        build.sh([build.LLVM + 'clang' if name == 'netbsd' else 'gcc', '-O2', '-w', '-fPIC', '-c'] + flags + [os.path.join(build.REPO, impl, 'randombytes.c'), '-o', o + '.o'])
        build.sh(['gcc', '-O1', '-w', '-fPIC', '-c', os.path.join(HERE, 'lib/fakeos.c'), '-o', o + '.f.o'])
        build.sh(['gcc', '-shared', '-Wl,' + ','.join('--wrap=' + s for s in ('syscall', 'getrandom', 'read', 'open', 'close', 'abort', 'exit', '_exit')),
                  '-Wl,-Bsymbolic', o + '.o', o + '.f.o', '-o', o])
        os.rename(o, out)
    return out


WHY = {10: 'returned normally although the source had failed', 11: 'returned with bytes the source never delivered', 12: 'changed bytes the source delivered',
       13: 'wrote outside the request buffer', 20: 'aborted although the source only interrupted or delivered', 23: 'makes no progress',
       24: 'asked the source to write outside the request buffer', 25: 'made another system call'}


def run_case(so, n, script, seed=1):
    """verdict of one request of n bytes against one script, in a fresh process state (static variables)"""
    lib = ctypes.CDLL(so)
    g = 64
    buf = ctypes.create_string_buffer(n + 2 * g + 8)
    w, m = ctypes.create_string_buffer(n + 8), ctypes.create_string_buffer(n + 8)
    s = (ctypes.c_long * max(1, len(script)))(*script)
    return lib.vc_case(buf, w, m, ctypes.c_size_t(g), ctypes.c_size_t(n), s, ctypes.c_long(len(script)), ctypes.c_long(len(script) + 100), ctypes.c_uint64(seed))


def scripts(seed, win=False):
    rnd = random.Random(seed)
    E = (4, 4, 4, 5, 14, 38, 11, 9, 22)
    lens = [0, 1, 2, 31, 32, 33, 63, 64, 65, 255, 256, 257, 512, 1000, 4096, 65535, 65536, 65537, 100000, 1048576, 1048577, 3000000]
    for n in lens[:17]:
        yield n, []
        for e in (4, 5, 38, 11):
            yield n, [-e]
            yield n, [1, -e]
            yield n, [-4, -e]
            yield n, [max(1, n - 1), -e]
            yield n, [1, -4, 1, -e]
        for k in (1, 2, 7, 31, 32, 33, 100, 255, 256, 257):
            yield n, [k] * min(40, n // k + 1)
            yield n, [k, -4] * min(20, n // k + 1)
            yield n, [-4, -4, -4, k, -4]
    for n in lens[17:] + [33554431, 33554433, (1 << 25) + 7]:
        yield n, []
        yield n, [n - 1, -4]
    while True:
        n = rnd.choice(lens[:17] + [rnd.randrange(1, 5000)])
        s = []
        for _ in range(rnd.randrange(0, 30)):
            s.append(-rnd.choice(E) if rnd.random() < 0.3 else rnd.choice((1, 2, 8, 16, 31, 32, 33, 64, 256, rnd.randrange(1, 5000))))
        yield n, s


def find_case(impl, name, flags, seconds, seed):
    so = native_so(impl, name, flags)

    def go():
        end = time.time() + seconds
        c = 0
        for n, s in scripts(seed):
            c += 1
            v = run_case(so, n, s, seed + c)
            if v:
                return c, (n, s, v)
            if time.time() > end:
                break
        return c, None
    r = search.isolated(go, seconds + 120)
    if r[0] == 'ok':
        return r[1]
    if r[0] == 'error':
        raise RuntimeError(r[1])
    return 0, (None, None, str(r))


def job_native(rec, impl, variant, seconds, seed):
    flags = dict(VARIANTS)[variant]
    try:
        c, bad = find_case(impl, variant, flags, seconds, seed)
    except build.BuildError as e:
        if variant == 'linux':
            raise
        rec.unk('%s randombytes (%s) native' % (impl, variant), 'does not build here: ' + str(e)[-300:])
        return
    rec.bounded.append(('native randombytes (%s branch) against scripted sources' % variant, c))
    if bad:
        rec.bad('%s randombytes (%s branch) on scripted sources' % (impl, variant), 'native execution', WHY.get(bad[2], str(bad[2])),
                dict(rb=dict(impl=impl, variant=variant, n=bad[0], script=bad[1], verdict=bad[2])), kind='native')


def job_rand(rec, impl, variant, seed):
    flags = dict(VARIANTS)[variant]
    name = '%s randombytes (%s branch)' % (impl, variant)
    try:
        p = prog(impl, flags, variant)
    except build.BuildError as e:
        if variant == 'linux':
            raise
        rec.unk(name, 'does not build here: ' + str(e)[-300:])
        return
    e = Engine(p)
    rec.func('randombytes', '%s/%s' % (impl, variant))
    t0 = time.time()
    try:
        e.run()
    except Refuted as r:
        # reported only when the compiled function misbehaves on a concrete source
        c, bad = find_case(impl, variant, flags, 30, seed)
        rec.bounded.append(('native randombytes (%s branch) against scripted sources' % variant, c))
        if bad:
            rec.bad(name + ': ' + str(r), 'z3', WHY.get(bad[2], str(bad[2])), dict(rb=dict(impl=impl, variant=variant, n=bad[0], script=bad[1], verdict=bad[2])))
        else:
            rec.unk(name, 'obligation not proved, and no source sequence found that shows a failure: %s' % r)
        return
    except Unsupported as r:
        rec.unk(name, 'unsupported: %s' % r)
        return
    if not e.paths:
        rec.unk(name, 'no path returns')
        return
    rec.ok(name + ': every normal return has delivered exactly the requested bytes, in place, and follows no unrecoverable error; '
           'interruptions and short reads never abort; every request to the source lies inside the buffer', 'z3', e.nobl, time.time() - t0)
    rec.ok(name + ': loop invariants are inductive', 'z3', max(1, len(e.inv)))
    rec.stats['queries'] = rec.stats.get('queries', 0) + e.q


def confirm(fails, tier, seed, end):
    for f in fails:
        c = f.get('cex')
        if c and 'rb' in c:
            c = c['rb']
            if c['n'] is None:
                return dict(type='rand', found=True, text='native randombytes: %s' % c['verdict'], **c)
            r = search.isolated(lambda: run_case(native_so(c['impl'], c['variant'], dict(VARIANTS)[c['variant']]), c['n'], c['script']), 60)
            if r[0] != 'ok' or r[1]:
                v = r[1] if r[0] == 'ok' else r
                return dict(type='rand', found=True, text='%s randombytes (%s branch), request of %d bytes, source outcomes %s then everything: %s' % (
                    c['impl'], c['variant'], c['n'], c['script'], WHY.get(v, str(v))), **c)
    return None
