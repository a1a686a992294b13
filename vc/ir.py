"""Parser for the textual LLVM IR that clang -O0 + mem2reg produces from the real sources,
and translation of every basic block into a Python closure over the symbolic executor."""
import re
from . import term as t
from .term import Vec, T

TOK = re.compile(r'''c"(?:[^"]*)"|"[^"]*"|%"[^"]*"|[%@][\w.$-]+|-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-f]+|-?\d+|[A-Za-z_][\w.]*|\.\.\.|[<>\[\]{}(),=*#!:|]''')

ATTRS = set('''noundef signext zeroext noalias nocapture readonly writeonly nonnull returned immarg
 inreg noreturn nounwind dso_local local_unnamed_addr unnamed_addr fastcc tail musttail notail inbounds
 captures nofree noreturn'''.split())


class Unsupported(Exception):
    pass


class P:
    def __init__(self, s, mod):
        self.k = TOK.findall(s)
        self.i = 0
        self.mod = mod
        self.s = s

    def peek(self):
        return self.k[self.i] if self.i < len(self.k) else None

    def next(self):
        x = self.k[self.i]
        self.i += 1
        return x

    def acc(self, x):
        if self.i < len(self.k) and self.k[self.i] == x:
            self.i += 1
            return True
        return False

    def exp(self, x):
        if not self.acc(x):
            raise Unsupported('parse: expected %s at %r in %s' % (x, self.k[self.i:self.i + 4], self.s[:200]))

    def attrs(self):
        while True:
            x = self.peek()
            if x in ATTRS:
                self.i += 1
            elif x == 'align':
                self.i += 2
            elif x in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'elementtype', 'range', 'memory'):
                self.i += 1
                self.exp('(')
                d = 1
                while d:
                    y = self.next()
                    d += (y == '(') - (y == ')')
            else:
                return

    def type(self):
        x = self.next()
        if x[0] == 'i' and x[1:].isdigit():
            return ('i', int(x[1:]))
        if x == 'ptr':
            return ('i', 64)
        if x == 'void':
            return ('void',)
        if x == 'float':
            return ('i', 32)
        if x == 'double':
            return ('i', 64)
        if x == '<':
            if self.acc('{'):
                fs = self.fields('}')
                self.exp('>')
                return ('st', tuple(fs), True)
            n = int(self.next())
            self.exp('x')
            ty = self.type()
            self.exp('>')
            return ('vec', n, ty)
        if x == '[':
            n = int(self.next())
            self.exp('x')
            ty = self.type()
            self.exp(']')
            return ('arr', n, ty)
        if x == '{':
            return ('st', tuple(self.fields('}')), False)
        if x[0] == '%':
            return self.mod.types[x]
        if x == 'metadata' or x == 'label':
            return (x,)
        raise Unsupported('type %s in %s' % (x, self.s[:120]))

    def fields(self, close):
        fs = []
        if self.acc(close):
            return fs
        while True:
            fs.append(self.type())
            if self.acc(close):
                return fs
            self.exp(',')

    def operand(self, ty):
        """returns ('r',name) | ('c',value) | ('g',name,off)"""
        x = self.next()
        if x[0] == '%':
            return ('r', x)
        if x[0] == '@':
            return ('g', x[1:], 0)
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x in ('null',):
            return ('c', 0)
        if x == 'zeroinitializer':
            return ('c', zero(ty))
        if x in ('undef', 'poison'):
            return ('u', ty)
        if x == '<':
            l = []
            while True:
                ety = self.type()
                l.append(self.operand(ety))
                if self.acc('>'):
                    break
                self.exp(',')
            if any(o[0] == 'u' for o in l):
                return ('uv', ty, l)
            return ('c', Vec(bits(ty[2]), [o[1] for o in l]))
        if x == 'splat':
            self.exp('(')
            ety = self.type()
            o = self.operand(ety)
            self.exp(')')
            return ('c', Vec(bits(ty[2]), [o[1]] * ty[1]))
        if x == 'getelementptr':
            self.attrs()
            self.exp('(')
            bty = self.type()
            self.exp(',')
            self.type()
            o = self.operand(('i', 64))
            idx = []
            while self.acc(','):
                self.attrs()
                ity = self.type()
                idx.append(self.operand(ity)[1] if True else None)
                idx[-1] = t.signed(idx[-1], ity[1])
            self.exp(')')
            off, _ = gepconst(bty, idx)
            if o[0] != 'g':
                raise Unsupported('gep const')
            return ('g', o[1], o[2] + off)
        if x in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
            self.exp('(')
            ty2 = self.type()
            o = self.operand(ty2)
            self.exp('to')
            self.type()
            self.exp(')')
            return o
        if re.match(r'-?\d+$', x):
            w = bits(ty)
            return ('c', int(x) & t.M(w))
        if re.match(r'-?\d+\.', x) and float(x) == 0.0:
            return ('c', 0)
        raise Unsupported('operand %s in %s' % (x, self.s[:160]))

    def top(self):
        ty = self.type()
        self.attrs()
        return ty, self.operand(ty)


def zero(ty):
    if ty[0] == 'i':
        return 0
    if ty[0] == 'vec':
        return Vec(bits(ty[2]), [0] * ty[1])
    return 0


def bits(ty):
    if ty[0] == 'i':
        return ty[1]
    if ty[0] == 'vec':
        return ty[1] * bits(ty[2])
    raise Unsupported('bits %r' % (ty,))


def align_of(ty):
    if ty[0] == 'i':
        n = (ty[1] + 7) // 8
        a = 1
        while a < n:
            a *= 2
        return a
    if ty[0] == 'vec':
        n = (bits(ty) + 7) // 8
        a = 1
        while a < n:
            a *= 2
        return a
    if ty[0] == 'arr':
        return align_of(ty[2])
    if ty[0] == 'st':
        if ty[2]:
            return 1
        return max([align_of(f) for f in ty[1]] or [1])
    raise Unsupported('align')


def size_of(ty):
    if ty[0] == 'i':
        n = (ty[1] + 7) // 8
        a = align_of(ty)
        return (n + a - 1) // a * a
    if ty[0] == 'vec':
        return (bits(ty) + 7) // 8
    if ty[0] == 'arr':
        return ty[1] * size_of(ty[2])
    if ty[0] == 'st':
        o = 0
        for f in ty[1]:
            if not ty[2]:
                a = align_of(f)
                o = (o + a - 1) // a * a
            o += size_of(f)
        if not ty[2]:
            a = align_of(ty)
            o = (o + a - 1) // a * a
        return o
    raise Unsupported('size')


def field_off(ty, i):
    o = 0
    for j, f in enumerate(ty[1]):
        if not ty[2]:
            a = align_of(f)
            o = (o + a - 1) // a * a
        if j == i:
            return o
        o += size_of(f)
    raise Unsupported('field')


def gepconst(bty, idx):
    off = idx[0] * size_of(bty)
    ty = bty
    for i in idx[1:]:
        if ty[0] == 'st':
            off += field_off(ty, i)
            ty = ty[1][i]
        elif ty[0] in ('arr', 'vec'):
            ty = ty[2]
            off += i * size_of(ty)
        else:
            raise Unsupported('gep type')
    return off, ty


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []     # (type, regname)
        self.ret = None
        self.blocks = []     # (label, [instr lines])
        self.internal = False
        self.mod = None
        self.code = None


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}    # name -> (type, init, const, align, internal)

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        # types may refer to later ones: iterate
        tl = [l for l in lines if l.startswith('%') and ' = type ' in l]
        pend = tl
        while pend:
            nxt = []
            for l in pend:
                nm, d = l.split(' = type ', 1)
                try:
                    if d.strip() == 'opaque':
                        self.types[nm] = ('opaque',)
                    else:
                        self.types[nm] = P(d, self).type()
                except KeyError:
                    nxt.append(l)
            if len(nxt) == len(pend):
                raise Unsupported('recursive types')
            pend = nxt
        while i < n:
            l = lines[i]
            if l.startswith('@'):
                self.parse_global(l)
            elif l.startswith('declare'):
                m = re.search(r'@([\w.$]+)\(', l)
                if m and not m.group(1).startswith('llvm.'):
                    self.decls[m.group(1)] = l
            elif l.startswith('define'):
                i = self.parse_func(lines, i)
            i += 1
        return self

    def parse_global(self, l):
        m = re.match(r'@([\w.$]+) = (.*)$', l)
        name, rest = m.group(1), m.group(2)
        internal = False
        ext = False
        const = False
        toks = rest.split(' ')
        k = 0
        while True:
            x = toks[k]
            if x in ('internal', 'private'):
                internal = True
            elif x in ('external',):
                ext = True
            elif x == 'constant':
                const = True
                k += 1
                break
            elif x == 'global':
                k += 1
                break
            elif x in ('common', 'dso_local', 'unnamed_addr', 'local_unnamed_addr', 'hidden'):
                pass
            elif x.startswith('thread_local'):
                pass
            else:
                return
            k += 1
        p = P(' '.join(toks[k:]), self)
        ty = p.type()
        init = None
        if not ext:
            init = self.init(p, ty)
        al = align_of(ty)
        m = re.search(r', align (\d+)', l)
        if m:
            al = int(m.group(1))
        self.globals[name] = (ty, init, const, al, internal)

    def init(self, p, ty):
        """returns bytes (list of ints) or None"""
        x = p.peek()
        if x == 'zeroinitializer':
            p.next()
            return [0] * size_of(ty)
        if x in ('undef', 'poison'):
            p.next()
            return [None] * size_of(ty)
        if ty[0] == 'i':
            o = p.operand(ty)
            if o[0] != 'c':
                raise Unsupported('global init ref')
            return list(o[1].to_bytes(size_of(ty), 'little'))
        if ty[0] in ('arr', 'vec'):
            if x.startswith('c"'):
                p.next()
                s = x[2:-1]
                out = []
                i = 0
                while i < len(s):
                    if s[i] == '\\':
                        out.append(int(s[i + 1:i + 3], 16))
                        i += 3
                    else:
                        out.append(ord(s[i]))
                        i += 1
                return out
            close = ']' if ty[0] == 'arr' else '>'
            p.next()
            out = []
            if ty[1] == 0:
                p.exp(close)
                return out
            while True:
                ety = p.type()
                out += self.init(p, ety)
                if p.acc(close):
                    return out
                p.exp(',')
        if ty[0] == 'st':
            packed = p.next() == '<'
            if packed:
                p.exp('{')
            out = []
            j = 0
            while True:
                ety = p.type()
                o = field_off(ty, j)
                out += [0] * (o - len(out))
                out += self.init(p, ety)
                j += 1
                if p.acc('}'):
                    break
                p.exp(',')
            if packed:
                p.exp('>')
            out += [0] * (size_of(ty) - len(out))
            return out
        raise Unsupported('init %r' % (ty,))

    def parse_func(self, lines, i):
        l = lines[i]
        m = re.match(r'define\s+(.*?)@([\w.$]+)\(', l)
        f = Func(m.group(2))
        f.mod = self
        f.internal = bool(re.search(r'\b(internal|private)\b', m.group(1)))
        p = P(m.group(1), self)
        while p.peek() in ATTRS or p.peek() in ('internal', 'private', 'hidden', 'linkonce_odr', 'weak', 'available_externally', 'noundef'):
            p.next()
        f.ret = p.type()
        p = P(l[m.end():], self)
        if not p.acc(')'):
            while True:
                if p.acc('...'):
                    break
                ty = p.type()
                p.attrs()
                f.params.append((ty, p.next()))
                if p.acc(')'):
                    break
                p.exp(',')
        i += 1
        cur = None
        blocks = []
        nparam = len(f.params)
        while lines[i] != '}':
            s = lines[i]
            if s.startswith('  '):
                if cur is None:
                    cur = ('%' + str(nparam), [])
                    blocks.append(cur)
                s = s.strip()
                # switch spans lines
                if s.startswith('switch'):
                    while not s.rstrip().endswith(']') and ']' not in s:
                        i += 1
                        s += ' ' + lines[i].strip()
                cur[1].append(s)
            elif s and not s.startswith(';'):
                m = re.match(r'([\w.$-]+):', s)
                if m:
                    cur = ('%' + m.group(1), [])
                    blocks.append(cur)
            i += 1
        f.blocks = blocks
        self.funcs[f.name] = f
        return i


def _strip_meta(s):
    k = s.find(', !')
    if k >= 0:
        s = s[:k]
    return s


class Seg:
    __slots__ = ('fn', 'label', 'live', 'src')


# ------------------------------------------------------------------ compile
def compile_func(f, prog):
    """Translate to segments. f.segs[i].fn(R,X) -> action tuple; f.nregs; f.entry."""
    regs = {}

    def reg(n):
        if n not in regs:
            regs[n] = len(regs)
        return regs[n]
    for ty, n in f.params:
        reg(n)
    labels = {}
    regw = {}
    segs = []          # list of (label or None, [code lines])
    consts = {}
    env = dict(rt)
    env['_t'] = t

    def const(v):
        k = 'K%d' % len(consts)
        consts[k] = v
        env[k] = v
        return k

    def opnd(o, ty=None):
        if o[0] == 'r':
            return 'R[%d]' % reg(o[1])
        if o[0] == 'c':
            v = o[1]
            if type(v) is int:
                return str(v)
            return const(v)
        if o[0] == 'g':
            return str(prog.gaddr(f.mod, o[1]) + o[2])
        if o[0] == 'u':
            return 'mkundef(%r)' % (o[1],)
        if o[0] == 'uv':
            l = ','.join(opnd(x) for x in o[2])
            return 'Vec(%d,[%s])' % (bits(o[1][2]), l)
        raise Unsupported('opnd')

    # first pass: labels -> segment index unknown until built; use label dict resolved later
    blocks = f.blocks
    phis = {}    # label -> [(dst, ty, {pred: operand})]
    for lab, ins in blocks:
        ph = []
        for s in ins:
            m = re.match(r'(%[\w.]+) = phi (.*)$', s)
            if not m:
                break
            p = P(_strip_meta(m.group(2)), f.mod)
            ty = p.type()
            inc = {}
            while True:
                p.exp('[')
                o = p.operand(ty)
                p.exp(',')
                pl = p.next()
                p.exp(']')
                inc[pl] = (o, ty)
                if not p.acc(','):
                    break
            ph.append((m.group(1), inc))
            regw[reg(m.group(1))] = ty
        phis[lab] = ph

    def edge(frm, to):
        """code for the phi assignments on the edge, and the action expr"""
        ph = phis.get(to, [])
        if not ph:
            return ''
        d = ','.join('R[%d]' % reg(n) for n, _ in ph)
        v = ','.join(opnd(inc[frm][0]) for _, inc in ph)
        return '%s,=%s,\n' % (d, v) if len(ph) == 1 else '%s=%s\n' % (d, v)

    edges = {}

    def edge_id(frm, to):
        k = (frm, to)
        if k not in edges:
            edges[k] = len(edges)
        return edges[k]

    uses = {}   # seg index -> (uses before def, defs)

    for lab, ins in blocks:
        cur = []
        labels[lab] = len(segs)
        lablocal = lab
        first = True
        for s in ins:
            s = _strip_meta(s)
            if ' = phi ' in s:
                continue
            m = re.match(r'(%[\w.]+) = (.*)$', s)
            dst = None
            body = s
            if m:
                dst, body = m.group(1), m.group(2)
            op = body.split(' ', 1)[0]
            if op in ('tail', 'musttail', 'notail'):
                body = body.split(' ', 1)[1]
                op = 'call'
            p = P(body, f.mod)
            p.next()
            if op == 'call':
                call = parse_call(p, f.mod)
                callee, args, rty = call
                if callee is None:
                    # inline asm: only empty identity asm is understood
                    if call[2] == 'asmid':
                        cur.append('R[%d]=%s' % (reg(dst), opnd(args[0][1])))
                        continue
                    cur.append('X.unsupported("inline asm")')
                    continue
                if callee.startswith('llvm.'):
                    if callee.startswith(('llvm.dbg', 'llvm.lifetime', 'llvm.experimental.noalias')):
                        continue
                    a = ','.join(opnd(o) for ty, o in args)
                    h = intrinsic(callee, [ty for ty, _ in args], rty)
                    hn = const(h)
                    line = '%s(X,%s)' % (hn, a)
                    if dst:
                        line = 'R[%d]=%s' % (reg(dst), line)
                    cur.append(line)
                    continue
                a = ','.join(opnd(o) for ty, o in args)
                dr = reg(dst) if dst else -1
                if dst:
                    regw[dr] = rty
                cur.append('return ("call",%r,[%s],%d)' % (callee, a, dr))
                segs.append((lablocal if first else None, cur, lab))
                first = False
                cur = []
                continue
            if op == 'br':
                if p.acc('label'):
                    to = p.next()
                    cur.append('return ("br",%d)' % edge_id(lab, to))
                else:
                    ty, o = p.top()
                    p.exp(',')
                    p.exp('label')
                    a = p.next()
                    p.exp(',')
                    p.exp('label')
                    b = p.next()
                    c = opnd(o)
                    ea, eb = edge_id(lab, a), edge_id(lab, b)
                    cur.append('c=%s' % c)
                    cur.append('if type(c) is int: return ("br",%d) if c else ("br",%d)' % (ea, eb))
                    cur.append('return ("cbr",c,%d,%d)' % (ea, eb))
                continue
            if op == 'switch':
                ty, o = p.top()
                p.exp(',')
                p.exp('label')
                dflt = edge_id(lab, p.next())
                p.exp('[')
                cases = {}
                while not p.acc(']'):
                    ty2, o2 = p.top()
                    p.exp(',')
                    p.exp('label')
                    cases[o2[1]] = edge_id(lab, p.next())
                cur.append('return ("switch",%s,%d,%r,%d)' % (opnd(o), bits(ty), cases, dflt))
                continue
            if op == 'ret':
                if p.acc('void'):
                    cur.append('return ("ret",None)')
                else:
                    ty, o = p.top()
                    cur.append('return ("ret",%s)' % opnd(o))
                continue
            if op == 'unreachable':
                cur.append('return ("unreachable",)')
                continue
            cur.append(compile_ins(op, p, dst, reg, opnd, const, f))
        segs.append((lablocal if first else None, cur, lab))
    # emit
    src = []
    for i, (lab, lines, _) in enumerate(segs):
        src.append('def s%d(R,X):' % i)
        if not lines:
            lines = ['return ("unreachable",)']
        for l in lines:
            for ll in l.split('\n'):
                src.append(' ' + ll)
    for (frm, to), e in edges.items():
        src.append('def e%d(R):' % e)
        body = edge(frm, to)
        src.append(' ' + (body.strip() or 'pass'))
    code = compile('\n'.join(src), f.name, 'exec')
    exec(code, env)
    f.segs = [env['s%d' % i] for i in range(len(segs))]
    f.edges = [None] * len(edges)
    for (frm, to), e in edges.items():
        has = bool(phis.get(to))
        f.edges[e] = (env['e%d' % e] if has else None, labels[to], labels[to] <= labels[frm])
    f.nregs = len(regs)
    f.regs = regs
    f.seglabel = [x[2] for x in segs]
    # liveness over segments (for state merging): register read sets from source text
    succ = {}
    rd = re.compile(r'R\[(\d+)\]')
    use = []
    dfs = []
    for i, (lab, lines, _) in enumerate(segs):
        u = set()
        d = set()
        for l in lines:
            for ll in l.split('\n'):
                m = re.match(r'R\[(\d+)\]=(?!=)(.*)$', ll)
                rhs = m.group(2) if m else ll
                for x in rd.findall(rhs):
                    if int(x) not in d:
                        u.add(int(x))
                if m:
                    d.add(int(m.group(1)))
        sc = []
        last = '\n'.join(lines)
        for m in re.finditer(r'\("(br|cbr)",(?:c,)?(\d+)(?:,(\d+))?\)', last):
            for g in (m.group(2), m.group(3)):
                if g:
                    sc.append(int(g))
        m = re.search(r'\("switch",.*,(\{.*\}),(\d+)\)', last)
        if m:
            sc += list(eval(m.group(1)).values()) + [int(m.group(2))]
        use.append(u)
        dfs.append(d)
        ent = []
        for e in sc:
            (frm, to) = [k for k, v in edges.items() if v == e][0] if False else edge_rev(edges, e)
            ph = phis.get(to, [])
            pu = set()
            pdv = set()
            for n, inc in ph:
                pdv.add(reg(n))
                o = inc[frm][0]
                if o[0] == 'r':
                    pu.add(reg(o[1]))
                elif o[0] == 'uv':
                    for z in o[2]:
                        if z[0] == 'r':
                            pu.add(reg(z[1]))
            ent.append((labels[to], pu, pdv))
        m = re.search(r'return \("call",.*,(-?\d+)\)$', lines[-1] if lines else '')
        if m:
            r = int(m.group(1))
            ent.append((i + 1, set(), {r} if r >= 0 else set()))
        succ[i] = ent
    live = [set() for _ in segs]
    ch = True
    while ch:
        ch = False
        for i in range(len(segs) - 1, -1, -1):
            out = set()
            for to, pu, pdv in succ[i]:
                out |= (live[to] - pdv) | pu
            n = use[i] | (out - dfs[i])
            if n != live[i]:
                live[i] = n
                ch = True
    f.live = [sorted(x) for x in live]
    f.regw = {r: (64 if ty == 'ptr' else intw(ty)) for r, ty in regw.items()}
    f.ipd = postdom([[to for to, _, _ in succ[i]] for i in range(len(segs))])
    f.nregs = len(regs)
    f.code = True


def intw(ty):
    try:
        return bits(ty)
    except Exception:
        return None


def postdom(succ):
    """immediate postdominator of every segment (len(succ) = function exit)"""
    n = len(succ)
    full = (1 << (n + 1)) - 1
    pd = [full] * n + [1 << n]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            m = full
            for s in (succ[i] or [n]):
                m &= pd[s]
            m |= 1 << i
            if m != pd[i]:
                pd[i] = m
                ch = True
    out = []
    for i in range(n):
        c = [j for j in range(n + 1) if j != i and pd[i] >> j & 1]
        # the closest one is postdominated by all the others
        b = n
        for j in c:
            if all(pd[j] >> q & 1 for q in c):
                b = j
                break
        out.append(b)
    return out


_revcache = {}


def edge_rev(edges, e):
    k = id(edges)
    r = _revcache.get(k)
    if r is None or len(r[1]) != len(edges) or r[0] is not edges:
        r = (edges, {v: kk for kk, v in edges.items()})
        _revcache.clear()
        _revcache[k] = r
    return r[1][e]


def parse_call(p, mod):
    while p.peek() in ATTRS or p.peek() in ('align',):
        p.attrs()
    rty = p.type()
    if p.peek() == '(':      # varargs function type
        d = 0
        while True:
            x = p.next()
            d += (x == '(') - (x == ')')
            if d == 0:
                break
    p.attrs()
    x = p.next()
    if x == 'asm':
        flags = []
        while not p.peek().startswith('"'):
            flags.append(p.next())
        tmpl = p.next()
        p.exp(',')
        cons = p.next()
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                args.append(p.top())
                if p.acc(')'):
                    break
                p.exp(',')
        if tmpl == '""' and cons.startswith('"=r,0') and len(args) == 1:
            return None, args, 'asmid'
        return None, args, 'asm'
    if x[0] != '@':
        raise Unsupported('indirect call')
    callee = x[1:]
    p.exp('(')
    args = []
    if not p.acc(')'):
        while True:
            ty = p.type()
            p.attrs()
            if ty[0] == 'metadata':
                p.next()
                args.append((ty, ('c', 0)))
            else:
                args.append((ty, p.operand(ty)))
            if p.acc(')'):
                break
            p.exp(',')
    return callee, args, rty


BIN = {'add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'}


def compile_ins(op, p, dst, reg, opnd, const, f):
    d = 'R[%d]' % reg(dst) if dst else None
    if op in BIN:
        nsw = nuw = False
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint'):
            x = p.next()
            nsw |= x == 'nsw'
            nuw |= x == 'nuw'
        ty, a = p.top()
        p.exp(',')
        b = p.operand(ty)
        A, B = opnd(a), opnd(b)
        if ty[0] == 'vec':
            ew = bits(ty[2])
            return '%s=vbin(X,%r,%s,%s,%d,%d)' % (d, op, A, B, ew, ty[1])
        w = bits(ty)
        mask = t.M(w)
        if op in ('add', 'sub', 'mul'):
            sym = {'add': '+', 'sub': '-', 'mul': '*'}[op]
            if nsw:
                return '%s=nsw(X,%r,%s,%s,%d)' % (d, op, A, B, w)
            return ('a=%s;b=%s\n%s=(a%sb)&%d if type(a) is int and type(b) is int else _t.%s(a,b,%d)'
                    % (A, B, d, sym, mask, op, w))
        if op in ('and', 'or', 'xor'):
            sym = {'and': '&', 'or': '|', 'xor': '^'}[op]
            fn = {'and': 'and_', 'or': 'or_', 'xor': 'xor'}[op]
            return ('a=%s;b=%s\n%s=(a%sb) if type(a) is int and type(b) is int else _t.%s(a,b,%d)'
                    % (A, B, d, sym, fn, w))
        if op in ('shl', 'lshr', 'ashr'):
            return '%s=shift(X,%r,%s,%s,%d)' % (d, op, A, B, w)
        return '%s=div(X,%r,%s,%s,%d)' % (d, op, A, B, w)
    if op == 'icmp':
        pred = p.next()
        ty, a = p.top()
        p.exp(',')
        b = p.operand(ty)
        if ty[0] == 'vec':
            return '%s=vcmp(%r,%s,%s,%d)' % (d, pred, opnd(a), opnd(b), bits(ty[2]))
        return '%s=icmp_%s(%s,%s,%d)' % (d, pred, opnd(a), opnd(b), bits(ty))
    if op in ('zext', 'sext', 'trunc'):
        while p.peek() in ('nneg', 'nsw', 'nuw'):
            p.next()
        ty, a = p.top()
        p.exp('to')
        ty2 = p.type()
        if ty[0] == 'vec':
            return '%s=vcast(%r,%s,%d,%d)' % (d, op, opnd(a), bits(ty[2]), bits(ty2[2]))
        w, w2 = bits(ty), bits(ty2)
        if op == 'zext':
            return 'a=%s\n%s=a if type(a) is int else _t.zext(a,%d,%d)' % (opnd(a), d, w, w2)
        if op == 'trunc':
            return 'a=%s\n%s=a&%d if type(a) is int else _t.trunc(a,%d,%d)' % (opnd(a), d, t.M(w2), w, w2)
        return '%s=_t.sext(%s,%d,%d)' % (d, opnd(a), w, w2)
    if op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
        ty, a = p.top()
        ty2 = ty
        if p.acc('to'):
            ty2 = p.type()
        if ty[0] == 'vec' and ty2[0] == 'i':
            return '%s=tosc(%s,%d)' % (d, opnd(a), bits(ty2))
        if ty[0] == 'i' and ty2[0] == 'vec':
            return 'a=%s\n%s=a if type(a) is Vec else Vec(%d,[a])' % (opnd(a), d, bits(ty))
        return '%s=%s' % (d, opnd(a))
    if op == 'load':
        p.acc('volatile')
        ty = p.type()
        p.exp(',')
        _, a = p.top()
        al = 1
        if p.acc(','):
            if p.acc('align'):
                al = int(p.next())
        if ty[0] == 'vec':
            return '%s=X.loadv(%s,%d,%d,%d)' % (d, opnd(a), size_of(ty), bits(ty[2]), al)
        w = bits(ty)
        if w % 8:
            return '%s=_t.trunc(X.load(%s,%d,%d),%d,%d)' % (d, opnd(a), (w + 7) // 8, al, (w + 7) // 8 * 8, w)
        return '%s=X.load(%s,%d,%d)' % (d, opnd(a), w // 8, al)
    if op == 'store':
        p.acc('volatile')
        ty, v = p.top()
        p.exp(',')
        _, a = p.top()
        al = 1
        if p.acc(','):
            if p.acc('align'):
                al = int(p.next())
        if ty[0] == 'vec':
            return 'X.storev(%s,%s,%d,%d)' % (opnd(a), opnd(v), size_of(ty), al)
        w = bits(ty)
        if w % 8:
            return 'X.store(%s,_t.zext(%s,%d,%d),%d,%d)' % (opnd(a), opnd(v), w, (w + 7) // 8 * 8, (w + 7) // 8, al)
        return 'X.store(%s,%s,%d,%d)' % (opnd(a), opnd(v), w // 8, al)
    if op == 'alloca':
        ty = p.type()
        cnt = '1'
        al = align_of(ty)
        while p.acc(','):
            if p.acc('align'):
                al = int(p.next())
            else:
                _, o = p.top()
                cnt = opnd(o)
        return '%s=X.alloca(%d,%s,%d,%r)' % (d, size_of(ty), cnt, al, f.name + dst)
    if op == 'getelementptr':
        p.attrs()
        while p.peek() in ('nuw', 'nusw', 'inbounds'):
            p.next()
        bty = p.type()
        p.exp(',')
        _, base = p.top()
        off = 0
        dyn = []
        ty = bty
        first = True
        while p.acc(','):
            ity, o = p.top()
            if first:
                sz = size_of(ty) if ty[0] != 'opaque' else 1
            elif ty[0] == 'st':
                off += field_off(ty, o[1])
                ty = ty[1][o[1]]
                continue
            else:
                ty = ty[2]
                sz = size_of(ty)
            first = False
            if o[0] == 'c':
                off += t.signed(o[1], bits(ity)) * sz
            else:
                dyn.append((opnd(o), bits(ity), sz))
        if not dyn:
            return 'a=%s\n%s=(a+%d)&0xffffffffffffffff if type(a) is int else _t.add(a,%d,64)' % (opnd(base), d, off, off & t.M(64))
        return '%s=gep(%s,%d,%s)' % (d, opnd(base), off, ','.join('(%s,%d,%d)' % x for x in dyn)) \
            if len(dyn) > 1 else '%s=gep1(%s,%d,%s,%d,%d)' % ((d, opnd(base), off) + dyn[0])
    if op == 'extractelement':
        ty, v = p.top()
        p.exp(',')
        ity, i = p.top()
        return '%s=vext(%s,%s,%d)' % (d, opnd(v), opnd(i), bits(ty[2]))
    if op == 'insertelement':
        ty, v = p.top()
        p.exp(',')
        ety, e = p.top()
        p.exp(',')
        ity, i = p.top()
        return '%s=vins(%s,%s,%s,%d)' % (d, opnd(v), opnd(e), opnd(i), bits(ty[2]))
    if op == 'shufflevector':
        ty, a = p.top()
        p.exp(',')
        ty2, b = p.top()
        p.exp(',')
        mty = p.type()
        x = p.peek()
        n = mty[1]
        if x == 'zeroinitializer':
            idx = [0] * n
        elif x in ('poison', 'undef'):
            idx = [None] * n
        else:
            p.exp('<')
            idx = []
            while True:
                p.type()
                x = p.next()
                idx.append(None if x in ('poison', 'undef') else int(x))
                if p.acc('>'):
                    break
                p.exp(',')
        k = const(idx)
        return '%s=vshuf(%s,%s,%s,%d,%d)' % (d, opnd(a), opnd(b), k, bits(ty[2]), ty[1])
    if op == 'select':
        cty, c = p.top()
        p.exp(',')
        ty, a = p.top()
        p.exp(',')
        _, b = p.top()
        if cty[0] == 'vec':
            return '%s=vsel(%s,%s,%s,%d)' % (d, opnd(c), opnd(a), opnd(b), bits(ty[2]))
        if ty[0] == 'vec':
            return '%s=selv(%s,%s,%s,%d)' % (d, opnd(c), opnd(a), opnd(b), bits(ty[2]))
        return '%s=_t.ite(%s,%s,%s,%d)' % (d, opnd(c), opnd(a), opnd(b), bits(ty))
    if op == 'fence':
        return 'pass'
    return 'X.unsupported(%r)' % ('instruction ' + op)


# ------------------------------------------------------------------ runtime helpers
def mkundef(ty):
    if ty[0] == 'vec':
        return Vec(bits(ty[2]), [t.fresh('undef', bits(ty[2]), undef=True) for _ in range(ty[1])])
    return t.fresh('undef', bits(ty), undef=True)


def nsw(X, op, a, b, w):
    if type(a) is int and type(b) is int:
        sa, sb = t.signed(a, w), t.signed(b, w)
        r = sa + sb if op == 'add' else sa - sb if op == 'sub' else sa * sb
        if not -(1 << (w - 1)) <= r < 1 << (w - 1):
            X.violation('signed overflow: %d %s %d (i%d)' % (sa, op, sb, w))
        return r & t.M(w)
    r = (t.add if op == 'add' else t.sub if op == 'sub' else t.mul)(a, b, w)
    X.obl_nsw(op, a, b, w, r)
    return r


def shift(X, op, a, b, w):
    if type(b) is int:
        if b >= w:
            X.violation('shift amount %d >= %d' % (b, w))
            return 0
        if type(a) is int:
            if op == 'shl':
                return (a << b) & t.M(w)
            if op == 'lshr':
                return a >> b
        return t.shift(op, a, b, w)
    X.obl_shift(b, w)
    return t.shift(op, a, b, w)


def div(X, op, a, b, w):
    if not (type(b) is int and b and b & (b - 1) == 0 and b < 1 << (w - 1)):      # a power of two is a shift
        X.event_div(op, a, b, w)
    if type(b) is int and b == 0:
        X.violation('division by zero')
        return 0
    return X.divop(op, a, b, w)


def icmp_eq(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if a == b else 0
    return t.eq(a, b, w)


def icmp_ne(a, b, w):
    if type(a) is int and type(b) is int:
        return 0 if a == b else 1
    return t.xor(t.eq(a, b, w), 1, 1)


def icmp_ult(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if a < b else 0
    return t.ult(a, b, w)


def icmp_ugt(a, b, w):
    return icmp_ult(b, a, w)


def icmp_ule(a, b, w):
    if type(a) is int and type(b) is int:
        return 1 if a <= b else 0
    return t.xor(t.ult(b, a, w), 1, 1)


def icmp_uge(a, b, w):
    return icmp_ule(b, a, w)


def icmp_slt(a, b, w):
    return t.slt(a, b, w)


def icmp_sgt(a, b, w):
    return t.slt(b, a, w)


def icmp_sle(a, b, w):
    return t.xor(t.slt(b, a, w), 1, 1)


def icmp_sge(a, b, w):
    return t.xor(t.slt(a, b, w), 1, 1)


ICMP = dict(eq=icmp_eq, ne=icmp_ne, ult=icmp_ult, ugt=icmp_ugt, ule=icmp_ule, uge=icmp_uge,
            slt=icmp_slt, sgt=icmp_sgt, sle=icmp_sle, sge=icmp_sge)


def gep1(base, off, i, iw, sz):
    if type(i) is int:
        i = t.signed(i, iw)
        if type(base) is int:
            return (base + off + i * sz) & 0xffffffffffffffff
        return t.add(base, (off + i * sz) & t.M(64), 64)
    v = t.mul(t.sext(i, iw, 64), sz, 64)
    return t.add(t.add(v, base, 64), off & t.M(64), 64)


def gep(base, off, *dyn):
    for i, iw, sz in dyn:
        base = gep1(base, 0, i, iw, sz)
    return gep1(base, off, 0, 64, 1)


def vbin(X, op, a, b, ew, n):
    la = t.relane(a, ew)
    lb = t.relane(b, ew)
    if op in ('shl', 'lshr', 'ashr'):
        return Vec(ew, [shift(X, op, x, y, ew) for x, y in zip(la, lb)])
    if op in ('and', 'or', 'xor'):
        # work at the finer of the two granularities actually present
        g = min(a.ew, b.ew)
        if g != ew and any(type(x) is not int and x.op == 'cat' and len(x.a) > 3 or ew > 64 for l in (la, lb) for x in l):
            la = t.relane(a, g)
            lb = t.relane(b, g)
            ew = g
        fn = {'and': t.and_, 'or': t.or_, 'xor': t.xor}[op]
    elif op in ('udiv', 'urem', 'sdiv', 'srem'):
        return Vec(ew, [div(X, op, x, y, ew) for x, y in zip(la, lb)])
    else:
        fn = {'add': t.add, 'sub': t.sub, 'mul': t.mul}[op]
    return Vec(ew, [fn(x, y, ew) for x, y in zip(la, lb)])


def vcmp(pred, a, b, ew):
    fn = ICMP[pred]
    return Vec(1, [fn(x, y, ew) for x, y in zip(t.relane(a, ew), t.relane(b, ew))])


def vcast(op, a, w, w2):
    la = t.relane(a, w)
    if op == 'zext':
        return Vec(w2, [t.zext(x, w, w2) for x in la])
    if op == 'sext':
        return Vec(w2, [t.sext(x, w, w2) for x in la])
    return Vec(w2, [t.trunc(x, w, w2) for x in la])


def tosc(v, w):
    if type(v) is Vec:
        return t.cat([(x, v.ew) for x in v.l])
    return v


def vext(v, i, ew):
    if type(i) is not int:
        raise Unsupported('symbolic lane')
    return t.relane(v, ew)[i]


def vins(v, e, i, ew):
    if type(i) is not int:
        raise Unsupported('symbolic lane')
    l = list(t.relane(v, ew))
    l[i] = e
    return Vec(ew, l)


def vshuf(a, b, idx, ew, n):
    la = t.relane(a, ew)
    lb = t.relane(b, ew)
    return Vec(ew, [t.fresh('undef', ew, undef=True) if i is None else la[i] if i < n else lb[i - n] for i in idx])


def vsel(c, a, b, ew):
    return Vec(ew, [t.ite(z, x, y, ew) for z, x, y in zip(t.relane(c, 1), t.relane(a, ew), t.relane(b, ew))])


def selv(c, a, b, ew):
    if type(c) is int:
        return a if c else b
    return Vec(ew, [t.ite(c, x, y, ew) for x, y in zip(t.relane(a, ew), t.relane(b, ew))])


rt = dict(mkundef=mkundef, nsw=nsw, shift=shift, div=div, gep=gep, gep1=gep1, vbin=vbin, vcmp=vcmp,
          vcast=vcast, tosc=tosc, vext=vext, vins=vins, vshuf=vshuf, vsel=vsel, selv=selv, Vec=Vec)
rt.update({'icmp_' + k: v for k, v in ICMP.items()})


# ------------------------------------------------------------------ intrinsics
def _sat(x, w, lo, hi, n):
    """saturate signed w-bit x to [lo,hi], result n bits"""
    if type(x) is int:
        v = t.signed(x, w)
        return max(lo, min(hi, v)) & t.M(n)
    # packs of 0/-1 masks
    if x.op == 'sext' and lo <= -1 and hi >= 0 and x.a[0].w == 1:
        return t.sext(x.a[0], 1, n)
    if not x.mb >> (w - 1) & 1 and x.mb <= hi:
        return t.trunc(x, w, n)
    over = t.slt(hi & t.M(w), x, w)
    under = t.slt(x, lo & t.M(w), w)
    return t.ite(over, hi & t.M(n), t.ite(under, lo & t.M(n), t.trunc(x, w, n), n), n)


def i_ctpop(w):
    def h(X, a):
        return t.popcnt(a, w)
    return h


def pshufb(X, a, b):
    la = t.relane(a, 8)
    lb = t.relane(b, 8)
    out = []
    for i, c in enumerate(lb):
        base = i & ~15
        if type(c) is int:
            out.append(0 if c & 0x80 else la[base + (c & 15)])
        else:
            r = X.sym_pshufb(la[base:base + 16], c)
            out.append(r)
    return Vec(8, out)


def pmadd_wd(X, a, b):
    la = t.relane(a, 16)
    lb = t.relane(b, 16)
    out = []
    for i in range(0, len(la), 2):
        m = [t.mul(t.sext(la[j], 16, 32), t.sext(lb[j], 16, 32), 32) for j in (i, i + 1)]
        out.append(t.add(m[0], m[1], 32))
    return Vec(32, out)


def pmadd_ubsw(X, a, b):
    la = t.relane(a, 8)
    lb = t.relane(b, 8)
    out = []
    for i in range(0, len(la), 2):
        m = [t.mul(t.zext(la[j], 8, 32), t.sext(lb[j], 8, 32), 32) for j in (i, i + 1)]
        s = t.add(m[0], m[1], 32)
        # bound to see that no saturation can occur
        mx = mn = 0
        ok = True
        for j in (i, i + 1):
            if type(lb[j]) is int:
                c = t.signed(lb[j], 8)
                ma = t.maybe(la[j])
                mx += max(0, c * ma)
                mn += min(0, c * ma)
            else:
                ok = False
        if ok and mx < 32768 and mn >= -32768:
            out.append(t.trunc(s, 32, 16))
        else:
            out.append(_sat(s, 32, -32768, 32767, 16))
    return Vec(16, out)


def mulh(X, a, b):
    return Vec(16, [t.ext(t.mul(t.sext(x, 16, 32), t.sext(y, 16, 32), 32), 16, 16, 32)
                    for x, y in zip(t.relane(a, 16), t.relane(b, 16))])


def mulhu(X, a, b):
    return Vec(16, [t.ext(t.mul(t.zext(x, 16, 32), t.zext(y, 16, 32), 32), 16, 16, 32)
                    for x, y in zip(t.relane(a, 16), t.relane(b, 16))])


def mulhrs1(x, y):
    p = t.mul(t.sext(x, 16, 32), t.sext(y, 16, 32), 32)
    return t.ext(t.add(p, 0x4000, 32), 15, 16, 32)


def mulhrs(X, a, b):
    return Vec(16, [mulhrs1(x, y) for x, y in zip(t.relane(a, 16), t.relane(b, 16))])


def packs(w, lo, hi):
    def h(X, a, b):
        la = t.relane(a, w)
        lb = t.relane(b, w)
        per = 128 // w
        out = []
        for i in range(0, len(la), per):
            out += [_sat(x, w, lo, hi, w // 2) for x in la[i:i + per]]
            out += [_sat(x, w, lo, hi, w // 2) for x in lb[i:i + per]]
        return Vec(w // 2, out)
    return h


def permd(X, a, idx):
    la = t.relane(a, 32)
    li = t.relane(idx, 32)
    return Vec(32, [la[i & 7] for i in li])


def movmsk(w):
    def h(X, a):
        l = t.relane(a, w)
        return t.cat([(t.ext(x, w - 1, 1, w), 1) for x in l] + ([(0, 32 - len(l))] if len(l) < 32 else []))
    return h


def blendv8(X, a, b, m):
    la, lb, lm = t.relane(a, 8), t.relane(b, 8), t.relane(m, 8)
    return Vec(8, [t.ite(t.ext(z, 7, 1, 8), y, x, 8) for x, y, z in zip(la, lb, lm)])


def shimm(op, w):
    def h(X, a, n):
        if type(n) is Vec:
            n = t.relane(n, 64)[0]
        la = t.relane(a, w)
        if type(n) is not int:
            raise Unsupported('symbolic vector shift')
        if n >= w:
            if op == 'ashr':
                n = w - 1
            else:
                return Vec(w, [0] * len(la))
        return Vec(w, [t.shift(op, x, n, w) for x in la])
    return h


def shvar(op, w):
    def h(X, a, b):
        out = []
        for x, n in zip(t.relane(a, w), t.relane(b, w)):
            if type(n) is not int:
                raise Unsupported('symbolic vector shift')
            if n >= w:
                out.append(t.shift('ashr', x, w - 1, w) if op == 'ashr' else 0)
            else:
                out.append(t.shift(op, x, n, w))
        return Vec(w, out)
    return h


def gather_qq(X, src, base, idx, mask, scale):
    li = t.relane(idx, 64)
    lm = t.relane(mask, 64)
    ls = t.relane(src, 64)
    out = []
    for s, i, m in zip(ls, li, lm):
        mb = t.ext(m, 63, 1, 64)
        if mb == 1:
            out.append(X.load(t.add(base, t.mul(i, scale, 64), 64), 8, 1))
        elif mb == 0 and type(mb) is int:
            out.append(s)
        else:
            raise Unsupported('gather mask')
    return Vec(64, out)


def pext(w):
    def h(X, a, m):
        if type(m) is not int:
            raise Unsupported('pext mask')
        parts = [(t.ext(a, i, 1, w), 1) for i in range(w) if m >> i & 1]
        return t.cat(parts + [(0, w - len(parts))])
    return h


def pdep(w):
    def h(X, a, m):
        if type(m) is not int:
            raise Unsupported('pdep mask')
        parts = []
        k = 0
        for i in range(w):
            if m >> i & 1:
                parts.append((t.ext(a, k, 1, w), 1))
                k += 1
            else:
                parts.append((0, 1))
        return t.cat(parts)
    return h


def ptestz(X, a, b):
    v = [t.and_(x, y, 64) for x, y in zip(t.relane(a, 64), t.relane(b, 64))]
    r = 1
    for x in v:
        r = t.and_(r, t.eq(x, 0, 64), 1)
    return t.zext(r, 1, 32)


def memcpy(X, d, s, n, *_):
    X.memcpy(d, s, n)


def memset(X, d, c, n, *_):
    X.memset(d, c, n)


def minmax(op, w):
    def f(x, y):
        if op == 'smax':
            return t.ite(t.slt(x, y, w), y, x, w)
        if op == 'smin':
            return t.ite(t.slt(x, y, w), x, y, w)
        if op == 'umax':
            return t.ite(t.ult(x, y, w), y, x, w)
        return t.ite(t.ult(x, y, w), x, y, w)

    def h(X, a, b):
        if type(a) is Vec:
            return Vec(w, [f(x, y) for x, y in zip(t.relane(a, w), t.relane(b, w))])
        return f(a, b)
    return h


def vabs(w):
    def f(x):
        return t.ite(t.slt(x, 0, w), t.sub(0, x, w), x, w)

    def h(X, a, *_):
        if type(a) is Vec:
            return Vec(w, [f(x) for x in t.relane(a, w)])
        return f(a)
    return h


def fsh(left, w):
    def f(x, y, n):
        if type(n) is not int:
            raise Unsupported('funnel shift')
        n %= w
        c = t.cat([(y, w), (x, w)])
        return t.ext(c, w - n if left else n, w, 2 * w) if n or not left else x

    def h(X, a, b, c):
        if type(a) is Vec:
            return Vec(w, [f(x, y, n) for x, y, n in zip(t.relane(a, w), t.relane(b, w), t.relane(c, w))])
        return f(a, b, c)
    return h


def bswap(w):
    def h(X, a):
        return t.cat([(t.ext(a, 8 * i, 8, w), 8) for i in reversed(range(w // 8))])
    return h


def satarith(op, sgn, w):
    def f(x, y):
        if sgn:
            X2 = t.sext(x, w, 2 * w), t.sext(y, w, 2 * w)
            r = (t.add if op == 'add' else t.sub)(X2[0], X2[1], 2 * w)
            return _sat(r, 2 * w, -(1 << (w - 1)), (1 << (w - 1)) - 1, w)
        if op == 'add':
            r = t.add(t.zext(x, w, w + 1), t.zext(y, w, w + 1), w + 1)
            return t.ite(t.ext(r, w, 1, w + 1), t.M(w), t.ext(r, 0, w, w + 1), w)
        return t.ite(t.ult(x, y, w), 0, t.sub(x, y, w), w)

    def h(X, a, b):
        if type(a) is Vec:
            return Vec(w, [f(x, y) for x, y in zip(t.relane(a, w), t.relane(b, w))])
        return f(a, b)
    return h


def _unsup(name):
    def h(X, *a):
        raise Unsupported('intrinsic ' + name)
    return h


def intrinsic(n, tys, rty):
    b = n[len('llvm.'):]
    if b.startswith('ctpop.'):
        return i_ctpop(bits(rty)) if rty[0] == 'i' else _unsup(n)
    if b.startswith(('memcpy', 'memmove')):
        return memcpy
    if b.startswith('threadlocal.address'):
        return lambda X, a: a
    if b.startswith('memset'):
        return memset
    m = re.match(r'(smax|smin|umax|umin)\.', b)
    if m:
        return minmax(m.group(1), bits(rty) if rty[0] == 'i' else bits(rty[2]))
    if b.startswith('abs.'):
        return vabs(bits(rty) if rty[0] == 'i' else bits(rty[2]))
    m = re.match(r'fsh([lr])\.', b)
    if m:
        return fsh(m.group(1) == 'l', bits(rty) if rty[0] == 'i' else bits(rty[2]))
    if b.startswith('bswap.'):
        return bswap(bits(rty)) if rty[0] == 'i' else _unsup(n)
    m = re.match(r'([su])(add|sub)\.sat\.', b)
    if m:
        return satarith(m.group(2), m.group(1) == 's', bits(rty) if rty[0] == 'i' else bits(rty[2]))
    if b.startswith('x86.'):
        x = b[4:]
        if x in ('avx2.pshuf.b', 'ssse3.pshuf.b.128'):
            return pshufb
        if x in ('avx2.pmadd.wd', 'sse2.pmadd.wd'):
            return pmadd_wd
        if x in ('avx2.pmadd.ub.sw', 'ssse3.pmadd.ub.sw.128'):
            return pmadd_ubsw
        if x in ('avx2.pmulh.w', 'sse2.pmulh.w'):
            return mulh
        if x in ('avx2.pmulhu.w', 'sse2.pmulhu.w'):
            return mulhu
        if x in ('avx2.pmul.hr.sw', 'ssse3.pmul.hr.sw.128'):
            return mulhrs
        if x in ('avx2.packsswb', 'sse2.packsswb.128'):
            return packs(16, -128, 127)
        if x in ('avx2.packuswb', 'sse2.packuswb.128'):
            return packs(16, 0, 255)
        if x in ('avx2.packssdw', 'sse2.packssdw.128'):
            return packs(32, -32768, 32767)
        if x in ('avx2.packusdw', 'sse41.packusdw'):
            return packs(32, 0, 65535)
        if x == 'avx2.permd':
            return permd
        if x in ('avx2.pmovmskb', 'sse2.pmovmskb.128'):
            return movmsk(8)
        if x in ('avx2.pblendvb', 'sse41.pblendvb'):
            return blendv8
        m = re.match(r'(?:avx2|sse2)\.p(sll|srl|sra)i?\.([wdq])$', x)
        if m:
            return shimm({'sll': 'shl', 'srl': 'lshr', 'sra': 'ashr'}[m.group(1)], dict(w=16, d=32, q=64)[m.group(2)])
        m = re.match(r'avx2\.p(sll|srl|sra)v\.([dq])(?:\.256)?$', x)
        if m:
            return shvar({'sll': 'shl', 'srl': 'lshr', 'sra': 'ashr'}[m.group(1)], dict(d=32, q=64)[m.group(2)])
        if x == 'avx2.gather.q.q.256':
            return gather_qq
        if x in ('bmi.pext.32', 'bmi.pext.64'):
            return pext(int(x[-2:]))
        if x in ('bmi.pdep.32', 'bmi.pdep.64'):
            return pdep(int(x[-2:]))
        if x in ('avx.ptestz.256', 'sse41.ptestz'):
            return ptestz
    return _unsup(n)
