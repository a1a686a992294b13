"""Function-level verification: run one function of /repo symbolically on arguments
constrained only by its precondition, then discharge the postcondition's obligations."""
import time, hashlib, os, random
import numpy as np
from . import term as t, execu, poly, spec
from .term import T, Vec
from .execu import X, Violation
from .ir import Unsupported

Q = 3329


class Rec:
    """collects obligations of one check"""

    def __init__(self):
        self.obl = []            # (name, status, backend, info)
        self.funcs = {}          # function -> set of configs under contract
        self.assume = set()
        self.secs = {}
        self.stats = {}
        self.fail = []           # failed obligations, dict
        self.unknown = []
        self.stopped = []
        self.inl = {}
        self.directed = []
        self.bounded = []        # (what, cases)

    def ok(self, name, backend, n=1, secs=0.0):
        self.obl.append((name, 'proved', backend, n))
        self.secs[backend] = self.secs.get(backend, 0) + secs

    def bad(self, name, backend, why, cex=None, kind=None):
        self.obl.append((name, 'failed', backend, 1))
        self.fail.append(dict(name=name, backend=backend, why=why, cex=cex, kind=kind))

    def unk(self, name, why, bounded=None):
        self.obl.append((name, 'unknown', None, 1))
        self.unknown.append(dict(name=name, why=why, bounded=bounded))

    def func(self, fn, cfg):
        self.funcs.setdefault(fn, set()).add(cfg)

    def merge(self, o):
        self.obl += o.obl
        self.fail += o.fail
        self.unknown += o.unknown
        for k, v in o.funcs.items():
            self.funcs.setdefault(k, set()).update(v)
        self.assume |= o.assume
        for k, v in o.secs.items():
            self.secs[k] = self.secs.get(k, 0) + v
        for k, v in o.stats.items():
            if isinstance(v, (int, float)):
                self.stats[k] = self.stats.get(k, 0) + v
            else:
                self.stats.setdefault(k, v)


def cfgname(p):
    return '%s/K=%d' % (p.impl, p.k)


# ------------------------------------------------------------------ running
def polyargs(X, name, n=1, lo=-32768, hi=32767, align=2, res=None, info=None):
    """an object of n*256 int16 coefficients, each a fresh variable in [lo,hi]"""
    o = X.new(512 * n, align, name)
    vs = []
    for i in range(256 * n):
        v = t.var('%s%d' % (name, i), 16, lo=lo, hi=hi)
        vs.append(v)
        o.cells[2 * i] = (v, 2)
        o.own[2 * i] = o.own[2 * i + 1] = 2 * i
    return o, vs


def bytesarg(X, name, n, align=1, fl=0):
    o = X.new(n, align, name)
    vs = []
    for i in range(n):
        v = t.var('%s%d' % (name, i), 8)
        if fl:
            v.fl |= fl
        vs.append(v)
        o.cells[i] = (v, 1)
        o.own[i] = i
    return o, vs


def setbytes(X, o, vals, off=0):
    for i, v in enumerate(vals):
        o.cells[off + i] = (v, 1)
        o.own[off + i] = off + i


def rd(X, o, off, n):
    """final value of bytes off..off+n of an object (the latest version of it)"""
    return X.load(X.mem[o.id].base + off, n)


def getpoly(X, o, n=1):
    return [rd(X, o, 2 * i, 2) for i in range(256 * n)]


def getbytes(X, o, n):
    return [rd(X, o, i, 1) for i in range(n)]


def palign(p):
    return 32 if p.impl == 'avx2' else 2


# ------------------------------------------------------------------ signatures
def signature(x):
    """structural key of a term with its leaves numbered in order of appearance, and those leaves"""
    if type(x) is int:
        return (x,), []
    num = {}
    leaves = []
    out = []
    for y in t.topo([x]):
        if y.op in ('var', 'uf'):
            num[y] = len(num)
            i = y.info or {}
            out.append(('v', y.w, i.get('lo'), i.get('hi'), len(leaves)))
            leaves.append(y)
        else:
            out.append((y.op, y.w, y.p, tuple(num[z] if type(z) is T else ('c', z) for z in y.a)))
            num[y] = len(num)
    return tuple(out), leaves


def leafrange(v):
    i = v.info or {}
    lo, hi = i.get('lo'), i.get('hi')
    if lo is None:
        lo, hi = 0, t.M(v.w)
    return lo, hi


def enum1(x, v, w=16):
    """all values of term x (unsigned, numpy) as v ranges over its interval; returns (domain signed, values)"""
    lo, hi = leafrange(v)
    dom = np.arange(lo, hi + 1, dtype=np.int64)
    env = {v: (dom.astype(np.uint64) & np.uint64(t.M(v.w)))}
    if type(x) is int:
        return dom, np.full(dom.shape, x, dtype=np.uint64)
    val = t.npeval([x], env)
    return dom, np.broadcast_to(val[x], dom.shape)


class FieldCheck:
    """every output field is the specified function of one coefficient: exhaustive enumeration of that
    coefficient's whole range, shared between structurally identical fields"""

    def __init__(self):
        self.cache = {}
        self.n_enum = 0
        self.points = 0

    def check(self, x, v, want, wantkey):
        """x: term; v: the variable it may depend on; want: numpy fn of signed values -> expected unsigned.
        returns (True,None) | (False, counterexample value) | (None, why)"""
        if type(x) is T and x.fl & t.UNDEF:
            return None, 'depends on uninitialised memory'
        sup = t.support(x)
        if not sup <= {v}:
            return None, 'depends on %s' % ', '.join(sorted(t.show(s, 1) for s in sup)[:4])
        sg, lv = signature(x)
        lo, hi = leafrange(v)
        k = (sg, wantkey, lo, hi)
        r = self.cache.get(k)
        if r is None:
            dom, val = enum1(x, v)
            w = want(dom)
            bad = np.nonzero(val.astype(np.int64) != w)[0]
            self.n_enum += 1
            self.points += len(dom)
            r = (True, None) if len(bad) == 0 else (False, int(dom[bad[0]]))
            self.cache[k] = r
        return r


def sext16(v):
    return (v ^ 0x8000) - 0x8000


def check_obls(X, ctx, rec, name, env=None):
    """no-overflow obligations of signed arithmetic collected during the run"""
    n = 0
    t0 = time.time()
    bad = []
    cache = {}
    for (op, a, b, w), loc in X.obls.items():
        n += 1
        if op == 'shiftamt':
            pa = ctx.uv(a if type(a) is T else a, w) if False else None
            u = ctx.uv(b if b is not None else a, w) if False else ctx.uv(a, w)
            lo, hi = ctx.iv(u)
            if 0 <= lo and hi < w:
                continue
            r = range1(a, w, False)
            if r and r[0] >= 0 and r[1] < w:
                continue
            bad.append((op, a, b, w, loc))
            continue
        pa, pb = ctx.sv(a, w), ctx.sv(b, w)
        if op == 'add':
            r = ctx.addP(pa, pb)
        elif op == 'sub':
            r = ctx.addP(pa, pb, -1)
        elif op == 'mul':
            r = ctx.mulP(pa, pb)
        else:
            bad.append((op, a, b, w, loc))
            continue
        lo, hi = ctx.iv(r)
        if lo >= -(1 << (w - 1)) and hi < 1 << (w - 1):
            continue
        bad.append((op, a, b, w, loc))
    return n, bad, time.time() - t0


def range1(x, w, sg):
    sup = t.support(x)
    if len(sup) != 1:
        return None
    v, = sup
    lo, hi = leafrange(v)
    if hi - lo > 1 << 17:
        return None
    dom, val = enum1(x, v)
    val = val.astype(np.int64)
    if sg:
        val = (val ^ (1 << (w - 1))) - (1 << (w - 1))
    return int(val.min()), int(val.max())
