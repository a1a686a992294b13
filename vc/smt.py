"""z3 back end: bit-vector queries over terms."""
import time
import z3
from . import term as t
from .term import T

STATS = dict(queries=0, secs=0.0)


class Tr:
    def __init__(self):
        self.val = {}
        self.leaves = {}
        self.cons = []
        self.tabs = {}

    def leaf(self, x):
        v = z3.BitVec('%s_%d' % (x.op, x.id), x.w)
        self.leaves[x] = v
        i = x.info or {}
        lo, hi = i.get('lo'), i.get('hi')
        if lo is not None:
            if lo < 0:
                self.cons += [v >= lo, v <= hi]
            else:
                self.cons += [z3.UGE(v, lo), z3.ULE(v, hi)]
        return v

    def __call__(self, r, w):
        if type(r) is int:
            return z3.BitVecVal(r, w)
        val = self.val
        for x in t.topo([r]):
            if x in val:
                continue
            val[x] = self.one(x)
        return val[r]

    def g(self, y, w):
        return z3.BitVecVal(y, w) if type(y) is int else self.val[y]

    def one(self, x):
        op, w, a = x.op, x.w, x.a
        g = self.g
        if op in ('var', 'uf'):
            return self.leaf(x)
        if op == 'ext':
            return z3.Extract(x.p + w - 1, x.p, self.val[a[0]])
        if op == 'cat':
            ps = [g(y, n) for y, n in zip(a, x.p)]
            return z3.Concat(*ps[::-1]) if len(ps) > 1 else ps[0]
        if op == 'sext':
            return z3.SignExt(w - a[0].w, self.val[a[0]])
        if op in ('xor', 'and', 'or', 'add', 'sub', 'mul'):
            r = g(a[0], w)
            for y in a[1:]:
                b = g(y, w)
                r = {'xor': lambda: r ^ b, 'and': lambda: r & b, 'or': lambda: r | b, 'add': lambda: r + b,
                     'sub': lambda: r - b, 'mul': lambda: r * b}[op]()
            return r
        if op in ('eq', 'ult', 'slt'):
            p, q = g(a[0], x.p), g(a[1], x.p)
            c = p == q if op == 'eq' else z3.ULT(p, q) if op == 'ult' else p < q
            return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if op == 'ite':
            return z3.If(g(a[0], 1) == 1, g(a[1], w), g(a[2], w))
        if op == 'popcnt':
            v = g(a[0], w)
            r = z3.BitVecVal(0, w)
            for i in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v)) if w > 1 else v
            return r
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            p, q = g(a[0], w), g(a[1], w)
            return {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda u, v: u / v, 'srem': z3.SRem}[op](p, q)
        if op == 'shl':
            return g(a[0], w) << g(a[1], w)
        if op == 'lshr':
            return z3.LShR(g(a[0], w), g(a[1], w))
        if op == 'ashr':
            return g(a[0], w) >> g(a[1], w)
        if op == 'tbl':
            i = self.val[a[0]]
            arr = self.tabs.get(x.p)
            r = z3.BitVecVal(x.p[-1], w)
            for k in range(len(x.p) - 2, -1, -1):
                r = z3.If(i == k, z3.BitVecVal(x.p[k], w), r)
            return r
        raise ValueError('smt ' + op)


def check(tr, conds, secs):
    """('unsat',None) | ('sat', {leaf: signed-range int}) | ('unknown',None)"""
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', int(secs * 1000))
    s.add(*tr.cons)
    s.add(*conds)
    r = s.check()
    STATS['queries'] += 1
    STATS['secs'] += time.time() - t0
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        m = s.model()
        out = {}
        for x, v in tr.leaves.items():
            c = m.eval(v, model_completion=True).as_long()
            lo = (x.info or {}).get('lo')
            out[x] = t.signed(c, x.w) if lo is not None and lo < 0 else c
        return 'sat', out
    return 'unknown', None


def equal(a, b, w, secs=20):
    """are the two terms equal for all leaf values (in their ranges)?"""
    if a is b or (type(a) is int and a == b):
        return 'unsat', None
    tr = Tr()
    x, y = tr(a, w), tr(b, w)
    return check(tr, [x != y], secs)


def independent(x, keep, secs=20):
    """does x depend only on the leaf `keep`?  ('unsat', x restricted) or ('sat', (m1, m2)) or ('unknown',..)"""
    sup = [v for v in t.support(x) if v is not keep]
    env = {}
    for v in sup:
        i = v.info or {}
        lo, hi = i.get('lo'), i.get('hi')
        c = 0 if lo is None or lo <= 0 <= hi else lo
        env[v] = c & t.M(v.w)
    y, = t.subst([x], env)
    st, m = equal(x, y, x.w, secs)
    if st == 'unsat':
        return st, y
    if st == 'sat':
        m1 = dict(m)
        m2 = dict(m)
        for v in sup:
            i = v.info or {}
            lo = i.get('lo')
            m2[v] = t.signed(env[v], v.w) if lo is not None and lo < 0 else env[v]
        return st, (m1, m2)
    return st, None


def feasible(path, secs=20):
    """False only when the path condition is refuted"""
    if not path:
        return True
    try:
        tr = Tr()
        return check(tr, [tr(p, 1) == 1 for p in path], secs)[0] != 'unsat'
    except ValueError:
        return True


def model(conds, secs=20):
    """a model of the conjunction of 1-bit terms, or None"""
    try:
        tr = Tr()
        st, m = check(tr, [tr(p, 1) == 1 for p in conds], secs)
        return m if st == 'sat' else None
    except ValueError:
        return None
