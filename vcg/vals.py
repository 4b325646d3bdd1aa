"""Symbolic values, lvalues and states of the executor."""
import term as tm
from term import T

class Unsupported(Exception):
    pass

class Rec:
    __slots__ = ('ty', 'f')
    def __init__(self, ty, f):
        self.ty, self.f = ty, f
class Vec:
    """n elements; element i is el[bv := i]"""
    __slots__ = ('n', 'bv', 'el', 'ety')
    def __init__(self, n, bv, el, ety):
        self.n, self.bv, self.el, self.ety = n, bv, el, ety
    def get(self, i):
        return vsubst(self.el, {self.bv: i})
class Map:
    """keys k with mem[bv := k]; values val[bv := k] (None for sets); cnt is
    the number of keys where insert and erase have tracked it"""
    __slots__ = ('bv', 'mem', 'val', 'kty', 'vty', 'cnt')
    def __init__(self, bv, mem, val, kty, vty, cnt=None):
        self.bv, self.mem, self.val, self.kty, self.vty, self.cnt = bv, mem, val, kty, vty, cnt
    def has(self, k):
        return tm.subst(self.mem, {self.bv: k})
    def get(self, k):
        return vsubst(self.val, {self.bv: k})
    def size(self):
        if self.cnt is not None: return self.cnt
        return tm.bsum(self.bv, tm.ite(self.mem, tm.iv(1), tm.iv(0)))
class Ptr:
    """pointer to lv (off None) or to element off of the array lv; lv None: null"""
    __slots__ = ('lv', 'off')
    def __init__(self, lv, off=None):
        self.lv, self.off = lv, off
class CondV:
    """a value that cannot be merged leaf-wise"""
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
class MIter:
    __slots__ = ('lv', 'key', 'end', 'begin')
    def __init__(self, lv, key, end, begin=False):
        self.lv, self.key, self.end, self.begin = lv, key, end, begin
class Opaque:
    __slots__ = ('what',)
    def __init__(self, what=''):
        self.what = what
class Mat:
    """fixed-size Eigen matrix: rows of terms"""
    __slots__ = ('r', 'c', 'e')
    def __init__(self, r, c, e):
        self.r, self.c, self.e = r, c, e

class LV:
    __slots__ = ('root', 'path')
    def __init__(self, root, path=()):
        self.root, self.path = root, path
    def __add__(self, item):
        return LV(self.root, self.path + (item,))
    def key(self):
        return (self.root, tuple((k, x.id if isinstance(x, T) else x) for k, x in self.path))
class LVCond:
    __slots__ = ('c', 'a', 'b')
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
    def __add__(self, item):
        return LVCond(self.c, self.a + item, self.b + item)

# ---------------------------------------------------------------- structure maps
def vmap(v, f):
    """apply f to every term of a value (binders stay bound)"""
    if isinstance(v, T): return f(v)
    if isinstance(v, Rec): return Rec(v.ty, {k: vmap(x, f) for k, x in v.f.items()})
    if isinstance(v, Vec): return Vec(f(v.n), v.bv, vmap(v.el, f), v.ety)
    if isinstance(v, Map): return Map(v.bv, f(v.mem), None if v.val is None else vmap(v.val, f), v.kty, v.vty,
                                      None if v.cnt is None else f(v.cnt))
    if isinstance(v, Mat): return Mat(v.r, v.c, [[f(x) for x in row] for row in v.e])
    if isinstance(v, CondV): return CondV(f(v.c), vmap(v.a, f), vmap(v.b, f))
    if isinstance(v, Ptr): return Ptr(lvmap(v.lv, f), None if v.off is None else f(v.off))
    if isinstance(v, MIter): return MIter(lvmap(v.lv, f), None if v.key is None else f(v.key), None if v.end is None else f(v.end), v.begin)
    return v
def lvmap(lv, f):
    if isinstance(lv, LV):
        return LV(lv.root, tuple((k, f(x) if isinstance(x, T) else x) for k, x in lv.path))
    if isinstance(lv, LVCond):
        return LVCond(f(lv.c), lvmap(lv.a, f), lvmap(lv.b, f))
    return lv
def vsubst(v, m):
    return vmap(v, lambda t: tm.subst(t, m))

def vite(c, a, b):
    if a is b or c is tm.TRUE: return a
    if c is tm.FALSE: return b
    if isinstance(a, T) and isinstance(b, T):
        return tm.ite(c, a, b)
    if isinstance(a, Rec) and isinstance(b, Rec):
        ks = [k for k in a.f if k in b.f]
        return Rec(a.ty, {k: vite(c, a.f[k], b.f[k]) for k in ks})
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.bv is b.bv:
            return Vec(tm.ite(c, a.n, b.n), a.bv, vite(c, a.el, b.el), a.ety)
        j = tm.fresh('b', 'I')
        return Vec(tm.ite(c, a.n, b.n), j, vite(c, a.get(j), b.get(j)), a.ety)
    if isinstance(a, Map) and isinstance(b, Map):
        j = tm.fresh('k', 'I')
        return Map(j, tm.ite(c, a.has(j), b.has(j)), None if a.val is None else vite(c, a.get(j), b.get(j)), a.kty, a.vty,
                   None if a.cnt is None and b.cnt is None else tm.ite(c, a.size(), b.size()))
    if isinstance(a, Mat) and isinstance(b, Mat):
        return Mat(a.r, a.c, [[tm.ite(c, x, y) for x, y in zip(p, q)] for p, q in zip(a.e, b.e)])
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.lv is not None and b.lv is not None \
            and isinstance(a.lv, LV) and isinstance(b.lv, LV) and a.lv.key() == b.lv.key():
        if a.off is None and b.off is None: return a
        if a.off is not None and b.off is not None: return Ptr(a.lv, tm.ite(c, a.off, b.off))
    if isinstance(a, MIter) and isinstance(b, MIter) and a.lv.key() == b.lv.key() and not a.begin and not b.begin:
        ka, kb = a.key, b.key
        if a.end is None or b.end is None:
            return a if a.end is b.end and ka is kb else CondV(c, a, b)
        if ka is None: ka = kb
        if kb is None: kb = ka
        return MIter(a.lv, ka if ka is kb else tm.ite(c, ka, kb), tm.ite(c, a.end, b.end))
    if isinstance(a, Opaque) and isinstance(b, Opaque): return a
    if a is None and b is None: return None
    return CondV(c, a, b)

def leaves(v, path=(), binders=()):
    """(path, binders, term) for every term of a value"""
    if isinstance(v, T):
        yield path, binders, v
    elif isinstance(v, Rec):
        for k, x in v.f.items():
            yield from leaves(x, path + (k,), binders)
    elif isinstance(v, Vec):
        yield path + ('#n',), binders, v.n
        yield from leaves(v.el, path + ('[]',), binders + (v.bv,))
    elif isinstance(v, Map):
        yield path + ('#mem',), binders + (v.bv,), v.mem
        if v.val is not None:
            yield from leaves(v.val, path + ('{}',), binders + (v.bv,))
    elif isinstance(v, Mat):
        for i in range(v.r):
            for j in range(v.c):
                yield path + ('%d,%d' % (i, j),), binders, v.e[i][j]
    elif isinstance(v, Ptr) and v.off is not None:
        yield path + ('#off',), binders, v.off
    elif isinstance(v, CondV):
        yield from leaves(v.a, path + ('#a',), binders)
        yield from leaves(v.b, path + ('#b',), binders)
    # iterators and opaque values have no leaves

def remap(v, f, path=(), binders=()):
    """rebuild a value with f(path, binders, term) for every term"""
    if isinstance(v, T):
        return f(path, binders, v)
    if isinstance(v, Rec):
        return Rec(v.ty, {k: remap(x, f, path + (k,), binders) for k, x in v.f.items()})
    if isinstance(v, Vec):
        return Vec(f(path + ('#n',), binders, v.n), v.bv, remap(v.el, f, path + ('[]',), binders + (v.bv,)), v.ety)
    if isinstance(v, Map):
        mem = f(path + ('#mem',), binders + (v.bv,), v.mem)
        return Map(v.bv, mem, None if v.val is None else remap(v.val, f, path + ('{}',), binders + (v.bv,)), v.kty, v.vty,
                   v.cnt if mem is v.mem else None)
    if isinstance(v, Mat):
        return Mat(v.r, v.c, [[f(path + ('%d,%d' % (i, j),), binders, v.e[i][j]) for j in range(v.c)] for i in range(v.r)])
    if isinstance(v, Ptr) and v.off is not None:
        return Ptr(v.lv, f(path + ('#off',), binders, v.off))
    if isinstance(v, CondV):
        return CondV(v.c, remap(v.a, f, path + ('#a',), binders), remap(v.b, f, path + ('#b',), binders))
    return v

def veq(a, b, path=(), hyps=()):
    """obligations (path, hyps, goal) for equality of two values.
    Arrays are compared within bounds and map values on members only."""
    if isinstance(a, T) and isinstance(b, T):
        yield path, hyps, tm.eq(a, b)
    elif isinstance(a, Rec) and isinstance(b, Rec):
        for k in a.f:
            if k in b.f:
                yield from veq(a.f[k], b.f[k], path + (k,), hyps)
            else:
                raise Unsupported('field %s' % k)
    elif isinstance(a, Vec) and isinstance(b, Vec):
        yield path + ('#n',), hyps, tm.eq(a.n, b.n)
        j = tm.fresh('i', 'I')
        yield from veq(a.get(j), b.get(j), path + ('[]',), hyps + (tm.le(tm.iv(0), j), tm.lt(j, b.n)))
    elif isinstance(a, Map) and isinstance(b, Map):
        j = tm.fresh('k', 'I')
        yield path + ('#mem',), hyps + keyrange(b.kty, j), tm.iff(a.has(j), b.has(j))
        if b.val is not None:
            yield from veq(a.get(j), b.get(j), path + ('{}',), hyps + keyrange(b.kty, j) + (b.has(j),))
    elif isinstance(a, Mat) and isinstance(b, Mat):
        for i in range(a.r):
            for j in range(a.c):
                yield path + ('%d,%d' % (i, j),), hyps, tm.eq(a.e[i][j], b.e[i][j])
    elif isinstance(a, Opaque) and isinstance(b, Opaque) or a is b:
        return
    elif isinstance(a, Ptr) and isinstance(b, Ptr) and isinstance(a.lv, LV) and isinstance(b.lv, LV) and a.lv.key() == b.lv.key():
        if a.off is not None and b.off is not None:
            yield path, hyps, tm.eq(a.off, b.off)
    else:
        raise Unsupported('compare %s with %s at %s' % (type(a).__name__, type(b).__name__, path))

def keyrange(kty, j):
    if kty and kty[0] == 'int':
        lo, hi = irange(kty)
        return (tm.le(tm.iv(lo), j), tm.lt(j, tm.iv(hi)))
    return ()
def irange(ty):
    _, signed, w = ty
    return (-(1 << (w - 1)), 1 << (w - 1)) if signed else (0, 1 << w)

class State:
    __slots__ = ('cells', 'pc')
    def __init__(self, cells=None, pc=()):
        self.cells = cells if cells is not None else {}
        self.pc = pc
    def copy(self):
        return State(dict(self.cells), self.pc)
    def assume(self, c, tag='a'):
        if c is not tm.TRUE:
            self.pc = self.pc + ((tag, c),)
        return self
    def conds(self):
        return [c for _, c in self.pc]

def split_pc(base, pc):
    n = len(base)
    assert pc[:n] == base
    return pc[n:]
def merge(c, base, s1, s2):
    """state that is s1 when c holds and s2 otherwise"""
    if s1 is None: return s2
    if s2 is None: return s1
    out = State()
    for k in s1.cells:
        out.cells[k] = vite(c, s1.cells[k], s2.cells[k]) if k in s2.cells else s1.cells[k]
    for k in s2.cells:
        if k not in s1.cells:
            out.cells[k] = s2.cells[k]
    pc = base
    seen = set()
    for t, x in split_pc(base, s1.pc):
        y = tm.implies(c, x)
        if y is not tm.TRUE:
            pc = pc + (('a', y),)
    nc = tm.not_(c)
    for t, x in split_pc(base, s2.pc):
        y = tm.implies(nc, x)
        if y is not tm.TRUE:
            pc = pc + (('a', y),)
    out.pc = pc
    return out
