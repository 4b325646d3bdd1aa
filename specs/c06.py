"""C06: MixtureIdTracker.  Class invariant over the representation (the vector
packed->global, the map global->packed and the id counter, found by type):
 every packed id i < n has a global id below the counter whose map entry is i;
 every map entry k -> i has i < n and the vector sends i back to k.
Each operation is proved to establish/preserve it and to act on the abstract
bijection as stated; the observers are proved against it."""
from common import *
Q = D + 'MixtureIdTracker'
I = tm.iv
def fields(e, s):
    v = e.get(s)
    vec = [k for k, x in v.f.items() if isinstance(x, Vec)]
    mp = [k for k, x in v.f.items() if isinstance(x, Map)]
    ct = [k for k, x in v.f.items() if isinstance(x, T)]
    if len(vec) != 1 or len(mp) != 1 or len(ct) != 1:
        raise Unsupported('tracker representation changed')
    return v.f[vec[0]], v.f[mp[0]], v.f[ct[0]]
def start(name):
    e = Env(name)
    s = e.obj('t', ('rec', Q))
    P, G, n = fields(e, s)
    lt = lambda a, b: tm.and_(tm.le(I(0), a), tm.lt(a, b))
    def pfact(*a):
        i = a[-1]
        g = P.get(i)
        return tm.implies(lt(i, P.n), tm.and_(lt(g, n), G.has(g), tm.eq(G.get(g), i)))
    def gfact(*a):
        k = a[-1]
        return tm.implies(G.has(k), tm.and_(lt(k, n), lt(G.get(k), P.n), tm.eq(P.get(G.get(k)), k)))
    j = tm.fresh('i', 'I')
    e.ex.ax.fun(P.get(j).args[0], pfact)
    m = G.has(j)
    e.ex.ax.fun(m.args[0], gfact)
    # 32-bit ids: the counter never wraps (a group per nanosecond for four seconds would)
    e.require(tm.lt(n, I(2**32 - 1)), tm.le(P.n, n))
    return e, s
def invariant(e, s, what):
    P, G, n = fields(e, s)
    i = tm.var('inv_i', 'I')
    hi = [tm.le(I(0), i), tm.lt(i, P.n)]
    g = P.get(i)
    e.ensure(what + ': every packed id has a global id below the counter', tm.and_(tm.le(I(0), g), tm.lt(g, n)), hi)
    e.ensure(what + ': its reverse entry exists', G.has(g), hi)
    e.ensure(what + ': global_to_packed inverts packed_to_global', tm.eq(G.get(g), i), hi)
    k = tm.var('inv_k', 'I')
    hk = [G.has(k), tm.le(I(0), k), tm.lt(k, I(2**32))]
    e.ensure(what + ': every live global id is below the counter', tm.lt(k, n), hk)
    e.ensure(what + ': every live global id maps to a packed id', tm.and_(tm.le(I(0), G.get(k)), tm.lt(G.get(k), P.n)), hk)
    e.ensure(what + ': packed_to_global inverts global_to_packed', tm.eq(P.get(G.get(k)), k), hk)
    e.ensure(what + ': no more live ids than ids handed out', tm.le(P.n, n))
def size(e, s): return e.call(Q + '::packed_size', s)
def gsize(e, s): return e.call(Q + '::global_size', s)
def p2g(e, s, i): return e.call(Q + '::packed_to_global', s, i)
def idx(e, name, n):
    i = tm.var(name, 'I')
    e.require(tm.le(I(0), i), tm.lt(i, n))
    return i
def init():
    e = Env('init')
    s = e.obj('t', ('rec', Q))
    n = e.value('n', ('int', False, 64))
    e.require(tm.lt(n, I(2**32 - 1)))
    e.call(Q + '::init', s, n)
    invariant(e, s, 'after init')
    e.ensure('init makes the requested number of groups', tm.eq(size(e, s), n))
    e.ensure('init hands out exactly the ids 0..n-1', tm.eq(gsize(e, s), n))
    return e
def add_group():
    e, s = start('add_group')
    n, g = size(e, s), gsize(e, s)
    i = idx(e, 'keep', n)
    old = p2g(e, s, i)
    e.call(Q + '::add_group', s)
    invariant(e, s, 'after add_group')
    e.ensure('add_group appends one group', tm.eq(size(e, s), tm.add(n, I(1))))
    e.ensure('the counter moves past the new id', tm.eq(gsize(e, s), tm.add(g, I(1))))
    e.ensure('the new group has an id never used before', tm.le(g, p2g(e, s, n)))
    e.ensure('existing groups keep their global ids', tm.eq(p2g(e, s, i), old))
    return e
def remove_group():
    e, s = start('remove_group')
    n, g = size(e, s), gsize(e, s)
    r = idx(e, 'r', n)
    last = tm.sub(n, I(1))
    gr, gl = p2g(e, s, r), p2g(e, s, last)
    i = idx(e, 'keep', last)
    old = p2g(e, s, i)
    e.call(Q + '::remove_group', s, r)
    invariant(e, s, 'after remove_group')
    e.ensure('remove_group drops one group', tm.eq(size(e, s), last))
    e.ensure('ids are never handed back', tm.eq(gsize(e, s), g))
    e.ensure('the last group takes the removed place, all others stay', tm.eq(p2g(e, s, i), tm.ite(tm.eq(i, r), gl, old)))
    P, G, _ = fields(e, s)
    e.ensure('the removed global id is gone', tm.not_(G.has(gr)))
    return e
def observers():
    e, s = start('observers')
    P, G, n = fields(e, s)
    i = idx(e, 'i', size(e, s))
    g = p2g(e, s, i)
    e.ensure('round trip packed -> global -> packed', tm.eq(e.call(Q + '::global_to_packed', s, g), i))
    k = tm.var('k', 'I')
    e.require(tm.le(I(0), k), tm.lt(k, I(2**32)), G.has(k))
    p = e.call(Q + '::global_to_packed', s, k)
    e.ensure('round trip global -> packed -> global', tm.eq(p2g(e, s, p), k))
    return e
def distinct():
    e, s = start('distinct')
    i, j = idx(e, 'i', size(e, s)), idx(e, 'j', size(e, s))
    e.ensure('distinct packed ids have distinct global ids', tm.or_(tm.eq(i, j), tm.not_(tm.eq(p2g(e, s, i), p2g(e, s, j)))))
    return e
def jobs():
    for f in (init, add_group, remove_group, observers, distinct):
        yield f.__name__, f
