"""C07: the Pitman-Yor process.  score_counts is proved equal to the closed form
(by induction over the number of groups from the loop's summary); with that as
its contract the chain rule, invariance under order and empty groups follow.
Placements sum to one over every driver state; the cached mixture's scores equal
the incremental formula after init and after every operation (C05 shows every
operation leaves a state of the form init leaves)."""
from common import *
import c05
from c05 import Driver
Q = c05.Q + '::PitmanYor'
I = tm.iv
ONE = tm.rv(1)
def model(e):
    m = e.obj('model', ('rec', Q))
    v = e.get(m)
    e.require(pos(v.f['alpha']), nonneg(v.f['d']), tm.lt(v.f['d'], ONE))
    return m, v.f['alpha'], v.f['d']
def num(e, name, lo=0):
    k = tm.var(name, 'I')
    e.require(tm.le(I(lo), k), tm.lt(k, I(2**31 - 1)))
    return k
def incremental():
    e = Env('incremental scores')
    m, a, d = model(e)
    c, K, n, E = num(e, 'c'), num(e, 'K'), num(e, 'n'), num(e, 'E', 1)
    s = e.call(Q + '::score_add_value', m, c, K, n, E)
    new = tm.div(tm.add(a, tm.mul(d, K)), tm.mul(tm.add(n, a), E))
    old = tm.div(tm.sub(c, d), tm.add(n, a))
    e.ensure('a new group scores log (alpha + d K) / ((n + alpha) E), another log (c - d) / (n + alpha)',
             tm.eq(s, tm.ite(tm.eq(c, Z), tm.LOG(new), tm.LOG(old))))
    return e
def removal():
    e = Env('removal')
    m, a, d = model(e)
    c, K, n, E = num(e, 'c', 1), num(e, 'K', 1), num(e, 'n', 1), num(e, 'E', 1)
    e.require(tm.le(c, n), tm.le(K, n))
    r = e.call(Q + '::score_remove_value', m, c, K, n, E)
    one = tm.eq(c, I(1))
    s = e.call(Q + '::score_add_value', m, tm.sub(c, I(1)), tm.sub(K, tm.ite(one, I(1), Z)), tm.sub(n, I(1)), E)
    e.ensure('removing a value scores minus what re-adding it scores', tm.eq(tm.add(r, s), Z))
    return e
def counts_vec(e, name='counts'):
    lv = e.obj(name, ('vec', c05.COUNT))
    c = e.get(lv)
    f = c.get(tm.fresh('i', 'I')).args[0]
    e.ex.ax.fun(f, lambda *x: nonneg(tm.app(f, x, 'I')))
    e.require(tm.lt(c.n, I(2**31 - 2)))
    return lv, c
def K_of(c): return tm.sum_range(Z, c.n, lambda j: tm.ite(tm.eq(c.get(j), Z), Z, I(1)))
def n_of(c): return tm.sum_range(Z, c.n, lambda j: c.get(j))
def closed(c, a, d):
    """log EPPF of the Pitman-Yor process: symmetric in the counts, blind to zeros"""
    groups = tm.sum_range(Z, c.n, lambda j: tm.ite(tm.eq(c.get(j), Z), tm.rv(0), tm.sub(tm.LGAMMA(tm.sub(c.get(j), d)), tm.LGAMMA(tm.sub(ONE, d)))))
    opened = tm.sum_range(Z, K_of(c), lambda k: tm.LOG(tm.add(a, tm.mul(d, k))))
    return tm.sub(tm.add(opened, groups), tm.sub(tm.LGAMMA(tm.add(a, n_of(c))), tm.LGAMMA(a)))
def with_n(c, n): return Vec(n, c.bv, c.el, c.ety)
def counts_closed():
    e = Env('score_counts')
    m, a, d = model(e)
    lv, c = counts_vec(e)
    s = e.call(Q + '::score_counts', m, lv)
    if c.n.op != 'var': raise Unsupported('length is not a variable')
    at = lambda t, n: tm.subst(t, {c.n: n})
    e.ensure('no groups: score zero', tm.eq(at(s, Z), tm.rv(0)))
    e.ensure('no groups: closed form zero', tm.eq(closed(with_n(c, Z), a, d), tm.rv(0)))
    n1 = tm.add(c.n, I(1))
    e.ensure('one more group: the score grows as the closed form does',
             tm.eq(tm.sub(at(s, n1), s), tm.sub(closed(with_n(c, n1), a, d), closed(c, a, d))))
    return e
def chain():
    e = Env('chain rule')
    m, a, d = model(e)
    lv, c = counts_vec(e)
    g = tm.var('g', 'I')
    e.require(nonneg(g), tm.lt(g, c.n))
    j = tm.fresh('j', 'I')
    c1 = Vec(c.n, j, tm.add(c.get(j), tm.ite(tm.eq(j, g), I(1), Z)), c.ety)
    s = e.call(Q + '::score_add_value', m, c.get(g), K_of(c), n_of(c), I(1))
    e.ensure('seating one more member adds its incremental score', tm.eq(tm.sub(closed(c1, a, d), closed(c, a, d)), s))
    return e
def order():
    e = Env('order of groups')
    m, a, d = model(e)
    lv, c = counts_vec(e)
    g, h, j = tm.var('g', 'I'), tm.var('h', 'I'), tm.fresh('j', 'I')
    e.require(nonneg(g), tm.lt(g, h), tm.lt(h, c.n))
    c1 = Vec(c.n, j, tm.ite(tm.eq(j, g), c.get(h), tm.ite(tm.eq(j, h), c.get(g), c.get(j))), c.ety)
    e.ensure('exchanging two groups leaves the score', tm.eq(closed(c1, a, d), closed(c, a, d)))
    c2 = Vec(tm.add(c.n, I(1)), j, tm.ite(tm.eq(j, c.n), Z, c.get(j)), c.ety)
    e.ensure('an empty group leaves the score', tm.eq(closed(c2, a, d), closed(c, a, d)))
    return e
def scores(drv):
    e = drv.e
    c = drv.counts()
    lv = e.floats('scores', c.n)
    drv.call('score_value', drv.model, e.aligned(lv))
    return e.get(lv)
def normalised(kind):
    d = c05.start(kind, 'placements sum to one')
    e = d.e
    c = d.counts()
    out = scores(d)
    e.ensure('the probabilities of all placements sum to one',
             tm.eq(tm.sum_range(Z, c.n, lambda j: tm.EXP(out.get(j))), tm.rv(1)))
    return e
def per_group(kind, op):
    d = c05.start(kind, 'scores after ' + op)
    e = d.e
    if op != 'init':
        g, k = d.index('g'), c05.num(d, 'k')
        if op == 'remove_value': e.require(tm.le(k, d.c0.get(g)))
        d.call(op, d.model, g, k)
    c, E = d.counts(), d.empties().size()
    i = tm.var('i', 'I')
    h = [tm.le(Z, i), tm.lt(i, c.n)]
    out = scores(d).get(i)
    want = e.call(Q + '::score_add_value', d.model, c.get(i), tm.sub(c.n, E), d.sample_size(), E)
    e.ensure('score of every group after %s is the incremental score' % op, tm.eq(out, want), h)
    return e
def jobs():
    yield 'incremental', incremental
    yield 'removal', removal
    yield 'closed form', counts_closed
    yield 'chain', chain
    yield 'order', order
    for kind in ('driver py', 'cached'):
        yield kind + ' normalised', lambda kind=kind: normalised(kind)
        for op in ('init', 'add_value', 'remove_value'):
            yield '%s scores %s' % (kind, op), lambda kind=kind, op=op: per_group(kind, op)
