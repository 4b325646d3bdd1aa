"""C08: the low-entropy clustering model."""
from common import *
import c05, c07
from c07 import counts_vec, K_of, n_of, num
Q = c05.Q + '::LowEntropy'
I = tm.iv
def model(e, n=None):
    m = e.obj('model', ('rec', Q))
    N = e.get(m).f['dataset_size']
    e.require(tm.le(I(1), N), tm.lt(N, I(2**31 - 1)))
    return m, N
def xlogx(c): return tm.ite(tm.eq(c, Z), tm.rv(0), tm.mul(c, tm.LOG(c)))
def state(e, N, lo=0):
    c, K, n, E = num(e, 'c', lo), num(e, 'K', lo), num(e, 'n', lo), num(e, 'E', 1)
    e.require(tm.le(c, n), tm.le(K, n), tm.implies(tm.le(I(1), c), tm.and_(tm.le(I(1), K), tm.le(tm.add(K, tm.sub(c, I(1))), n))))
    return c, K, n, E
def nonempty():
    e = Env('adding to a nonempty group')
    m, N = model(e)
    c, K, n, E = state(e, N)
    e.require(tm.le(I(1), c), tm.lt(n, N))
    s = e.call(Q + '::score_add_value', m, c, K, n, E)
    c1 = tm.add(c, I(1))
    e.ensure('the score is (c+1) log(c+1) - c log c up to ten thousand',
             tm.eq(s, tm.sub(tm.mul(c1, tm.LOG(c1)), tm.mul(c, tm.LOG(c)))), [tm.le(c, I(10000))])
    # 1 + log(c+1) is within 1/(2c) of it: c log(1 + 1/c) lies in (1 - 1/(2c), 1)
    e.ensure('the approximation for larger groups is 1 + log(c+1)', tm.eq(s, tm.add(tm.rv(1), tm.LOG(c1))), [tm.lt(I(10000), c)])
    return e
def opening():
    e = Env('opening a group')
    m, N = model(e)
    _, K, n, E = state(e, N)
    e.require(tm.lt(n, N))
    s = e.call(Q + '::score_add_value', m, Z, K, n, E)
    s1 = e.call(Q + '::score_add_value', m, Z, K, n, I(1))
    e.ensure('the empty groups share the score of opening one evenly', tm.eq(tm.add(s, tm.LOG(E)), s1))
    e.ensure('completing the data set carries no correction', tm.eq(s1, tm.rv(0)), [tm.eq(tm.add(n, I(1)), N)])
    K2 = num(e, 'K2')
    e.require(tm.le(K2, n))
    s2 = e.call(Q + '::score_add_value', m, Z, K2, n, E)
    e.ensure('and does not depend on the number of nonempty groups', tm.eq(s, s2))
    return e
def removal():
    e = Env('removal')
    m, N = model(e)
    c, K, n, E = state(e, N, 1)
    e.require(tm.le(n, N))
    r = e.call(Q + '::score_remove_value', m, c, K, n, E)
    one = tm.eq(c, I(1))
    s = e.call(Q + '::score_add_value', m, tm.sub(c, I(1)), tm.sub(K, tm.ite(one, I(1), Z)), tm.sub(n, I(1)), E)
    e.ensure('removing a value scores minus what adding it back scores', tm.eq(tm.add(r, s), Z))
    return e
def S_of(c): return tm.sum_range(Z, c.n, lambda j: xlogx(c.get(j)))
def sums():
    """the score of a partition depends on it through sum c log c, the number of
    values and the number of nonempty groups only"""
    e = Env('score_counts')
    m, N = model(e)
    l1, c1 = counts_vec(e, 'counts')
    l2, c2 = counts_vec(e, 'others')
    for c in (c1, c2): e.require(tm.le(n_of(c), N))
    e.require(tm.eq(n_of(c1), n_of(c2)), tm.eq(K_of(c1), K_of(c2)))
    s1 = e.call(Q + '::score_counts', m, l1)
    s2 = e.call(Q + '::score_counts', m, l2)
    e.ensure('partitions of equally many values into equally many groups differ in score by their sums of c log c',
             tm.eq(tm.sub(s1, S_of(c1)), tm.sub(s2, S_of(c2))))
    z = e.call(Q + '::log_partition_function', m, N)
    e.ensure('the score of a complete partition is sum c log c - log Z', tm.eq(s1, tm.sub(S_of(c1), z)), [tm.eq(n_of(c1), N)])
    e.ensure('no data scores zero', tm.eq(s1, tm.rv(0)), [tm.eq(n_of(c1), Z), tm.eq(S_of(c1), Z)])
    return e
def order():
    """with the lemma above: exchanging groups and empty groups leave the score"""
    e = Env('order of groups')
    lv, c = counts_vec(e)
    g, h, j = tm.var('g', 'I'), tm.var('h', 'I'), tm.fresh('j', 'I')
    e.require(nonneg(g), tm.lt(g, h), tm.lt(h, c.n))
    swapped = Vec(c.n, j, tm.ite(tm.eq(j, g), c.get(h), tm.ite(tm.eq(j, h), c.get(g), c.get(j))), c.ety)
    longer = Vec(tm.add(c.n, I(1)), j, tm.ite(tm.eq(j, c.n), Z, c.get(j)), c.ety)
    for what, d in (('exchanging two groups', swapped), ('an empty group', longer)):
        for name, f in (('sum c log c', S_of), ('the number of values', n_of), ('the number of nonempty groups', K_of)):
            e.ensure('%s leaves %s' % (what, name), tm.eq(f(d), f(c)))
    return e
def complete():
    e = Env('complete data')
    m, N = model(e)
    lv, c = counts_vec(e)
    e.require(tm.eq(n_of(c), N))
    g, h, j = tm.var('g', 'I'), tm.var('h', 'I'), tm.fresh('j', 'I')
    e.require(nonneg(g), tm.lt(g, c.n), nonneg(h), tm.lt(h, c.n), tm.not_(tm.eq(g, h)), tm.le(I(2), c.get(g)), tm.le(I(1), c.get(h)),
              tm.le(c.get(h), I(10000)), tm.le(c.get(g), I(10000)))
    d = Vec(c.n, j, tm.add(c.get(j), tm.ite(tm.eq(j, h), I(1), tm.ite(tm.eq(j, g), I(-1), Z))), c.ety)
    e.ensure('moving a value leaves the number of values', tm.eq(n_of(d), n_of(c)))
    e.ensure('moving a value between nonempty groups leaves their number', tm.eq(K_of(d), K_of(c)))
    K = num(e, 'K', 1)
    e.require(tm.le(K, tm.sub(N, I(1))), tm.le(tm.add(c.get(g), c.get(h)), N))
    e.require(tm.le(tm.add(K, tm.sub(c.get(g), I(1))), N))
    a = e.call(Q + '::score_add_value', m, c.get(h), K, tm.sub(N, I(1)), I(1))
    r = e.call(Q + '::score_remove_value', m, c.get(g), K, N, I(1))
    e.ensure('and changes sum c log c by the incremental scores', tm.eq(tm.sub(S_of(d), S_of(c)), tm.add(a, r)))
    return e
def mixture():
    d = c05.start('driver le', 'mixture scores')
    e = d.e
    c = d.counts()
    N = e.get(d.model).f['dataset_size']
    e.require(tm.lt(n_of(c), N), tm.lt(N, I(2**31 - 1)))
    K, E = K_of(c), d.empties().size()
    e.require(tm.le(K, n_of(c)))
    out = c07.scores(d)
    i = tm.var('i', 'I')
    want = e.call(Q + '::score_add_value', d.model, c.get(i), tm.sub(c.n, E), d.sample_size(), E)
    e.ensure('every group gets the incremental score', tm.eq(out.get(i), want), [tm.le(Z, i), tm.lt(i, c.n)])
    return e
def jobs():
    for f in (nonempty, opening, removal, sums, order, complete, mixture):
        yield f.__name__, f
