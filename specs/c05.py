"""C05: MixtureDriver and the cached Pitman-Yor mixture keep counts, sample size
and the set of empty groups consistent.  The state before an operation is the
one `init` leaves for arbitrary counts; 'inv' obligations show that every
operation again leaves a state of that form (so the history induction closes)."""
from common import *
Q = D + 'Clustering<int>'
I = tm.iv
COUNT = ('int', True, 32)

class Driver:
    def __init__(self, kind, name):
        e = self.e = Env(name)
        e.ex.prune = True
        self.kind = kind
        self.mq = Q + ('::LowEntropy' if kind == 'driver le' else '::PitmanYor')
        self.q = Q + '::PitmanYor::CachedMixture' if kind == 'cached' else D + 'MixtureDriver<%s,int>' % self.mq
        self.model = e.obj('model', ('rec', self.mq))
        if kind != 'driver le':
            m = e.get(self.model)
            e.require(pos(m.f['alpha']), nonneg(m.f['d']), tm.lt(m.f['d'], tm.rv(1)))
        self.s = e.obj('drv', ('rec', self.q))
        c = self.counts()
        self.nonneg(c)
        e.require(tm.lt(c.n, I(2**31 - 2)))
        z = tm.var('z', 'I')
        e.require(tm.le(I(0), z), tm.lt(z, c.n), tm.eq(c.get(z), Z))
        self.z = z
    def nonneg(self, c):
        t = c.get(tm.fresh('i', 'I'))
        f = t.args[0]
        self.e.ex.ax.fun(f, lambda *a: nonneg(tm.app(f, a, 'I')))
    def call(self, name, *a, s=None, **k):
        return self.e.call(self.q + '::' + name, s or self.s, *a, **k)
    def counts(self, s=None):
        return self.call('counts', s=s, pred=lambda f: f.const)
    def empties(self, s=None): return self.call('empty_groupids', s=s)
    def sample_size(self, s=None): return self.call('sample_size', s=s)
    def observe(self, what):
        e = self.e
        c, E = self.counts(), self.empties()
        e.ensure(what + ': the sample size is the sum of the counts', tm.eq(self.sample_size(), tm.sum_range(Z, c.n, lambda j: c.get(j))))
        k = tm.var('obs_k', 'I')
        e.ensure(what + ': a group is listed as empty exactly when its count is zero',
                 tm.iff(E.has(k), tm.and_(tm.le(I(0), k), tm.lt(k, c.n), tm.eq(c.get(k), Z))), [tm.le(I(0), k)])
    def invariant(self, what):
        e = self.e
        c = e.copy('again', self.s)
        self.call('init', self.model, s=c)
        e.equal(what + ': state is as after init', e.get(self.s), e.get(c), kind='inv')
    def index(self, name):
        i = tm.var(name, 'I')
        self.e.require(tm.le(I(0), i), tm.lt(i, self.counts().n))
        return i
def start(kind, name):
    d = Driver(kind, name)
    d.c0 = d.counts()
    d.call('init', d.model)
    return d
def init(kind):
    d = start(kind, 'init')
    e = d.e
    c = d.counts()
    e.equal('init leaves the counts alone', c, d.c0)
    d.observe('after init')
    return e
def num(d, name):
    k = tm.var(name, 'I')
    d.e.require(tm.le(I(1), k), tm.lt(k, I(2**31 - 1)))
    return k
def add(kind):
    d = start(kind, 'add_value')
    e = d.e
    g, k = d.index('g'), num(d, 'k')
    c0, n0, E0 = d.c0, d.sample_size(), d.empties()
    r = d.call('add_value', d.model, g, k)
    c = d.counts()
    was = tm.eq(c0.get(g), Z)
    e.ensure('add reports whether the group was empty', tm.iff(r, was))
    e.ensure('a fresh group is appended exactly then', tm.eq(c.n, tm.add(c0.n, tm.ite(was, I(1), Z))))
    e.ensure('the sample size grows by the number added', tm.eq(d.sample_size(), tm.add(n0, k)))
    i = tm.var('i', 'I')
    e.ensure('only that count changes, by the number added, and the appended group is empty',
             tm.eq(c.get(i), tm.ite(tm.eq(i, c0.n), Z, tm.add(c0.get(i), tm.ite(tm.eq(i, g), k, Z)))), [tm.le(Z, i), tm.lt(i, c.n)])
    e.ensure('the number of empty groups stays', tm.eq(d.empties().size(), E0.size()))
    d.observe('after add_value')
    d.invariant('after add_value')
    return e
def remove(kind):
    d = start(kind, 'remove_value')
    e = d.e
    g, k = d.index('g'), num(d, 'k')
    c0, n0, E0 = d.c0, d.sample_size(), d.empties()
    e.require(tm.le(k, c0.get(g)))
    r = d.call('remove_value', d.model, g, k)
    c = d.counts()
    gone = tm.eq(c0.get(g), k)
    last = tm.sub(c0.n, I(1))
    e.ensure('remove reports whether the group became empty', tm.iff(r, gone))
    e.ensure('a group is removed exactly then', tm.eq(c.n, tm.ite(gone, last, c0.n)))
    e.ensure('the sample size shrinks by the number removed', tm.eq(d.sample_size(), tm.sub(n0, k)))
    i = tm.var('i', 'I')
    e.ensure('the last group takes the removed one\'s place; otherwise only that count changes',
             tm.eq(c.get(i), tm.ite(tm.eq(i, g), tm.ite(gone, c0.get(last), tm.sub(c0.get(i), k)), c0.get(i))), [tm.le(Z, i), tm.lt(i, c.n)])
    e.ensure('the number of empty groups stays', tm.eq(d.empties().size(), E0.size()))
    d.observe('after remove_value')
    d.invariant('after remove_value')
    return e
def same(d, name, a, b):
    e = d.e
    e.equal(name + ' counts', d.counts(a), d.counts(b))
    e.equal(name + ' empty groups', d.empties(a), d.empties(b))
    e.ensure(name + ' sample size', tm.eq(d.sample_size(a), d.sample_size(b)))
def add_split(kind):
    d = start(kind, 'add in two steps')
    e = d.e
    g, k, l = d.index('g'), num(d, 'k'), num(d, 'l')
    s2 = e.copy('other', d.s)
    d.call('add_value', d.model, g, tm.add(k, l))
    d.call('add_value', d.model, g, k, s=s2)
    d.call('add_value', d.model, g, l, s=s2)
    same(d, 'adding k+l at once equals adding k, then l:', d.s, s2)
    return e
def remove_split(kind):
    d = start(kind, 'remove in two steps')
    e = d.e
    g, k, l = d.index('g'), num(d, 'k'), num(d, 'l')
    e.require(tm.le(tm.add(k, l), d.c0.get(g)))
    s2 = e.copy('other', d.s)
    d.call('remove_value', d.model, g, tm.add(k, l))
    r = d.call('remove_value', d.model, g, k, s=s2)
    e.ensure('a partial removal removes no group', tm.not_(r))
    d.call('remove_value', d.model, g, l, s=s2)
    same(d, 'removing k+l at once equals removing k, then l:', d.s, s2)
    return e
def undo(kind):
    d = start(kind, 'remove undoes add')
    e = d.e
    g, k = d.index('g'), num(d, 'k')
    e.require(pos(d.c0.get(g)))
    s2 = e.copy('other', d.s)
    d.call('add_value', d.model, g, k)
    d.call('remove_value', d.model, g, k)
    same(d, 'removing what was added to a nonempty group restores it:', d.s, s2)
    return e
def jobs():
    for kind in ('driver py', 'driver le', 'cached'):
        for f in (init, add, remove, add_split, remove_split, undo):
            yield '%s %s' % (kind, f.__name__), (lambda f=f, kind=kind: f(kind))
