"""C17: assignments.  The loop invariants are stated over the sequence of sampled
group ids: `sampled(k)` is the k-th draw, an arbitrary value its weights allow."""
from common import *
import contracts, c05, c09
I = tm.iv
ONE = tm.rv(1)
ONEI = I(1)
CL = c05.Q
def intvec(v): return isinstance(v, Vec) and v.ety[0] == 'int'
def floatvec(v): return isinstance(v, Vec) and v.ety[0] in ('float', 'double')
def build(n, f, like): 
    j = tm.fresh('b', 'I')
    return Vec(n, j, f(j), like.ety)
def every(st, pred, new):
    s = st.copy()
    for c, v in list(s.cells.items()):
        if pred(v): s.cells[c] = new(v)
    return s
# ---- counting
def assignments(e):
    """an assignment map whose group ids are 0, 1, ..., without gaps"""
    lv = e.obj('assignments', CL + '::Assignments')
    m = map_of(e.get(lv))
    g = m.get(tm.var('any', 'I')).args[0]
    e.ex.ax.fun(g, lambda *a: tm.implies(m.has(a[-1]), nonneg(tm.app(g, a, 'I'))))
    return lv, m
def number(m, g, vis=None):
    y = tm.fresh('y', 'I')
    return tm.bsum(y, tm.ite(tm.and_((vis or m.has)(y), tm.eq(m.get(y), g)), I(1), Z))
def extent(m, vis=None):
    """one more than the largest group id, zero when there is none"""
    y = tm.fresh('y', 'I')
    return tm.bmax(y, tm.TRUE, tm.ite((vis or m.has)(y), tm.add(m.get(y), I(1)), Z))
def gap_rejected():
    """a map that skips a group id does not count"""
    e = Env('count_assignments, gap')
    lv, m = assignments(e)
    g0 = tm.var('skipped', 'I')
    e.require(tm.le(Z, g0), tm.lt(g0, extent(m)), tm.eq(number(m, g0), Z))
    e.ex.loop_hint['count_assignments'] = lambda ex, L: None if L.keyed is None else \
        every(L.st, intvec, lambda v: build(extent(m, L.V(L.kap)), lambda g: number(m, g, L.V(L.kap)), v))
    c09.rejected(e, 'a group id without items is rejected', CL + '::count_assignments', None, lv)
    return e
def counting(contiguous):
    def f():
        e = Env('count_assignments')
        lv, m = assignments(e)
        top = extent(m)
        if contiguous:
            e.ex.ax.all_int(lambda g: tm.implies(tm.and_(tm.le(Z, g), tm.lt(g, top)), tm.le(I(1), number(m, g))))
        def hint(ex, L):
            if L.keyed is None: return None
            vis = L.V(L.kap)
            n = extent(m, vis)
            return every(L.st, intvec, lambda v: build(n, lambda g: number(m, g, vis), v))
        e.ex.loop_hint['count_assignments'] = hint
        r = e.call(CL + '::count_assignments', None, lv)
        g = tm.var('g', 'I')
        e.ensure('one count per group id', tm.eq(r.n, top))
        e.ensure('each is the number of items assigned to it', tm.eq(r.get(g), number(m, g)), [tm.le(Z, g), tm.lt(g, r.n)])
        e.equal('the assignments are unchanged', e.get(lv), m)
        # the loop summary is discharged, without assuming contiguous ids, in gap_rejected
        e.goals = [x for x in e.goals if x.kind != 'loop']
        return e
    f.__name__ = 'counting'
    return f
# ---- sampling
def item(j): return tm.app('item', (j,), 'I')
class Partition:
    """the first n items of the sampled partition, the k-th draw placing item
    k + lag.  K(n), the number of groups, and C(n, g), the items in group g, are
    ghost functions defined by recursion on n; `ghosts` proves what they mean."""
    def __init__(self, e, lag, lemmas=True):
        self.e, self.lag = e, lag
        # a draw is an index into the weights, which (obligation below) are one
        # per group so far and one for a new group
        e.ex.ax.fun('item', lambda j: tm.implies(tm.le(Z, j), tm.and_(tm.le(Z, item(j)), tm.le(item(j), self.K(j)))))
        def k(n):
            p = tm.sub(n, ONEI)
            K, P = self.K(n), self.K(p)
            return tm.and_(tm.le(Z, K), tm.implies(tm.le(n, Z), tm.eq(K, Z)),
                           tm.implies(tm.lt(Z, n), tm.eq(K, tm.add(P, tm.ite(tm.eq(item(p), P), ONEI, Z)))))
        def c(n, g):
            p = tm.sub(n, ONEI)
            C = self.C(n, g)
            d = tm.and_(tm.implies(tm.le(n, Z), tm.eq(C, Z)),
                        tm.implies(tm.lt(Z, n), tm.eq(C, tm.add(self.C(p, g), tm.ite(tm.eq(item(p), g), ONEI, Z)))))
            if lemmas:
                d = tm.and_(d, tm.le(Z, C), tm.implies(tm.and_(tm.le(Z, g), tm.lt(g, self.K(n))), tm.lt(Z, C)), tm.implies(tm.le(self.K(n), g), tm.eq(C, Z)))
            return d
        e.ex.ax.fun('K', k)
        e.ex.ax.fun('C', c)
        e.ex.ax.defs.update(K=self.unfold_K, C=self.unfold_C)
        if lag: e.require(tm.eq(item(Z), Z))
    def a(self, j): return item(j)
    def K(self, n): return tm.app('K', (n,), 'I')
    def C(self, n, g): return tm.app('C', (n, g), 'I')
    def unfold_K(self, n):
        if tm.lin(n)[1] < 1: return self.K(n)
        p = tm.sub(n, ONEI)
        P = self.unfold_K(p)
        return tm.ite(tm.lt(Z, n), tm.add(P, tm.ite(tm.eq(item(p), P), ONEI, Z)), Z)
    def unfold_C(self, n, g):
        if tm.lin(n)[1] < 1: return self.C(n, g)
        p = tm.sub(n, ONEI)
        return tm.ite(tm.lt(Z, n), tm.add(self.unfold_C(p, g), tm.ite(tm.eq(item(p), g), ONEI, Z)), Z)
    def total(self, n):
        return tm.eq(tm.sum_range(Z, self.K(n), lambda g: self.C(n, g)), n)
    def maxK(self, n):
        """one more than the largest id among the first n items"""
        j = tm.fresh('j', 'I')
        return tm.bmax(j, tm.TRUE, tm.ite(tm.and_(tm.le(Z, j), tm.lt(j, n)), tm.add(self.a(j), I(1)), Z))
    def sumC(self, n, g):
        return tm.sum_range(Z, n, lambda j: tm.ite(tm.eq(self.a(j), g), I(1), Z))
def sampling(e, p, score, scale):
    """weights at every draw are the model's incremental scores given the items before"""
    def contract(ex, st, f, this, a, fr, x):
        v = contracts.val(ex, st, a[1])
        k, = ex.loopvars
        n = tm.add(k, I(p.lag))
        K, g = p.K(n), tm.var('g', 'I')
        st.assume(p.total(n))
        if ex.record:
            c = p.C(n, g)
            ex.obl('one weight per group and one for a new group', st, tm.eq(v.n, tm.add(K, I(1))))
            ex.obl('weights are the incremental scores', st, tm.eq(v.get(g), tm.mul(scale(n), EXP_of(score(c, K, n)))),
                   [tm.le(Z, g), tm.lt(g, v.n)])
            if len(a) > 2:
                ex.obl('the total is the sum of the weights', st, tm.eq(contracts.val(ex, st, a[2]), tm.sum_range(Z, v.n, lambda j: v.get(j))))
        r = item(n)
        st.assume(tm.and_(tm.le(Z, r), tm.lt(r, v.n)))
        return r
    e.ex.contracts[D + 'sample_from_likelihoods'] = contract
def EXP_of(s): return tm.EXP(s)
def placed(e, p, r, size):
    e.ensure('one group id per item', tm.eq(r.n, size))
    i = tm.var('i', 'I')
    e.ensure('the first item starts group zero', tm.eq(r.get(Z), Z), [tm.lt(Z, size)])
    e.ensure('item i is in the group of its draw', tm.eq(r.get(i), item(i)), [tm.le(Z, i), tm.lt(i, size)])
    e.ensure('ids are contiguous in order of first appearance', tm.and_(tm.le(Z, r.get(i)), tm.le(r.get(i), p.K(i))), [tm.le(Z, i), tm.lt(i, size)])
def size_arg(e, name='size'):
    n = tm.var(name, 'I')
    e.require(tm.le(Z, n), tm.lt(n, I(2**31 - 1)))
    return n
def pitman_yor():
    import c07
    e = Env('PitmanYor::sample_assignments')
    m, al, d = c07.model(e)
    n = size_arg(e)
    p = Partition(e, 1)
    c0, K0, n0 = [tm.var(x, 'I') for x in ('c?', 'K?', 'n?')]
    e2, st = e.ex.record, e.st; e.ex.record, e.st = False, e.st.copy()
    s0 = e.call(CL + '::PitmanYor::score_add_value', m, c0, K0, n0, I(1))
    e.ex.record, e.st = e2, st
    sampling(e, p, lambda c, K, n: tm.subst(s0, {c0: c, K0: K, n0: n}), lambda n: tm.add(n, al))
    def hint(ex, L):
        when = lambda f: tm.ite(tm.eq(n, Z), f(Z), f(tm.add(L.kap, I(1))))
        n1 = when(lambda n: n)
        K = when(p.K)
        s = every(L.st, floatvec, lambda v: build(tm.add(K, I(1)), lambda g: tm.ite(tm.eq(g, K), tm.add(al, tm.mul(d, tm.toreal(K))), tm.sub(tm.toreal(when(lambda n: p.C(n, g))), d)), v))
        s = every(s, intvec, lambda v: build(v.n, lambda j: tm.ite(tm.and_(tm.le(Z, j), tm.lt(j, n1)), p.a(j), v.get(j)), v))
        L.late_state = every(L.st, lambda v: isinstance(v, T) and v.sort == 'I', lambda v: K)
        return s
    e.ex.loop_hint['sample_assignments'] = hint
    r = e.call(CL + '::PitmanYor::sample_assignments', m, n, e.rngcell)
    placed(e, p, r, n)
    return e
def ghosts():
    """by induction on the number of items: the ghost K(n) is the number of ids in
    use, C(n, g) the number of items in group g, every group below K(n) holds an
    item and none above does"""
    e = Env('ghosts')
    p = Partition(e, 0, lemmas=False)
    n = size_arg(e, 'n')
    g, h, n1 = tm.var('g', 'I'), tm.var('h', 'I'), tm.add(n, I(1))
    e.require(tm.le(Z, g))
    def facts(n, g=g):
        return [('no group is empty', tm.implies(tm.lt(g, p.K(n)), tm.lt(Z, p.C(n, g)))),
                ('none has an id beyond', tm.implies(tm.le(p.K(n), g), tm.eq(p.C(n, g), Z))),
                ('counts are not negative', tm.le(Z, p.C(n, g))),
                ('K is one more than the largest id', tm.eq(p.K(n), p.maxK(n))),
                ('every item is counted', p.total(n)),
                ('C counts the items', tm.eq(p.C(n, g), p.sumC(n, g)))]
    for what, f in facts(Z): e.ensure('no items: ' + what, f)
    e.require(*[f for what, f in facts(n)])
    e.require(*[f for what, f in facts(n, p.K(n))])   # for every g, so this one too
    for what, f in facts(n1): e.ensure('one more item: ' + what, f)
    return e
def low_entropy():
    import c08
    e = Env('LowEntropy::sample_assignments')
    m, N = c08.model(e)
    n = size_arg(e)
    e.require(tm.le(n, N))
    p = Partition(e, 0)
    c0, K0, n0 = [tm.var(x, 'I') for x in ('c?', 'K?', 'n?')]
    e2, st = e.ex.record, e.st; e.ex.record, e.st = False, e.st.copy()
    s0 = e.call(CL + '::LowEntropy::score_add_value', m, c0, K0, n0, I(1))
    e.ex.record, e.st = e2, st
    score = lambda c, K, n: tm.subst(s0, {c0: c, K0: K, n0: n})
    sampling(e, p, score, lambda n: tm.rv(1))
    nonempty = tm.subst_cond(s0, tm.eq(c0, Z), False)
    opening = tm.subst_cond(tm.subst(s0, {c0: Z}), tm.TRUE, True)
    def hint(ex, L):
        k = L.kap
        last = tm.sub(k, I(1))
        K = p.K(last)                       # the groups before the last draw
        size = tm.ite(tm.eq(k, Z), Z, tm.add(K, I(1)))
        lik = lambda g: tm.ite(tm.eq(k, Z), ONE, tm.ite(tm.lt(g, p.K(k)), tm.EXP(tm.subst(nonempty, {c0: p.C(k, g), K0: Z, n0: Z})), tm.EXP(tm.subst(opening, {K0: Z, n0: last}))))
        s = every(L.st, floatvec, lambda v: build(size, lik, v))
        s = every(s, lambda v: intvec(v) and v.n is n, lambda v: build(v.n, lambda j: tm.ite(tm.and_(tm.le(Z, j), tm.lt(j, k)), p.a(j), v.get(j)), v))
        s = every(s, lambda v: intvec(v) and v.n is Z, lambda v: build(size, lambda g: p.C(k, g), v))
        return s
    e.ex.loop_hint['sample_assignments'] = hint
    r = e.call(CL + '::LowEntropy::sample_assignments', m, n, e.rngcell)
    placed(e, p, r, n)
    return e
LEMMAS = [counting(True), gap_rejected, pitman_yor, low_entropy, ghosts]
def jobs():
    for f in LEMMAS: yield f.__name__, f
