"""Shared descriptors of the component models: preconditions on hyperparameters,
the class invariant of groups (established and preserved by C01), values."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vcg'))
import term as tm
from term import T
from vals import *
import spec
from spec import Env, D

Z = tm.iv(0)
def pos(x): return tm.lt(Z, x)
def nonneg(x): return tm.le(Z, x)

class Model:
    key = cpp = None
    small_only = False
    repeat = True
    def __init__(self): self.q = D + self.cpp
    # hyperparameters
    def shared_pre(self, e, v): return []
    def shared(self, e, name='shared'):
        lv = e.obj(name, ('rec', self.q + '::Shared'))
        self.fix_shared(e, lv)
        e.require(*self.shared_pre(e, e.get(lv)))
        return lv
    def fix_shared(self, e, lv): pass
    # groups
    def group_inv(self, e, g, sh): return []
    def group(self, e, name='g', sh=None):
        lv = e.obj(name, ('rec', self.q + '::Group'))
        e.require(*self.group_inv(e, e.get(lv), sh))
        return lv
    def garbage(self, e, name='g'):
        """a group object before init: arbitrary contents"""
        return e.obj(name, ('rec', self.q + '::Group'))
    # values
    def value(self, e, name='v', sh=None):
        lv = e.obj(name, self.q + '::Value')
        e.require(*self.value_pre(e, e.get(lv), sh))
        return lv
    def value_pre(self, e, v, sh): return []
    def env(self, name): return Env(name)
    def size(self, g): return None

class BB(Model):
    key, cpp = 'bb', 'BetaBernoulli'
    def shared_pre(self, e, s): return [pos(s.f['alpha']), pos(s.f['beta'])]
    def group_inv(self, e, g, sh): return [nonneg(g.f['heads']), nonneg(g.f['tails'])]
    def holds(self, g, v, sh): return tm.ite(v, pos(g.f['heads']), pos(g.f['tails']))

class BNB(Model):
    key, cpp = 'bnb', 'BetaNegativeBinomial'
    def shared_pre(self, e, s): return [pos(s.f['alpha']), pos(s.f['beta']), tm.le(tm.iv(1), s.f['r'])]
    def group_inv(self, e, g, sh): return [nonneg(g.f['count']), nonneg(g.f['sum']), tm.implies(tm.eq(g.f['count'], Z), tm.eq(g.f['sum'], Z))]
    def value_pre(self, e, v, sh): return [nonneg(v)]
    def holds(self, g, v, sh):
        return tm.and_(pos(g.f['count']), tm.le(v, g.f['sum']), tm.implies(tm.eq(g.f['count'], tm.iv(1)), tm.eq(g.f['sum'], v)))

class GP(Model):
    key, cpp = 'gp', 'GammaPoisson'
    def shared_pre(self, e, s): return [pos(s.f['alpha']), pos(s.f['inv_beta'])]
    def group_inv(self, e, g, sh):
        return [nonneg(g.f['count']), nonneg(g.f['sum']), tm.implies(tm.eq(g.f['count'], Z), tm.and_(tm.eq(g.f['sum'], Z), tm.eq(g.f['log_prod'], Z)))]
    def value_pre(self, e, v, sh): return [nonneg(v), tm.lt(v, tm.iv(2**31))]
    def holds(self, g, v, sh):
        lf = tm.LGAMMA(tm.add(tm.toreal(v), tm.rv(1)))
        return tm.and_(pos(g.f['count']), tm.le(v, g.f['sum']),
                       tm.implies(tm.eq(g.f['count'], tm.iv(1)), tm.and_(tm.eq(g.f['sum'], v), tm.eq(g.f['log_prod'], lf))))

class NICH(Model):
    key, cpp = 'nich', 'NormalInverseChiSq'
    def shared_pre(self, e, s): return [pos(s.f['kappa']), pos(s.f['sigmasq']), pos(s.f['nu'])]
    def group_inv(self, e, g, sh):
        c, m, q = g.f['count'], g.f['mean'], g.f['count_times_variance']
        return [nonneg(c), nonneg(q), tm.implies(tm.eq(c, Z), tm.eq(m, Z)), tm.implies(tm.le(c, tm.iv(1)), tm.eq(q, Z))]
    def holds(self, g, v, sh):
        c, m, q = g.f['count'], g.f['mean'], g.f['count_times_variance']
        d = tm.sub(v, m)
        return tm.and_(pos(c), tm.implies(tm.eq(c, tm.iv(1)), tm.eq(m, v)), tm.implies(tm.eq(c, tm.iv(2)), tm.eq(q, tm.scale(tm.mul(d, d), 2))))

class DD(Model):
    key, cpp = 'dd', 'DirichletDiscrete<16>'
    N = 16
    def fix_shared(self, e, lv):
        v = e.get(lv)
        j = tm.fresh('i', 'I')
        nm = v.f['alphas'].get(j)
        e.ex.ax.fun(nm.args[0], lambda *a: tm.implies(tm.and_(tm.le(Z, a[-1]), tm.lt(a[-1], v.f['dim'])), pos(tm.app(nm.args[0], a, 'R'))))
    def shared_pre(self, e, s):
        return [tm.le(tm.iv(1), s.f['dim']), tm.le(s.f['dim'], tm.iv(self.N))]
    def group_inv(self, e, g, sh):
        dim = g.f['dim']
        d = e.get(sh, 'dim') if sh is not None else dim
        c = g.f['counts']
        self.counts_nonneg(e, c, d)
        return [tm.eq(dim, d), tm.eq(g.f['count_sum'], tm.sum_range(Z, d, lambda j: c.get(j)))]
    def counts_nonneg(self, e, c, d):
        t = c.get(tm.fresh('i', 'I'))
        if t.op == 'app':
            f = t.args[0]
            e.ex.ax.fun(f, lambda *a: nonneg(tm.app(f, a, 'I')))
    def value_pre(self, e, v, sh): return [nonneg(v), tm.lt(v, e.get(sh, 'dim'))]
    def holds(self, g, v, sh): return pos(g.f['counts'].get(v))

# ---- sparse counters (C09 decides the container's own operations)
def sc_parts(v):
    """(map, total) of a SparseCounter, found by type"""
    m = [x for x in v.f.values() if isinstance(x, Map)]
    t = [x for x in v.f.values() if isinstance(x, T)]
    if len(m) != 1 or len(t) != 1: raise Unsupported('layout of SparseCounter')
    return m[0], t[0]
def sc_fields(v):
    return next(k for k, x in v.f.items() if isinstance(x, Map)), next(k for k, x in v.f.items() if isinstance(x, T))
def sc_count(v, k):
    m, _ = sc_parts(v)
    return tm.ite(m.has(k), m.get(k), Z)
def sc_total(v):
    m, _ = sc_parts(v)
    j = tm.fresh('k', 'I')
    return tm.bsum(j, tm.ite(m.has(j), m.get(j), Z))
def sc_merged(v, w, visited=None):
    """the counter with the (visited) counts of w added"""
    m, t = sc_parts(v)
    src, _ = sc_parts(w)
    mk, tk = sc_fields(v)
    vis = visited or src.has
    j, y = tm.fresh('k', 'I'), tm.fresh('y', 'I')
    n = tm.add(sc_count(v, j), tm.ite(vis(j), src.get(j), Z))
    return Rec(v.ty, {mk: Map(j, tm.not_(tm.eq(n, Z)), n, m.kty, m.vty),
                      tk: tm.add(t, tm.bsum(y, tm.ite(vis(y), src.get(y), Z)))})
def sc_merge_contract(ex, st, f, this, args, fr, e):
    """SparseCounter::merge: pointwise sum (its body against this: C09 merge)"""
    a, b = ex.load(st, this), args[0]
    if isinstance(b, (LV, LVCond)): b = ex.load(st, b)
    ex.store(st, this, sc_merged(a, b))
    return None
def map_of(v):
    if isinstance(v, Map): return v
    m = [x for x in v.f.values() if isinstance(x, Map)]
    if len(m) != 1: raise Unsupported('layout of Sparse_')
    return m[0]

class DPD(Model):
    key, cpp = 'dpd', 'DirichletProcessDiscrete'
    OTHER = tm.iv(0xFFFFFFFF)
    def env(self, name):
        e = Env(name)
        e.ex.contracts[D + 'SparseCounter<unsigned int,int>::merge'] = sc_merge_contract
        return e
    def fix_shared(self, e, lv):
        m = map_of(e.get(lv, 'betas'))
        x = m.get(tm.var('any', 'I'))
        e.ex.ax.fun(x.args[0], lambda *a: tm.implies(m.has(a[-1]), pos(tm.app(x.args[0], a, 'R'))))
        h = m.has(tm.var('any', 'I'))
        e.ex.ax.fun(h.args[0], lambda *a: tm.implies(tm.app(h.args[0], a, 'B'), tm.not_(tm.eq(a[-1], self.OTHER))))
    def shared_pre(self, e, s): return [pos(s.f['alpha']), nonneg(s.f['beta0']), pos(s.f['gamma'])]
    def group_inv(self, e, g, sh):
        """no data debt: listed counts are positive, listed values are known, the total is their sum"""
        c = g.f['counts']
        m, t = sc_parts(c)
        k = tm.var('any', 'I')
        betas = map_of(e.get(sh, 'betas'))
        x, h = m.get(k), m.has(k)
        if x.op == 'app' and h.op == 'app':
            e.ex.ax.fun(x.args[0], lambda *a: tm.implies(m.has(a[-1]), pos(tm.app(x.args[0], a, 'I'))))
            e.ex.ax.fun(h.args[0], lambda *a: tm.implies(tm.app(h.args[0], a, 'B'), betas.has(a[-1])))
        return [tm.eq(t, sc_total(c)), tm.implies(h, pos(x)), tm.implies(h, betas.has(k))]
    def value_pre(self, e, v, sh): return [map_of(e.get(sh, 'betas')).has(v)]
    def holds(self, g, v, sh): return sc_parts(g.f['counts'])[0].has(v)
    def value_or_other(self, e, name, sh):
        """a known value, or OTHER() when unseen values have positive mass"""
        lv = e.obj(name, ('int', False, 32))
        v = e.get(lv)
        e.require(tm.or_(map_of(e.get(sh, 'betas')).has(v), tm.and_(tm.eq(v, self.OTHER), pos(e.get(sh, 'beta0')))))
        return lv

class NIW(Model):
    """the fixed-dimension instances of the library.  Positive definiteness of the
    scale matrices (so that they have an inverse and a logarithm of the
    determinant) is assumed, not shown: e.nosafety"""
    def __init__(self, d):
        self.d, self.key, self.cpp = d, 'niw%d' % d, 'NormalInverseWishart<%d>' % d
        Model.__init__(self)
    def env(self, name):
        e = Env(name); e.nosafety = True; return e
    def symmetric(self, e, lv, f):
        v = e.get(lv); m = v.f[f]
        e.set(lv, Rec(v.ty, dict(v.f, **{f: Mat(m.r, m.c, [[m.e[min(i, j)][max(i, j)] for j in range(m.c)] for i in range(m.r)])})))
    def fix_shared(self, e, lv): self.symmetric(e, lv, 'psi')
    def shared_pre(self, e, s): return [pos(s.f['kappa']), tm.lt(tm.iv(self.d - 1), s.f['nu'])]
    def group(self, e, name='g', sh=None):
        lv = e.obj(name, ('rec', self.q + '::Group'))
        self.symmetric(e, lv, 'sum_xxT')
        e.require(*self.group_inv(e, e.get(lv), sh))
        return lv
    def group_inv(self, e, g, sh):
        z = [tm.eq(x, tm.rv(0)) for f in ('sum_x', 'sum_xxT') for r in g.f[f].e for x in r]
        return [nonneg(g.f['count']), tm.implies(tm.eq(g.f['count'], Z), tm.and_(*z))]
    def holds(self, g, v, sh):
        """(a group of one value has its statistics)"""
        x, q, w = [[r[0] for r in g.f['sum_x'].e], g.f['sum_xxT'].e, [r[0] for r in v.e]]
        n = range(self.d)
        return tm.and_(pos(g.f['count']), tm.implies(tm.eq(g.f['count'], tm.iv(1)), tm.and_(
            *[tm.eq(x[i], w[i]) for i in n], *[tm.eq(q[i][j], tm.mul(w[i], w[j])) for i in n for j in n])))

MODELS = [BB(), BNB(), GP(), NICH(), DD(), DPD()]
NIWS = [NIW(2), NIW(3)]
MIXED = MODELS
BYKEY = {m.key: m for m in MODELS + NIWS}

def view(m, e, g, sh):
    """the observable part of a group (DD: the first dim counters)"""
    if m.key == 'dd' and 'dim' in g.f:
        f = dict(g.f)
        c = f['counts']
        f['counts'] = Vec(e.get(sh, 'dim') if sh is not None else g.f['dim'], c.bv, c.el, c.ety)
        return Rec(g.ty, f)
    return g
def same_group(m, e, name, a, b, sh):
    e.equal(name, view(m, e, e.get(a) if isinstance(a, LV) else a, sh), view(m, e, e.get(b) if isinstance(b, LV) else b, sh))

# ------------------------------------------------------------------ mixtures
class Mix:
    """a mixture object with arbitrary contents and valid groups"""
    def __init__(self, m, name, small=False, sh=None):
        self.m, self.small = m, small
        e = self.e = m.env(name)
        vs = D + 'SmallMixtureSlaveValueScorer<%s>' % m.q if small else m.q + '::MixtureValueScorer'
        self.qn = D + 'MixtureSlave<%s,%s::MixtureDataScorer,%s>' % (m.q, m.q, vs)
        self.sh = m.shared(e)
        self.s = e.obj('mix', ('rec', self.qn))
        g = self.groups_lv()
        v = e.get(g)
        if m.key == 'dd':
            # every group has the dimension of the shared parameters (class invariant)
            v = Vec(v.n, v.bv, Rec(v.el.ty, dict(v.el.f, dim=e.get(self.sh, 'dim'))), v.ety)
            e.set(g, v)
        self.n = v.n
        self.all_groups(v)
    def all_groups(self, v):
        e, m = self.e, self.m
        j = tm.fresh('j', 'I')
        el = v.get(j)
        if m.key == 'dpd': return self.dpd_groups(v, j, el)
        conds = m.group_inv(e, el, self.sh)
        fs = {t.args[0] for _, _, t in leaves(el) if t.op == 'app' and t.args[1] is j}
        for f in fs:
            e.ex.ax.fun(f, lambda *a: tm.implies(tm.and_(tm.le(Z, a[0]), tm.lt(a[0], v.n)), tm.and_(*[tm.subst(c, {j: a[0]}) for c in conds])))
    def dpd_groups(self, v, j, el):
        """no data debt: listed counts are positive, listed values are known, the total is their sum"""
        ax, betas = self.e.ex.ax, map_of(self.e.get(self.sh, 'betas'))
        m, t = sc_parts(el.f['counts'])
        k = tm.var('any', 'I')
        x, h = m.get(k), m.has(k)
        inside = lambda a: tm.and_(tm.le(Z, a[0]), tm.lt(a[0], v.n))
        at = lambda term, a: tm.subst(term, {j: a[0]})
        ax.fun(x.args[0], lambda *a: tm.implies(tm.and_(inside(a), tm.app(h.args[0], a, 'B')), pos(tm.app(x.args[0], a, 'I'))))
        ax.fun(h.args[0], lambda *a: tm.implies(tm.and_(inside(a), tm.app(h.args[0], a, 'B')), betas.has(a[1])))
        eq = tm.eq(t, sc_total(el.f['counts']))
        ax.fun(t.args[0], lambda *a: tm.implies(inside(a), at(eq, a)))
    def dpd_cache(self):
        """the cache of the DPD value scorer, found by its shape: a map from values to
        (vector of floats, integer), and the vector of floats beside it"""
        out = []
        def go(v):
            if not isinstance(v, Rec): return
            maps = [(k, x) for k, x in v.f.items() if isinstance(x, Rec) and any(isinstance(y, Map) and isinstance(y.val, Rec) for y in x.f.values())]
            vecs = [k for k, x in v.f.items() if isinstance(x, Vec) and isinstance(x.el, T) and x.el.sort == 'R']
            if len(maps) == 1 and len(vecs) == 1: out.append((v, maps[0][0], vecs[0]))
            for x in v.f.values(): go(x)
        go(self.e.get(self.s))
        if len(out) != 1: raise Unsupported('layout of the DPD value scorer')
        rec, mk, vk = out[0]
        m = map_of(rec.f[mk])
        ints = [k for k, x in m.val.f.items() if isinstance(x, T) and x.sort == 'I']
        vs = [k for k, x in m.val.f.items() if isinstance(x, Vec)]
        if len(ints) != 1 or len(vs) != 1: raise Unsupported('layout of the DPD value scorer')
        return rec, mk, vk, ints[0], vs[0]
    def dpd_cardinality(self):
        """lemma (finite sets): a set of as many keys as a subset of it has no others"""
        e = self.e
        rec, mk, vk, ref, vec = self.dpd_cache()
        m, betas = map_of(rec.f[mk]), map_of(e.get(self.sh, 'betas'))
        k = tm.fresh('k', 'I')
        size = lambda c: tm.bsum(k, tm.ite(c, tm.iv(1), Z))
        e.ex.ax.fun(m.has(k).args[0], lambda *a: tm.implies(tm.and_(m.has(a[0]), tm.not_(betas.has(a[0]))),
                    tm.lt(size(betas.has(k)), size(tm.or_(betas.has(k), m.has(k))))))
    def dpd_counts(self):
        """(number of groups, count of value k in group g, total of group g)"""
        v = self.groups()
        def count(g, k):
            m, t = sc_parts(v.get(g).f['counts'])
            return tm.ite(m.has(k), m.get(k), Z)
        return v.n, count, lambda g: sc_parts(v.get(g).f['counts'])[1]
    def dpd_sum(self, k):
        n, count, total = self.dpd_counts()
        j = tm.fresh('j', 'I')
        return tm.bsum(j, tm.ite(tm.and_(tm.le(Z, j), tm.lt(j, n)), count(j, k), Z))
    def dpd_start(self, gid=None):
        """an arbitrary state of the cache between operations: it lists at least the
        values some group lists and at most the known ones, with one score per group,
        and the reference count of an entry is at least the number of values it counts"""
        e = self.e
        rec, mk, vk, ref, vec = self.dpd_cache()
        sh, m = e.get(self.sh), map_of(rec.f[mk])
        alpha, betas = sh.f['alpha'], map_of(sh.f['betas'])
        n, count, total = self.dpd_counts()
        log = lambda t: tm.app('LOG', (t,), 'R')
        k = m.bv
        s = m.val.f[vec]
        cell = Vec(n, s.bv, log(tm.add(tm.mul(alpha, betas.get(k)), tm.toreal(count(s.bv, k)))), s.ety)
        new = Map(k, m.mem, Rec(m.val.ty, dict(m.val.f, **{vec: cell})), m.kty, m.vty, m.cnt)
        w = rec.f[vk]
        shift = Vec(n, w.bv, log(tm.add(alpha, tm.toreal(total(w.bv)))), w.ety)
        inner = [q for q, x in rec.f[mk].f.items() if x is m][0]
        r2 = Rec(rec.ty, dict(rec.f, **{mk: Rec(rec.f[mk].ty, dict(rec.f[mk].f, **{inner: new})), vk: shift}))
        def put(v):
            if v is rec: return r2
            if not isinstance(v, Rec): return v
            return Rec(v.ty, {q: put(x) for q, x in v.f.items()})
        e.set(self.s, put(e.get(self.s)))
        any_ = tm.var('any', 'I')
        hm, hr = m.has(any_).args[0], m.get(any_).f[ref].args[0]
        e.ex.ax.fun(hm, lambda *a: tm.implies(m.has(a[0]), betas.has(a[0])))
        e.ex.ax.fun(hr, lambda *a: tm.implies(m.has(a[0]), tm.le(self_sum(a[0]), tm.app(hr, a, 'I'))))
        j = tm.fresh('j', 'I')
        body = tm.ite(tm.and_(tm.le(Z, j), tm.lt(j, n)), count(j, k), Z)
        self_sum = lambda key: tm.bsum(j, tm.subst(body, {k: key}))
        gm, _ = sc_parts(self.groups().get(j).f['counts'])
        hg = gm.has(any_).args[0]
        e.ex.ax.fun(hg, lambda *a: tm.implies(tm.and_(tm.le(Z, a[0]), tm.lt(a[0], n), tm.app(hg, a, 'B')), m.has(a[1])))
        # lemmas (finite sets and sums): a subset has no more elements, and fewer when one
        # is missing; the counts of two groups are at most the sum over all of them
        size = lambda c: tm.bsum(k, tm.ite(c, tm.iv(1), Z))
        nm, nb = size(m.has(k)), size(betas.has(k))
        e.require(tm.le(nm, nb))
        e.ex.ax.fun(betas.has(any_).args[0], lambda *a: tm.implies(tm.and_(betas.has(a[0]), tm.not_(m.has(a[0]))), tm.lt(nm, nb)))
        if gid is not None:
            e.ex.ax.fun(hg, lambda *a: tm.implies(tm.and_(tm.le(Z, a[0]), tm.lt(a[0], n), tm.not_(tm.eq(a[0], gid)), tm.app(hg, a, 'B')),
                        tm.le(tm.add(count(a[0], a[1]), count(gid, a[1])), self_sum(a[1]))))
    def dpd_invariant(self, what):
        """the cache is in such a state again"""
        e = self.e
        rec, mk, vk, ref, vec = self.dpd_cache()
        sh, m = e.get(self.sh), map_of(rec.f[mk])
        alpha, betas = sh.f['alpha'], map_of(sh.f['betas'])
        n, count, total = self.dpd_counts()
        log = lambda t: tm.app('LOG', (t,), 'R')
        k, g = tm.var('key', 'I'), tm.var('gi', 'I')
        inr = [tm.le(Z, g), tm.lt(g, n)]
        def inv(name, goal, hyps=()): e.ensure('%s: %s' % (what, name), goal, list(hyps), kind='inv')
        x = m.get(k)
        inv('cached values are known', betas.has(k), [m.has(k)])
        inv('listed values are cached', tm.eq(count(g, k), Z), inr + [tm.not_(m.has(k))])
        inv('one cached score per group', tm.eq(x.f[vec].n, n), [m.has(k)])
        inv('cached scores', tm.eq(x.f[vec].get(g), log(tm.add(tm.mul(alpha, betas.get(k)), tm.toreal(count(g, k))))), inr + [m.has(k)])
        inv('cached normaliser', tm.eq(rec.f[vk].get(g), log(tm.add(alpha, tm.toreal(total(g))))), inr)
        inv('one normaliser per group', tm.eq(rec.f[vk].n, n))
        inv('reference counts', tm.le(self.dpd_sum(k), x.f[ref]), [m.has(k)])
    def groups_lv(self, s=None):
        return self.e.call(self.qn + '::groups', s or self.s, lv=True, pred=lambda f: not f.const)
    def groups(self, s=None):
        return self.e.get(self.groups_lv(s))
    def do(self, name, *args, s=None):
        return self.e.call(self.qn + '::' + name, s or self.s, self.sh, *args)
    def index(self, name='i', n=None):
        e = self.e
        lv = e.obj(name, ('int', False, 64))
        e.require(tm.lt(e.get(lv), n if n is not None else self.n))
        return e.get(lv)
    def group_index(self):
        if not hasattr(self, 'gid'): self.gid = self.index('gid')
        return self.gid
    def oracle(self, g, v):
        """the group's own predictive score (the real Group::score_value)"""
        return self.e.method(self.e.put('og', g), 'score_value', self.sh, v, self.e.rngcell)
    def observe(self, what):
        """score_value / score_value_group agree with the groups' own scores"""
        e, m = self.e, self.m
        v = m.value(e, 'x', self.sh) if m.key != 'dpd' else m.value_or_other(e, 'x', self.sh)
        gs = self.groups()
        out = e.floats('out', gs.n)
        out0 = e.get(out)
        self.do('score_value', v, e.aligned(out, gs.n), e.rngcell)
        i = tm.var('obs', 'I')
        e.require(tm.le(Z, i), tm.lt(i, gs.n))
        s = self.oracle(gs.get(i), v)
        e.ensure('%s: score_value accumulates the group\'s own score' % what, tm.eq(e.get(out).get(i), tm.add(out0.get(i), s)))
        e.ensure('%s: score_value keeps the output size' % what, tm.eq(e.get(out).n, out0.n))
        r = self.do('score_value_group', i, v, e.rngcell)
        e.ensure('%s: score_value_group is the group\'s own score' % what, tm.eq(r, s))
        g2 = self.groups()
        e.equal('%s: scoring leaves the groups unchanged' % what, gview(m, e, g2), gview(m, e, gs))
    def invariant(self, what):
        """the caches are those a fresh init would compute (inductive invariant)"""
        e = self.e
        if self.m.key == 'dpd' and not self.small: return self.dpd_invariant(what)
        c = e.copy('again', self.s)
        self.do('init', e.rngcell, s=c)
        e.equal('%s: caches are as after init' % what, e.get(self.s), e.get(c), kind='inv')
def gview(m, e, v):
    if m.key != 'dd': return v
    el = v.el
    f = dict(el.f)
    c = f['counts']
    f['counts'] = Vec(f['dim'], c.bv, c.el, c.ety)
    return Vec(v.n, v.bv, Rec(el.ty, f), v.ety)
