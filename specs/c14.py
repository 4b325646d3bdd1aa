"""C14: the stick of the Dirichlet-process discrete model.  The shared state is
arbitrary: a remaining stick, a positive weight for each registered value, and a
positive registration count for exactly the same values."""
from common import *
import c09
I, R = tm.iv, tm.rv
M = BYKEY['dpd']
OTHER = M.OTHER
MIN = R(tm.Fraction(1, 10**6))
BETA_SAFE = D + 'sample_beta_safe'
def beta_contract(ex, st, f, this, a, fr, x):
    """sample_beta_safe: a value between min/(1+min) and one (body: `draw`)"""
    import contracts
    al, be, m = [contracts.val(ex, st, v) for v in a[1:]]
    ex.obl('sample_beta_safe: parameters positive', st, tm.and_(pos(al), pos(be), nonneg(m)))
    r = ex.rng_draw(st, 'RNG_beta_safe', ())
    st.assume(tm.and_(tm.le(m, tm.mul(r, tm.add(R(1), m))), tm.le(r, R(1))))
    return r
def draw():
    e = Env('sample_beta_safe')
    a, b, m = [e.get(e.obj(n, 'float')) for n in ('alpha', 'beta', 'min_value')]
    e.require(pos(a), pos(b), nonneg(m))
    r = e.call(BETA_SAFE, None, e.rngcell, a, b, m)
    e.ensure('the draw is at most one', tm.le(r, R(1)))
    e.ensure('the draw is at least the minimum', tm.le(m, tm.mul(r, tm.add(R(1), m))))
    return e
class Stick:
    def __init__(self, name):
        e = self.e = Env(name)
        e.ex.contracts[BETA_SAFE] = beta_contract
        self.sh = sh = M.shared(e)
        self.s0 = e.get(sh)
        c, _ = sc_parts(self.s0.f['counts'])
        b = map_of(self.s0.f['betas'])
        any_ = tm.var('any', 'I')
        x, h, hb = c.get(any_), c.has(any_), b.has(any_)
        e.ex.ax.fun(x.args[0], lambda *a: tm.implies(c.has(a[-1]), pos(tm.app(x.args[0], a, 'I'))))
        e.ex.ax.fun(h.args[0], lambda *a: tm.and_(tm.iff(tm.app(h.args[0], a, 'B'), b.has(a[-1]))))
        e.ex.ax.fun(hb.args[0], lambda *a: tm.iff(tm.app(hb.args[0], a, 'B'), c.has(a[-1])))
        self.mass0 = self.mass()
    def betas(self, s=None): return map_of((s or self.e.get(self.sh)).f['betas'])
    def stick(self): return self.e.get(self.sh).f['beta0']
    def mass(self):
        b = self.betas()
        k = tm.fresh('k', 'I')
        return tm.add(self.stick(), tm.bsum(k, tm.ite(b.has(k), b.get(k), R(0))))
    def count(self, k, s=None): return sc_count((s or self.e.get(self.sh)).f['counts'], k)
    def value(self):
        e = self.e
        v = e.get(e.obj('value', ('int', False, 32)))
        e.require(tm.not_(tm.eq(v, OTHER)))
        return v
    def call(self, name, *a): self.e.call(M.q + '::Shared::' + name, self.sh, *a, self.e.rngcell)
    def weights(self, has, val):
        """the weights are has/val, and registered exactly where counts are positive"""
        e = self.e
        k = c09.key(e, 'k')
        b = self.betas()
        e.ensure('a value has a weight exactly when it is registered', tm.iff(b.has(k), tm.lt(Z, self.count(k))))
        e.ensure('the weighted values are as expected', tm.iff(b.has(k), has(k)))
        e.ensure('no other weight changes', tm.implies(b.has(k), tm.eq(b.get(k), val(k))))
        e.ensure('weights are positive', tm.implies(b.has(k), pos(b.get(k))))
        e.ensure('counts are not negative', tm.le(Z, self.count(k)))
    def rest(self):
        e = self.e
        s = e.get(self.sh)
        e.equal('gamma is unchanged', s.f['gamma'], self.s0.f['gamma'])
        e.equal('alpha is unchanged', s.f['alpha'], self.s0.f['alpha'])
    def counts_are(self, f):
        e = self.e
        k = c09.key(e, 'kc')
        e.ensure('registration counts', tm.eq(self.count(k), f(k)))
        m, t = sc_parts(e.get(self.sh).f['counts'])
def register_new():
    p = Stick('register a new value'); e = p.e
    v = p.value()
    b = p.betas()
    b0 = p.stick()
    e.require(tm.not_(b.has(v)), pos(b0))
    p.call('add_value', v)
    w = p.betas().get(v)
    p.weights(lambda k: tm.or_(b.has(k), tm.eq(k, v)), lambda k: tm.ite(tm.eq(k, v), w, b.get(k)))
    e.ensure('the weight is broken off the stick', tm.le(w, b0))
    e.ensure('the stick keeps what is left, or the minimum', tm.eq(p.stick(), tm.ite(tm.le(MIN, tm.sub(b0, w)), tm.sub(b0, w), MIN)))
    e.ensure('the mass never shrinks', tm.le(p.mass0, p.mass()))
    e.ensure('the mass grows at most to the minimum stick', tm.le(p.mass(), tm.add(p.mass0, MIN)))
    e.ensure('the mass is kept when the stick stays above its minimum', tm.eq(p.mass(), p.mass0), [tm.le(MIN, tm.sub(b0, w))])
    s = p.s0
    p.counts_are(lambda k: tm.ite(tm.eq(k, v), I(1), p.count(k, s)))
    p.rest()
    return e
def register_known():
    p = Stick('register a known value'); e = p.e
    v = p.value()
    b = p.betas()
    e.require(b.has(v))
    p.call('add_value', v)
    e.equal('the stick is unchanged', p.stick(), p.s0.f['beta0'])
    p.weights(b.has, b.get)
    s = p.s0
    p.counts_are(lambda k: tm.add(p.count(k, s), tm.ite(tm.eq(k, v), I(1), Z)))
    p.rest()
    return e
def unregister(last):
    def f():
        p = Stick('unregister a value' + (', last registration' if last else '')); e = p.e
        v = p.value()
        b = p.betas()
        b0, w = p.stick(), b.get(v)
        e.require(b.has(v), tm.eq(p.count(v), I(1)) if last else tm.lt(I(1), p.count(v)))
        p.call('remove_value', v)
        s = p.s0
        if last:
            p.weights(lambda k: tm.and_(b.has(k), tm.not_(tm.eq(k, v))), b.get)
            e.ensure('the stick regains the weight, up to one', tm.or_(tm.eq(p.stick(), tm.add(b0, w)), tm.and_(tm.eq(p.stick(), R(1)), tm.lt(R(1), tm.add(b0, w)))))
            e.ensure('the mass is kept', tm.eq(p.mass(), p.mass0), [tm.le(tm.add(b0, w), R(1))])
            e.ensure('the mass never grows', tm.le(p.mass(), p.mass0))
            e.ensure('mass of at least one stays at least one', tm.le(R(1), p.mass()), [tm.le(R(1), p.mass0)])
        else:
            e.equal('the stick is unchanged', p.stick(), b0)
            p.weights(b.has, b.get)
        p.counts_are(lambda k: tm.sub(p.count(k, s), tm.ite(tm.eq(k, v), I(1), Z)))
        p.rest()
        return e
    f.__name__ = 'unregister_last' if last else 'unregister'
    return f
def refused(what, name, *pre):
    def f():
        p = Stick(what); e = p.e
        v = p.value()
        e.require(*pre[0](p, v))
        c09.rejected(e, what, M.q + '::Shared::' + name, p.sh, v, e.rngcell)
        return e
    f.__name__ = what
    return f
def other(name):
    def f():
        p = Stick(name + ' OTHER'); e = p.e
        c09.rejected(e, 'OTHER is not a value', M.q + '::Shared::' + name, p.sh, OTHER, e.rngcell)
        return e
    f.__name__ = name + ' OTHER'
    return f
# ---- realising the prior
def g_stick(k): return tm.app('stick', (k,), 'R')      # ghost: the stick after k registrations
def g_weight(k): return tm.app('weight', (k,), 'R')    # ghost: the weight broken off next
class Broken:
    """ghost functions of a run of new registrations: the stick after k of them,
    the k-th weight, the k-th draw"""
    def __init__(self, e, b0):
        self.b0 = b0
        def f(k):
            S, W = g_stick(k), g_weight(k)
            left = tm.sub(S, W)
            p = tm.sub(k, I(1))
            left1 = tm.sub(g_stick(p), g_weight(p))
            return tm.and_(pos(S), tm.implies(tm.le(k, Z), tm.eq(S, b0)),
                           tm.implies(tm.lt(Z, k), tm.eq(S, tm.ite(tm.le(MIN, left1), left1, MIN))))
        def w(k):
            W, r = g_weight(k), tm.app('RNG_beta_safe', (tm.add(tm.var('rng0', 'I'), k),), 'R')
            return tm.and_(pos(W), tm.le(W, g_stick(k)), tm.eq(W, tm.mul(g_stick(k), r)))
        e.ex.ax.fun('stick', f)
        e.ex.ax.fun('weight', w)
        e.ex.ax.defs.update(stick=self.unfold)
    def unfold(self, n):
        if tm.lin(n)[1] < 1: return g_stick(n)
        p = tm.sub(n, I(1))
        left = tm.sub(self.unfold(p), g_weight(p))
        return tm.ite(tm.lt(Z, n), tm.ite(tm.le(MIN, left), left, MIN), self.b0)
    def total(self, n):
        return tm.add(g_stick(n), tm.sum_range(Z, n, g_weight))
def run_of_draws():
    """by induction: n registrations keep the mass, up to the minimum stick each"""
    e = Env('a run of registrations')
    b0 = e.get(e.obj('b0', 'float'))
    e.require(pos(b0))
    p = Broken(e, b0)
    n = tm.var('n', 'I')
    e.require(tm.le(Z, n))
    def facts(n): return [('the mass never shrinks', tm.le(b0, p.total(n))),
                          ('the mass grows at most by the minimum each', tm.le(p.total(n), tm.add(b0, tm.mul(MIN, tm.toreal(n)))))]
    for w, f in facts(Z): e.ensure('no draw: ' + w, f)
    e.require(*[f for w, f in facts(n)])
    for w, f in facts(tm.add(n, I(1))): e.ensure('one more draw: ' + w, f)
    return e
def realize(some):
    p = Stick('realize' + ('' if some else ', nothing to break')); e = p.e
    b = p.betas()
    b0 = p.stick()
    if some:
        g = Broken(e, b0)
        e.require(pos(b0))
    else:
        e.ex.ax.fun('stick', lambda k: tm.eq(g_stick(k), R(0)))
        e.require(tm.eq(b0, R(0)))
    k = tm.fresh('k', 'I')
    top = tm.bmax(k, tm.TRUE, tm.ite(b.has(k), tm.add(k, I(1)), Z))
    e.ensure('keys are not negative', tm.le(Z, top))
    e.require(tm.le(Z, top))
    e.require(tm.lt(top, I(2**32 - 20000)))
    s0 = p.s0
    def hint(ex, L):
        if L.keyed is not None:
            # one more than the largest key visited
            vis, y = L.V(L.kap), tm.fresh('y', 'I')
            return ints(L.st, tm.bmax(y, tm.TRUE, tm.ite(vis(y), tm.add(y, I(1)), Z)))
        n = L.kap
        new = lambda y: tm.and_(tm.le(top, y), tm.lt(y, tm.add(top, n)))
        y = tm.fresh('y', 'I')
        s = L.st.copy()
        sh = ex.load(s, p.sh)
        f = dict(sh.f)
        f['beta0'] = g_stick(n)
        f['betas'] = remap(f['betas'], y, tm.or_(b.has(y), new(y)), tm.ite(new(y), g_weight(tm.sub(y, top)), b.get(y)), tm.add(b.size(), n))
        c, t = sc_parts(s0.f['counts'])
        f['counts'] = remap(f['counts'], y, tm.or_(c.has(y), new(y)), tm.ite(new(y), I(1), c.get(y)), tm.add(c.size(), n), tm.add(t, n))
        ex.store(s, p.sh, Rec(sh.ty, f))
        s.cells['rng'] = tm.add(L.st.cells['rng'], n)
        # the next value to register, whatever it is called: the loop's other integer
        L.late_state = ints(s, tm.add(top, n))
        return s
    e.ex.loop_hint['realize'] = hint
    p.call('realize')
    e.ensure('no stick remains', tm.eq(p.stick(), R(0)))
    k = c09.key(e, 'k')
    a = p.betas()
    e.ensure('a value has a weight exactly when it is registered', tm.iff(a.has(k), tm.lt(Z, p.count(k))))
    e.ensure('values keep their weights', tm.implies(b.has(k), tm.and_(a.has(k), tm.eq(a.get(k), b.get(k)))))
    e.ensure('weights are positive', tm.implies(a.has(k), pos(a.get(k))))
    e.ensure('registration counts are kept', tm.implies(b.has(k), tm.eq(p.count(k), p.count(k, s0))))
    if some:
        # the number of registrations made: one for each iteration and the last
        n = {x for v in e.st.cells.values() for _, _, t in leaves(v) for x in tm.subterms(t) if x.op == 'var' and str(x.args).startswith('trips:')}
        if len(n) != 1: raise Unsupported('loops of realize %s' % n)
        last = n.pop()
        n = tm.add(last, I(1))
        # the last weight, as drawn (w of Broken)
        drawn = tm.mul(g_stick(last), tm.app('RNG_beta_safe', (tm.add(tm.var('rng0', 'I'), last),), 'R'))
        left = tm.sub(g_stick(last), drawn)
        total = tm.add(tm.ite(tm.le(MIN, left), left, MIN), tm.sum_range(Z, last, g_weight), drawn)
        e.ensure('at least one value is registered', tm.le(I(1), n))
        e.ensure('as many values are added', tm.eq(a.size(), tm.add(b.size(), n)))
        e.ensure('the mass is that of the weights broken off', tm.eq(p.mass(), tm.add(tm.sub(p.mass0, b0), total)))
    else:
        e.ensure('nothing new is registered', tm.iff(a.has(k), b.has(k)))
        e.ensure('the mass is kept', tm.eq(p.mass(), p.mass0))
    p.rest()
    return e
def ints(st, t):
    s = st.copy()
    for c, v in list(s.cells.items()):
        if isinstance(v, T) and v.sort == 'I' and c != 'rng': s.cells[c] = t
    return s
def remap(v, j, has, val, cnt, tot=None):
    m = map_of(v)
    new = Map(j, has, val, m.kty, m.vty)
    new.cnt = cnt
    if isinstance(v, Map): return new
    return Rec(v.ty, {k: new if isinstance(x, Map) else tot if tot is not None and isinstance(x, T) else x for k, x in v.f.items()})
LEMMAS = [draw, register_new, register_known, unregister(False), unregister(True),
          refused('no stick is left to break', 'add_value', lambda p, v: [tm.not_(p.betas().has(v)), tm.eq(p.stick(), R(0))]),
          other('add_value'), other('remove_value'),
          run_of_draws]
def jobs():
    for f in LEMMAS: yield f.__name__, f
    yield 'realize', lambda: realize(True)
    yield 'realize, no stick', lambda: realize(False)
