"""C15: the pure-Python reference models.  The lemmas are those of C01, C02 and
(samplers) C16, over the Python sources, and equality with the C++ functions."""
from common import *
import pysym, c01, c02
from pysym import PyEnv
LOG, LG, EXP = tm.LOG, tm.LGAMMA, tm.EXP
P = 'distributions.dbg.models.'
SCHEMA = PyEnv.schema
class PyModel:
    """mixin: the same model description over the Python classes"""
    skind, gkind, vkind = {}, {}, 'I'
    def __init__(self):
        self.q = 'py:' + P + self.key
        SCHEMA[self.q + '::Shared'] = self.skind
        SCHEMA[self.q + '::Group'] = self.gkind
    def env(self, name):
        return PyEnv('py ' + name)
    def fix_shared(self, e, lv): pass
    def value(self, e, name='v', sh=None):
        lv = e.obj(name, ('py', self.vkind))
        e.require(*self.value_pre(e, e.get(lv), sh))
        return lv
    def cpp_shared(self, e, sh): return sh
    def cpp_group(self, e, g): return g
class PyBB(PyModel, BB):
    skind, gkind, vkind = dict(alpha='R', beta='R'), dict(heads='I', tails='I'), 'B'
class PyBNB(PyModel, BNB):
    skind, gkind = dict(alpha='R', beta='R', r='I'), dict(count='I', sum='I')
class PyGP(PyModel, GP):
    skind, gkind = dict(alpha='R', inv_beta='R'), dict(count='I', sum='I', log_prod='R')
class PyNICH(PyModel, NICH):
    skind, gkind, vkind = dict(mu='R', kappa='R', sigmasq='R', nu='R'), dict(count='I', mean='R', count_times_variance='R'), 'R'
class PyDD(PyModel, DD):
    skind, gkind = dict(alphas=('vec', 'R')), dict(counts=('vec', 'I'))
    def fix_shared(self, e, lv):
        v = e.get(lv, 'alphas')
        f = v.el.args[0]
        e.ex.ax.fun(f, lambda *a: tm.implies(tm.and_(tm.le(Z, a[-1]), tm.lt(a[-1], v.n)), pos(tm.app(f, a, 'R'))))
    def shared_pre(self, e, s): return [tm.le(tm.iv(1), s.f['alphas'].n)]
    def group_inv(self, e, g, sh):
        c = g.f['counts']
        self.counts_nonneg(e, c, c.n)
        return [tm.eq(c.n, e.get(sh, 'alphas').n)]
    def value_pre(self, e, v, sh): return [nonneg(v), tm.lt(v, e.get(sh, 'alphas').n)]
    def cpp_shared(self, e, sh): return Rec('', dict(sh.f, dim=sh.f['alphas'].n))
    def cpp_group(self, e, g):
        c = g.f['counts']
        return Rec('', dict(g.f, count_sum=tm.sum_range(Z, c.n, lambda j: c.get(j)), dim=c.n))
class PyDPD(PyModel, DPD):
    skind = dict(gamma='R', alpha='R', beta0='R', betas=('map', 'R'), counts=('map', 'I'))
    gkind = dict(counts=('map', 'I'), total='I')
    fix_shared = DPD.fix_shared
    def shared_pre(self, e, s):
        known = [tm.le(tm.iv(1), s.f['betas'].size())] if self.known else []
        return DPD.shared_pre(self, e, s) + known
    known = False                                  # score_data requires a known value
    def group_inv(self, e, g, sh):
        m, t = g.f['counts'], g.f['total']
        k = tm.var('any', 'I')
        betas = e.get(sh, 'betas')
        x, h = m.get(k), m.has(k)
        if x.op == 'app' and h.op == 'app':
            e.ex.ax.fun(x.args[0], lambda *a: tm.implies(m.has(a[-1]), pos(tm.app(x.args[0], a, 'I'))))
            e.ex.ax.fun(h.args[0], lambda *a: tm.implies(tm.app(h.args[0], a, 'B'), betas.has(a[-1])))
        j = tm.fresh('k', 'I')
        return [tm.eq(t, tm.bsum(j, tm.ite(m.has(j), m.get(j), Z))), tm.implies(h, pos(x)), tm.implies(h, betas.has(k))]
    def holds(self, g, v, sh): return g.f['counts'].has(v)
    def cpp_group(self, e, g): return Rec('', {'counts': Rec('', {'m': g.f['counts'], 't': g.f['total']})})
class PyNIW(PyModel, NIW):
    def __init__(self, d):
        self.d, self.key = d, 'niw'
        self.skind = dict(mu=('mat', d, 1), kappa='R', psi=('mat', d, d), nu='R')
        self.gkind = dict(count='I', sum_x=('mat', d, 1), sum_xxT=('mat', d, d))
        self.vkind = ('mat', d, 1)
        self.q = 'py:' + P + 'niw'
        self.key = 'niw%d' % d
    def env(self, name):
        e = PyEnv('py ' + name); e.nosafety = True
        e.schema = dict(SCHEMA, **{self.q + '::Shared': self.skind, self.q + '::Group': self.gkind})
        return e
    fix_shared = NIW.fix_shared
    def group(self, e, name='g', sh=None): return NIW.group(self, e, name, sh)
PY = [PyBB(), PyBNB(), PyGP(), PyNICH(), PyDD(), PyDPD()]
PYN = [PyNIW(2), PyNIW(3)]
CPP = {m.key: m for m in MODELS + NIWS}

def predictive(m):
    e, sh, g, v = c02.setup(m, 'predictive')
    r = e.method(g, 'score_value', sh, v)
    e.ensure('score_value is the log posterior predictive', tm.eq(r, c02.predictive(m, e, m.cpp_shared(e, e.get(sh)), m.cpp_group(e, e.get(g)), e.get(v))))
    return e
def pure(m):
    e, sh, g, v = c02.setup(m, 'scoring')
    g0, s0 = e.copy('g0', g), e.copy('s0', sh)
    e.method(g, 'score_value', sh, v)
    e.method(g, 'score_data', sh)
    e.equal('scoring leaves the group unchanged', e.get(g), e.get(g0))
    e.equal('scoring leaves the shared parameters unchanged', e.get(sh), e.get(s0))
    return e
def agree(m):
    """the Python and the C++ group of the same statistics give the same scores"""
    c = CPP[m.key]
    e, sh, g, v = c02.setup(m, 'agreement with the C++ library')
    cs, cg = e.blank('cs', ('rec', c.q + '::Shared')), e.blank('cg', ('rec', c.q + '::Group'))
    for a, b in ((cs, sh), (cg, g)):
        x, y = e.get(a), e.get(b)
        if set(x.f) != set(y.f): raise Unsupported('statistics have other names: %s' % sorted(set(x.f) ^ set(y.f)))
        e.set(a, Rec(x.ty, dict(y.f)))
    if hasattr(c, 'd'): e.nosafety = True
    for f, a in (('score_value', (v,)), ('score_data', ())) if m.key != 'niw3' else ():    # niw3: niw_value, niw_chain
        x = e.method(g, f, sh, *a)
        y = e.method(cg, f, cs, *a, e.rngcell)
        e.ensure('%s is that of the C++ group' % f, tm.eq(x, y))
    for f, a in (('add_value', (v,)), ('remove_value', (v,)), ('merge', (None,))):
        if f == 'remove_value': e.require(m.holds(e.get(g), e.get(v), sh))
        p, q = e.copy('p', g), e.copy('q', cg)
        if f == 'merge':
            h = m.group(e, 'h', sh)
            ch = e.copy('ch', cg); e.set(ch, Rec(e.get(cg).ty, dict(e.get(h).f)))
            e.method(p, f, sh, h); e.method(q, f, cs, ch, e.rngcell)
        else:
            e.method(p, f, sh, v); e.method(q, f, cs, v, e.rngcell)
        e.equal('%s has the effect of the C++ %s' % (f, f), Rec('', e.get(p).f), Rec('', e.get(q).f))
    return e
# ---- samplers
def draw(n, k, *a): return tm.app('PY_' + n, (tm.add(tm.var('rng0', 'I'), tm.iv(k)),) + tuple(tm.toreal(x) for x in a), 'I' if n in ('poisson', 'nbinom', 'bernoulli') else 'R')
def sampler(m):
    e = m.env('sampler')
    sh = m.shared(e); g = m.group(e, 'g', sh)
    s, f = e.get(sh).f, e.get(g).f
    t = lambda n: tm.toreal(f[n])
    e.schema[m.q + '::Sampler'] = {}
    e.ex.ax.fun('PY_gamma', lambda *a: pos(tm.app('PY_gamma', a, 'R')))
    e.ex.ax.fun('PY_chi2', lambda *a: pos(tm.app('PY_chi2', a, 'R')))
    sc = e.blank('sampler', ('rec', m.q + '::Sampler'))
    e.method(sc, 'init', sh, g)
    xs = [e.method(sc, 'eval', sh) for _ in range(2)]
    for k, x in enumerate(xs):
        if m.key == 'bb':
            p = draw('beta', 0, s['alpha'] + t('heads'), s['beta'] + t('tails'))
            want = tm.eq(draw('bernoulli', 1 + k, p), tm.iv(1))
        elif m.key == 'bnb':
            p = draw('beta', 0, s['alpha'] + tm.toreal(s['r']) * t('count'), s['beta'] + t('sum'))
            want = draw('nbinom', 1 + k, s['r'], p)
        elif m.key == 'gp':
            want = draw('poisson', 1 + k, tm.div(draw('gamma', 0, s['alpha'] + t('sum')), s['inv_beta'] + t('count')))
        else:
            n = t('count')
            ka, nu = s['kappa'] + n, s['nu'] + n
            mu = tm.div(s['kappa'] * s['mu'] + n * f['mean'], ka)
            d = f['mean'] - s['mu']
            ss = s['nu'] * s['sigmasq'] + f['count_times_variance'] + tm.div(n * s['kappa'] * d * d, ka)
            var = tm.div(ss, draw('chi2', 0, nu))
            want = mu + tm.SQRT(tm.div(var, ka)) * draw('normal', 1) + tm.SQRT(var) * draw('normal', 2 + k)
        e.equal('value %d is drawn from the likelihood with posterior parameters' % k, x, want)
    return e
def discrete(e):
    """sample_discrete at its contract: an index drawn with the given weights"""
    drawn = []
    def h(ex, st, f, probs, args, fr, x):
        drawn.append(ex.load(st, probs) if isinstance(probs, LV) else probs)
        i = ex.rng_draw(st, 'PY_discrete', [], 'I')
        st.assume(tm.and_(tm.le(Z, i), tm.lt(i, drawn[-1].n)))
        return i
    e.ex.contracts['py:distributions.dbg.random.sample_discrete'] = h
    return drawn
def same_vec(e, what, a, b):
    i = tm.var('i', 'I')
    e.ensure(what + ': length', tm.eq(a.n, b.n))
    e.ensure(what, tm.implies(tm.and_(tm.le(Z, i), tm.lt(i, b.n)), tm.eq(tm.toreal(a.get(i)), tm.toreal(b.get(i)))))
def dd_sampler(group):
    m = PyDD(); e = m.env('sampler')
    sh = m.shared(e); g = m.group(e, 'g', sh)
    al, cs = e.get(sh, 'alphas'), e.get(g, 'counts')
    drawn = discrete(e)
    e.schema[m.q + '::Sampler'] = {}
    sc = e.blank('sampler', ('rec', m.q + '::Sampler'))
    e.method(sc, 'init', sh, *([g] if group else []))
    want = Vec(al.n, al.bv, al.el + tm.toreal(cs.get(al.bv)), None) if group else al
    same_vec(e, 'the probabilities are drawn from the Dirichlet posterior', e.py.drawn_dirichlet, want)
    j = tm.fresh('b', 'I')
    for k in range(2):
        x = e.method(sc, 'eval', sh)
        same_vec(e, 'value %d is drawn with those probabilities' % k, drawn[k], Vec(al.n, j, tm.app('PY_dirichlet', (tm.var('rng0', 'I'), j), 'R'), None))
        e.equal('value %d is the drawn index' % k, x, tm.app('PY_discrete', (tm.var('rng0', 'I') + tm.iv(k + 1),), 'I'))
    return e
def dpd_sampler(group, rest):
    import c13
    m = PyDPD(); e = m.env('sampler'); e.ex.prune = True
    sh = m.shared(e); g = m.group(e, 'g', sh)
    s, cs = e.get(sh).f, e.get(g, 'counts')
    b = s['betas']
    e.require(pos(s['beta0']) if rest else tm.eq(s['beta0'], tm.rv(0)))
    drawn = discrete(e)
    e.schema[m.q + '::Sampler'] = {}
    sc = e.blank('sampler', ('rec', m.q + '::Sampler'))
    e.method(sc, 'init', sh, *([g] if group else []))
    post = e.py.drawn_dirichlet
    i = tm.fresh('i', 'I')
    en = {x.args[0] for x in tm.subterms(post.get(i)) if x.op == 'app' and x.args[0].startswith('enum:')}
    if len(en) != 1: raise Unsupported('parameters of the Dirichlet distribution')
    K = en.pop()
    n, j = b.size(), tm.fresh('b', 'I')
    key = tm.app(K, (j,), 'I')
    old = tm.ite(cs.has(key), tm.toreal(cs.get(key)), tm.rv(0)) if group else tm.rv(0)
    r = tm.iv(1 if rest else 0)
    same_vec(e, 'the probabilities are drawn from the Dirichlet posterior', post, Vec(n + r, j, tm.ite(tm.lt(j, n), s['alpha'] * b.get(key) + old, s['alpha'] * s['beta0']), None))
    for k in range(2):
        x = e.method(sc, 'eval', sh)
        same_vec(e, 'value %d is drawn with those probabilities' % k, drawn[k], Vec(n + r, j, tm.app('PY_dirichlet', (tm.var('rng0', 'I'), j), 'R'), None))
        d = tm.app('PY_discrete', (tm.var('rng0', 'I') + tm.iv(k + 1),), 'I')
        e.ensure('value %d is the one the drawn index stands for' % k, tm.eq(tm.toreal(x), tm.toreal(tm.ite(tm.lt(d, n), tm.app(K, (d,), 'I'), m.OTHER))))
    return e
def niw_sampler(m, group):
    """the covariance from the inverse Wishart, the mean from the normal around the posterior
    mean with the covariance over kappa, the value from the normal with both"""
    e = m.env('sampler'); d = m.d
    sh = m.shared(e); g = m.group(e, 'g', sh)
    s, f = e.get(sh).f, e.get(g).f
    if not group: f = dict(count=Z, sum_x=Mat(d, 1, [[tm.rv(0)]] * d), sum_xxT=Mat(d, d, [[tm.rv(0)] * d] * d))
    iw = []
    def wishart(ex, st, fn, psi, args, fr, x):
        iw.append((ex.load(st, psi) if isinstance(psi, LV) else psi, tm.toreal(args[0])))
        n = len(iw)
        return Mat(d, d, [[tm.app('PY_iw', (tm.iv(n), tm.iv(min(i, j)), tm.iv(max(i, j))), 'R') for j in range(d)] for i in range(d)])
    e.ex.contracts['py:distributions.vendor.stats.sample_invwishart'] = wishart
    e.schema[m.q + '::Sampler'] = {}
    sc = e.blank('sampler', ('rec', m.q + '::Sampler'))
    e.method(sc, 'init', sh, *([g] if group else []))
    xs = [e.method(sc, 'eval', sh) for _ in range(2)]
    N = e.py.normals
    if len(iw) + len(e.py.wisharts) != 1 or len(N) != 3: raise Unsupported('other draws')
    n = tm.toreal(f['count'])
    ka, nu = s['kappa'] + n, s['nu'] + n
    mu0 = [r[0] for r in s['mu'].e]
    mu = [tm.div(s['kappa'] * a + r[0], ka) for a, r in zip(mu0, f['sum_x'].e)]
    (psi, dof), = iw + e.py.wisharts
    cov = [[tm.app('PY_iw', (tm.iv(1), tm.iv(min(i, j)), tm.iv(max(i, j))), 'R') for j in range(d)] for i in range(d)]
    e.ensure('degrees of freedom of the covariance', tm.eq(dof, nu))
    for i in range(d):
        e.ensure('mean of the mean %d' % i, tm.eq(N[0][0].e[i][0], mu[i]))
        for k in (0, 1):
            e.ensure('mean of value %d %d' % (k, i), tm.eq(N[k + 1][0].e[i][0], tm.app('PY_mvn', (tm.iv(1), tm.iv(i)), 'R')))
            e.ensure('value %d is drawn %d' % (k, i), tm.eq(xs[k].e[i][0], tm.app('PY_mvn', (tm.iv(k + 2), tm.iv(i)), 'R')))
        for j in range(i, d):
            w = s['psi'].e[i][j] + f['sum_xxT'].e[i][j] + s['kappa'] * mu0[i] * mu0[j] - ka * mu[i] * mu[j]
            e.ensure('scale of the covariance %d %d' % (i, j), tm.eq(psi.e[i][j], w))
            e.ensure('covariance of the mean %d %d' % (i, j), tm.eq(N[0][1].e[i][j], tm.div(cov[i][j], ka)))
            for k in (0, 1): e.ensure('covariance of value %d %d %d' % (k, i, j), tm.eq(N[k + 1][1].e[i][j], cov[i][j]))
    return e
# ---- the stick of the Python Dirichlet-process shared parameters
def stick(which):
    m = PyDPD(); e = m.env('stick ' + which)
    e.ex.ax.fun('PY_beta', lambda *a: tm.and_(nonneg(tm.app('PY_beta', a, 'R')), tm.le(tm.app('PY_beta', a, 'R'), tm.rv(1))))
    sh = m.shared(e)
    s0 = e.get(sh)
    b, c = s0.f['betas'], s0.f['counts']
    a = tm.var('any', 'I')
    x, h, hb = c.get(a), c.has(a), b.has(a)
    e.ex.ax.fun(x.args[0], lambda *a: tm.implies(c.has(a[-1]), pos(tm.app(x.args[0], a, 'I'))))
    e.ex.ax.fun(h.args[0], lambda *a: tm.iff(tm.app(h.args[0], a, 'B'), b.has(a[-1])))
    e.ex.ax.fun(hb.args[0], lambda *a: tm.iff(tm.app(hb.args[0], a, 'B'), c.has(a[-1])))
    def mass():
        s = e.get(sh).f
        k = tm.fresh('k', 'I'); d = s['betas']
        return tm.add(s['beta0'], tm.bsum(k, tm.ite(d.has(k), d.get(k), tm.rv(0))))
    v = e.obj('value', 'unsigned int'); w = e.get(v)
    e.require(nonneg(w), tm.lt(w, m.OTHER))
    m0 = mass()
    e.require({'register a new value': tm.not_(b.has(w)), 'register again': b.has(w), 'unregister one of several': tm.and_(b.has(w), tm.le(tm.iv(2), c.get(w))),
               'unregister the last': tm.and_(b.has(w), tm.eq(c.get(w), tm.iv(1))), 'register and unregister': tm.TRUE}[which])
    d = 0
    if which.startswith('register'): e.method(sh, 'add_value', v); d += 1
    if 'unregister' in which: e.method(sh, 'remove_value', v); d -= 1
    s = e.get(sh).f
    n, p = s['counts'], s['betas']
    k = tm.var('key', 'I')
    old = tm.ite(c.has(k), c.get(k), Z)
    new = tm.ite(n.has(k), n.get(k), Z)
    e.ensure('the mass of the stick and the weights is kept', tm.eq(mass(), m0))
    e.ensure('the stick is not negative', nonneg(s['beta0']))
    e.ensure('registration counts', tm.eq(new, tm.add(old, tm.ite(tm.eq(k, w), tm.iv(d), Z))))
    e.ensure('counted exactly when the count is positive', tm.iff(n.has(k), pos(new)))
    e.ensure('weighted exactly when counted', tm.iff(p.has(k), n.has(k)))
    e.ensure('weights are not negative', tm.implies(p.has(k), nonneg(p.get(k))))
    e.ensure('no weight of another value changes', tm.implies(tm.and_(p.has(k), tm.not_(tm.eq(k, w))), tm.eq(p.get(k), b.get(k))))
    for f in ('alpha', 'gamma'): e.equal('%s is unchanged' % f, s[f], s0.f[f])
    return e
STICK = ['register a new value', 'register again', 'unregister one of several', 'unregister the last', 'register and unregister']
# ---- what they dump they load: as a dictionary and as a message
MESSAGE = {'niw': {'Shared': dict(mu='R', psi='R'), 'Group': dict(sum_x='R', sum_xxT='R')}}
def view(e, lv, schema):
    """fixed matrices that were loaded from a repeated field"""
    r = e.get(lv)
    f = dict(r.f)
    for n, t in schema.items():
        v = f.get(n)
        if t[0] == 'mat' and isinstance(v, Vec): f[n] = Mat(t[1], t[2], [[v.get(tm.iv(i * t[2] + j)) for j in range(t[2])] for i in range(t[1])])
        elif t == 'R' and isinstance(v, T) and v.sort == 'I': f[n] = tm.toreal(v)
    return Rec(r.ty, f)
def roundtrip(m, kind, how):
    e = m.env('%s: %s and back' % (kind, how))
    q = m.q + '::' + kind
    sh = m.shared(e)
    x = sh if kind == 'Shared' else m.group(e, 'g', sh)
    schema = m.skind if kind == 'Shared' else m.gkind
    if m.key.startswith('niw'): e.require(tm.le(tm.rv(m.d), e.get(sh, 'nu')))       # as load asserts (DESIGN.md, finding 19)
    if m.key == 'dpd':                                 # the stick holds what the weights leave
        s = e.get(sh); b, c = s.f['betas'], s.f['counts']
        k = tm.fresh('k', 'I')
        e.require(tm.eq(s.f['beta0'] + tm.bsum(k, tm.ite(b.has(k), b.get(k), tm.rv(0))), tm.rv(1)))
        a = tm.var('any', 'I')
        w = b.get(a)
        e.ex.ax.fun(w.args[0], lambda *a: tm.implies(b.has(a[-1]), tm.and_(pos(tm.app(w.args[0], a, 'R')), tm.le(tm.app(w.args[0], a, 'R'), tm.rv(1)))))
    x0 = e.copy('x0', x)
    y = e.obj('y', ('rec', q))
    if how == 'dictionary':
        raw = e.method(x, 'dump')
        e.method(y, 'load', e.put('raw', raw))
    else:
        f = {n: e.make('msg.' + n, ('vec', 'R' if t[0] == 'mat' else t[1]) if isinstance(t, tuple) else t) for n, t in schema.items()}
        msg = e.put('msg', Rec('pymsg', f))
        e.method(x, 'protobuf_dump', msg)
        e.method(y, 'protobuf_load', msg)
    e.equal('dumping leaves the object unchanged', e.get(x), e.get(x0))
    e.equal('what was dumped is loaded', view(e, y, schema), view(e, x0, schema))
    return e
def dpd_message(kind, sums=False):
    """the containers of the Dirichlet process are dumped in the order of their enumeration"""
    import c13
    m = PyDPD(); e = m.env('%s: message and back' % kind)
    e.ex.prune = True
    q = m.q + '::' + kind
    sh = m.shared(e)
    x = sh if kind == 'Shared' else m.group(e, 'g', sh)
    x0 = e.copy('x0', x)
    schema = m.skind if kind == 'Shared' else m.gkind
    y = e.obj('y', ('rec', q))
    v = e.get(x)
    b = v.f['betas' if kind == 'Shared' else 'counts']
    c = v.f['counts']
    if kind == 'Shared':                               # registered exactly where weighted, with positive counts
        k = tm.var('any', 'I')
        p, h, hb = c.get(k), c.has(k), b.has(k)
        w = b.get(k)
        e.ex.ax.fun(p.args[0], lambda *a: tm.implies(c.has(a[-1]), pos(tm.app(p.args[0], a, 'I'))))
        e.ex.ax.fun(h.args[0], lambda *a: tm.iff(tm.app(h.args[0], a, 'B'), b.has(a[-1])))
        e.ex.ax.fun(hb.args[0], lambda *a: tm.iff(tm.app(hb.args[0], a, 'B'), c.has(a[-1])))
        e.ex.ax.fun(w.args[0], lambda *a: tm.implies(b.has(a[-1]), tm.and_(pos(tm.app(w.args[0], a, 'R')), tm.le(tm.app(w.args[0], a, 'R'), tm.rv(1)))))
        names = {'gamma': 'R', 'alpha': 'R', 'values': ('vec', 'I'), 'betas': ('vec', 'R'), 'counts': ('vec', 'I')}
    else: names = {'keys': ('vec', 'I'), 'values': ('vec', 'I')}
    msg = e.put('msg', Rec('pymsg', {n: e.make('msg.' + n, t) for n, t in names.items()}))
    e.method(x, 'protobuf_dump', msg)
    keys = e.get(msg, 'values' if kind == 'Shared' else 'keys')
    at, pos_ = c13.enumeration(e, keys, b)
    n = keys.n
    j = tm.fresh('k', 'I')
    total = lambda m, zero: tm.bsum(j, tm.ite(m.has(j), m.get(j), zero))
    if kind == 'Shared':
        e.require(tm.eq(v.f['beta0'] + total(b, tm.rv(0)), tm.rv(1)))
    else: e.require(tm.eq(total(c, Z), tm.sum_range(Z, n, lambda i: c.get(at(i)))))
    def hint(ex, L):
        s = L.st.copy()
        r = ex.load(s, y)
        f = dict(r.f, counts=c13.sub_map(c, pos_, L.kap))
        if 'total' in r.f: f['total'] = tm.sum_range(Z, L.kap, lambda i: c.get(at(i)))
        ex.store(s, y, Rec(r.ty, f))
        return s
    e.ex.loop_hint['protobuf_load'] = hint
    e.method(y, 'protobuf_load', msg)
    f, f0 = e.get(y).f, e.get(x0).f
    if sums:         # the loaded weights are the dumped ones at every key (the other lemma), so their sums are equal
        e.nosafety = True
        e.require(tm.eq(total(f['betas'], tm.rv(0)), total(b, tm.rv(0))))
        e.equal('what was dumped is loaded: beta0', f['beta0'], f0['beta0'])
        return e
    for s_ in schema:
        if s_ == 'beta0': continue
        if schema[s_] in ('R', 'I'): e.equal('what was dumped is loaded: %s' % s_, f[s_], f0[s_])
        else: c13.same_map(e, 'what was dumped is loaded: %s' % s_, f[s_], f0[s_])
    e.equal('dumping leaves the object unchanged', e.get(x), e.get(x0))
    return e
# ---- the clustering model
def lowentropy(which):
    e = PyEnv('py LowEntropy ' + which)
    q = 'py:distributions.dbg.clustering::LowEntropy'
    e.schema[q] = {'dataset_size': 'I'}
    C = D + 'Clustering<int>::LowEntropy'
    py, cc = e.obj('py', ('rec', q)), e.obj('cc', ('rec', C))
    e.set(cc, Rec(C, {'dataset_size': e.get(py, 'dataset_size')}))
    N = e.get(py, 'dataset_size')
    v = {n: e.obj(n, ('int', True, 32)) for n in ('size', 'nonempty', 'sample', 'empty')}
    a = [e.get(x) for x in v.values()]
    e.require(tm.le(tm.iv(1), N), tm.lt(N, tm.iv(2**31)), nonneg(a[0]), nonneg(a[1]), nonneg(a[2]), tm.le(a[0], a[2]), tm.le(tm.iv(1), a[3]))
    if which == 'score_add_value': e.require(tm.lt(a[2], N), tm.le(a[1], a[2]))
    else: e.require(tm.le(tm.iv(1), a[0]), tm.le(tm.iv(1), a[1]), tm.le(a[2], N), tm.le(tm.add(a[0], a[1]), tm.add(a[2], tm.iv(1))))
    x = e.method(py, which, *v.values())
    y = e.call(C + '::' + which, cc, *v.values())
    e.ensure('%s is that of the C++ library' % which, tm.eq(x, y))
    return e
def lpf_contracts(e, C):
    h = lambda ex, st, f, this, args, fr, x: tm.app('LPF', (ex.load(st, args[0]) if isinstance(args[0], LV) else args[0],), 'R')
    e.ex.contracts[C + '::log_partition_function'] = h
    e.ex.contracts['py:distributions.dbg.clustering::LowEntropy::log_partition_function'] = h
def lowentropy_counts():
    e = PyEnv('py LowEntropy score_counts')
    q, C = 'py:distributions.dbg.clustering::LowEntropy', D + 'Clustering<int>::LowEntropy'
    e.schema[q] = {'dataset_size': 'I'}
    lpf_contracts(e, C)
    py, cc = e.obj('py', ('rec', q)), e.obj('cc', ('rec', C))
    N = e.get(py, 'dataset_size')
    e.set(cc, Rec(C, {'dataset_size': N}))
    cs = e.obj('counts', ('vec', ('int', True, 32)))
    v = e.get(cs)
    e.ex.ax.fun(v.el.args[0], lambda *a: nonneg(tm.app(v.el.args[0], a, 'I')))
    tot = tm.sum_range(Z, v.n, lambda j: v.get(j))
    e.require(tm.le(tm.iv(1), N), tm.lt(N, tm.iv(2**31)), tm.le(tot, N))
    for n in (tot, N): e.require(tm.or_(tm.eq(n, Z), nonneg(LOG(n))))    # the logarithm of n >= 1
    x = e.method(py, 'score_counts', cs)
    y = e.call(C + '::score_counts', cc, cs)
    e.ensure('score_counts is that of the C++ library', tm.eq(x, y))
    return e
def floats(t):
    """t with its literals rounded to single precision"""
    import struct
    f = lambda x: tm.Fraction(repr(struct.unpack('f', struct.pack('f', float(x)))[0]))
    def go(t):
        if t.op == 'num': return t if t.args.denominator == 1 else tm.num(f(t.args), t.sort)
        if t.op in ('var', 'true', 'false'): return t
        if t.op in ('sum', 'max'): raise Unsupported('binder')
        if t.op == '+': return tm.add(go(tm.num(t.args[1], t.sort)), *[tm.scale(go(k), c if tm.Fraction(c).denominator == 1 else f(c)) for c, k in t.args[0]])
        return tm.rebuild(t, go)
    return go(t)
def lowentropy_partition(n):
    e = PyEnv('py LowEntropy partition function')
    q, C = 'py:distributions.dbg.clustering::LowEntropy', D + 'Clustering<int>::LowEntropy'
    e.schema[q] = {'dataset_size': 'I'}
    py, cc = e.obj('py', ('rec', q)), e.obj('cc', ('rec', C))
    k = tm.iv(n) if n is not None else tm.var('n', 'I')
    if n is None: e.require(tm.le(tm.iv(48), k), tm.lt(k, tm.iv(2**31)))
    x = e.method(py, 'log_partition_function', e.put('n', k))
    y = e.call(C + '::log_partition_function', cc, k)
    if n is None: e.ensure('the partition function is that of the C++ library', tm.eq(floats(x), floats(y)))
    else:
        eps = tm.rv(tm.Fraction(1, 10**5))
        e.ensure('the partition function of %d is that of the C++ library' % n, tm.and_(tm.le(x - y, eps), tm.le(y - x, eps)))
    return e
def dd_normalised(m):
    e, sh, g, v = c02.setup(m, 'normalisation')
    p = EXP(e.method(g, 'score_value', sh, v))
    x = e.get(v)
    e.ensure('predictive probabilities sum to one', tm.eq(tm.sum_range(Z, e.get(sh, 'alphas').n, lambda j: tm.subst(p, {x: j})), tm.rv(1)))
    return e
def dpd_merge(m, f):
    """with the invariant of the merge loop: the counts of the keys visited so far are added"""
    def run():
        e0 = m.env
        def env(name):
            e = e0(name)
            def hint(ex, L):
                if L.keyed is None or not L.keyed.path or L.keyed.path[-1] != ('f', 'counts'): return None
                src = ex.load(L.st, L.keyed)
                lv = L.fr.py_self
                r = ex.load(L.st, lv)
                c, V = r.f['counts'], L.V(L.kap)
                j, y = tm.fresh('k', 'I'), tm.fresh('y', 'I')
                n = tm.add(tm.ite(c.has(j), c.get(j), Z), tm.ite(V(j), src.get(j), Z))
                s = L.st.copy()
                ex.store(s, lv, Rec(r.ty, dict(r.f, counts=Map(j, tm.not_(tm.eq(n, Z)), n, None, None), total=tm.add(r.f['total'], tm.bsum(y, tm.ite(V(y), src.get(y), Z))))))
                return s
            e.ex.loop_hint['merge'] = hint
            return e
        m2 = PyDPD(); m2.env = env
        return f(m2)
    return run
def jobs():
    for m in PY + PYN:
        for f in c01.LEMMAS: yield '%s %s' % (m.key, f.__name__), (dpd_merge(m, f) if m.key == 'dpd' and 'merge' in f.__name__ else lambda f=f, m=m: f(m))
        if m.key == 'dpd':
            k = PyDPD(); k.known = True
            yield 'dpd empty', lambda k=k: c02.empty(k)
        if m in PYN: L = [c02.niw_update, c02.niw_chain, c02.niw_value, c02.niw_posterior, c02.empty, agree]
        else:
            L = [predictive, c02.chain, pure] + ([c02.empty] if m.key != 'dpd' else [])
            if m.key in ('bnb', 'gp', 'nich'): L.append(c02.posterior)
            if m.key in ('bb', 'dpd'): L.append(c02.normalised)
            if m.key == 'dd': L.append(dd_normalised)
            if m.key in ('bb', 'bnb', 'gp', 'nich'): L += [agree, sampler]
        for k in ('Shared', 'Group'):
            for h in ('dictionary', 'message') if m.key != 'dpd' else ('dictionary',):
                yield '%s %s %s' % (m.key, k, h), (lambda m=m, k=k, h=h: roundtrip(m, k, h))
        for f in L: yield '%s %s' % (m.key, f.__name__), (lambda f=f, m=m: f(m))
    for k in ('Shared', 'Group'): yield 'dpd %s message' % k, (lambda k=k: [dpd_message(k)] + ([dpd_message(k, True)] if k == 'Shared' else []))
    for m in PYN:
        for g in (0, 1): yield '%s sampler %d' % (m.key, g), (lambda m=m, g=g: niw_sampler(m, g))
    for g in (0, 1): yield 'dd sampler %d' % g, (lambda g=g: dd_sampler(g))
    for g in (0, 1):
        for r in (0, 1): yield 'dpd sampler %d %d' % (g, r), (lambda g=g, r=r: dpd_sampler(g, r))
    for w in STICK: yield 'dpd ' + w, (lambda w=w: stick(w))
    for w in ('score_add_value', 'score_remove_value'): yield 'LowEntropy ' + w, (lambda w=w: lowentropy(w))
    yield 'LowEntropy score_counts', lowentropy_counts
    yield 'LowEntropy partition function', lambda: [lowentropy_partition(n) for n in list(range(48)) + [None]]
for m in PY: m.has_plus = m.key in ('bnb', 'gp', 'nich')

BOUNDED = ['sample_discrete, sample_student_t and the inverse Wishart of the Python library, DPD realize, LowEntropy.sample_assignments: dyn/c15.py']
ASSUMPTIONS = ['Python: int and float are mathematical integers and reals, / is true division (as in the library the build installs), numpy arrays and dicts at the contracts in vcg/pysym.py, scipy.special.gammaln is log gamma',
               'Python samplers: variates of numpy.random and scipy.stats are arbitrary values of their support; their parameters are what is decided; sample_discrete and sample_invwishart at their contracts (an index of the given weights, a matrix of the given degrees of freedom and scale), which dyn/c15.py samples']
