"""C02: scores are those of the conjugate model."""
from common import *
import contracts, stdlib
LOG, LG, EXP = tm.LOG, tm.LGAMMA, tm.EXP
F = tm.Fraction
def half(x): return tm.scale(x, F(1, 2))

# ---- defining formulas of the posterior predictive
def predictive(m, e, sh, g, v):
    s = lambda n: tm.toreal(sh.f[n])
    if m.key == 'bb':
        h, t = tm.toreal(g.f['heads']), tm.toreal(g.f['tails'])
        return tm.sub(LOG(tm.ite(v, s('alpha') + h, s('beta') + t)), LOG(s('alpha') + s('beta') + h + t))
    if m.key == 'bnb':
        # the negative binomial likelihood without its data-dependent coefficient
        n, x, r = tm.toreal(g.f['count']), tm.toreal(g.f['sum']), s('r')
        a, b = s('alpha') + r * n, s('beta') + x
        v = tm.toreal(v)
        return LG(a + b) - LG(a) - LG(b) + LG(a + r) + LG(b + v) - LG(a + b + r + v)
    if m.key == 'gp':
        a, b = s('alpha') + tm.toreal(g.f['sum']), s('inv_beta') + tm.toreal(g.f['count'])
        v = tm.toreal(v)
        return LG(a + v) - LG(a) - LG(v + tm.rv(1)) + a * (LOG(b) - LOG(b + tm.rv(1))) - v * LOG(b + tm.rv(1))
    if m.key == 'nich':
        n = tm.toreal(g.f['count'])
        k, nu = s('kappa') + n, s('nu') + n
        mu = tm.div(s('kappa') * s('mu') + n * g.f['mean'], k)
        d = g.f['mean'] - s('mu')
        ss = s('nu') * s('sigmasq') + g.f['count_times_variance'] + tm.div(n * s('kappa') * d * d, k)
        # student t with nu degrees of freedom, scale^2 = ss/nu (1 + 1/k); z = precision / nu
        z = tm.div(k, (k + tm.rv(1)) * ss)
        return contracts.lgamma_nu(nu) + half(LOG(tm.div(z, tm.PI))) - half(nu + tm.rv(1)) * LOG(tm.rv(1) + z * (v - mu) * (v - mu))
    if m.key == 'dd':
        a = sh.f['alphas']
        tot = tm.sum_range(Z, sh.f['dim'], lambda j: a.get(j)) + tm.toreal(g.f['count_sum'])
        return LOG(a.get(v) + tm.toreal(g.f['counts'].get(v))) - LOG(tot)
    if m.key == 'dpd':
        c = g.f['counts']
        b = map_of(sh.f['betas'])
        p = tm.ite(tm.eq(v, m.OTHER), sh.f['beta0'], b.get(v))
        return LOG(sh.f['alpha'] * p + tm.toreal(sc_count(c, v))) - LOG(sh.f['alpha'] + tm.toreal(sc_parts(c)[1]))
def setup(m, name):
    e = m.env(name)
    sh = m.shared(e); g = m.group(e, 'g', sh); v = m.value(e, 'v', sh)
    return e, sh, g, v
def value_formula(m):
    e, sh, g, v = setup(m, 'predictive')
    r = e.method(g, 'score_value', sh, v, e.rngcell)
    e.ensure('score_value is the log posterior predictive', tm.eq(r, predictive(m, e, e.get(sh), e.get(g), e.get(v))))
    return e
def empty(m):
    e = m.env('score of an empty group')
    sh = m.shared(e); g = m.garbage(e, 'g')
    e.method(g, 'init', sh, e.rngcell)
    r = e.method(g, 'score_data', sh, e.rngcell)
    e.ensure('score_data(empty) == 0', tm.eq(r, tm.rv(0)))
    return e
def chain(m):
    e, sh, g, v = setup(m, 'chain rule')
    a = e.method(g, 'score_data', sh, e.rngcell)
    s = e.method(g, 'score_value', sh, v, e.rngcell)
    h = e.copy('h', g)
    e.method(h, 'add_value', sh, v, e.rngcell)
    b = e.method(h, 'score_data', sh, e.rngcell)
    e.ensure('score_data(add(g,v)) - score_data(g) == score_value(g,v)', tm.eq(tm.sub(b, a), s))
    return e
def dpd_other():
    m = BYKEY['dpd']
    e = m.env('predictive of an unknown value')
    sh = m.shared(e); g = m.group(e, 'g', sh)
    e.require(pos(e.get(sh, 'beta0')))
    v = e.put('v', m.OTHER)
    r = e.method(g, 'score_value', sh, v, e.rngcell)
    e.ensure('score_value is the log posterior predictive', tm.eq(r, predictive(m, e, e.get(sh), e.get(g), m.OTHER)))
    sc = e.blank('scorer', ('rec', m.q + '::Scorer'))
    e.method(sc, 'init', sh, g, e.rngcell)
    e.ensure('Scorer.eval == Group.score_value', tm.eq(e.method(sc, 'eval', sh, v, e.rngcell), r))
    return e
def scorer(m, stick=True):
    e, sh, g, v = setup(m, 'scorer')
    if m.key == 'dpd':
        # with no remaining stick the entry of OTHER is log 0 and is never asked for
        e.require(pos(e.get(sh, 'beta0')) if stick else tm.eq(e.get(sh, 'beta0'), tm.rv(0)))
        e.nosafety = not stick
    g0, s0 = e.copy('g0', g), e.copy('s0', sh)
    s = e.method(g, 'score_value', sh, v, e.rngcell)
    e.method(g, 'score_data', sh, e.rngcell)
    same_group(m, e, 'scoring leaves the group unchanged', g, g0, sh)
    e.equal('scoring leaves the shared parameters unchanged', shview(m, e, sh), shview(m, e, s0))
    sc = e.blank('scorer', ('rec', m.q + '::Scorer'))
    e.method(sc, 'init', sh, g, e.rngcell)
    r = e.method(sc, 'eval', sh, v, e.rngcell)
    e.ensure('Scorer.eval == Group.score_value', tm.eq(r, s))
    return e
def shview(m, e, sh):
    s = e.get(sh)
    if m.key == 'dd':
        f = dict(s.f); c = f['alphas']
        f['alphas'] = Vec(f['dim'], c.bv, c.el, c.ety)
        return Rec(s.ty, f)
    return s
def posterior(m):
    """plus_group is the conjugate posterior: it predicts like the group, for any further group"""
    e, sh, g, v = setup(m, 'posterior')
    if not m.has_plus: return None
    post = e.method(sh, 'plus_group', g)
    p = e.put('post', post)
    z = m.garbage(e, 'z')
    e.method(z, 'init', p, e.rngcell)
    h = m.group(e, 'h', sh)
    a = e.method(z, 'score_value', p, v, e.rngcell)
    b = e.method(g, 'score_value', sh, v, e.rngcell)
    e.ensure('an empty group under plus_group(g) predicts as g', tm.eq(a, b))
    for i, c in enumerate(m.shared_pre(e, post)):
        e.ensure('plus_group gives valid parameters #%d' % i, c)
    return e
def normalised(m):
    e = m.env('normalisation')
    sh = m.shared(e); g = m.group(e, 'g', sh)
    if m.key == 'bb':
        ps = [EXP(e.method(g, 'score_value', sh, e.put('b', x), e.rngcell)) for x in (tm.TRUE, tm.FALSE)]
        e.ensure('predictive probabilities sum to one', tm.eq(tm.add(*ps), tm.rv(1)))
    elif m.key == 'dpd':
        v = m.value(e, 'v', sh)
        b = map_of(e.get(sh, 'betas'))
        k = tm.fresh('k', 'I')
        b0 = e.get(sh, 'beta0')
        e.require(pos(b0), tm.eq(tm.add(b0, tm.bsum(k, tm.ite(b.has(k), b.get(k), tm.rv(0)))), tm.rv(1)))
        p = EXP(e.method(g, 'score_value', sh, v, e.rngcell))
        o = EXP(e.method(g, 'score_value', sh, e.put('other', m.OTHER), e.rngcell))
        x = e.get(v)
        tot = tm.bsum(k, tm.ite(b.has(k), tm.subst(p, {x: k}), tm.rv(0)))
        e.ensure('predictive probabilities sum to one', tm.eq(tm.add(tot, o), tm.rv(1)))
    else:
        v = m.value(e, 'v', sh)
        p = EXP(e.method(g, 'score_value', sh, v, e.rngcell))
        x = e.get(v)
        e.ensure('predictive probabilities sum to one', tm.eq(tm.sum_range(Z, e.get(sh, 'dim'), lambda j: tm.subst(p, {x: j})), tm.rv(1)))
    return e
# ---- normal-inverse-Wishart: through the posterior parameters
def niw_updated(m, p, v):
    """posterior parameters p after one more value"""
    n = range(m.d)
    mu, w = [r[0] for r in p.f['mu'].e], [r[0] for r in v.e]
    k = p.f['kappa']; k1 = k + tm.rv(1)
    return Rec(p.ty, {'mu': Mat(m.d, 1, [[tm.div(k * mu[i] + w[i], k1)] for i in n]), 'kappa': k1, 'nu': p.f['nu'] + tm.rv(1),
                      'psi': Mat(m.d, m.d, [[p.f['psi'].e[i][j] + tm.div(k, k1) * (w[i] - mu[i]) * (w[j] - mu[j]) for j in n] for i in n])})
def niw_update(m):
    """contract of plus_group, relational: one more value in the group"""
    e, sh, g, v = setup(m, 'posterior update')
    h = e.copy('h', g)
    e.method(h, 'add_value', sh, v, e.rngcell)
    p, q = e.method(sh, 'plus_group', g), e.method(sh, 'plus_group', h)
    u = niw_updated(m, p, e.get(v))
    for f in ('kappa', 'nu', 'mu', 'psi'):
        e.equal('plus_group(add(g,v)).%s is the conjugate update of plus_group(g)' % f, q.f[f], u.f[f])
    s, n = e.get(sh), tm.toreal(e.get(g, 'count'))
    e.ensure('plus_group(g).kappa', tm.eq(p.f['kappa'], s.f['kappa'] + n))
    e.ensure('plus_group(g).nu', tm.eq(p.f['nu'], s.f['nu'] + n))
    e.equal('plus_group(g).psi is symmetric', p.f['psi'], stdlib.transpose(p.f['psi']))
    z = m.garbage(e, 'z')
    e.method(z, 'init', sh, e.rngcell)
    e.equal('plus_group(empty) is the prior', e.method(sh, 'plus_group', z), s)
    return e
def same(a, b):
    A, B = [x[-1] for x in leaves(a)], [x[-1] for x in leaves(b)]
    return len(A) == len(B) and all(x is y for x, y in zip(A, B))
def posterior_of(m, e, sh, g, v=None, h=None, empty=None):
    """use the contract (niw_update) of plus_group for g, and for h == add(g,v); returns plus_group(g)"""
    pl = e.blank('post_g', ('rec', m.q + '::Shared'))
    m.fix_shared(e, pl)
    p = e.get(pl)
    s, n = e.get(sh), tm.toreal(e.get(g, 'count'))
    p = Rec(p.ty, dict(p.f, kappa=s.f['kappa'] + n, nu=s.f['nu'] + n))
    G, H = e.get(g), e.get(h) if h is not None else None
    V = e.get(v) if v is not None else None
    def c(ex, st, f, this, args, fr, node):
        x = args[0]
        x = ex.load(st, x) if isinstance(x, (LV, LVCond)) else x
        t = ex.load(st, this) if isinstance(this, LV) else this
        if empty is not None and same(t, p) and same(x, e.get(empty)): return p
        if not same(t, s): raise Unsupported('plus_group of other parameters')
        if same(x, G): return p
        if H is not None and same(x, H): return niw_updated(m, p, V)
        raise Unsupported('plus_group of another group')
    e.ex.contracts[m.q + '::Shared::plus_group'] = c
    return p
def niw_chain(m):
    e, sh, g, v = setup(m, 'chain rule')
    h = e.copy('h', g)
    e.method(h, 'add_value', sh, v, e.rngcell)
    posterior_of(m, e, sh, g, v, h)
    a = e.method(g, 'score_data', sh, e.rngcell)
    s = e.method(g, 'score_value', sh, v, e.rngcell)
    b = e.method(h, 'score_data', sh, e.rngcell)
    e.ensure('score_data(add(g,v)) - score_data(g) == score_value(g,v)', tm.eq(tm.sub(b, a), s))
    return e
def niw_posterior(m):
    e, sh, g, v = setup(m, 'posterior')
    z = m.garbage(e, 'z')
    e.method(z, 'init', sh, e.rngcell)
    post = posterior_of(m, e, sh, g, empty=z)
    p = e.put('post', post)
    a = e.method(z, 'score_value', p, v, e.rngcell)
    b = e.method(g, 'score_value', sh, v, e.rngcell)
    e.ensure('an empty group under plus_group(g) predicts as g', tm.eq(a, b))
    for i, c in enumerate(m.shared_pre(e, post)):
        e.ensure('plus_group gives valid parameters #%d' % i, c)
    return e
def niw_value(m):
    """the multivariate t predictive of the posterior parameters"""
    e, sh, g, v = setup(m, 'predictive')
    p = posterior_of(m, e, sh, g)
    r = e.method(g, 'score_value', sh, v, e.rngcell)
    d, D_ = m.d, tm.rv(m.d)
    dof = p.f['nu'] - D_ + tm.rv(1)
    k = p.f['kappa']
    sc = tm.div(k + tm.rv(1), k * dof)
    w = [a[0] - b[0] for a, b in zip(e.get(v).e, p.f['mu'].e)]
    inv = stdlib.inverse(p.f['psi']).e
    maha = tm.add(*[w[i] * inv[i][j] * w[j] for i in range(d) for j in range(d)])
    f = (LG(half(dof + D_)) - LG(half(dof)) - half(D_) * (LOG(dof) + LOG(tm.PI))
         - half(D_ * LOG(sc) + LOG(stdlib.det(p.f['psi'].e)))
         - half(dof + D_) * LOG(tm.rv(1) + tm.div(maha, dof * sc)))
    e.ensure('score_value is the log multivariate t predictive', tm.eq(r, f))
    return e
def jobs():
    for m in NIWS:
        for f in (niw_update, niw_chain, niw_value, niw_posterior, empty, scorer):
            yield '%s %s' % (m.key, f.__name__), (lambda f=f, m=m: f(m))
    for m in MODELS:
        L = [value_formula, empty, chain, scorer]
        if m.key in ('bnb', 'gp', 'nich'): L.append(posterior)
        if m.key in ('bb', 'dd', 'dpd'): L.append(normalised)
        for f in L:
            yield '%s %s' % (m.key, f.__name__), (lambda f=f, m=m: f(m))
    yield 'dpd scorer, no remaining stick', lambda: scorer(BYKEY['dpd'], False)
    yield 'dpd other', dpd_other
for m in MODELS + NIWS: m.has_plus = m.key in ('bnb', 'gp', 'nich', 'niw2', 'niw3')
