"""C16: a sampler draws the parameters from the conjugate posterior and the value
from the likelihood.  The k-th primitive variate after the call is an arbitrary
value DIST(rng0 + k, parameters); scale families are written through their
standard member (gamma(a, s) = s gamma(a, 1), normal(m, s) = m + s normal(0, 1),
chi2(n) = 2 gamma(n/2, 1))."""
from common import *
from loops import replace_term
I, R = tm.iv, tm.rv
R0 = tm.var('rng0', 'I')
def at(k): return tm.add(R0, k if isinstance(k, T) else I(k))
def gam(k, a): return tm.app('RNG_gamma', (at(k), tm.toreal(a), R(1)), 'R')
def nrm(k): return tm.app('RNG_normal', (at(k), R(0), R(1)), 'R')
def unif(k): return tm.app('RNG_uniform_real', (at(k), R(0), R(1)), 'R')
def pois(k, m): return tm.app('RNG_poisson', (at(k), m), 'I')
def negbin(k, r, p): return tm.app('RNG_negative_binomial', (at(k), r, p), 'I')
# ---- per model: number of draws the parameters take, and the value drawn next, at draw k
def bb(e, s, g):
    a, b = tm.add(s['alpha'], tm.toreal(g['heads'])), tm.add(s['beta'], tm.toreal(g['tails']))
    x, y = gam(0, a), gam(1, b)
    return 2, lambda k: tm.lt(unif(k), tm.div(x, tm.add(x, y)))
def bnb(e, s, g):
    a = tm.add(s['alpha'], tm.mul(tm.toreal(s['r']), tm.toreal(g['count'])))
    x, y = gam(0, a), gam(1, tm.add(s['beta'], tm.toreal(g['sum'])))
    return 2, lambda k: negbin(k, s['r'], tm.div(x, tm.add(x, y)))
def gp(e, s, g):
    mean = tm.div(gam(0, tm.add(s['alpha'], tm.toreal(g['sum']))), tm.add(s['inv_beta'], tm.toreal(g['count'])))
    return 1, lambda k: pois(k, mean)
def nich(e, s, g):
    n = tm.toreal(g['count'])
    ka, nu = tm.add(s['kappa'], n), tm.add(s['nu'], n)
    mu = tm.div(tm.add(tm.mul(s['kappa'], s['mu']), tm.mul(n, g['mean'])), ka)
    d = tm.sub(g['mean'], s['mu'])
    ss = tm.add(tm.mul(s['nu'], s['sigmasq']), g['count_times_variance'], tm.div(tm.mul(n, s['kappa'], d, d), ka))
    var = tm.div(ss, tm.scale(gam(0, tm.scale(nu, tm.Fraction(1, 2))), 2))
    mean = tm.add(mu, tm.mul(tm.SQRT(tm.div(var, ka)), nrm(1)))
    return 2, lambda k: tm.add(mean, tm.mul(tm.SQRT(var), nrm(k)))
ORACLE = dict(bb=bb, bnb=bnb, gp=gp, nich=nich)
# ---- sample_dirichlet and sample_discrete at their contracts (bodies: C10)
def modular(e):
    e.log = []
    import contracts as ct
    def c_dirichlet(ex, st, f, this, a, fr, x):
        """out[i] = gamma(alphas[i]) / sum of them, drawn in order"""
        n, src, dst = a[1], a[2], a[3]
        ct.region(ex, st, src, n)
        ex.obl('sample_dirichlet: something to sample', st, tm.le(I(1), n))
        s0 = st.copy()
        k = tm.fresh('i', 'I')
        ex.obl('sample_dirichlet: parameters positive', st, pos(ct.elt(ex, s0, src, k)), (tm.le(Z, k), tm.lt(k, n)))
        r = st.cells['rng']
        w = lambda i: tm.app('RNG_gamma', (tm.add(r, i), ct.elt(ex, s0, src, i), R(1)), 'R')
        ct.write(ex, st, dst, n, lambda i: tm.div(w(i), tm.sum_range(Z, n, w)))
        st.cells['rng'] = tm.add(r, n)
    def c_discrete(ex, st, f, this, a, fr, x):
        """an index below n drawn with the given probabilities"""
        n, p = a[1], a[2]
        ct.region(ex, st, p, n)
        ex.obl('sample_discrete: something to sample', st, tm.le(I(1), n))
        r = st.cells['rng']
        i = ex.rng_draw(st, 'DISCRETE', (n,), 'I')
        s0 = st.copy()
        st.assume(tm.and_(tm.le(Z, i), tm.lt(i, n)))
        e.log.append((r, n, lambda j: ct.elt(ex, s0, p, j), i))
        return i
    e.ex.contracts[D + 'sample_dirichlet'] = c_dirichlet
    e.ex.contracts[D + 'sample_discrete'] = c_discrete
    e.ex.ax.fun('RNG_gamma', lambda *a: pos(tm.app('RNG_gamma', a, 'R')))
def choice(m, e, sh, g, what, out, drawn):
    """out was drawn from the values with normalised gamma variates of alpha + count"""
    s, c = e.get(sh).f, e.get(g).f['counts']
    if len(e.log) != drawn: raise Unsupported('%d draws through sample_discrete' % len(e.log))
    r, n, w, idx = e.log[-1]
    i, k = tm.var('i', 'I'), tm.var('i2', 'I')
    rng = lambda i: [tm.le(Z, i), tm.lt(i, n)]
    at_ = lambda i: replace_term(out, idx, i)
    if m.key == 'dd':
        total = s['dim']
        valid = lambda v: tm.and_(tm.le(Z, v), tm.lt(v, total))
        shape = lambda v: tm.add(s['alphas'].get(v), tm.toreal(c.get(v)))
    else:
        b = map_of(s['betas'])
        total = tm.add(b.size(), tm.ite(pos(s['beta0']), I(1), Z))
        valid = lambda v: tm.or_(b.has(v), tm.and_(pos(s['beta0']), tm.eq(v, m.OTHER)))
        shape = lambda v: tm.add(tm.mul(s['alpha'], tm.ite(tm.eq(v, m.OTHER), s['beta0'], b.get(v))), tm.toreal(sc_count(c, v)))
    e.ensure(what + ': as many candidates as values', tm.eq(n, total))
    e.ensure(what + ': every candidate is a value', valid(at_(i)), rng(i))
    e.ensure(what + ': candidates are distinct', tm.eq(i, k), rng(i) + rng(k) + [tm.eq(at_(i), at_(k))])
    W = lambda i: gam(i, shape(at_(i)))
    e.ensure(what + ': probabilities are the normalised gamma variates of alpha + count', tm.eq(tm.mul(w(i), tm.sum_range(Z, n, W)), W(i)), rng(i))
    e.ensure(what + ': drawn next', tm.eq(r, tm.add(at(n), I(drawn - 1))))
def something(e, sh):
    """there is a value to draw"""
    return tm.or_(pos(e.get(sh, 'beta0')), tm.le(I(1), map_of(e.get(sh, 'betas')).size()))
def sampler(m):
    e = m.env('sampler')
    sh = m.shared(e); g = m.group(e, 'g', sh)
    if m.key == 'dpd': e.require(something(e, sh))
    g0, s0 = e.copy('g0', g), e.copy('s0', sh)
    if m.key in ORACLE: n, value = ORACLE[m.key](e, e.get(sh).f, e.get(g).f)
    else: modular(e)
    sc = e.blank('sampler', ('rec', m.q + '::Sampler'))
    e.method(sc, 'init', sh, g, e.rngcell)
    a = e.method(sc, 'eval', sh, e.rngcell)
    if m.key not in ORACLE: choice(m, e, sh, g, 'first value', a, 1)
    b = e.method(sc, 'eval', sh, e.rngcell)
    if m.key not in ORACLE: choice(m, e, sh, g, 'next value', b, 2)
    else:
        e.equal('the value is drawn from the likelihood with posterior parameters', a, value(n))
        e.equal('the next value is drawn with the same parameters', b, value(n + 1))
    same_group(m, e, 'the group is unchanged', g, g0, sh)
    e.equal('the shared parameters are unchanged', e.get(sh), e.get(s0))
    return e
def direct(m):
    e = m.env('sample_value')
    sh = m.shared(e); g = m.group(e, 'g', sh)
    if m.key == 'dpd': e.require(something(e, sh))
    g0, s0 = e.copy('g0', g), e.copy('s0', sh)
    if m.key in ORACLE: n, value = ORACLE[m.key](e, e.get(sh).f, e.get(g).f)
    else: modular(e)
    a = e.method(g, 'sample_value', sh, e.rngcell)
    if m.key in ORACLE: e.equal('sample_value draws from the posterior predictive', a, value(n))
    else: choice(m, e, sh, g, 'the value', a, 1)
    same_group(m, e, 'the group is unchanged', g, g0, sh)
    e.equal('the shared parameters are unchanged', e.get(sh), e.get(s0))
    return e
# ---- normal-inverse-Wishart (fixed dimension): one lemma per function of the chain.
# CHOL is the lower factor Eigen computes; positive definiteness is assumed (nosafety)
import stdlib
from stdlib import mat_arith as ma, transpose, inverse
def niw_env(name): 
    e = Env(name); e.nosafety = True; return e
def instance(d, k):
    return lambda f: '%d, %d>' % (d, d) in (f.params[k]['type'].get('desugaredQualType') or f.params[k]['type']['qualType'])
def column(d, f): return Mat(d, 1, [[f(i)] for i in range(d)])
def matrix(d, f): return Mat(d, d, [[f(i, j) for j in range(d)] for i in range(d)])
def sym(e, name, d):
    lv = e.obj(name, ('mat', d, d)); m = e.get(lv)
    e.set(lv, matrix(d, lambda i, j: m.e[min(i, j)][max(i, j)]))
    return lv
def drawn(e, n): e.ensure('draws taken', tm.eq(e.st.cells['rng'], at(n)))
def chol(e, m): return stdlib.cholesky(e.ex, e.st, m).f['L']
def logged(e, qn, out):
    """intercept calls of qn: log the arguments, return out(k) for the k-th call"""
    log = []
    def h(ex, st, f, this, a, fr, node):
        a = [ex.load(st, x) if isinstance(x, (LV, LVCond)) else x for x in a]
        log.append((a, st.cells['rng']))
        # any number of draws, but the same for every call
        st.cells['rng'] = tm.add(st.cells['rng'], tm.var('draws', 'I'))
        return out(len(log) - 1)
    e.ex.contracts[D + qn] = h
    return log
def called(log, n):
    if len(log) != n: raise Unsupported('%d calls' % len(log))
    return log[-1][0]
def mvn(d):
    e = niw_env('sample_multivariate_normal')
    mu, sg = e.obj('mu', ('mat', d, 1)), sym(e, 'sigma', d)
    r = e.call('sample_multivariate_normal', None, mu, sg, e.rngcell, pred=instance(d, 1))
    e.equal('mean + L z, with L L^T = sigma and z standard normal', r, ma('+', e.get(mu), ma('*', chol(e, e.get(sg)), column(d, nrm))))
    drawn(e, d)
    return e
def wishart(d):
    e = niw_env('sample_wishart')
    nu, sc = e.obj('nu', ('float',)), sym(e, 'scale', d)
    n = tm.toreal(e.get(nu))
    r = e.call('sample_wishart', None, nu, sc, e.rngcell, pred=instance(d, 1))
    # Bartlett: A lower triangular, A_ii^2 ~ chi2(nu - i), A_ij ~ N(0,1)
    order = {(i, j): d + k for k, (i, j) in enumerate((i, j) for i in range(d) for j in range(i))}
    A = matrix(d, lambda i, j: tm.SQRT(tm.scale(gam(i, tm.scale(n - R(i), tm.Fraction(1, 2))), 2)) if i == j else nrm(order[i, j]) if j < i else R(0))
    X = ma('*', chol(e, e.get(sc)), A)
    e.equal('L A A^T L^T (Bartlett)', r, ma('*', X, transpose(X)))
    drawn(e, d + len(order))
    return e
def inv_wishart(d):
    e = niw_env('sample_inverse_wishart')
    nu, psi, w = e.obj('nu', ('float',)), sym(e, 'psi', d), sym(e, 'W', d)
    log = logged(e, 'sample_wishart', lambda k: e.get(w))
    r = e.call('sample_inverse_wishart', None, nu, psi, e.rngcell, pred=instance(d, 1))
    a = called(log, 1)
    e.ensure('the inverse is Wishart with nu degrees of freedom', tm.eq(a[0], e.get(nu)))
    e.equal('the inverse is Wishart with scale psi^-1', a[1], inverse(e.get(psi)))
    e.equal('the covariance is the inverse of the Wishart draw', r, inverse(e.get(w)))
    return e
def niw(d):
    e = niw_env('sample_normal_inverse_wishart')
    mu, la, psi, nu = e.obj('mu', ('mat', d, 1)), e.obj('lambda', ('float',)), sym(e, 'psi', d), e.obj('nu', ('float',))
    S, m = sym(e, 'S', d), e.obj('m', ('mat', d, 1))
    lw = logged(e, 'sample_inverse_wishart', lambda k: e.get(S))
    ln = logged(e, 'sample_multivariate_normal', lambda k: e.get(m))
    r = e.call('sample_normal_inverse_wishart', None, mu, la, psi, nu, e.rngcell, pred=instance(d, 2))
    w, n = called(lw, 1), called(ln, 1)
    e.equal('covariance: degrees of freedom', w[0], e.get(nu))
    e.equal('covariance: scale', w[1], e.get(psi))
    e.equal('mean: centred at mu', n[0], e.get(mu))
    e.equal('mean: covariance divided by lambda', n[1], ma('/', e.get(S), e.get(la)))
    e.ensure('separate draws', tm.eq(tm.sub(ln[0][1], lw[0][1]), tm.var('draws', 'I')))
    e.equal('the mean returned', r.f['first'], e.get(m))
    e.equal('the covariance returned', r.f['second'], e.get(S))
    return e
def niw_sampler(m, direct):
    e = m.env('sampler')
    sh = m.shared(e); g = m.group(e, 'g', sh)
    g0, s0 = e.copy('g0', g), e.copy('s0', sh)
    d = m.d
    S, mu, vs = sym(e, 'S', d), e.obj('m', ('mat', d, 1)), [e.obj('v%d' % k, ('mat', d, 1)) for k in range(3)]
    lp = logged(e, 'sample_normal_inverse_wishart', lambda k: Rec('pair', {'first': e.get(mu), 'second': e.get(S)}))
    ln = logged(e, 'sample_multivariate_normal', lambda k: e.get(vs[k]))
    post = e.method(sh, 'plus_group', g)          # C02: the conjugate posterior
    if direct: outs = [e.method(g, 'sample_value', sh, e.rngcell)]
    else:
        sc = e.blank('sampler', ('rec', m.q + '::Sampler'))
        e.method(sc, 'init', sh, g, e.rngcell)
        outs = [e.method(sc, 'eval', sh, e.rngcell) for _ in range(2)]
    a = called(lp, 1)
    for i, f in enumerate(('mu', 'kappa', 'psi', 'nu')):
        e.equal('parameters drawn from the posterior: ' + f, a[i], post.f[f])
    if len(ln) != len(outs): raise Unsupported('%d values drawn' % len(ln))
    for k, o in enumerate(outs):
        e.equal('value %d: drawn around the mean drawn' % k, ln[k][0][0], e.get(mu))
        e.equal('value %d: drawn with the covariance drawn' % k, ln[k][0][1], e.get(S))
        e.ensure('value %d: a new draw' % k, tm.eq(ln[k][1], tm.add(R0, tm.scale(tm.var('draws', 'I'), k + 1))))
        e.equal('value %d is returned' % k, o, e.get(vs[k]))
    same_group(m, e, 'the group is unchanged', g, g0, sh)
    e.equal('the shared parameters are unchanged', e.get(sh), e.get(s0))
    return e
def jobs():
    for m in NIWS:
        for f in (mvn, wishart, inv_wishart, niw):
            yield '%s %s' % (m.key, f.__name__), (lambda f=f, m=m: f(m.d))
        yield m.key + ' sampler', (lambda m=m: niw_sampler(m, False))
        yield m.key + ' direct', (lambda m=m: niw_sampler(m, True))
    for m in MODELS:
        for f in (sampler, direct):
            yield '%s %s' % (m.key, f.__name__), (lambda f=f, m=m: f(m))
