"""C10: discrete sampling and score normalisation.  A random draw is an
arbitrary value of its distribution's support, named by its position in the
generator's sequence; the obligations hold for all draws."""
from common import *
import contracts, loops
I, EXP, LOG = tm.iv, tm.EXP, tm.LOG
U01 = lambda r: tm.app('RNG_uniform_real', (r, tm.rv(0), tm.rv(1)), 'R')
R0 = tm.var('rng0', 'I')
def vec(e, name, nonneg_=False, nonempty=True):
    lv = e.obj(name, ('vec', ('float',)))
    v = e.get(lv)
    if nonempty: e.require(tm.le(I(1), v.n))
    if nonneg_:
        e.ex.ax.fun(name, lambda *a: nonneg(tm.app(name, a, 'R')))
    return lv, v
def modular(name):
    """callers are checked against the contracts of the two basic functions"""
    e = Env(name)
    e.ex.contracts.update(contracts.DISCRETE)
    return e
def std(f): return 'std::allocator<float>' in f.node['type']['qualType'] or 'SA' in f.node['type']['qualType'] or 'aligned' not in f.node['type']['qualType']
def maximum(v):
    j = tm.fresh('j', 'I')
    return tm.bmax(j, tm.and_(tm.le(Z, j), tm.lt(j, v.n)), v.get(j))
def sumexp(v, shift):
    return tm.sum_range(Z, v.n, lambda j: EXP(tm.sub(v.get(j), shift)))
def prefix(v, i): return tm.sum_range(Z, i, lambda j: v.get(j))
def index_of(e, v, r, t, what):
    """r is where the cumulative weight first reaches t"""
    e.ensure(what + ': in range', tm.and_(tm.le(Z, r), tm.lt(r, v.n)))
    j = tm.var('earlier', 'I')
    e.ensure(what + ': no earlier index reaches the fraction', tm.le(prefix(v, tm.add(j, I(1))), t), [tm.le(Z, j), tm.lt(j, r)])
    e.ensure(what + ': the weight up to the index does, unless it is the last', tm.or_(tm.eq(r, tm.sub(v.n, I(1))), tm.le(t, prefix(v, tm.add(r, I(1))))))
def likelihoods(e, lv, v, total, what):
    """lv now holds exp(score - max), total is its sum"""
    m = maximum(v)
    w = e.get(lv)
    i = tm.var('i', 'I')
    e.ensure(what + ': size kept', tm.eq(w.n, v.n))
    e.ensure(what + ': likelihoods are the exponentials relative to the maximum', tm.eq(w.get(i), EXP(tm.sub(v.get(i), m))), [tm.le(Z, i), tm.lt(i, v.n)])
    if total is not None: e.ensure(what + ': the total is their sum', tm.eq(total, sumexp(v, m)))
# ---- normalisation
def to_likelihoods():
    e = Env('scores_to_likelihoods')
    lv, v = vec(e, 's')
    r = e.call('scores_to_likelihoods', None, lv, pred=std)
    likelihoods(e, lv, v, r, 'scores_to_likelihoods')
    return e
def to_probs():
    e = modular('scores_to_probs')
    lv, v = vec(e, 's')
    e.call('scores_to_probs', None, lv, pred=std)
    w = e.get(lv)
    i = tm.var('i', 'I')
    c = tm.var('c', 'R')
    e.ensure('the size is kept', tm.eq(w.n, v.n))
    e.ensure('probabilities are the normalised exponentials', tm.eq(tm.mul(w.get(i), sumexp(v, maximum(v))), EXP(tm.sub(v.get(i), maximum(v)))), [tm.le(Z, i), tm.lt(i, v.n)])
    return e
def lse():
    e = Env('log_sum_exp')
    lv, v = vec(e, 's')
    r = e.call('log_sum_exp', None, lv, pred=std)
    e.ensure('log_sum_exp is the log normaliser', tm.eq(r, tm.add(maximum(v), LOG(sumexp(v, maximum(v))))))
    return e
def score_from():
    e = Env('score_from_scores_overwrite')
    lv, v = vec(e, 's')
    k = e.get(e.obj('k', ('int', False, 64)))
    e.require(tm.lt(k, v.n))
    r = e.call('score_from_scores_overwrite', None, e.rngcell, k, lv, pred=std)
    m = maximum(v)
    e.ensure('the normalised score of the index', tm.eq(r, tm.sub(tm.sub(v.get(k), m), LOG(sumexp(v, m)))))
    return e
def shift():
    """the normaliser does not depend on where the exponentials are centred"""
    e = Env('centring')
    lv, v = vec(e, 's')
    a, b = tm.var('a', 'R'), tm.var('b', 'R')
    i = tm.var('i', 'I')
    e.ensure('log-sum-exp does not depend on the shift', tm.eq(tm.add(a, LOG(sumexp(v, a))), tm.add(b, LOG(sumexp(v, b)))))
    return e
# ---- sampling
def from_likelihoods(total):
    def f():
        e = Env('sample_from_likelihoods')
        if not total:
            q = D + 'sample_from_likelihoods'
            e.ex.contracts[q] = lambda ex, st, f, this, a, fr, x: contracts.c_sample_from_likelihoods(ex, st, f, this, a, fr, x) if len(a) == 3 else ex.apply(f, this, a, st, ('two',))
        lv, v = vec(e, 'w', True)
        if total:
            t = e.get(e.obj('total', 'float'))
            r = e.call('sample_from_likelihoods', None, e.rngcell, lv, t, pred=std)
        else:
            t = prefix(v, v.n)
            r = e.call('sample_from_likelihoods', None, e.rngcell, lv, pred=std, body=True)
        index_of(e, v, r, tm.mul(t, U01(R0)), 'sample_from_likelihoods')
        e.equal('weights unchanged', e.get(lv), v)
        return e
    f.__name__ = 'from_likelihoods' + ('_total' if total else '')
    return f
def from_probs():
    e = modular('sample_from_probs')
    lv, v = vec(e, 'w', True)
    r = e.call('sample_from_probs', None, e.rngcell, lv, pred=std)
    index_of(e, v, r, U01(R0), 'sample_from_probs')
    e.equal('weights unchanged', e.get(lv), v)
    return e
def discrete():
    e = Env('sample_discrete')
    lv, v = vec(e, 'w', True)
    r = e.call('sample_discrete', None, e.rngcell, v.n, Ptr(lv, Z))
    index_of(e, v, r, U01(R0), 'sample_discrete')
    return e
def overwrite():
    e = modular('sample_from_scores_overwrite')
    lv, v = vec(e, 's')
    r = e.call('sample_from_scores_overwrite', None, e.rngcell, lv, pred=std)
    m = maximum(v)
    w = e.get(lv)
    likelihoods(e, lv, v, None, 'sample_from_scores_overwrite')
    index_of(e, w, r, tm.mul(prefix(w, w.n), U01(R0)), 'sample_from_scores_overwrite')
    return e
def prob():
    e = modular('sample_prob_from_scores_overwrite')
    lv, v = vec(e, 's')
    r = e.call('sample_prob_from_scores_overwrite', None, e.rngcell, lv, pred=std)
    m = maximum(v)
    k, p = r.f['first'], r.f['second']
    w = e.get(lv)
    index_of(e, w, k, tm.mul(prefix(w, w.n), U01(R0)), 'sampled index')
    e.ensure('the reported probability is the normalised one of the sampled index', tm.eq(tm.mul(p, sumexp(v, m)), EXP(tm.sub(v.get(k), m))))
    return e
def from_scores():
    e = modular('sample_from_scores')
    lv, v = vec(e, 's')
    r = e.call('sample_from_scores', None, e.rngcell, lv, pred=std)
    m = maximum(v)
    j = tm.fresh('b', 'I')
    w = Vec(v.n, j, EXP(tm.sub(v.get(j), m)), v.ety)
    index_of(e, w, r, tm.mul(prefix(w, w.n), U01(R0)), 'sample_from_scores')
    e.equal('scores unchanged', e.get(lv), v)
    return e
def urn():
    e = Env('sample_from_urn')
    lv = e.obj('urn', ('vec', ('int', True, 32)))
    v = e.get(lv)
    e.require(tm.le(I(1), v.n))
    r = e.call('sample_from_urn', None, e.rngcell, lv)
    k = tm.app('RNG_uniform_int', (R0, Z, tm.sub(v.n, I(1))), 'I')
    e.ensure('the member at the drawn position', tm.eq(r, v.get(k)))
    e.ensure('the position is in range', tm.and_(tm.le(Z, k), tm.lt(k, v.n)))
    return e
def pair():
    """each of the n(n-1) equally likely draws gives another ordered pair of distinct positions"""
    e = Env('sample_pair_from_urn')
    lv = e.obj('urn', ('vec', ('int', True, 32)))
    v = e.get(lv)
    e.require(tm.le(I(2), v.n))
    own = e.put('positions', Vec(v.n, v.bv, v.bv, v.ety))
    rng = e.st.cells['rng']
    r = e.call('sample_pair_from_urn', None, e.rngcell, lv)
    e.st.cells['rng'] = rng
    q = e.call('sample_pair_from_urn', None, e.rngcell, own)
    A, B = q.f['first'], q.f['second']
    e.ensure('first member', tm.eq(r.f['first'], v.get(A)))
    e.ensure('second member', tm.eq(r.f['second'], v.get(B)))
    e.ensure('distinct positions in range', tm.and_(tm.not_(tm.eq(A, B)), tm.le(Z, A), tm.lt(A, v.n), tm.le(Z, B), tm.lt(B, v.n)))
    draws = []
    for t in (A, B):
        for x in tm.subterms(t):
            if x.op == 'app' and x.args[0].startswith('RNG_') and x not in draws: draws.append(x)
    if any(x.args[0] != 'RNG_uniform_int' for x in draws): raise Unsupported('draws of sample_pair_from_urn')
    n = tm.iv(1)
    for x in draws: n = tm.mul(n, tm.add(tm.sub(x.args[3], x.args[2]), I(1)))
    e.ensure('as many draws as ordered pairs', tm.eq(n, tm.mul(v.n, tm.sub(v.n, I(1)))))
    A2, B2, hyps, same = A, B, [], []
    for k, x in enumerate(draws):
        y = tm.var('other%d' % k, 'I')
        A2, B2 = loops.replace_term(A2, x, y), loops.replace_term(B2, x, y)
        hyps += [tm.le(x.args[2], y), tm.le(y, x.args[3])]
        same.append(tm.eq(x, y))
    e.ensure('different draws give different pairs', tm.and_(*same), hyps + [tm.eq(A, A2), tm.eq(B, B2)])
    return e
def gammas(a, n):
    return lambda i: tm.app('RNG_gamma', (tm.add(R0, i), a.get(i), tm.rv(1)), 'R')
def dirichlet():
    e = Env('sample_dirichlet')
    al, a = vec(e, 'alphas')
    e.ex.ax.fun('alphas', lambda *x: pos(tm.app('alphas', x, 'R')))
    p = e.obj('p', ('vec', ('float',)))
    e.require(tm.eq(e.get(p).n, a.n))
    e.call('sample_dirichlet', None, e.rngcell, a.n, Ptr(al, Z), Ptr(p, Z))
    g = gammas(a, a.n)
    i = tm.var('i', 'I')
    e.ensure('normalised gamma variates', tm.eq(tm.mul(e.get(p).get(i), tm.sum_range(Z, a.n, g)), g(i)), [tm.le(Z, i), tm.lt(i, a.n)])
    e.equal('the parameters are unchanged', e.get(al), a)
    return e
def dirichlet_inplace():
    e = Env('sample_dirichlet in place')
    al, a = vec(e, 'alphas')
    e.ex.ax.fun('alphas', lambda *x: pos(tm.app('alphas', x, 'R')))
    e.call('sample_dirichlet', None, e.rngcell, a.n, Ptr(al, Z), Ptr(al, Z))
    g = gammas(a, a.n)
    i = tm.var('i', 'I')
    e.ensure('normalised gamma variates', tm.eq(tm.mul(e.get(al).get(i), tm.sum_range(Z, a.n, g)), g(i)), [tm.le(Z, i), tm.lt(i, a.n)])
    return e
def dirichlet_safe():
    e = Env('sample_dirichlet_safe')
    al, a = vec(e, 'alphas')
    e.ex.ax.fun('alphas', lambda *x: pos(tm.app('alphas', x, 'R')))
    p = e.obj('p', ('vec', ('float',)))
    m = e.get(e.obj('m', 'float'))
    e.require(tm.eq(e.get(p).n, a.n), nonneg(m))
    e.call('sample_dirichlet_safe', None, e.rngcell, a.n, Ptr(al, Z), Ptr(p, Z), m)
    g = lambda i: tm.app('RNG_gamma', (tm.add(R0, i), tm.add(a.get(i), m), tm.rv(1)), 'R')
    i = tm.var('i', 'I')
    tot = tm.sum_range(Z, a.n, g)
    e.ensure('normalised gamma variates, moved away from zero', tm.eq(tm.mul(e.get(p).get(i), tm.add(tm.rv(1), tm.mul(m, tm.toreal(a.n)))), tm.add(tm.div(g(i), tot), m)), [tm.le(Z, i), tm.lt(i, a.n)])
    return e
def beta():
    e = Env('sample_beta')
    a, b = [e.get(e.obj(x, 'float')) for x in 'ab']
    e.require(pos(a), pos(b))
    r = e.call('sample_beta', None, e.rngcell, a, b)
    x = tm.app('RNG_gamma', (R0, a, tm.rv(1)), 'R'); y = tm.app('RNG_gamma', (tm.add(R0, I(1)), b, tm.rv(1)), 'R')
    e.ensure('first of two normalised gamma variates', tm.eq(tm.mul(r, tm.add(x, y)), x))
    return e
LEMMAS = [to_likelihoods, to_probs, lse, score_from, shift, from_likelihoods(True), from_likelihoods(False), from_probs, discrete, overwrite, prob, from_scores, urn, pair,
          dirichlet, dirichlet_inplace, dirichlet_safe, beta]
def jobs():
    for f in LEMMAS: yield f.__name__, f
