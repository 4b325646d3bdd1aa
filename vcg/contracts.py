"""Contracts used at call sites.

TRUSTED: contracts of functions outside the verifier's reach (table-driven
floating-point approximations, the C++ random distributions).  They are listed
in every evidence file.  C11 checks the table functions (index safety proved,
accuracy bounded).
MODULAR: contracts of functions of /repo that are verified against their own
bodies (property C12 / C10) and used instead of the body elsewhere.
"""
import term as tm
from term import T
from vals import *
D = 'distributions::'

# ------------------------------------------------------------------ math
def positive(ex, st, x, what):
    ex.obl('domain: %s argument positive' % what, st, tm.lt(tm.iv(0), x))
def val(ex, st, a):
    return ex.load(st, a) if isinstance(a, (LV, LVCond)) else a
def c_log(ex, st, f, this, a, fr, e):
    x = val(ex, st, a[0]); positive(ex, st, x, 'log'); return tm.LOG(x)
def c_exp(ex, st, f, this, a, fr, e):
    return tm.EXP(val(ex, st, a[0]))
def c_lgamma(ex, st, f, this, a, fr, e):
    x = val(ex, st, a[0]); positive(ex, st, x, 'lgamma'); return tm.LGAMMA(x)
def lgamma_nu(x):
    h = tm.scale(tm.toreal(x), tm.Fraction(1, 2))
    return tm.sub(tm.LGAMMA(tm.add(h, tm.rv(tm.Fraction(1, 2)))), tm.LGAMMA(h))
def c_lgamma_nu(ex, st, f, this, a, fr, e):
    x = val(ex, st, a[0]); positive(ex, st, x, 'lgamma_nu'); return lgamma_nu(x)
def c_log_factorial(ex, st, f, this, a, fr, e):
    n = val(ex, st, a[0])
    ex.obl('domain: log_factorial argument', st, tm.and_(tm.le(tm.iv(0), n), tm.lt(n, tm.iv(2**32))))
    return tm.LGAMMA(tm.add(tm.toreal(n), tm.rv(1)))
TRUSTED = {
    D + 'fast_log': c_log, D + 'eric_log': c_log, D + 'fast_exp': c_exp, D + 'fast_lgamma': c_lgamma,
    D + 'fast_lgamma_nu': c_lgamma_nu, D + 'fast_log_factorial': c_log_factorial,
}

# ------------------------------------------------------------------ vector kernels
def elt(ex, st, p, i):
    if isinstance(p, CondV):
        return tm.ite(p.c, elt(ex, st, p.a, i), elt(ex, st, p.b, i))
    return ex.load(st, p.lv).get(tm.add(p.off, i))
def region(ex, st, p, n):
    if isinstance(p, CondV):
        region(ex, st.copy().assume(p.c), p.a, n)
        region(ex, st.copy().assume(tm.not_(p.c)), p.b, n)
        return
    if not isinstance(p, Ptr) or p.lv is None or p.off is None:
        raise Unsupported('region')
    v = ex.load(st, p.lv)
    # an empty region may start anywhere
    ex.obl('region in bounds', st, tm.or_(tm.eq(n, tm.iv(0)), tm.and_(tm.le(tm.iv(0), p.off), tm.le(tm.add(p.off, n), v.n))))
def write(ex, st, p, n, f):
    if isinstance(p, CondV):
        raise Unsupported('conditional output')
    region(ex, st, p, n)
    v = ex.load(st, p.lv)
    j = tm.fresh('b', 'I')
    k = tm.sub(j, p.off)
    g = tm.and_(tm.le(tm.iv(0), k), tm.lt(k, n))
    ex.store(st, p.lv, Vec(v.n, j, tm.ite(g, f(k), v.get(j)), v.ety))
def kernel(fn, nin):
    """io[i] = fn(io[i], in...[i])"""
    def h(ex, st, f, this, a, fr, e):
        n, io, ins = a[0], a[1], a[2:]
        for p in ins:
            if not isinstance(p, T): region(ex, st, p, n)
        s0 = st.copy()
        def at(k):
            return fn(elt(ex, s0, io, k), *[p if isinstance(p, T) else elt(ex, s0, p, k) for p in ins])
        write(ex, st, io, n, at)
        return None
    return h
def mapk(fn, dom=None):
    """out[i] = fn(in[i]); in place with two parameters"""
    def h(ex, st, f, this, a, fr, e):
        n = a[0]
        src, dst = (a[1], a[1]) if len(a) == 2 else (a[1], a[2])
        region(ex, st, src, n)
        s0 = st.copy()
        if dom is not None and ex.record:
            k = tm.fresh('i', 'I')
            ex.obl('domain: %s argument positive' % dom, st, tm.lt(tm.iv(0), elt(ex, s0, src, k)), (tm.le(tm.iv(0), k), tm.lt(k, n)))
        write(ex, st, dst, n, lambda k: fn(elt(ex, s0, src, k)))
        return None
    return h
def reduce_(fn):
    def h(ex, st, f, this, a, fr, e):
        n = a[0]
        for p in a[1:]: region(ex, st, p, n)
        s0 = st.copy()
        return tm.sum_range(tm.iv(0), n, lambda k: fn(*[elt(ex, s0, p, k) for p in a[1:]]))
    return h
def extremum(sign):
    def h(ex, st, f, this, a, fr, e):
        n, p = a
        ex.obl('nonempty input', st, tm.lt(tm.iv(0), n))
        region(ex, st, p, n)
        s0 = st.copy()
        j = tm.fresh('j', 'I')
        return tm.scale(tm.bmax(j, tm.and_(tm.le(tm.iv(0), j), tm.lt(j, n)), tm.scale(elt(ex, s0, p, j), sign)), sign)
    return h
KERNELS = {
    D + 'vector_zero': kernel(lambda x: tm.rv(0), 0),
    D + 'vector_shift': kernel(lambda x, s: tm.add(x, s), 1),
    D + 'vector_scale': kernel(lambda x, s: tm.mul(x, s), 1),
    D + 'vector_negate': kernel(lambda x: tm.scale(x, -1), 0),
    D + 'vector_add': kernel(lambda x, a: tm.add(x, a), 1),
    D + 'vector_negate_and_add': kernel(lambda x, a: tm.sub(a, x), 1),
    D + 'vector_add_add': kernel(lambda x, a, b: tm.add(x, a, b), 2),
    D + 'vector_add_subtract': kernel(lambda x, a, b: tm.sub(tm.add(x, a), b), 2),
    D + 'vector_multiply_add': kernel(lambda x, a, b: tm.add(x, tm.mul(a, b)), 2),
    D + 'vector_exp': mapk(tm.EXP), D + 'vector_log': mapk(tm.LOG, 'log'),
    D + 'vector_lgamma': mapk(tm.LGAMMA, 'lgamma'), D + 'vector_lgamma_nu': mapk(lgamma_nu, 'lgamma_nu'),
    D + 'vector_sum': reduce_(lambda x: x), D + 'vector_dot': reduce_(lambda x, y: tm.mul(x, y)),
    D + 'vector_min': extremum(-1), D + 'vector_max': extremum(1),
}

# ------------------------------------------------------------------ discrete sampling (bodies: C10)
def c_scores_to_likelihoods(ex, st, f, this, a, fr, e):
    """scores := exp(scores - max); returns their sum"""
    lv = a[0]
    v = ex.load(st, lv)
    ex.obl('nonempty input', st, tm.lt(tm.iv(0), v.n))
    j = tm.fresh('j', 'I')
    m = tm.bmax(j, tm.and_(tm.le(tm.iv(0), j), tm.lt(j, v.n)), v.get(j))
    b = tm.fresh('b', 'I')
    ex.store(st, lv, Vec(v.n, b, tm.EXP(tm.sub(v.get(b), m)), v.ety))
    return tm.sum_range(tm.iv(0), v.n, lambda i: tm.EXP(tm.sub(v.get(i), m)))
def c_sample_from_likelihoods(ex, st, f, this, a, fr, e):
    """the index at which the cumulative weight first reaches total times a uniform draw"""
    v = val(ex, st, a[1])
    tot = val(ex, st, a[2]) if len(a) > 2 else tm.sum_range(tm.iv(0), v.n, lambda i: v.get(i))
    ex.obl('nonempty input', st, tm.lt(tm.iv(0), v.n))
    import stdlib
    u = stdlib.dist_draw(ex, st, stdlib.dist_ctor(ex, 'std::uniform_real_distribution<float>', []))
    t = tm.mul(tot, u)
    pre = lambda i: tm.sum_range(tm.iv(0), i, lambda k: v.get(k))
    nm = 'sampled@%s' % '/'.join(str(c) for c in ((e or {}).get('id'),) + (fr.cid if fr else ()))
    r = tm.app(nm, ex.loopvars, 'I') if ex.loopvars else tm.var(nm, 'I')
    st.assume(tm.and_(tm.le(tm.iv(0), r), tm.lt(r, v.n)))
    st.assume(tm.or_(tm.eq(r, tm.sub(v.n, tm.iv(1))), tm.le(t, pre(tm.add(r, tm.iv(1))))))
    if not ex.loopvars:
        ex.ax.all_int(lambda j: tm.implies(tm.and_(tm.le(tm.iv(0), j), tm.lt(j, r)), tm.le(pre(tm.add(j, tm.iv(1))), t)))
    return r
DISCRETE = {D + 'scores_to_likelihoods': c_scores_to_likelihoods, D + 'sample_from_likelihoods': c_sample_from_likelihoods}

def install(ex, skip=()):
    for d in (TRUSTED, KERNELS):
        for k, h in d.items():
            if k not in skip:
                ex.contracts[k] = h
