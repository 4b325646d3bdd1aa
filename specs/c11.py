"""C11: special functions.  Everywhere else the fast approximations are used
through the contracts of vcg/contracts.py (LOG, EXP, LGAMMA ...); here their
bodies are checked: table indices for every argument, and the error against
the mathematical function over the whole domain, piece by piece."""
from common import *
import contracts
from fractions import Fraction as F
I, R = tm.iv, tm.rv
GLOBALS = D + 'detail::GLOBAL_FAST_LOG_14'
TOL_LOG = F(2, 2**14)
B23 = 1 << 23

def declared(name, *skip):
    """environment in which the bodies of the approximations run"""
    e = Env(name, skip=set(skip) | {D + 'fast_log', D + 'eric_log'})
    e.ex.run_constructor.add(GLOBALS)
    return e
def real_float(e, x, k, kint=None):
    """x = 2^k (1 + m/2^23), a positive normal float, and its bits"""
    m = tm.var('m', 'I')
    e.ex.bounds[m] = (0, B23 - 1)
    e.require(tm.le(Z, m), tm.le(m, I(B23 - 1)))
    e.ex.bitsof = lambda v: tm.add(tm.scale(k, B23), I(127 * B23), m) if v == x else tm.app('bits:float', (v,), 'I')
    return m
def num_log2(e):
    l2 = tm.LOG(I(2))
    c = F(6931471805599453094172, 10**22)
    e.require(tm.le(R(c), l2), tm.le(l2, R(c + F(1, 10**21))))
    return l2

def fast_log_value():
    e = declared('fast_log')
    x, k = e.value('x', ('float',)), tm.var('k', 'I')
    e.ex.bounds[k] = (-126, 127)
    e.require(tm.le(I(-126), k), tm.le(k, I(127)))
    m = real_float(e, x, k)
    r = e.call('fast_log', None, x, body=True)
    l2 = num_log2(e)
    i = e.ex.shr(m, 9)
    u = tm.add(R(1), tm.scale(tm.toreal(m), F(1, B23)))
    v = tm.add(R(1), tm.scale(tm.toreal(i), F(1, 2**14)))
    # concavity of the logarithm between the grid point and the argument
    e.require(tm.le(tm.LOG(v), tm.LOG(u)), tm.le(tm.sub(tm.LOG(u), tm.LOG(v)), tm.sub(u, v)))
    e.require(tm.le(Z, tm.LOG(v)), tm.le(tm.LOG(v), l2))
    exact = tm.add(tm.mul(tm.toreal(k), l2), tm.LOG(u))
    e.ensure('not above the logarithm by more than rounding of the constant', tm.le(r, tm.add(exact, R(F(1, 10**5)))))
    e.ensure('not below the logarithm by more than the grid', tm.le(tm.sub(exact, R(F(1, 2**14) + F(1, 10**5))), r))
    return e
def fast_log_index():
    """every 32-bit pattern, NaN, infinities, negatives and subnormals included"""
    e = declared('fast_log')
    x, b = e.value('x', ('float',)), tm.var('b', 'I')
    e.ex.bounds[b] = (-2**31, 2**31 - 1)
    e.require(tm.le(I(-2**31), b), tm.le(b, I(2**31 - 1)))
    e.ex.bitsof = lambda v: b
    e.call('fast_log', None, x, body=True)
    return e

# ---- log-gamma: one obligation per power of two
def tol_lgamma(y):
    return tm.add(R(F(2, 10**5)), tm.scale(tm.LGAMMA(y), F(1, 10**5)))
def piece(fname, k, lo, hi, exact, tol):
    """arguments 2^k <= y < 2^(k+1) (cut to the domain [lo, hi])"""
    e = declared('%s on [2^%d, 2^%d[' % (fname, k, k + 1), D + fname)
    y = e.value('y', ('float',))
    a, b = max(F(2)**k, lo), min(F(2)**(k + 1), hi) - F(2)**(k - 23)        # the largest float below
    e.require(tm.le(R(a), y), tm.le(y, R(b)))
    real_float(e, y, I(k))
    r = e.call(fname, None, y, body=True)
    e.accurate('%s within tolerance on [%s, %s]' % (fname, float(a), float(b)), simplify(e, r), exact(y), tol(y), y, a, b)
    return e
def simplify(e, r):
    """entries of constant tables by value; branches decided by the interval"""
    def entry(f):
        vals = e.ex.const_tables[f]
        return lambda i: vals[int(i.args)] if i.op == 'num' and 0 <= int(i.args) < len(vals) else tm.app(f, (i,), 'R')
    return tm.replace_apps(r, {f: entry(f) for f in e.ex.const_tables})
DOM = F(2**32)               # 4294967295.0f
def lgamma_pieces(ks):
    return lambda: [piece('fast_lgamma', k, F(5, 2), DOM, tm.LGAMMA, tol_lgamma) for k in ks]
def tol_nu(y): return R(F(16, 1000))
def nu_pieces(ks):
    return lambda: [piece('fast_lgamma_nu', k, F(1, 16), DOM, contracts.lgamma_nu, tol_nu) for k in ks]
def outside(fname, exact, lo):
    """below and above the table the library function itself is returned"""
    def run():
        out = []
        for side in ('below', 'above'):
            e = declared('%s %s the table' % (fname, side), D + fname)
            y = e.value('y', ('float',))
            e.require(*([tm.lt(Z, y), tm.lt(y, R(lo))] if side == 'below' else [tm.le(R(DOM), y)]))
            r = e.call(fname, None, y, body=True)
            e.ensure('%s is exact %s its table' % (fname, side), tm.eq(r, exact(y)))
            out.append(e)
        return out
    return run
def log_factorial():
    e = declared('fast_log_factorial', D + 'fast_log_factorial')
    n = e.value('n', 'uint32_t')
    # the loop-free body is run once for each table entry, once for the rest
    r = e.call('fast_log_factorial', None, n, body=True)
    e.require(tm.le(I(64), n))
    e.ensure('log-factorial of n >= 64 is log-gamma of n + 1', tm.eq(r, tm.LGAMMA(tm.add(tm.toreal(n), R(1)))))
    out = [e]
    for i in range(64):
        e = declared('fast_log_factorial(%d)' % i, D + 'fast_log_factorial')
        r = e.call('fast_log_factorial', None, I(i), body=True)
        x = tm.var('x', 'R')
        e.accurate('fast_log_factorial(%d)' % i, simplify(e, r), tm.LGAMMA(R(i + 1)), R(F(1, 10**5)), x, 1, 2)
        out.append(e)
    return out

# ---- functions defined from these
def derived():
    out = []
    def pos(e, *ns):
        vs = [e.value(n, ('float',)) for n in ns]
        for v in vs: e.require(tm.lt(Z, v))
        return vs
    lg = tm.LGAMMA
    for f in ('log_beta', 'fast_log_beta'):
        e = Env(f)
        a, b = pos(e, 'alpha', 'beta')
        r = e.call(f, None, a, b, body=True)
        e.ensure('%s is the combination of log-gammas' % f, tm.eq(r, tm.sub(tm.add(lg(a), lg(b)), lg(tm.add(a, b)))))
        out.append(e)
    for f in ('log_binom', 'fast_log_binom'):
        e = Env(f)
        n, k = [e.value(x, ('float',)) for x in ('N', 'k')]
        e.require(tm.le(Z, k), tm.le(k, n))
        r = e.call(f, None, n, k, body=True)
        one = R(1)
        e.ensure('%s is the combination of log-gammas' % f, tm.eq(r, tm.sub(lg(tm.add(n, one)), tm.add(lg(tm.add(k, one)), lg(tm.add(tm.sub(n, k), one))))))
        out.append(e)
    for f in ('log_sum_exp', 'fast_log_sum_exp'):
        e = Env(f)
        x, y = [e.value(v, ('float',)) for v in ('x', 'y')]
        r = e.call(f, None, x, y, body=True)
        s = e.call(f, None, x, x, body=True)
        sum_ = lambda m, n: tm.add(m, tm.LOG(tm.add(R(1), tm.EXP(tm.sub(n, m)))))
        for a, b, t in ((x, y, 'first'), (y, x, 'second')):
            e.ensure('%s: %s argument larger' % (f, t), tm.eq(r, sum_(a, b)), [tm.lt(b, a)])
        e.ensure('%s of equal arguments' % f, tm.eq(s, tm.add(x, tm.LOG(R(2)))))
        # ... which is the logarithm of the sum of the exponentials
        e.ensure('%s: log(exp(x) + exp(y))' % f, tm.eq(tm.mul(tm.EXP(x), tm.add(R(1), tm.EXP(tm.sub(y, x)))), tm.add(tm.EXP(x), tm.EXP(y))))
        out.append(e)
    return out
def lmultigamma():
    e = Env('lmultigamma')
    d, a = e.value('d', 'unsigned'), e.value('a', ('float',))
    e.require(tm.le(I(1), d), tm.lt(d, I(65536)), tm.lt(tm.scale(tm.sub(tm.toreal(d), R(1)), F(1, 2)), a))
    r = e.call('lmultigamma', None, d, a, body=True)
    s = tm.sum_range(Z, d, lambda j: tm.LGAMMA(tm.sub(a, tm.scale(tm.toreal(j), F(1, 2)))))
    dd = tm.toreal(tm.mul(d, tm.sub(d, I(1))))
    logpi = tm.LOG(tm.app('PI', (), 'R'))        # literals within float rounding of a constant of pi stand for it
    e.ensure('lmultigamma: d(d-1)/4 log(pi) plus the sum of log-gammas', tm.eq(r, tm.add(tm.scale(tm.mul(dd, logpi), F(1, 4)), s)))
    return e
def stirling_approx():
    """rows beyond the exact ones: only the output row is written, end points exact"""
    e = Env('get_log_stirling1_row_approx')
    n = e.value('n', 'size_t')
    e.require(tm.le(I(32), n), tm.lt(n, I(2**31)))
    out = e.floats('row', tm.add(n, I(1)))
    # proved on its own body in 'derived functions'
    val = lambda ex, st, x: ex.load(st, x) if isinstance(x, (LV, LVCond)) else x
    e.ex.contracts[D + 'fast_log_sum_exp'] = lambda ex, st, f, this, a, fr, x: tm.app('LSE', [val(ex, st, y) for y in a], 'R')
    e.require(tm.le(R(1), tm.LOG(tm.add(tm.toreal(n), R(-1)))))        # n >= 32 > e + 1
    e.call('detail::get_log_stirling1_row_approx', None, n, Ptr(out, Z), body=True)
    w = e.get(out)
    e.ensure('row keeps its length', tm.eq(w.n, tm.add(n, I(1))))
    e.ensure('the last entry is log 1', tm.eq(w.get(n), R(0)))
    return e
WEIGHT = {'fast_lgamma_nu: accuracy on 2^%d..2^%d' % (k, k + 2): k for k in range(14, 32, 2)}
def jobs():
    js = [('fast_log: accuracy', fast_log_value), ('fast_log: table index for every bit pattern', fast_log_index)]
    ks = list(range(1, 32))
    for i in range(0, len(ks), 4):
        js.append(('fast_lgamma: accuracy on 2^%d..2^%d' % (ks[i], ks[i:i + 4][-1] + 1), lgamma_pieces(ks[i:i + 4])))
    ks = list(range(-4, 32))
    for i in range(0, len(ks), 2):
        js.append(('fast_lgamma_nu: accuracy on 2^%d..2^%d' % (ks[i], ks[i:i + 2][-1] + 1), nu_pieces(ks[i:i + 2])))
    js += [('fast_lgamma outside its table', outside('fast_lgamma', tm.LGAMMA, F(5, 2))),
           ('fast_lgamma_nu outside its table', outside('fast_lgamma_nu', contracts.lgamma_nu, F(1, 16))),
           ('fast_log_factorial', log_factorial), ('derived functions', derived), ('lmultigamma', lmultigamma),
           ('Stirling rows beyond the exact ones', stirling_approx)]
    return js
