"""C15, bounded: the pure-Python reference models against closed forms written here
from the papers they cite, in double precision, on random parameters and data, and
their samplers against their own predictive distribution.  The Python 2 sources are
translated by lib2to3, as the build does."""
import os, sys
if sys.executable != '/usr/bin/python3':           # the interpreter with SciPy
    os.execv('/usr/bin/python3', ['/usr/bin/python3', os.path.abspath(__file__)] + sys.argv[1:])
import warnings; warnings.simplefilter('ignore')
import math, random, shutil, tempfile, time, traceback
from math import log
REPO = os.environ.get('DIST_REPO', '/repo')
seed, secs = int(sys.argv[1]), float(sys.argv[2])
t0 = time.time()
os.environ['NUMPY_EXPERIMENTAL_DTYPE_API'] = '1'
import numpy as np
np.float = float; np.int = int
from scipy import stats
from scipy.special import gammaln, multigammaln
tmp = tempfile.mkdtemp(prefix='c15')
cases, fails = 0, 0
def case(s):
    global cases
    cases += 1
    print('CASE ' + s, flush=False)
def fail(s):
    global fails
    fails += 1
    print('CASE-FAIL ' + s)
def translate():
    from lib2to3 import refactor
    tool = refactor.RefactoringTool(refactor.get_fixers_from_package('lib2to3.fixes'))
    src = os.path.join(REPO, 'distributions')
    for rel in ['__init__.py', 'mixins.py', 'util.py', 'dbg', 'vendor']:
        p = os.path.join(src, rel)
        fs = [p] if p.endswith('.py') else [os.path.join(a, f) for a, _, c in os.walk(p) for f in c if f.endswith('.py')]
        for f in fs:
            out = os.path.join(tmp, 'distributions', os.path.relpath(f, src))
            os.makedirs(os.path.dirname(out), exist_ok=True)
            text = open(f, encoding='utf8').read() + '\n'
            open(out, 'w', encoding='utf8').write(str(tool.refactor_string(text, f)))
    sys.path.insert(0, tmp)
R = random.Random(seed)
U = R.uniform
def logu(a, b): return math.exp(U(log(a), log(b)))
def lbeta(a, b): return gammaln(a) + gammaln(b) - gammaln(a + b)
# ---- one description of a model each: parameters, values, closed forms
def plain(x):
    if isinstance(x, dict): return sorted((k, plain(v)) for k, v in x.items())
    return x.tolist() if hasattr(x, 'tolist') else x
class Message(object):
    """stands in for a protobuf message: scalar fields and repeated fields"""
    def Clear(self): self.__dict__.clear()
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        self.__dict__[n] = []
        return self.__dict__[n]
class M:
    tol = 1e-9
    def known(self, s): return True
    def stats(self, g): return {k: v for k, v in vars(g).items()}
class BB(M):
    name = 'bb'
    def params(self): return dict(alpha=logu(.01, 100), beta=logu(.01, 100))
    def value(self, s): return R.random() < .5
    def data(self, s, d): return lbeta(s['alpha'] + sum(d), s['beta'] + len(d) - sum(d)) - lbeta(s['alpha'], s['beta'])
    def support(self, s): return [True, False]
class BNB(M):
    name = 'bnb'
    def params(self): return dict(alpha=logu(.5, 50), beta=logu(.1, 20), r=R.randint(1, 20))
    def value(self, s): return R.choice([0, 1, R.randint(0, 9), R.randint(0, 500)])
    def data(self, s, d): return lbeta(s['alpha'] + s['r'] * len(d), s['beta'] + sum(d)) - lbeta(s['alpha'], s['beta'])
    def mass(self, s, v): return gammaln(s['r'] + v) - gammaln(s['r']) - gammaln(v + 1)   # the binomial coefficient is not in the score
    def support(self, s): return range(60)
class GP(M):
    name = 'gp'
    def params(self): return dict(alpha=logu(.1, 50), inv_beta=logu(.05, 20))
    def value(self, s): return R.choice([0, 1, R.randint(0, 9), R.randint(0, 120)])
    def data(self, s, d):
        a, b = s['alpha'] + sum(d), s['inv_beta'] + len(d)
        return gammaln(a) - gammaln(s['alpha']) + s['alpha'] * log(s['inv_beta']) - a * log(b) - sum(gammaln(v + 1) for v in d)
    def support(self, s): return range(60)
class NICH(M):
    name, tol = 'nich', 1e-6
    def params(self): return dict(mu=U(-10, 10), kappa=logu(.05, 20), sigmasq=logu(.05, 20), nu=logu(.5, 20))
    def value(self, s): return R.choice([U(-10, 10), R.gauss(s['mu'], 1), s['mu'], 0.])
    def data(self, s, d):
        n = len(d)
        m = sum(d) / n if n else 0.
        ss = sum((x - m) ** 2 for x in d)
        k, nu = s['kappa'] + n, s['nu'] + n
        a, b = s['nu'] * s['sigmasq'], s['nu'] * s['sigmasq'] + ss + (n * s['kappa'] * (m - s['mu']) ** 2 / k if n else 0)
        return gammaln(nu / 2) - gammaln(s['nu'] / 2) + .5 * log(s['kappa'] / k) + s['nu'] / 2 * log(a) - nu / 2 * log(b) - n / 2 * log(math.pi)
class DD(M):
    name = 'dd'
    def params(self):
        n = R.choice([1, 2, 3, 10, 40])
        return dict(alphas=[logu(.05, 20) for _ in range(n)])
    def value(self, s): return R.randrange(len(s['alphas']))
    def data(self, s, d):
        a = s['alphas']
        t = sum(a)
        return sum(gammaln(x + d.count(i)) - gammaln(x) for i, x in enumerate(a)) + gammaln(t) - gammaln(t + len(d))
    def support(self, s): return range(len(s['alphas']))
class DPD(M):
    name = 'dpd'
    def params(self):
        n = R.randint(1, 8)
        w = [.05 + R.random() for _ in range(n + 1)]
        k = R.sample(range(R.choice([10, 10**6, 2**32 - 1])), n)
        t = sum(w)
        return dict(gamma=logu(.1, 5), alpha=logu(.1, 20), betas={x: y / t for x, y in zip(k, w)}, counts={x: R.choice([1, 1, 2, 7]) for x in k})
    def value(self, s): return R.choice(sorted(s['betas']))
    def data(self, s, d):
        a = s['alpha']
        return sum(gammaln(a * b + d.count(v)) - gammaln(a * b) for v, b in s['betas'].items()) + gammaln(a) - gammaln(a + len(d))
    def support(self, s): return sorted(s['betas'])
class NIW(M):
    name, tol = 'niw', 1e-6
    def params(self):
        d = R.choice([1, 2, 3, 5])
        a = np.array([[R.gauss(0, 1) for _ in range(d)] for _ in range(d)])
        return dict(mu=np.array([U(-3, 3) for _ in range(d)]), kappa=logu(.1, 20), psi=a.dot(a.T) + logu(.1, 5) * np.eye(d), nu=d + logu(.1, 20))
    def value(self, s): return np.array([R.gauss(0, 2) for _ in s['mu']])
    def data(self, s, d):
        D, n = len(s['mu']), len(d)
        x = np.array(d).reshape((n, D))
        m = x.mean(0) if n else np.zeros(D)
        psi = s['psi'] + sum(np.outer(v - m, v - m) for v in x) + (s['kappa'] * n / (s['kappa'] + n)) * np.outer(m - s['mu'], m - s['mu'])
        nu = s['nu'] + n
        ld = lambda m: np.linalg.slogdet(m)[1]
        return multigammaln(nu / 2, D) - multigammaln(s['nu'] / 2, D) + s['nu'] / 2 * ld(s['psi']) - nu / 2 * ld(psi) - n * D / 2 * log(math.pi) + D / 2 * log(s['kappa'] / (s['kappa'] + n))
MODELS = [BB(), BNB(), GP(), NICH(), DD(), DPD(), NIW()]
def close(a, b, tol, scale=1.): return abs(a - b) <= tol * (10 + abs(a) + abs(b) + scale)
def same(m, what, a, b, scale):
    a, b = m.stats(a), m.stats(b)
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if isinstance(x, dict) and isinstance(y, dict): ok = x == y
        else:
            try: ok = bool(np.all(np.abs(np.asarray(x, float) - np.asarray(y, float)) <= 1e-7 * scale))
            except Exception: ok = False
        if not ok: fail('%s: %s: %s is %r, expected %r' % (m.name, what, k, x, y))
def show(s, d): return ('%s data %s' % (s, d)).replace('\n', ' ')[:600]
def one(m, mod):
    s = m.params()
    d = [m.value(s) for _ in range(R.choice([0, 0, 1, 1, 2, 3, 5, 12]))]
    case('%s %s' % (m.name, show(s, d)))
    sh = mod.Shared.from_dict(s)
    mk = lambda vs: mod.Group.from_values(sh, vs)
    g = mk(d)
    scale = 10. + sum(float(np.sum(np.square(np.asarray(v, float)))) if m.name in ('nich', 'niw') else 0. for v in d)
    w = m.data(s, d)
    def is_(what, a, b, k=1):
        if not close(float(a), float(b), m.tol * k, math.log(scale) * len(d)): fail('%s: %s is %.12g, expected %.12g for %s' % (m.name, what, a, b, show(s, d)))
    is_('score_data', g.score_data(sh), w)
    is_('score_data of an empty group', mk([]).score_data(sh), 0)
    v = m.value(s)
    before = g.dump()
    want = m.data(s, d + [v]) - w
    is_('score_value(%s)' % (v,), g.score_value(sh, v), want)
    if repr(before) != repr(g.dump()): fail('%s: scoring changed the group' % m.name)
    # any order, several ways
    e = d[:]; R.shuffle(e)
    same(m, 'another order', mk(e), g, scale)
    k = R.randrange(len(d) + 1)
    a, b = mk(d[:k]), mk(d[k:])
    a.merge(sh, b); same(m, 'merge', a, g, scale)
    same(m, 'the source of a merge', b, mk(d[k:]), scale)
    h = mk(d); h.add_value(sh, v); h.remove_value(sh, v); same(m, 'add and remove', h, g, scale * 10)
    if d:
        h = mk(d); x = R.choice(range(len(d))); h.remove_value(sh, d[x]); same(m, 'remove', h, mk(d[:x] + d[x+1:]), scale * 10)
    n = R.randint(1, 6)
    h = mk(d); h.add_repeated_value(sh, v, n); same(m, 'add_repeated_value %d' % n, h, mk(d + [v] * n), scale * 30)
    h = mod.Group(); h.init(sh); same(m, 'init', h, mk([]), 1.)
    h = mod.Group.from_dict(g.dump()); same(m, 'load(dump)', h, g, scale)
    s2 = mod.Shared.from_dict(sh.dump())
    msg = Message(); mk(e + [v]).protobuf_dump(msg); g.protobuf_dump(msg)
    h = mk(d[:1]); h.protobuf_load(msg); same(m, 'load of a dumped message', h, g, scale)
    h = mk(d); h.add_repeated_value(sh, v, R.choice([100, 300, 70000])) if m.name not in ('gp', 'nich', 'niw') else None
    same(m, 'load(dump)', mod.Group.from_dict(h.dump()), h, scale)
    msg = Message(); mod.Shared.from_dict(m.params()).protobuf_dump(msg); sh.protobuf_dump(msg)
    s3 = mod.Shared(); s3.protobuf_load(msg)
    for a, b, what in ((s2, sh, 'load(dump)'), (s3, sh, 'load of a dumped message')):
        if repr(plain(a.dump())) != repr(plain(b.dump())): fail('%s: %s of the parameters %s gives %s' % (m.name, what, sh.dump(), a.dump()))
    is_('score_value with the parameters loaded from a message', g.score_value(s3, v), want)
    is_('score_value with the reloaded parameters', mod.Group.from_dict(g.dump()).score_value(s2, v), want)
    if m.name in ('bb', 'dd', 'dpd'):
        p = sum(math.exp(g.score_value(sh, x)) for x in m.support(s)) + (math.exp(g.score_value(sh, 0xFFFFFFFF)) if m.name == 'dpd' else 0)
        if abs(p - 1) > 1e-9: fail('%s: predictive probabilities sum to %.12g for %s' % (m.name, p, show(s, d)))
def samples(m, mod):
    """6.5 standard deviations of the empirical distribution"""
    s = m.params()
    if m.name == 'niw': s['nu'] += 1
    d = [m.value(s) for _ in range(R.choice([0, 1, 4]))]
    if R.random() < .4: d = d * 4
    case('%s sampler %s' % (m.name, show(s, d)))
    np.random.seed(R.randrange(2**31))
    sh = mod.Shared.from_dict(s); g = mod.Group.from_values(sh, d)
    n = 600
    xs = [g.sample_value(sh) for _ in range(n)]
    if m.name == 'nich':
        ps = [(x, stats.t.cdf) for x in xs]
        N = len(d); mean = sum(d) / N if N else 0
        k, nu = s['kappa'] + N, s['nu'] + N
        mu = (s['kappa'] * s['mu'] + sum(d)) / k
        v = (s['nu'] * s['sigmasq'] + sum((x - mean) ** 2 for x in d) + (s['kappa'] * N * (mean - s['mu']) ** 2 / k if N else 0)) / nu
        u = stats.t.cdf((np.array(xs) - mu) / math.sqrt(v * (k + 1) / k), nu)
    elif m.name == 'niw':
        D, N = len(s['mu']), len(d)
        x = np.array(d).reshape((N, D)); mean = x.mean(0) if N else np.zeros(D)
        k, nu = s['kappa'] + N, s['nu'] + N
        mu = (s['kappa'] * s['mu'] + x.sum(0)) / k
        psi = s['psi'] + sum(np.outer(v - mean, v - mean) for v in x) + s['kappa'] * N / k * np.outer(mean - s['mu'], mean - s['mu'])
        dof = nu - D + 1
        c = np.array([R.gauss(0, 1) for _ in range(D)])               # a linear functional of a multivariate t
        u = stats.t.cdf(np.array([c.dot(y - mu) for y in xs]) / math.sqrt(c.dot(psi).dot(c) * (k + 1) / (k * dof)), dof)
    else:
        other = 0
        for x in list(m.support(s)) + ([0xFFFFFFFF] if m.name == 'dpd' else []):
            p = math.exp(g.score_value(sh, x) + (m.mass(s, x) if m.name == 'bnb' else 0))
            f = sum(1 for y in xs if y == x) / float(n)
            if abs(f - p) > 6.5 * math.sqrt(max(p * (1 - p), 0) / n) + 8. / n:
                fail('%s: %s is sampled with frequency %.4g, probability %.4g for %s' % (m.name, x, f, p, show(s, d)))
        return
    z = abs(u.mean() - .5) * math.sqrt(12 * n)
    w = abs(((u - .5) ** 2).mean() - 1 / 12.) * math.sqrt(180 * n)
    if z > 6.5 or w > 6.5: fail('%s: samples are %.1f and %.1f deviations from the predictive distribution for %s' % (m.name, z, w, show(s, d)))
def stick(mod):
    s = DPD().params()
    case('dpd stick %s' % s)
    np.random.seed(R.randrange(2**31))
    sh = mod.Shared.from_dict(s)
    def ok(what):
        t = sh.beta0 + sum(sh.betas.values())
        if abs(t - 1) > 1e-9 or sh.beta0 < 0 or min(list(sh.betas.values()) + [0]) < 0: fail('dpd: %s: the stick has mass %.12g, rest %.12g, for %s' % (what, t, sh.beta0, s))
        if set(sh.betas) != set(sh.counts) or any(c <= 0 for c in sh.counts.values()): fail('dpd: %s: weights %s, counts %s' % (what, sh.betas, sh.counts))
    ok('load')
    for _ in range(R.randint(1, 30)):
        if R.random() < .5 and sh.counts:
            v = R.choice(sorted(sh.counts)); sh.remove_value(v); ok('remove_value(%d)' % v)
        else:
            v = R.choice([R.randrange(12), R.randrange(2**32 - 1)]); c = sh.counts.get(v, 0); sh.add_value(v); ok('add_value(%d)' % v)
            if sh.counts[v] != c + 1: fail('dpd: add_value(%d): count %d after %d' % (v, sh.counts[v], c))
    if max(list(sh.betas) + [0]) < 2**31:
        sh.realize(); ok('realize')
        if sh.beta0 != 0: fail('dpd: realize leaves %g of the stick' % sh.beta0)
def lowentropy(L, table):
    N = R.choice([1, 2, 3, 5, 47, 48, 49, R.randint(1, 200), int(logu(2, 1e9))])
    m = L(N)
    case('LowEntropy %d' % N)
    post = lambda n: log(float(N) / n) * (.45 - .1 / n - .1 / N)
    def add(k, n, e):
        if k == 0: return -log(e) + (post(n + 1) if n + 1 < N else 0)
        return (k + 1) * log(k + 1.) - k * log(k)
    n = R.randrange(N); k = R.choice([0, 0, 1, 2, R.randint(0, n), R.randint(0, n), n]); k = min(k, n); e = R.choice([1, 1, 2, 10])
    bad = lambda what, a, b, tol: abs(a - b) > tol * (1 + abs(b)) and fail('LowEntropy(%d): %s is %.10g, expected %.10g' % (N, what, a, b))
    t = 2e-4 if k > 3000 else 1e-6
    bad('score_add_value(%d, 1, %d, %d)' % (k, n, e), m.score_add_value(k, 1, n, e), add(k, n, e), t)
    bad('score_remove_value(%d, 1, %d, %d)' % (k + 1, n + 1, e), m.score_remove_value(k + 1, 1, n + 1, e), -add(k, n, e), t)
    if N <= 10**5:
        cs, left = [], R.choice([N, R.randrange(N + 1)])
        while left:
            c = R.choice([1, R.randint(1, left)]); cs.append(c); left -= c
            if len(cs) > 60: break
        cs += [0] * R.randrange(3); R.shuffle(cs)
        n = sum(cs)
        z = table[n] if n < 48 else n * log(n) * (1 + .28269584 * n ** -.75)
        w = sum(c * log(c) for c in cs if c) - z
        if n and n != N: w += post(n) * (sum(1 for c in cs if c) - 1) + .061 * log(n) * (log(n) - log(N)) * (log(n) + log(N)) ** .75
        bad('score_counts(%s)' % cs, m.score_counts(cs), w, 1e-8)
    # a sampled assignment names its groups in order of appearance
    if N <= 300:
        np.random.seed(R.randrange(2**31))
        a = m.sample_assignments(R.randint(0, N)); top = 0
        for x in a:
            if not 0 <= x <= top: fail('LowEntropy(%d): sampled assignments %s' % (N, list(a)[:40]))
            top = max(top, x + 1)
def exact_table():
    """log sum over partitions of n of (n! / prod N_k!...) is tabulated in the sources; here exactly,
    Z(n) = sum over set partitions of prod N_k^N_k"""
    Z = [1]
    for n in range(1, 48):
        Z.append(sum(math.comb(n - 1, k - 1) * k ** k * Z[n - k] for k in range(1, n + 1)))
    return [log(z) for z in Z]
def main():
    try:
        translate()
        import importlib
        mods = {m.name: importlib.import_module('distributions.dbg.models.' + m.name) for m in MODELS}
        from distributions.dbg.clustering import LowEntropy
    except Exception:
        print('NOTE the Python models cannot be loaded: %s' % traceback.format_exc().replace('\n', ' | ')[-400:])
        print('CASES 0')
        return
    table = exact_table()
    print('LABEL Python reference models: scores against closed forms in double precision, samplers against the predictive distribution (%d s)' % secs)
    k = 0
    while (k < 40 or time.time() - t0 < secs) and fails < 20:
        for m in MODELS:
            try:
                one(m, mods[m.name])
                if k % 10 == 0: samples(m, mods[m.name])
            except Exception as ex: fail('%s raises %s: %s' % (m.name, type(ex).__name__, str(ex)[:200]))
        try:
            stick(mods['dpd'])
            for _ in range(5): lowentropy(LowEntropy, table)
        except Exception as ex: fail('raises %s: %s' % (type(ex).__name__, str(ex)[:200]))
        k += 1
    print('CASES %d' % cases)
try: main()
finally: shutil.rmtree(tmp, ignore_errors=True)
