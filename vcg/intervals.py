"""Certified bounds of one-variable real terms over an interval: the back end
for accuracy obligations |implementation - definition| <= tolerance.

Every subinterval is decided with second-order Taylor forms in interval
arithmetic (mpmath iv, 80 bits): f(x) is in f(m) + f'(m) [-r,r] + f''(box) [0,r^2/2].
Special functions are bounded through their monotone derivatives (polygamma),
evaluated at the end points and widened by 2^-60."""
import mpmath as mp
from mpmath import iv
import term as tm
mp.mp.prec = 100
iv.prec = 80
EPS = mp.mpf(2) ** -60

class Undecided(Exception):
    pass
def wide(lo, hi):
    e = EPS * (1 + max(abs(lo), abs(hi)))
    return iv.mpf([lo - e, hi + e])
def ends(x):
    return mp.mpf(x.a), mp.mpf(x.b)
def inc(f, x):
    a, b = ends(x)
    return wide(f(a), f(b))
def dec(f, x):
    a, b = ends(x)
    return wide(f(b), f(a))
def pos(x):
    if not ends(x)[0] > 0: raise Undecided('argument not known positive')
def fn_log(x):
    pos(x)
    return inc(mp.log, x), 1 / x, -1 / (x * x)
def fn_exp(x):
    e = inc(mp.exp, x)
    return e, e, e
def fn_sqrt(x):
    pos(x)
    s = inc(mp.sqrt, x)
    return s, 1 / (2 * s), -1 / (4 * s * x)
def fn_lgamma(x):
    pos(x)
    a, b = ends(x)
    m = (a + b) / 2
    d1 = inc(mp.psi0 if hasattr(mp, 'psi0') else mp.digamma, x)
    g = mp.loggamma(m)
    v = wide(g, g) + d1 * iv.mpf([-(b - a) / 2, (b - a) / 2])
    return v, d1, dec(lambda t: mp.psi(1, t), x)
FUNS = {'LOG': fn_log, 'EXP': fn_exp, 'SQRT': fn_sqrt, 'LGAMMA': fn_lgamma}

class Jet:
    """value, first and second derivative"""
    __slots__ = ('v', 'd', 'e')
    def __init__(self, v, d=0, e=0):
        self.v, self.d, self.e = v, iv.mpf(d), iv.mpf(e)
def jadd(a, b): return Jet(a.v + b.v, a.d + b.d, a.e + b.e)
def jscale(a, c): return Jet(a.v * c, a.d * c, a.e * c)
def jmul(a, b): return Jet(a.v * b.v, a.d * b.v + a.v * b.d, a.e * b.v + 2 * a.d * b.d + a.v * b.e)
def japp(a, f):
    v, d, e = f(a.v)
    return Jet(v, d * a.d, e * a.d * a.d + d * a.e)
def recip(x):
    lo, hi = ends(x)
    if lo <= 0 <= hi: raise Undecided('division by an interval containing zero')
    return 1 / x, -1 / (x * x), 2 / (x * x * x)
def frac(q):
    return iv.mpf(q.numerator) / iv.mpf(q.denominator)

class Evaluator:
    def __init__(self, var, tables):
        self.var, self.tables = var, tables
    def at(self, t, x, thin):
        memo = {}
        def go(t):
            r = memo.get(t)
            if r is None:
                r = memo[t] = go1(t)
            return r
        def go1(t):
            if t.op == 'num': return Jet(frac(t.args))
            if t == self.var: return Jet(x, 1)
            d, c = tm.lin(t)
            if not (len(d) == 1 and list(d)[0] == t and not c):
                r = Jet(frac(c))
                for k, w in d.items(): r = jadd(r, jscale(go(k), frac(w)))
                return r
            if t.op == '*':
                r = None
                for y in t.args:
                    z = go(y)
                    r = z if r is None else jmul(r, z)
                return r
            if t.op == '/': return jmul(go(t.args[0]), japp(go(t.args[1]), recip))
            if t.op == 'ite':
                c = self.cond(t.args[0], go)
                return go(t.args[1] if c else t.args[2])
            if t.op == 'app':
                f = t.args[0]
                a = t.args[1:]
                if f in FUNS and len(a) == 1: return japp(go(a[0]), FUNS[f])
                if f in self.tables and len(a) == 1 and a[0].op == 'num':
                    return go(self.tables[f][int(a[0].args)])
            raise Undecided('term %s' % tm.show(t)[:80])
        return go(t)
    def cond(self, c, go):
        if c.op == 'not': return not self.cond(c.args[0], go)
        if c.op in ('le0', 'lt0', 'eq0'):
            lo, hi = ends(go(c.args[0]).v)
            if c.op == 'le0':
                if hi <= 0: return True
                if lo > 0: return False
            elif c.op == 'lt0':
                if hi < 0: return True
                if lo >= 0: return False
            elif lo > 0 or hi < 0: return False
        if c is tm.TRUE or c is tm.FALSE: return c is tm.TRUE
        if c.op in ('and', 'or'):
            rs = [self.cond(x, go) for x in c.args]
            return all(rs) if c.op == 'and' else any(rs)
        raise Undecided('condition %s' % tm.show(c)[:80])

def decide(err, tol, var, lo, hi, tables, budget=20000):
    """|err(x)| <= tol(x) for every x in [lo, hi]: ('proved', boxes),
    ('refuted', x, err, tol) or ('unknown', why)"""
    ev = Evaluator(var, tables)
    lo, hi = mp.mpf(lo.numerator) / lo.denominator, mp.mpf(hi.numerator) / hi.denominator
    # start from geometric pieces
    n = 8
    cuts = [lo + (hi - lo) * i / n for i in range(n + 1)]
    work = [(cuts[i], cuts[i + 1]) for i in range(n)]
    boxes = 0
    while work:
        a, b = work.pop()
        boxes += 1
        if boxes > budget: return 'unknown', 'budget of %d intervals' % budget
        m, r = (a + b) / 2, (b - a) / 2
        try:
            j0 = ev.at(err, iv.mpf(m), True)
            t0 = ev.at(tol, iv.mpf(m), True)
            if ends(abs(j0.v))[0] > ends(t0.v)[1]:
                return 'refuted', float(m), float(ends(j0.v)[0]), float(ends(t0.v)[1])
        except Undecided as ex:
            return 'unknown', str(ex)
        try:
            box = iv.mpf([a, b])
            jb = ev.at(err, box, False)
            e = j0.v + j0.d * iv.mpf([-r, r]) + jb.e * iv.mpf([0, r * r / 2])
            tb = ev.at(tol, box, False)
            if max(abs(ends(e)[0]), abs(ends(e)[1])) <= ends(tb.v)[0]: continue
        except Undecided as ex:
            if b - a < abs(m) * mp.mpf(2) ** -40: return 'unknown', str(ex)
        if b - a < abs(m) * mp.mpf(2) ** -40: return 'unknown', 'tolerance met with equality near %s' % mp.nstr(m, 10)
        work += [(a, m), (m, b)]
    return 'proved', boxes
