"""Algebraic normal forms and the prover.

An identity a == b is proved by splitting on every condition the hypotheses
leave open and showing, in each feasible case, that the normal form of a - b is
zero.  Conditions are decided by z3 on the normal forms of both sides of every
comparison, with ground instances of the axioms of the uninterpreted symbols.

Normal-form rules (all on the domain of the functions involved):
  field axioms;  LOG(x y) = LOG x + LOG y;  LOG(EXP x) = x;  EXP(LOG x) = x
  EXP(x+y) = EXP x EXP y;  LGAMMA(x+1) = LGAMMA x + LOG x;  LGAMMA 1 = LGAMMA 2 = 0
  SQRT(x)^2 = x;
  finite sums: linearity, point removal, P(t+1) = P(t) + f(t) for prefix sums
  P, inclusion-exclusion for negated indicators.
"""
import math, time
from fractions import Fraction
import z3
from sympy import QQ, factorint
from sympy.polys.rings import ring as _ring
from sympy.polys.orderings import lex
import term as tm
from term import T

# ------------------------------------------------------------ polynomials
# monomial: tuple of (atom id, exponent); atoms are canonical terms
AT = {}
def aid(t):
    AT[t.id] = t
    return t.id
ONE = ()
def pconst(c):
    c = Fraction(c)
    return {ONE: c} if c else {}
def patom(t, e=1):
    return {((aid(t), e),): Fraction(1)}
def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r
def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for i, e in b:
        v = d.get(i, 0) + e
        if v:
            d[i] = v
        else:
            d.pop(i, None)
    return tuple(sorted(d.items()))
def pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r
def pscale(a, c):
    return {m: v * c for m, v in a.items()} if c else {}
PONE = {ONE: Fraction(1)}

class RF:
    __slots__ = ('n', 'd')
    def __init__(self, n, d=None):
        self.n = n
        self.d = d if d is not None else PONE
    def const(self):
        if self.poly():
            if not self.n:
                return Fraction(0)
            if len(self.n) == 1 and ONE in self.n:
                return self.n[ONE]
        return None
    def poly(self):
        return self.d is PONE or self.d == PONE

def rf_norm(n, d):
    if not n:
        return RF({})
    if len(d) == 1:
        (m, c), = d.items()
        if not m:
            return RF(pscale(n, 1 / c) if c != 1 else n)
    return RF(n, d)
def rf_add(a, b, s=1):
    if not b.n:
        return a
    if not a.n:
        return b if s == 1 else RF(pscale(b.n, s), b.d)
    if a.d == b.d:
        return rf_norm(padd(a.n, b.n, s), a.d)
    return rf_cancel(rf_norm(padd(pmul(a.n, b.d), pmul(b.n, a.d), s), pmul(a.d, b.d)))
def rf_mul(a, b):
    if a.poly() and b.poly():
        return RF(pmul(a.n, b.n))
    return rf_cancel(rf_norm(pmul(a.n, b.n), pmul(a.d, b.d)))
class Undecided(Exception):
    pass
def rf_div(a, b):
    if not b.n:
        raise Undecided('division by zero')
    return rf_cancel(rf_norm(pmul(a.n, b.d), pmul(a.d, b.n)))
RF0 = RF({})
RF1 = RF(PONE)
def rfc(c):
    return RF(pconst(c))
def rf_eq(a, b):
    return not rf_add(a, b, -1).n

# ---- sympy ring bridge for gcd and factorisation
def _to_ring(ps):
    ids = sorted(set(i for p in ps for m in p for i, _ in m))
    if not ids:
        ids = [-1]
    R = _ring(['a%d' % k for k in range(len(ids))], QQ, lex)[0]
    pos = {i: k for k, i in enumerate(ids)}
    out = []
    for p in ps:
        d = {}
        for m, c in p.items():
            e = [0] * len(ids)
            for i, x in m:
                e[pos[i]] = x
            d[tuple(e)] = QQ(c.numerator, c.denominator)
        out.append(R.from_dict(d))
    return ids, out
def _from_ring(ids, q):
    r = {}
    for e, c in q.terms():
        m = tuple((ids[k], x) for k, x in enumerate(e) if x)
        r[m] = Fraction(int(c.numerator), int(c.denominator))
    return r
def _clear_neg(p):
    """(poly with nonneg exponents, monomial) with p == poly * monomial"""
    ids = {}
    for m in p:
        for i, e in m:
            if e < 0:
                ids[i] = min(ids.get(i, 0), e)
    if not ids:
        return p, ONE
    mono = tuple(sorted(ids.items()))
    inv = tuple((i, -e) for i, e in mono)
    return {mmul(m, inv): c for m, c in p.items()}, mono

def _sqrt_reduce(p):
    """SQRT(a)^2 -> a"""
    for m in p:
        for i, e in m:
            t = AT[i]
            if t.op == 'app' and t.args[0] == 'SQRT' and (e >= 2 or e < 0):
                break
        else:
            continue
        break
    else:
        return None
    out = RF0
    for m, c in p.items():
        f = rfc(c)
        for i, e in m:
            t = AT[i]
            if t.op == 'app' and t.args[0] == 'SQRT' and (e >= 2 or e < 0):
                a = rf_of_term(t.args[1])
                q, r = divmod(e, 2)
                for _ in range(abs(q)):
                    f = rf_mul(f, a) if q > 0 else rf_div(f, a)
                if r:
                    f = rf_mul(f, RF({((i, 1),): Fraction(1)}))
            else:
                f = rf_mul(f, RF({((i, e),): Fraction(1)}))
        out = rf_add(out, f)
    return out

def rf_of_term(t):
    """canonical terms back to RF (atoms kept)"""
    if t.op == 'num':
        return rfc(t.args)
    if t.op == '+':
        r = rfc(t.args[1])
        for c, k in t.args[0]:
            r = rf_add(r, rf_mul(rfc(c), rf_of_term(k)))
        return r
    if t.op == '*':
        r = RF1
        for a in t.args:
            r = rf_mul(r, rf_of_term(a))
        return r
    if t.op == '/':
        return rf_div(rf_of_term(t.args[0]), rf_of_term(t.args[1]))
    return RF(patom(t))

_cancel = {}
def pkey(p):
    return frozenset(p.items())
def rf_cancel(a):
    if a.poly():
        r = _sqrt_reduce(a.n)
        return a if r is None else r
    k = (pkey(a.n), pkey(a.d))
    r = _cancel.get(k)
    if r is not None:
        return r
    rn, rd = _sqrt_reduce(a.n), _sqrt_reduce(a.d)
    if rn is not None or rd is not None:
        r = rf_div(rn or RF(a.n), rd or RF(a.d))
    else:
        n, mn = _clear_neg(a.n)
        d, md = _clear_neg(a.d)
        inv = tuple((i, -e) for i, e in md)
        # n*mn / (d*md)
        ex = mmul(mn, inv)
        if len(d) == 1:
            (m, c), = d.items()
            # keep EXP/plain atoms in the denominator unless everything divides
            full = {mmul(mmul(kk, ex), tuple((i, -e) for i, e in m)): v / c for kk, v in n.items()}
            n, d, ex = full, PONE, ONE
            n, mono = _clear_neg(n)
            posm = tuple((i, -e) for i, e in mono)
            if posm and not all(_is_exp(i) for i, _ in posm):
                ee = tuple((i, e) for i, e in posm if _is_exp(i))
                rest = tuple((i, e) for i, e in posm if not _is_exp(i))
                n = {mmul(kk, tuple((i, -e) for i, e in ee)): v for kk, v in n.items()}
                r = RF(n, {rest: Fraction(1)} if rest else None)
            elif posm:
                r = RF({mmul(kk, tuple((i, -e) for i, e in posm)): v for kk, v in n.items()})
            else:
                r = RF(n)
        else:
            pos = tuple((i, e) for i, e in ex if e > 0)
            neg = tuple((i, -e) for i, e in ex if e < 0)
            n = {mmul(kk, pos): v for kk, v in n.items()}
            d = {mmul(kk, neg): v for kk, v in d.items()}
            ids, (rn_, rd_) = _to_ring([n, d])
            g = rn_.gcd(rd_)
            rn_, rd_ = rn_.quo(g), rd_.quo(g)
            n, d = _from_ring(ids, rn_), _from_ring(ids, rd_)
            lead = d[min(d)]
            r = rf_norm(pscale(n, 1 / lead), pscale(d, 1 / lead))
            if not r.poly() and len(r.d) == 1:
                r = rf_cancel(r)
    _cancel[k] = r
    return r
def _is_exp(i):
    t = AT[i]
    return t.op == 'app' and t.args[0] == 'EXP'

_fac = {}
def pfactor(p):
    k = pkey(p)
    r = _fac.get(k)
    if r is not None:
        return r
    q, mono = _clear_neg(p)
    out = [({((i, 1),): Fraction(1)}, e) for i, e in mono]
    if len(q) == 1:
        (m, c), = q.items()
        const = c
        out += [({((i, 1),): Fraction(1)}, e) for i, e in m]
    else:
        ids, (rq,) = _to_ring([q])
        c, fs = rq.factor_list()
        const = Fraction(int(c.numerator), int(c.denominator))
        for f, e in fs:
            fp = _from_ring(ids, f)
            # primitive integer coefficients, positive leading coefficient
            den = 1
            for v in fp.values():
                den = den * v.denominator // math.gcd(den, v.denominator)
            g = 0
            for v in fp.values():
                g = math.gcd(g, int(v * den))
            s = Fraction(den, g)
            if fp[min(fp)] < 0:
                s = -s
            fp = pscale(fp, s)
            const /= s ** e
            out.append((fp, int(e)))
    r = (const, out)
    _fac[k] = r
    return r

# ------------------------------------------------------------ back to terms
def mono_t(m):
    fs = []
    ds = []
    for i, e in m:
        (fs if e > 0 else ds).extend([AT[i]] * abs(e))
    t = tm.mul(*fs) if fs else tm.iv(1)
    if ds:
        t = tm.div(t, tm.mul(*ds))
    return t
def poly_t(p):
    return tm.add(*[tm.scale(mono_t(m), c) for m, c in p.items()]) if p else tm.iv(0)
def rf_t(a):
    n = poly_t(a.n)
    return n if a.poly() else tm.div(n, poly_t(a.d))
def pfv(p):
    s = set()
    for m in p:
        for i, _ in m:
            s |= AT[i].fv
    return s

# ------------------------------------------------------------ z3 interface
class Stats:
    def __init__(self):
        self.z3_queries = 0
        self.z3_time = 0.0
        self.leaves = 0
STATS = Stats()
_zv = {}
_zf = {}
def zsort(s):
    return {'I': z3.IntSort(), 'R': z3.RealSort(), 'B': z3.BoolSort()}[s]
def zvar(name, sort):
    k = (name, sort)
    if k not in _zv:
        _zv[k] = z3.Const(name + '$' + sort, zsort(sort))
    return _zv[k]
def zreal(x):
    return z3.ToReal(x) if x.sort() == z3.IntSort() else x

class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond

INTERP = frozenset(['LOG', 'LGAMMA', 'EXP', 'SQRT', 'POW', 'PI'])

class Axioms:
    """facts about uninterpreted symbols, instantiated at their ground applications"""
    def __init__(self):
        self.by_fun = {}
        self.quant = []      # callables: int term -> fact
        self.defs = {}       # ghost functions: name -> unfolding of an application
        self.memo = {}
    def at(self, f, *args):
        k = (f,) + tuple(a.id for a in args)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = (f(*args), args)
        return r[0]
    def fun(self, name, f):
        self.by_fun.setdefault(name, []).append(f)
    def all_int(self, f):
        self.quant.append(f)
    def copy(self):
        a = Axioms()
        a.by_fun = {k: list(v) for k, v in self.by_fun.items()}
        a.quant = list(self.quant)
        a.defs = dict(self.defs)
        a.memo = self.memo
        return a

def tight(hy):
    """the equations that integer bounds meeting each other amount to"""
    best, out = {}, []
    for h in hy:
        if h.op != 'le0' or h.args[0].sort != 'I': continue
        x = h.args[0]
        items, c = x.args if x.op == '+' else (((Fraction(1), x),), Fraction(0))
        if not items: continue
        lead = min(items, key=lambda y: y[1].id)[0]
        key = tuple(sorted((k.id, v / abs(lead)) for v, k in items))
        b = c / abs(lead)
        if key not in best or best[key][0] < b: best[key] = (b, x)
    for key, (b, x) in best.items():
        o = best.get(tuple((k, -v) for k, v in key))
        if o is not None and o[0] == -b and x.id < o[1].id: out.append(tm.eq0(x))
    return hy + out if out else hy

def flatten(hs):
    out = []
    st = list(hs)[::-1]
    while st:
        t = st.pop()
        if t.op == 'and':
            st.extend(t.args)
        elif t is not tm.TRUE:
            out.append(t)
    return out

class Timeout(Exception):
    pass

def zadd(s, f):
    z3.Z3_solver_assert(s.ctx.ref(), s.solver, f.as_ast())

class Canon:
    def __init__(self, hyps, ax, timeout=3000, deadline=None, rules=None):
        self.ax = ax
        self.timeout = timeout
        self.deadline = deadline
        self.sub = {}
        self.rw = dict(rules or {})
        self.guards = ()
        self.cache = {}
        self.dcache = {}
        self.zcache = {}
        self.insum = 0
        self.false = False
        self._init(flatten(hyps))

    # ---------------------------------------------------- hypotheses
    def _init(self, hy):
        hy = tight(hy)
        for _ in range(60):
            done = True
            for n, h in enumerate(hy):
                if h is tm.FALSE:
                    self.false = True
                    self.hyps = hy
                    return
                if h.op != 'eq0':
                    continue
                v, t = self._solve_var(h.args[0])
                if v is not None:
                    m = {v: t}
                    self.sub = {k: tm.subst(x, m) for k, x in self.sub.items()}
                    self.sub[v] = t
                    hy = flatten([tm.subst(x, m) for i, x in enumerate(hy) if i != n])
                    done = False
                    break
            if done:
                break
        self.hyps = hy
        self.hset = set(h.id for h in hy)
        if tm.FALSE in hy:
            self.false = True
            return
        # ground application rewriting
        for h in hy:
            if h.op == 'eq0':
                self._solve_app(h.args[0])

    def _solve_var(self, d):
        items, c = d.args if d.op == '+' else (((Fraction(1), d),), Fraction(0))
        for v, k in sorted(items, key=lambda x: -x[1].id):
            if k.op != 'var':
                continue
            if any(o is not k and k.args in o.fv for _, o in items):
                continue
            dd = {o: -w / v for w, o in items if o is not k}
            cc = -c / v
            t = tm.from_lin(dd, cc, 'R' if any(o.sort == 'R' for o in dd) else 'I')
            if k.sort == 'I' and t.sort != 'I':
                continue
            if k.sort == 'R':
                t = tm.toreal(t)
            return k, t
        return None, None

    def _solve_app(self, d):
        try:
            r = self.canon(d)
        except (NeedSplit, Undecided):
            return
        if not r.poly():
            r = RF(r.n)
        best = None
        for m, c in r.n.items():
            if len(m) == 1 and m[0][1] == 1:
                t = AT[m[0][0]]
                if t.op == 'app' and t.args[0] not in INTERP and len(t.args) > 1 or t.op == 'sum':
                    i = m[0][0]
                    if all(mm == m or not self._mentions(mm, t) for mm in r.n):
                        rest = {mm: -cc / c for mm, cc in r.n.items() if mm != m}
                        if t.sort == 'I' and not all(cc.denominator == 1 for cc in rest.values()):
                            continue
                        key = (t.op == 'sum', t.id)
                        if best is None or key > best[0]:
                            best = (key, t, rest)
        if best:
            self.rw[best[1].id] = RF(best[2])
            self.cache = {}
    def _mentions(self, m, t):
        for i, _ in m:
            for s in tm.subterms(AT[i]):
                if s is t:
                    return True
        return False

    # ---------------------------------------------------- deciding conditions
    def decide(self, c, extra=()):
        if self.false:
            return True
        if c is tm.TRUE:
            return True
        if c is tm.FALSE and not extra:
            return self.infeasible()
        if self.sub:
            c = tm.subst(c, self.sub)
            if c is tm.TRUE: return True
            if c is tm.FALSE: return False
        extra = tuple(extra) + self.guards
        if c.id in self.hset: return True
        nc = tm.not_(c)
        if nc.id in self.hset: return False
        es = frozenset(e.id for e in extra)
        if c.id in es: return True
        if nc.id in es: return False
        # only guards connected to the condition matter; keep all for soundness of caching
        key = (c.id, es)
        if key in self.dcache:
            return self.dcache[key]
        r = None
        if self.query([nc], extra):
            r = True
        elif self.query([c], extra):
            r = False
        self.dcache[key] = r
        return r

    def open_atom(self, c):
        """an atom of c that the hypotheses leave open, equations first"""
        atoms = []
        def go(c):
            if c.op in ('and', 'or', 'not'):
                for a in c.args: go(a)
            else: atoms.append(c)
        go(tm.subst(c, self.sub) if self.sub else c)
        if len(atoms) == 1: return atoms[0]
        atoms.sort(key=lambda a: a.op != 'eq0')
        for a in atoms:
            if self.decide(a) is None: return a
        return atoms[0]
    def infeasible(self, extra=()):
        return self.query([], tuple(extra) + self.guards)

    def query(self, goal, extra):
        """True if hyps + extra + goal is unsatisfiable (z3)"""
        if self.false:
            return True
        if self.deadline and time.time() > self.deadline:
            raise Timeout()
        base = list(self.hyps) + [tm.subst(e, self.sub) if self.sub else e for e in extra] + list(goal)
        base = flatten(base)
        if tm.FALSE in base:
            return True
        inst = self.instances(base)
        s = z3.Solver()
        s.set('timeout', self.timeout)
        self.sumatoms = {}
        try:
            for f in base + inst:
                zadd(s, self.zb(f))
        except RecursionError:
            return False
        for t in self.sumatoms.values():
            if t.op == 'app' and not any(v[0] == '@' for v in t.fv):
                zadd(s, self.zapp(t) > 0)
        if self.insum == 0:
            self.max_facts(s, base, goal, [t for t in self.sumatoms.values() if t.op == 'max'])
        if self.insum == 0 and self.sumatoms:
            ws = None
            for t in list(self.sumatoms.values()):
                if t.op != 'sum' or not self.nonneg_sum(t):
                    continue
                zadd(s, self.zatom(t) >= 0)
                # a sum of nonnegative terms is at least each of them
                if ws is None:
                    ws = [tm.iv(0)] + sorted({x for g in goal for x in tm.subterms(g) if x.op == 'var' and x.sort == 'I' and x.args[0] != '@'}, key=lambda x: x.id)[:4]
                j, (body,) = tm.open_binder(t)
                bounds = self.indicator_bounds(body, j, t)
                def fact(f):
                    self.insum += 1
                    try: zadd(s, self.zb(f))
                    except Undecided: pass
                    finally: self.insum -= 1
                for f, lo, hi in bounds: fact(f)
                for w in ws + self.witnesses(body, j, base, ws):
                    b = tm.subst(body, {j: w})
                    if b.op != 'num' and not any(n[0] == '@' for n in b.fv):
                        # one index in range that is not counted
                        for f, lo, hi in bounds[:2]:
                            fact(tm.or_(tm.lt(w, lo), tm.le(hi, w), tm.eq(b, tm.iv(1)), tm.le(t, tm.sub(tm.sub(hi, lo), tm.iv(1)))))
                    if b.op == 'num' and b.args <= 0 or any(n[0] == '@' for n in b.fv): continue
                    try:
                        self.insum += 1
                        try:
                            zadd(s, zreal(self.zatom(t)) >= zreal(self.za(b)))
                            for f in self.instances([tm.le(tm.iv(0), b)]):
                                zadd(s, self.zb(f))
                        finally:
                            self.insum -= 1
                    except Undecided:
                        pass
        if self.false:
            return True
        t0 = time.time()
        r = s.check()
        STATS.z3_queries += 1
        STATS.z3_time += time.time() - t0
        return r == z3.unsat

    def max_facts(self, s, base, goal, ms):
        """M = max over j with g(j) of b(j): if some index satisfies g then one of
        them attains M, and b(i) <= M wherever g(i)"""
        ms = ms[:6]
        cs = [tm.iv(0)] + sorted({x for g in goal for x in tm.subterms(g) if x.op == 'var' and x.sort == 'I' and x.args[0] != '@'}, key=lambda x: x.id)[:4]
        wit = [tm.var('arg!%d' % t.id, 'I') for t in ms]
        open_ = [tm.open_binder(t) for t in ms]
        extra = []
        for j, (g, b) in open_:
            gs = list(self.guards)
            extra += [x for x in self.witnesses(b, j, gs + base, cs, 6) + self.witnesses(g, j, gs + base, cs, 6) if x not in extra]
        for t, w, (j, (g, b)) in zip(ms, wit, open_):
            ext = extra[:8]
            at = lambda x: tm.subst(g, {j: x})
            for c in cs + ext + wit:
                self.insum += 1
                try:
                    m = self.zatom(t)
                    gc = self.zb(at(c))
                    bc = zreal(self.za(tm.subst(b, {j: c})))
                    zadd(s, z3.Implies(gc, bc <= zreal(m)))
                    k = ('mi', t.id, c.id)
                    if k not in self.dcache:
                        self.dcache[k] = self.instances([tm.le(tm.subst(b, {j: c}), tm.iv(0)), at(c)])
                    for f in self.dcache[k]: zadd(s, self.zb(f))
                    if c is not w:
                        gw = self.zb(at(w))
                        zadd(s, z3.Implies(gc, z3.And(gw, zreal(self.za(tm.subst(b, {j: w}))) == zreal(m))))
                except Undecided:
                    pass
                finally:
                    self.insum -= 1

    def indicator_bounds(self, body, j, t):
        """facts 0 <= S <= hi - lo for a sum of ite(c, 1, 0) whose condition bounds the index"""
        if body.op != 'ite' or body.args[1] is not tm.iv(1) or body.args[2] is not tm.iv(0): return []
        key = ('ib', t.id)
        r = self.dcache.get(key)
        if r is not None: return r
        self.dcache[key] = []
        c = body.args[0]
        his, los = [], []
        for a in tm.subterms(c):
            if a.op != 'le0': continue
            d, k = tm.lin(a.args[0])
            co = d.get(j)
            if co not in (1, -1): continue
            r = tm.sub(a.args[0], tm.scale(j, co))
            if j.args in r.fv or any(n[0] == '@' for n in r.fv): continue
            # co=1: j <= -r, hi = -r + 1;  co=-1: j >= r
            if co == 1: his.append(tm.sub(tm.iv(1), r))
            else: los.append(r)
        out = []
        self.insum += 1
        try:
            for hi in his[:4]:
                if not self.query([c, tm.le(hi, j)], ()): continue
                for lo in los[:4]:
                    if not self.query([c, tm.lt(j, lo)], ()): continue
                    n = tm.sub(hi, lo)
                    out.append((tm.or_(tm.le(t, n), tm.and_(tm.le(n, tm.iv(0)), tm.eq(t, tm.iv(0)))), lo, hi))
                    break
        except Timeout:
            raise
        except Exception:
            pass
        finally:
            self.insum -= 1
        self.dcache[key] = out
        return out
    def witnesses(self, body, j, fs, have, lim=3):
        """ground applications matching an application of the summand"""
        pats = []
        for t in tm.subterms(body):
            if t.op == 'app' and not any(n[0] == '@' for n in t.fv):
                ps = [i for i, a in enumerate(t.args[1:]) if j.args in a.fv]
                if len(ps) == 1 and (t.args[1 + ps[0]] is j or t.args[1 + ps[0]].op == '+' and j.args not in tm.sub(t.args[1 + ps[0]], j).fv):
                    pats.append((t.args[0], t.args[1:], ps[0]))
        out = {}
        if pats:
            for f in fs:
                for t in tm.subterms(f):
                    if t.op != 'app' or any(n[0] == '@' for n in t.fv): continue
                    for fn, args, p in pats:
                        if t.args[0] == fn and all(i == p or a is b for i, (a, b) in enumerate(zip(t.args[1:], args))):
                            w = t.args[1 + p]
                            if args[p] is not j: w = tm.sub(w, tm.sub(args[p], j))
                            if w not in have and w.op != 'num': out[w.id] = w
        out = dict(list(out.items())[:lim])
        # indices a condition of the summand singles out
        for t in tm.subterms(body):
            if t.op == 'eq0':
                d, k = tm.lin(t.args[0])
                co = d.get(j)
                if co in (1, -1):
                    w = tm.scale(tm.sub(t.args[0], tm.scale(j, co)), -co)
                    if j.args not in w.fv and not any(n[0] == '@' for n in w.fv) and w not in have: out[w.id] = w
        return list(out.values())[:5]
    def nonneg_sum(self, t):
        """syntactic check: all leaves of the summand are >= 0 by axioms"""
        key = ('nn', t.id)
        if key in self.dcache:
            return self.dcache[key]
        self.dcache[key] = False
        j, (body,) = tm.open_binder(t)
        self.insum += 1
        try:
            r = self.query([tm.lt(body, tm.iv(0))], ())
        except Timeout:
            raise
        except Exception:
            r = False
        finally:
            self.insum -= 1
        self.dcache[key] = r
        return r

    def instances(self, fs):
        out, seen = [], set()
        frontier = fs
        cands = {}
        for rnd in range(3):
            new = []
            for f in frontier:
                for t in tm.subterms(f):
                    if t.id in seen:
                        continue
                    seen.add(t.id)
                    if any(n[0] == '@' for n in t.fv):
                        continue
                    if t.op == 'app':
                        for a in self.ax.by_fun.get(t.args[0], ()):
                            g = self.ax.at(a, *t.args[1:])
                            if g is not tm.TRUE:
                                new.append(g)
                        if t.args[0] in ('EXP',):
                            new.append(tm.lt(tm.iv(0), t))
                        if t.args[0] == 'PI':
                            new.append(tm.lt(tm.rv(3), t))
                            new.append(tm.lt(t, tm.rv(4)))
                        if t.args[0] == 'SQRT':
                            new.append(tm.le(tm.iv(0), t))
                        for a in t.args[1:]:
                            if a.sort == 'I':
                                cands[a.id] = a
                    elif t.op == 'var' and t.sort == 'I':
                        cands[t.id] = t
            if self.sub:
                new = [tm.subst(g, self.sub) for g in new]
            out += new
            frontier = new
            if not new:
                break
        if self.ax.quant and len(cands) < 40:
            new = []
            for q in self.ax.quant:
                for c in list(cands.values()):
                    g = self.ax.at(q, c)
                    if g is not tm.TRUE:
                        new.append(tm.subst(g, self.sub) if self.sub else g)
            out += new
            for f in new:
                for t in tm.subterms(f):
                    if t.id not in seen and t.op == 'app' and not any(n[0] == '@' for n in t.fv):
                        seen.add(t.id)
                        for a in self.ax.by_fun.get(t.args[0], ()):
                            g = self.ax.at(a, *t.args[1:])
                            out.append(tm.subst(g, self.sub) if self.sub else g)
        return [g for g in out if g is not tm.TRUE]

    # ---------------------------------------------------- conversion to z3
    def zb(self, t):
        if t.op in ('true', 'false', 'var'): return self._zb(t)
        k = (t.id, self.insum > 0, 'b')
        r = self.zcache.get(k)
        if r is not None:
            if r[1]: self.sumatoms.update(r[1])
            return r[0]
        old, self.sumatoms = self.sumatoms, {}
        try:
            z = self._zb(t)
        finally:
            mine, self.sumatoms = self.sumatoms, old
            old.update(mine)
        self.zcache[k] = (z, mine)
        return z

    def _zb(self, t):
        op = t.op
        if op == 'true': return z3.BoolVal(True)
        if op == 'false': return z3.BoolVal(False)
        if op == 'and': return z3.And(*[self.zb(a) for a in t.args])
        if op == 'or': return z3.Or(*[self.zb(a) for a in t.args])
        if op == 'not': return z3.Not(self.zb(t.args[0]))
        if op == 'var': return zvar(t.args, 'B')
        if op == 'app': return self.zapp(t)
        d = self.za(t.args[0])
        z = 0
        if op == 'le0': return d <= z
        if op == 'lt0': return d < z
        if op == 'eq0': return d == z
        raise Undecided('bool ' + op)

    def za(self, t):
        k = (t.id, self.insum > 0)
        r = self.zcache.get(k)
        if r is not None:
            if r[1]:
                self.sumatoms.update(r[1])
            return r[0]
        old = self.sumatoms
        self.sumatoms = {}
        z = self._za(t)
        mine = self.sumatoms
        old.update(mine)
        self.sumatoms = old
        self.zcache[k] = (z, mine)
        return z

    def _za(self, t):
        op = t.op
        if op == 'num':
            return z3.IntVal(int(t.args)) if t.sort == 'I' else z3.RealVal(str(t.args))
        if op == 'var':
            return zvar(t.args, t.sort)
        if op == '+':
            isr = t.sort == 'R'
            r = None
            for c, k in t.args[0]:
                x = self.za(k)
                if isr or x.sort() == z3.RealSort():
                    x = zreal(x)
                    x = x * z3.RealVal(str(c)) if c != 1 else x
                else:
                    x = x * int(c) if c != 1 else x
                r = x if r is None else _zadd(r, x)
            c = t.args[1]
            if c:
                r = _zadd(r, z3.IntVal(int(c)) if c.denominator == 1 and r.sort() == z3.IntSort() else z3.RealVal(str(c)))
            return r
        if op == '*':
            xs = [self.za(a) for a in t.args]
            if any(x.sort() == z3.RealSort() for x in xs):
                xs = [zreal(x) for x in xs]
            r = xs[0]
            for x in xs[1:]:
                r = r * x
            return r
        if op == '/':
            return zreal(self.za(t.args[0])) / zreal(self.za(t.args[1]))
        if op == 'ite':
            a, b = self.za(t.args[1]), self.za(t.args[2])
            if a.sort() != b.sort():
                a, b = zreal(a), zreal(b)
            return z3.If(self.zb(t.args[0]), a, b)
        if op == 'app':
            return self.zapp(t)
        if op == 'sum':
            if self.insum < 2 and not self.guards:
                try:
                    self.insum += 1
                    try:
                        r = self.canon_sum(t)
                    finally:
                        self.insum -= 1
                    return self.zrf(r)
                except (NeedSplit, Undecided):
                    pass
            return self.zatom(t)
        return self.zatom(t)

    def zrf(self, r):
        n = self.zpoly(r.n)
        if r.poly():
            return n
        return zreal(n) / zreal(self.zpoly(r.d))
    def zpoly(self, p):
        out = None
        for m, c in p.items():
            x = z3.IntVal(int(c)) if c.denominator == 1 else z3.RealVal(str(c))
            for i, e in m:
                t = AT[i]
                a = self.zatom(t) if t.op in ('sum', 'max') else self.za(t)
                for _ in range(abs(e)):
                    if e > 0:
                        if a.sort() != x.sort():
                            a, x = zreal(a), zreal(x)
                        x = x * a
                    else:
                        x = zreal(x) / zreal(a)
            out = x if out is None else _zadd(out, x)
        return out if out is not None else z3.IntVal(0)

    def zapp(self, t):
        f, args = t.args[0], t.args[1:]
        zs = []
        for a in args:
            if a.sort == 'B':
                zs.append(self.zb(a))
            else:
                zs.append(self.za(a))
        k = (f, tuple(x.sort().name() for x in zs), t.sort)
        if not zs:
            return zvar('fn_' + f, t.sort)
        if k not in _zf:
            _zf[k] = z3.Function('%s_%d' % (f, len(_zf)), *([x.sort() for x in zs] + [zsort(t.sort)]))
        return _zf[k](*zs)

    def zatom(self, t):
        """opaque z3 term for a canonical atom"""
        if t.op == 'app':
            if t.args[0] == 'EXP': self.sumatoms[t.id] = t
            return self.zapp(t)
        fvs = sorted(t.fv)
        if t.op in ('sum', 'max') and not any(v[0] == '@' for v in fvs):
            self.sumatoms[t.id] = t
        return z3.Const('t!%d' % t.id, zsort(t.sort))

    # ---------------------------------------------------- normal forms
    def canon(self, t):
        k = (t.id, self.guards)
        r = self.cache.get(k)
        if r is None:
            if self.deadline and time.time() > self.deadline:
                raise Timeout()
            r = self._canon(tm.subst(t, self.sub) if self.sub else t)
            self.cache[k] = r
        return r

    def atom_rf(self, t):
        r = self.rw.get(t.id)
        return r if r is not None else RF(patom(t))

    def _canon(self, t):
        op = t.op
        if op == 'num':
            return rfc(t.args)
        if op == 'var':
            return self.atom_rf(t)
        if op == '+':
            r = rfc(t.args[1])
            for c, k in t.args[0]:
                x = self.canon(k)
                r = rf_add(r, RF(pscale(x.n, c), x.d))
            return r
        if op == '*':
            r = RF1
            for a in t.args:
                r = rf_mul(r, self.canon(a))
            return r
        if op == '/':
            return rf_div(self.canon(t.args[0]), self.canon(t.args[1]))
        if op == 'ite':
            d = self.decide(t.args[0])
            if d is None:
                raise NeedSplit(self.open_atom(t.args[0]))
            return self.canon(t.args[1] if d else t.args[2])
        if op == 'sum':
            return self.canon_sum(t)
        if op == 'max':
            return self.canon_max(t)
        if op == 'app':
            f = t.args[0]
            if f == 'LOG': return self.rf_log(self.canon(t.args[1]))
            if f == 'LGAMMA': return self.rf_lgamma(self.canon(t.args[1]))
            if f == 'EXP': return self.rf_exp(self.canon(t.args[1]))
            if f == 'SQRT': return self.rf_sqrt(self.canon(t.args[1]))
            if f == 'POW':
                e = self.canon(t.args[2])
                c = e.const()
                if c is not None and c.denominator == 1 and abs(c) <= 8:
                    b, r = self.canon(t.args[1]), RF1
                    for _ in range(abs(int(c))):
                        r = rf_mul(r, b) if c > 0 else rf_div(r, b)
                    return r
                return self.rf_exp(rf_mul(e, self.rf_log(self.canon(t.args[1]))))
        # opaque function of canonical arguments
        args = []
        for a in (t.args[1:] if op == 'app' else t.args):
            if a.sort == 'B':
                d = self.decide(a)
                if d is None:
                    raise NeedSplit(self.open_atom(a))
                args.append(tm.TRUE if d else tm.FALSE)
            else:
                args.append(self.canon_t(a))
        if op == 'app':
            return self.atom_rf(tm.app(t.args[0], args, t.sort))
        n = {'idiv': tm.idiv, 'imod': tm.imod, 'trunc': lambda a: tm.trunc(a)}[op](*args)
        if n.op != op:
            return self.canon(n)
        return self.atom_rf(n)

    def canon_t(self, t):
        r = rf_t(rf_cancel(self.canon(t)))
        if t.sort == 'R':
            r = tm.toreal(r)
        return r

    def rf_log(self, a):
        a = rf_cancel(a)
        if not a.n:
            return RF(patom(tm.app('LOG', (tm.rv(0),), 'R')))
        out = RF0
        for p, sgn in ((a.n, 1), (a.d, -1)):
            c, fs = pfactor(p)
            c = abs(c)
            for q, e in list(factorint(c.numerator).items()) if c.numerator != 1 else []:
                out = rf_add(out, RF(pscale(patom(tm.LOG(tm.rv(int(q)))), sgn * e)))
            for q, e in list(factorint(c.denominator).items()) if c.denominator != 1 else []:
                out = rf_add(out, RF(pscale(patom(tm.LOG(tm.rv(int(q)))), -sgn * e)))
            for f, e in fs:
                out = rf_add(out, rf_mul(rfc(sgn * e), self.log_factor(f)))
        return out

    def log_factor(self, f):
        if len(f) == 1:
            (m, c), = f.items()
            if len(m) == 1 and m[0][1] == 1 and c == 1:
                t = AT[m[0][0]]
                if t.op == 'app' and t.args[0] == 'EXP':
                    return rf_of_term(t.args[1])
                if t.op == 'app' and t.args[0] == 'SQRT':
                    return rf_mul(rfc(Fraction(1, 2)), self.rf_log(rf_of_term(t.args[1])))
        return self.atom_rf(tm.LOG(poly_t(f)))

    def rf_exp(self, a):
        a = rf_cancel(a)
        out = RF1
        # exp(sum of c*m / d)
        for m, c in a.n.items():
            if a.poly() and c.denominator == 1 and len(m) == 1 and m[0][1] == 1:
                t = AT[m[0][0]]
                if t.op == 'app' and t.args[0] == 'LOG':
                    # LOG atoms are normalised up to the sign of their argument
                    f = rf_of_term(t.args[1])
                    c0 = tm.lt(tm.rv(0), t.args[1])
                    d = self.decide(c0)
                    if d is None: raise NeedSplit(c0)
                    if not d: f = rf_mul(rfc(-1), f)
                    for _ in range(abs(int(c))):
                        out = rf_mul(out, f) if c > 0 else rf_div(out, f)
                    continue
            e = c.numerator
            base = rf_cancel(RF({m: Fraction(1, c.denominator)}, a.d))
            out = rf_mul(out, RF({((aid(tm.EXP(rf_t(base))), int(e)),): Fraction(1)}))
        return out

    def rf_sqrt(self, a):
        a = rf_cancel(a)
        c = a.const()
        if c is not None and c >= 0:
            p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if p * p == c.numerator and q * q == c.denominator:
                return rfc(Fraction(p, q))
        return self.atom_rf(tm.SQRT(rf_t(a)))

    def rf_lgamma(self, a):
        a = rf_cancel(a)
        if not a.poly():
            return self.atom_rf(tm.LGAMMA(rf_t(a)))
        c = a.n.get(ONE, Fraction(0))
        base = dict(a.n)
        base.pop(ONE, None)
        if not base:
            # constant argument
            if c.denominator == 1 and c > 0:
                return self.rf_log(rfc(math.factorial(int(c) - 1)))
            k = math.floor(c)
            frac = c - k
            if c > 0 and k <= 30:
                out = self.atom_rf(tm.LGAMMA(tm.rv(frac))) if frac else RF0
                for i in range(k):
                    out = rf_add(out, self.rf_log(rfc(frac + i)))
                return out
            return self.atom_rf(tm.LGAMMA(tm.rv(c)))
        k = math.floor(c)
        if abs(k) > 40:
            return self.atom_rf(tm.LGAMMA(rf_t(a)))
        b0 = padd(base, pconst(c - k))
        out = self.atom_rf(tm.LGAMMA(poly_t(b0)))
        for i in range(abs(k)):
            if k > 0:
                out = rf_add(out, self.rf_log(RF(padd(b0, pconst(i)))))
            else:
                out = rf_add(out, self.rf_log(RF(padd(b0, pconst(-i - 1)))), -1)
        return out

    # ---------------------------------------------------- sums
    def canon_sum(self, t):
        k = ('sum', t.id, self.guards)
        r = self.cache.get(k)
        if r is None:
            j, (body,) = tm.open_binder(t)
            r = self.explore(body, j, ())
            if len(r.n) == 1 and r.poly():
                (m, c), = r.n.items()
                if len(m) == 1 and m[0][1] == 1 and m[0][0] in self.rw:
                    r = rf_mul(rfc(c), self.rw[m[0][0]])
            self.cache[k] = r
        return r

    def with_guards(self, gs, f):
        old = self.guards
        self.guards = old + gs
        try:
            return f()
        finally:
            self.guards = old

    def explore(self, body, j, gs):
        jn = j.args
        while True:
            c = first_cond(body)
            if c is None:
                break
            if jn not in c.fv:
                # a condition that does not mention the bound variable
                d = self.decide(c)
                if d is None:
                    raise NeedSplit(c)
            else:
                d = self.decide(c, gs)
                if d is None:
                    return self.branch(body, j, gs, c)
            body = tm.subst_cond(body, c, d)
        if body.op == 'num' and body.args == 0:
            return RF0
        if gs and self.infeasible(gs):
            return RF0
        if not gs and self.insum and not self.guards:
            # met while translating a hypothesis: the hypotheses may be contradictory
            k = ('inf', self.insum)
            if k not in self.dcache:
                self.dcache[k] = self.infeasible()
            if self.dcache[k]:
                self.false = True
                return RF0
        body = self.pin(body, j, gs)
        try:
            val = self.with_guards(gs, lambda: rf_cancel(self.canon(body)))
            if not val.n:
                return RF0
            return self.sum_piece(gs, val, j)
        except NeedSplit as e:
            if jn in e.cond.fv:
                return self.branch(body, j, gs, e.cond)
            raise

    def pin(self, body, j, gs):
        """under an equation between applications, put in the values it fixes"""
        eqs = [g for g in gs if g.op == 'eq0' and any(t.op == 'app' and j.args in t.fv for t in tm.subterms(g))]
        if not eqs:
            return body
        for g in eqs:
            dd, c = tm.lin(g.args[0])
            for t, k in sorted(dd.items(), key=lambda x: -x[0].id):
                if t.op == 'app' and t.args[0] not in INTERP and abs(k) == 1 and not any(t in tm.subterms(o) for o in dd if o is not t):
                    new = tm.from_lin({o: -w / k for o, w in dd.items() if o is not t}, -c / k, t.sort)
                    if new.sort == t.sort:
                        body = tm.replace(body, {t: new})
                    break
        m = {}
        for t in list(tm.subterms(body)):
            if t.op == 'app' and t.args[0] not in INTERP and t.sort != 'B' and j.args in t.fv and not any(n[0] == '@' for n in t.fv):
                if self.decide(tm.eq(t, tm.iv(0)), gs) is True:
                    m[t] = tm.iv(0) if t.sort == 'I' else tm.rv(0)
        return tm.replace(body, m) if m else body

    def branch(self, body, j, gs, c):
        a = self.explore(tm.subst_cond(body, c, True), j, gs + (c,))
        b = self.explore(tm.subst_cond(body, c, False), j, gs + (tm.not_(c),))
        return rf_add(a, b)

    def linform(self, c, j):
        """('lt', t): j < t;  ('ge', t): j >= t;  ('eq', t);  ('ne', t);  None"""
        neg = False
        if c.op == 'not':
            neg, c = True, c.args[0]
        if c.op not in ('le0', 'lt0', 'eq0'):
            return None
        r = self.canon(c.args[0])
        if not r.poly():
            return None
        coef, rest = Fraction(0), {}
        for m, v in r.n.items():
            if m == ((j.id, 1),):
                coef = v
            elif any(j.args in AT[i].fv for i, _ in m):
                return None
            else:
                rest[m] = v
        if coef not in (1, -1):
            return None
        t = pscale(rest, -coef)
        if c.op == 'eq0':
            return ('ne' if neg else 'eq', t)
        if c.op == 'lt0':
            return None
        if coef == 1:                        # j + rest <= 0  ->  j < t + 1
            return ('lt', padd(t, pconst(1)))
        return ('ge', t)

    def sum_piece(self, gs, val, j):
        AT[j.id] = j
        lows, highs, eqs, nes, others = [], [], [], [], []
        for g in gs:
            lf = self.linform(g, j)
            if lf is None:
                others.append(g)
            elif lf[0] == 'eq':
                eqs.append(lf[1])
            elif lf[0] == 'ne':
                nes.append((g, lf[1]))
            elif lf[0] == 'lt':
                highs.append(lf[1])
            else:
                lows.append(lf[1])
        if eqs:
            tz = poly_t(eqs[0])
            for g in gs:
                c = tm.subst(g, {j: tz})
                d = self.decide(c)
                if d is None:
                    raise NeedSplit(self.open_atom(c))
                if d is False:
                    return RF0
            return self.subst_rf(val, j, tz)
        if nes:
            g0, t = nes[0]
            rest = tuple(g for g in gs if g is not g0)
            whole = self.sum_piece(rest, val, j)
            point = self.sum_piece(rest + (tm.eq(j, poly_t(t)),), val, j)
            return rf_add(whole, point, -1)
        others = flatten([self.norm_ind(g, gs) for g in others])
        if any(o.op == 'not' for o in others):
            gs = tuple(g for g in gs if self.linform(g, j) is not None) + tuple(others)
        for n, g in enumerate(others):
            if g.op == 'not':
                rest = tuple(x for x in gs if x is not g)
                g2 = rest + (g.args[0],)
                v2 = val
                if g.args[0].op == 'eq0':
                    vt = rf_t(val)
                    pt = self.pin(vt, j, g2)
                    if pt is not vt:
                        v2 = self.with_guards(g2, lambda: rf_cancel(self.canon(pt)))
                return rf_add(self.sum_piece(rest, val, j), self.sum_piece(g2, v2, j), -1)
        hi, lo = self.best(highs, False), self.best(lows, True)
        if lo is not None and hi is not None:
            c = tm.le(poly_t(lo), poly_t(hi))
            d = self.decide(c)
            if d is None:
                raise NeedSplit(c)
            if d is False:
                return RF0
        if lo is not None and hi is None:
            if others and self.decide(tm.le(poly_t(lo), tm.iv(0))):
                # keys are nonnegative
                lo = None
            else:
                raise Undecided('unbounded sum')
        if lo is not None:
            c = tm.le(tm.iv(0), poly_t(lo))
            if self.decide(c) is not True:
                raise NeedSplit(c)
        elif hi is not None:
            raise Undecided('sum without lower bound')
        if lo is not None and hi is not None and not others and any(m != ONE for m in lo):
            # a range whose terms are written relative to its start
            base = poly_t(lo)
            v0 = rf_t(val)
            v1 = rf_t(self.subst_rf(val, j, tm.add(j, base)))
            atoms = {AT[i].id for m in lo for i, _ in m}
            hit = lambda v: sum(x.id in atoms for x in tm.subterms(v))
            if hit(v0) > hit(v1):
                g2 = (tm.le(tm.iv(0), j), tm.lt(j, tm.sub(poly_t(hi), base)))
                return self.sum_piece(g2, self.with_guards(g2, lambda: rf_cancel(self.canon(v1))), j)
        inds = others
        out = RF0
        for t, s in ((hi, 1), (lo, -1)) if lo is not None else ((None, 1),):
            out = rf_add(out, rf_mul(rfc(s), self.prefix(t, inds, val, j)))
        return out

    def norm_ind(self, g, gs):
        """canonical form of an indicator condition mentioning the bound variable"""
        if g.op in ('le0', 'lt0', 'eq0'):
            d = self.with_guards(gs, lambda: self.canon_t(g.args[0]))
            r = {'le0': tm.le0, 'lt0': tm.lt0, 'eq0': tm.eq0}[g.op](d)
            if r.op == 'le0' and r.args[0].sort == 'I':
                rest = tuple(x for x in gs if x is not g)
                x = tm.sub(tm.iv(1), r.args[0])
                if self.decide(tm.le(tm.iv(0), r.args[0]), rest) is True:
                    r = tm.eq0(r.args[0])
                elif self.decide(tm.le(tm.iv(0), x), rest) is True:
                    r = tm.not_(tm.eq0(x))
                elif self.decide(tm.le(tm.iv(-1), x), rest) is True:
                    # at least two: neither zero nor one
                    x = tm.add(x, tm.iv(1))
                    return tm.and_(tm.not_(tm.eq0(x)), tm.not_(tm.eq0(tm.sub(x, tm.iv(1)))))
            if r.op in ('le0', 'lt0'):
                nr = tm.not_(r)
                if nr.id < r.id:
                    # canonical polarity
                    return tm.mk('not', (nr,), 'B', (nr,))
            return r
        if g.op == 'app':
            return tm.app(g.args[0], [self.canon_t(a) if a.sort != 'B' else a for a in g.args[1:]], 'B')
        if g.op in ('and', 'or'):
            f = tm.and_ if g.op == 'and' else tm.or_
            return f(*[self.norm_ind(a, gs) for a in g.args])
        return g

    def best(self, l, low):
        if not l:
            return None
        b = l[0]
        for x in l[1:]:
            if x == b:
                continue
            c = tm.le(poly_t(x), poly_t(b)) if low else tm.le(poly_t(b), poly_t(x))
            d = self.decide(c)
            if d is None:
                raise NeedSplit(c)
            if not d:
                b = x
        return b

    def prefix(self, t, inds, val, j):
        """sum over 0 <= j < t (t None: all j) of [inds] val, as an antiderivative in t"""
        if t is not None:
            c = t.get(ONE, Fraction(0))
            base = dict(t)
            base.pop(ONE, None)
            if c.denominator != 1:
                raise Undecided('fractional bound')
            if c > 0 and base and abs(c) <= 64:
                # the bound is not negative; is it without its constant?
                q = tm.le(tm.iv(0), poly_t(base))
                d = self.decide(q)
                if d is None: raise NeedSplit(q)
                if not d:
                    out = RF0
                    for i in range(int(c)):
                        q = tm.lt(tm.iv(i), poly_t(t))
                        d = self.decide(q)
                        if d is None: raise NeedSplit(q)
                        if d: out = rf_add(out, self.point(inds, val, j, tm.iv(i)))
                    return out
            if c != 0 and abs(c) <= 64:
                out = self.prefix(base, inds, val, j)
                for i in (range(0, int(c)) if c > 0 else range(int(c), 0)):
                    tz = poly_t(padd(base, pconst(i)))
                    pt = self.point(inds, val, j, tz)
                    out = rf_add(out, pt, 1 if c > 0 else -1)
                return out
            if not base and c == 0:
                return RF0
        jn = j.args
        dep = lambda m: tuple(x for x in m if jn in AT[x[0]].fv)
        out = RF0
        tt = None if t is None else poly_t(t)
        guard = list(inds)
        if tt is not None:
            guard += [tm.le(tm.iv(0), j), tm.lt(j, tt)]
        if tt is not None and inds and tt.op == '+':
            # a bound past a maximum beyond which nothing satisfies the condition
            for co, x in tt.args[0]:
                if x.op != 'max' or co != 1: continue
                k, (g, b) = tm.open_binder(x)
                # b(j) <= max <= j
                if self.decide(tm.le(x, tt)) is True and self.query([], tuple(inds) + (tm.subst(g, {k: j}), tm.le(tm.subst(b, {k: j}), j), tm.le(tm.iv(0), j)) + self.guards) \
                        and self.query([tm.not_(tm.subst(g, {k: j}))], tuple(inds) + (tm.le(tm.iv(0), j),) + self.guards):
                    return self.prefix(self.canon(x).n, inds, val, j)
        if tt is not None:
            for off in self.max_ends(inds, tt):
                # split where the range of a maximum in the condition ends
                base = tm.sub(tt, tm.iv(off))
                if not self.query([], tuple(inds) + (tm.le(tm.iv(0), j), tm.lt(j, base)) + self.guards): continue
                out = RF0
                for i in (range(0, off) if off > 0 else range(off, 0)):
                    tz = tm.add(base, tm.iv(i))
                    c = tm.le(tm.iv(0), tz)
                    d = self.decide(c)
                    if d is None: raise NeedSplit(c)
                    if d: out = rf_add(out, self.point(inds, val, j, tz), 1 if off > 0 else -1)
                return out
        if any(x.op == 'max' for g in inds for x in tm.subterms(g)) and self.query([], tuple(guard) + self.guards):
            return RF0
        if any(jn in AT[i].fv for m in val.d for i, _ in m):
            s = tm.bsum(j, tm.ite(tm.and_(*guard), rf_t(val), tm.rv(0)))
            return RF(patom(s))
        byd = {}
        for m, c in val.n.items():
            dm = dep(m)
            free = tuple(x for x in m if jn not in AT[x[0]].fv)
            byd.setdefault(dm, {})
            byd[dm] = padd(byd[dm], {free: c})
        for dm, coef in byd.items():
            if not dm and not inds and tt is not None:
                s = RF(t)            # sum of ones
                out = rf_add(out, rf_mul(RF(coef, val.d), s))
                continue
            s = self.swap_eq(j, tm.and_(*guard), dm)
            if s is not None:
                out = rf_add(out, rf_mul(RF(coef, val.d), self.canon(s)))
                continue
            s = self.swap(j, tm.and_(*guard), dm)
            if s is None:
                s = tm.bsum(j, tm.ite(tm.and_(*guard), mono_t(dm), tm.iv(0)))
            out = rf_add(out, rf_mul(RF(coef, val.d), self.atom_rf(s)))
        return rf_cancel(out)

    def max_ends(self, inds, tt):
        out = []
        for g in inds:
            for x in tm.subterms(g):
                if x.op != 'max': continue
                k, parts = tm.open_binder(x)
                for p in parts:
                    for a in tm.subterms(p):
                        if a.op != 'le0': continue
                        d, _ = tm.lin(a.args[0])
                        if d.get(k) != 1: continue
                        hi = tm.sub(tm.iv(1), tm.sub(a.args[0], k))     # k < hi
                        if k.args in hi.fv: continue
                        o = tm.sub(tt, hi)
                        if o.op == 'num' and o.args.denominator == 1 and 0 < o.args <= 4 and int(o.args) not in out: out.append(int(o.args))
        return out
    def swap_eq(self, j, guard, dm):
        """sum_j sum_k [j == f(k)] ...: the sum over j first"""
        if len(dm) != 1 or dm[0][1] != 1 or AT[dm[0][0]].op != 'sum':
            return None
        k, (b,) = tm.open_binder(AT[dm[0][0]])
        if b.op != 'ite' or b.args[2].op != 'num' or b.args[2].args != 0 or j.args in b.args[1].fv:
            return None
        cs = flatten([b.args[0]])
        mine = [c for c in cs if j.args in c.fv]
        if len(mine) != 1 or mine[0].op != 'eq0' or tm.lin(mine[0].args[0])[0].get(j) not in (1, -1):
            return None
        r = tm.sub(mine[0].args[0], tm.scale(j, tm.lin(mine[0].args[0])[0][j]))
        if j.args in r.fv or k.args not in r.fv: return None
        out = tm.and_(*[c for c in cs if c is not mine[0]])
        return tm.bsum(k, tm.ite(out, tm.bsum(j, tm.ite(tm.and_(guard, mine[0]), b.args[1], tm.iv(0))), tm.iv(0)))

    def swap(self, j, guard, dm):
        """double sums over independent ranges: the range with the smaller key is outermost"""
        if len(dm) != 1 or dm[0][1] != 1 or AT[dm[0][0]].op != 'sum':
            return None
        k, (b,) = tm.open_binder(AT[dm[0][0]])
        if b.op != 'ite' or b.args[2].op != 'num' or b.args[2].args != 0 or j.args in b.args[0].fv:
            return None
        d = tm.var('@@', 'I')
        if tm.subst(b.args[0], {k: d}).id >= tm.subst(guard, {j: d}).id:
            return None
        return tm.bsum(k, tm.ite(b.args[0], tm.bsum(j, tm.ite(guard, b.args[1], tm.iv(0))), tm.iv(0)))

    def point(self, inds, val, j, tz):
        for g in inds:
            c = tm.subst(g, {j: tz})
            d = self.decide(c)
            if d is None:
                raise NeedSplit(self.open_atom(c))
            if not d:
                return RF0
        return self.subst_rf(val, j, tz)

    def subst_rf(self, val, j, tz):
        if not any(j.args in AT[i].fv for p in (val.n, val.d) for m in p for i, _ in m):
            return val
        return self.canon(tm.subst(rf_t(val), {j: tz}))

    def canon_max(self, t):
        j, (g, b) = tm.open_binder(t)
        gg = self.norm_ind(g, ())
        try:
            bb = self.with_guards((g,), lambda: self.canon_t(b))
        except NeedSplit as e:
            if j.args in e.cond.fv:
                bb = b
            else:
                raise
        return RF(patom(tm.bmax(j, gg, bb)))

def _zadd(a, b):
    if a.sort() != b.sort():
        a, b = zreal(a), zreal(b)
    return a + b

def atomic(c):
    while c.op in ('and', 'or', 'not'):
        c = c.args[0]
    return c

_fc = {}
def first_cond(t):
    """first atomic condition of an ite inside t (not inside nested binders)"""
    if t.id in _fc:
        return _fc[t.id]
    r = None
    if t.op == 'ite':
        r = first_cond(t.args[0]) or atomic(t.args[0]) if False else atomic(t.args[0])
        inner = first_cond(r)
        r = inner if inner is not None else r
    elif t.op in ('sum', 'max', 'num', 'var', 'true', 'false'):
        r = None
    else:
        sub = [k for _, k in t.args[0]] if t.op == '+' else (t.args[1:] if t.op == 'app' else t.args)
        for s in sub:
            r = first_cond(s)
            if r is not None:
                break
    _fc[t.id] = r
    return r

# ------------------------------------------------------------ prover
class Result:
    def __init__(self, status, hyps=None, goal=None, why='', backend=''):
        self.status, self.hyps, self.goal, self.why, self.backend = status, hyps, goal, why, backend
    def __repr__(self):
        return 'Result(%s %s)' % (self.status, self.why)

def pointwise(d):
    """sum f_i + rest == 0 follows from f_1(j) + ... == 0 for every j when the rest is zero"""
    dd, c = tm.lin(d)
    if c != 0 or len(dd) < 2 or not all(t.op == 'sum' for t in dd):
        return None
    j = tm.fresh('pw', 'I')
    parts = []
    for t, co in dd.items():
        b = tm.var('@%d' % (t.h - 1), 'I')
        parts.append(tm.scale(tm.subst(t.args[0], {b: j}), co))
    return tm.TRUE, tm.eq(tm.add(*parts), tm.iv(0))

def prove(hyps, goal, ax, budget=20.0, timeout=3000):
    deadline = time.time() + budget
    used = set()
    if ax.defs:
        hyps = [tm.replace_apps(h, ax.defs) for h in hyps]
        goal = tm.replace_apps(goal, ax.defs)
    try:
        r = _prove(list(hyps), goal, ax, deadline, timeout, 0, used, [0])
    except Timeout:
        return Result('unknown', hyps, goal, 'time budget exhausted')
    except RecursionError:
        return Result('unknown', hyps, goal, 'recursion')
    if r is None:
        return Result('proved', backend='+'.join(sorted(used)) or 'normal-form')
    return r

def _prove(hyps, goal, ax, deadline, timeout, depth, used, leaves):
    if time.time() > deadline:
        raise Timeout()
    if goal is tm.TRUE:
        return None
    if goal.op == 'and':
        for g in goal.args:
            r = _prove(hyps, g, ax, deadline, timeout, depth, used, leaves)
            if r is not None:
                return r
        return None
    if goal.op == 'or':
        # keep an equation or atom as the goal and assume the negation of the rest
        pick = None
        for g in goal.args:
            if g.op == 'eq0':
                pick = g
        if pick is None:
            pick = goal.args[-1]
        return _prove(hyps + [tm.not_(g) for g in goal.args if g is not pick], pick, ax, deadline, timeout, depth + 0, used, leaves)
    leaves[0] += 1
    if leaves[0] > 3000 or depth > 60:
        return Result('unknown', hyps, goal, 'too many cases')
    cn = Canon(hyps, ax, timeout, deadline)
    if cn.false:
        return None
    split = None
    try:
        if goal.op == 'eq0':
            r = cn.canon(goal.args[0])
            if not r.n:
                used.add('normal-form')
                STATS.leaves += 1
                return None
            g2 = tm.eq0(rf_t(RF(r.n)))
        else:
            d = cn.decide(goal)
            if d is True:
                used.add('z3')
                STATS.leaves += 1
                return None
            g2 = goal
            if goal.op == 'not' and goal.args[0].op == 'eq0':
                r = rf_t(cn.canon(goal.args[0].args[0]))
                if cn.decide(tm.lt0(r)) is True or cn.decide(tm.lt0(tm.scale(r, -1))) is True:
                    used.add('z3')
                    STATS.leaves += 1
                    return None
            if goal.op in ('le0', 'lt0'):
                r = cn.canon(goal.args[0])
                g3 = (tm.le0 if goal.op == 'le0' else tm.lt0)(rf_t(r))
                if cn.decide(g3) is True:
                    used.add('z3')
                    STATS.leaves += 1
                    return None
    except NeedSplit as e:
        split = e.cond
    except Undecided as e:
        return Result('unknown', hyps, goal, 'undecided: %s' % e)
    if split is not None:
        if cn.infeasible():
            used.add('z3')
            return None
        for val in (True, False):
            h = split if val else tm.not_(split)
            r = _prove([tm.subst_cond(x, split, val) for x in hyps] + [h], tm.subst_cond(goal, split, val), ax, deadline, timeout, depth + 1, used, leaves)
            if r is not None:
                return r
        return None
    # contradictory case, or provable by z3 on the normal form
    if cn.infeasible():
        used.add('z3')
        STATS.leaves += 1
        return None
    if goal.op == 'eq0':
        try:
            if cn.query([tm.not_(g2)], ()):
                used.add('z3')
                STATS.leaves += 1
                return None
        except Undecided:
            pass
    if goal.op == 'eq0' and depth < 40:
        g = pointwise(goal.args[0])
        if g is not None:
            r = _prove(hyps + [g[0]], g[1], ax, deadline, timeout, depth + 10, used, leaves)
            if r is None:
                return None
    # bring sums in the hypotheses to normal form
    if depth < 50:
        nh, changed, split = [], False, None
        for h in cn.hyps:
            a = h.args[0] if h.op == 'not' else h
            if a.op in ('le0', 'lt0', 'eq0') and (h.op == 'not' or a.op != 'eq0') and any(x.op == 'sum' for x in tm.subterms(h)):
                try:
                    x = {'le0': tm.le0, 'lt0': tm.lt0, 'eq0': tm.eq0}[a.op](cn.canon_t(a.args[0]))
                    if x in (tm.TRUE, tm.FALSE):
                        # not from itself
                        other = Canon([y for y in cn.hyps if y is not h], ax, timeout, deadline)
                        x = {'le0': tm.le0, 'lt0': tm.lt0, 'eq0': tm.eq0}[a.op](other.canon_t(a.args[0]))
                except NeedSplit as e:
                    if not any(n[0] == '@' for n in e.cond.fv): split = e.cond
                    x = a
                except Undecided:
                    x = a
                if x is not a:
                    changed = True
                    h = tm.not_(x) if h.op == 'not' else x
            nh.append(h)
        if split is not None and depth < 12:
            for val in (True, False):
                hh = split if val else tm.not_(split)
                r = _prove([tm.subst_cond(x, split, val) for x in hyps] + [hh], tm.subst_cond(goal, split, val), ax, deadline, timeout, depth + 1, used, leaves)
                if r is not None:
                    return r
            return None
        if changed:
            # equations that were solved for variables are kept by substituting them in the goal
            return _prove(nh, tm.subst(goal, cn.sub) if cn.sub else goal, ax, deadline, timeout, depth + 10, used, leaves)
    # drop alternatives that cannot hold
    if depth < 50 and any(h.op == 'or' for h in cn.hyps):
        nh, changed = [], False
        for h in cn.hyps:
            if h.op == 'or':
                keep = [a for a in h.args if cn.decide(a) is not False]
                if len(keep) < len(h.args):
                    changed = True
                    h = tm.or_(*keep)
            nh.append(h)
        if changed:
            return _prove(nh, tm.subst(goal, cn.sub) if cn.sub else goal, ax, deadline, timeout, depth + 10, used, leaves)
    # split on remaining conditions of the hypotheses (disjunctions)
    for h in cn.hyps:
        c = None
        if h.op == 'or' and depth < 12:
            c = h.args[0]
        elif first_cond(h) is not None and depth < 12:
            c = first_cond(h)
        if c is not None and cn.decide(c) is None and not any(n[0] == '@' for n in c.fv):
            for val in (True, False):
                hh = c if val else tm.not_(c)
                r = _prove([tm.subst_cond(x, c, val) for x in hyps] + [hh], tm.subst_cond(goal, c, val), ax, deadline, timeout, depth + 1, used, leaves)
                if r is not None:
                    return r
            return None
    return Result('failed', hyps, goal, 'normal form: %s' % tm.show(g2)[:6000])
