"""Verification environments: symbolic pre-states, calls of the real functions
and the obligations their contracts generate."""
import time, random
import term as tm
from term import T
from vals import *
from exec import Executor, Obl
import canon as cn
import contracts
D = 'distributions::'

PROG = None
def program():
    global PROG
    if PROG is None:
        import cxx
        PROG = cxx.load()
    return PROG

class Goal:
    __slots__ = ('name', 'kind', 'hyps', 'goal', 'where', 'ax', 'box')
    def __init__(self, name, kind, hyps, goal, where, ax, box=None):
        self.box = box
        self.name, self.kind, self.hyps, self.goal, self.where, self.ax = name, kind, hyps, goal, where, ax

class Env:
    """one symbolic execution environment; obligations accumulate in .goals"""
    def __init__(self, name, skip=(), static_null=False):
        self.name = name
        self.ex = Executor(program())
        self.ex.static_null = static_null
        contracts.install(self.ex, skip)
        self.st = State()
        self.st.cells['rng'] = tm.var('rng0', 'I')
        self.ex.base.append(tm.le(tm.iv(0), tm.var('rng0', 'I')))
        self.goals = []
        self.seen = 0
        self.tseen = 0
        self.nosafety = False
        self.dropped = []
        self.rngcell = self.obj('rng', ('opaque', 'rng'))
    # ---- inputs
    def type(self, s, scope='distributions'):
        return self.ex.ty.parse(s, scope)
    def value(self, name, ty):
        if isinstance(ty, str): ty = self.type(ty)
        return self.ex.fresh_value(ty, name, (), self.ex.base)
    def obj(self, name, ty):
        if isinstance(ty, str): ty = self.type(ty)
        c = '&' + name
        self.st.cells[c] = self.value(name, ty)
        return LV(c)
    def put(self, name, v):
        c = '&' + name
        n = 0
        while c in self.st.cells:
            n += 1; c = '&%s%d' % (name, n)
        self.st.cells[c] = v
        return LV(c)
    def blank(self, name, ty):
        if isinstance(ty, str): ty = self.type(ty)
        return self.put(name, self.ex.uninit(ty, name))
    def get(self, lv, *path):
        v = self.ex.load(self.st, lv)
        for p in path:
            v = v.get(p) if isinstance(p, (T, int)) and not isinstance(v, Rec) else v.f[p]
        return v
    def set(self, lv, v):
        self.ex.store(self.st, lv, v)
    def require(self, *cs):
        for c in cs:
            self.ex.base.append(c)
    def copy(self, name, lv):
        return self.put(name, self.get(lv))
    def floats(self, name, n=None):
        """an array of floats and an AlignedFloats view of it"""
        lv = self.obj(name, ('vec', ('float',)))
        if n is not None:
            v = self.get(lv)
            self.set(lv, Vec(n, v.bv, v.el, v.ety))
        return lv
    def aligned(self, lv, n=None):
        n = self.get(lv).n if n is None else n
        f = {}
        for k, t in self.ex.ty.fields(D + 'Aligned_<float>'):
            f[k] = Ptr(lv, tm.iv(0)) if t[0] == 'ptr' else n
        return Rec(D + 'Aligned_<float>', f)
    # ---- calls
    def fn(self, qn, nparams=None, pred=None):
        fs = [f for f in self.ex.p.lookup(qn) if f.body is not None]
        if nparams is not None: fs = [f for f in fs if len(f.params) == nparams]
        if pred is not None: fs = [f for f in fs if pred(f)]
        if not fs: raise Unsupported('function %s not found' % qn)
        return fs[0]
    def call(self, qn, this=None, *args, n=None, body=False, pred=None, lv=False):
        """run the real body (or its contract, when it has one and body is False)"""
        if isinstance(qn, str) and not qn.startswith(D): qn = D + qn
        f = self.fn(qn, n if n is not None else len(args), pred) if isinstance(qn, str) else qn
        ex = self.ex
        h = None if body else ex.contract_for(f, len(f.params))
        scope = f.record or f.qn.rsplit('::', 1)[0]
        a = []
        for p, x in zip(f.params, args):
            t = ex.ty.parse(p['type'].get('desugaredQualType') or p['type']['qualType'], scope)
            if t[0] == 'ref' and not isinstance(x, (LV, LVCond)):
                x = self.put('arg', x)
            elif t[0] != 'ref' and isinstance(x, (LV, LVCond)):
                x = self.get(x)
            a.append(x)
        if h is not None:
            r = h(ex, self.st, f, this, a, None, None)
        else:
            r = ex.apply(f, this, a, self.st, ('c%d' % len(self.goals), qn if isinstance(qn, str) else f.qn))
        self.collect(f.qn)
        if lv: return r
        if isinstance(r, (LV, LVCond)): r = ex.load(self.st, r)
        return r
    def method(self, lv, name, *args, n=None, body=False, pred=None):
        v = self.get(lv)
        for qn in self.bases(v.ty):
            if [f for f in self.ex.p.lookup(qn + '::' + name) if f.body is not None and (n is None or len(f.params) == n)]:
                return self.call(qn + '::' + name, lv, *args, n=n, body=body, pred=pred)
        raise Unsupported('no method %s::%s' % (v.ty, name))
    def bases(self, qn):
        out = [qn]
        r = self.ex.p.records.get(qn)
        for b in (r.bases if r else []):
            t = self.ex.ty.parse(b.get('desugaredQualType') or b['qualType'], qn)
            if t[0] == 'rec': out += self.bases(t[1])
        return out
    def collect(self, where):
        """obligations raised by the bodies just executed"""
        ex = self.ex
        for o in ex.obls[self.seen:]:
            if self.nosafety and not o.kind.startswith('loop summary'): continue
            self.goals.append(Goal('%s: %s' % (where, o.kind), 'loop' if o.kind.startswith('loop summary') else 'safety', list(ex.base) + list(o.hyps), o.goal, o.where, ex.ax))
        self.seen = len(ex.obls)
        for conds, line in ex.throws[self.tseen:]:
            if self.nosafety: continue
            self.goals.append(Goal('%s: no assertion fails' % where, 'throw', list(ex.base) + list(conds), tm.FALSE, line, ex.ax))
        self.tseen = len(ex.throws)
    # ---- postconditions
    def ensure(self, name, goal, hyps=(), kind='post'):
        self.goals.append(Goal(name, kind, list(self.ex.base) + self.st.conds() + list(hyps), goal, None, self.ex.ax))
    def equal(self, name, a, b, hyps=(), kind='post'):
        n = 0
        for path, h, g in veq(a, b):
            self.ensure(name + (' ' + '.'.join(path) if path else ''), g, tuple(hyps) + tuple(h), kind)
            n += 1
        return n
    def accurate(self, name, value, exact, tol, x, lo, hi):
        """|value - exact| <= tol for every x in [lo, hi], by certified intervals"""
        err = tm.sub(value, exact)
        g = Goal(name, 'post', list(self.ex.base) + self.st.conds(), tm.and_(tm.le(err, tol), tm.le(tm.scale(err, -1), tol)), None, self.ex.ax,
                 (err, tol, x, tm.Fraction(lo), tm.Fraction(hi), self.ex.const_tables))
        self.goals.append(g)
    def fork(self):
        """independent copy of the current state (same executor)"""
        return self.st.copy()

# ------------------------------------------------------------------ deciding
def refute(hyps, goal, ax, tries=400, seconds=8.0, seed=1):
    """numeric counterexample: an assignment meeting hyps and violating goal"""
    rnd = random.Random(seed)
    t0 = time.time()
    ok = 0
    for i in range(tries):
        if time.time() - t0 > seconds: break
        env = tm.Env(rnd, window=7)
        try:
            if not all(tm.evaluate(h, env) for h in hyps): continue
            ok += 1
            r = tm.evaluate(goal, env)
            if not r:
                # facts about the uninterpreted symbols used must hold too
                if not facts_hold(env, ax): continue
                if goal.op == 'eq0' and goal.args[0].sort == 'R':
                    d = tm.evaluate(goal.args[0], env)
                    if abs(d) < 1e-6: continue
                return {'vars': dict(env.vars), 'funs': {'%s%s' % (f, a): v for (f, a), v in list(env.funs.items())[:40]}}
        except (tm.EvalError, OverflowError, ZeroDivisionError):
            continue
    return None
def facts_hold(env, ax):
    for (t, f, a, r) in list(env.apps):
        for fact in ax.by_fun.get(f, []):
            args = [tm.num(tm.Fraction(x), 'I') if isinstance(x, int) and not isinstance(x, bool) else tm.num(tm.Fraction(x), 'R') if not isinstance(x, bool) else (tm.TRUE if x else tm.FALSE) for x in a]
            try:
                if not tm.evaluate(fact(*args), env): return False
            except (tm.EvalError, OverflowError, TypeError):
                return False
    for q in ax.quant:
        for j in range(0, 7):
            try:
                if not tm.evaluate(q(tm.iv(j)), env): return False
            except (tm.EvalError, OverflowError):
                return False
    return True
