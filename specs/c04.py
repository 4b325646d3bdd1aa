"""C04: mixture data score is the sum of its groups' scores; grids score each candidate alone."""
from common import *

def total(m, small):
    x = Mix(m, 'sum of groups', small)
    e = x.e
    gs = x.groups()
    r = x.do('score_data', e.rngcell)
    i = x.index('i')
    s = e.method(e.put('og', gs.get(i)), 'score_data', x.sh, e.rngcell)
    e.ensure('score_data == sum of the groups\' score_data', tm.eq(r, tm.sum_range(Z, gs.n, lambda j: tm.subst(s, {i: j}))))
    e.equal('scoring leaves the groups unchanged', gview(m, e, x.groups()), gview(m, e, gs))
    return e
def shareds(m, e, sh):
    """a vector of valid shared parameters of the dimension of sh"""
    lv = e.obj('shareds', ('vec', ('rec', m.q + '::Shared')))
    v = e.get(lv)
    j = tm.fresh('j', 'I')
    el = v.get(j)
    conds = m.shared_pre(e, el)
    if m.key == 'dpd': return dpd_shareds(e, lv, v, sh)
    if m.key == 'dd':
        # candidates of one dimension: that of sh
        conds = []
        e.set(lv, Vec(v.n, v.bv, Rec(v.el.ty, dict(v.el.f, dim=e.get(sh, 'dim'))), v.ety))
    for _, _, t in leaves(el):
        if t.op == 'app' and t.args[1] is j:
            f, s = t.args[0], t.sort
            if m.key == 'dd' and len(t.args) > 2:
                e.ex.ax.fun(f, lambda *a, f=f: tm.implies(tm.and_(tm.le(Z, a[0]), tm.lt(a[0], v.n), tm.le(Z, a[1]), tm.lt(a[1], e.get(sh, 'dim'))), pos(tm.app(f, a, 'R'))))
            else:
                e.ex.ax.fun(f, lambda *a: tm.implies(tm.and_(tm.le(Z, a[0]), tm.lt(a[0], v.n)), tm.and_(*[tm.subst(c, {j: a[0]}) for c in conds])))
    return lv
def dpd_shareds(e, lv, v, sh):
    """candidates that know (at least) the values sh knows"""
    known = map_of(e.get(sh, 'betas'))
    j = v.bv
    inside = lambda i: tm.and_(tm.le(Z, i), tm.lt(i, v.n))
    el = v.el
    bs = el.f['betas']
    b = map_of(bs)
    mem = tm.or_(known.has(b.bv), b.mem)
    b2 = Map(b.bv, mem, b.val, b.kty, b.vty)
    name = next(k for k, x in bs.f.items() if x is b)
    v = Vec(v.n, j, Rec(el.ty, dict(el.f, betas=Rec(bs.ty, {**bs.f, name: b2}))), v.ety)
    e.set(lv, v)
    ax = e.ex.ax
    ax.fun(b.val.args[0], lambda i, k: tm.implies(tm.and_(inside(i), tm.subst(mem, {j: i, b.bv: k})), pos(tm.app(b.val.args[0], (i, k), 'R'))))
    ax.fun(b.mem.args[0], lambda i, k: tm.implies(tm.app(b.mem.args[0], (i, k), 'B'), tm.not_(tm.eq(k, BYKEY['dpd'].OTHER))))
    for f, ok in (('alpha', pos), ('gamma', pos), ('beta0', nonneg)):
        ax.fun(el.f[f].args[0], lambda i, f=f, ok=ok: tm.implies(inside(i), ok(tm.app(el.f[f].args[0], (i,), 'R'))))
    return lv
def dd_grid_invariant(x, lv):
    """The incremental grid keeps the scorer's caches equal to those score_data leaves
    behind: before iteration k of the outer loop for candidate k, and inside the loop over
    values for a parameter with the first k values of the next candidate and the
    rest of the previous one."""
    e = x.e
    f = e.fn(x.qn + '::score_data', 2)
    def after(ex, st, one):
        s2 = st.copy()
        s2.cells['&virtual'] = one
        ex.apply(f, x.s, [LV('&virtual'), e.rngcell], s2, ('hint',))
        del s2.cells['&virtual']
        return s2
    def hint(ex, L):
        v = ex.load(L.st, lv)
        rec, ex.record = ex.record, False
        try:
            if not ex.loopvars:
                return after(ex, L.st, v.get(L.kap))
            k = ex.loopvars[-1]
            old, new = v.get(k), v.get(tm.add(k, tm.iv(1)))
            oa, na = old.f['alphas'], new.f['alphas']
            el = tm.ite(tm.lt(oa.bv, L.kap), na.get(oa.bv), oa.el)
            return after(ex, L.st, Rec(old.ty, dict(old.f, alphas=Vec(oa.n, oa.bv, el, oa.ety))))
        finally:
            ex.record = rec
    return hint
def grid(m, small):
    x = Mix(m, 'grid', small)
    e = x.e
    lv = shareds(m, e, x.sh)
    v = e.get(lv)
    out = e.floats('out', v.n)
    if m.key == 'dd': e.ex.loop_hint['score_data_grid'] = dd_grid_invariant(x, lv)
    e.call(x.qn + '::score_data_grid', x.s, lv, e.aligned(out, v.n), e.rngcell)
    k = x.index('k', v.n)
    one = e.put('one', v.get(k))
    r = e.call(x.qn + '::score_data', x.s, one, e.rngcell)
    e.ensure('grid[k] == score_data(shareds[k])', tm.eq(e.get(out).get(k), r))
    e.ensure('the grid keeps its size', tm.eq(e.get(out).n, v.n))
    return e
def jobs():
    for m in MIXED:
        for small in (False, True):
            for f in (total, grid):
                yield '%s %s %s' % (m.key, 'small' if small else 'fast', f.__name__), (lambda f=f, m=m, small=small: f(m, small))
