"""C03: mixture value scores stay equal to per-group scores."""
from common import *

def nich_contract(m, op):
    """Group::add_value / remove_value of NICH at its call sites: the contract that
    C01 proves against the body (counts move by one, the class invariant holds
    again), the new mean and sum of squares being functions of the old state and value"""
    def h(ex, st, f, this, a, fr, e):
        g = ex.load(st, this)
        v = ex.load(st, a[1]) if isinstance(a[1], (LV, LVCond)) else a[1]
        c = g.f['count']
        n = tm.add(c, tm.iv(1 if op == 'add_value' else -1))
        if op == 'remove_value':
            ex.obl('remove_value of an empty group', st, pos(c))
        st_ = [c, g.f['mean'], g.f['count_times_variance'], tm.toreal(v)]
        new = Rec(g.ty, {'count': n, 'mean': tm.app('nich.%s.mean' % op, st_, 'R'), 'count_times_variance': tm.app('nich.%s.ctv' % op, st_, 'R')})
        for c in m.group_inv(None, new, None): st.assume(c)
        ex.store(st, this, new)
        return None
    return h
def start(m, small, name):
    x = Mix(m, name, small)
    if m.key == 'nich':
        for op in ('add_value', 'remove_value'):
            x.e.ex.contracts[m.q + '::Group::' + op] = nich_contract(m, op)
    if m.key == 'dpd' and not small:
        if name == 'init': x.dpd_cardinality()
        else:
            x.dpd_start(None if name == 'add_group' else x.group_index())
    if m.key != 'dpd' or small or name == 'init': x.do('init', x.e.rngcell)
    return x
def init(m, small):
    x = start(m, small, 'init')
    x.observe('after init')
    if m.key == 'dpd': x.invariant('after init')
    return x.e
def add_group(m, small):
    x = start(m, small, 'add_group')
    e = x.e
    g0 = x.groups()
    x.do('add_group', e.rngcell)
    g1 = x.groups()
    e.ensure('add_group appends one group', tm.eq(g1.n, tm.add(g0.n, tm.iv(1))))
    i = x.index('keep')
    e.equal('add_group leaves existing groups unchanged', view(m, e, g1.get(i), x.sh), view(m, e, g0.get(i), x.sh))
    z = m.garbage(e, 'z')
    e.method(z, 'init', x.sh, e.rngcell)
    e.equal('the new group is empty', view(m, e, g1.get(g0.n), x.sh), view(m, e, e.get(z), x.sh))
    x.observe('after add_group')
    x.invariant('after add_group')
    return e
def remove_group(m, small):
    x = start(m, small, 'remove_group')
    e = x.e
    g0 = x.groups()
    gid = x.group_index()
    x.do('remove_group', gid)
    g1 = x.groups()
    last = tm.sub(g0.n, tm.iv(1))
    e.ensure('remove_group shortens by one', tm.eq(g1.n, last))
    i = x.index('keep')
    e.require(tm.lt(i, last))
    e.equal('the last group takes the removed one\'s place, all others stay', view(m, e, g1.get(i), x.sh),
            view(m, e, vite(tm.eq(i, gid), g0.get(last), g0.get(i)), x.sh))
    x.observe('after remove_group')
    x.invariant('after remove_group')
    return e
def _value(m, small, op):
    x = start(m, small, op)
    e = x.e
    g0 = x.groups()
    gid = x.group_index()
    v = m.value(e, 'v', x.sh)
    if op == 'remove_value':
        e.require(m.holds(g0.get(gid), e.get(v), x.sh))
    x.do(op, gid, v, e.rngcell)
    g1 = x.groups()
    h = e.put('h', g0.get(gid))
    e.method(h, op, x.sh, v, e.rngcell)
    e.equal('%s acts on that group' % op, view(m, e, g1.get(gid), x.sh), view(m, e, e.get(h), x.sh))
    i = x.index('keep')
    e.equal('%s leaves other groups unchanged' % op, view(m, e, g1.get(i), x.sh), view(m, e, g0.get(i), x.sh), [tm.not_(tm.eq(i, gid))])
    e.ensure('%s keeps the number of groups' % op, tm.eq(g1.n, g0.n))
    x.observe('after %s' % op)
    x.invariant('after %s' % op)
    return e
def add_value(m, small): return _value(m, small, 'add_value')
def remove_value(m, small): return _value(m, small, 'remove_value')

def jobs():
    for m in MIXED:
        for small in (False, True):
            for f in (init, add_group, remove_group, add_value, remove_value):
                yield '%s %s %s' % (m.key, 'small' if small else 'fast', f.__name__), (lambda f=f, m=m, small=small: f(m, small))
