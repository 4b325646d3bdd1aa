"""C09: sparse counters and maps are the mathematical maps their interface names."""
from common import *
I = tm.iv
SC, SM = D + 'SparseCounter<unsigned int,int>', D + 'Sparse_<unsigned int,float>'
LIM = I(2**31)
parts, fields, count, total = sc_parts, sc_fields, sc_count, sc_total
def counter(e, name):
    """a counter satisfying the class invariant"""
    lv = e.obj(name, ('rec', SC))
    v = e.get(lv)
    m, t = parts(v)
    x = m.get(tm.var('any', 'I'))
    f = x.args[0]
    e.ex.ax.fun(f, lambda *a: tm.implies(m.has(a[-1]), tm.not_(tm.eq(tm.app(f, a, 'I'), Z))))
    e.require(tm.eq(t, total(v)))
    return lv
def invariant(e, what, lv):
    v = e.get(lv)
    m, t = parts(v)
    k = tm.var('any', 'I')
    e.ensure(what + ': no key is listed with count zero', tm.implies(m.has(k), tm.not_(tm.eq(m.get(k), Z))), keyrange(m.kty, k))
    e.ensure(what + ': the total is the sum of the counts', tm.eq(t, total(v)))
def key(e, name):
    k = e.obj(name, ('int', False, 32))
    return e.get(k)
def is_map(e, what, lv, f, tot):
    """the counter is the function f with the given total, through its interface"""
    k = key(e, 'k_' + what.split()[0])
    e.nosafety = True
    r = e.call(SC + '::get_count', lv, k)
    t = e.call(SC + '::get_total', lv)
    e.nosafety = False
    e.ensure(what + ': get_count', tm.eq(r, f(k)))
    e.ensure(what + ': get_total', tm.eq(t, tot))
    invariant(e, what, lv)
def small(e, *ts):
    e.require(*[tm.and_(tm.lt(tm.neg(LIM) if hasattr(tm, 'neg') else tm.scale(LIM, -1), t), tm.lt(t, LIM)) for t in ts])
# ---- counters
def c_new():
    e = Env('counter construction')
    c = e.blank('c', ('rec', SC))
    e.call(SC + '::SparseCounter', c, n=0)
    is_map(e, 'a new counter', c, lambda k: Z, Z)
    return e
def c_clear():
    e = Env('clear')
    c = e.obj('c', ('rec', SC))   # whatever it held
    e.call(SC + '::clear', c)
    is_map(e, 'clear', c, lambda k: Z, Z)
    return e
def c_read():
    e = Env('get_count')
    c = counter(e, 'c')
    v = e.get(c)
    k = key(e, 'k')
    r = e.call(SC + '::get_count', c, k)
    e.ensure('get_count', tm.eq(r, count(v, k)))
    e.ensure('absent keys count zero', tm.implies(tm.not_(parts(v)[0].has(k)), tm.eq(r, Z)))
    e.ensure('get_total', tm.eq(e.call(SC + '::get_total', c), total(v)))
    e.equal('reading changes nothing', e.get(c), v)
    return e
def c_add():
    e = Env('add')
    c = counter(e, 'c')
    v = e.get(c)
    k = key(e, 'k')
    n = e.get(e.obj('n', 'int'))
    r = e.call(SC + '::add', c, k, n)
    e.ensure('add returns the new count', tm.eq(r, tm.add(count(v, k), n)))
    is_map(e, 'add', c, lambda x: tm.add(count(v, x), tm.ite(tm.eq(x, k), n, Z)), tm.add(parts(v)[1], n))
    return e
def c_remove():
    e = Env('remove')
    c = counter(e, 'c')
    v = e.get(c)
    k = key(e, 'k')
    r = e.call(SC + '::remove', c, k)
    e.ensure('remove returns the new count', tm.eq(r, tm.sub(count(v, k), I(1))))
    is_map(e, 'remove', c, lambda x: tm.sub(count(v, x), tm.ite(tm.eq(x, k), I(1), Z)), tm.sub(parts(v)[1], I(1)))
    return e
def c_init():
    e = Env('init_count')
    c = counter(e, 'c')
    v = e.get(c)
    k = key(e, 'k')
    n = e.get(e.obj('n', 'int'))
    e.require(tm.or_(tm.eq(n, Z), tm.eq(count(v, k), Z)))
    e.call(SC + '::init_count', c, k, n)
    is_map(e, 'init_count', c, lambda x: tm.ite(tm.eq(x, k), tm.add(count(v, k), n), count(v, x)), tm.add(parts(v)[1], n))
    return e
def c_merge():
    e = Env('merge')
    a, b = counter(e, 'a'), counter(e, 'b')
    va, vb = e.get(a), e.get(b)
    merge_hint(e, a, b)
    e.call(SC + '::merge', a, b)
    is_map(e, 'merge', a, lambda x: tm.add(count(va, x), count(vb, x)), tm.add(parts(va)[1], parts(vb)[1]))
    e.equal('merge leaves its source unchanged', e.get(b), vb)
    return e
def merge_hint(e, a, b):
    """invariant of the merge loop: the counts of the keys visited so far are added"""
    def hint(ex, L):
        if L.keyed is None or L.keyed.root != b.root: return None
        s = L.st.copy()
        ex.store(s, a, sc_merged(ex.load(L.st, a), ex.load(L.st, b), L.V(L.kap)))
        return s
    e.ex.loop_hint['merge'] = hint
def c_rename():
    e = Env('rename')
    c = counter(e, 'c')
    v = e.get(c)
    a, b = key(e, 'old_key'), key(e, 'new_key')
    e.require(tm.or_(tm.eq(count(v, b), Z), tm.eq(a, b), tm.eq(count(v, a), Z)))
    e.call(SC + '::rename', c, a, b)
    is_map(e, 'rename', c, lambda x: tm.ite(tm.or_(tm.eq(a, b), tm.eq(count(v, a), Z)), count(v, x),
                                            tm.ite(tm.eq(x, b), count(v, a), tm.ite(tm.eq(x, a), Z, count(v, x)))), parts(v)[1])
    return e
def c_duplicate():
    e = Env('init_count of a listed key')
    c = counter(e, 'c')
    v = e.get(c)
    k = key(e, 'k')
    n = e.get(e.obj('n', 'int'))
    e.require(tm.not_(tm.eq(count(v, k), Z)), tm.not_(tm.eq(n, Z)))
    rejected(e, 'a duplicate init_count is rejected', SC + '::init_count', c, k, n)
    return e
# ---- maps
def mp(v):
    if isinstance(v, Map): return v
    m = [x for x in v.f.values() if isinstance(x, Map)]
    if len(m) != 1: raise Unsupported('layout of Sparse_')
    return m[0]
def the_map(e): return e.obj('s', ('rec', SM))
def rejected(e, what, qn, lv, *args, **kw):
    """the call cannot return: its assertion fails"""
    e.nosafety = True
    n0 = len(e.ex.throws)
    before = e.st.copy()
    try:
        e.call(qn, lv, *args, **kw)
    except Unsupported as u:
        if 'never returns' not in str(u): raise
        e.st = before
        e.st.assume(tm.FALSE)
    e.nosafety = False
    if len(e.ex.throws) == n0: raise Unsupported('no assertion in ' + qn)
    e.ensure(what, tm.FALSE)
def holds(e, what, lv, mem, val):
    """the map through its interface"""
    k = key(e, 'k_obs')
    e.nosafety = True
    r = e.call(SM + '::contains', lv, k)
    e.ensure(what + ': contains', tm.iff(r, mem(k)))
    e.st.assume(mem(k))
    g = e.call(SM + '::get', lv, k, pred=lambda f: f.const)
    e.nosafety = False
    e.ensure(what + ': get', tm.eq(g, val(k)))
def m_clear():
    e = Env('map clear')
    s = the_map(e)
    e.call(SM + '::clear', s)
    k = key(e, 'k')
    e.ensure('nothing is contained after clear', tm.not_(e.call(SM + '::contains', s, k)))
    e.ensure('size is zero after clear', tm.eq(e.call(SM + '::size', s), Z))
    return e
def m_add():
    e = Env('map add')
    s = the_map(e); m = mp(e.get(s)); k = key(e, 'k')
    x = e.get(e.obj('x', 'float'))
    e.require(tm.not_(m.has(k)))
    n = e.call(SM + '::size', s)
    e.call(SM + '::add', s, k, x)
    e.ensure('size grows by one', tm.eq(e.call(SM + '::size', s), tm.add(n, I(1))))
    holds(e, 'add', s, lambda j: tm.or_(m.has(j), tm.eq(j, k)), lambda j: tm.ite(tm.eq(j, k), x, m.get(j)))
    return e
def m_add1():
    e = Env('map add(key)')
    s = the_map(e); m = mp(e.get(s)); k = key(e, 'k')
    e.require(tm.not_(m.has(k)))
    e.call(SM + '::add', s, k)
    holds(e, 'add', s, lambda j: tm.or_(m.has(j), tm.eq(j, k)), lambda j: tm.ite(tm.eq(j, k), tm.rv(0), m.get(j)))
    return e
def m_remove():
    e = Env('map remove')
    s = the_map(e); m = mp(e.get(s)); k = key(e, 'k')
    e.require(m.has(k))
    n = e.call(SM + '::size', s)
    e.call(SM + '::remove', s, k)
    e.ensure('size shrinks by one', tm.eq(e.call(SM + '::size', s), tm.sub(n, I(1))))
    holds(e, 'remove', s, lambda j: tm.and_(m.has(j), tm.not_(tm.eq(j, k))), lambda j: m.get(j))
    return e
def m_pop():
    e = Env('map pop')
    s = the_map(e); m = mp(e.get(s)); k = key(e, 'k')
    e.require(m.has(k))
    r = e.call(SM + '::pop', s, k)
    e.ensure('pop returns the value', tm.eq(r, m.get(k)))
    holds(e, 'pop', s, lambda j: tm.and_(m.has(j), tm.not_(tm.eq(j, k))), lambda j: m.get(j))
    return e
def m_set():
    e = Env('map set')
    s = the_map(e); m = mp(e.get(s)); k = key(e, 'k')
    x = e.get(e.obj('x', 'float'))
    e.require(m.has(k))
    e.call(SM + '::set', s, k, x)
    holds(e, 'set', s, lambda j: m.has(j), lambda j: tm.ite(tm.eq(j, k), x, m.get(j)))
    return e
def m_get():
    e = Env('map get')
    s = the_map(e); m = mp(e.get(s)); k = key(e, 'k')
    x = e.get(e.obj('x', 'float'))
    e.require(m.has(k))
    r = e.call(SM + '::get', s, k, pred=lambda f: not f.const, lv=True)
    e.ensure('get', tm.eq(e.get(r), m.get(k)))
    e.set(r, x)
    holds(e, 'writing through get', s, lambda j: m.has(j), lambda j: tm.ite(tm.eq(j, k), x, m.get(j)))
    return e
def m_get_or_add():
    e = Env('map get_or_add')
    s = the_map(e); m = mp(e.get(s)); k = key(e, 'k')
    x = e.get(e.obj('x', 'float'))
    r = e.call(SM + '::get_or_add', s, k, lv=True)
    e.ensure('get_or_add', tm.eq(e.get(r), tm.ite(m.has(k), m.get(k), tm.rv(0))))
    e.set(r, x)
    holds(e, 'writing through get_or_add', s, lambda j: tm.or_(m.has(j), tm.eq(j, k)), lambda j: tm.ite(tm.eq(j, k), x, m.get(j)))
    return e
def reject(name, absent, nargs):
    def f():
        e = Env('map %s rejects' % name)
        s = the_map(e); m = mp(e.get(s)); k = key(e, 'k')
        e.require(tm.not_(m.has(k)) if absent else m.has(k))
        args = [k] + [e.get(e.obj('x', 'float'))] * (nargs - 1)
        rejected(e, '%s %s is rejected' % (name, 'of a missing key' if absent else 'of a duplicate key'), SM + '::' + name, s, *args)
        return e
    f.__name__ = 'm_reject_%s_%d' % (name, nargs)
    return f
LEMMAS = [c_new, c_clear, c_read, c_add, c_remove, c_init, c_merge, c_rename, c_duplicate, m_clear, m_add, m_add1, m_remove, m_pop, m_set, m_get,
          m_get_or_add, reject('add', False, 1), reject('add', False, 2), reject('remove', True, 1), reject('pop', True, 1),
          reject('set', True, 2), reject('get', True, 1)]
def jobs():
    for f in LEMMAS: yield f.__name__, f
