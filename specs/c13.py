"""C13: protobuf_load(protobuf_dump(x)) is x.  Messages are the classes of
/repo's schema.proto (vcg/messages.py); the message dumped into and the object
loaded into hold arbitrary contents."""
from common import *
import spec, messages
spec.PROG = messages.program()
I, R = tm.iv, tm.rv
MSG = {'bb': 'BetaBernoulli', 'bnb': 'BetaNegativeBinomial', 'gp': 'GammaPoisson', 'nich': 'NormalInverseChiSq', 'dd': 'DirichletDiscrete',
       'dpd': 'DirichletProcessDiscrete', 'niw2': 'NormalInverseWishart', 'niw3': 'NormalInverseWishart'}
def dump_load(e, qn, x, msg, y):
    e.call(qn + '::protobuf_dump', x, msg)
    e.call(qn + '::protobuf_load', y, msg)
def garbage(e, name, qn): return e.obj(name, ('rec', qn))
def shared(m):
    e = m.env('shared parameters')
    sh = m.shared(e); s0 = e.copy('s0', sh)
    q = m.q + '::Shared'
    y = garbage(e, 'y', q)
    msg = garbage(e, 'msg', D + 'message::%s::Shared' % MSG[m.key])
    dump_load(e, q, sh, msg, y)
    e.equal('dumping leaves the parameters unchanged', shview(m, e, sh), shview(m, e, s0))
    e.equal('load(dump(shared)) == shared', shview(m, e, y), shview(m, e, sh))
    return e
def group(m):
    e = m.env('group statistics')
    sh = m.shared(e); g = m.group(e, 'g', sh); g0 = e.copy('g0', g)
    q = m.q + '::Group'
    y = garbage(e, 'y', q)
    msg = garbage(e, 'msg', D + 'message::%s::Group' % MSG[m.key])
    dump_load(e, q, g, msg, y)
    same_group(m, e, 'dumping leaves the group unchanged', g, g0, sh)
    same_group(m, e, 'load(dump(group)) == group', y, g, sh)
    return e
def shview(m, e, lv):
    s = e.get(lv)
    if m.key == 'dd':
        c = s.f['alphas']
        return Rec(s.ty, dict(s.f, alphas=Vec(s.f['dim'], c.bv, c.el, c.ety)))
    return s
def clustering(k):
    e = Env(k)
    q = D + 'Clustering<int>::' + k
    x = garbage(e, 'x', q); x0 = e.copy('x0', x); y = garbage(e, 'y', q)
    for n, t in e.ex.ty.fields(q):
        if t[0] == 'int': e.require(nonneg(e.get(x, n)))
    msg = garbage(e, 'msg', D + 'message::Clustering::' + k)
    dump_load(e, q, x, msg, y)
    e.equal('dumping leaves the parameters unchanged', e.get(x), e.get(x0))
    e.equal('load(dump(x)) == x', e.get(y), e.get(x))
    return e
# ---- DPD: the containers are dumped in the order of their enumeration
def enumeration(e, keys, m):
    """the dumped keys are an enumeration K of the map m; P is its inverse.  Every key of a
    finite map is enumerated exactly once; the sum over a map is the sum over its enumeration"""
    i = tm.fresh('i', 'I')
    el = keys.get(i)
    en = {x.args[0] for x in tm.subterms(el) if x.op == 'app' and x.args[0].startswith('enum:')}
    if len(en) != 1: raise Unsupported('dumped keys %s' % tm.show(el))
    K = en.pop()
    P = 'pos:' + K[5:]
    e.ensure('the keys dumped are an enumeration of the map', tm.implies(tm.and_(tm.le(Z, i), tm.lt(i, keys.n)), tm.eq(el, tm.app(K, (i,), 'I'))))
    e.ensure('all keys are dumped', tm.eq(keys.n, m.size()))
    at = lambda j: tm.app(K, (j,), 'I')
    pos_ = lambda k: tm.app(P, (k,), 'I')
    e.ex.ax.fun(P, lambda k: tm.implies(m.has(k), tm.and_(tm.le(Z, pos_(k)), tm.lt(pos_(k), keys.n), tm.eq(at(pos_(k)), k))))
    return at, pos_
def sum_is(e, m, at, n):
    j = tm.fresh('k', 'I')
    e.require(tm.eq(tm.bsum(j, tm.ite(m.has(j), m.get(j), Z if m.vty[0] == 'int' else R(0))), tm.sum_range(Z, n, lambda i: m.get(at(i)))))
def sub_map(m, pos_, k):
    """the first k entries"""
    y = tm.fresh('y', 'I')
    return Map(y, tm.and_(m.has(y), tm.lt(pos_(y), k)), m.get(y), m.kty, m.vty, k)
def put_map(v, m, total=None):
    """v with its map replaced"""
    f = {k: m if isinstance(x, Map) else (total if total is not None and isinstance(x, T) else x) for k, x in v.f.items()}
    return Rec(v.ty, f)
def same_map(e, what, a, b):
    k = tm.var('k', 'I')
    e.ensure(what + ': keys', tm.iff(a.has(k), b.has(k)))
    e.ensure(what + ': values', tm.implies(b.has(k), tm.eq(a.get(k), b.get(k))))
def dpd_group():
    m = BYKEY['dpd']
    e = m.env('group statistics')
    sh = m.shared(e); g = m.group(e, 'g', sh); g0 = e.copy('g0', g)
    q = m.q + '::Group'
    y = garbage(e, 'y', q)
    msg = garbage(e, 'msg', D + 'message::%s::Group' % MSG['dpd'])
    e.call(q + '::protobuf_dump', g, msg)
    M = e.get(msg).f
    keys = next(iter(M['keys_'].f.values()))
    c, t = sc_parts(e.get(g, 'counts'))
    at, pos_ = enumeration(e, keys, c)
    sum_is(e, c, at, keys.n)
    def hint(ex, L):
        s = L.st.copy()
        v = ex.load(s, y)
        ex.store(s, y, Rec(v.ty, dict(v.f, counts=put_map(v.f['counts'], sub_map(c, pos_, L.kap), tm.sum_range(Z, L.kap, lambda i: c.get(at(i)))))))
        return s
    e.ex.loop_hint['protobuf_load'] = hint
    e.call(q + '::protobuf_load', y, msg)
    a, ta = sc_parts(e.get(y, 'counts'))
    same_map(e, 'load(dump(group)).counts', a, c)
    e.ensure('load(dump(group)): total', tm.eq(ta, t))
    same_map(e, 'dumping leaves the counts unchanged', sc_parts(e.get(g, 'counts'))[0], sc_parts(e.get(g0, 'counts'))[0])
    e.ensure('dumping leaves the total unchanged', tm.eq(sc_parts(e.get(g, 'counts'))[1], sc_parts(e.get(g0, 'counts'))[1]))
    return e
def dpd_shared():
    m = BYKEY['dpd']
    e = m.env('shared parameters')
    sh = m.shared(e); s0 = e.copy('s0', sh)
    q = m.q + '::Shared'
    y = garbage(e, 'y', q)
    msg = garbage(e, 'msg', D + 'message::%s::Shared' % MSG['dpd'])
    b = map_of(e.get(sh, 'betas'))
    c, t = sc_parts(e.get(sh, 'counts'))
    # C14: registered exactly where weighted, with positive counts
    k = tm.var('any', 'I')
    x, h, hb = c.get(k), c.has(k), b.has(k)
    e.ex.ax.fun(x.args[0], lambda *a: tm.implies(c.has(a[-1]), pos(tm.app(x.args[0], a, 'I'))))
    e.ex.ax.fun(h.args[0], lambda *a: tm.iff(tm.app(h.args[0], a, 'B'), b.has(a[-1])))
    e.ex.ax.fun(hb.args[0], lambda *a: tm.iff(tm.app(hb.args[0], a, 'B'), c.has(a[-1])))
    e.call(q + '::protobuf_dump', sh, msg)
    M = e.get(msg).f
    keys = next(iter(M['values_'].f.values()))
    at, pos_ = enumeration(e, keys, b)
    # C14: the weights and the stick sum to one; the total is the sum of the counts
    wsum = lambda n: tm.sum_range(Z, n, lambda i: b.get(at(i)))
    e.require(tm.eq(tm.add(e.get(sh, 'beta0'), wsum(keys.n)), R(1)))
    e.require(tm.eq(t, tm.sum_range(Z, keys.n, lambda i: c.get(at(i)))))
    def hint(ex, L):
        s = L.st.copy()
        v = ex.load(s, y)
        ex.store(s, y, Rec(v.ty, dict(v.f, betas=put_map(v.f['betas'], sub_map(b, pos_, L.kap)),
                                      counts=put_map(v.f['counts'], sub_map(c, pos_, L.kap), tm.sum_range(Z, L.kap, lambda i: c.get(at(i)))))))
        return s
    e.ex.loop_hint['protobuf_load'] = hint
    e.call(q + '::protobuf_load', y, msg)
    v = e.get(y)
    for f in ('alpha', 'gamma', 'beta0'):
        e.ensure('load(dump(shared)).%s' % f, tm.eq(v.f[f], e.get(s0, f)))
    same_map(e, 'load(dump(shared)).betas', map_of(v.f['betas']), b)
    same_map(e, 'load(dump(shared)).counts', sc_parts(v.f['counts'])[0], c)
    e.ensure('load(dump(shared)).counts: total', tm.eq(sc_parts(v.f['counts'])[1], t))
    for f in ('alpha', 'gamma', 'beta0'):
        e.ensure('dumping leaves %s unchanged' % f, tm.eq(e.get(sh, f), e.get(s0, f)))
    same_map(e, 'dumping leaves the weights unchanged', map_of(e.get(sh, 'betas')), b)
    same_map(e, 'dumping leaves the counts unchanged', sc_parts(e.get(sh, 'counts'))[0], c)
    return e
def jobs():
    yield 'dpd shared', dpd_shared
    yield 'dpd group', dpd_group
    for m in [m for m in MIXED if m.key != "dpd"] + NIWS:
        yield m.key + ' shared', lambda m=m: shared(m)
        yield m.key + ' group', lambda m=m: group(m)
    for k in ('PitmanYor', 'LowEntropy'):
        yield k, lambda k=k: clustering(k)
