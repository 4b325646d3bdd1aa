"""C12: every vector kernel's body against its contract (elsewhere callers are
checked against that contract only), and the packed containers."""
from common import *
import contracts
I = tm.iv
def params(e, f):
    return [e.ex.ty.parse(p['type'].get('desugaredQualType') or p['type']['qualType'], 'distributions') for p in f.params]
def kernel(f, inplace=False):
    """the body against the contract on regions of larger arrays"""
    e = Env(f.qn)
    n = tm.var('n', 'I')
    e.require(tm.le(Z, n), tm.lt(n, I(2**31)))
    if f.qn.endswith(('vector_min', 'vector_max')): e.require(tm.le(I(1), n))
    a1, a2, cells = [n], [n], []
    for i, t in enumerate(params(e, f)[1:]):
        if t[0] == 'ptr':
            x = e.obj('array%d' % i, ('vec', ('float',)))
            off = tm.var('offset%d' % i, 'I')
            e.require(tm.le(Z, off), tm.le(tm.add(off, n), e.get(x).n))
            if i == 0 and '_log' in f.qn or '_lgamma' in f.qn:
                e.ex.ax.fun('array%d' % i, lambda *a, i=i: tm.lt(Z, tm.app('array%d' % i, a, 'R')))
            y = e.copy('array%d_after' % i, x)
            a1.append(Ptr(x, off)); a2.append(Ptr(y, off)); cells.append((x, y, i))
        else:
            v = e.value('scalar%d' % i, t)
            a1.append(v); a2.append(v)
    e.nosafety = True
    r1 = e.call(f, None, *a1)             # the contract
    e.seen, e.tseen = len(e.ex.obls), len(e.ex.throws)
    e.nosafety = False
    r2 = e.call(f, None, *a2, body=True)   # the body
    if r1 is not None: e.equal('result', r2, r1)
    for x, y, i in cells: e.equal('array %d' % i, e.get(y), e.get(x))
    return e
def packed(q):
    def remove():
        e = Env(q + '::packed_remove')
        s = e.obj('p', e.type(q))
        v = e.get(s)
        v = v if isinstance(v, Vec) else base_of(v)
        pos_ = tm.var('pos', 'I')
        e.require(tm.le(Z, pos_), tm.lt(pos_, v.n))
        e.call(q + '::packed_remove', s, pos_)
        w = e.get(s)
        w = w if isinstance(w, Vec) else base_of(w)
        last = tm.sub(v.n, I(1))
        e.ensure('one element fewer', tm.eq(w.n, last))
        i = tm.var('i', 'I')
        h = [tm.le(Z, i), tm.lt(i, last)]
        e.equal('the last element takes the removed one\'s place, the others stay', w.get(i), vite(tm.eq(i, pos_), v.get(last), v.get(i)), h)
        return e
    def add():
        e = Env(q + '::packed_add')
        s = e.obj('p', e.type(q))
        v = vec_of(e.get(s))
        x = e.obj('x', v.ety)
        e.require(tm.lt(v.n, I(2**31 - 2)))
        x0 = e.get(x)
        e.call(q + '::packed_add', s, x)
        w = vec_of(e.get(s))
        e.ensure('one element more', tm.eq(w.n, tm.add(v.n, I(1))))
        i = tm.var('i', 'I')
        e.equal('existing elements stay', w.get(i), v.get(i), [tm.le(Z, i), tm.lt(i, v.n)])
        e.equal('the new element is last', w.get(v.n), x0)
        return e
    def grow():
        e = Env(q + '::packed_add()')
        s = e.obj('p', e.type(q))
        v = vec_of(e.get(s))
        e.require(tm.lt(v.n, I(2**31 - 2)))
        e.call(q + '::packed_add', s)
        w = vec_of(e.get(s))
        e.ensure('one element more', tm.eq(w.n, tm.add(v.n, I(1))))
        i = tm.var('i', 'I')
        e.equal('existing elements stay', w.get(i), v.get(i), [tm.le(Z, i), tm.lt(i, v.n)])
        return e
    return remove, add, grow
def vec_of(v):
    if isinstance(v, Vec): return v
    for x in v.f.values():
        if isinstance(x, Vec): return x
    raise Unsupported('packed container without elements')
base_of = vec_of
def jobs():
    p = spec.program()
    k = 0
    for q in contracts.KERNELS:
        for f in p.lookup(q):
            if f.body is not None:
                k += 1
                yield '%s #%d' % (q.split('::')[-1], k), lambda f=f: kernel(f)
    for q in sorted(p.records):
        if q.startswith(D + 'Packed_<'):
            for g in packed(q):
                ms = [f for f in p.lookup(q + '::packed_' + ('remove' if g.__name__ == 'remove' else 'add')) if f.body is not None and len(f.params) == (0 if g.__name__ == 'grow' else 1)]
                if ms: yield 'Packed_ of ' + q[len(D + 'Packed_<'):].split(',')[0].split('::')[-2 if '::Group' in q else -1] + ' ' + g.__name__, g
