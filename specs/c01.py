"""C01: group statistics are a function of the multiset of data."""
from common import *

def undo(m):
    e = m.env('remove undoes add')
    sh = m.shared(e); g = m.group(e, 'g', sh); v = m.value(e, 'v', sh)
    w = e.copy('w', g)
    e.method(w, 'add_value', sh, v, e.rngcell)
    e.method(w, 'remove_value', sh, v, e.rngcell)
    same_group(m, e, 'remove(add(g,v),v) == g', w, g, sh)
    return e
def redo(m):
    """removing a held value and adding it back (the history in the other order)"""
    e = m.env('adding back undoes remove')
    sh = m.shared(e); g = m.group(e, 'g', sh); v = m.value(e, 'v', sh)
    e.require(m.holds(e.get(g), e.get(v), sh))
    w = e.copy('w', g)
    e.method(w, 'remove_value', sh, v, e.rngcell)
    for i, c in enumerate(m.group_inv(e, e.get(w), sh)):
        if m.key in ('nich',) and i == 1: continue
        if m.key == 'gp' or m.key == 'bnb':
            if i in (2,): pass
        e.ensure('group invariant after remove_value #%d' % i, c)
    e.method(w, 'add_value', sh, v, e.rngcell)
    same_group(m, e, 'add(remove(g,v),v) == g', w, g, sh)
    return e
def commute(m):
    e = m.env('additions commute')
    sh = m.shared(e); g = m.group(e, 'g', sh); v = m.value(e, 'v', sh); u = m.value(e, 'u', sh)
    a, b = e.copy('a', g), e.copy('b', g)
    e.method(a, 'add_value', sh, v, e.rngcell); e.method(a, 'add_value', sh, u, e.rngcell)
    e.method(b, 'add_value', sh, u, e.rngcell); e.method(b, 'add_value', sh, v, e.rngcell)
    for i, c in enumerate(m.group_inv(e, e.get(a), sh)):
        e.ensure('group invariant after add_value #%d' % i, c)
    same_group(m, e, 'add(add(g,v),u) == add(add(g,u),v)', a, b, sh)
    return e
def repeated(m):
    e = m.env('repeated addition')
    sh = m.shared(e); g = m.group(e, 'g', sh); v = m.value(e, 'v', sh)
    n = e.obj('n', 'int')
    e.require(tm.le(tm.iv(1), e.get(n)), tm.lt(e.get(n), tm.iv(2**30)))
    a, b = e.copy('a', g), e.copy('b', g)
    e.method(a, 'add_repeated_value', sh, v, e.put('one', tm.iv(1)), e.rngcell)
    e.method(b, 'add_value', sh, v, e.rngcell)
    same_group(m, e, 'add_repeated(g,v,1) == add(g,v)', a, b, sh)
    a, b = e.copy('a', g), e.copy('b', g)
    e.method(a, 'add_repeated_value', sh, v, n, e.rngcell)
    e.method(a, 'add_value', sh, v, e.rngcell)
    e.method(b, 'add_repeated_value', sh, v, e.put('n1', tm.add(e.get(n), tm.iv(1))), e.rngcell)
    same_group(m, e, 'add_repeated(g,v,n+1) == add(add_repeated(g,v,n),v)', b, a, sh)
    return e
def fresh(m):
    e = m.env('init')
    sh = m.shared(e)
    a, b = m.garbage(e, 'ga'), m.garbage(e, 'gb')
    e.method(a, 'init', sh, e.rngcell); e.method(b, 'init', sh, e.rngcell)
    same_group(m, e, 'init does not depend on the previous contents', a, b, sh)
    for i, c in enumerate(m.group_inv(e, e.get(a), sh)):
        e.ensure('group invariant after init #%d' % i, c)
    v = m.value(e, 'v', sh)
    if hasattr(m, 'holds'):
        e.ensure('a fresh group holds no data', tm.not_(m.holds(e.get(a), e.get(v), sh)))
    return e
def merge_empty(m):
    e = m.env('merge with an empty group')
    sh = m.shared(e); g = m.group(e, 'g', sh)
    z = m.garbage(e, 'z')
    e.method(z, 'init', sh, e.rngcell)
    a = e.copy('a', g)
    e.method(a, 'merge', sh, z, e.rngcell)
    same_group(m, e, 'merge(g, empty) == g', a, g, sh)
    return e
def empty_merge(m):
    e = m.env('merge into an empty group')
    sh = m.shared(e); g = m.group(e, 'g', sh)
    z = m.garbage(e, 'z')
    e.method(z, 'init', sh, e.rngcell)
    e.method(z, 'merge', sh, g, e.rngcell)
    same_group(m, e, 'merge(empty, g) == g', z, g, sh)
    return e
def merge_step(m):
    e = m.env('merge one more value')
    sh = m.shared(e); g = m.group(e, 'g', sh); h = m.group(e, 'h', sh); v = m.value(e, 'v', sh)
    a = e.copy('a', g); h1 = e.copy('h1', h)
    e.method(h1, 'add_value', sh, v, e.rngcell)
    h2 = e.copy('h2', h1)
    e.method(a, 'merge', sh, h1, e.rngcell)
    b = e.copy('b', g)
    e.method(b, 'merge', sh, h, e.rngcell)
    for i, c in enumerate(m.group_inv(e, e.get(b), sh)):
        e.ensure('group invariant after merge #%d' % i, c)
    e.method(b, 'add_value', sh, v, e.rngcell)
    same_group(m, e, 'merge(g, add(h,v)) == add(merge(g,h), v)', a, b, sh)
    same_group(m, e, 'merge leaves its source unchanged', h1, h2, sh)
    return e

LEMMAS = [undo, redo, commute, repeated, fresh, merge_empty, empty_merge, merge_step]
def jobs():
    for m in MODELS + NIWS:
        for f in LEMMAS:
            yield '%s %s' % (m.key, f.__name__), (lambda f=f, m=m: f(m))
