"""Contracts of the C++ standard library (and Eigen) operations used by the code.
These are part of the trusted base: assumed, never checked."""
import re
import term as tm
from term import T
from vals import *
from ctypes_ import strip_ref
from fractions import Fraction

def recv(ex, callee, fr, st):
    b = callee['inner'][0]
    if callee.get('isArrow'):
        p = ex.rval(b, fr, st)
        if isinstance(p, MIter):
            return p
        ex.check_deref(st, p)
        return ex.deref(p)
    return ex.lval(b, fr, st)

def vresize(ex, v, n, fill):
    j = tm.fresh('b', 'I')
    return Vec(n, j, vite(tm.lt(j, v.n), v.get(j), fill), v.ety)

def argval(ex, a, fr, st):
    return ex.rval(a, fr, st)

def find(ex, st, lv, key):
    m = ex.load(st, lv)
    return MIter(lv, key, tm.not_(m.has(key)))

def method(ex, callee, args, fr, st, e):
    name = callee['name']
    lv = recv(ex, callee, fr, st)
    if isinstance(lv, MIter):
        raise Unsupported('iterator method ' + name)
    v = ex.load(st, lv)
    return vmethod(ex, name, lv, v, args, fr, st, e)

def vmethod(ex, name, lv, v, args, fr, st, e):
    if isinstance(v, CondV) and isinstance(lv, LVCond):
        raise Unsupported('conditional receiver')
    if isinstance(v, Vec):
        if name == 'size': return v.n
        if name == 'empty': return tm.eq(v.n, tm.iv(0))
        if name in ('data', 'begin', 'cbegin'): return Ptr(lv, tm.iv(0))
        if name in ('end', 'cend'): return Ptr(lv, v.n)
        if name in ('operator[]', 'at'):
            i = ex.rval(args[0], fr, st)
            ex.obl('index in bounds', st, tm.and_(tm.le(tm.iv(0), i), tm.lt(i, v.n)))
            return lv + ('i', i)
        if name == 'back':
            ex.obl('back() of empty vector', st, tm.lt(tm.iv(0), v.n))
            return lv + ('i', tm.sub(v.n, tm.iv(1)))
        if name == 'front':
            ex.obl('front() of empty vector', st, tm.lt(tm.iv(0), v.n))
            return lv + ('i', tm.iv(0))
        if name in ('push_back', 'emplace_back'):
            x = ex.rval(args[0], fr, st)
            v = ex.load(st, lv)
            j = tm.fresh('b', 'I')
            ex.store(st, lv, Vec(tm.add(v.n, tm.iv(1)), j, vite(tm.eq(j, v.n), x, v.get(j)), v.ety))
            return None
        if name == 'pop_back':
            ex.obl('pop_back() of empty vector', st, tm.lt(tm.iv(0), v.n))
            ex.store(st, lv, Vec(tm.sub(v.n, tm.iv(1)), v.bv, v.el, v.ety))
            return None
        if name == 'clear':
            ex.store(st, lv, Vec(tm.iv(0), v.bv, v.el, v.ety))
            return None
        if name == 'resize':
            n = ex.rval(args[0], fr, st)
            fill = ex.rval(args[1], fr, st) if len(args) > 1 and args[1]['kind'] != 'CXXDefaultArgExpr' else ex.default(v.ety)
            ex.store(st, lv, vresize(ex, v, n, fill))
            return None
        if name == 'assign' and len(args) == 2:
            n = ex.rval(args[0], fr, st)
            x = ex.rval(args[1], fr, st)
            if isinstance(n, T):
                ex.store(st, lv, Vec(n, tm.fresh('b', 'I'), x, v.ety))
                return None
        if name in ('reserve', 'shrink_to_fit'):
            for a in args: ex.rval(a, fr, st)
            return None
        if name == 'swap':
            o = ex.lval(args[0], fr, st)
            w = ex.load(st, o)
            ex.store(st, lv, w)
            ex.store(st, o, v)
            return None
        if name == 'operator=':
            w = ex.rval(args[0], fr, st)
            ex.store(st, lv, w)
            return lv
    if isinstance(v, Map):
        isset = v.val is None
        if name == 'size': return v.size()
        if name == 'empty': return tm.eq(v.size(), tm.iv(0))
        if name in ('begin', 'cbegin'): return MIter(lv, None, None, True)
        if name in ('end', 'cend'): return MIter(lv, None, tm.TRUE)
        if name == 'find': return find(ex, st, lv, ex.rval(args[0], fr, st))
        if name == 'count': return tm.ite(v.has(ex.rval(args[0], fr, st)), tm.iv(1), tm.iv(0))
        if name in ('clear',):
            ex.store(st, lv, Map(v.bv, tm.FALSE, v.val, v.kty, v.vty, tm.iv(0)))
            return None
        if name in ('reserve', 'rehash'):
            return None
        if name in ('insert', 'emplace'):
            if len(args) == 1:
                x = ex.rval(args[0], fr, st)
                k, val = (x, None) if isset else (x.f['first'], x.f['second'])
            elif len(args) == 2 and not isset:
                k, val = ex.rval(args[0], fr, st), ex.rval(args[1], fr, st)
            else:
                raise Unsupported('insert')
            v = ex.load(st, lv)
            has = v.has(k)
            j = tm.fresh('k', 'I')
            nm = tm.or_(v.has(j), tm.eq(j, k))
            nv = None if isset else vite(tm.and_(tm.eq(j, k), tm.not_(has)), val, v.get(j))
            ex.store(st, lv, Map(j, nm, nv, v.kty, v.vty, grow(v, has)))
            return Rec('pair', {'first': MIter(lv, k, tm.FALSE), 'second': tm.not_(has)})
        if name == 'erase':
            x = ex.rval(args[0], fr, st)
            if isinstance(x, MIter):
                ex.obl('erase of end iterator', st, tm.not_(x.end))
                k = x.key
            else:
                k = x
            j = tm.fresh('k', 'I')
            had = v.has(k)
            ex.store(st, lv, Map(j, tm.and_(v.has(j), tm.not_(tm.eq(j, k))), None if isset else v.get(j), v.kty, v.vty,
                                  tm.sub(v.size(), tm.ite(had, tm.iv(1), tm.iv(0)))))
            return tm.ite(had, tm.iv(1), tm.iv(0)) if not isinstance(x, MIter) else Opaque('iterator')
        if name == 'operator[]':
            k = ex.rval(args[0], fr, st)
            return mapindex(ex, st, lv, k)
        if name == 'at':
            k = ex.rval(args[0], fr, st)
            ex.obl('map::at of missing key', st, v.has(k))
            return lv + ('k', k)
        if name == 'operator=':
            w = ex.rval(args[0], fr, st)
            ex.store(st, lv, w)
            return lv
    if isinstance(v, Rec) and v.ty == 'Eigen::LLT':
        if name == 'matrixL': return v.f['L']
        if name == 'info': return tm.app('LLT_INFO', [x for r in v.f['L'].e for x in r], 'I')
    if isinstance(v, Mat):
        return mat_method(ex, name, lv, v, args, fr, st)
    if isinstance(v, Opaque):
        if v.what.startswith('Eigen::LDLT<'):
            if name == 'compute': return lv
            if name == 'isPositive': return tm.var('isPositive@%s' % e.get('id'), 'B')
        if name == 'str': return Opaque('string')
        h = ex.contracts.get(('opaque-method', name))
        if h: return h(ex, st, lv, v, args, fr, e)
    raise Unsupported('method %s on %s' % (name, type(v).__name__ if not isinstance(v, Opaque) else v.what))

def grow(v, has):
    return tm.add(v.size(), tm.ite(has, tm.iv(0), tm.iv(1)))
def mapindex(ex, st, lv, k):
    v = ex.load(st, lv)
    j = tm.fresh('k', 'I')
    has = v.has(k)
    ex.store(st, lv, Map(j, tm.or_(v.has(j), tm.eq(j, k)),
                         vite(tm.and_(tm.eq(j, k), tm.not_(has)), ex.default(v.vty), v.get(j)), v.kty, v.vty, grow(v, has)))
    return lv + ('k', k)

def operator(ex, name, args, fr, st, e):
    if name == 'operator<<':
        return Opaque('stream')
    if name in ('operator!=', 'operator=='):
        a, b = ex.rval(args[0], fr, st), ex.rval(args[1], fr, st)
        return ex.compare(name[8:], a, b, st)
    if name == 'operator[]':
        lv = ex.lval(args[0], fr, st)
        v = ex.load(st, lv)
        if isinstance(v, Vec):
            i = ex.rval(args[1], fr, st)
            ex.obl('index in bounds', st, tm.and_(tm.le(tm.iv(0), i), tm.lt(i, v.n)))
            return lv + ('i', i)
        if isinstance(v, Map):
            return mapindex(ex, st, lv, ex.rval(args[1], fr, st))
    if name == 'operator=':
        lv = ex.lval(args[0], fr, st)
        v = ex.rval(args[1], fr, st)
        ex.store(st, lv, v)
        return lv
    if name == 'operator*' and len(args) == 1:
        p = ex.rval(args[0], fr, st)
        ex.check_deref(st, p)
        if isinstance(p, MIter):
            m = ex.load(st, p.lv)
            if m.val is None:
                return p.key
            return p.lv + ('e', p.key)
        return ex.deref(p)
    if name == 'operator->':
        p = ex.rval(args[0], fr, st)
        return p
    if name in ('operator++', 'operator--'):
        lv = ex.lval(args[0], fr, st)
        v = ex.load(st, lv)
        if isinstance(v, Ptr):
            ex.store(st, lv, ex.ptr_add(v, tm.iv(1 if name == 'operator++' else -1)))
            return v if len(args) == 2 else lv
        if isinstance(v, MIter):
            ex.advance(lv, v, name[8:], st)
            return v if len(args) == 2 else lv
        raise Unsupported('iterator increment')
    if name in ('operator+', 'operator-', 'operator*', 'operator/') and len(args) == 2:
        a, b = ex.rval(args[0], fr, st), ex.rval(args[1], fr, st)
        if isinstance(a, Mat) or isinstance(b, Mat):
            return mat_arith(name[8:], a, b)
        if isinstance(a, Ptr) and isinstance(b, T):
            return ex.ptr_add(a, b if name == 'operator+' else tm.scale(b, -1))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return tm.sub(a.off, b.off)
    if name == 'operator-' and len(args) == 1:
        a = ex.rval(args[0], fr, st)
        if isinstance(a, Mat):
            return Mat(a.r, a.c, [[tm.scale(x, -1) for x in r] for r in a.e])
    if name in ('operator+=', 'operator-=', 'operator*=', 'operator/='):
        lv = ex.lval(args[0], fr, st)
        b = ex.rval(args[1], fr, st)
        a = ex.load(st, lv)
        if isinstance(a, Mat):
            ex.store(st, lv, mat_arith(name[8], a, b))
            return lv
    if name == 'operator()':
        lv = ex.lval(args[0], fr, st)
        v = ex.load(st, lv)
        if isinstance(v, Mat):
            ix = [ex.rval(a, fr, st) for a in args[1:]]
            if all(i.op == 'num' for i in ix):
                i = int(ix[0].args)
                j = int(ix[1].args) if len(ix) > 1 else 0
                ex.obl('matrix index in bounds', st, tm.TRUE if 0 <= i < v.r and 0 <= j < v.c else tm.FALSE)
                return lv + ('m', (i, j))
            raise Unsupported('symbolic matrix index')
        if isinstance(v, Rec) and v.ty.startswith('dist:'):
            return dist_draw(ex, st, v)
        h = ex.contracts.get(('call-operator', v.what.split('<')[0] if isinstance(v, Opaque) else type(v).__name__))
        if h: return h(ex, st, lv, v, args, fr, e)
        raise Unsupported('call of %s' % (getattr(v, 'ty', v),))
    raise Unsupported(name + ' ' + str([getattr(x,'what',None) or type(x).__name__ for x in (args and [ex.rval(a, fr, st) for a in args])]))

def function(ex, name, args, fr, st, e):
    if name == '__builtin_expect':
        return ex.rval(args[0], fr, st)
    if name in ('move', 'forward', 'cref', 'ref'):
        try:
            return ex.lval(args[0], fr, st)
        except Unsupported:
            return ex.rval(args[0], fr, st)
    if name == 'make_pair':
        return Rec('pair', {'first': ex.rval(args[0], fr, st), 'second': ex.rval(args[1], fr, st)})
    if name in ('max', 'min') and len(args) == 2:
        a, b = ex.rval(args[0], fr, st), ex.rval(args[1], fr, st)
        return tm.mx(a, b) if name == 'max' else tm.mn(a, b)
    if name == 'swap':
        a, b = ex.lval(args[0], fr, st), ex.lval(args[1], fr, st)
        va, vb = ex.load(st, a), ex.load(st, b)
        ex.store(st, a, vb)
        ex.store(st, b, va)
        return None
    if name == 'min_element' or name == 'max_element':
        a, b = ex.rval(args[0], fr, st), ex.rval(args[1], fr, st)
        v = ex.load(st, a.lv)
        nm = 'arg%s@%s@%s' % (name[:3], e.get('id'), '/'.join(str(c) for c in fr.cid))
        m = tm.app(nm, ex.loopvars, 'I') if ex.loopvars else tm.var(nm, 'I')
        st.assume(tm.implies(tm.lt(a.off, b.off), tm.and_(tm.le(a.off, m), tm.lt(m, b.off))))
        st.assume(tm.implies(tm.not_(tm.lt(a.off, b.off)), tm.eq(m, b.off)))
        lo, hi, x = a.off, b.off, v.get(m)
        pcs = tm.and_(*st.conds())
        cmp = (lambda p, q: tm.le(p, q)) if name == 'min_element' else (lambda p, q: tm.le(q, p))
        ex.ax.all_int(lambda j: tm.implies(tm.and_(tm.le(lo, j), tm.lt(j, hi)), cmp(x, v.get(j))))
        return Ptr(a.lv, m)
    if name in ('fill', ):
        a, b, x = [ex.rval(z, fr, st) for z in args]
        v = ex.load(st, a.lv)
        j = tm.fresh('b', 'I')
        ex.store(st, a.lv, Vec(v.n, j, vite(tm.and_(tm.le(a.off, j), tm.lt(j, b.off)), x, v.get(j)), v.ety))
        return None
    if name == 'accumulate' and len(args) == 3:
        a, b, x = [ex.rval(z, fr, st) for z in args]
        v = ex.load(st, a.lv)
        return tm.add(x, tm.sum_range(a.off, b.off, lambda j: v.get(j)))
    if name in ('exp', 'expf'): return tm.EXP(ex.rval(args[0], fr, st))
    if name in ('log', 'logf'):
        x = ex.rval(args[0], fr, st)
        ex.obl('log argument positive', st, tm.lt(tm.iv(0), x))
        return tm.LOG(x)
    if name in ('lgamma', 'lgammaf'):
        x = ex.rval(args[0], fr, st)
        ex.obl('lgamma argument positive', st, tm.lt(tm.iv(0), x))
        return tm.LGAMMA(x)
    if name in ('log2', 'log2f'):
        x = ex.rval(args[0], fr, st)
        ex.obl('log argument positive', st, tm.lt(tm.iv(0), x))
        return tm.div(tm.LOG(x), tm.LOG(tm.iv(2)))
    if name in ('memcpy', '__builtin_memcpy', 'memmove') and len(args) == 3:
        d, s, n = [ex.rval(z, fr, st) for z in args]
        if isinstance(d, Ptr) and isinstance(s, Ptr) and d.lv is not None and s.lv is not None and d.off is None and s.off is None and n.op == 'num' and int(n.args) == 4:
            v = ex.load(st, s.lv)
            o = ex.load(st, d.lv)
            if isinstance(v, T) and isinstance(o, T):
                if v.sort == 'R' and o.sort == 'I': v = ex.float_bits(v)
                if v.sort == o.sort:
                    ex.store(st, d.lv, v)
                    return d
        raise Unsupported('memcpy')
    if name in ('sqrt', 'sqrtf'): return tm.SQRT(ex.rval(args[0], fr, st))
    if name in ('pow', 'powf'):
        return tm.POW(ex.rval(args[0], fr, st), ex.rval(args[1], fr, st))
    if name in ('fabs', 'fabsf', 'abs'):
        x = ex.rval(args[0], fr, st)
        return tm.ite(tm.le(tm.iv(0), x), x, tm.scale(x, -1))
    if name in ('__builtin_inff', '__builtin_inf', 'infinity', '__builtin_huge_valf', '__builtin_huge_val'):
        return tm.app('INF', (), 'R')
    if name in ('isfinite', '__builtin_isfinite'):
        return tm.TRUE
    if name == '__builtin_assume_aligned':
        return ex.rval(args[0], fr, st)
    if name in ('free',):
        return None
    if name in ('Zero', 'Identity'):
        ty = ex.typ(e, fr)
        m = re.findall(r'Eigen::Matrix<float, (-?\d+), (-?\d+)', str(ty))
        if not m: raise Unsupported('shape of ' + str(ty))
        r, c = map(int, m[-1])
        d = [x for x in (ex.rval(a, fr, st) for a in args if a['kind'] != 'CXXDefaultArgExpr') if isinstance(x, T)]
        for n, x in zip([i for i in ((r, c) if len(d) == 2 else (r if r != 1 else c,))], d):
            ex.obl('matrix shape', st, tm.eq(x, tm.iv(n)))
        return Mat(r, c, [[tm.rv(1 if name == 'Identity' and i == j else 0) for j in range(c)] for i in range(r)])
    raise Unsupported('function ' + name)

# ---------------------------------------------------------------- Eigen
def mat_arith(op, a, b):
    if isinstance(a, Mat) and isinstance(b, Mat):
        if op in '+-':
            f = tm.add if op == '+' else tm.sub
            return Mat(a.r, a.c, [[f(a.e[i][j], b.e[i][j]) for j in range(a.c)] for i in range(a.r)])
        if op == '*':
            if a.c != b.r: raise Unsupported('matrix shapes')
            return Mat(a.r, b.c, [[tm.add(*[tm.mul(a.e[i][k], b.e[k][j]) for k in range(a.c)]) for j in range(b.c)] for i in range(a.r)])
    if isinstance(a, Mat) and op in '*/':
        f = tm.mul if op == '*' else tm.div
        return Mat(a.r, a.c, [[f(x, b) for x in r] for r in a.e])
    if isinstance(b, Mat) and op == '*':
        return Mat(b.r, b.c, [[tm.mul(a, x) for x in r] for r in b.e])
    raise Unsupported('matrix ' + op)
def minor(e, i, j):
    return [[x for b, x in enumerate(r) if b != j] for a, r in enumerate(e) if a != i]
def det(e):
    if len(e) == 1: return e[0][0]
    return tm.add(*[tm.scale(tm.mul(e[0][j], det(minor(e, 0, j))), (-1) ** j) for j in range(len(e))])
def inverse(m):
    d = det(m.e)
    n = m.r
    if n == 1: return Mat(1, 1, [[tm.div(tm.iv(1), d)]])
    return Mat(n, n, [[tm.div(tm.scale(det(minor(m.e, j, i)), (-1) ** (i + j)), d) for j in range(n)] for i in range(n)])
def transpose(m):
    return Mat(m.c, m.r, [[m.e[i][j] for i in range(m.r)] for j in range(m.c)])
def cholesky(ex, st, m):
    """Eigen::LLT of a positive definite matrix: the entries of its lower factor are
    functions of the matrix"""
    if not isinstance(m, Mat) or m.r != m.c: raise Unsupported('Cholesky decomposition')
    low = [m.e[i][j] for i in range(m.r) for j in range(i + 1)]
    L = [[tm.app('CHOL%d_%d%d' % (m.r, i, j), low, 'R') if j <= i else tm.rv(0) for j in range(m.r)] for i in range(m.r)]
    return Rec('Eigen::LLT', {'L': Mat(m.r, m.r, L)})
def mat_method(ex, name, lv, v, args, fr, st):
    if name == 'rows': return tm.iv(v.r)
    if name == 'cols': return tm.iv(v.c)
    if name == 'size': return tm.iv(v.r * v.c)
    if name == 'transpose': return transpose(v)
    if name == 'determinant': return det(v.e)
    if name == 'inverse':
        ex.obl('inverse of singular matrix', st, tm.not_(tm.eq(det(v.e), tm.iv(0))))
        return inverse(v)
    if name == 'setZero':
        ex.store(st, lv, Mat(v.r, v.c, [[tm.rv(0)] * v.c for _ in range(v.r)]))
        return lv
    if name == 'setIdentity':
        ex.store(st, lv, Mat(v.r, v.c, [[tm.rv(1 if i == j else 0) for j in range(v.c)] for i in range(v.r)]))
        return lv
    if name == 'dot':
        w = ex.rval(args[0], fr, st)
        return tm.add(*[tm.mul(v.e[i][0], w.e[i][0]) for i in range(v.r)])
    if name == 'swap':
        w = ex.lval(args[0], fr, st)
        x = ex.load(st, w)
        ex.store(st, w, v)
        ex.store(st, lv, x)
        return None
    if name == 'trace': return tm.add(*[v.e[i][i] for i in range(v.r)])
    if name == 'resize': return None
    if name == 'isApprox':
        w = ex.rval(args[0], fr, st)
        # true of equal matrices, arbitrary otherwise
        same = [tm.eq(x, y) for p, q in zip(v.e, w.e) for x, y in zip(p, q)]
        return tm.or_(tm.and_(*same), tm.app('APPROX', [x for m in (v, w) for r in m.e for x in r], 'B'))
    if name == 'noalias': return lv
    if name == 'operator=':
        w = ex.rval(args[0], fr, st)
        ex.store(st, lv, w)
        return lv
    raise Unsupported('matrix method ' + name)

# ---------------------------------------------------------------- <random>
# A distribution object is its name and parameters; a call is the next
# independent draw DIST(r, params), r counting the draws of the generator.
DISTS = {'uniform_real': 2, 'uniform_int': 2, 'normal': 2, 'chi_squared': 1, 'gamma': 2, 'poisson': 1, 'negative_binomial': 2, 'bernoulli': 1}
DEFAULTS = {'uniform_real': (0, 1), 'normal': (0, 1), 'gamma': (1, 1)}
def dist_ctor(ex, ty, args):
    name = ty.split('_distribution<')[0].split('::')[-1]
    if name not in DISTS:
        raise Unsupported('distribution ' + ty)
    d = DEFAULTS.get(name, ())
    args = [tm.toreal(a) if name not in ('uniform_int',) and isinstance(a, T) and a.sort == 'I' and not (name == 'negative_binomial' and i == 0) else a for i, a in enumerate(args)]
    args += [tm.rv(x) for x in d[len(args):]]
    if len(args) != DISTS[name]:
        raise Unsupported('parameters of ' + ty)
    return Rec('dist:' + name, {'p%d' % i: a for i, a in enumerate(args)})
def dist_draw(ex, st, v):
    name = v.ty[5:]
    p = list(v.f.values())
    integer = name in ('uniform_int', 'poisson', 'negative_binomial')
    fn = 'RNG_' + (name if name != 'chi_squared' else 'gamma')
    if name in ('gamma', 'chi_squared'):
        for x in p: ex.obl('domain: %s parameter positive' % name, st, tm.lt(tm.iv(0), x))
    if name == 'uniform_int':
        ex.obl('domain: empty integer range', st, tm.le(p[0], p[1]))
    if fn not in ex.ax.by_fun:
        s = 'I' if integer else 'R'
        def fact(*a):
            t = tm.app(fn, a, s)
            if name == 'uniform_real': return tm.and_(tm.le(a[1], t), tm.lt(t, a[2]))
            if name == 'uniform_int': return tm.implies(tm.le(a[1], a[2]), tm.and_(tm.le(a[1], t), tm.le(t, a[2])))
            if fn == 'RNG_gamma': return tm.lt(tm.iv(0), t)
            if integer: return tm.le(tm.iv(0), t)
            return tm.TRUE
        ex.ax.fun(fn, fact)
    # scale families, in terms of their standard member
    if name == 'gamma': return tm.mul(p[1], ex.rng_draw(st, fn, [p[0], tm.rv(1)]))
    if name == 'normal': return tm.add(p[0], tm.mul(p[1], ex.rng_draw(st, fn, [tm.rv(0), tm.rv(1)])))
    if name == 'chi_squared': return tm.scale(ex.rng_draw(st, 'RNG_gamma', [tm.scale(p[0], tm.Fraction(1, 2)), tm.rv(1)]), 2)
    return ex.rng_draw(st, fn, p, 'I' if integer else 'R')
