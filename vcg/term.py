"""Hash-consed term language of the verifier.

Sorts: 'I' integer, 'R' real, 'B' boolean.  Linear structure is kept in normal
form: a sum node is ('+', ((coef, term), ...), const); comparisons are between
one linear term and zero:  le0 d (d <= 0), lt0 d (d < 0, reals), eq0 d.
Binders: ('sum', body) and ('max', guard, body) bind the variable '@h' where h
is the binder height, so alpha-equivalent terms are identical objects.
"""
from fractions import Fraction
import itertools

_tab = {}
_ids = itertools.count()

class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'fv', 'h', 'syms')
    def __repr__(self):
        return show(self)
    def __hash__(self):
        return self.id
    def __eq__(self, o):
        if isinstance(o, T):
            return self is o
        return NotImplemented
    def __ne__(self, o):
        return self is not o
    def __bool__(self):
        raise TypeError('symbolic truth value: ' + show(self)[:200])
    # arithmetic sugar
    def __add__(self, o): return add(self, lift(o, self))
    def __radd__(self, o): return add(lift(o, self), self)
    def __sub__(self, o): return sub(self, lift(o, self))
    def __rsub__(self, o): return sub(lift(o, self), self)
    def __mul__(self, o): return mul(self, lift(o, self))
    def __rmul__(self, o): return mul(lift(o, self), self)
    def __truediv__(self, o): return div(self, lift(o, self))
    def __rtruediv__(self, o): return div(lift(o, self), self)
    def __neg__(self): return scale(self, -1)
    def __le__(self, o): return le(self, lift(o, self))
    def __lt__(self, o): return lt(self, lift(o, self))
    def __ge__(self, o): return le(lift(o, self), self)
    def __gt__(self, o): return lt(lift(o, self), self)

def lift(x, like=None):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, int):
        return num(x, 'I')
    if isinstance(x, Fraction):
        return num(x, 'R')
    if isinstance(x, float):
        return num(Fraction(repr(x)), 'R')
    raise TypeError(repr(x))

_E = frozenset()
def mk(op, args, sort, sub=(), fv=None, h=None):
    k = (op, args, sort)
    t = _tab.get(k)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.sort = op, args, sort
    t.id = next(_ids)
    if fv is None:
        fv = _E
        for s in sub:
            if s.fv:
                fv = fv | s.fv
    t.fv = fv
    sy = _E
    for s in sub:
        if s.syms:
            sy = sy | s.syms
    if op == 'app':
        sy = sy | {args[0]}
    t.syms = sy
    t.h = h if h is not None else max([s.h for s in sub], default=0)
    _tab[k] = t
    return t

def num(c, sort=None):
    c = Fraction(c)
    if sort is None:
        sort = 'I' if c.denominator == 1 else 'R'
    if c.denominator != 1:
        sort = 'R'
    return mk('num', c, sort, fv=_E, h=0)
def iv(c):
    return num(c, 'I')
def rv(c):
    return num(c, 'R')
def var(name, sort):
    return mk('var', name, sort, fv=frozenset((name,)), h=0)
TRUE = mk('true', (), 'B')
FALSE = mk('false', (), 'B')
_fresh = itertools.count()
def fresh(name, sort):
    return var('%s#%d' % (name.split('#')[0], next(_fresh)), sort)
def app(f, args, sort):
    args = tuple(lift(a) for a in args)
    return mk('app', (f,) + args, sort, args)

def is_num(t):
    return t.op == 'num'

# ---- linear arithmetic
def lin(t):
    """(dict term->coef, const)"""
    if t.op == 'num':
        return {}, t.args
    if t.op == '+':
        return dict((x, c) for c, x in t.args[0]), t.args[1]
    return {t: Fraction(1)}, Fraction(0)

def from_lin(d, c, sort):
    items = [(v, k) for k, v in d.items() if v]
    if not items:
        return num(c, sort)
    if sort == 'I' and (c.denominator != 1 or any(v.denominator != 1 for v, _ in items)):
        sort = 'R'
    if len(items) == 1 and items[0][0] == 1 and c == 0 and items[0][1].sort == sort:
        return items[0][1]
    items.sort(key=lambda vk: vk[1].id)
    return mk('+', (tuple(items), c), sort, [k for _, k in items])

def add(*ts):
    d, c, sort = {}, Fraction(0), 'I'
    for t in ts:
        t = lift(t)
        if t.sort == 'B':
            t = ite(t, iv(1), iv(0))
        if t.sort == 'R':
            sort = 'R'
        dd, cc = lin(t)
        c += cc
        for k, v in dd.items():
            d[k] = d.get(k, 0) + v
    return from_lin(d, c, sort)
def sub(a, b):
    return add(a, scale(b, -1))
def scale(t, s):
    s = Fraction(s)
    t = lift(t)
    d, c = lin(t)
    return from_lin({k: v * s for k, v in d.items()}, c * s, t.sort if s.denominator == 1 else 'R')
def toreal(t):
    t = lift(t)
    if t.sort == 'R':
        return t
    if t.op == 'num':
        return num(t.args, 'R')
    d, c = lin(t)
    return from_lin(d, c, 'R')
def mul(*ts):
    c, sort = Fraction(1), 'I'
    fs = []
    st = [lift(t) for t in ts][::-1]
    while st:
        t = st.pop()
        if t.sort == 'R':
            sort = 'R'
        if t.op == 'num':
            c *= t.args
        elif t.op == '*':
            fs.extend(t.args)
        elif t.op == '+' and len(t.args[0]) == 1 and t.args[1] == 0:
            (v, k), = t.args[0]
            c *= v
            st.append(k)
        else:
            fs.append(t)
    if c == 0:
        return num(0, sort)
    if not fs:
        return num(c, sort)
    if len(fs) == 1:
        r = scale(fs[0], c)
        return toreal(r) if sort == 'R' else r
    fs.sort(key=lambda t: t.id)
    m = mk('*', tuple(fs), sort, fs)
    return scale(m, c) if c != 1 else m
def div(a, b):
    a, b = lift(a), lift(b)
    if b.op == 'num':
        if b.args != 0:
            return toreal(scale(a, 1 / b.args))
    if a.op == 'num' and a.args == 0:
        return num(0, 'R')
    return mk('/', (a, b), 'R', (a, b))
def power(a, n):
    r = iv(1)
    for _ in range(n):
        r = mul(r, a)
    return r

# ---- booleans
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    if a.op == 'and': return or_(*[not_(x) for x in a.args])
    if a.op == 'or': return and_(*[not_(x) for x in a.args])
    if a.op == 'le0':
        d = a.args[0]
        return le0(add(scale(d, -1), iv(1))) if d.sort == 'I' else lt0(scale(d, -1))
    if a.op == 'lt0':
        return le0(scale(a.args[0], -1))
    return mk('not', (a,), 'B', (a,))
def and_(*ts):
    s, seen = [], set()
    st = list(ts)[::-1]
    while st:
        t = lift(st.pop())
        if t is FALSE: return FALSE
        if t is TRUE or t.id in seen: continue
        if t.op == 'and':
            st.extend(reversed(t.args))
            continue
        seen.add(t.id)
        s.append(t)
    ors = False
    for t in s:
        if t.op == 'or': ors = True
        elif not_(t).id in seen: return FALSE
    if ors and len(s) > 1:
        # unit resolution against the other conjuncts
        neg = {not_(t).id for t in s if t.op != 'or'}
        out, ch = [], False
        for t in s:
            if t.op == 'or':
                if any(x.id in seen for x in t.args): ch = True; continue
                if any(x.id in neg for x in t.args):
                    out.append(or_(*[x for x in t.args if x.id not in neg])); ch = True; continue
            out.append(t)
        if ch: return and_(*out)
    if not s: return TRUE
    if len(s) == 1: return s[0]
    s.sort(key=lambda t: t.id)
    return mk('and', tuple(s), 'B', s)
def or_(*ts):
    s, seen = [], set()
    st = list(ts)[::-1]
    while st:
        t = lift(st.pop())
        if t is TRUE: return TRUE
        if t is FALSE or t.id in seen: continue
        if t.op == 'or':
            st.extend(reversed(t.args))
            continue
        seen.add(t.id)
        s.append(t)
    ands = False
    for t in s:
        if t.op == 'and': ands = True
        elif not_(t).id in seen: return TRUE
    if ands and len(s) > 1:
        neg = {not_(t).id for t in s if t.op != 'and'}
        out, ch = [], False
        for t in s:
            if t.op == 'and':
                if any(x.id in seen for x in t.args): ch = True; continue
                if any(x.id in neg for x in t.args):
                    out.append(and_(*[x for x in t.args if x.id not in neg])); ch = True; continue
            out.append(t)
        if ch: return or_(*out)
    if not s: return FALSE
    if len(s) == 1: return s[0]
    s.sort(key=lambda t: t.id)
    return mk('or', tuple(s), 'B', s)
def implies(a, b):
    return or_(not_(a), b)
def iff(a, b):
    if a is b: return TRUE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is FALSE: return not_(b)
    if b is FALSE: return not_(a)
    return and_(or_(not_(a), b), or_(a, not_(b)))
def _norm(d):
    """divide the linear form by the gcd of its coefficients"""
    if d.op == '+':
        items, c = d.args
        g = None
        from math import gcd
        num_, den = 0, 1
        for v, _ in items:
            den = den * v.denominator // gcd(den, v.denominator)
        for v, _ in items:
            num_ = gcd(num_, int(v * den))
        return Fraction(num_, den)
    return Fraction(1)
def _ite_const(d, f):
    # comparison of an ite over constants
    if d.op == 'ite':
        c, a, b = d.args
        if a.op == 'num' and b.op == 'num':
            return ite(c, f(a), f(b))
    elif d.op == '+' and len(d.args[0]) == 1 and d.args[0][0][1].op == 'ite':
        v, k = d.args[0][0]
        c, a, b = k.args
        if a.op == 'num' and b.op == 'num':
            return ite(c, f(num(a.args * v + d.args[1])), f(num(b.args * v + d.args[1])))
    return None
def le0(d):
    r = _ite_const(d, le0)
    if r is not None:
        return r
    if d.op == 'num':
        return TRUE if d.args <= 0 else FALSE
    g = _norm(d)
    if g != 1:
        s = d.sort
        dd, c = lin(d)
        allint = all(k.sort == 'I' for k in dd)
        dd = {k: v / g for k, v in dd.items()}
        c = c / g
        if allint:
            c = Fraction(-((-c.numerator) // c.denominator)) if c.denominator != 1 else c
            s = 'I'
        d = from_lin(dd, c, s)
    elif d.sort == 'R':
        dd, c = lin(d)
        if all(k.sort == 'I' for k in dd):
            c = Fraction(-((-c.numerator) // c.denominator))
            d = from_lin(dd, c, 'I')
    return mk('le0', (d,), 'B', (d,))
def lt0(d):
    r = _ite_const(d, lt0)
    if r is not None:
        return r
    if d.op == 'num':
        return TRUE if d.args < 0 else FALSE
    dd, c = lin(d)
    if d.sort == 'I':
        return le0(add(d, iv(1)))
    if all(k.sort == 'I' for k in dd):
        g = _norm(d)
        dd = {k: v / g for k, v in dd.items()}
        c = c / g
        # integer-valued linear part + c < 0  <=>  L <= ceil(-c) - 1
        top = -((-(-c)).numerator // (-(-c)).denominator) if False else None
        import math
        m = math.ceil(-c) - 1
        return le0(from_lin(dd, Fraction(-m), 'I'))
    g = _norm(d)
    if g != 1:
        d = from_lin({k: v / g for k, v in dd.items()}, c / g, d.sort)
    return mk('lt0', (d,), 'B', (d,))
def eq0(d):
    r = _ite_const(d, eq0)
    if r is not None:
        return r
    if d.op == 'num':
        return TRUE if d.args == 0 else FALSE
    dd, c = lin(d)
    first = min(dd, key=lambda k: k.id)
    g = _norm(d)
    if dd[first] < 0:
        g = -g
    if g != 1:
        dd = {k: v / g for k, v in dd.items()}
        c = c / g
    if all(k.sort == 'I' for k in dd):
        if c.denominator != 1 and all(v.denominator == 1 for v in dd.values()):
            return FALSE
        s = 'I' if c.denominator == 1 else 'R'
    else:
        s = 'R'
    d = from_lin(dd, c, s)
    return mk('eq0', (d,), 'B', (d,))
def le(a, b): return le0(sub(lift(a), lift(b)))
def lt(a, b): return lt0(sub(lift(a), lift(b)))
def eq(a, b):
    a, b = lift(a), lift(b)
    if a.sort == 'B' or b.sort == 'B':
        if a.sort != 'B': a = ne(a, iv(0))
        if b.sort != 'B': b = ne(b, iv(0))
        return iff(a, b)
    return eq0(sub(a, b))
def ne(a, b): return not_(eq(a, b))
def _parts(x, y):
    # y and its own disjuncts when they all occur in the disjunction x
    if y in x.args: return (y,)
    if y.op == 'or' and all(p in x.args for p in y.args): return y.args + (y,)
    return ()
def _parts2(x, y):
    if y in x.args: return (y,)
    if y.op == 'and' and all(p in x.args for p in y.args): return y.args + (y,)
    return ()
def ite(c, a, b):
    c, a, b = lift(c), lift(a), lift(b)
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.sort == 'B' or b.sort == 'B':
        if a.sort != 'B': a = ne(a, iv(0))
        if b.sort != 'B': b = ne(b, iv(0))
        for x, y, k in ((a, b, c), (b, a, not_(c))):
            # ite(k, x, y)
            if x.op == 'or' and y in _parts(x, y):
                return or_(y, and_(k, or_(*[p for p in x.args if p not in _parts(x, y)])))
            if x.op == 'and' and y in _parts2(x, y):
                return and_(y, or_(not_(k), and_(*[p for p in x.args if p not in _parts2(x, y)])))
        return and_(or_(not_(c), a), or_(c, b))
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if c.op == 'not':
        c, a, b = c.args[0], b, a
    sort = 'R' if 'R' in (a.sort, b.sort) else 'I'
    if sort == 'R':
        a, b = toreal(a), toreal(b)
    return mk('ite', (c, a, b), sort, (c, a, b))
def mn(a, b): return ite(le(a, b), a, b)
def mx(a, b): return ite(le(b, a), a, b)

# ---- integer division (C semantics on nonnegative operands)
def idiv(a, b):
    if a.op == 'num' and b.op == 'num' and b.args != 0:
        q = abs(a.args) // abs(b.args)
        return iv(q if (a.args >= 0) == (b.args > 0) else -q)
    return mk('idiv', (a, b), 'I', (a, b))
def imod(a, b):
    if a.op == 'num' and b.op == 'num' and b.args != 0:
        q = abs(a.args) // abs(b.args)
        q = q if (a.args >= 0) == (b.args > 0) else -q
        return iv(a.args - q * b.args)
    return mk('imod', (a, b), 'I', (a, b))
def trunc(a):
    if a.sort == 'I': return a
    if a.op == 'num':
        return iv(int(a.args))
    d, c = lin(a)
    if c.denominator == 1 and all(k.sort == 'I' and v.denominator == 1 for k, v in d.items()):
        return from_lin(d, c, 'I')
    return mk('trunc', (a,), 'I', (a,))

# ---- binders
def _bind(j, parts):
    h = max(p.h for p in parts)
    b = var('@%d' % h, 'I')
    assert b.args not in frozenset().union(*[p.fv for p in parts]) or j is b
    return b, [subst(p, {j: b}) for p in parts], h + 1
def _mkb(op, parts, sort, hh, b):
    fv = frozenset().union(*[p.fv for p in parts]) - {b.args}
    k = (op, tuple(parts), sort)
    t = _tab.get(k)
    if t is None:
        t = mk(op, tuple(parts), sort, parts, fv=fv, h=hh)
    return t
def bsum(j, body):
    """sum over all integers j of body (finite support by its own guards)"""
    body = lift(body)
    if body.op == 'num' and body.args == 0:
        return body
    b, (body,), h = _bind(j, [body])
    return _mkb('sum', [body], body.sort, h, b)
def bmax(j, guard, body):
    if guard.op == 'true' and j.args not in body.fv: return body
    b, (guard, body), h = _bind(j, [guard, body])
    return _mkb('max', [guard, body], body.sort, h, b)
def open_binder(t, name='j'):
    """(fresh var, parts) of a binder term"""
    j = fresh(name, 'I')
    b = var('@%d' % (t.h - 1), 'I')
    return j, [subst(p, {b: j}) for p in t.args]
def sum_range(lo, hi, f):
    j = fresh('j', 'I')
    return bsum(j, ite(and_(le(lo, j), lt(j, hi)), f(j), 0))
def sum_all(f):
    j = fresh('j', 'I')
    return bsum(j, f(j))

# ---- special functions
def LOG(x): return app('LOG', (toreal(lift(x)),), 'R')
def LGAMMA(x): return app('LGAMMA', (toreal(lift(x)),), 'R')
def EXP(x): return app('EXP', (toreal(lift(x)),), 'R')
def SQRT(x): return app('SQRT', (toreal(lift(x)),), 'R')
def POW(x, y): return app('POW', (toreal(lift(x)), toreal(lift(y))), 'R')
PI = app('PI', (), 'R')

# ---- rebuild / substitution
def rebuild(t, args_map):
    """apply args_map to the direct subterms and rebuild with smart constructors"""
    op = t.op
    if op in ('num', 'var', 'true', 'false'):
        return t
    f = args_map
    if op == '+':
        r = num(t.args[1], t.sort)
        parts = [r]
        for c, k in t.args[0]:
            parts.append(scale(f(k), c))
        return add(*parts)
    if op == '*': return mul(*[f(a) for a in t.args])
    if op == '/': return div(f(t.args[0]), f(t.args[1]))
    if op == 'app': return app(t.args[0], [f(a) for a in t.args[1:]], t.sort)
    if op == 'ite': return ite(f(t.args[0]), f(t.args[1]), f(t.args[2]))
    if op == 'and': return and_(*[f(a) for a in t.args])
    if op == 'or': return or_(*[f(a) for a in t.args])
    if op == 'not': return not_(f(t.args[0]))
    if op == 'le0': return le0(f(t.args[0]))
    if op == 'lt0': return lt0(f(t.args[0]))
    if op == 'eq0': return eq0(f(t.args[0]))
    if op == 'idiv': return idiv(f(t.args[0]), f(t.args[1]))
    if op == 'imod': return imod(f(t.args[0]), f(t.args[1]))
    if op == 'trunc': return trunc(f(t.args[0]))
    raise ValueError(op)

def subst(t, m):
    """simultaneous substitution of variables (T -> T)"""
    if not m:
        return t
    names = frozenset(k.args for k in m)
    memo = {}
    def go(t):
        if not (t.fv & names):
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op == 'var':
            r = m.get(t, t)
        elif t.op in ('sum', 'max'):
            # a replacement could contain a variable named like our bound one
            j, parts = open_binder(t)
            parts = [go2(p) for p in parts]
            r = bsum(j, parts[0]) if t.op == 'sum' else bmax(j, *parts)
        else:
            r = rebuild(t, go)
        memo[t.id] = r
        return r
    def go2(p):
        return subst(p, m)
    return go(t)

def replace_apps(t, fs):
    """replace applications f(args) by fs[f](*args)"""
    names = frozenset(fs)
    memo = {}
    def go(t):
        if not (t.syms & names):
            return t
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op == 'app' and t.args[0] in fs:
            r = fs[t.args[0]](*[go(a) for a in t.args[1:]])
        elif t.op in ('sum', 'max'):
            j, parts = open_binder(t)
            parts = [go(p) for p in parts]
            r = bsum(j, parts[0]) if t.op == 'sum' else bmax(j, *parts)
        else:
            r = rebuild(t, go)
        memo[t.id] = r
        return r
    return go(t)

def subst_cond(t, c, val):
    """replace the boolean subterm c by a constant"""
    nc = not_(c)
    memo = {}
    def go(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        if t is c:
            r = TRUE if val else FALSE
        elif t is nc:
            r = FALSE if val else TRUE
        elif t.op in ('num', 'var', 'true', 'false'):
            r = t
        elif t.op in ('sum', 'max'):
            j, parts = open_binder(t)
            ps = [go(p) for p in parts]
            if all(a is b for a, b in zip(ps, parts)):
                r = t
            else:
                r = bsum(j, ps[0]) if t.op == 'sum' else bmax(j, *ps)
        else:
            r = rebuild(t, go)
        memo[t.id] = r
        return r
    return go(t)

def replace(t, m):
    """replace subterms (not inside the scope of variables they mention) by others"""
    memo = {}
    def go(t):
        r = memo.get(t.id)
        if r is not None: return r
        if t in m:
            r = m[t]
        elif t.op in ('num', 'var', 'true', 'false'):
            r = t
        elif t.op in ('sum', 'max'):
            j, parts = open_binder(t)
            ps = [go(p) for p in parts]
            r = t if all(a is b for a, b in zip(ps, parts)) else bsum(j, ps[0]) if t.op == 'sum' else bmax(j, *ps)
        else:
            r = rebuild(t, go)
        memo[t.id] = r
        return r
    return go(t)

def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if x.op == '+':
            st.extend(k for _, k in x.args[0])
        elif x.op == 'app':
            st.extend(x.args[1:])
        elif x.op in ('num', 'var', 'true', 'false'):
            pass
        else:
            st.extend(x.args)

def show(t, depth=0):
    if depth > 14: return '...'
    s = lambda x: show(x, depth + 1)
    op = t.op
    if op == 'num': return str(t.args)
    if op == 'var': return t.args
    if op in ('true', 'false'): return op
    if op == '+':
        out = []
        for c, k in t.args[0]:
            out.append(('%s*' % c if c not in (1, -1) else ('-' if c == -1 else '')) + s(k))
        if t.args[1]: out.append(str(t.args[1]))
        return '(' + ' + '.join(out) + ')'
    if op == '*': return '*'.join(s(a) for a in t.args)
    if op == '/': return '(%s / %s)' % tuple(s(a) for a in t.args)
    if op == 'app': return '%s(%s)' % (t.args[0], ', '.join(s(a) for a in t.args[1:]))
    if op == 'ite': return 'ite(%s, %s, %s)' % tuple(s(a) for a in t.args)
    if op == 'le0': return '%s <= 0' % s(t.args[0])
    if op == 'lt0': return '%s < 0' % s(t.args[0])
    if op == 'eq0': return '%s == 0' % s(t.args[0])
    if op in ('and', 'or'): return '(' + (' & ' if op == 'and' else ' | ').join(s(a) for a in t.args) + ')'
    if op == 'not': return '!' + s(t.args[0])
    return '%s(%s)' % (op, ', '.join(s(a) for a in t.args))

# ---- numeric evaluation
import math
class EvalError(Exception):
    pass
class Env:
    """lazy random interpretation: variables and functions get values on demand"""
    def __init__(self, rnd, window=12, extra=(4294967295,)):
        self.rnd, self.vars, self.funs = rnd, {}, {}
        self.window = list(range(0, window)) + list(extra)
        self.gen = {}       # function/variable name -> generator(rnd, args)
        self.apps = []
    def var(self, name, sort):
        if name not in self.vars:
            g = self.gen.get(name)
            self.vars[name] = g(self.rnd, ()) if g else self.default(sort)
        return self.vars[name]
    def default(self, sort):
        r = self.rnd
        if sort == 'B': return r.random() < 0.5
        if sort == 'I': return r.choice((0, 0, 1, 1, 2, 3, 4, 5, 6))
        return r.choice((0.25, 0.5, 1.0, 1.5, 2.0, 3.0)) * (1 + r.random())
    def fun(self, f, args, sort):
        k = (f, args)
        if k not in self.funs:
            g = self.gen.get(f)
            self.funs[k] = g(self.rnd, args) if g else self.default(sort)
        return self.funs[k]

def evaluate(t, env, local=None):
    memo = {}
    local = local or {}
    def ev(t, loc):
        key = (t.id, tuple(sorted((k, v) for k, v in loc.items() if k in t.fv))) if t.fv and any(k in t.fv for k in loc) else t.id
        if key in memo:
            return memo[key]
        r = ev1(t, loc)
        memo[key] = r
        return r
    def ev1(t, loc):
        op = t.op
        if op == 'num':
            return int(t.args) if t.sort == 'I' else float(t.args)
        if op == 'var':
            if t.args in loc: return loc[t.args]
            return env.var(t.args, t.sort)
        if op == 'true': return True
        if op == 'false': return False
        if op == '+':
            c = t.args[1]
            r = int(c) if c.denominator == 1 else float(c)
            for c, k in t.args[0]:
                v = ev(k, loc)
                r += (int(c) if c.denominator == 1 else float(c)) * v
            return r
        if op == '*':
            r = 1
            for a in t.args: r *= ev(a, loc)
            return r
        if op == '/':
            b = ev(t.args[1], loc)
            if b == 0: raise EvalError('div0')
            return ev(t.args[0], loc) / b
        if op == 'ite':
            return ev(t.args[1] if ev(t.args[0], loc) else t.args[2], loc)
        if op == 'and': return all(ev(a, loc) for a in t.args)
        if op == 'or': return any(ev(a, loc) for a in t.args)
        if op == 'not': return not ev(t.args[0], loc)
        if op == 'le0': return ev(t.args[0], loc) <= (0 if t.args[0].sort == 'I' else 1e-12)
        if op == 'lt0': return ev(t.args[0], loc) < 0
        if op == 'eq0':
            v = ev(t.args[0], loc)
            return abs(v) < 1e-9 if t.args[0].sort == 'R' else v == 0
        if op == 'idiv':
            a, b = ev(t.args[0], loc), ev(t.args[1], loc)
            if b == 0: raise EvalError('div0')
            return int(math.trunc(Fraction(a, b)))
        if op == 'imod':
            a, b = ev(t.args[0], loc), ev(t.args[1], loc)
            if b == 0: raise EvalError('div0')
            return a - b * int(math.trunc(Fraction(a, b)))
        if op == 'trunc': return int(math.trunc(ev(t.args[0], loc)))
        if op == 'sum':
            b = '@%d' % (t.h - 1)
            r = 0
            for j in env.window:
                l2 = dict(loc)
                l2[b] = j
                r += ev(t.args[0], l2)
            return r
        if op == 'max':
            b = '@%d' % (t.h - 1)
            r = None
            for j in env.window:
                l2 = dict(loc)
                l2[b] = j
                if ev(t.args[0], l2):
                    v = ev(t.args[1], l2)
                    r = v if r is None or v > r else r
            if r is None: raise EvalError('empty max')
            return r
        if op == 'app':
            f = t.args[0]
            a = tuple(ev(x, loc) for x in t.args[1:])
            try:
                if f == 'LOG':
                    if a[0] == 0: raise EvalError('log0')
                    return math.log(abs(a[0]))
                if f == 'LGAMMA': return math.lgamma(a[0])
                if f == 'EXP': return math.exp(a[0])
                if f == 'SQRT': return math.sqrt(a[0])
                if f == 'POW': return math.pow(a[0], a[1])
                if f == 'PI': return math.pi
            except (ValueError, OverflowError):
                raise EvalError('domain')
            r = env.fun(f, a, t.sort)
            env.apps.append((t, f, a, r))
            return r
        raise EvalError(op)
    return ev(t, local)
