"""Symbolic execution of the pure-Python reference code (distributions/dbg).

The verified text is the Python source itself, read from the tree with ast on
every run.  It shares states, loop summaries, terms and the prover with the C++
side; int and float are mathematical integers and reals, numpy arrays and dicts
are the same array and map values.  Anything outside the handled subset raises
Unsupported (the lemma is then undecided, never wrongly decided)."""
import ast, os, warnings
from fractions import Fraction
import term as tm
from term import T
from vals import *
import loops, stdlib, contracts
from exec import Out
REPO = os.environ.get('DIST_REPO', '/repo')
I, R = tm.iv, tm.rv
Z = I(0)

class Ext:
    """a name of a library module (math, numpy, scipy, builtins)"""
    def __init__(self, qn): self.qn = qn
class Fn:
    def __init__(self, mod, node, cls=None):
        self.mod, self.node, self.cls = mod, node, cls
        self.name = node.name
        self.qn = mod + '.' + (cls.name + '.' if cls else '') + node.name
class Cls:
    def __init__(self, mod, node): self.mod, self.node, self.name = mod, node, node.name
    @property
    def qn(self): return self.mod + '.' + self.name
class Bound:
    def __init__(self, lv, fn): self.lv, self.fn = lv, fn
def decorated(f, n): return any(isinstance(d, ast.Name) and d.id == n for d in f.node.decorator_list)
class Meth:
    """method of a builtin container"""
    def __init__(self, obj, name): self.obj, self.name = obj, name
class View:
    """dict view / range, for iteration"""
    def __init__(self, kind, *a): self.kind, self.a = kind, a
class Gen:
    def __init__(self, node, fr): self.node, self.fr = node, fr

class Modules:
    def __init__(self): self.m = {}
    def path(self, mod):
        p = os.path.join(REPO, *mod.split('.'))
        for f in (p + '.py', os.path.join(p, '__init__.py')):
            if os.path.exists(f): return f
    def get(self, mod):
        if mod in self.m: return self.m[mod]
        f = self.path(mod)
        d = None
        if f is not None:
            d = {}
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(open(f).read())
            for x in tree.body: self.top(mod, x, d)
        self.m[mod] = d
        return d
    def top(self, mod, x, d):
        if isinstance(x, ast.FunctionDef): d[x.name] = Fn(mod, x)
        elif isinstance(x, ast.ClassDef): d[x.name] = Cls(mod, x)
        elif isinstance(x, ast.Import):
            for a in x.names:
                if a.asname: d[a.asname] = ('mod', a.name)
                else: d[a.name.split('.')[0]] = ('mod', a.name.split('.')[0])
        elif isinstance(x, ast.ImportFrom):
            for a in x.names: d[a.asname or a.name] = ('from', x.module, a.name)
        elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            d[x.targets[0].id] = ('expr', mod, x.value)
        elif isinstance(x, ast.Try):
            for y in x.body: self.top(mod, y, d)
    def name(self, mod, n):
        d = self.get(mod)
        if d is None: return Ext(mod + '.' + n)
        if n not in d:
            if self.path(mod + '.' + n): return ('mod', mod + '.' + n)
            return None
        v = d[n]
        if isinstance(v, tuple) and v[0] == 'from':
            return self.name(v[1], v[2])
        return v
    def bases(self, c):
        out = [c]
        for b in c.node.bases:
            v = self.name(c.mod, b.id) if isinstance(b, ast.Name) else None
            if isinstance(v, Cls): out += self.bases(v)
        return out
    def method(self, c, n):
        for k in self.bases(c):
            for x in k.node.body:
                if isinstance(x, ast.FunctionDef) and x.name == n: return Fn(k.mod, x, k)
    def const(self, c, n):
        for k in self.bases(c):
            for x in k.node.body:
                if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == n: return (k.mod, x.value)

class Frame:
    count = 0
    def __init__(self, fn, cid):
        Frame.count += 1
        self.fn, self.cid, self.uid = fn, cid, Frame.count
        self.names = {}

MATH = {'math', 'numpy', 'scipy.special', 'np'}
class Py:
    def __init__(self, ex):
        self.ex, self.mods = ex, Modules()
        self.frozen = set()
        self.normals, self.wisharts = [], []
        self.catching = None
        self.classes = {}
        self.stack = []
    # ------------------------------------------------------------ faults
    def need(self, st, c, what, catch=None):
        ex = self.ex
        if c is tm.TRUE: return
        if catch and self.catching is not None and catch in self.catching[0]:
            self.catching[1].append(c)
            return
        if ex.record: ex.throws.append((tuple(st.conds()) + (tm.not_(c),), ex.line))
        st.assume(c)
    def pure(self, st, c, f):
        """evaluate f under the assumption c (no effects)"""
        s = st.copy().assume(c)
        v = f(s)
        for k, x in s.cells.items():
            if k in st.cells and st.cells[k] is not x: raise Unsupported('effect in a conditional expression')
        return v
    # ------------------------------------------------------------ values
    def deref(self, st, v):
        return self.ex.load(st, v) if isinstance(v, (LV, LVCond)) else v
    def num(self, st, v):
        v = self.deref(st, v)
        if isinstance(v, bool): return I(int(v))
        if isinstance(v, T): return tm.ite(v, I(1), I(0)) if v.sort == 'B' else v
        raise Unsupported('number expected, got %s' % type(v).__name__)
    def truth(self, st, v):
        v = self.deref(st, v)
        if v is None: return tm.FALSE
        if isinstance(v, T): return v if v.sort == 'B' else tm.not_(tm.eq(v, Z if v.sort == 'I' else R(0)))
        if isinstance(v, Map): return tm.not_(tm.eq(v.size(), Z))
        raise Unsupported('truth of %s' % type(v).__name__)
    def new(self, st, v, name='tmp'):
        c = 'obj:py%d:%s' % (self.ex.cellid, name); self.ex.cellid += 1
        st.cells[c] = v
        return LV(c)
    def fresh_obj(self, st, cls, args, cid):
        self.classes[cls.qn] = cls
        lv = self.new(st, Rec('py:' + cls.qn, {}), cls.name)
        f = self.mods.method(cls, '__init__')
        if f is not None: self.inline(st, f, [lv] + args[0], args[1], cid)
        elif args[0] or args[1]: raise Unsupported('arguments of %s()' % cls.name)
        return lv
    # ------------------------------------------------------------ calls
    def inline(self, st, f, args, kw, cid):
        if len(self.stack) > 25: raise Unsupported('recursion')
        self.ex.used_fns.add('py:' + f.qn)
        fr = Frame(f, cid)
        fr.py_self = args[0] if args else None
        a = f.node.args
        if a.vararg or a.kwarg or a.kwonlyargs: raise Unsupported('signature of %s' % f.qn)
        for d in f.node.decorator_list:
            if not (isinstance(d, ast.Name) and d.id in ('property', 'staticmethod', 'classmethod')): raise Unsupported('decorator on %s' % f.qn)
        ps = [p.arg for p in a.args]
        vals = dict(zip(ps, args))
        if len(args) > len(ps): raise Unsupported('arguments of %s' % f.qn)
        for k, v in kw.items():
            if k not in ps or k in vals: raise Unsupported('argument %s of %s' % (k, f.qn))
            vals[k] = v
        for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            if p not in vals: vals[p] = self.eval(d, fr, st)
        for p in ps:
            if p not in vals: raise Unsupported('missing argument %s of %s' % (p, f.qn))
            self.bind(fr, st, p, vals[p])
        base = st.pc
        line = self.ex.line
        catching, self.catching = self.catching, None
        if catching is not None and any(True for _ in ()): pass
        self.stack.append(fr)
        try:
            out = self.seq(f.node.body, fr, st.copy())
        finally:
            self.stack.pop()
            self.catching = catching
        self.ex.line = line
        v = self.ex.finish(out, st, base)
        return v
    # ------------------------------------------------------------ statements
    def seq(self, body, fr, st):
        base = st.pc
        out = Out(st)
        for s in body:
            if out.next is None: break
            o = self.stmt(s, fr, out.next)
            out = self.ex.join(base, out, o)
        return out
    def stmt(self, s, fr, st):
        self.ex.line = '%s:%d' % (fr.fn.mod, s.lineno)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None: raise Unsupported('python statement %s' % type(s).__name__)
        return m(s, fr, st)
    def s_Pass(self, s, fr, st): return Out(st)
    def s_Expr(self, s, fr, st):
        if not isinstance(s.value, ast.Constant): self.eval(s.value, fr, st)
        return Out(st)
    def s_Assert(self, s, fr, st):
        self.need(st, self.truth(st, self.eval(s.test, fr, st)), 'assert')
        return Out(st)
    def s_Raise(self, s, fr, st):
        if self.ex.record: self.ex.throws.append((tuple(st.conds()), self.ex.line))
        return Out(None)
    def s_Return(self, s, fr, st):
        v = self.eval(s.value, fr, st) if s.value is not None else None
        return Out(None, (st, v))
    def s_Break(self, s, fr, st): return Out(None, brk=st)
    def s_Continue(self, s, fr, st): return Out(None, cont=st)
    def s_If(self, s, fr, st):
        c = self.truth(st, self.eval(s.test, fr, st))
        return self.ex.branch(c, lambda x: self.seq(s.body, fr, x), lambda x: self.seq(s.orelse, fr, x), st)
    def s_Assign(self, s, fr, st):
        v = self.eval(s.value, fr, st)
        for t in s.targets: self.assign(t, v, fr, st)
        return Out(st)
    def s_AugAssign(self, s, fr, st):
        t = s.target
        cur = self.eval(ast.copy_location(self.load_of(t), t), fr, st)
        rhs = self.eval(s.value, fr, st)
        if isinstance(cur, LV) and isinstance(self.deref(st, cur), (Vec, Mat)):
            v = self.binop(type(s.op).__name__, cur, rhs, st)
            self.mutate(st, cur, v)
            return Out(st)
        self.assign(t, self.binop(type(s.op).__name__, cur, rhs, st), fr, st)
        return Out(st)
    def load_of(self, t):
        if isinstance(t, ast.Name): return ast.Name(t.id, ast.Load())
        if isinstance(t, ast.Attribute): return ast.Attribute(t.value, t.attr, ast.Load())
        if isinstance(t, ast.Subscript): return ast.Subscript(t.value, t.slice, ast.Load())
        raise Unsupported('target %s' % type(t).__name__)
    def s_Delete(self, s, fr, st):
        for t in s.targets:
            if not isinstance(t, ast.Subscript): raise Unsupported('del')
            lv = self.eval(t.value, fr, st)
            m = self.deref(st, lv)
            if not isinstance(m, Map): raise Unsupported('del of %s' % type(m).__name__)
            k = self.num(st, self.eval(t.slice, fr, st))
            self.need(st, m.has(k), 'KeyError', 'KeyError')
            self.erase(st, lv, m, k)
        return Out(st)
    def erase(self, st, lv, m, k):
        j = tm.fresh('k', 'I')
        self.mutate(st, lv, Map(j, tm.and_(m.has(j), tm.not_(tm.eq(j, k))), m.get(j), m.kty, m.vty))
    def s_For(self, s, fr, st):
        if s.orelse: raise Unsupported('for/else')
        st = st.copy()
        it = self.eval(s.iter, fr, st)
        lid = 'py:%s:%d:%d@%s' % (fr.fn.qn, s.lineno, s.col_offset, '/'.join(map(str, fr.cid)))
        ex = self.ex
        def body(x, pairs):
            base = x.pc
            for t, v in pairs: self.assign(t, v, fr, x)
            return loops.norm_cont(self.seq(s.body, fr, x), base)
        v = self.deref(st, it)
        if isinstance(v, Vec): lo, n, at = Z, v.n, lambda x, i: self.deref(x, it).get(i)
        elif isinstance(v, Mat):
            out, cid = Out(st), fr.cid
            for k in range(v.r):
                fr.cid = cid + ('it%d' % k,)
                o = body(out.next, [(s.target, v.e[k][0] if v.c == 1 else Mat(v.c, 1, [[x] for x in v.e[k]]))])
                if o.exits or o.next is None: raise Unsupported('exit from a constant loop')
                out = o
            fr.cid = cid
            return out
        elif isinstance(it, View) and it.kind == 'range': lo, n, at = it.a[0], it.a[1], lambda x, i: i
        elif isinstance(it, View) and it.kind == 'zip':
            lo, n, at = Z, self.ziplen([self.deref(st, w) for w in it.a]), lambda x, i: tuple(self.deref(x, w).get(i) for w in it.a)
        elif isinstance(it, View) and it.kind == 'enumerate':
            w = it.a[0]
            lo, n, at = Z, self.deref(st, w).n, lambda x, i: (i, self.deref(x, w).get(i))
        elif isinstance(v, Map) or isinstance(it, View) and it.kind in ('items', 'values', 'keys'):
            kind, lv = ('keys', it) if isinstance(v, Map) else (it.kind, it.a[0])
            if not isinstance(lv, LV): lv = self.new(st, lv)
            def step(x, key):
                val = self.ex.load(x, lv + ('k', key))
                return body(x, [(s.target, key if kind == 'keys' else val if kind == 'values' else (key, val))])
            return loops.run(ex, fr, st, lid, None, step, lv)
        else: raise Unsupported('iteration over %s' % type(v).__name__)
        ic = self.new(st, lo, 'idx')
        def step(x, _):
            i = ex.load(x, ic)
            o = body(x, [(s.target, at(x, i))])
            if o.next is not None: ex.store(o.next, ic, tm.add(i, I(1)))
            return o
        if tm.is_num(lo) and tm.is_num(n) and n.args - lo.args <= 4:
            out = Out(st)
            cid = fr.cid
            for k in range(max(0, int(n.args - lo.args))):
                fr.cid = cid + ('it%d' % k,)
                o = step(out.next, None)
                if o.exits or o.next is None: raise Unsupported('exit from a constant loop')
                out = o
            fr.cid = cid
            return out
        return loops.run(ex, fr, st, lid, lambda x: tm.lt(ex.load(x, ic), n), step)
    def s_While(self, s, fr, st):
        if s.orelse: raise Unsupported('while/else')
        lid = 'py:%s:%d:%d@%s' % (fr.fn.qn, s.lineno, s.col_offset, '/'.join(map(str, fr.cid)))
        def step(x, _):
            base = x.pc
            return loops.norm_cont(self.seq(s.body, fr, x), base)
        return loops.run(self.ex, fr, st, lid, lambda x: self.truth(x, self.eval(s.test, fr, x)), step)
    def s_Try(self, s, fr, st):
        if s.finalbody or s.orelse or len(s.handlers) != 1: raise Unsupported('try')
        h = s.handlers[0]
        if h.name or not isinstance(h.type, ast.Name): raise Unsupported('except')
        return self.guarded(list(s.body), h, fr, st)
    def guarded(self, body, h, fr, st):
        """statements in front of a handler, one at a time; each may raise before its effect"""
        if not body: return Out(st)
        x, rest = body[0], body[1:]
        ex = self.ex
        def conds(f):
            """conditions under which evaluating f does not raise the handled exception"""
            old, rec = self.catching, ex.record
            self.catching, ex.record = ((h.type.id,), []), False
            try:
                f(st.copy())
                return tm.and_(*self.catching[1])
            finally: self.catching, ex.record = old, rec
        if isinstance(x, ast.If):
            ok = conds(lambda s: self.eval(x.test, fr, s))
            run = lambda s: ex.branch(self.truth(s, self.eval(x.test, fr, s)), lambda y: self.guarded(x.body + rest, h, fr, y), lambda y: self.guarded(x.orelse + rest, h, fr, y), s)
        elif isinstance(x, (ast.Assign, ast.AugAssign, ast.Delete, ast.Expr, ast.Return)):
            if any(isinstance(y, ast.Call) and not (isinstance(y.func, ast.Attribute) and y.func.attr in ('get', 'pop', 'iteritems', 'items')) for y in ast.walk(x)):
                raise Unsupported('call inside try')
            ok = conds(lambda s: self.stmt(x, fr, s))
            def run(s):
                o = self.stmt(x, fr, s)
                if o.next is None: return o
                base = s.pc
                return ex.join(base, o, self.guarded(rest, h, fr, o.next))
        else: raise Unsupported('statement in try')
        if ok is tm.TRUE: return run(st)
        return ex.branch(ok, run, lambda s: self.seq(h.body, fr, s), st)
    # ------------------------------------------------------------ assignment
    def bind(self, fr, st, name, v):
        c = fr.names.get(name)
        if c is None: c = fr.names[name] = 'obj:py%d.%s' % (fr.uid, name)
        if isinstance(v, bool): v = tm.TRUE if v else tm.FALSE
        st.cells[c] = v
    def assign(self, t, v, fr, st):
        if isinstance(t, ast.Name): return self.bind(fr, st, t.id, v)
        if isinstance(t, ast.Tuple):
            if not isinstance(v, tuple) or len(v) != len(t.elts): raise Unsupported('unpacking')
            for x, y in zip(t.elts, v): self.assign(x, y, fr, st)
            return
        if isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr, st)
            r = self.deref(st, o)
            if not isinstance(o, LV) or not isinstance(r, Rec): raise Unsupported('attribute of %s' % type(r).__name__)
            if isinstance(v, (LV, LVCond)):
                w = self.deref(st, v)
                if not isinstance(w, (Vec, Map, Mat)) or not isinstance(v, LV): raise Unsupported('reference stored in a field')
                # two names for one container from here on: neither may be changed in place
                self.frozen |= {v.key(), (o + ('f', t.attr)).key()}
                v = w
            elif isinstance(v, (tuple, View, Fn, Cls, Bound, Meth, Gen)): raise Unsupported('field value')
            else: self.frozen.discard((o + ('f', t.attr)).key())
            self.unaliased(st, o + ('f', t.attr))
            self.ex.store(st, o, Rec(r.ty, dict(r.f, **{t.attr: v})))
            return
        if isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr, st)
            c = self.deref(st, o)
            k = self.eval(t.slice, fr, st)
            if isinstance(k, str) and isinstance(o, LV):
                if isinstance(c, Map) and c.kty is None and c.mem is tm.FALSE: c = Rec('pydict', {})     # {} was empty
                if isinstance(c, Rec) and c.ty == 'pydict': return self.ex.store(st, o, Rec('pydict', dict(c.f, **{k: self.item(st, v)})))
                raise Unsupported('string key')
            v = self.deref(st, v)
            if isinstance(c, Vec) and isinstance(o, LV):
                k = self.num(st, k)
                self.inrange(st, k, c.n)
                j = tm.fresh('b', 'I')
                return self.mutate(st, o, Vec(c.n, j, tm.ite(tm.eq(j, k), self.like(c, v), c.get(j)), c.ety))
            if isinstance(c, Map) and isinstance(o, LV):
                k = self.num(st, k)
                j = tm.fresh('k', 'I')
                here = tm.eq(j, k)
                return self.mutate(st, o, Map(j, tm.or_(here, c.has(j)), tm.ite(here, v, c.get(j)), c.kty, c.vty))
            raise Unsupported('item assignment to %s' % type(c).__name__)
        raise Unsupported('assignment to %s' % type(t).__name__)
    def like(self, c, v):
        return tm.toreal(v) if c.el.sort == 'R' else v
    def unaliased(self, st, lv):
        """no local name still refers to the container being replaced"""
        k = lv.key()
        for fr in self.stack:
            for c in fr.names.values():
                x = st.cells.get(c)
                if isinstance(x, LV) and x.key() == k: raise Unsupported('field rebound while aliased')
    def mutate(self, st, lv, v):
        if not isinstance(lv, LV): raise Unsupported('conditional reference')
        if lv.key() in self.frozen: raise Unsupported('shared container changed in place')
        self.ex.store(st, lv, v)
    def inrange(self, st, k, n):
        self.ex.obl('array index in bounds', st, tm.and_(tm.le(Z, k), tm.lt(k, n)))
    # ------------------------------------------------------------ expressions
    def eval(self, e, fr, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported('python expression %s' % type(e).__name__)
        return m(e, fr, st)
    def e_Constant(self, e, fr, st):
        v = e.value
        if v is None or isinstance(v, str): return v
        if isinstance(v, bool): return tm.TRUE if v else tm.FALSE
        if isinstance(v, int): return I(v)
        if isinstance(v, float): return self.literal(v)
        raise Unsupported('constant %r' % (v,))
    def literal(self, v):
        import mpmath
        # decimal literals of named constants, as on the C++ side
        for name, t, x in ((None, tm.LOG(tm.PI), 1.1447298858494002),):
            if abs(v - x) < 1e-12: return t
        return R(Fraction(repr(v)))
    def e_Name(self, e, fr, st):
        c = fr.names.get(e.id)
        if c is not None:
            if c not in st.cells: raise Unsupported('local %s may be unset' % e.id)
            v = st.cells[c]
            if isinstance(v, CondV): raise Unsupported('conditional value of %s' % e.id)
            if isinstance(v, (Vec, Map, Mat, Rec)): return LV(c)
            return v
        return self.glob(fr.fn.mod, e.id, fr, st)
    def glob(self, mod, n, fr, st):
        v = self.mods.name(mod, n)
        if v is None: return Ext('builtins.' + n)
        if isinstance(v, Ext): return self.e_ext(v)
        if isinstance(v, tuple) and v[0] == 'expr':
            f = Frame(Fn(v[1], ast.FunctionDef(name='<module>', args=None, body=[], decorator_list=[])), ('glob',))
            return self.eval(v[2], f, st)
        if isinstance(v, tuple) and v[0] == 'mod': return v
        return v
    def e_Attribute(self, e, fr, st):
        o = self.eval(e.value, fr, st)
        if isinstance(o, tuple) and o and o[0] == 'mod':
            v = self.mods.name(o[1], e.attr) if self.mods.get(o[1]) is not None else Ext(o[1] + '.' + e.attr)
            if isinstance(v, tuple) and v[0] == 'expr': return self.glob(o[1], e.attr, fr, st)
            if v is None: raise Unsupported('%s.%s' % (o[1], e.attr))
            return self.e_ext(v) if isinstance(v, Ext) else v
        if isinstance(o, Ext): return self.e_ext(Ext(o.qn + '.' + e.attr))
        if isinstance(o, Cls):
            k = self.mods.const(o, e.attr)
            if k is not None: return self.eval(k[1], fr, st)
            f = self.mods.method(o, e.attr)
            if f is not None: return Bound(o, f) if decorated(f, 'classmethod') else f
            raise Unsupported('%s.%s' % (o.qn, e.attr))
        v = self.deref(st, o)
        if isinstance(v, CondV): raise Unsupported('conditional object')
        if isinstance(v, Rec):
            cls = self.classes.get(v.ty[3:].replace('::', '.'))
            if e.attr == '__class__' and cls is not None: return cls
            if e.attr in v.f:
                x = v.f[e.attr]
                if isinstance(x, (Vec, Map, Mat, Rec)): return o + ('f', e.attr)
                if isinstance(x, CondV): raise Unsupported('conditional field %s' % e.attr)
                return x
            if v.ty == 'pymsg':
                if e.attr == 'Clear': return Meth(o, 'Clear')
                raise Unsupported('message field %s' % e.attr)
            f = self.mods.method(cls, e.attr)
            if f is None:
                k = self.mods.const(cls, e.attr)
                if k is not None: return self.eval(k[1], fr, st)
                raise Unsupported('attribute %s of %s' % (e.attr, v.ty))
            if any(isinstance(d, ast.Name) and d.id == 'property' for d in f.node.decorator_list):
                return self.inline(st, f, [o], {}, fr.cid + ('%d' % e.lineno,))
            if decorated(f, 'staticmethod'): return f
            return Bound(cls if decorated(f, 'classmethod') else o, f)
        if isinstance(v, Mat):
            if e.attr == 'shape': return (I(v.r),) if v.c == 1 else (I(v.r), I(v.c))
            if e.attr == 'T': return stdlib.transpose(v)
        if isinstance(v, Vec) and e.attr == 'shape': return (v.n,)
        if isinstance(v, (Vec, Map, Mat, View)): return Meth(o, e.attr)
        raise Unsupported('attribute %s of %s' % (e.attr, type(v).__name__))
    def e_ext(self, x):
        if x.qn in ('math.pi', 'numpy.pi'): return tm.PI
        return x
    def e_Subscript(self, e, fr, st):
        o = self.eval(e.value, fr, st)
        if isinstance(e.slice, ast.Slice) and e.slice.lower is e.slice.upper is e.slice.step is None and isinstance(self.deref(st, o), (Vec, Mat)): return self.deref(st, o)
        if isinstance(o, tuple):
            k = self.eval(e.slice, fr, st)
            if tm.is_num(k): return o[int(k.args)]
            raise Unsupported('tuple index')
        v = self.deref(st, o)
        k = self.eval(e.slice, fr, st)
        if isinstance(v, Rec) and v.ty == 'pydict' and isinstance(k, str):
            if k not in v.f:
                self.need(st, tm.FALSE, 'KeyError', 'KeyError')
                raise Unsupported('no item %s' % k)
            x = v.f[k]
            return o + ('f', k) if isinstance(x, (Vec, Map, Mat)) and isinstance(o, LV) else x
        if isinstance(v, Vec):
            k = self.num(st, k)
            if tm.is_num(k) and k.args < 0: k = tm.add(v.n, k)
            self.inrange(st, k, v.n)
            return v.get(k)
        if isinstance(v, Map):
            k = self.num(st, k)
            self.need(st, v.has(k), 'KeyError', 'KeyError')
            return v.get(k)
        if isinstance(v, Mat) and v.c == 1 and tm.is_num(k): return v.e[int(k.args)][0]
        if isinstance(v, Mat) and isinstance(k, tuple) and all(isinstance(x, T) and tm.is_num(x) for x in k): return v.e[int(k[0].args)][int(k[1].args)]
        raise Unsupported('index of %s' % type(v).__name__)
    def e_Tuple(self, e, fr, st): return tuple(self.eval(x, fr, st) for x in e.elts)
    def e_Dict(self, e, fr, st):
        if e.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in e.keys):
            return self.new(st, Rec('pydict', {k.value: self.item(st, self.eval(v, fr, st)) for k, v in zip(e.keys, e.values)}), 'dict')
        if e.keys: raise Unsupported('dict display')
        return Map(tm.fresh('k', 'I'), tm.FALSE, I(0), None, None)
    def item(self, st, v):
        """a value put into a record with string keys; a container is shared from here on"""
        if isinstance(v, LV):
            w = self.deref(st, v)
            if not isinstance(w, (Vec, Map, Mat)): raise Unsupported('record item')
            self.frozen.add(v.key())
            return w
        if isinstance(v, (T, Vec, Map, Mat)): return v
        raise Unsupported('record item')
    def ziplen(self, vs):
        if not all(isinstance(v, Vec) for v in vs): raise Unsupported('zip')
        n = vs[0].n
        for v in vs[1:]: n = n if v.n is n else tm.ite(tm.le(n, v.n), n, v.n)
        return n
    def e_DictComp(self, e, fr, st):
        """{k': v' for k, v in m.items() if c} whose key is the key of m"""
        if len(e.generators) != 1: raise Unsupported('nested comprehension')
        c = e.generators[0]
        f = Frame(fr.fn, fr.cid + ('comp',))
        f.names = dict(fr.names)
        it = self.eval(c.iter, f, st)
        if isinstance(it, View) and it.kind == 'zip':
            vs = [self.deref(st, x) for x in it.a]
            n, i, y = self.ziplen(vs), tm.fresh('i', 'I'), tm.fresh('k', 'I')
            if c.ifs: raise Unsupported('conditional comprehension')
            def at(s):
                self.assign(c.target, tuple(v.get(i) for v in vs), f, s)
                k, v = self.num(s, self.eval(e.key, f, s)), self.num(s, self.eval(e.value, f, s))
                while k.op == 'ite' and self.ex.known(s, k.args[0]): k = k.args[1]
                return k, v
            k, v = self.pure(st, tm.and_(tm.le(Z, i), tm.lt(i, n)), at)
            if not (k.op == 'app' and k.args[0].startswith('enum:') and tuple(k.args[1:]) == (i,)): raise Unsupported('comprehension over the keys %s' % tm.show(k)[:80])
            # the keys are distinct: those of an enumeration, pos: its inverse
            P = tm.app('pos:' + k.args[0][5:], (y,), 'I')
            return Map(y, tm.and_(tm.le(Z, P), tm.lt(P, n), tm.eq(tm.app(k.args[0], (P,), 'I'), y)), tm.subst(v, {i: P}), None, None)
        if not (isinstance(it, View) and it.kind == 'items'): raise Unsupported('comprehension over %s' % getattr(it, 'kind', '?'))
        m = self.deref(st, it.a[0])
        j = tm.fresh('k', 'I')
        def body(s):
            self.assign(c.target, (j, m.get(j)), f, s)
            g = tm.and_(*[self.truth(s, self.eval(i, f, s)) for i in c.ifs]) if c.ifs else tm.TRUE
            if g is not tm.TRUE: s.assume(g)
            return g, self.num(s, self.eval(e.key, f, s)), self.num(s, self.eval(e.value, f, s))
        g, k, v = self.pure(st, m.has(j), body)
        if k is not j: raise Unsupported('comprehension renames its keys')
        return Map(j, tm.and_(m.has(j), g), v, m.kty, m.vty)
    def e_List(self, e, fr, st):
        xs = [self.num(st, self.eval(x, fr, st)) for x in e.elts]
        if not xs: return Vec(I(0), tm.fresh('b', 'I'), R(0), None)       # of numbers, as reals
        if all(tm.is_num(x) for x in xs) and len(xs) > 8:
            # constant table, as a function with its values as facts
            name = 'pytable:%d:%s' % (len(xs), hash(tuple(x.args for x in xs)))
            j = tm.fresh('b', 'I')
            self.ex.ax.fun(name, lambda *a: tm.and_(*[tm.implies(tm.eq(a[0], I(i)), tm.eq(tm.app(name, a, 'R'), tm.toreal(x))) for i, x in enumerate(xs)]))
            return Vec(I(len(xs)), j, tm.app(name, (j,), 'R'), ('float',))
        j = tm.fresh('b', 'I')
        el = xs[-1]
        for i in range(len(xs) - 2, -1, -1): el = tm.ite(tm.eq(j, I(i)), xs[i], el)
        return Vec(I(len(xs)), j, el, ('float',))
    def e_UnaryOp(self, e, fr, st):
        if isinstance(e.op, ast.Not): return tm.not_(self.truth(st, self.eval(e.operand, fr, st)))
        v = self.eval(e.operand, fr, st)
        if isinstance(e.op, ast.USub): return self.binop('Mult', I(-1), v, st)
        if isinstance(e.op, ast.UAdd): return v
        raise Unsupported('unary operator')
    def e_BoolOp(self, e, fr, st):
        isand = isinstance(e.op, ast.And)
        acc = None
        for x in e.values:
            if acc is None: acc = self.truth(st, self.eval(x, fr, st)); continue
            g = acc if isand else tm.not_(acc)
            if g is tm.FALSE: break
            c = self.pure(st, g, lambda s: self.truth(s, self.eval(x, fr, s)))
            acc = tm.and_(acc, c) if isand else tm.or_(acc, c)
        return acc
    def e_IfExp(self, e, fr, st):
        c = self.truth(st, self.eval(e.test, fr, st))
        if c is tm.TRUE: return self.eval(e.body, fr, st)
        if c is tm.FALSE: return self.eval(e.orelse, fr, st)
        a = self.pure(st, c, lambda s: self.deref(s, self.eval(e.body, fr, s)))
        b = self.pure(st, tm.not_(c), lambda s: self.deref(s, self.eval(e.orelse, fr, s)))
        if isinstance(a, T) and isinstance(b, T) and a.sort != b.sort: a, b = tm.toreal(a), tm.toreal(b)
        return vite(c, a, b)
    def e_Compare(self, e, fr, st):
        l = self.eval(e.left, fr, st)
        cs = []
        for op, x in zip(e.ops, e.comparators):
            r = self.eval(x, fr, st)
            cs.append(self.compare(type(op).__name__, l, r, st))
            l = r
        return tm.and_(*cs)
    def compare(self, op, a, b, st):
        if op in ('Is', 'IsNot'):
            if b is not None and a is not None: raise Unsupported('is')
            x = a if b is None else b
            if isinstance(x, CondV): raise Unsupported('conditional None')
            v = tm.TRUE if x is None else tm.FALSE
            return v if op == 'Is' else tm.not_(v)
        if op in ('In', 'NotIn'):
            m = self.deref(st, b)
            if isinstance(b, View) and b.kind == 'keys': m = self.deref(st, b.a[0])
            if not isinstance(m, Map): raise Unsupported('in %s' % type(m).__name__)
            v = m.has(self.num(st, a))
            return v if op == 'In' else tm.not_(v)
        x, y = self.deref(st, a), self.deref(st, b)
        if isinstance(x, tuple) and isinstance(y, tuple) and op == 'Eq' and len(x) == len(y):
            return tm.and_(*[tm.eq(p, q) for p, q in zip(x, y)])
        x, y = self.num(st, a), self.num(st, b)
        if op == 'Eq': return tm.eq(x, y)
        if op == 'NotEq': return tm.not_(tm.eq(x, y))
        if op == 'Lt': return tm.lt(x, y)
        if op == 'LtE': return tm.le(x, y)
        if op == 'Gt': return tm.lt(y, x)
        if op == 'GtE': return tm.le(y, x)
        raise Unsupported(op)
    def e_BinOp(self, e, fr, st):
        return self.binop(type(e.op).__name__, self.eval(e.left, fr, st), self.eval(e.right, fr, st), st)
    def binop(self, op, a, b, st):
        a, b = self.deref(st, a), self.deref(st, b)
        if isinstance(a, Vec) or isinstance(b, Vec):
            n = a.n if isinstance(a, Vec) else b.n
            if isinstance(a, Vec) and isinstance(b, Vec) and a.n is not b.n:
                self.ex.obl('array lengths agree', st, tm.eq(a.n, b.n))
            j = tm.fresh('b', 'I')
            s2 = st.copy().assume(tm.and_(tm.le(Z, j), tm.lt(j, n)))
            el = self.binop(op, a.get(j) if isinstance(a, Vec) else a, b.get(j) if isinstance(b, Vec) else b, s2)
            return Vec(n, j, el, None)
        if isinstance(a, Mat) or isinstance(b, Mat):
            m = a if isinstance(a, Mat) else b
            if isinstance(a, Mat) and isinstance(b, Mat) and (a.r, a.c) != (b.r, b.c): raise Unsupported('shapes')
            at = lambda v, i, j: v.e[i][j] if isinstance(v, Mat) else v
            return Mat(m.r, m.c, [[self.binop(op, at(a, i, j), at(b, i, j), st) for j in range(m.c)] for i in range(m.r)])
        if not isinstance(a, (T, bool)) or not isinstance(b, (T, bool)): raise Unsupported('operator on %s and %s' % (type(a).__name__, type(b).__name__))
        a, b = self.num(st, a), self.num(st, b)
        if op == 'Add': return tm.add(a, b)
        if op == 'Sub': return tm.sub(a, b)
        if op == 'Mult': return tm.mul(a, b)
        if op == 'Div':
            self.ex.obl('division by zero', st, tm.not_(tm.eq(b, Z if b.sort == 'I' else R(0))))
            return tm.div(tm.toreal(a), tm.toreal(b))
        if op == 'Pow':
            if tm.is_num(b) and b.args.denominator == 1 and 0 <= b.args <= 4:
                r = I(1) if a.sort == 'I' else R(1)
                for _ in range(int(b.args)): r = tm.mul(r, a)
                return r
            self.ex.obl('domain: power of a positive number', st, (tm.le if tm.is_num(b) and b.args > 0 else tm.lt)(Z, a))
            return tm.POW(a, b)
        raise Unsupported('operator %s' % op)
    def e_GeneratorExp(self, e, fr, st): return Gen(e, fr)
    e_ListComp = e_GeneratorExp
    def e_Call(self, e, fr, st):
        f = self.eval(e.func, fr, st)
        cid = fr.cid + ('%d.%d' % (e.lineno, e.col_offset),)
        args = [self.eval(x, fr, st) for x in e.args]
        kw = {k.arg: self.eval(k.value, fr, st) for k in e.keywords}
        if isinstance(f, Cls): return self.fresh_obj(st, f, (args, kw), cid)
        if isinstance(f, Fn):
            h = self.contract(f)
            if h is not None: return h(self, st, args, kw)
            return self.inline(st, f, args, kw, cid)
        if isinstance(f, Bound):
            h = self.contract(f.fn)
            if h is not None: return h(self, st, [f.lv] + args, kw)
            return self.inline(st, f.fn, [f.lv] + args, kw, cid)
        if isinstance(f, Meth): return self.builtin_method(f, args, kw, fr, st)
        if isinstance(f, Ext): return self.ext(f.qn, args, kw, fr, st)
        raise Unsupported('call')
    def contract(self, f):
        """a contract installed for the function (shared with the C++ side)"""
        h = self.ex.contracts.get('py:' + (f.mod + '::' + f.cls.name + '::' + f.name if f.cls else f.qn))
        if h is None: return None
        def run(py, st, args, kw):
            r = h(self.ex, st, f, args[0], args[1:], None, None)
            return self.new(st, r) if isinstance(r, Rec) else r
        return run
    # ------------------------------------------------------------ library
    def builtin_method(self, f, args, kw, fr, st):
        v, n = self.deref(st, f.obj), f.name
        if isinstance(v, Map):
            if n == 'get':
                k = self.num(st, args[0])
                d = args[1] if len(args) > 1 else None
                if d is None: raise Unsupported('dict.get without a default')
                return tm.ite(v.has(k), v.get(k), self.num(st, d))
            if n in ('iteritems', 'items'): return View('items', f.obj)
            if n in ('itervalues', 'values'): return View('values', f.obj)
            if n in ('iterkeys', 'keys'): return View('keys', f.obj)
            if n == 'copy': return Map(v.bv, v.mem, v.val, v.kty, v.vty)
            if n == 'pop':
                k = self.num(st, args[0])
                self.need(st, v.has(k), 'KeyError', 'KeyError')
                x = v.get(k)
                self.erase(st, f.obj, v, k)
                return x
        if isinstance(v, Rec) and v.ty == 'pymsg' and n == 'Clear':
            self.ex.store(st, f.obj, Rec(v.ty, {k: R(0) if isinstance(x, T) and x.sort == 'R' else I(0) if isinstance(x, T) else Vec(I(0), x.bv, x.el, x.ety) for k, x in v.f.items()}))
            return None
        if isinstance(v, Vec) and n == 'append' and len(args) == 1:
            x = self.num(st, args[0])
            j = tm.fresh('b', 'I')
            self.mutate(st, f.obj, Vec(tm.add(v.n, I(1)), j, tm.ite(tm.eq(j, v.n), self.like(v, x), v.get(j)), v.ety))
            return None
        if isinstance(v, Vec) and n == 'reshape' and len(args) == 1 and isinstance(args[0], tuple) and len(args[0]) == 2 and all(isinstance(x, T) and tm.is_num(x) for x in args[0]):
            r, c = [int(x.args) for x in args[0]]
            self.need(st, tm.eq(v.n, I(r * c)), 'ValueError')
            return Mat(r, c, [[v.get(I(i * c + j)) for j in range(c)] for i in range(r)])
        if isinstance(v, (Vec, Mat)):
            if n in ('copy', 'tolist'): return v
            if n == 'sum' and not args and not kw: return self.total(v, st)
            if n == 'dot' and len(args) == 1: return self.ext('numpy.dot', [f.obj] + args, kw, fr, st)
        raise Unsupported('method %s' % n)
    def total(self, v, st):
        if isinstance(v, Vec): return tm.sum_range(Z, v.n, lambda j: v.get(j))
        if isinstance(v, Mat): return tm.add(*[x for r in v.e for x in r])
        raise Unsupported('sum')
    def sumgen(self, g, st):
        e = g.node
        if len(e.generators) != 1: raise Unsupported('nested generator')
        c = e.generators[0]
        fr = Frame(g.fr.fn, g.fr.cid + ('gen',))
        fr.names = dict(g.fr.names)
        it = self.eval(c.iter, fr, st)
        k = tm.fresh('j', 'I')
        v = self.deref(st, it)
        if isinstance(v, Vec): rng, x = tm.and_(tm.le(Z, k), tm.lt(k, v.n)), v.get(k)
        elif isinstance(it, View) and it.kind == 'range': rng, x = tm.and_(tm.le(it.a[0], k), tm.lt(k, it.a[1])), k
        elif isinstance(v, Map) or isinstance(it, View) and it.kind in ('items', 'values', 'keys'):
            m = v if isinstance(v, Map) else self.deref(st, it.a[0])
            kind = 'keys' if isinstance(v, Map) else it.kind
            rng, x = m.has(k), k if kind == 'keys' else m.get(k) if kind == 'values' else (k, m.get(k))
        else: raise Unsupported('generator over %s' % type(v).__name__)
        def body(s):
            for t in (c.target,): self.assign(t, x, fr, s)
            g_ = tm.and_(*[self.truth(s, self.eval(i, fr, s)) for i in c.ifs]) if c.ifs else tm.TRUE
            if g_ is not tm.TRUE: s.assume(g_)
            return g_, self.num(s, self.eval(e.elt, fr, s))
        g_, b = self.pure(st, rng, body)
        return tm.bsum(k, tm.ite(tm.and_(rng, g_), b, R(0) if b.sort == 'R' else I(0)))
    def ext(self, qn, args, kw, fr, st):
        mod, n = qn.rsplit('.', 1)
        ex = self.ex
        if mod in ('math', 'numpy', 'scipy.special'):
            if n == 'log' and len(args) == 1:
                x = self.num(st, args[0]); contracts.positive(ex, st, x, 'log'); return tm.LOG(x)
            if n == 'exp': return tm.EXP(self.num(st, args[0]))
            if n == 'sqrt':
                x = self.num(st, args[0]); ex.obl('domain: sqrt', st, tm.le(R(0), tm.toreal(x))); return tm.SQRT(x)
            if n in ('gammaln', 'lgamma'):
                x = self.num(st, args[0]); contracts.positive(ex, st, x, 'lgamma'); return tm.LGAMMA(x)
            if n == 'factorial':
                x = self.num(st, args[0])
                ex.obl('domain: factorial', st, tm.le(Z, x))
                return tm.EXP(tm.LGAMMA(tm.add(tm.toreal(x), R(1))))
            if n == 'multigammaln':
                x, d = self.num(st, args[0]), self.num(st, args[1])
                if not tm.is_num(d): raise Unsupported('multigammaln')
                D = int(d.args)
                x = tm.toreal(x)
                ts = []
                for j in range(D):
                    y = tm.sub(x, R(Fraction(j, 2))); contracts.positive(ex, st, y, 'lgamma'); ts.append(tm.LGAMMA(y))
                return tm.add(tm.scale(tm.LOG(tm.PI), Fraction(D * (D - 1), 4)), *ts)
        if mod in ('numpy', 'numpy.linalg'):
            a = [self.deref(st, x) for x in args]
            if n == 'zeros': return self.zeros(a[0], kw, st)
            if n in ('array', 'asarray'): return self.retype(a[0], kw)
            if n == 'outer' and all(isinstance(x, Mat) and x.c == 1 for x in a):
                return Mat(a[0].r, a[1].r, [[tm.mul(p[0], q[0]) for q in a[1].e] for p in a[0].e])
            if n == 'dot' and all(isinstance(x, Mat) for x in a):
                if a[0].c == 1 and a[1].c == 1 and a[0].r == a[1].r and a[0].r > 1: return tm.add(*[tm.mul(p[0], q[0]) for p, q in zip(a[0].e, a[1].e)])
                if a[0].c == 1: return self.lmul(a[0], a[1])
                return stdlib.mat_arith('*', a[0], a[1])
            if n == 'inner' and all(isinstance(x, Mat) for x in a):
                if a[0].c == 1 and a[1].c == 1: return tm.add(*[tm.mul(p[0], q[0]) for p, q in zip(a[0].e, a[1].e)])
                if a[0].c == 1: return self.lmul(a[0], stdlib.transpose(a[1]))
            if n == 'inv' and isinstance(a[0], Mat): return stdlib.inverse(a[0])
            if n == 'det' and isinstance(a[0], Mat): return stdlib.det(a[0].e)
            if n == 'sum' and len(a) == 1 and not kw: return self.total(a[0], st)
        if mod == 'builtins':
            if n == 'len':
                v = self.deref(st, args[0])
                return v.n if isinstance(v, Vec) else v.size() if isinstance(v, Map) else I(v.r) if isinstance(v, Mat) else I(len(v)) if isinstance(v, tuple) else self.bad(n)
            if n == 'sum':
                if isinstance(args[0], Gen): return self.sumgen(args[0], st)
                if isinstance(args[0], View) and args[0].kind == 'values':
                    m = self.deref(st, args[0].a[0]); k = tm.fresh('k', 'I')
                    x = m.get(k)
                    return tm.bsum(k, tm.ite(m.has(k), x, R(0) if x.sort == 'R' else I(0)))
                return self.total(self.deref(st, args[0]), st)
            if n == 'float': return tm.toreal(self.num(st, args[0]))
            if n == 'int': return tm.trunc(self.num(st, args[0]))
            if n == 'dict' and not args: return self.new(st, Rec('pydict', {k: self.item(st, v) for k, v in kw.items()}), 'dict')
            if n == 'bool': return self.truth(st, args[0])
            if n in ('xrange', 'range'):
                a = [self.num(st, x) for x in args]
                if len(a) == 1: return View('range', Z, a[0])
                if len(a) == 2: return View('range', a[0], a[1])
            if n in ('min', 'max') and len(args) == 1 and isinstance(args[0], View) and args[0].kind == 'values':
                # of the values of a dict: a lower (upper) bound of them that one of them reaches
                m = self.deref(st, args[0].a[0])
                j = tm.fresh('argm', 'I')
                self.need(st, tm.not_(tm.eq(m.size(), Z)), 'ValueError')
                st.assume(m.has(j))
                return m.get(j)
            if n == 'zip': return View('zip', *args)
            if n == 'enumerate': return View('enumerate', args[0])
            if n in ('min', 'max') and len(args) == 2:
                a, b = self.num(st, args[0]), self.num(st, args[1])
                if a.sort != b.sort: a, b = tm.toreal(a), tm.toreal(b)
                return tm.ite(tm.le(a, b), a, b) if n == 'min' else tm.ite(tm.le(b, a), a, b)
            if n == 'abs':
                a = self.num(st, args[0]); return tm.ite(tm.le(Z, a), a, tm.scale(a, -1))
        if qn == 'itertools.izip': return View('zip', *args)
        h = DRAWS.get(qn)
        if h is not None: return h(self, st, [self.deref(st, x) for x in args], kw)
        raise Unsupported('library function %s' % qn)
    def retype(self, v, kw):
        """numpy.array(v, dtype=...)"""
        d = kw.get('dtype')
        d = d.qn.rsplit('.', 1)[-1] if isinstance(d, Ext) else None
        if isinstance(v, Vec):
            if d in ('float', 'float64', 'double') and v.el.sort == 'I': return Vec(v.n, v.bv, tm.toreal(v.el), v.ety)
            if d in ('int', 'int64', 'int_') and v.el.sort == 'R': return Vec(v.n, v.bv, tm.trunc(v.el), v.ety)
        return v
    def bad(self, n): raise Unsupported(n)
    def lmul(self, v, m):
        """row vector times matrix, as a 1-d array"""
        return Mat(m.c, 1, [[tm.add(*[tm.mul(v.e[k][0], m.e[k][j]) for k in range(v.r)])] for j in range(m.c)])
    def zeros(self, shape, kw, st):
        if isinstance(shape, tuple) and all(isinstance(x, T) and tm.is_num(x) for x in shape):
            r, c = [int(x.args) for x in shape] if len(shape) == 2 else (int(shape[0].args), 1)
            return Mat(r, c, [[R(0)] * c for _ in range(r)])
        if isinstance(shape, T) and tm.is_num(shape): return Mat(int(shape.args), 1, [[R(0)] for _ in range(int(shape.args))])
        if isinstance(shape, T):
            d = kw.get('dtype')
            integer = isinstance(d, Ext) and d.qn.rsplit('.', 1)[-1] in ('int', 'int32', 'int64', 'int_')
            return Vec(shape, tm.fresh('b', 'I'), I(0) if integer else R(0), None)
        raise Unsupported('zeros')

# ---- primitive random variates: arbitrary values at their position in the sequence,
# in the standard members of their families (as on the C++ side)
def real(x): return tm.toreal(x)
def beta_(py, st, a, kw):
    for x in a: contracts.positive(py.ex, st, real(x), 'beta parameter')
    return py.ex.rng_draw(st, 'PY_beta', [real(x) for x in a], 'R')
def gamma_(py, st, a, kw):
    sc = a[1] if len(a) > 1 else R(1)
    contracts.positive(py.ex, st, real(a[0]), 'gamma shape'); contracts.positive(py.ex, st, real(sc), 'gamma scale')
    return tm.mul(real(sc), py.ex.rng_draw(st, 'PY_gamma', [real(a[0])], 'R'))
def poisson_(py, st, a, kw): return py.ex.rng_draw(st, 'PY_poisson', [real(a[0])], 'I')
def bernoulli_(py, st, a, kw): return tm.eq(py.ex.rng_draw(st, 'PY_bernoulli', [real(a[0])], 'I'), I(1))
def nbinom_(py, st, a, kw): return py.ex.rng_draw(st, 'PY_nbinom', [real(x) for x in a], 'I')
def norm_(py, st, a, kw):
    loc, sc = (a + [R(0), R(1)][len(a):])[:2]
    return tm.add(real(loc), tm.mul(real(sc), py.ex.rng_draw(st, 'PY_normal', [], 'R')))
def chi2_(py, st, a, kw):
    contracts.positive(py.ex, st, real(a[0]), 'degrees of freedom')
    return py.ex.rng_draw(st, 'PY_chi2', [real(a[0])], 'R')
def dirichlet_(py, st, a, kw):
    v = a[0]
    if not isinstance(v, Vec): raise Unsupported('dirichlet')
    py.drawn_dirichlet = v
    c = st.cells.get('rng')
    st.cells['rng'] = tm.add(c, I(1))
    j = tm.fresh('b', 'I')
    return Vec(v.n, j, tm.app('PY_dirichlet', (c, j), 'R'), None)
def arg(py, st, a, kw, k, n):
    return a[k] if len(a) > k else py.deref(st, kw[n])
def mvnormal_(py, st, a, kw):
    """a point of the plane of the mean; what it was asked for is kept"""
    m, c = arg(py, st, a, kw, 0, 'mean'), arg(py, st, a, kw, 1, 'cov')
    if not (isinstance(m, Mat) and m.c == 1 and isinstance(c, Mat) and c.r == c.c == m.r) or len(a) > 2 or set(kw) - {'mean', 'cov'}: raise Unsupported('multivariate_normal')
    py.normals.append((m, c))
    n = len(py.normals)
    return Mat(m.r, 1, [[tm.app('PY_mvn', (I(n), I(i)), 'R')] for i in range(m.r)])
def invwishart_(py, st, a, kw):
    if len(a) != 2 or kw or not isinstance(a[0], Mat): raise Unsupported('sample_invwishart')
    py.wisharts.append((a[0], real(a[1])))
    n, d = len(py.wisharts), a[0].r
    return Mat(d, d, [[tm.app('PY_iw', (I(n), I(min(i, j)), I(max(i, j))), 'R') for j in range(d)] for i in range(d)])
DRAWS = {'numpy.random.multivariate_normal': mvnormal_, 'numpy.random.beta': beta_, 'numpy.random.gamma': gamma_, 'numpy.random.poisson': poisson_, 'scipy.stats.bernoulli.rvs': bernoulli_,
         'scipy.stats.nbinom.rvs': nbinom_, 'scipy.stats.norm.rvs': norm_, 'scipy.stats.chi2.rvs': chi2_, 'numpy.random.mtrand.dirichlet': dirichlet_,
         'numpy.random.dirichlet': dirichlet_}

# ------------------------------------------------------------------ environment
import spec
class PyEnv(spec.Env):
    """Env whose 'py:' objects are those of the Python sources"""
    schema = {}
    def __init__(self, name, **k):
        spec.Env.__init__(self, name, **k)
        self.py = Py(self.ex)
        self.calls = 0
    def make(self, name, t, idx=()):
        if t in ('R', 'I', 'B'): return tm.var(name, t)
        if t[0] == 'vec':
            n, b = tm.var(name + '.n', 'I'), tm.fresh('b', 'I')
            self.require(tm.le(Z, n))
            return Vec(n, b, tm.app(name, (b,), t[1]), None)
        if t[0] == 'map':
            k = tm.fresh('k', 'I')
            return Map(k, tm.app(name + '.has', (k,), 'B'), tm.app(name, (k,), t[1]), None, None)
        if t[0] == 'mat':
            return Mat(t[1], t[2], [[tm.var('%s.%d.%d' % (name, i, j), 'R') for j in range(t[2])] for i in range(t[1])])
        raise Unsupported(t)
    def ispy(self, ty): return isinstance(ty, tuple) and ty[0] == 'rec' and ty[1].startswith('py:')
    def obj(self, name, ty):
        if self.ispy(ty): return self.pyobj(name, ty[1], True)
        if isinstance(ty, tuple) and ty[0] == 'py': return self.put(name, self.make(name, ty[1]))
        return spec.Env.obj(self, name, ty)
    def blank(self, name, ty):
        if self.ispy(ty):
            lv = self.pyobj(name, ty[1], False); return lv
        return spec.Env.blank(self, name, ty)
    def cls(self, ty):
        mod, c = ty[3:].rsplit('::', 1) if '::' in ty else ty[3:].rsplit('.', 1)
        k = self.py.mods.name(mod, c)
        if not isinstance(k, Cls): raise Unsupported('no class %s' % ty)
        self.py.classes[mod + '.' + c] = k
        return k
    def pyobj(self, name, ty, full):
        """an object constructed by the real __init__, then with arbitrary contents"""
        k = self.cls(ty)
        lv = self.put(name, Rec('py:' + k.qn, {}))
        f = self.py.mods.method(k, '__init__')
        if f is None and self.schema.get(ty): full = True
        if f is not None: self.py.inline(self.st, f, [lv], {}, ('new%d' % self.calls,)); self.calls += 1
        if full:
            v = self.get(lv)
            g = dict(v.f)
            for n, t in self.schema[ty].items(): g[n] = self.make(name + '.' + n, t)
            self.set(lv, Rec(v.ty, g))
        return lv
    def method(self, lv, name, *args, **k):
        v = self.get(lv)
        if not (isinstance(v, Rec) and v.ty.startswith('py:')): return spec.Env.method(self, lv, name, *args, **k)
        c = self.cls(v.ty)
        f = self.py.mods.method(c, name)
        if f is None: raise Unsupported('no method %s.%s' % (v.ty, name))
        a = []
        for x in args:
            if x is self.rngcell: continue
            if isinstance(x, LV) and isinstance(self.get(x), T): x = self.get(x)
            a.append(x)
        self.calls += 1
        h = self.py.contract(f)
        r = h(self.py, self.st, [lv] + a, {}) if h is not None else self.py.inline(self.st, f, [lv] + a, {}, ('c%d' % self.calls,))
        self.collect(f.qn)
        if isinstance(r, (LV, LVCond)): r = self.ex.load(self.st, r)
        return r
