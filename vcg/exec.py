"""Symbolic executor for the clang AST: strongest postconditions over the
value domain of vals.py.  Loops are summarised by loops.py."""
import re
from fractions import Fraction
import numpy as np
import math
import term as tm
from term import T
from vals import *
from ctypes_ import Types, strip_ref
import canon as cn

def skip(e):
    while e.get('kind') in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr',
                            'ConstantExpr', 'SubstNonTypeTemplateParmExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr',
                            'ImplicitCastExpr') and _transparent(e):
        e = e['inner'][-1]
    return e
def _transparent(e):
    if e['kind'] in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr'):
        return True
    return e.get('castKind') in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ConstructorConversion', 'FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'UserDefinedConversion')

NAMED = [(math.pi, lambda: tm.PI), (math.log(math.pi), lambda: tm.LOG(tm.PI)), (math.log(2), lambda: tm.LOG(tm.rv(2))),
         (math.log(2 * math.pi), lambda: tm.LOG(tm.rv(2)) + tm.LOG(tm.PI)), (0.5 * math.log(math.pi), lambda: tm.scale(tm.LOG(tm.PI), Fraction(1, 2))),
         (2 * math.pi, lambda: tm.scale(tm.PI, 2)), (math.sqrt(2), lambda: tm.SQRT(tm.rv(2))), (math.log(10), lambda: tm.LOG(tm.rv(10)))]
def float_lit(s, single):
    v = float(s)
    for c, f in NAMED:
        if abs(v - c) <= abs(c) * (2e-7 if single else 1e-12):
            return f()
    if single and abs(v) >= 2**24: return tm.rv(Fraction(float(np.float32(v))))
    return tm.rv(Fraction(str(np.float32(v))) if single else Fraction(repr(v)))

class Frame:
    def __init__(self, fn, this=None, scope=None, cid=()):
        self.fn, self.this, self.env = fn, this, {}
        self.scope = scope
        self.cid = cid          # deterministic call-path id

class Out:
    """outcomes of a statement"""
    __slots__ = ('next', 'ret', 'brk', 'cont')
    def __init__(self, next=None, ret=None, brk=None, cont=None):
        self.next, self.ret, self.brk, self.cont = next, ret, brk, cont
    @property
    def exits(self):
        return self.ret is not None or self.brk is not None or self.cont is not None

class Obl:
    __slots__ = ('kind', 'hyps', 'goal', 'where')
    def __init__(self, kind, hyps, goal, where):
        self.kind, self.hyps, self.goal, self.where = kind, hyps, goal, where

class Executor:
    def __init__(self, prog, ax=None):
        self.p = prog
        self.ty = Types(prog)
        self.ax = ax or cn.Axioms()
        self.bounds, self.bitsof, self.run_constructor, self.const_tables = {}, None, set(), {}
        self.contracts = {}
        self.base = []           # hypotheses true everywhere
        self.obls = []
        self.throws = []         # (conds, text, where)
        self.record = True
        self.unsolved, self.junked = 0, False
        self.cellid = 0
        self.globals = {}
        self.loopvars = ()
        self.line = None
        self.used_fns = set()
        self.used_contracts = set()
        self.rng_n = None
        self.retdepth = 0
        self.knowncache = {}
        self.loop_inv = {}
        self.loop_hint = {}
        self.loops = {}
        self.allow_unsafe = False
        self.assumed = set()
        self.static_null = False

    # ------------------------------------------------------------- helpers
    def new_cell(self, st, v, name=''):
        self.cellid += 1
        c = '%s~%d' % (name, self.cellid)
        st.cells[c] = v
        return LV(c)
    def obl(self, kind, st, goal, extra=()):
        if not self.record or goal is tm.TRUE:
            return
        self.obls.append(Obl(kind, tuple(st.conds()) + tuple(extra), goal, self.line))
    prune = False
    def known(self, st, c):
        """cheap check that c follows from the path condition"""
        if c is tm.TRUE: return True
        if c is tm.FALSE: return False
        key = (c.id, tuple(x.id for x in st.conds()), len(self.base))
        r = self.knowncache.get(key)
        if r is None:
            try:
                can = cn.Canon(self.base + st.conds(), self.ax, 400)
                r = can.decide(c) is True
            except (cn.NeedSplit, cn.Undecided, cn.Timeout):
                r = False
            self.knowncache[key] = r
        return r

    # ------------------------------------------------------------- lvalues
    def load(self, st, lv):
        if isinstance(lv, LVCond):
            return vite(lv.c, self.load(st, lv.a), self.load(st, lv.b))
        v = st.cells.get(lv.root)
        if v is None:
            raise Unsupported('dangling cell %s' % lv.root)
        return self.getpath(v, lv.path)
    def getpath(self, v, path):
        for n, (k, x) in enumerate(path):
            if isinstance(v, CondV):
                return vite(v.c, self.getpath(v.a, path[n:]), self.getpath(v.b, path[n:]))
            if k == 'f':
                if not isinstance(v, Rec) or x not in v.f:
                    raise Unsupported('field %s of %s' % (x, type(v).__name__))
                v = v.f[x]
            elif k == 'i':
                v = v.get(x)
            elif k == 'k':
                v = v.get(x)
            elif k == 'm':
                v = v.e[x[0]][x[1]]
            elif k == 'e':       # map entry (pair)
                m = v
                v = Rec('pair', {'first': x, 'second': m.get(x) if m.val is not None else x})
            else:
                raise Unsupported(k)
        return v
    def store(self, st, lv, new):
        if isinstance(lv, LVCond):
            a = self.load(st, lv.a)
            self.store(st, lv.a, vite(lv.c, new, a))
            b = self.load(st, lv.b)
            self.store(st, lv.b, vite(lv.c, b, new))
            return
        st.cells[lv.root] = self.setpath(st.cells[lv.root], lv.path, new)
    def setpath(self, v, path, new, g=tm.TRUE):
        """v with the element at path replaced by new (under guard g)"""
        if not path:
            return vite(g, new, v)
        (k, x), rest = path[0], path[1:]
        if isinstance(v, CondV):
            raise Unsupported('store into conditional value')
        if k == 'f':
            f = dict(v.f)
            f[x] = self.setpath(v.f[x], rest, new, g)
            return Rec(v.ty, f)
        if k == 'i':
            return Vec(v.n, v.bv, self.setpath(v.el, rest, new, tm.and_(g, tm.eq(v.bv, x))), v.ety)
        if k == 'k':
            return Map(v.bv, v.mem, self.setpath(v.val, rest, new, tm.and_(g, tm.eq(v.bv, x))), v.kty, v.vty, v.cnt)
        if k == 'e':
            if rest and rest[0] == ('f', 'second'):
                return self.setpath(v, (('k', x),) + rest[1:], new, g)
            raise Unsupported('store to map entry')
        if k == 'm':
            e = [list(r) for r in v.e]
            e[x[0]][x[1]] = tm.ite(g, new, e[x[0]][x[1]])
            return Mat(v.r, v.c, e)
        raise Unsupported(k)

    def deref(self, p):
        if isinstance(p, CondV):
            return LVCond(p.c, self.deref(p.a), self.deref(p.b))
        if isinstance(p, Ptr):
            if p.lv is None:
                raise Unsupported('null dereference')
            return p.lv if p.off is None else p.lv + ('i', p.off)
        if isinstance(p, MIter):
            if p.end is None or p.key is None: raise Unsupported('dereference of an iterator')
            return p.lv + ('e', p.key)
        raise Unsupported('deref %s' % type(p).__name__)
    def check_deref(self, st, p):
        if isinstance(p, CondV):
            s1 = st.copy().assume(p.c)
            self.check_deref(s1, p.a)
            s2 = st.copy().assume(tm.not_(p.c))
            self.check_deref(s2, p.b)
            return
        if isinstance(p, Ptr):
            if p.lv is None:
                self.obl('null dereference', st, tm.FALSE)
            elif p.off is not None:
                self.check_index(st, p.lv, p.off)
        elif isinstance(p, MIter):
            if p.end is None: raise Unsupported('dereference of a moved iterator')
            self.obl('iterator at end', st, tm.not_(p.end))
    def check_index(self, st, lv, i):
        v = self.load(st, lv)
        n = v.n
        self.obl('index in bounds', st, tm.and_(tm.le(tm.iv(0), i), tm.lt(i, n)))

    # ------------------------------------------------------------- fresh / default values
    def default(self, ty):
        """value-initialised"""
        k = ty[0]
        if k == 'int': return tm.iv(0)
        if k in ('float', 'double'): return tm.rv(0)
        if k == 'bool': return tm.FALSE
        if k == 'rec': return Rec(ty[1], {n: self.default(t) for n, t in self.ty.fields(ty[1])})
        if k == 'vec': return Vec(tm.iv(0), tm.fresh('b', 'I'), self.default(ty[1]), ty[1])
        if k == 'array': return Vec(tm.iv(ty[2]), tm.fresh('b', 'I'), self.default(ty[1]), ty[1])
        if k == 'map': return Map(tm.fresh('k', 'I'), tm.FALSE, self.default(ty[2]), ty[1], ty[2])
        if k == 'set': return Map(tm.fresh('k', 'I'), tm.FALSE, None, ty[1], None)
        if k == 'pair': return Rec('pair', {'first': self.default(ty[1]), 'second': self.default(ty[2])})
        if k == 'ptr': return Ptr(None)
        if k == 'mat':
            r, c = self.matdim(ty)
            return Mat(r, c, [[tm.rv(0)] * c for _ in range(r)])
        return Opaque(str(ty))
    def matdim(self, ty):
        r, c = ty[1], ty[2]
        d = getattr(self, 'dyn_dim', None)
        if r == -1: r = d
        if c == -1: c = d
        if r is None or c is None:
            raise Unsupported('dynamic matrix')
        return r, c
    def uninit(self, ty, name='u'):
        """default-initialised: class types run their (implicit) constructor"""
        k = ty[0]
        if k == 'int': return tm.fresh(name + '?', 'I')
        if k in ('float', 'double'): return tm.fresh(name + '?', 'R')
        if k == 'bool': return tm.fresh(name + '?', 'B')
        if k == 'rec': return Rec(ty[1], {n: self.uninit(t, n) for n, t in self.ty.fields(ty[1])})
        if k == 'array':
            b = tm.fresh('b', 'I')
            return Vec(tm.iv(ty[2]), b, self.fresh_value(ty[1], tm.fresh(name + '?', 'I').args, (b,), None), ty[1])
        if k == 'mat':
            r, c = self.matdim(ty)
            return Mat(r, c, [[tm.fresh(name + '?', 'R') for _ in range(c)] for _ in range(r)])
        return self.default(ty)
    def fresh_value(self, ty, name, idx=(), hyps=None, axioms=True):
        """unconstrained symbolic input of a type; machine ranges become facts"""
        k = ty[0]
        def leaf(sort, lohi=None):
            if not idx:
                t = tm.var(name, sort)
                if lohi and hyps is not None:
                    hyps.append(tm.and_(tm.le(tm.iv(lohi[0]), t), tm.lt(t, tm.iv(lohi[1]))))
            else:
                t = tm.app(name, idx, sort)
                if lohi and axioms and name not in self.ax.by_fun:
                    self.ax.fun(name, lambda *a: tm.and_(tm.le(tm.iv(lohi[0]), tm.app(name, a, sort)), tm.lt(tm.app(name, a, sort), tm.iv(lohi[1]))))
            return t
        if k == 'int': return leaf('I', irange(ty) if hyps is not None else None)
        if k in ('float', 'double'): return leaf('R')
        if k == 'bool': return leaf('B')
        if k == 'rec':
            return Rec(ty[1], {n: self.fresh_value(t, name + '.' + n, idx, hyps, axioms) for n, t in self.ty.fields(ty[1])})
        if k in ('vec', 'array'):
            b = tm.fresh('b', 'I')
            if k == 'vec':
                n = tm.var(name + '.n', 'I') if not idx else tm.app(name + '.n', idx, 'I')
                if not idx:
                    if hyps is not None: hyps.append(tm.and_(tm.le(tm.iv(0), n), tm.lt(n, tm.iv(1 << 31))))
                elif name + '.n' not in self.ax.by_fun:
                    self.ax.fun(name + '.n', lambda *a: tm.and_(tm.le(tm.iv(0), tm.app(name + '.n', a, 'I')), tm.lt(tm.app(name + '.n', a, 'I'), tm.iv(1 << 31))))
            else:
                n = tm.iv(ty[2])
            return Vec(n, b, self.fresh_value(ty[1], name, idx + (b,), hyps, axioms), ty[1])
        if k in ('map', 'set'):
            b = tm.fresh('k', 'I')
            mem = tm.app(name + '.mem', idx + (b,), 'B')
            kt = ty[1]
            if name + '.mem' not in self.ax.by_fun and kt[0] == 'int':
                lo, hi = irange(kt)
                self.ax.fun(name + '.mem', lambda *a: tm.implies(tm.app(name + '.mem', a, 'B'), tm.and_(tm.le(tm.iv(lo), a[-1]), tm.lt(a[-1], tm.iv(hi)))))
            val = None if k == 'set' else self.fresh_value(ty[2], name + '.val', idx + (b,), hyps, axioms)
            return Map(b, mem, val, ty[1], ty[2] if k == 'map' else None)
        if k == 'pair':
            return Rec('pair', {'first': self.fresh_value(ty[1], name + '.first', idx, hyps), 'second': self.fresh_value(ty[2], name + '.second', idx, hyps)})
        if k == 'mat':
            r, c = self.matdim(ty)
            out = []
            for i in range(r):
                row = []
                for j in range(c):
                    nm = '%s[%d,%d]' % (name, i, j)
                    row.append(tm.app(nm, idx, 'R') if idx else tm.var(nm, 'R'))
                out.append(row)
            return Mat(r, c, out)
        return Opaque(str(ty))

    # ------------------------------------------------------------- conversions
    def wrap(self, st, v, ty):
        """integer value converted to an integer type"""
        if ty[0] != 'int' or v.sort != 'I':
            return v
        lo, hi = irange(ty)
        if v.op == 'num':
            c = int(v.args)
            if lo <= c < hi: return v
            m = 1 << ty[2]
            c %= m
            if ty[1] and c >= hi: c -= m
            return tm.iv(c)
        if ty[2] <= 16 and st is not None:
            inside = tm.and_(tm.le(tm.iv(lo), v), tm.lt(v, tm.iv(hi)))
            if not self.known(st, inside):
                m = tm.iv(1 << ty[2])
                r = tm.imod(v, m)
                r = tm.ite(tm.lt(r, tm.iv(0)), tm.add(r, m), r)
                if ty[1]: r = tm.ite(tm.le(tm.iv(hi), r), tm.sub(r, m), r)
                return tm.ite(inside, v, r)
        return v
    def to_unsigned(self, st, v, w):
        """signed integer to unsigned of width w"""
        if v.op == 'num':
            return tm.iv(int(v.args) % (1 << w))
        c = tm.le(tm.iv(0), v)
        if self.known(st, c):
            return v
        return tm.ite(c, v, tm.add(v, tm.iv(1 << w)))
    def truth(self, v):
        if isinstance(v, T):
            if v.sort == 'B': return v
            return tm.not_(tm.eq(v, tm.iv(0)))
        if isinstance(v, Ptr):
            return tm.FALSE if v.lv is None else tm.TRUE
        if isinstance(v, CondV):
            return tm.ite(v.c, self.truth(v.a), self.truth(v.b))
        raise Unsupported('truth of %s' % type(v).__name__)
    def as_int(self, v):
        return tm.ite(v, tm.iv(1), tm.iv(0)) if v.sort == 'B' else v
    def typ(self, e, fr):
        return self.ty.of(e['type'], fr.scope)

    # ------------------------------------------------------------- expressions
    def lval(self, e, fr, st):
        e0 = e
        k = e['kind']
        if k in ('ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'SubstNonTypeTemplateParmExpr', 'ConstantExpr'):
            return self.lval(e['inner'][-1], fr, st)
        if k == 'MaterializeTemporaryExpr':
            i = e['inner'][0]
            return self.temp(i, fr, st)
        if k in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr'):
            if _transparent(e) or e.get('castKind') in ('NoOp',):
                return self.lval(e['inner'][-1], fr, st)
            return self.temp(e, fr, st)
        if k == 'DeclRefExpr':
            d = e['referencedDecl']
            return self.declref(d, fr, st)
        if k == 'MemberExpr':
            b = e['inner'][0]
            if e.get('isArrow'):
                p = self.rval(b, fr, st)
                self.check_deref(st, p)
                lv = self.deref(p)
            else:
                lv = self.lval(b, fr, st)
            return self.member(st, lv, e['name'])
        if k == 'ArraySubscriptExpr':
            b, i = e['inner']
            p = self.rval(b, fr, st)
            i = self.rval(i, fr, st)
            p = self.ptr_add(p, i)
            self.check_deref(st, p)
            return self.deref(p)
        if k == 'UnaryOperator':
            op = e['opcode']
            if op == '*':
                p = self.rval(e['inner'][0], fr, st)
                self.check_deref(st, p)
                return self.deref(p)
            if op in ('++', '--') and not e.get('isPostfix'):
                lv = self.lval(e['inner'][0], fr, st)
                self.incdec(lv, op, st, self.typ(e, fr))
                return lv
        if k == 'BinaryOperator' and e['opcode'] == '=':
            lv = self.lval(e['inner'][0], fr, st)
            v = self.rval(e['inner'][1], fr, st)
            self.store(st, lv, self.conv_store(st, lv, v))
            return lv
        if k == 'BinaryOperator' and e['opcode'] == ',':
            self.rval(e['inner'][0], fr, st)
            return self.lval(e['inner'][1], fr, st)
        if k == 'CompoundAssignOperator':
            return self.compound(e, fr, st)
        if k == 'ConditionalOperator':
            c = self.truth(self.rval(e['inner'][0], fr, st))
            if c is tm.TRUE: return self.lval(e['inner'][1], fr, st)
            if c is tm.FALSE: return self.lval(e['inner'][2], fr, st)
            s1, s2 = st.copy().assume(c, 'b'), st.copy().assume(tm.not_(c), 'b')
            a, b = self.lval(e['inner'][1], fr, s1), self.lval(e['inner'][2], fr, s2)
            m = merge(c, st.pc, s1, s2)
            st.cells, st.pc = m.cells, m.pc
            return LVCond(c, a, b)
        if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            r = self.call(e, fr, st, want_lv=True)
            if isinstance(r, (LV, LVCond)):
                return r
            return self.new_cell(st, r, 'tmp')
        if k == 'CXXThisExpr':
            raise Unsupported('this as lvalue')
        return self.temp(e, fr, st)
    def temp(self, e, fr, st):
        e1 = e
        while e1['kind'] in ('ParenExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr', 'ImplicitCastExpr') and (e1['kind'] != 'ImplicitCastExpr' or _transparent(e1)):
            e1 = e1['inner'][-1]
        v = self.rval(e1, fr, st)
        return self.new_cell(st, v, 'tmp')
    def declref(self, d, fr, st):
        i = d['id']
        if i in fr.env:
            v = fr.env[i]
            return v
        if d['kind'] == 'EnumConstantDecl':
            return self.new_cell(st, self.enum(d), 'enum')
        g = self.p.globals.get(i)
        if g is not None:
            return self.global_lv(g, st)
        raise Unsupported('reference to %s %s' % (d['kind'], d.get('name')))
    def global_lv(self, g, st):
        qn, node = g
        h = self.globals.get(qn)
        if h is not None:
            return h(self, st) if callable(h) else h
        key = 'global:' + qn
        if key not in st.cells:
            node = self.p.gby_name.get(qn, node)
            ty = self.ty.of(node['type'], qn.rsplit('::', 1)[0])
            init = [x for x in node.get('inner', []) if 'Attr' not in x['kind']]
            v = None
            if qn in self.run_constructor and init:
                v = self.rval(init[-1], Frame(None), st)
            elif ty[0] in ('int', 'float', 'double', 'bool') and init and 'const' in node['type']['qualType']:
                v = self.rval(init[-1], Frame(None), st)
            else:
                v = self.fresh_value(ty, qn, (), self.base)
                if ty[0] == 'array' and 'const' in node['type']['qualType'] and init and init[-1]['kind'] == 'InitListExpr':
                    self.table(v, init[-1], st)
            st.cells[key] = v
        return LV(key)
    def table(self, v, init, st):
        """entries of a constant table, as facts about its uninterpreted function"""
        t = v.get(tm.fresh('i', 'I'))
        if not isinstance(t, T) or t.op != 'app' or t.args[0] in self.ax.by_fun: return
        try:
            vals = [self.rval(x, Frame(None), st) for x in init.get('inner', [])]
        except Unsupported:
            return
        self.const_tables[t.args[0]] = vals
        def entry(i):
            if i.op == 'num' and 0 <= int(i.args) < len(vals): return tm.eq(tm.app(t.args[0], (i,), t.sort), vals[int(i.args)])
            return tm.TRUE
        self.ax.fun(t.args[0], entry)
    def member(self, st, lv, name):
        return lv + ('f', name)
    def ptr_add(self, p, i):
        if isinstance(p, CondV):
            return CondV(p.c, self.ptr_add(p.a, i), self.ptr_add(p.b, i))
        if isinstance(p, Ptr) and p.off is not None:
            return Ptr(p.lv, tm.add(p.off, i))
        if isinstance(p, Ptr) and p.lv is not None and p.off is None:
            raise Unsupported('pointer arithmetic on scalar')
        raise Unsupported('pointer arithmetic')
    def conv_store(self, st, lv, v):
        return v
    def incdec(self, lv, op, st, ty):
        v = self.load(st, lv)
        if isinstance(v, MIter):
            return self.advance(lv, v, op, st)
        d = 1 if op == '++' else -1
        if isinstance(v, (Ptr, CondV)):
            n = self.ptr_add(v, tm.iv(d))
        else:
            n = tm.add(v, tm.iv(d))
            if d < 0 and ty[0] == 'int' and not ty[1]:
                n = self.to_unsigned(st, n, ty[2])
        self.store(st, lv, n)
        return v
    def advance(self, lv, v, op, st):
        """the iterator after v: has no key until the loop that moves it gives it one"""
        if op != '++' or v.key is None or v.end is None: raise Unsupported('iterator increment')
        self.store(st, lv, MIter(v.lv, v.key, None))
        return v
    def compound(self, e, fr, st):
        lhs, rhs = e['inner']
        # right operand is sequenced arbitrarily before C++17: evaluate it first
        r = self.rval(rhs, fr, st)
        lv = self.lval(lhs, fr, st)
        l = self.load(st, lv)
        op = e['opcode'][:-1]
        if isinstance(l, (Ptr,)):
            n = self.ptr_add(l, r if op == '+' else tm.scale(r, -1))
        else:
            ct = self.ty.of(e['computeResultType'], fr.scope) if 'computeResultType' in e else self.typ(e, fr)
            n = self.arith(op, l, r, ct, st)
            lt = self.typ(lhs, fr)
            n = self.cast_num(n, ct, lt, st)
        self.store(st, lv, n)
        return lv
    def cast_num(self, v, frm, to, st):
        if not isinstance(v, T): return v
        if to[0] == 'int' and v.sort == 'R':
            return tm.trunc(v)
        if to[0] in ('float', 'double') and v.sort == 'I':
            return tm.toreal(v)
        if to[0] == 'bool':
            return self.truth(v)
        if v.sort == 'B' and to[0] == 'int':
            return self.as_int(v)
        if to[0] == 'int' and v.sort == 'I':
            if not to[1] and (frm[0] == 'int' and frm[1]) and to[2] > 16:
                return self.to_unsigned(st, v, to[2])
            return self.wrap(st, v, to) if v.op == 'num' or frm[0] != 'int' or to[2] < frm[2] else v
        return v
    def arith(self, op, a, b, ty, st):
        if isinstance(a, Mat) or isinstance(b, Mat):
            return self.mat_arith(op, a, b)
        if not isinstance(a, T) or not isinstance(b, T):
            if isinstance(a, (Ptr, CondV)) and isinstance(b, T):
                return self.ptr_add(a, b if op == '+' else tm.scale(b, -1))
            if isinstance(a, Ptr) and isinstance(b, Ptr) and op == '-':
                return tm.sub(a.off, b.off)
            raise Unsupported('arith %s on %s,%s' % (op, type(a).__name__, type(b).__name__))
        if a.sort == 'B': a = self.as_int(a)
        if b.sort == 'B': b = self.as_int(b)
        isint = ty[0] == 'int'
        if op == '+': return self.wrapc(tm.add(a, b), ty)
        if op == '-':
            r = tm.sub(a, b)
            if isint and not ty[1]:
                return self.to_unsigned(st, r, ty[2])
            return r
        if op == '*': return self.wrapc(tm.mul(a, b), ty)
        if op == '/':
            if isint:
                self.obl('division by zero', st, tm.not_(tm.eq(b, tm.iv(0))))
                return tm.idiv(a, b)
            if b.op != 'num':
                self.obl('domain: divisor is not zero', st, tm.not_(tm.eq(b, tm.iv(0))))
            return tm.div(a, b)
        if op == '%':
            self.obl('division by zero', st, tm.not_(tm.eq(b, tm.iv(0))))
            return tm.imod(a, b)
        if op in ('<<', '>>', '&', '|', '^'):
            if a.op == 'num' and b.op == 'num':
                x, y = int(a.args), int(b.args)
                r = {'<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}[op]()
                return self.wrap(st, tm.iv(r), ty)
            if op == '<<' and b.op == 'num':
                return tm.mul(a, tm.iv(1 << int(b.args)))
            if op == '>>' and b.op == 'num':
                return self.shr(a, int(b.args))
            if op == '&' and b.op == 'num' and int(b.args) > 0 and int(b.args) & (int(b.args) + 1) == 0:
                return self.lowbits(a, int(b.args).bit_length())
            if op == '&' and a.op == 'num' and int(a.args) > 0 and int(a.args) & (int(a.args) + 1) == 0:
                return self.lowbits(b, int(a.args).bit_length())
            return tm.app('bit' + op, (a, b), 'I')
        raise Unsupported('operator ' + op)
    # arithmetic shifts and low-bit masks of two's complement integers, as
    # floor division and remainder by powers of two
    def split2(self, x, n):
        """x = 2^n * q + r with r's numeric part and coefficients below 2^n"""
        d, c = tm.lin(x)
        m = 1 << n
        q, r = {}, {}
        for k, v in d.items():
            a = v.numerator // m if v.denominator == 1 else 0
            if a: q[k] = tm.Fraction(a)
            if v - a * m: r[k] = v - a * m
        a = c.numerator // m
        return tm.from_lin(q, tm.Fraction(a), 'I'), tm.from_lin(r, c - a * m, 'I')
    def irange(self, t):
        """constant bounds of an integer term, or None"""
        if t.op == 'num': return int(t.args), int(t.args)
        if t in self.bounds: return self.bounds[t]
        if t.op == 'app' and str(t.args[0]).startswith('bits:low'): return 0, (1 << int(t.args[0][8:])) - 1
        if t.op == 'app' and str(t.args[0]).startswith('bits:shr'):
            b = self.irange(t.args[1])
            return b and (b[0] >> int(t.args[0][8:]), b[1] >> int(t.args[0][8:]))
        d, c = tm.lin(t)
        if c.denominator != 1 or list(d) == [t]: return None
        lo = hi = int(c)
        for k, v in d.items():
            b = self.irange(k)
            if b is None or v.denominator != 1: return None
            x, y = int(v) * b[0], int(v) * b[1]
            lo += min(x, y); hi += max(x, y)
        return lo, hi
    def shr(self, x, n):
        q, r = self.split2(x, n)
        b = self.irange(r)
        if b is not None and b[0] >> n == b[1] >> n: return tm.add(q, tm.iv(b[0] >> n))
        f, m = 'bits:shr%d' % n, tm.iv(1 << n)
        if f not in self.ax.by_fun:
            def ax(y):
                t = tm.mul(m, tm.app(f, (y,), 'I'))
                fs = [tm.le(t, y), tm.lt(y, tm.add(t, m))]
                b = self.irange(tm.app(f, (y,), 'I'))
                if b: fs += [tm.le(tm.iv(b[0]), tm.app(f, (y,), 'I')), tm.le(tm.app(f, (y,), 'I'), tm.iv(b[1]))]
                return tm.and_(*fs)
            self.ax.fun(f, ax)
        return tm.add(q, tm.app(f, (r,), 'I'))
    def lowbits(self, x, n):
        q, r = self.split2(x, n)
        b = self.irange(r)
        if b is not None and b[0] >> n == b[1] >> n: return tm.sub(r, tm.iv((b[0] >> n) << n))
        f, m = 'bits:low%d' % n, tm.iv(1 << n)
        if f not in self.ax.by_fun:
            self.shr(tm.var('bits', 'I'), n)
            self.ax.fun(f, lambda y: tm.and_(tm.le(tm.iv(0), tm.app(f, (y,), 'I')), tm.lt(tm.app(f, (y,), 'I'), m),
                                             tm.eq(tm.add(tm.mul(m, self.shr(y, n)), tm.app(f, (y,), 'I')), y)))
        return tm.app(f, (r,), 'I')
    def float_bits(self, v):
        """the 32-bit integer with the same representation as a float"""
        return self.bitsof(v) if self.bitsof is not None else tm.app('bits:float', (v,), 'I')
    def wrapc(self, t, ty):
        return self.wrap(None, t, ty) if t.op == 'num' else t

    def rval(self, e, fr, st):
        k = e['kind']
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise Unsupported('expression %s' % k)
        return m(e, fr, st)
    def x_pass(self, e, fr, st):
        return self.rval(e['inner'][-1], fr, st)
    x_ParenExpr = x_ExprWithCleanups = x_MaterializeTemporaryExpr = x_CXXBindTemporaryExpr = x_pass
    x_SubstNonTypeTemplateParmExpr = x_pass
    def x_ConstantExpr(self, e, fr, st):
        return self.rval(e['inner'][-1], fr, st)
    def x_IntegerLiteral(self, e, fr, st):
        return tm.iv(int(e['value']))
    def x_CXXBoolLiteralExpr(self, e, fr, st):
        return tm.TRUE if e['value'] else tm.FALSE
    def x_FloatingLiteral(self, e, fr, st):
        return float_lit(e['value'], self.typ(e, fr)[0] == 'float')
    def x_CharacterLiteral(self, e, fr, st):
        return tm.iv(int(e['value']))
    def x_StringLiteral(self, e, fr, st):
        return Opaque('string')
    def x_CXXNullPtrLiteralExpr(self, e, fr, st):
        return Ptr(None)
    x_GNUNullExpr = x_CXXNullPtrLiteralExpr
    def x_CXXScalarValueInitExpr(self, e, fr, st):
        return self.default(self.typ(e, fr))
    x_ImplicitValueInitExpr = x_CXXScalarValueInitExpr
    def x_CXXThisExpr(self, e, fr, st):
        return Ptr(fr.this)
    def x_UnaryExprOrTypeTraitExpr(self, e, fr, st):
        t = e.get('argType')
        if t and e.get('name') == 'sizeof':
            ty = self.ty.of(t, fr.scope)
            if ty[0] == 'float': return tm.iv(4)
            if ty[0] == 'double': return tm.iv(8)
            if ty[0] == 'int': return tm.iv(ty[2] // 8)
        if e.get('name') == 'sizeof' and e.get('inner'):
            ty = self.typ(e['inner'][0], fr)
            if ty[0] == 'float': return tm.iv(4)
            if ty[0] == 'int': return tm.iv(ty[2] // 8)
        raise Unsupported('sizeof')
    def x_DeclRefExpr(self, e, fr, st):
        d = e['referencedDecl']
        if d['kind'] == 'EnumConstantDecl':
            return self.enum(d)
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return Opaque('function ' + d.get('name', ''))
        return self.load(st, self.declref(d, fr, st))
    def enum(self, d):
        # enumerators of library types stand for themselves
        n = self.p.enums.get(d['id'])
        return tm.iv(n) if n is not None else tm.var('enum:%s' % d.get('name'), 'I')
    def x_lv(self, e, fr, st):
        return self.load(st, self.lval(e, fr, st))
    x_MemberExpr = x_ArraySubscriptExpr = x_CompoundAssignOperator = x_lv
    def x_ImplicitCastExpr(self, e, fr, st):
        ck = e.get('castKind')
        s = e['inner'][-1]
        if ck == 'LValueToRValue':
            v = self.load(st, self.lval(s, fr, st))
            if isinstance(v, T) and v.sort == 'R' and v.op != 'num' and self.typ(e, fr) in (('int', True, 32), ('int', False, 32)):
                return self.float_bits(v)
            return v
        if ck in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'ConstructorConversion', 'BitCast', 'UserDefinedConversion'):
            return self.rval(s, fr, st)
        if ck == 'FunctionToPointerDecay' or ck == 'BuiltinFnToFnPtr':
            return Opaque('function')
        if ck == 'ArrayToPointerDecay':
            if skip(s)['kind'] in ('StringLiteral', 'PredefinedExpr'):
                return Opaque('string')
            lv = self.lval(s, fr, st)
            return Ptr(lv, tm.iv(0))
        if ck in ('IntegralCast', 'IntegralToBoolean', 'IntegralToFloating', 'FloatingCast', 'FloatingToIntegral', 'FloatingToBoolean', 'BooleanToSignedIntegral'):
            v = self.rval(s, fr, st)
            return self.cast_num(v, self.typ(s, fr), self.typ(e, fr), st)
        if ck == 'NullToPointer':
            return Ptr(None)
        if ck == 'PointerToIntegral':
            self.rval(s, fr, st)
            self.assumed.add('pointers passed to alignment assertions are aligned')
            return tm.iv(0)
        if ck == 'PointerToBoolean':
            return self.truth(self.rval(s, fr, st))
        if ck == 'ToVoid':
            self.rval(s, fr, st)
            return None
        raise Unsupported('cast %s' % ck)
    x_CXXStaticCastExpr = x_CStyleCastExpr = x_CXXFunctionalCastExpr = x_CXXReinterpretCastExpr = x_CXXConstCastExpr = x_ImplicitCastExpr
    def x_UnaryOperator(self, e, fr, st):
        op = e['opcode']
        s = e['inner'][0]
        if op == '*':
            return self.load(st, self.lval(e, fr, st))
        if op == '&':
            lv = self.lval(s, fr, st)
            return self.addr(lv)
        if op in ('++', '--'):
            lv = self.lval(s, fr, st)
            old = self.incdec(lv, op, st, self.typ(e, fr))
            return old if e.get('isPostfix') else self.load(st, lv)
        v = self.rval(s, fr, st)
        if op == '!': return tm.not_(self.truth(v))
        if op == '-':
            if v.sort == 'B': v = self.as_int(v)
            r = tm.scale(v, -1)
            t = self.typ(e, fr)
            if t[0] == 'int' and not t[1]:
                return self.to_unsigned(st, r, t[2])
            return r
        if op == '+': return v
        if op == '~' and v.op == 'num':
            return self.wrap(st, tm.iv(~int(v.args)), self.typ(e, fr))
        raise Unsupported('unary ' + op)
    def addr(self, lv):
        if isinstance(lv, LVCond):
            return CondV(lv.c, self.addr(lv.a), self.addr(lv.b))
        if lv.path and lv.path[-1][0] == 'i':
            return Ptr(LV(lv.root, lv.path[:-1]), lv.path[-1][1])
        return Ptr(lv, None)
    def x_BinaryOperator(self, e, fr, st):
        op = e['opcode']
        a, b = e['inner']
        if op == '=':
            return self.load(st, self.lval(e, fr, st))
        if op == ',':
            self.rval(a, fr, st)
            return self.rval(b, fr, st)
        if op in ('&&', '||'):
            x = self.truth(self.rval(a, fr, st))
            c = x if op == '&&' else tm.not_(x)
            if c is tm.FALSE:
                return tm.FALSE if op == '&&' else tm.TRUE
            s2 = st.copy().assume(c, 'b')
            y = self.truth(self.rval(b, fr, s2))
            if c is not tm.TRUE:
                m = merge(c, st.pc, s2, st)
                st.cells, st.pc = m.cells, m.pc
            else:
                st.cells = s2.cells
            return tm.and_(x, y) if op == '&&' else tm.or_(x, y)
        x = self.rval(a, fr, st)
        y = self.rval(b, fr, st)
        if op in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(op, x, y, st)
        return self.arith(op, x, y, self.typ(e, fr), st)
    def compare(self, op, x, y, st=None):
        if isinstance(x, T) and isinstance(y, T):
            if op == '==': return tm.eq(x, y)
            if op == '!=': return tm.not_(tm.eq(x, y))
            x, y = self.as_int(x), self.as_int(y)
            return {'<': tm.lt(x, y), '<=': tm.le(x, y), '>': tm.lt(y, x), '>=': tm.le(y, x)}[op]
        if isinstance(x, MIter) and isinstance(y, MIter) and op in ('==', '!='):
            if y.begin: x, y = y, x
            if st is not None and x.begin and y.end is tm.TRUE and y.key is None and x.lv.key() == y.lv.key():
                r = tm.eq(self.load(st, x.lv).size(), tm.iv(0))
                return r if op == '==' else tm.not_(r)
            if x.end is None or y.end is None: raise Unsupported('iterator comparison')
            if y.key is None and y.end is tm.TRUE: r = x.end
            elif x.key is None and x.end is tm.TRUE: r = y.end
            else: raise Unsupported('iterator comparison')
            return r if op == '==' else tm.not_(r)
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.lv is None or y.lv is None:
                r = tm.TRUE if (x.lv is None) == (y.lv is None) else tm.FALSE
            elif x.off is not None and y.off is not None and x.lv.key() == y.lv.key():
                if op in ('==', '!='): r = tm.eq(x.off, y.off)
                else: return {'<': tm.lt(x.off, y.off), '<=': tm.le(x.off, y.off), '>': tm.lt(y.off, x.off), '>=': tm.le(y.off, x.off)}[op]
            else: raise Unsupported('pointer comparison')
            return r if op == '==' else tm.not_(r)
        raise Unsupported('comparison of %s and %s' % (type(x).__name__, type(y).__name__))
    def x_ConditionalOperator(self, e, fr, st):
        c = self.truth(self.rval(e['inner'][0], fr, st))
        if c is tm.TRUE: return self.rval(e['inner'][1], fr, st)
        if c is tm.FALSE: return self.rval(e['inner'][2], fr, st)
        s1 = st.copy().assume(c, 'b')
        s2 = st.copy().assume(tm.not_(c), 'b')
        a = self.rval(e['inner'][1], fr, s1)
        b = self.rval(e['inner'][2], fr, s2)
        m = merge(c, st.pc, s1, s2)
        st.cells, st.pc = m.cells, m.pc
        return vite(c, a, b)
    def x_CXXDefaultArgExpr(self, e, fr, st):
        raise Unsupported('default argument')
    def x_InitListExpr(self, e, fr, st):
        ty = self.typ(e, fr)
        vs = [self.rval(x, fr, st) for x in e.get('inner', [])]
        if ty[0] == 'array':
            b = tm.fresh('b', 'I')
            el = self.default(ty[1])
            for i, v in enumerate(vs):
                el = vite(tm.eq(b, tm.iv(i)), v, el)
            return Vec(tm.iv(ty[2]), b, el, ty[1])
        if ty[0] == 'rec':
            fs = self.ty.fields(ty[1])
            return Rec(ty[1], {n: (vs[i] if i < len(vs) else self.default(t)) for i, (n, t) in enumerate(fs)})
        raise Unsupported('init list')
    def x_CXXConstructExpr(self, e, fr, st):
        ty = self.typ(e, fr)
        args = [a for a in e.get('inner', [])]
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr' or ty[0] == 'rec']
        if ty[0] == 'opaque' and ty[1].startswith('Eigen::LLT<') and len(args) == 1:
            import stdlib
            v = self.rval(args[0], fr, st)
            return stdlib.cholesky(self, st, v) if isinstance(v, Mat) else v
        if ty[0] in ('iter',) or (ty[0] == 'opaque' and len(args) == 1 and ('_distribution<' not in ty[1] or strip_ref(self.typ(args[0], fr)) == ty)):
            return self.rval(args[0], fr, st)
        if ty[0] == 'opaque' and '_distribution<' in ty[1]:
            import stdlib
            return stdlib.dist_ctor(self, ty[1], [self.rval(a, fr, st) for a in args if a['kind'] != 'CXXDefaultArgExpr'])
        if ty[0] == 'opaque':
            return Opaque(ty[1])
        if len(args) == 1:
            at = strip_ref(self.typ(args[0], fr))
            if at == ty or (at[0] == ty[0] and ty[0] in ('vec', 'map', 'set', 'mat', 'pair')):
                return self.rval_copy(args[0], fr, st)      # copy or move
        if ty[0] == 'vec':
            if not args:
                return self.default(ty)
            n = self.rval(args[0], fr, st)
            v = self.default(ty[1]) if len(args) == 1 else self.rval_copy(args[1], fr, st)
            if isinstance(n, (Ptr, MIter)):
                raise Unsupported('vector range constructor')
            n = self.unsigned(st, n)
            return Vec(n, tm.fresh('b', 'I'), v, ty[1])
        if ty[0] in ('map', 'set', 'pair', 'array'):
            if not args:
                return self.default(ty)
            if ty[0] == 'pair' and len(args) == 2:
                return Rec('pair', {'first': self.rval_copy(args[0], fr, st), 'second': self.rval_copy(args[1], fr, st)})
        if ty[0] == 'mat':
            if not args:
                return self.uninit(ty)
            a = [self.rval(x, fr, st) for x in args]
            if len(a) == 1 and isinstance(a[0], Mat):
                return a[0]
            return self.uninit(ty)
        if ty[0] == 'rec':
            return self.construct(ty, e, args, fr, st)
        raise Unsupported('construct %s' % (ty,))
    x_CXXTemporaryObjectExpr = x_CXXConstructExpr
    def unsigned(self, st, n):
        return n
    def rval_copy(self, e, fr, st):
        """value of an expression of class type"""
        return self.rval(e, fr, st)
    def construct(self, ty, e, args, fr, st):
        """run a user constructor, or member-wise initialisation when implicit"""
        qn = ty[1]
        sig = e.get('ctorType', {}).get('qualType')
        name = qn.split('::')[-1]
        name = name.split('<')[0]
        cands = [f for n, l in self.p.fns.items() if n.startswith(qn + '::') for f in l
                 if f.kind == 'CXXConstructorDecl' and f.record == qn and f.body is not None and not f.node.get('isImplicit')]
        uniq = {}
        for f in cands: uniq.setdefault(f.sig, f)
        f = uniq.get(sig)
        if f is None and sig is not None:
            for s, g in uniq.items():
                if self.sigtypes(g.node, qn) == self.sigtypes({'type': {'qualType': sig}}, qn) and len(g.params) >= len(args):
                    f = g
        if f is None:
            if not args:
                return self.uninit(ty)
            if len(args) == 1:
                return self.rval(args[0], fr, st)
            raise Unsupported('constructor %s %s' % (qn, sig))
        lv = self.new_cell(st, self.uninit(ty), 'obj')
        self.invoke(f, lv, [('e', a) for a in args], fr, st, e)
        return self.load(st, lv)
    def sigtypes(self, node, scope):
        s = node['type']['qualType']
        m = re.match(r'^[^(]*\((.*)\)', s)
        if not m: return None
        d, cur, out = 0, '', []
        for ch in m.group(1):
            if ch in '<(': d += 1
            if ch in '>)': d -= 1
            if ch == ',' and d == 0:
                out.append(cur); cur = ''
            else: cur += ch
        if cur.strip(): out.append(cur)
        return [self.ty.parse(x, scope) for x in out]
    def x_CXXNewExpr(self, e, fr, st):
        c = [x for x in e.get('inner', []) if x['kind'] in ('CXXConstructExpr',)]
        if not c: raise Unsupported('new')
        v = self.rval(c[0], fr, st)
        return Ptr(self.new_cell(st, v, 'heap'))
    def x_CallExpr(self, e, fr, st):
        r = self.call(e, fr, st)
        return self.load(st, r) if isinstance(r, (LV, LVCond)) else r
    x_CXXMemberCallExpr = x_CXXOperatorCallExpr = x_CallExpr
    def x_CXXThrowExpr(self, e, fr, st):
        raise Unsupported('throw in expression')

    # ------------------------------------------------------------- calls
    def call(self, e, fr, st, want_lv=False):
        k = e['kind']
        inner = e['inner']
        callee = skip(inner[0])
        args = inner[1:]
        if k == 'CXXOperatorCallExpr':
            name = callee.get('referencedDecl', {}).get('name', '')
            fid = callee.get('referencedDecl', {}).get('id')
            f = self.p.definition(fid)
            if name == 'operator=' and f is not None and f.node.get('isImplicit'):
                lv = self.lval(args[0], fr, st)
                self.store(st, lv, self.rval(args[1], fr, st))
                return lv
            if f is not None and f.kind == 'CXXMethodDecl':
                return self.invoke_any(f, self.lval(args[0], fr, st), [('e', a) for a in args[1:]], fr, st, e)
            if f is not None:
                return self.invoke_any(f, None, [('e', a) for a in args], fr, st, e)
            import stdlib
            return stdlib.operator(self, name, args, fr, st, e)
        if callee['kind'] == 'MemberExpr':
            fid = callee.get('referencedMemberDecl')
            f = self.p.definition(fid)
            b = callee['inner'][0]
            import stdlib
            if f is None:
                return stdlib.method(self, callee, args, fr, st, e)
            if callee.get('isArrow'):
                p = self.rval(b, fr, st)
                lv = self.deref(p)
            else:
                lv = self.lval(b, fr, st)
            return self.invoke_any(f, lv, [('e', a) for a in args], fr, st, e)
        if callee['kind'] == 'DeclRefExpr':
            d = callee['referencedDecl']
            f = self.p.definition(d['id'])
            if f is not None and (f.body is not None or f.qn in self.contracts):
                return self.invoke_any(f, None, [('e', a) for a in args], fr, st, e)
            import stdlib
            return stdlib.function(self, d.get('name', ''), args, fr, st, e)
        raise Unsupported('call of %s' % callee['kind'])

    def bind_args(self, f, args, fr, st):
        """list of LV (reference parameters) or values"""
        out = []
        scope = f.record or f.qn.rsplit('::', 1)[0]
        for n, p in enumerate(f.params):
            pt = self.ty.of(p['type'], scope)
            if n < len(args) and not (args[n][0] == 'e' and args[n][1]['kind'] == 'CXXDefaultArgExpr'):
                kind, a = args[n]
                if kind == 'e':
                    if pt[0] == 'ref':
                        if pt[1][0] == 'opaque' and pt[1][1] != 'rng':
                            try:
                                out.append(self.lval(a, fr, st))
                            except Unsupported:
                                out.append(self.new_cell(st, Opaque('?')))
                        else:
                            lv = self.lval(a, fr, st)
                            out.append(lv)
                    else:
                        v = self.rval(a, fr, st)
                        out.append(v)
                else:
                    out.append(a)
            else:
                init = [x for x in p.get('inner', []) if 'Attr' not in x['kind']]
                if not init:
                    # default argument written on another declaration
                    for g in self.p.fns.get(f.qn, []):
                        if len(g.params) > n:
                            init = [x for x in g.params[n].get('inner', []) if 'Attr' not in x['kind']]
                            if init: break
                if not init: raise Unsupported('default argument of %s' % f.qn)
                dfr = Frame(f, None, scope, fr.cid)
                if pt[0] == 'ref':
                    out.append(self.lval(init[-1], dfr, st))
                else:
                    out.append(self.rval(init[-1], dfr, st))
        return out
    def invoke_any(self, f, this, args, fr, st, e):
        a = self.bind_args(f, args, fr, st)
        h = self.contract_for(f, len(f.params))
        if h is not None:
            self.used_contracts.add(f.qn)
            self.line = line_of(e) or self.line
            return h(self, st, f, this, a, fr, e)
        return self.apply(f, this, a, st, fr.cid + (e.get('id'),))
    def contract_for(self, f, n):
        return self.contracts.get((f.qn, n)) or self.contracts.get(f.qn)
    def invoke(self, f, this, args, fr, st, e):
        a = self.bind_args(f, args, fr, st)
        return self.apply(f, this, a, st, fr.cid + (e.get('id'),))

    def apply(self, f, this, args, st, cid=()):
        """inline the body of f; returns LV for reference results, else a value.
        st becomes the state after the call."""
        self.used_fns.add(f.qn)
        if len(cid) > 60:
            raise Unsupported('recursion')
        scope = f.record or f.qn.rsplit('::', 1)[0]
        fr = Frame(f, this, scope, cid)
        rt = self.ty.parse(f.ret.replace('static ', ''), scope)
        fr.ret_ref = rt[0] == 'ref'
        fr.ret_ty = rt
        for p, a in zip(f.params, args):
            if isinstance(a, (LV, LVCond)):
                fr.env[p['id']] = a
            else:
                fr.env[p['id']] = self.new_cell(st, a, p.get('name', 'arg'))
        base = st.pc
        for i in f.inits:
            self.ctor_init(i, f, fr, st)
        if f.body is None:
            raise Unsupported('no body for %s' % f.qn)
        saved = self.line
        out = self.stmt(f.body, fr, st.copy())
        self.line = saved
        return self.finish(out, st, base)
    def finish(self, out, st, base):
        s, v = None, None
        if out.next is not None and out.ret is not None:
            rs, rv = out.ret
            c = tm.and_(*[x for t, x in split_pc(base, rs.pc) if t == 'b'])
            s = merge(c, base, rs, out.next)
            v = rv
        elif out.ret is not None:
            s, v = out.ret
        else:
            s = out.next
        if s is None:
            # every path throws
            st.assume(tm.FALSE)
            return None
        # drop branch tags: they are facts for the caller
        st.cells = s.cells
        st.pc = base + tuple(('a', x) for t, x in split_pc(base, s.pc))
        return v
    def ctor_init(self, i, f, fr, st):
        a = i.get('anyInit')
        inner = i.get('inner', [])
        if a is None:
            # base initialiser
            bt = self.ty.of(i['baseInit'], fr.scope) if 'baseInit' in i else None
            if bt and bt[0] in ('vec', 'map', 'set') and inner:
                v = self.rval(inner[0], fr, st)
                self.store(st, fr.this, v)
            return
        name = a.get('name')
        if not name or not inner: return
        x = inner[0]
        fty = dict(self.ty.fields(f.record)).get(name)
        if x['kind'] == 'CXXDefaultInitExpr':
            raise Unsupported('default member initialiser')
        v = self.rval(x, fr, st)
        self.store(st, fr.this + ('f', name), v)

    # ------------------------------------------------------------- statements
    def stmt(self, s, fr, st):
        k = s.get('kind')
        ln = line_of(s)
        if ln: self.line = ln
        m = getattr(self, 's_' + k, None) if k else None
        if m is not None:
            return m(s, fr, st)
        if k is None or k == 'NullStmt' or k == 'StaticAssertDecl':
            return Out(st)
        self.rval_discard(s, fr, st)
        return Out(st)
    def rval_discard(self, s, fr, st):
        e = skip(s)
        if e['kind'] in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr'):
            self.call(e, fr, st)
        elif e['kind'] in ('CompoundAssignOperator',) or (e['kind'] == 'BinaryOperator' and e['opcode'] == '='):
            self.lval(e, fr, st)
        elif e['kind'] == 'UnaryOperator' and e['opcode'] in ('++', '--'):
            lv = self.lval(e['inner'][0], fr, st)
            self.incdec(lv, e['opcode'], st, self.typ(e, fr))
        else:
            self.rval(e, fr, st)
    def s_CompoundStmt(self, s, fr, st):
        inner = s.get('inner', []) or []
        # assertion failure blocks: build a message and throw
        if inner and skip(inner[-1]).get('kind') == 'CXXThrowExpr':
            return self.do_throw(inner[-1], st)
        return self.seq(inner, fr, st)
    def seq(self, inner, fr, st):
        base = st.pc
        out = Out(st)
        for x in inner:
            if out.next is None:
                break
            o = self.stmt(x, fr, out.next)
            out = self.join(base, out, o)
        return out
    def join(self, base, a, o):
        """outcomes of a (already exited ones) followed by o"""
        r = Out(o.next)
        for f in ('ret', 'brk', 'cont'):
            x, y = getattr(a, f), getattr(o, f)
            setattr(r, f, self.join_exit(base, x, y, f))
        return r
    def join_exit(self, base, x, y, f):
        if x is None: return y
        if y is None: return x
        sx = x[0] if f == 'ret' else x
        sy = y[0] if f == 'ret' else y
        c = tm.and_(*[t for g, t in split_pc(base, sx.pc) if g == 'b'])
        s = merge(c, base, sx, sy)
        # the merged exit is taken when either is
        cy = tm.and_(*[t for g, t in split_pc(base, sy.pc) if g == 'b'])
        s.pc = s.pc + (('b', tm.or_(c, cy)),) if tm.or_(c, cy) is not tm.TRUE else s.pc
        if f != 'ret':
            return s
        vx, vy = x[1], y[1]
        if isinstance(vx, (LV, LVCond)) and isinstance(vy, (LV, LVCond)):
            return (s, vx if (isinstance(vx, LV) and isinstance(vy, LV) and vx.key() == vy.key()) else LVCond(c, vx, vy))
        return (s, vite(c, vx, vy) if vx is not None else vy)
    def do_throw(self, s, st):
        if self.record:
            self.throws.append((tuple(st.conds()), self.line))
        return Out(None)
    def s_CXXThrowExpr(self, s, fr, st):
        return self.do_throw(s, st)
    def s_ExprWithCleanups(self, s, fr, st):
        if skip(s)['kind'] == 'CXXThrowExpr':
            return self.do_throw(s, st)
        self.rval_discard(s, fr, st)
        return Out(st)
    def s_DeclStmt(self, s, fr, st):
        for d in s.get('inner', []):
            if d['kind'] == 'VarDecl':
                self.declare(d, fr, st)
        return Out(st)
    def declare(self, d, fr, st):
        ty = self.ty.of(d['type'], fr.scope)
        init = [x for x in d.get('inner', []) if 'Attr' not in x['kind']]
        if d.get('storageClass') == 'static' and not ('const' in d['type']['qualType'] and ty[0] in ('int', 'float', 'double', 'bool') ):
            # function-local static: arbitrary content surviving from earlier calls
            key = 'static:%s:%s' % (fr.fn.qn, d['name'])
            if key not in st.cells:
                st.cells[key] = self.static_value(ty, key, st)
            fr.env[d['id']] = LV(key)
            return
        if ty[0] == 'ref':
            fr.env[d['id']] = self.lval(init[0], fr, st)
            return
        if init:
            v = self.rval(init[0], fr, st)
            if ty[0] == 'ptr' and isinstance(v, Vec):
                raise Unsupported('array decay')
        else:
            v = self.uninit(ty, d.get('name', 'v'))
        fr.env[d['id']] = self.new_cell(st, v, d.get('name', 'v'))
    def static_value(self, ty, key, st):
        if ty[0] == 'ptr':
            # null or an object with arbitrary content: the caller runs both cases
            self.static_ptrs = True
            if self.static_null:
                return Ptr(None)
            st.cells[key + '.obj'] = self.fresh_value(ty[1], key, (), self.base)
            return Ptr(LV(key + '.obj'))
        return self.fresh_value(ty, key, (), self.base)
    def s_IfStmt(self, s, fr, st):
        inner = list(s['inner'])
        base = st.pc
        if s.get('hasInit'):
            i = inner.pop(0)
            st = self.stmt(i, fr, st).next
        if s.get('hasVar'):
            v = inner.pop(0)
            st = self.stmt(v, fr, st).next
        c = self.truth(self.rval(inner[0], fr, st))
        return self.branch(c, lambda x: self.stmt(inner[1], fr, x),
                           (lambda x: self.stmt(inner[2], fr, x)) if len(inner) > 2 else (lambda x: Out(x)), st)
    def branch(self, c, f, g, st):
        if c is tm.TRUE: return f(st)
        if c is tm.FALSE: return g(st)
        if self.prune and self.known(st, c): return f(st.assume(c))
        if self.prune and self.known(st, tm.not_(c)): return g(st.assume(tm.not_(c)))
        base = st.pc
        o1 = f(st.copy().assume(c, 'b'))
        o2 = g(st.copy().assume(tm.not_(c), 'b'))
        # a branch that only throws leaves its negation as a fact
        def dead(o): return o.next is None and not o.exits
        if dead(o1) and dead(o2):
            return Out(None)
        if dead(o1) or dead(o2):
            o = o2 if dead(o1) else o1
            cc = tm.not_(c) if dead(o1) else c
            n = len(base)
            def fix(s):
                if s is None: return None
                assert s.pc[n] == ('b', cc)
                s = s.copy()
                s.pc = s.pc[:n] + (('a', cc),) + s.pc[n + 1:]
                return s
            return Out(fix(o.next), (fix(o.ret[0]), o.ret[1]) if o.ret else None, fix(o.brk), fix(o.cont))
        r = Out(merge(c, base, o1.next, o2.next) if o1.next is not None and o2.next is not None else (o1.next or o2.next))
        for fld in ('ret', 'brk', 'cont'):
            setattr(r, fld, self.join_exit(base, getattr(o1, fld), getattr(o2, fld), fld))
        return r
    def s_ReturnStmt(self, s, fr, st):
        inner = s.get('inner', [])
        v = None
        if inner:
            if fr.ret_ref:
                v = self.lval(inner[0], fr, st)
            else:
                v = self.rval(inner[0], fr, st)
                if isinstance(v, T) and fr.ret_ty and fr.ret_ty[0] == 'bool':
                    v = self.truth(v)
        return Out(None, (st, v))
    def s_BreakStmt(self, s, fr, st):
        return Out(None, brk=st)
    def s_ContinueStmt(self, s, fr, st):
        return Out(None, cont=st)
    def s_ForStmt(self, s, fr, st):
        import loops
        return loops.for_stmt(self, s, fr, st)
    def s_WhileStmt(self, s, fr, st):
        import loops
        return loops.while_stmt(self, s, fr, st)
    def s_DoStmt(self, s, fr, st):
        raise Unsupported('do loop')
    def s_CXXForRangeStmt(self, s, fr, st):
        import loops
        return loops.range_stmt(self, s, fr, st)

    # ------------------------------------------------------------- random draws
    def rng_draw(self, st, name, args, sort='R'):
        """an uninterpreted draw, distinct for every use of the generator"""
        c = st.cells.get('rng')
        if c is None:
            st.cells['rng'] = c = tm.var('rng0', 'I')
        v = tm.app(name, (c,) + tuple(args), sort)
        st.cells['rng'] = tm.add(c, tm.iv(1))
        return v

    # ------------------------------------------------------------- matrices
    def mat_arith(self, op, a, b):
        import stdlib
        return stdlib.mat_arith(op, a, b)

def line_of(n):
    r = n.get('range', {}).get('begin', {})
    r = r.get('expansionLoc', r)
    return r.get('line')
