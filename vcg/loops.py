"""Loop summarisation: closed-form invariants found by recurrence matching and
then *checked* (initialisation and preservation are proof obligations).

An integer loop is described by its iteration number k; a loop over an
unordered container by k, the set V of visited keys and the key x of the
current iteration.  Every modified leaf gets a function of (k, V)."""
import itertools
import term as tm
from term import T
from vals import *
import canon as cn

class Leaf:
    __slots__ = ('root', 'path', 'h', 'init', 'sort', 'cf', 'nb', 'junk')

_lid = itertools.count()

def replace_term(t, a, b):
    """replace every occurrence of the closed subterm a by b"""
    memo = {}
    names = a.syms | a.fv
    def go(t):
        if t is a: return b
        r = memo.get(t.id)
        if r is not None: return r
        if t.op in ('num', 'var', 'true', 'false') or not (a.syms <= t.syms):
            r = t
        elif t.op in ('sum', 'max'):
            j, parts = tm.open_binder(t)
            ps = [replace_term(p, a, b) for p in parts]
            r = t if all(x is y for x, y in zip(ps, parts)) else (tm.bsum(j, ps[0]) if t.op == 'sum' else tm.bmax(j, *ps))
        else:
            r = tm.rebuild(t, go)
        memo[t.id] = r
        return r
    return go(t)

def conds_of(t):
    """atomic boolean subterms outside binders"""
    out, seen, st = [], set(), [t]
    while st:
        x = st.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x.sort == 'B' and x.op in ('le0', 'lt0', 'eq0', 'app'):
            out.append(x)
        if x.op == '+': st.extend(k for _, k in x.args[0])
        elif x.op == 'app': st.extend(x.args[1:])
        elif x.op in ('num', 'var', 'true', 'false', 'sum', 'max'): pass
        else: st.extend(x.args)
    return out

def simp(ex, st, t):
    """drop conditions decided by the path condition"""
    if t.sort == 'B' and t.op == 'app': return t
    for _ in range(3):
        ch = False
        for c in conds_of(t):
            if any(n.startswith('b#') or n.startswith('k#') or n.startswith('lb#') for n in c.fv) and not any(True for _ in ()):
                pass
            if ex.known(st, c):
                t2 = tm.subst_cond(t, c, True)
            elif ex.known(st, tm.not_(c)):
                t2 = tm.subst_cond(t, c, False)
            else:
                continue
            if t2 is not t:
                t, ch = t2, True
                if t.op in ('num', 'var', 'true', 'false'): return t
        if not ch:
            break
    return t

class Loop:
    def __init__(self, ex, fr, st, lid, guard, step, keyed=None, erasing=False):
        """guard(state)->T or None (keyed);  step(state, x)->Out;
        keyed: LV of the iterated map"""
        self.ex, self.fr, self.st, self.guard, self.step = ex, fr, st, guard, step
        self.uid = next(_lid)
        self.lid = lid
        self.kap = tm.fresh('k', 'I')
        self.keyed, self.erasing = keyed, erasing
        self.hinted = self.late_state = None
        self.leaves = {}
        if keyed is not None:
            m = ex.load(st, keyed)
            self.map = m
            self.enum = 'enum:' + lid
            self.pos = 'pos:' + lid
            self.vname = 'V%d' % self.uid
            self.x = self.enum_at(self.kap)
            self.N = m.size()
            ov = len(ex.loopvars)
            loopvars = ex.loopvars
            def fact(*a):
                outer, j = a[:ov], a[ov]
                sub = dict(zip(loopvars, outer))
                mem = tm.subst(m.has(j_), {**sub, j_: tm.app(self.enum, a, 'I')})
                n = tm.subst(self.N, sub)
                return tm.implies(tm.and_(tm.le(tm.iv(0), j), tm.lt(j, n)),
                                  tm.and_(mem, tm.eq(tm.app(self.pos, outer + (tm.app(self.enum, a, 'I'),), 'I'), j)))
            j_ = tm.fresh('k', 'I')
            ex.ax.by_fun[self.enum] = [fact]
            ex.ax.fun(self.vname, lambda k, b: tm.implies(tm.app(self.vname, (k, b), 'B'), m.has(b)))
        else:
            self.x = None
            self.N = None
    def enum_at(self, k):
        return tm.app(self.enum, self.ex.loopvars + (k,), 'I')
    def V(self, k):
        return lambda b: tm.app(self.vname, (k, b), 'B')

    # -------------------------------------------------- states
    def state(self, k, V):
        ex = self.ex
        s = self.st.copy()
        roots = {}
        for (root, path), lf in self.leaves.items():
            roots.setdefault(root, {})[path] = lf
        for root, d in roots.items():
            def f(path, binders, t):
                lf = d.get(path)
                if lf is None: return t
                if lf.cf is not None:
                    return lf.cf(k, V, binders)
                return tm.app(lf.h, (k,) + binders, t.sort)
            s.cells[root] = remap(s.cells[root], f)
        return s
    def body_state(self):
        ex, k = self.ex, self.kap
        s = self.state(k, self.V(k) if self.keyed is not None else None)
        s.assume(tm.le(tm.iv(0), k))
        if self.N is not None:
            s.assume(tm.lt(k, self.N))
        if self.keyed is not None:
            s.assume(self.map.has(self.x))
            s.assume(tm.not_(self.V(k)(self.x)))
        return s
    def run_body(self):
        """(start state, outcome) of one arbitrary iteration"""
        ex = self.ex
        s0 = self.body_state()
        s = s0.copy()
        rest = None
        if self.guard is not None:
            g = self.guard(s)
            g = simp(ex, s, g)
            self.g = g
            s.assume(g)
        s1 = s.copy()
        lv = ex.loopvars
        ex.loopvars = lv + (self.kap,)
        try:
            out = self.step(s1, self.x)
        finally:
            ex.loopvars = lv
        return s, out

    # -------------------------------------------------- main
    def run(self):
        ex = self.ex
        rec = ex.record
        st = self.st
        ex.record = False
        try:
            out = self.discover()
        finally:
            ex.record = rec
        if rec:
            s, out = self.run_body()
            self.check(s, out)
        else:
            s, out = self.last
        return self.finish(s, out)

    def discover(self):
        ex = self.ex
        for rnd in range(40):
            if self.guard is not None and self.N is None:
                self.trip()
            # while variables of this loop are unsolved a nested loop may stay unsolved too:
            # what it writes is unknown in this round (no closed form is taken from it)
            depth = ex.unsolved
            open_ = rnd == 0 or any(l.cf is None for l in self.leaves.values())
            ex.unsolved, ex.junked = depth + open_, False
            try: s, out = self.run_body()
            finally: ex.unsolved = depth
            junked = ex.junked
            nxt = out.next
            if nxt is None:
                raise Unsupported('loop body never completes')
            # cells created on demand inside the body
            new = [c for c in nxt.cells if c not in self.st.cells and (c.startswith('static:') or c.startswith('global:') or c == 'rng')]
            if new:
                for c in new:
                    if c.startswith('global:') or c == 'rng':
                        self.st.cells[c] = tm.var('rng0', 'I') if c == 'rng' else nxt.cells[c]
                    else:
                        raise Unsupported('static variable first used in a loop')
                continue
            added = False
            terms = {}
            for c, v0 in s.cells.items():
                v1 = nxt.cells.get(c)
                if c not in nxt.cells:
                    raise Unsupported('cell lost in loop')
                if v1 is v0: continue
                if v0 is None or v1 is None: raise Unsupported('None in loop')
                a = {p: (b, t) for p, b, t in leaves(v0)}
                b_ = {p: (b, t) for p, b, t in leaves(v1)}
                if set(a) != set(b_):
                    raise Unsupported('shape of %s changes in loop' % c)
                if not a:
                    if isinstance(v0, (MIter, Ptr)) :
                        raise Unsupported('iterator/pointer changes in loop')
                for p, (bb, t) in b_.items():
                    ab, at = a[p]
                    t = tm.subst(t, dict(zip(bb, ab)))
                    if t is at: continue
                    if (c, p) not in self.leaves:
                        self.add_leaf(c, p, ab, at)
                        added = True
                    terms[(c, p)] = (ab, t)
            if added:
                continue
            if not [l for l in self.leaves.values() if l.cf is None]:
                if junked and not depth: raise Unsupported('nested loop without closed form')
                ex.junked = junked or any(l.junk for l in self.leaves.values())
                self.last = (s, out)
                return
            if not self.solve(s, nxt, terms) and not self.solve(s, nxt, self.firsts(terms)) and not self.late():
                if ex.unsolved:
                    ex.junked = True
                    for l in self.leaves.values():
                        if l.cf is None: l.cf = self.junk(l)
                    continue
                raise Unsupported('no closed form for %s' % ', '.join(
                    '%s%s' % (l.root, l.path) for l in self.leaves.values() if l.cf is None))
        raise Unsupported('loop summary did not converge')

    def junk(self, lf):
        lf.junk = True
        name = 'junk:%d:%s' % (next(_lid), lf.h)
        return lambda k, V, idx: tm.app(name, (k,) + tuple(idx), lf.sort)
    def firsts(self, terms):
        """a guess, checked like every closed form: an element read in the iteration
        that writes it still has its initial value"""
        rep = {}
        for key, (binders, t) in terms.items():
            lf = self.leaves[key]
            if lf.cf is not None or len(binders) != 1: continue
            self_ = tm.app(lf.h, (self.kap, binders[0]), lf.sort)
            for a in conds_of(t):
                if a.op != 'eq0': continue
                dd, c = tm.lin(a.args[0])
                co = dd.get(binders[0])
                if co not in (1, -1): continue
                J = tm.scale(tm.sub(a.args[0], tm.scale(binders[0], co)), -co)
                if lf.h in J.syms or binders[0].args in J.fv or self.kap.args not in J.fv: continue
                if tm.subst_cond(t, a, False) is not self_: continue
                rep[lf.h] = (lambda lf, J: lambda kk, j: self.initf(lf)((j,)) if j is J else tm.app(lf.h, (kk, j), lf.sort))(lf, J)
        return {k: (b, tm.replace_apps(t, rep)) for k, (b, t) in terms.items()}

    def hint(self, lf):
        """a loop invariant given by the specification, as the state after k iterations
        (its base case and preservation are obligations like any other)"""
        ex = self.ex
        h = ex.loop_hint.get(self.fr.fn.name if self.fr.fn else None)
        if h is None: return
        if self.hinted is None:
            self.hinted = h(ex, self)
        self.use(lf, self.hinted)

    def late(self):
        """what the specification proposes for variables no other rule solves"""
        n = 0
        for lf in self.leaves.values():
            if lf.cf is None:
                self.use(lf, self.late_state)
                n += lf.cf is not None
        return n

    def use(self, lf, s2):
        if s2 is None or lf.root not in s2.cells: return
        r = next(((b, t) for p, b, t in leaves(s2.cells[lf.root]) if p == lf.path), None)
        if r is None: return
        bb, t = r
        if tm.subst(t, dict(zip(bb, lf.init[0]))) is lf.init[1]: return
        def cf(k, V, idx):
            x = tm.subst(t, {**dict(zip(bb, idx)), self.kap: k})
            # the set of visited keys is written V(k) at the symbolic k
            return tm.replace_apps(x, {self.vname: lambda kk, b: V(b)}) if self.keyed is not None else x
        lf.cf = cf

    def add_leaf(self, root, path, binders, term):
        lf = Leaf()
        lf.root, lf.path = root, path
        lf.h = 'h%d:%s%s' % (self.uid, root, '.'.join(path))
        lf.sort = term.sort
        # initial value from the entry state
        ib, it = next((b, t) for p, b, t in leaves(self.st.cells[root]) if p == path)
        lf.init = (ib, it)
        lf.nb = len(ib)
        lf.cf, lf.junk = None, False
        self.leaves[(root, path)] = lf
        self.hint(lf)
        if self.keyed is not None and root == self.keyed.root:
            mp = static_path(self.keyed.path)
            if path[:len(mp) + 1] == mp + ('#mem',) and not (self.erasing and path == mp + ('#mem',)):
                raise Unsupported('container modified while iterating')

    def initf(self, lf):
        ib, it = lf.init
        return lambda idx: tm.subst(it, dict(zip(ib, idx)))

    def trip(self):
        """number of iterations from the loop condition, if it only depends on solved leaves"""
        ex = self.ex
        s = self.body_state()
        g = simp(ex, s, self.guard(s))
        if any(lf.h in g.syms for lf in self.leaves.values() if lf.cf is None):
            return
        if not self.leaves and self.kap not in g.fv:
            if self.kap.args not in g.fv:
                return        # nothing known yet
        parts = g.args if g.op == 'and' else (g,)
        Ns = []
        for p in parts:
            n = self.trip1(p, s)
            if n is None:
                continue
            Ns.append(n)
        if not Ns:
            return
        N = Ns[0]
        for n in Ns[1:]:
            N = tm.mn(N, n)
        if len(Ns) != len(parts):
            raise Unsupported('loop condition')
        self.N = N
    def trip1(self, p, s):
        k = self.kap
        neg = False
        if p.op == 'not' and p.args[0].op == 'eq0':
            d = p.args[0].args[0]
            dd, c = tm.lin(d)
            co = dd.get(k)
            if co not in (1, -1): return None
            r = tm.sub(d, tm.scale(k, co))
            if k.args in r.fv: return None
            n = tm.scale(r, -co)
            if not self.ex.known(self.st, tm.le(tm.iv(0), n)):
                raise Unsupported('loop condition !=')
            return n
        if p.op != 'le0': return None
        dd, c = tm.lin(p.args[0])
        co = dd.get(k)
        if not co or co < 0 or co.denominator != 1: return None
        r = tm.sub(p.args[0], tm.scale(k, co))
        if k.args in r.fv or r.sort != 'I': return None
        if co == 1:
            n = tm.sub(tm.iv(1), r)
        else:
            n = tm.ite(tm.le(r, tm.iv(0)), tm.add(tm.idiv(tm.scale(r, -1), tm.iv(co)), tm.iv(1)), tm.iv(0))
            return n
        if self.ex.known(self.st, tm.le(tm.iv(0), n)):
            return n
        return tm.mx(n, tm.iv(0))

    # -------------------------------------------------- recurrences
    def solve(self, s, nxt, terms):
        progress = False
        ctx = self.st.copy()
        ctx.pc = nxt.pc
        unsolved = {lf.h for lf in self.leaves.values() if lf.cf is None}
        for key, lf in list(self.leaves.items()):
            if lf.cf is not None: continue
            if key not in terms:
                # became unchanged
                lf.cf = (lambda lf: lambda k, V, b: self.initf(lf)(b))(lf)
                progress = True
                continue
            binders, t = terms[key]
            if any(isinstance(x, str) and x.startswith('junk:') for x in t.syms): continue
            if (t.syms & unsolved) - {lf.h}:
                t = simp(self.ex, ctx, t)
            if (t.syms & unsolved) - {lf.h}:
                continue
            cf = self.recur(lf, binders, t, ctx)
            if cf is not None:
                lf.cf = cf
                progress = True
        return progress

    def guardf(self, j, k):
        return tm.and_(tm.le(tm.iv(0), j), tm.lt(j, k))

    def over(self, d, binders):
        """(kind, f): sum of d over the first k iterations, as a function of k, V, idx"""
        k0 = self.kap
        if k0.args not in d.fv:
            return lambda k, V, idx: tm.mul(k, tm.subst(d, dict(zip(binders, idx))))
        if self.keyed is not None:
            y = tm.fresh('y', 'I')
            dy = replace_term(d, self.x, y)
            for bi, b in enumerate(binders):
                # only the element of the current key changes
                hit = tm.eq(b, self.x)
                if tm.subst_cond(d, hit, False) is not tm.iv(0): continue
                one = replace_term(tm.subst_cond(d, hit, True), self.x, b)
                if k0.args in one.fv: continue
                def f(k, V, idx):
                    return tm.ite(V(idx[bi]), tm.subst(one, dict(zip(binders, idx))), tm.iv(0))
                return f
            if k0.args not in dy.fv:
                def f(k, V, idx):
                    j = tm.fresh('j', 'I')
                    return tm.bsum(j, tm.ite(V(j), tm.subst(dy, {y: j, **dict(zip(binders, idx))}), 0))
                return f
        def f(k, V, idx):
            j = tm.fresh('j', 'I')
            return tm.bsum(j, tm.ite(self.guardf(j, k), tm.subst(d, {k0: j, **dict(zip(binders, idx))}), 0))
        return f

    def recur(self, lf, binders, t, ctx):
        k0 = self.kap
        init = self.initf(lf)
        self_ = tm.app(lf.h, (k0,) + binders, lf.sort)
        # (1) plain assignment
        if lf.h not in t.syms:
            t2 = simp(self.ex, ctx, t)
            def cf(k, V, idx):
                v = tm.subst(t2, {**dict(zip(binders, idx)), k0: tm.sub(k, tm.iv(1))})
                return tm.ite(tm.le(k, tm.iv(0)), init(idx), v)
            # an assignment that does not depend on k and equals the old value is constant
            if k0.args not in t2.fv and t2 is init(binders):
                return lambda k, V, idx: init(idx)
            return cf
        t = eta(t, lf.h, binders, self_)
        # (2) additive
        if lf.sort != 'B':
            d = delta(t, self_, lf.h)
            if d is not None:
                sm = self.over(d, binders)
                return lambda k, V, idx: tm.add(init(idx), sm(k, V, idx))
        # (3) indexed write
        r = self.indexed(lf, binders, t, self_, init)
        if r is not None: return r
        t2 = simp(self.ex, ctx, t)
        if t2 is not t:
            return self.recur2(lf, binders, t2, self_, init)
        return self.recur2(lf, binders, t, self_, init)

    def recur2(self, lf, binders, t, self_, init):
        k0 = self.kap
        if lf.h not in t.syms:
            def cf(k, V, idx):
                v = tm.subst(t, {**dict(zip(binders, idx)), k0: tm.sub(k, tm.iv(1))})
                return tm.ite(tm.le(k, tm.iv(0)), init(idx), v)
            return cf
        if lf.sort != 'B':
            d = delta(t, self_, lf.h)
            if d is not None:
                sm = self.over(d, binders)
                return lambda k, V, idx: tm.add(init(idx), sm(k, V, idx))
        r = self.indexed(lf, binders, t, self_, init)
        if r is not None: return r
        # (4) running maximum / minimum
        if t.op == 'ite' and lf.sort != 'B':
            c, a, b = t.args
            for e, s, pos in ((a, b, True), (b, a, False)):
                if s is self_ and lf.h not in e.syms and c.op in ('le0', 'lt0'):
                    diff = tm.sub(self_, e)
                    cc = c if pos else tm.not_(c)
                    ismax = cc is tm.le0(diff) or cc is tm.lt0(diff)
                    ismin = cc is tm.le0(tm.scale(diff, -1)) or cc is tm.lt0(tm.scale(diff, -1))
                    if ismax or ismin:
                        sg = 1 if ismax else -1
                        y = tm.fresh('y', 'I')
                        ey = replace_term(e, self.x, y) if self.keyed is not None else None
                        keyed = ey is not None and k0.args not in ey.fv
                        def cf(k, V, idx):
                            j = tm.fresh('j', 'I')
                            m = dict(zip(binders, idx))
                            if keyed:
                                mm = tm.bmax(j, V(j), tm.scale(tm.subst(ey, {y: j, **m}), sg))
                            else:
                                mm = tm.bmax(j, self.guardf(j, k), tm.scale(tm.subst(e, {k0: j, **m}), sg))
                            mm = tm.scale(mm, sg)
                            i = init(idx)
                            return tm.ite(tm.le(k, tm.iv(0)), i, tm.mx(i, mm) if sg == 1 else tm.mn(i, mm))
                        return cf
        # (5) monotone flags
        if lf.sort == 'B' and t.op in ('or', 'and') and any(a is self_ for a in t.args):
            rest = [a for a in t.args if a is not self_]
            f = tm.or_ if t.op == 'or' else tm.and_
            c = f(*rest)
            if lf.h not in c.syms:
                hit = c if t.op == 'or' else tm.not_(c)
                sm = self.over(tm.ite(hit, tm.iv(1), tm.iv(0)), binders)
                def cf(k, V, idx):
                    some = tm.lt(tm.iv(0), sm(k, V, idx))
                    return tm.or_(init(idx), some) if t.op == 'or' else tm.and_(init(idx), tm.not_(some))
                return cf
        return None

    def indexed(self, lf, binders, t, self_, init):
        k0 = self.kap
        best = None
        for a in conds_of(t):
            if a.op != 'eq0': continue
            for b in binders:
                dd, c = tm.lin(a.args[0])
                co = dd.get(b)
                if co not in (1, -1): continue
                J = tm.scale(tm.sub(a.args[0], tm.scale(b, co)), -co)
                if b.args in J.fv or any(x.args in J.fv for x in binders): continue
                if lf.h in J.syms: continue
                if tm.subst_cond(t, a, False) is not self_: continue
                dj, cj = tm.lin(J)
                s = dj.get(k0)
                if s in (1, -1) and all(k0.args not in x.fv for x in dj if x is not k0):
                    kind = 'affine'
                elif self.keyed is not None and J is self.x:
                    kind = 'key'
                elif k0.args not in J.fv:
                    kind = 'const'
                else:
                    kind = 'scatter'
                rank = {'key': 0, 'affine': 1, 'const': 2, 'scatter': 3}[kind]
                if best is None or rank < best[0]:
                    best = (rank, kind, a, b, J, s)
        if best is None: return None
        _, kind, a, b, J, s = best
        tt = tm.subst_cond(t, a, True)
        bi = binders.index(b)
        if kind == 'affine':
            def cf(k, V, idx):
                j0 = tm.sub(J, tm.scale(k0, s))
                kb = tm.scale(tm.sub(idx[bi], j0), s)      # iteration that writes this index
                m = {**dict(zip(binders, idx)), k0: kb}
                v = tm.subst(tt, m)
                v = tm.replace_apps(v, {lf.h: lambda kk, *ii: init(ii)})
                return tm.ite(self.guardf(kb, k), v, init(idx))
            return cf
        if kind == 'key':
            y = tm.fresh('y', 'I')
            ty = replace_term(tt, self.x, y)
            vx = self.V(k0)(y)
            ty = tm.subst_cond(ty, vx, False)
            if k0.args in tm.replace_apps(ty, {lf.h: lambda kk, *ii: init(ii)}).fv:
                return None
            def cf(k, V, idx):
                v = tm.subst(ty, {**dict(zip(binders, idx)), y: idx[bi]})
                v = tm.replace_apps(v, {lf.h: lambda kk, *ii: init(ii)})
                return tm.ite(V(idx[bi]), v, init(idx))
            return cf
        if kind == 'const':
            if lf.h in tt.syms: return None
            def cf(k, V, idx):
                v = tm.subst(tt, {**dict(zip(binders, idx)), k0: tm.sub(k, tm.iv(1))})
                return tm.ite(tm.and_(tm.lt(tm.iv(0), k), tm.eq(idx[bi], J)), v, init(idx))
            return cf
        # scatter: same value whatever the iteration
        if lf.h in tt.syms or k0.args in tt.fv: return None
        sm = self.over(tm.ite(tm.eq(b, J), tm.iv(1), tm.iv(0)), binders)
        def cf(k, V, idx):
            return tm.ite(tm.lt(tm.iv(0), sm(k, V, idx)), tm.subst(tt, dict(zip(binders, idx))), init(idx))
        return cf

    # -------------------------------------------------- checking and exit
    def check(self, s, out):
        """obligations: the closed forms hold initially and are preserved"""
        ex, k = self.ex, self.kap
        V0 = (lambda b: tm.FALSE) if self.keyed is not None else None
        z = self.state(tm.iv(0), V0)
        if self.keyed is not None:
            V1 = lambda b: tm.or_(self.V(k)(b), tm.eq(b, self.x))
        else:
            V1 = None
        n = self.state(tm.add(k, tm.iv(1)), V1)
        for root in {r for r, _ in self.leaves}:
            for path, hyps, goal in veq(z.cells[root], self.st.cells[root]):
                ex.obl('loop summary initially', self.st, goal, hyps)
            for path, hyps, goal in veq(out.next.cells[root], n.cells[root]):
                ex.obl('loop summary preserved %s%s' % (root, path), out.next, goal, hyps)
        if self.erasing and (self.keyed.root, static_path(self.keyed.path) + ('#mem',)) in self.leaves:
            b = tm.fresh('b', 'I')
            was, now = ex.load(s, self.keyed).has(b), ex.load(out.next, self.keyed).has(b)
            ex.obl('only the current key is erased while iterating', out.next,
                   tm.and_(tm.implies(now, was), tm.implies(was, tm.or_(now, tm.eq(b, self.x)))), ())

    def finish(self, s, out):
        ex = self.ex
        base = self.st.pc
        if self.N is None:
            # the guard is false after some number of iterations (termination is not claimed)
            if self.guard is None or self.keyed is not None or out.ret or out.brk:
                raise Unsupported('no trip count')
            n = tm.app('trips:' + self.lid, ex.loopvars, 'I') if ex.loopvars else tm.var('trips:' + self.lid, 'I')
            done = self.state(n, None)
            done.pc = base
            done.assume(tm.le(tm.iv(0), n))
            rec, ex.record = ex.record, False
            try:
                g = self.guard(done)
                last = self.state(tm.sub(n, tm.iv(1)), None)
                last.pc = base
                done.assume(tm.or_(tm.eq(n, tm.iv(0)), self.guard(last)))
            finally: ex.record = rec
            done.assume(tm.not_(g))
            return Out_(done)
        done = self.state(self.N, (lambda b: self.map.has(b)) if self.keyed is not None else None)
        done.pc = base
        if not (out.ret or out.brk):
            return Out_(done)
        if ex.loopvars:
            raise Unsupported('early exit of a nested loop')
        # first exiting iteration
        if self.keyed is not None:
            raise Unsupported('early exit of a container loop')
        E = tm.var('exit:' + self.lid, 'B')
        K = tm.var('exitk:' + self.lid, 'I')
        def bc(o):
            st = o[0] if isinstance(o, tuple) else o
            return tm.and_(*[c for g, c in split_pc(s.pc, st.pc) if g == 'b'])
        cs = [bc(o) for o in (out.ret, out.brk) if o]
        b = tm.or_(*cs)
        k = self.kap
        inr = tm.and_(tm.le(tm.iv(0), K), tm.lt(K, self.N))
        fact = tm.implies(E, tm.and_(inr, tm.subst(b, {k: K})))
        lim = tm.ite(E, K, self.N)
        self.ex.ax.all_int(lambda j: tm.implies(tm.and_(tm.le(tm.iv(0), j), tm.lt(j, lim)), tm.subst(tm.not_(b), {k: j})))
        def at_exit(o):
            st = o[0] if isinstance(o, tuple) else o
            x = State()
            m = {k: K}
            x.cells = {c: vsubst(v, m) for c, v in st.cells.items() if c in self.st.cells or c.startswith('obj') or c.startswith('tmp') or True}
            x.pc = base + (('b', E), ('a', fact)) + tuple((g, tm.subst(c, m)) for g, c in split_pc(base, st.pc))
            if isinstance(o, tuple):
                v = o[1]
                if v is not None and isinstance(v, (LV, LVCond)): v = lvmap(v, lambda t: tm.subst(t, m))
                elif v is not None: v = vsubst(v, m)
                return (x, v)
            return x
        done.pc = base + (('b', tm.not_(E)),)
        res = Out_(done)
        if out.ret: res.ret = at_exit(out.ret)
        if out.brk:
            bs = at_exit(out.brk)
            if out.ret:
                raise Unsupported('loop with both break and return')
            res.next = merge(E, base, bs, done)
        return res

def Out_(n):
    from exec import Out
    return Out(n)

def static_path(path):
    out = []
    for k, x in path:
        if k == 'f': out.append(x)
        elif k == 'i': out.append('[]')
        elif k == 'k': out.append('{}')
        else: out.append(str(x))
    return tuple(out)

def eta(t, h, binders, self_):
    """under a condition b == J the old element at J is the old element at b"""
    if not binders or h not in t.syms: return t
    if t.op != 'ite':
        return t
    c, a, b = t.args
    if h in c.syms: return t
    b = eta(b, h, binders, self_)
    for bi, bv in enumerate(binders):
        for e in (c.args if c.op == 'and' else (c,)):
            if e.op != 'eq0': continue
            dd, _ = tm.lin(e.args[0])
            co = dd.get(bv)
            if co not in (1, -1): continue
            J = tm.scale(tm.sub(e.args[0], tm.scale(bv, co)), -co)
            if bv.args in J.fv: continue
            other = tm.app(h, self_.args[1:2 + bi] + (J,) + self_.args[3 + bi:], self_.sort)
            if other is not self_:
                a = replace_term(a, other, self_)
    a = eta(a, h, binders, self_)
    return tm.ite(c, a, b)

def delta(t, self_, h):
    if t is self_: return tm.iv(0)
    if t.op == 'ite':
        c, a, b = t.args
        if h in c.syms: return None
        x, y = delta(a, self_, h), delta(b, self_, h)
        if x is None or y is None: return None
        return tm.ite(c, x, y)
    d = tm.sub(t, self_)
    return None if h in d.syms else d

# ------------------------------------------------------------------ statements
def lid_of(s, fr):
    return '%s@%s' % (s.get('id'), '/'.join(str(c)[-6:] for c in fr.cid))

def for_stmt(ex, s, fr, st):
    init, cv, cond, inc, body = s['inner']
    if init.get('kind'):
        st = ex.stmt(init, fr, st).next
    guard = lambda x: ex.truth(ex.rval(cond, fr, x))
    def step(x, _):
        base = x.pc
        o = ex.stmt(body, fr, x)
        o = norm_cont(o, base)
        if o.next is not None and inc.get('kind'):
            ex.rval_discard(inc, fr, o.next)
        return o
    o = iterator_loop(ex, s, fr, st, guard, step)
    if o is not None: return o
    n = literal_trips(ex, fr, st, guard, inc)
    if n is not None:
        return unroll(ex, fr, st, guard, step, n)
    return run(ex, fr, st, lid_of(s, fr), guard, step)

def iterator_loop(ex, s, fr, st, guard, step):
    """a loop that moves an iterator from begin() to end() of a container, one key
    at a time: one iteration per key, in an arbitrary order"""
    found = None
    for lv in fr.env.values():
        if not isinstance(lv, LV) or lv.root not in st.cells: continue
        try: v = ex.load(st, lv)
        except Unsupported: continue
        if not (isinstance(v, MIter) and v.begin): continue
        E = tm.fresh('end', 'B')
        no, nt, rec, ex.record = len(ex.obls), len(ex.throws), ex.record, False
        try:
            x = st.copy()
            ex.store(x, lv, MIter(v.lv, tm.fresh('k', 'I'), E))
            g = guard(x)
        except Unsupported:
            g = None
        finally:
            ex.record = rec
            del ex.obls[no:], ex.throws[nt:]
        if g is tm.not_(E): found = lv, v
    if found is None: return None
    lv, v = found
    def visit(x, key):
        ex.store(x, lv, MIter(v.lv, key, tm.FALSE))
        o = step(x, None)
        if o.next is not None:
            w = ex.load(o.next, lv)
            if not (isinstance(w, MIter) and w.key is key and w.end is None):
                raise Unsupported('iterator not moved by one')
        for y in (o.next, o.brk): 
            if y is not None: ex.store(y, lv, v)
        return o
    st = st.copy()
    o = run(ex, fr, st, lid_of(s, fr), None, visit, v.lv, True)
    if o.next is not None: ex.store(o.next, lv, MIter(v.lv, None, tm.TRUE))
    return o

UNROLL = 4
def literal_trips(ex, fr, st, guard, inc):
    """trip count of a loop whose guard is decided by constants alone (at most UNROLL)"""
    no, nt, rec = len(ex.obls), len(ex.throws), ex.record
    ex.record = False
    try:
        x = st.copy()
        for k in range(UNROLL + 1):
            g = guard(x)
            if g is tm.FALSE: return k
            if g is not tm.TRUE or not inc.get('kind'): return None
            x = x.copy()
            ex.rval_discard(inc, fr, x)
        return None
    except Unsupported:
        return None
    finally:
        ex.record = rec
        del ex.obls[no:], ex.throws[nt:]
def unroll(ex, fr, st, guard, step, n):
    """a loop with a constant number of iterations, one by one"""
    from exec import Out
    cid = fr.cid
    try:
        for k in range(n):
            if guard(st) is not tm.TRUE: raise Unsupported('constant loop')
            fr.cid = cid + ('it%d' % k,)
            o = step(st, None)
            if o.exits or o.next is None: raise Unsupported('exit from a constant loop')
            st = o.next
        if guard(st) is not tm.FALSE: raise Unsupported('constant loop')
        return Out(st)
    finally:
        fr.cid = cid

def norm_cont(o, base):
    from exec import Out
    if o.cont is None: return o
    if o.next is None: return Out(o.cont, o.ret, o.brk)
    c = tm.and_(*[x for t, x in split_pc(base, o.cont.pc) if t == 'b'])
    return Out(merge(c, base, o.cont, o.next), o.ret, o.brk)

def run(ex, fr, st, lid, guard, step, keyed=None, erasing=False):
    h = ex.loop_inv.get(lid.split('@')[0])
    if h is None:
        h = ex.loop_inv.get((fr.fn.qn if fr.fn else None))
    if h is not None:
        return h(ex, fr, st, lid, guard, step, keyed)
    st = st.copy()
    if 'rng' not in st.cells:
        st.cells['rng'] = tm.var('rng0', 'I')
    L = Loop(ex, fr, st, lid, guard, step, keyed, erasing)
    # iteration bound first when the condition is linear in an induction variable
    o = L.run()
    ex.loops[lid] = L
    return o

def while_stmt(ex, s, fr, st):
    inner = s['inner']
    cond, body = inner[-2], inner[-1]
    guard = lambda x: ex.truth(ex.rval(cond, fr, x))
    def step(x, _):
        base = x.pc
        o = ex.stmt(body, fr, x)
        return norm_cont(o, base)
    o = iterator_loop(ex, s, fr, st, guard, step)
    if o is not None: return o
    return run(ex, fr, st, lid_of(s, fr), guard, step)

def range_stmt(ex, s, fr, st):
    inner = s['inner']
    # [init], range decl, begin, end, cond, inc, loopvar, body
    rng_decl = next(x for x in inner if x.get('kind') == 'DeclStmt')['inner'][0]
    loopvar = inner[-2]['inner'][0]
    body = inner[-1]
    rinit = [x for x in rng_decl.get('inner', []) if 'Attr' not in x['kind']][0]
    st = st.copy()
    lv = ex.lval(rinit, fr, st)
    v = ex.load(st, lv)
    if isinstance(v, Rec):
        # user-defined begin()/end()
        b = call_method(ex, v.ty, 'begin', lv, st, fr, s)
        e = call_method(ex, v.ty, 'end', lv, st, fr, s)
        if not (isinstance(b, MIter) and b.begin and isinstance(e, MIter) and e.end is tm.TRUE and b.lv.key() == e.lv.key()):
            raise Unsupported('range of %s' % v.ty)
        lv = b.lv
        v = ex.load(st, lv)
    if isinstance(lv, LVCond):
        raise Unsupported('conditional range')
    vt = ex.ty.of(loopvar['type'], fr.scope)
    byref = vt[0] == 'ref'
    if isinstance(v, Vec):
        ic = ex.new_cell(st, tm.iv(0), 'idx')
        n = v.n
        guard = lambda x: tm.lt(ex.load(x, ic), n)
        def step(x, _):
            base = x.pc
            i = ex.load(x, ic)
            el = lv + ('i', i)
            fr.env[loopvar['id']] = el if byref else ex.new_cell(x, ex.load(x, el), loopvar['name'])
            o = norm_cont(ex.stmt(body, fr, x), base)
            if o.next is not None:
                ex.store(o.next, ic, tm.add(i, tm.iv(1)))
            return o
        return run(ex, fr, st, lid_of(s, fr), guard, step)
    if isinstance(v, Map):
        def step(x, key):
            base = x.pc
            if v.val is None:
                fr.env[loopvar['id']] = ex.new_cell(x, key, loopvar['name'])
            else:
                el = lv + ('e', key)
                fr.env[loopvar['id']] = el if byref else ex.new_cell(x, ex.load(x, el), loopvar['name'])
            return norm_cont(ex.stmt(body, fr, x), base)
        return run(ex, fr, st, lid_of(s, fr), None, step, lv)
    raise Unsupported('range over %s' % type(v).__name__)

def call_method(ex, rec, name, lv, st, fr, s):
    fs = ex.p.lookup(rec + '::' + name)
    if not fs: raise Unsupported('no %s' % name)
    f = fs[0]
    r = ex.apply(f, lv, [], st, fr.cid + (name,))
    return ex.load(st, r) if isinstance(r, (LV, LVCond)) else r
