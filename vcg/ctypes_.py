"""Parsing of clang type spellings."""
import re
from vals import Unsupported

INTS = {
    'int': (True, 32), 'unsigned int': (False, 32), 'long': (True, 64), 'unsigned long': (False, 64),
    'short': (True, 16), 'unsigned short': (False, 16), 'char': (True, 8), 'unsigned char': (False, 8),
    'signed char': (True, 8), 'long long': (True, 64), 'unsigned long long': (False, 64),
    'size_t': (False, 64), 'std::size_t': (False, 64), 'uint32_t': (False, 32), 'int32_t': (True, 32), 'uint64_t': (False, 64),
    'unsigned': (False, 32), 'uint8_t': (False, 8), 'ptrdiff_t': (True, 64),
    'uint_fast32_t': (False, 64), 'std::ptrdiff_t': (True, 64), 'size_type': (False, 64),
}

def split_targs(s):
    """'a<b,c<d>>' -> ('a', ['b', 'c<d>'], rest)"""
    i = s.find('<')
    if i < 0:
        return s, None, ''
    d, out, cur = 0, [], ''
    for j in range(i, len(s)):
        ch = s[j]
        if ch == '<':
            d += 1
            if d == 1: continue
        elif ch == '>':
            d -= 1
            if d == 0:
                out.append(cur.strip())
                return s[:i], out, s[j + 1:]
        elif ch == ',' and d == 1:
            out.append(cur.strip())
            cur = ''
            continue
        cur += ch
    return s[:i], None, ''

def squash(s):
    return re.sub(r'\s*([<>,*&])\s*', r'\1', s).strip()

class Types:
    def __init__(self, prog):
        self.p = prog
        self.cache = {}
        self.bysuffix = {}
        for qn in prog.records:
            q = squash(qn)
            for k in self._suffixes(q):
                self.bysuffix.setdefault(k, set()).add(qn)
        self.recs = {squash(q): q for q in prog.records}

    @staticmethod
    def _suffixes(q):
        out = [q]
        d = 0
        for i in range(len(q) - 1):
            if q[i] == '<': d += 1
            elif q[i] == '>': d -= 1
            elif q[i:i + 2] == '::' and d == 0:
                out.append(q[i + 2:])
        return out

    def of(self, t, scope=None):
        """t: clang type dict"""
        s = t.get('desugaredQualType') or t['qualType']
        try:
            return self.parse(s, scope)
        except Unsupported:
            return self.parse(t['qualType'], scope)

    def parse(self, s, scope=None):
        k = (s, scope)
        if k not in self.cache:
            self.cache[k] = self._parse(s, scope)
        return self.cache[k]

    def _parse(self, s, scope):
        s = s.strip()
        if s.endswith('&&'):
            return ('ref', self._parse(s[:-2], scope))
        if s.endswith('&'):
            return ('ref', self._parse(s[:-1], scope))
        if s.endswith('__restrict') or s.endswith('restrict'):
            return self._parse(re.sub(r'(__)?restrict$', '', s), scope)
        if s.endswith('const') and s[:-5].rstrip().endswith('*'):
            s = s[:-5].rstrip()
        if s.endswith('*'):
            return ('ptr', self._parse(s[:-1], scope))
        m = re.match(r'^(.*)\[(\d+)\]$', s)
        if m:
            return ('array', self._parse(m.group(1), scope), int(m.group(2)))
        s = re.sub(r'^(const|volatile)\s+', '', s)
        s = re.sub(r'\s+const$', '', s)
        s = re.sub(r'^(typename|struct|class|enum)\s+', '', s)
        if s == 'bool': return ('bool',)
        if s == 'float': return ('float',)
        if s in ('double', 'long double'): return ('double',)
        if s == 'void': return ('void',)
        if s in INTS: return ('int',) + INTS[s]
        q = squash(s)
        name, args, rest = split_targs(s)
        base = name.split('::')[-1].strip()
        if args is not None and (rest == ''):
            if base == 'vector':
                return ('vec', self._parse(args[0], scope))
            if base == 'unordered_map':
                return ('map', self._parse(args[0], scope), self._parse(args[1], scope))
            if base == 'unordered_set':
                return ('set', self._parse(args[0], scope))
            if base == 'pair':
                return ('pair', self._parse(args[0], scope), self._parse(args[1], scope))
            if base in ('LLT', 'LDLT', 'TriangularView'):
                return ('opaque', s)
            if base == 'Matrix':
                return ('mat', int(args[1]), int(args[2]))
            if base in ('_Node_iterator', '_Node_const_iterator', '__normal_iterator'):
                return ('iter', s)
            if base == 'function' or base == 'allocator':
                return ('opaque', s)
            if base == 'Packed_':
                return ('vec', self._parse(args[0], scope))
        if q in self.recs:
            return self.record(self.recs[q])
        r = self.bysuffix.get(q)
        if r and scope:
            # innermost enclosing scope first
            sc = squash(scope)
            parts = self._prefixes(sc)
            for p in parts:
                c = p + '::' + q
                if c in self.recs:
                    return self.record(self.recs[c])
                a = self.p.alias.get(c)
                if a:
                    return self.of(a, scope)
        if r and len(r) == 1:
            return self.record(next(iter(r)))
        # typedefs
        if scope:
            for p in self._prefixes(squash(scope)):
                for k, a in (( p + '::' + q, None),):
                    al = self.alias().get(k)
                    if al and al.get('qualType') != s:
                        return self.of(al, scope)
        al = self.alias().get('distributions::' + q) or self.alias().get(q)
        if al:
            return self.of(al, scope)
        if args is not None:
            # 'A<x>::B' spelled with typedef names or default arguments
            best = [c for c in self.recs if self._same(q, c, scope)]
            if len(best) > 1 and scope:
                sc = squash(scope)
                best = [c for c in best if any(sc.startswith(p) for p in self._prefixes(c)[:2])] or best
            if best:
                return self.record(self.recs[best[0]])
        if base in ('rng_t', 'mersenne_twister_engine', 'default_random_engine', 'linear_congruential_engine'):
            return ('opaque', 'rng')
        return ('opaque', s)

    def _same(self, a, b, scope):
        pa, pb = self._split(a), self._split(b)
        if len(pa) > len(pb): return False
        pb = pb[len(pb) - len(pa):]
        for x, y in zip(pa, pb):
            nx, ax, _ = split_targs(x)
            ny, ay, _ = split_targs(y)
            if nx != ny: return False
            if (ax is None) != (ay is None): return False
            if ax is None: continue
            ax = [u for u in ax if u]
            if len(ax) > len(ay): return False
            for u, v in zip(ax, ay):
                if squash(u) == squash(v): continue
                tu, tv = self.parse(u, scope), self.parse(v, scope)
                if tu != tv:
                    if split_targs(u)[0].split('::')[-1] == split_targs(v)[0].split('::')[-1] == 'aligned_allocator': continue
                    return False
        return True
    @staticmethod
    def _split(q):
        out, d, cur = [], 0, ''
        i = 0
        while i < len(q):
            if q[i] == '<': d += 1
            elif q[i] == '>': d -= 1
            if d == 0 and q[i:i + 2] == '::':
                out.append(cur); cur = ''; i += 2
                continue
            cur += q[i]; i += 1
        return out + [cur]

    def alias(self):
        if not hasattr(self, '_al'):
            self._al = {squash(k): v for k, v in self.p.alias.items()}
        return self._al

    @staticmethod
    def _prefixes(q):
        out, d = [q], 0
        for i in range(len(q) - 1, 0, -1):
            if q[i] == '>': d += 1
            elif q[i] == '<': d -= 1
            elif q[i - 1:i + 1] == '::' and d == 0:
                out.append(q[:i - 1])
        return out

    def record(self, qn):
        r = self.p.records[qn]
        # classes derived from a standard container are that container
        for b in r.bases:
            bs = b.get('desugaredQualType') or b['qualType']
            bt = self.parse(bs, qn)
            if bt[0] in ('vec', 'map', 'set'):
                return bt
        return ('rec', qn)

    def fields(self, qn):
        """(name, type) of a record, bases first"""
        r = self.p.records[qn]
        out = []
        for b in r.bases:
            bt = self.parse(b.get('desugaredQualType') or b['qualType'], qn)
            if bt[0] == 'rec':
                out += self.fields(bt[1])
        for n, t, x in r.fields:
            out.append((n, self.of(t, qn)))
        return out

def strip_ref(t):
    return t[1] if t[0] == 'ref' else t
