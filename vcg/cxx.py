"""C++ front end: runs clang on the real sources and indexes the JSON AST.

Nothing here is specific to a property.  The driver TU only includes the real
headers/sources of /repo and instantiates templates; every function body used
by the verifier is taken from the AST clang builds for the current tree.
"""
import json, os, subprocess, re, sys, time

REPO = os.environ.get('DIST_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
FLAGS = ['-std=c++11', '-w', '-fsyntax-only', '-I%s/include' % REPO, '-I%s/src' % REPO,
         '-I/usr/include/eigen3', '-DDIST_DEBUG_LEVEL=3', '-DDIST_THROW_ON_ERROR']

class ExtractError(Exception):
    pass

def run_clang(tu, extra=()):
    cmd = ['clang++'] + FLAGS + list(extra) + ['-Xclang', '-ast-dump=json', '-Xclang',
           '-ast-dump-filter=distributions', tu]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise ExtractError('clang failed:\n' + p.stderr.decode()[-3000:])
    return p.stdout.decode()

def parse_docs(s):
    d = json.JSONDecoder()
    i, n = 0, len(s)
    ws = re.compile(r'\s*')
    while True:
        i = ws.match(s, i).end()
        if i >= n:
            return
        o, i = d.raw_decode(s, i)
        yield o

class Func:
    __slots__ = ('qn', 'name', 'node', 'params', 'body', 'record', 'inits', 'ret', 'const', 'static', 'kind', 'loc', 'sig')

class Record:
    __slots__ = ('qn', 'fields', 'bases', 'node', 'methods')

class Program:
    def __init__(self):
        self.fn_by_id = {}       # clang id -> Func (definition if any)
        self.canon = {}          # clang id -> canonical id
        self.fns = {}            # qualified name -> [Func]
        self.records = {}        # qualified name -> Record
        self.globals = {}        # id -> (qn, node)
        self.gby_name = {}
        self.enums = {}          # id -> value
        self.rec_by_id = {}
        self.alias = {}

    # ---- indexing
    def add_tu(self, text):
        for doc in parse_docs(text):
            if doc['kind'] == 'NamespaceDecl':
                self._walk(doc, ['distributions'])
        self._link()
        return self

    def _targs(self, node):
        out = []
        for c in node.get('inner', []):
            if c.get('kind') == 'TemplateArgument':
                if 'type' in c:
                    out.append(c['type']['qualType'])
                elif 'value' in c:
                    out.append(str(c['value']))
                else:
                    out.append('?')
        return out

    def _walk(self, node, path):
        for c in node.get('inner', []) or []:
            k = c.get('kind')
            if k == 'NamespaceDecl':
                self._walk(c, path + ([c['name']] if c.get('name') else []))
            elif k == 'LinkageSpecDecl':
                self._walk(c, path)
            elif k == 'CXXRecordDecl':
                self._record(c, path, c.get('name', ''))
            elif k == 'ClassTemplateSpecializationDecl':
                self._record(c, path, '%s<%s>' % (c['name'], ','.join(self._targs(c))))
            elif k == 'ClassTemplateDecl':
                for s in c.get('inner', []):
                    if s.get('kind') == 'ClassTemplateSpecializationDecl':
                        self._record(s, path, '%s<%s>' % (s['name'], ','.join(self._targs(s))))
            elif k == 'FunctionTemplateDecl':
                for s in c.get('inner', []):
                    if s.get('kind') in ('FunctionDecl', 'CXXMethodDecl') and any(
                            x.get('kind') == 'TemplateArgument' for x in s.get('inner', [])):
                        self._func(s, path, None, self._targs(s))
            elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXConversionDecl', 'CXXDestructorDecl'):
                self._func(c, path, None)
            elif k == 'VarDecl':
                self.globals[c['id']] = ('::'.join(path + [c.get('name', '')]), c)
                if 'init' in c or '::'.join(path + [c.get('name', '')]) not in self.gby_name:
                    self.gby_name['::'.join(path + [c.get('name', '')])] = c
            elif k == 'EnumDecl':
                self._enum(c)
            elif k in ('TypedefDecl', 'TypeAliasDecl'):
                self.alias['::'.join(path + [c['name']])] = c['type']

    def _enum(self, c):
        nxt = 0
        for e in c.get('inner', []) or []:
            if e.get('kind') == 'EnumConstantDecl':
                v = find_const(e)
                if v is None:
                    v = nxt
                self.enums[e['id']] = v
                nxt = v + 1

    def _record(self, c, path, name):
        self.rec_by_id[c['id']] = '::'.join(path + [name])
        if not c.get('completeDefinition') and not c.get('inner'):
            return
        qn = '::'.join(path + [name])
        r = self.records.get(qn)
        if r is None or not r.fields:
            r0 = r
            r = Record()
            r.qn, r.fields, r.node = qn, [], c
            r.bases = [b['type'] for b in c.get('bases', [])]
            r.methods = r0.methods if r0 else {}
            fresh = True
        else:
            fresh = False
        for x in c.get('inner', []) or []:
            k = x.get('kind')
            if k == 'FieldDecl' and fresh:
                r.fields.append((x.get('name'), x['type'], x))
            elif k in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                self._func(x, path + [name], r)
            elif k == 'FunctionTemplateDecl':
                for s in x.get('inner', []):
                    if s.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl') and any(
                            y.get('kind') == 'TemplateArgument' for y in s.get('inner', [])):
                        self._func(s, path + [name], r, self._targs(s))
        if c.get('completeDefinition'):
            if fresh or qn not in self.records:
                self.records[qn] = r
        self._walk(c, path + [name])

    def _func(self, c, path, rec, targs=None):
        if c['id'] in self.fn_by_id and (self.fn_by_id[c['id']].body is not None or rec is None):
            return
        f = Func()
        f.name = c.get('name', '')
        f.node = c
        f.record = rec.qn if rec else None
        f.kind = c['kind']
        f.static = c.get('storageClass') == 'static'
        f.params = [p for p in c.get('inner', []) if p.get('kind') == 'ParmVarDecl']
        f.body = next((b for b in c.get('inner', []) if b.get('kind') in ('CompoundStmt', 'CXXTryStmt')), None)
        f.inits = [b for b in c.get('inner', []) if b.get('kind') == 'CXXCtorInitializer']
        f.sig = c['type']['qualType']
        f.const = f.sig.rstrip().endswith('const')
        f.ret = f.sig.split('(')[0].strip()
        f.qn = '::'.join(path + [f.name])
        f.loc = c.get('loc', {})
        prev = c.get('previousDecl')
        if prev and prev in self.fn_by_id:
            pf = self.fn_by_id[prev]
            f.qn = pf.qn
            f.record = f.record or pf.record
        elif c.get('parentDeclContextId') in self.rec_by_id:
            q = self.rec_by_id[c['parentDeclContextId']]
            f.qn = q + '::' + f.name
            f.record = q
        self.fn_by_id[c['id']] = f
        if prev:
            self.canon[c['id']] = prev
        self.fns.setdefault(f.qn, []).append(f)

    def _link(self):
        # map every declaration to its definition
        root = {}
        def find(i):
            while i in self.canon:
                i = self.canon[i]
            return i
        defs = {}
        for i, f in self.fn_by_id.items():
            if f.body is not None:
                defs.setdefault(find(i), f)
        self.defs = defs
        self._find = find
        self.by_key = {}
        for qn, l in self.fns.items():
            for f in l:
                if f.body is not None:
                    self.by_key.setdefault((qn, f.sig), f)

    def definition(self, fid):
        if fid not in self.fn_by_id:
            return None
        d = self.defs.get(self._find(fid))
        if d:
            return d
        f = self.fn_by_id[fid]
        if f.body is not None:
            return f
        return self.by_key.get((f.qn, f.sig))

    def lookup(self, qn):
        """all definitions with this qualified name, unique by signature"""
        out = {}
        for f in self.fns.get(qn, []):
            if f.body is not None:
                out.setdefault(f.sig, f)
        return list(out.values())

def find_const(node):
    """evaluated constant value found in a ConstantExpr / literal below node"""
    if 'value' in node and node.get('kind') in ('ConstantExpr', 'IntegerLiteral'):
        return int(node['value'])
    for c in node.get('inner', []) or []:
        v = find_const(c)
        if v is not None:
            return v
    return None

_cache = {}
def load(tu=None, extra=()):
    tu = tu or os.path.join(HERE, 'tu.cc')
    key = (tu, tuple(extra))
    if key not in _cache:
        _cache[key] = Program().add_tu(run_clang(tu, extra))
    return _cache[key]

if __name__ == '__main__':
    t = time.time()
    p = load()
    print(time.time() - t, len(p.fns), len(p.records))
    for qn in sorted(p.fns):
        ds = p.lookup(qn)
        print(len(ds), len(p.fns[qn]), qn)
