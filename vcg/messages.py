"""C++ stand-ins for the message classes protoc generates, produced on every run
from /repo's current schema.proto.  Each class has exactly the accessors of the
generated API for the fields of the schema: f(), set_f(x), has_f(), clear_f() of
singular fields, f(i), f_size(), add_f(x), set_f(i,x), f(), mutable_f() of
repeated ones, Clear().  (The behaviour of the generated accessors is an
assumption; the bounded run links the real generated classes.)"""
import os, re, subprocess, tempfile
from cxx import REPO, ExtractError
TYPES = {'float': 'float', 'double': 'double', 'uint64': 'uint64_t', 'uint32': 'uint32_t', 'int32': 'int32_t', 'int64': 'int64_t', 'bool': 'bool',
         'sint32': 'int32_t', 'sint64': 'int64_t', 'fixed32': 'uint32_t', 'fixed64': 'uint64_t'}
def parse(text):
    text = re.sub(r'//[^\n]*|/\*.*?\*/', '', text, flags=re.S)
    toks = re.findall(r'[A-Za-z_][\w.]*|\d+|[{}=;\[\],"\']', text)
    i = 0
    def message(i):
        fields, subs = [], []
        assert toks[i] == '{'
        i += 1
        while toks[i] != '}':
            if toks[i] == 'message':
                n = toks[i + 1]
                b, i = message(i + 2)
                subs.append((n, b))
            elif toks[i] in ('required', 'optional', 'repeated'):
                fields.append((toks[i], toks[i + 1], toks[i + 2]))
                while toks[i] != ';': i += 1
                i += 1
            else:
                raise ExtractError('schema.proto: %s' % toks[i])
        return (fields, subs), i + 1
    out = []
    while i < len(toks):
        if toks[i] == 'message':
            n = toks[i + 1]
            b, i = message(i + 2)
            out.append((n, b))
        else:
            i += 1
    return out
def struct(name, body, ind, out):
    fields, subs = body
    p = '  ' * ind
    out.append('%sstruct %s {' % (p, name))
    for n, b in subs: struct(n, b, ind + 1, out)
    clear = []
    for how, ty, f in fields:
        f = f.lower()
        t = TYPES.get(ty)
        if how == 'repeated':
            if t is None: raise ExtractError('repeated ' + ty)
            clear.append('%s_.Clear();' % f)
            out.append('{p}  Repeated<{t}> {f}_; {t} {f}(int i) const {{ return {f}_.Get(i); }} int {f}_size() const {{ return {f}_.size(); }}'
                       ' void add_{f}({t} x) {{ {f}_.Add(x); }} void set_{f}(int i, {t} x) {{ {f}_.Set(i, x); }} void clear_{f}() {{ {f}_.Clear(); }}'
                       ' Repeated<{t}> * mutable_{f}() {{ return &{f}_; }} const Repeated<{t}> & {f}() const {{ return {f}_; }}'.format(p=p, t=t, f=f))
        elif t is not None:
            clear.append('clear_%s();' % f)
            out.append('{p}  {t} {f}_; bool has_{f}_; {t} {f}() const {{ return {f}_; }} void set_{f}({t} x) {{ {f}_ = x; has_{f}_ = true; }}'
                       ' bool has_{f}() const {{ return has_{f}_; }} void clear_{f}() {{ {f}_ = 0; has_{f}_ = false; }}'.format(p=p, t=t, f=f))
        else:
            clear.append('%s_.Clear();' % f)
            out.append('{p}  {t} {f}_; const {t} & {f}() const {{ return {f}_; }} {t} * mutable_{f}() {{ return &{f}_; }}'.format(p=p, t=ty, f=f))
    out.append('%s  void Clear() { %s }' % (p, ' '.join(clear)))
    out.append('%s};' % p)
HEAD = '''#include <cstdint>
#include <vector>
namespace distributions { namespace message {
template<class T> struct Repeated {
  std::vector<T> v_;
  int size() const { return v_.size(); }
  T Get(int i) const { return v_[i]; }
  T operator[](int i) const { return v_[i]; }
  T Set(int i, T x) { v_[i] = x; }
  void Add(T x) { v_.push_back(x); }
  void Clear() { v_.clear(); }
  void Reserve(int n) {}
};
'''
def header():
    path = next((os.path.join(REPO, p) for p in ('distributions/io/schema.proto',) if os.path.exists(os.path.join(REPO, p))), None)
    if path is None: raise ExtractError('schema.proto not found')
    out = [HEAD]
    for n, b in parse(open(path).read()):
        struct(n, b, 0, out)
    out.append('}}')
    return '\n'.join(out)
MODELS = [('BetaBernoulli', 'BetaBernoulli'), ('BetaNegativeBinomial', 'BetaNegativeBinomial'), ('GammaPoisson', 'GammaPoisson'),
          ('NormalInverseChiSq', 'NormalInverseChiSq'), ('DirichletDiscrete<16>', 'DirichletDiscrete'), ('DirichletProcessDiscrete', 'DirichletProcessDiscrete'),
          ('NormalInverseWishart<2>', 'NormalInverseWishart'), ('NormalInverseWishart<3>', 'NormalInverseWishart'), ('NormalInverseWishart<-1>', 'NormalInverseWishart')]
def program():
    import cxx
    inst = []
    for m, msg in MODELS:
        for k in ('Shared', 'Group'):
            inst.append('template void {m}::{k}::protobuf_load(const message::{g}::{k} &); template void {m}::{k}::protobuf_dump(message::{g}::{k} &) const;'.format(m=m, k=k, g=msg))
    for k in ('PitmanYor', 'LowEntropy'):
        inst.append('template void Clustering<int32_t>::{k}::protobuf_load(const message::Clustering::{k} &); template void Clustering<int32_t>::{k}::protobuf_dump(message::Clustering::{k} &) const;'.format(k=k))
    d = tempfile.mkdtemp(prefix='msg')
    try:
        tu = os.path.join(d, 'tu.cc')
        inc = ''.join('#include <distributions/models/%s.hpp>\n' % m for m in ('bb', 'bnb', 'dd', 'dpd', 'gp', 'nich', 'niw')) + '#include <distributions/clustering.hpp>\n'
        open(tu, 'w').write(header() + '\n' + inc + 'namespace distributions {\n' + '\n'.join(inst) + '\n}\n')
        return cxx.load(tu)
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
