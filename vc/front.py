"""Front end: clang's AST (JSON) of /repo's current sources -> indexed functions and classes."""
import glob, json, os, re, subprocess, hashlib, tempfile
REPO = os.environ.get('VC_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
CLANG = '/usr/bin/clang++-18'
FLAGS = ['-std=c++11', '-fgnuc-version=5.1.0', '-DLEARNLOG_USE_TLS', '-DLEARNLOG_USE_BUNDLED_FMT', '-DNDEBUG', '-I' + REPO, '-I' + REPO + '/include', '-w']

class FrontError(Exception): pass
def generated():
    """the header cmake configures into the tree; stands in when the tree was never configured"""
    if os.path.exists(REPO + '/include/version.h') or not os.path.exists(REPO + '/cmake/version.h.in'): return []
    d = os.path.join(os.path.dirname(HERE), 'build', 'gen', hashlib.sha1(REPO.encode()).hexdigest()[:8]); os.makedirs(d, exist_ok=True)
    m = re.search(r'project\([^)]*VERSION\s+(\d+)\.(\d+)\.(\d+)', open(REPO + '/CMakeLists.txt').read()); v = dict(zip(('MAJOR', 'MINOR', 'PATCH'), m.groups() if m else '000'))
    t = re.sub(r'@learnlog_VERSION_(\w+)@', lambda x: v.get(x.group(1), '0'), open(REPO + '/cmake/version.h.in').read()); tmp = f'{d}/version.h.{os.getpid()}'
    with open(tmp, 'w') as f: f.write(t)
    os.replace(tmp, d + '/version.h'); return ['-I' + d]
FLAGS += generated()

STRIP = re.compile(r'\b(?:learnlog|base|sinks|vcinst|learnlog_file)::')
def norm(t):
    """type or class name without the repository's own namespaces"""
    return STRIP.sub('', t)

def sources():
    out = []
    for d in ('base', 'sinks', 'sinks/formatters', 'include', 'src'):
        out += sorted(glob.glob(f'{REPO}/{d}/*.cpp'))
    return out

def segments(s):
    """the file-scope declarations of a source file: (start, end, text without comments and literals)"""
    out = []; i = 0; n = len(s); st = None; depth = 0; par = 0; txt = []
    def put(ch):
        nonlocal st
        if st is None and not ch.isspace(): st = i
        if st is not None: txt.append(ch)
    while i < n:
        if s.startswith('//', i):
            j = s.find('\n', i); i = n if j < 0 else j; continue
        if s.startswith('/*', i):
            j = s.find('*/', i); i = n if j < 0 else j + 2; continue
        c = s[i]
        if c == '#' and s[s.rfind('\n', 0, i) + 1:i].strip() == '':
            j = i
            while True:
                e = s.find('\n', j); e = n if e < 0 else e
                if e < n and s[:e].rstrip('\r').endswith('\\'): j = e + 1; continue
                break
            if st is not None and depth == 0: raise FrontError('a preprocessor line within a declaration')
            i = e; continue
        m = re.compile(r'(?:u8|[uUL])?R"([^(]*)\(').match(s, i) if c in 'uULR' and not (i and (s[i - 1].isalnum() or s[i - 1] == '_')) else None
        if m:
            put('"'); j = s.find(')' + m.group(1) + '"', i); i = n if j < 0 else j + len(m.group(1)) + 2; continue
        if c == '"' or (c == "'" and not (i and s[i - 1].isalnum())):
            put(c); j = i + 1
            while j < n and s[j] != c: j += 2 if s[j] == '\\' else 1
            txt.append(c); i = j + 1; continue
        put(c)
        if c in '([': par += 1
        elif c in ')]': par -= 1
        elif c == '{': depth += 1
        elif c == '}':
            depth -= 1
            if depth == 0 and par == 0:
                t = ''.join(txt); h = t[:t.index('{')]
                j = i + 1
                while j < n and s[j].isspace(): j += 1
                # a function body or a namespace ends here; a class, an initialiser or a constructor initialiser {…} goes on
                if h.lstrip().startswith('namespace') or h.lstrip().startswith('inline namespace') or ('(' in h and not re.match(r'\s*[,({;.]|\s*->', s[j:j + 2])):
                    out.append((st, i + 1, t)); st = None; txt = []
                    if j < n and s[j] == ';': i = j + 1; continue
        elif c == ';' and depth == 0 and par == 0:
            out.append((st, i + 1, ''.join(txt))); st = None; txt = []
        i += 1
    return out

def file_scope(s):
    """the declarations of a source file outside the namespace learnlog (helpers local to the file) go into an inline namespace of it, so that the
    dump's filter sees them; lines stay as they are. None if there are none."""
    W = 'inline namespace learnlog_file { '
    res = []; pos = 0; ch = False
    for a, b, t in segments(s):
        u = t.strip()
        if not u.rstrip(';') or re.match(r'(using\b|(inline\s+)?namespace\s+learnlog\b|extern\s*"|static_assert|template\s+class|template\s+struct)', u): continue
        m = re.match(r'namespace\s*\{', u)
        if m:
            res.append(s[pos:a]); k = s.index('{', a); res.append(W[:-2] + '{'); pos = k + 1; ch = True; continue
        head = re.split(r'[({=;]', re.sub(r'operator\s*\(\s*\)', 'operator_', u), maxsplit=1)[0].strip()
        while re.search(r'<[^<>]*>', head): head = re.sub(r'<[^<>]*>', '', head)
        if not re.match(r'(class|struct|enum|namespace)\b', u) and re.search(r'::\s*~?\w+(\s*\[[^\]]*\])?$', head): continue     # the definition of a member
        res.append(s[pos:a] + W + s[a:b] + ' }'); pos = b; ch = True
    return ''.join(res) + s[pos:] if ch else None

TEXT = {}      # the texts of wrapped sources
def make_tu(td, wrap=True):
    hs = [f'{REPO}/include/learnlog.h']
    for d in ('base', 'sinks', 'sinks/formatters', 'include'):
        hs += sorted(glob.glob(f'{REPO}/{d}/*.h'))
    skip = ('win.h', 'wchar_support.h', 'wincolor_sink.h')
    lines = [f'#include "{HERE}/tu_head.h"'] + [f'#include "{h}"' for h in hs if os.path.basename(h) not in skip]
    for i, c in enumerate(sources()):
        try: t = file_scope(open(c, newline='').read()) if wrap else None
        except (FrontError, IndexError, ValueError): t = None
        if t is not None:
            TEXT[f'{td}/{i}.inc'] = f'#line 1 "{c}"\n' + t; open(f'{td}/{i}.inc', 'w', newline='').write(TEXT[f'{td}/{i}.inc']); lines.append(f'#include "{td}/{i}.inc"')
        else: lines.append(f'#include "{c}"')
    lines.append(f'#include "{HERE}/tu_tail.h"')
    return '\n'.join(lines) + '\n'

def run_clang():
    with tempfile.TemporaryDirectory() as td:
        tu = os.path.join(td, 'tu.cpp')
        for wrap in (True, False):
            t = make_tu(td, wrap); open(tu, 'w').write(t)
            r = subprocess.run([CLANG] + FLAGS + ['-iquote' + d for d in sorted({os.path.dirname(c) for c in sources()})] + ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=learnlog', tu],
                               capture_output=True, text=True)
            if r.returncode == 0: return r.stdout
            if td not in t: break
        raise FrontError('clang failed:\n' + r.stderr[-3000:])

def parse(s):
    cur = [None]
    def hook(d):        # the dump names the file of a location only where it changes
        if 'offset' in d:
            if 'file' in d: cur[0] = d['file']
            else: d['file'] = cur[0]
        return d
    dec = json.JSONDecoder(object_hook=hook); i = 0; n = len(s); docs = []
    while True:
        while i < n and s[i] in ' \n\r\t': i += 1
        if i >= n: break
        d, i = dec.raw_decode(s, i); docs.append(d)
    return docs

RECORDS = ('CXXRecordDecl', 'ClassTemplateSpecializationDecl')
FUNCS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')

class Class:
    def __init__(self, name, node):
        self.name = name; self.node = node; self.fields = []; self.methods = []; self.bases = []
        self.lambdas = None

class Func:
    def __init__(self, qual, node, cls):
        self.qual = qual; self.node = node; self.cls = cls; self.name = node.get('name'); self.kind = node['kind']
        self.params = [c for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        self.type = node['type']['qualType']
    @property
    def body(self):
        for c in self.node.get('inner', []):
            if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'): return c
        return None
    @property
    def inits(self):
        return [c for c in self.node.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
    def __repr__(self): return f'<{self.qual} {self.type}>'

def targs(node):
    out = []
    for c in node.get('inner', []):
        if c.get('kind') == 'TemplateArgument':
            if 'type' in c:
                t = c['type']; out.append(t.get('desugaredQualType', t['qualType']))
            elif 'value' in c: out.append(str(c['value']))
            else: out.append('?')
    return out

CHRONO = {'nanoseconds': 'duration<long, std::ratio<1, 1000000000>>', 'microseconds': 'duration<long, std::ratio<1, 1000000>>', 'milliseconds': 'duration<long, std::ratio<1, 1000>>', 'seconds': 'duration<long>'}
class Classes(dict):
    """classes by name; the chrono names in template arguments stand for what they are aliases of"""
    def get(self, k, d=None):
        if k in self: return self[k]
        if k and '<' in k and 'chrono::' in k:
            k = re.sub(r'std::chrono::(nano|micro|milli)?seconds\b', lambda m: 'std::chrono::' + CHRONO[(m.group(1) or '') + 'seconds'], k)
            if k in self: return self[k]
        return d
class Ast:
    def __init__(self, docs):
        self.by_id = {}; self.classes = Classes(); self.funcs = {}; self.byqual = {}; self.vars = {}; self.parent = {}
        self.aliases = {}; self.prev = {}; self.enums = {}; self.enum_types = set(); self.classes_by_id = {}
        seen = set()
        for d in docs: self.walk(d, [], None)
        # definitions: an out-of-line definition refers to its first declaration by previousDecl
        for f in list(self.funcs.values()):
            if f.body is None: continue
            p = f.node.get('previousDecl')
            while p:
                self.prev[p] = f
                pf = self.by_id.get(p); p = pf.get('previousDecl') if pf else None
    def walk(self, d, path, cls):
        k = d.get('kind')
        if k is None: return
        if 'id' in d:
            if d['id'] in self.by_id and k not in FUNCS and k not in RECORDS and k != 'NamespaceDecl' and len(d) < len(self.by_id[d['id']]): return
            self.by_id[d['id']] = d
        if k in ('NamespaceDecl', 'LinkageSpecDecl'):
            p = path + [d['name']] if d.get('name') else path
            for c in d.get('inner', []): self.walk(c, p, cls)
        elif k in RECORDS:
            if not d.get('completeDefinition') and not d.get('definitionData'):
                return
            nm = d.get('name') or '(anon)'
            if k == 'ClassTemplateSpecializationDecl': nm += '<' + ', '.join(targs(d)) + '>'
            pid = d.get('parentDeclContextId')
            p = path + [nm]
            q = norm('::'.join(p))
            c = Class(q, d); c.id = d['id']; self.classes_by_id[d['id']] = c
            for b in d.get('bases', []):
                t = b['type']; c.bases.append(norm(t.get('desugaredQualType', t['qualType'])))
            for x in d.get('inner', []):
                if x.get('kind') == 'FieldDecl': c.fields.append(x)
            self.classes[q] = c
            for x in d.get('inner', []): self.walk(x, p, c)
        elif k in ('ClassTemplateDecl',):
            for c in d.get('inner', []):
                if c.get('kind') == 'ClassTemplateSpecializationDecl': self.walk(c, path, cls)
        elif k == 'FunctionTemplateDecl':
            first = True
            for c in d.get('inner', []):
                if c.get('kind') in FUNCS:
                    if first: first = False; self.by_id[c['id']] = c; continue   # the pattern itself
                    self.walk(c, path, cls)
        elif k in FUNCS:
            q = norm('::'.join(path + [d.get('name', '?')]))
            f = Func(q, d, cls)
            pid = d.get('parentDeclContextId')
            if cls is None and pid and pid in self.by_id:      # out-of-line member
                for cc in self.classes.values():
                    if cc.id == pid: f.cls = cc; f.qual = cc.name + '::' + d['name']
            old = self.funcs.get(d['id'])
            if old is None or (old.body is None and f.body is not None):
                self.funcs[d['id']] = f
                if old is not None:
                    for l in self.byqual.values():
                        if old in l: l.remove(old)
                self.byqual.setdefault(f.qual, []).append(f)
                if f.cls is not None and f not in f.cls.methods: f.cls.methods.append(f)
            for c in d.get('inner', []): self.index(c)
        elif k == 'EnumDecl':
            self.enum(d)
            for c in d.get('inner', []): self.index(c)
        elif k in ('TypeAliasDecl', 'TypedefDecl') and cls is None and d.get('name'):
            t = d['type']; self.aliases.setdefault(d['name'], set()).add(t.get('desugaredQualType', t['qualType']))
        elif k in ('VarDecl',):
            self.vars[norm('::'.join(path + [d.get('name', '?')]))] = d
            for c in d.get('inner', []): self.index(c)
        elif k == 'FieldDecl' or True:
            for c in d.get('inner', []): self.index(c)
    def enum(self, d):
        v = 0
        if d.get('name'): self.enum_types.add(d['name'])
        for c in d.get('inner', []):
            if c.get('kind') != 'EnumConstantDecl': continue
            for x in c.get('inner', []):
                if x.get('kind') == 'ConstantExpr' or 'value' in x: v = int(x.get('value', v))
            self.enums[c['id']] = v; v += 1
    def index(self, d):
        """index nested declarations (locals, lambdas)"""
        stack = [d]
        while stack:
            x = stack.pop()
            if not isinstance(x, dict) or 'kind' not in x: continue
            if x['kind'] == 'EnumDecl': self.enum(x)
            if x['kind'].endswith('Decl') and 'id' in x: self.by_id.setdefault(x['id'], x)
            stack.extend(x.get('inner', []))
    def definition(self, fid):
        f = self.funcs.get(fid)
        if f is not None and f.body is not None: return f
        if fid in self.prev: return self.prev[fid]
        return f
    def methods(self, qual):
        qual = norm(qual)
        return [self.definition(f.node['id']) or f for f in self.byqual.get(qual, [])]

def load():
    return Ast(parse(run_clang()))

if __name__ == '__main__':
    import time, sys
    t = time.time(); a = load(); print(time.time() - t)
    for q in sorted(a.classes): print('CLASS', q, a.classes[q].bases)
    for q in sorted(a.byqual):
        for f in a.byqual[q]: print(q, f.type, f.body is not None, f.node['id'] in a.prev, f.cls.name if f.cls else None)
