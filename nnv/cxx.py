"""Front end: clang AST (JSON) of the real translation units of /repo, produced on every run."""
import json, os, subprocess, hashlib, re, tempfile, shutil

REPO = os.environ.get('NNV_REPO', '/repo')
CLANG = 'clang-18'
_cfg = {}
WORK = None


def workdir():
    global WORK
    if WORK is None:
        WORK = tempfile.mkdtemp(prefix='nnv_')
        import atexit
        pid = os.getpid()
        atexit.register(lambda: shutil.rmtree(WORK, ignore_errors=True) if os.getpid() == pid else None)
        os.makedirs(WORK + '/inc/nntile')
        gen(REPO + '/include/nntile/defs.h.in', WORK + '/inc/nntile/defs.h')
        os.makedirs(WORK + '/src')
    return WORK


def gen(src, dst):
    """what CMake's configure_file does for this configuration (CPU only, CBLAS)"""
    s = open(src).read()
    on = {'NNTILE_USE_CBLAS': True, 'NNTILE_USE_CUDA': False}
    def cmdef(m):
        return '#define %s' % m.group(1) if on.get(m.group(1)) else '/* #undef %s */' % m.group(1)
    s = re.sub(r'#cmakedefine\s+(\w+)', cmdef, s)
    cfg = cmake_vars()
    s = re.sub(r'@(\w+)@', lambda m: cfg.get(m.group(1), ''), s)
    open(dst, 'w').write(s)


_cv = None


def cmake_vars():
    return {'CBLAS_H_NAME': 'cblas.h', 'CBLAS_INT_TYPE': 'int'}


def source(path):
    """path relative to /repo; *.in files are configured first"""
    p = os.path.join(REPO, path)
    if path.endswith('.in'):
        w = workdir()
        out = os.path.join(w, 'src', path[:-3].replace('/', '_'))
        gen(p, out)
        return out
    return p


def starpu_flags():
    if 'sf' not in _cfg:
        o = subprocess.run(['pkg-config', '--cflags-only-I', 'starpu-1.3'], capture_output=True, text=True).stdout
        _cfg['sf'] = o.split()
    return _cfg['sf']


def flags(extra=()):
    w = workdir()
    return ['-std=c++17', '-include', 'cmath', '-I' + w + '/inc', '-I' + REPO + '/include', '-I' + REPO + '/external',
            '-I' + REPO] + list(extra) + starpu_flags()


class FrontEndError(Exception):
    pass


def load_json_stream(s):
    d = json.JSONDecoder()
    i = 0
    out = []
    n = len(s)
    while True:
        while i < n and s[i].isspace(): i += 1
        if i >= n: break
        o, i = d.raw_decode(s, i)
        out.append(o)
    return out


class TU(object):
    def __init__(self, path, filt='nntile', extra=()):
        self.path = path
        self.extra = extra
        src = source(path)
        self.src = src
        self.decls = {}      # id -> node
        self.parent = {}
        self.quals = {}      # id -> qualified name
        self.roots = self.dump(filt)
        self.defs = None

    def dump(self, filt):
        cmd = [CLANG] + flags(self.extra) + ['-w', '-fsyntax-only', '-Xclang', '-ast-dump=json']
        if filt: cmd += ['-Xclang', '-ast-dump-filter=' + filt]
        r = subprocess.run(cmd + [self.src], capture_output=True, text=True)
        if r.returncode != 0:
            raise FrontEndError('clang failed on %s: %s' % (self.path, r.stderr[-2000:]))
        roots = load_json_stream(r.stdout)
        self.cur = {'line': 0, 'file': ''}
        for o in roots: self.index(o, None, ())
        return roots

    def fixloc(self, l):
        if not isinstance(l, dict): return
        for sub in ('spellingLoc', 'expansionLoc'):
            if sub in l: self.fixloc(l[sub])
        if 'line' in l: self.cur['line'] = l['line']
        elif 'offset' in l: l['line'] = self.cur['line']
        if 'file' in l: self.cur['file'] = l['file']
        elif 'offset' in l: l['file'] = self.cur['file']

    def index(self, n, parent, qual):
        if not isinstance(n, dict) or 'kind' not in n: return
        if 'loc' in n: self.fixloc(n['loc'])
        if 'range' in n:
            self.fixloc(n['range'].get('begin')); self.fixloc(n['range'].get('end'))
        k = n['kind']
        q = qual
        if k.endswith('Decl'):
            old = self.decls.get(n['id'])
            if old is not None and len(old.get('inner', ())) >= len(n.get('inner', ())) and old is not n:
                if not n.get('inner'): return
                n['_dup'] = True
            else:
                self.decls[n['id']] = n
            nm = n.get('name', '')
            if k in ('NamespaceDecl', 'CXXRecordDecl', 'ClassTemplateSpecializationDecl') and nm:
                q = qual + (nm,)
                self.quals[n['id']] = '::'.join(q)
            elif k == 'NamespaceDecl':
                q = qual + ('(anon)',)
            elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'VarDecl', 'FunctionTemplateDecl', 'ClassTemplateDecl',
                       'CXXConversionDecl', 'CXXDestructorDecl', 'EnumConstantDecl', 'FieldDecl'):
                self.quals[n['id']] = '::'.join(qual + (nm,))
        if parent is not None and 'id' in n and n['id'] not in self.parent: self.parent[n.get('id')] = parent
        for c in n.get('inner', ()):
            self.index(c, n, q)

    def body(self, f):
        for c in f.get('inner', ()):
            if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'): return c
        return None

    def functions(self):
        if self.defs is None:
            self.defs = [n for n in self.decls.values() if n['kind'] in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl',
                                                                         'CXXConversionDecl', 'CXXDestructorDecl')]
        return self.defs

    def is_pattern(self, f):
        p = self.parent.get(f['id'])
        if p is None: return False
        if p['kind'] == 'FunctionTemplateDecl':
            return not any(c.get('kind') == 'TemplateArgument' for c in f.get('inner', ()))
        if p['kind'] == 'CXXRecordDecl':
            g = self.parent.get(p['id'])
            return g is not None and g['kind'] == 'ClassTemplateDecl'
        return False

    def find(self, qual, targs=None, nparams=None, pred=None):
        """function definitions with that qualified name (and template argument types)"""
        out = []
        for f in self.functions():
            if self.quals.get(f['id']) != qual or self.body(f) is None: continue
            if self.is_pattern(f): continue
            if targs is not None:
                ta = [c.get('type', {}).get('qualType') for c in f.get('inner', ()) if c.get('kind') == 'TemplateArgument']
                if ta != list(targs): continue
            if nparams is not None and len(self.params(f)) != nparams: continue
            if pred and not pred(f): continue
            out.append(f)
        return out

    def params(self, f):
        return [c for c in f.get('inner', ()) if c.get('kind') == 'ParmVarDecl']

    def definition_of(self, ref):
        """ref: referencedDecl stub -> the defining function node (with a body) or None"""
        n = self.decls.get(ref.get('id'))
        if n is not None and self.body(n) is not None: return n
        # another redeclaration of the same function
        if n is not None:
            q = self.quals.get(n['id'])
            ty = n.get('type', {}).get('qualType')
            for f in self.functions():
                if self.quals.get(f['id']) == q and f.get('type', {}).get('qualType') == ty and self.body(f) is not None \
                        and not self.is_pattern(f):
                    return f
        if n is None and ref.get('kind') in ('FunctionDecl', 'CXXMethodDecl') and ref.get('name'):
            if ref['name'] in self.__dict__.setdefault('_tried', set()): return None
            self._tried.add(ref['name'])
        return None


def line(n):
    b = n.get('range', {}).get('begin', {})
    for l in (b.get('expansionLoc'), b, b.get('spellingLoc'), n.get('loc', {})):
        if l and 'line' in l: return l['line']
    return 0
