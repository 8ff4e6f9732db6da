"""Front end: runs clang on the current sources of /repo and turns its typed
AST (JSON) into a table of functions, classes and enums.  Nothing is rewritten:
the statements that are interpreted later are exactly clang's AST of the file
that the build compiles."""
import json, os, re, subprocess, sys, tempfile, hashlib, shutil

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = next((c for c in ('/usr/bin/clang++', '/usr/lib/llvm-18/bin/clang++') if os.path.exists(c)), 'clang++')
QTINC = '/usr/include/x86_64-linux-gnu/qt5'
_tmp = None


class FrontendError(Exception):
    pass


def gen_dir():
    """Scratch include dir holding the generated version.h (made by qmake in the
    real build from version.h.in)."""
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='vcg_gen_')
        import atexit
        atexit.register(shutil.rmtree, _tmp, True)
        os.makedirs(_tmp + '/sub', exist_ok=True)
        vh = os.path.join(REPO, '_build', 'version.h')
        if os.path.exists(vh):
            txt = open(vh).read()
        else:
            txt = ('#ifndef VERSION_H\n#define VERSION_H\n#define SERVER_NAME_STRING "nymea-remoteproxy"\n'
                   '#define SERVER_VERSION_STRING "0"\n#define API_VERSION_STRING "0"\n#define COPYRIGHT_YEAR_STRING "2025"\n#endif\n')
        open(_tmp + '/version.h', 'w').write(txt)
    return _tmp


def flags():
    g = gen_dir()
    inc = [REPO + '/libnymea-remoteproxy', REPO + '/libnymea-remoteproxyclient', REPO, g + '/sub', QTINC] + \
          [QTINC + '/' + m for m in ('QtWebSockets', 'QtNetwork', 'QtCore')]
    return ['-std=gnu++11', '-fPIC', '-w', '-DQT_DISABLE_DEPRECATED_UP_TO=0x050F00', '-DQT_NO_DEBUG',
            '-DQT_WEBSOCKETS_LIB', '-DQT_NETWORK_LIB', '-DQT_CORE_LIB'] + ['-I' + i for i in inc]


def _flags_for(path):
    fl = flags()
    # the two libraries have files of the same name (jsonreply.h, ...): own dir first
    if 'remoteproxyclient' in path:
        a = '-I' + REPO + '/libnymea-remoteproxy'
        fl = [f for f in fl if f != a]
    elif 'libnymea-remoteproxy/' in path or '/common/' in path:
        a = '-I' + REPO + '/libnymea-remoteproxyclient'
        fl = [f for f in fl if f != a]
    return fl


def dump(path, flt):
    cmd = [CLANG] + _flags_for(path) + ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + flt, path]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise FrontendError('clang failed on %s:\n%s' % (path, r.stderr[:2000]))
    s = r.stdout
    d = json.JSONDecoder()
    i, docs = 0, []
    n = len(s)
    while True:
        while i < n and s[i] in ' \n\r\t':
            i += 1
        if i >= n:
            break
        o, i = d.raw_decode(s, i)
        docs.append(o)
    return docs


class Cls:
    def __init__(self, q):
        self.q = q
        self.fields = {}      # name -> field node
        self.bases = []       # qualified (best effort) names
        self.methods = {}     # name -> [decl nodes]
        self.signals = set()
        self.virtuals = set()
        self.pure = set()
        self.enums = {}
        self.node = None


class Fn:
    def __init__(self, q, node, tu, cls):
        self.q, self.node, self.tu, self.cls = q, node, tu, cls
        self.params = [c for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl']
        self.body = next((c for c in node.get('inner', []) if c.get('kind') == 'CompoundStmt'), None)
        self.inits = [c for c in node.get('inner', []) if c.get('kind') == 'CXXCtorInitializer']
        self.kind = node['kind']
        self.line = None

    @property
    def nparams(self):
        return len(self.params)


def _qt(t):
    return t.get('desugaredQualType') or t.get('qualType') or ''


class TU:
    """All repo declarations seen through one translation unit."""

    def __init__(self, path, filters=('remoteproxy',)):
        self.path = path
        self.decl = {}          # id -> node
        self.parent = {}        # id -> qualified name of parent scope
        self.fns = {}           # qualname -> [Fn]  (with bodies)
        self.classes = {}       # qualname -> Cls
        self.enumconst = {}     # id -> int
        self.enumname = {}      # qualname const -> int
        self.qual = {}          # id -> qualname
        self.canon = {}         # id -> first decl id
        self.src = open(path, errors='replace').read() if os.path.exists(path) else ''
        self.filters_done = set()
        for f in filters:
            self.load(f)

    def load(self, flt):
        if flt in self.filters_done:
            return
        self.filters_done.add(flt)
        docs = dump(self.path, flt)
        # the ids of separate clang runs differ: tag them
        tag = '' if len(self.filters_done) == 1 else flt + ':'
        self._tag = tag
        for d in docs:
            if tag:
                _retag(d, tag)
            self._top(d)

    def _top(self, d):
        # AST filter prints nodes whose qualified name contains the filter text; nested
        # matches are printed inside their parents only.
        k = d.get('kind')
        if k == 'NamespaceDecl':
            self._scope(d, d.get('name', ''))
        else:
            self._decl(d, self._outer(d))

    def _outer(self, d):
        p = d.get('parentDeclContextId')
        if p and p in self.qual:
            return self.qual[p]
        pv = d.get('previousDecl')
        if pv and pv in self.parent:
            return self.parent[pv]
        return ''

    def _scope(self, d, q):
        self.qual[d['id']] = q
        for c in d.get('inner', []):
            self._decl(c, q)

    def _decl(self, c, q):
        k = c.get('kind')
        if not k:
            return
        cid = c.get('id')
        name = c.get('name', '')
        if k == 'NamespaceDecl':
            self._scope(c, (q + '::' if q else '') + name)
            return
        if k in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'FunctionDecl', 'CXXConversionDecl'):
            p = c.get('parentDeclContextId')
            if p and p in self.qual:
                q = self.qual[p]
            elif c.get('previousDecl') in self.parent:
                q = self.parent[c['previousDecl']]
        if not q and k in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            return      # a member whose class is outside this dump: resolved by the type of the object
        full = (q + '::' if q else '') + name
        if cid:
            self.decl[cid] = c
            self.qual[cid] = full
            self.parent[cid] = q
            if 'previousDecl' in c:
                self.canon[cid] = self.canon.get(c['previousDecl'], c['previousDecl'])
        if k == 'CXXRecordDecl':
            if c.get('completeDefinition') or c.get('inner'):
                self._record(c, full)
        elif k == 'EnumDecl':
            v = -1
            for e in c.get('inner', []):
                if e.get('kind') != 'EnumConstantDecl':
                    continue
                val = _find_const(e)
                v = val if val is not None else v + 1
                self.enumconst[e['id']] = v
                self.decl[e['id']] = e
                self.enumname[q + '::' + e['name']] = v
                self.enumname[full + '::' + e['name']] = v
        elif k in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'FunctionDecl', 'CXXConversionDecl'):
            for p in c.get('inner', []):
                if p.get('kind') == 'ParmVarDecl':
                    self.decl[p['id']] = p
            if c.get('previousDecl') in self.decl:
                pd = self.decl[c['previousDecl']]
                for a in ('virtual', 'pure'):
                    if pd.get(a):
                        c[a] = True
            fn = Fn(full, c, self, q if q in self.classes or k != 'FunctionDecl' else None)
            if fn.body is not None:
                self.fns.setdefault(full, []).append(fn)
        elif k == 'VarDecl':
            pass
        elif k == 'LinkageSpecDecl':
            for e in c.get('inner', []):
                self._decl(e, q)

    def _record(self, c, full):
        if not c.get('completeDefinition') and not any(x.get('kind') == 'FieldDecl' for x in c.get('inner', [])):
            return
        cl = self.classes.setdefault(full, Cls(full))
        cl.node = c
        for b in c.get('bases', []):
            cl.bases.append(strip_cv(_qt(b['type'])))
        section_signal = False
        for m in c.get('inner', []):
            mk = m.get('kind')
            if mk == 'AccessSpecDecl':
                continue
            if mk == 'FieldDecl':
                cl.fields[m.get('name', '')] = m
                self.decl[m['id']] = m
                self.qual[m['id']] = full + '::' + m.get('name', '')
                self.parent[m['id']] = full
            elif mk in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl'):
                cl.methods.setdefault(m.get('name', ''), []).append(m)
                if m.get('virtual'):
                    cl.virtuals.add(m['name'])
                if any(a.get('kind') in ('OverrideAttr', 'FinalAttr') for a in m.get('inner', [])):
                    cl.virtuals.add(m['name'])
                if m.get('pure'):
                    cl.pure.add(m['name'])
                self._decl(m, full)
            else:
                self._decl(m, full)


def _retag(d, tag):
    stack = [d]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            for k in ('id', 'previousDecl', 'parentDeclContextId', 'referencedMemberDecl'):
                if k in n and isinstance(n[k], str):
                    n[k] = tag + n[k]
            for k in ('referencedDecl', 'foundReferencedDecl', 'anyInit'):
                if isinstance(n.get(k), dict) and 'id' in n[k]:
                    n[k]['id'] = tag + n[k]['id']
            stack.extend(n.get('inner', []))


def _find_const(e):
    for c in e.get('inner', []):
        if 'value' in c:
            try:
                return int(c['value'])
            except (ValueError, TypeError):
                pass
        r = _find_const(c)
        if r is not None:
            return r
    return None


def strip_cv(t):
    t = t.strip()
    while True:
        o = t
        t = re.sub(r'^(const|volatile|struct|class|enum|typename)\s+', '', t)
        t = re.sub(r'\s*(&&|&)$', '', t)
        t = re.sub(r'\s+(const|volatile)$', '', t)
        if t == o:
            return t


def callee_text(tu, node):
    """Source text of a DeclRefExpr (to recover the qualifier of static calls)."""
    r = node.get('range', {})
    b, e = r.get('begin', {}), r.get('end', {})
    b = b.get('expansionLoc', b) if 'offset' not in b else b
    e = e.get('expansionLoc', e) if 'offset' not in e else e
    if 'offset' in b and 'offset' in e:
        return tu.src[b['offset']:e['offset'] + e.get('tokLen', 0)]
    return ''
