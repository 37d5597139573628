"""Front end: reads /repo's current source through clang's own AST (JSON dump) on every run.

A driver translation unit (in /verif/drivers) only #includes /repo headers/sources and forces template
instantiations; every function body the verifier sees comes from the dump of /repo's files.
"""
import json, os, re, subprocess, tempfile, hashlib

REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = 'clang++'
FLAGS = ['-std=c++17', '-fopenmp', '-DNDEBUG', '-DDISCOTEC_USE_LZ4', '-DTIMING', '-w', '-ferror-limit=0',
         '-I' + REPO + '/src', '-I/usr/lib/x86_64-linux-gnu/openmpi/include',
         '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']


class FrontendError(Exception):
    pass


def strip_loc(o):
    return o


class Program:
    def __init__(self, driver, filt='combigrid', extra=()):
        cmd = [CLANG] + FLAGS + list(extra) + ['-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang',
                                               '-ast-dump-filter=' + filt, driver]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        self.stderr = p.stderr.decode(errors='replace')
        if not p.stdout:
            raise FrontendError('clang produced no AST for %s:\n%s' % (driver, self.stderr[-2000:]))
        self.errors = [l for l in self.stderr.splitlines() if ' error: ' in l]
        s = p.stdout.decode(errors='replace')
        dec = json.JSONDecoder()
        i, n = 0, len(s)
        objs = []
        while True:
            while i < n and s[i].isspace():
                i += 1
            if i >= n:
                break
            o, i = dec.raw_decode(s, i)
            objs.append(o)
        self.decl = {}        # id -> decl node
        self.qual = {}        # id -> qualified name
        self.byname = {}      # qualified name -> [ids] (functions with bodies)
        self.records = {}     # qualified (with template args) -> node
        self.recname = {}     # id -> record key
        self.canon = {}       # decl id -> definition id
        self.parent = {}
        self.globals = {}     # var decl id -> node
        self.src_hash = hashlib.sha256(s.encode()).hexdigest()
        self.curfile = None
        seen = set()
        for o in objs:
            self.walk(o, [], None, seen)
        # link redeclarations
        for i_, d in list(self.decl.items()):
            pd = d.get('previousDecl')
            if pd and self.hasbody(d):
                j = pd
                guard = 0
                while j and guard < 50:
                    self.canon[j] = i_
                    nd = self.decl.get(j)
                    j = nd.get('previousDecl') if nd else None
                    guard += 1
        # declarations that share (parent, name, type) with a definition
        defs = {}
        for i_, d in self.decl.items():
            if d['kind'] in FUNS and self.hasbody(d):
                defs.setdefault((self.qual[i_], d.get('type', {}).get('qualType')), i_)
        self.defs = defs

    @staticmethod
    def hasbody(d):
        return any(c.get('kind') in ('CompoundStmt', 'CXXTryStmt') for c in d.get('inner', ()))

    def walk(self, o, ctx, parent, seen):
        k = o.get('kind')
        if k is None:
            return
        i = o.get('id')
        if k == 'NamespaceDecl':
            for c in o.get('inner', ()):
                self.walk(c, ctx + [o.get('name', '(anon)')], o, seen)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            nm = o.get('name', '(lambda)')
            targs = ''
            if k == 'ClassTemplateSpecializationDecl':
                targs = '<' + ','.join(self.targ(c) for c in o.get('inner', ()) if c.get('kind') == 'TemplateArgument') + '>'
            cx = ctx
            if parent is None and not ctx:
                cx = ['combigrid']
            q = '::'.join(cx + [nm]) + targs
            self.decl[i] = o
            self.qual[i] = q
            if o.get('completeDefinition') or any(c.get('kind') == 'FieldDecl' for c in o.get('inner', ())):
                old = self.records.get(q)
                if old is None or len(old.get('inner', ())) <= len(o.get('inner', ())):
                    self.records[q] = o
            self.recname[i] = q
            for c in o.get('inner', ()):
                self.walk(c, cx + [nm + targs], o, seen)
        elif k in ('ClassTemplateDecl',):
            first = True
            for c in o.get('inner', ()):
                if c.get('kind') == 'CXXRecordDecl' and first:
                    first = False      # the uninstantiated pattern
                    self.decl[c['id']] = c
                    self.qual[c['id']] = '::'.join(ctx + [c.get('name', '')])
                    continue
                self.walk(c, ctx, o, seen)
        elif k == 'FunctionTemplateDecl':
            first = True
            for c in o.get('inner', ()):
                if c.get('kind') in FUNS:
                    if first:
                        first = False  # pattern
                        c['_pattern'] = True
                        self.decl.setdefault(c['id'], c)
                        self.qual.setdefault(c['id'], '::'.join(ctx + [c.get('name', '')]))
                        continue
                    self.walk(c, ctx, o, seen)
        elif k in FUNS:
            if i in self.decl and self.hasbody(self.decl[i]) and not self.hasbody(o):
                return          # reference to a specialisation from a redeclaration of its template
            self.decl[i] = o
            pid = o.get('parentDeclContextId')
            cx = ctx
            if pid and pid in self.qual and self.decl[pid]['kind'] != 'NamespaceDecl':
                cx = self.qual[pid].split('::') if '<' not in self.qual[pid] else [self.qual[pid]]
            q = '::'.join(cx + [o.get('name', '')])
            self.qual[i] = q
            if self.hasbody(o):
                self.byname.setdefault(q, []).append(i)
            for c in o.get('inner', ()):
                if c.get('kind') in ('CXXRecordDecl',):
                    self.walk(c, cx + [o.get('name', '')], o, seen)
            self._index_lambdas(o)
        elif k in ('VarDecl', 'FieldDecl', 'EnumDecl', 'TypedefDecl', 'TypeAliasDecl'):
            self.decl[i] = o
            self.qual[i] = '::'.join(ctx + [o.get('name', '')])
            if k == 'VarDecl':
                self.globals[i] = o
            if k == 'EnumDecl':
                val = -1
                for c in o.get('inner', ()):
                    if c.get('kind') == 'EnumConstantDecl':
                        v = self._constval(c)
                        val = v if v is not None else val + 1
                        c['_value'] = val
                        self.decl[c['id']] = c
        elif k == 'LinkageSpecDecl':
            for c in o.get('inner', ()):
                self.walk(c, ctx, o, seen)

    @staticmethod
    def _constval(c):
        for x in c.get('inner', ()):
            if 'value' in x:
                try:
                    return int(x['value'])
                except Exception:
                    return None
        return None

    def _index_lambdas(self, o):
        st = list(o.get('inner', ()))
        while st:
            n = st.pop()
            if n.get('kind') == 'LambdaExpr':
                pass
            if n.get('kind') == 'VarDecl':
                self.decl.setdefault(n['id'], n)
            st.extend(n.get('inner', ()))

    @staticmethod
    def targ(c):
        t = c.get('type', {})
        if t:
            return t.get('qualType', '?')
        if 'value' in c:
            return str(c['value'])
        for x in c.get('inner', ()):
            if 'value' in x:
                return str(x['value'])
        return '?'

    def definition(self, i):
        d = self.decl.get(i)
        if d is not None and self.hasbody(d):
            return d
        j = self.canon.get(i)
        if j and self.hasbody(self.decl[j]):
            return self.decl[j]
        if d is not None:
            j = self.defs.get((self.qual.get(i), d.get('type', {}).get('qualType')))
            if j:
                return self.decl[j]
        return None

    def find(self, qual, sig=None, targs=None, nparams=None):
        """function definition by qualified name; sig: substring of / regex on the function type"""
        c = [self.decl[i] for i in self.byname.get(qual, ())]
        c = [d for d in c if not d.get('_pattern')]
        if sig:
            c = [d for d in c if re.search(sig, d['type']['qualType'])]
        if nparams is not None:
            c = [d for d in c if len(params(d)) == nparams]
        if targs:
            c = [d for d in c if targs == [self.targ(x) for x in d.get('inner', ()) if x.get('kind') == 'TemplateArgument'][:len(targs)]]
        if not c:
            raise FrontendError('no definition of %s %s in the current source' % (qual, sig or ''))
        return c[0]


FUNS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')


def params(d):
    return [c for c in d.get('inner', ()) if c.get('kind') == 'ParmVarDecl']


def body(d):
    for c in d.get('inner', ()):
        if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
            return c
    return None


def tyof(n):
    t = n.get('type', {})
    return t.get('desugaredQualType') or t.get('qualType', '')


_clean = re.compile(r'\b(const|volatile|struct|class|typename|enum)\s+|\s+(const|volatile)\b')


def clean(t):
    t = t.strip()
    while True:
        u = _clean.sub(' ', ' ' + t + ' ').strip()
        u = re.sub(r'\s*&+$', '', u).strip()
        if u.endswith(' const'):
            u = u[:-6]
        if u == t:
            return t
        t = u


INTS = {
    'int': (True, 32), 'unsigned int': (False, 32), 'unsigned': (False, 32), 'long': (True, 64), 'unsigned long': (False, 64),
    'long long': (True, 64), 'unsigned long long': (False, 64), 'short': (True, 16), 'unsigned short': (False, 16),
    'char': (True, 8), 'signed char': (True, 8), 'unsigned char': (False, 8), 'bool': (False, 1),
    'size_t': (False, 64), 'std::size_t': (False, 64), 'ssize_t': (True, 64), 'ptrdiff_t': (True, 64), 'std::ptrdiff_t': (True, 64),
    'uint8_t': (False, 8), 'uint32_t': (False, 32), 'uint64_t': (False, 64), 'int32_t': (True, 32), 'int64_t': (True, 64),
    'MPI_Count': (True, 64), 'MPI_Aint': (True, 64), 'MPI_Offset': (True, 64), 'wchar_t': (True, 32),
    '__int128': (True, 128), 'unsigned __int128': (False, 128),
    # /repo typedefs (checked against the driver by checks/types.cpp static_asserts)
    'IndexType': (True, 32), 'LevelType': (True, 32), 'DimType': (False, 8), 'BoundaryType': (False, 8), 'RankType': (True, 32),
    'SubspaceSizeType': (False, 32), 'combigrid::IndexType': (True, 32), 'combigrid::LevelType': (True, 32),
    'combigrid::DimType': (False, 8), 'combigrid::BoundaryType': (False, 8), 'combigrid::RankType': (True, 32), 'combigrid::SubspaceSizeType': (False, 32),
}
FLOATS = {'double', 'float', 'long double', 'real', 'combigrid::real'}


def int_range(t):
    s, w = INTS[t]
    if t == 'bool':
        return 0, 1
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
