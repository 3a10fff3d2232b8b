"""Runs clang on a source file of /repo and indexes the AST (JSON) of its NMakeFile functions."""
import json, os, subprocess, hashlib, pickle, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = shutil.which('clang++') or '/usr/lib/llvm-18/bin/clang++'
FLAGS = ['-std=gnu++17', '-fPIC', '-w', '-DQT_CORE_LIB', '-DQT_NO_CAST_FROM_ASCII', '-DQT_NO_CAST_TO_ASCII',
         '-DQT_NO_DEBUG', '-D_fileno=fileno', '-DUNICODE', '-fshort-wchar',
         '-I' + VERIF + '/native/shim', '-I' + VERIF + '/native/shim_extract',
         '-isystem', '/usr/include/x86_64-linux-gnu/qt5', '-isystem', '/usr/include/x86_64-linux-gnu/qt5/QtCore',
         '-include', VERIF + '/native/shim_extract/c2v_foreach.h']
CACHE = os.path.join(VERIF, '.cache')


class AstError(Exception):
    pass


def source_hash():
    h = hashlib.sha256()
    for d in ('src/jomlib', 'src/app'):
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            fp = os.path.join(p, f)
            if os.path.isfile(fp):
                h.update(f.encode()); h.update(open(fp, 'rb').read())
    for d in ('shim', 'shim_extract'):
        p = os.path.join(VERIF, 'native', d)
        for f in sorted(os.listdir(p)):
            h.update(open(os.path.join(p, f), 'rb').read())
    h.update(' '.join(FLAGS).encode())
    return h.hexdigest()


def run_clang(src, filt):
    key = hashlib.sha256((source_hash() + REPO + src + '|' + filt).encode()).hexdigest()[:24]
    cf = os.path.join(CACHE, 'ast-' + key + '.json')
    if os.path.exists(cf):
        return open(cf).read()
    app = ['-I' + os.path.join(REPO, 'src/jomlib'), '-DJOM_VERSION_MAJOR=1', '-DJOM_VERSION_MINOR=1', '-DJOM_VERSION_PATCH=4'] if 'src/app/' in src else []
    cmd = [CLANG] + FLAGS + app + ['-fsyntax-only', '-Xclang', '-ast-dump=json']
    if filt:
        cmd += ['-Xclang', '-ast-dump-filter=' + filt]
    cmd += [os.path.join(REPO, src)]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
    if r.returncode != 0:
        raise AstError('clang failed on %s: %s' % (src, r.stderr[-2000:]))
    try:
        os.makedirs(CACHE, exist_ok=True)
        tmp = cf + '.%d' % os.getpid()
        open(tmp, 'w').write(r.stdout)
        os.replace(tmp, cf)
    except OSError:
        pass
    return r.stdout


def parse_docs(text):
    dec = json.JSONDecoder()
    i, n, docs = 0, len(text), []
    while True:
        while i < n and text[i] in ' \r\n\t':
            i += 1
        if i >= n:
            return docs
        if text[i] != '{':
            j = text.find('\n', i)
            i = n if j < 0 else j + 1
            continue
        d, i = dec.raw_decode(text, i)
        docs.append(d)


class TU:
    def __init__(self, src, filters=('NMakeFile',)):
        self.src = src
        self.by_id = {}
        self.funcs = {}      # mangled -> definition node
        self.decl_of = {}    # mangled -> any declaration
        self.records = {}    # qualified class name -> record definition node
        self.enums = {}      # enum constant id -> (name, value)
        self.enum_types = {}
        self.texts = {}
        self.globals = {}
        for f in filters:
            docs = parse_docs(run_clang(src, f))
            st = {'file': None, 'line': None}
            for d in docs:
                st['file'], st['line'] = None, None
                self._locs(d, st)
                self._index(d, [])
        self._finish()

    # --- source locations: clang omits file/line when unchanged
    def _locs(self, n, st):
        if isinstance(n, dict):
            if 'offset' in n and 'col' in n:
                if 'file' in n: st['file'] = n['file']
                if 'line' in n: st['line'] = n['line']
                n['_f'], n['_l'] = st['file'], st['line']
            for k, v in n.items():
                if isinstance(v, (dict, list)) and k not in ('includedFrom', 'type', 'referencedDecl'):
                    self._locs(v, st)
        elif isinstance(n, list):
            for v in n:
                self._locs(v, st)

    def _index(self, n, scope):
        k = n.get('kind', '')
        nm = n.get('name')
        i = n.get('id')
        if k in ('NamespaceDecl',):
            for c in n.get('inner', []):
                self._index(c, scope)
            return
        if k == 'CXXRecordDecl':
            n['_q'] = '::'.join(scope + [nm or '(anon)'])
            self.by_id[i] = n
            if n.get('completeDefinition') and nm:
                self.records[n['_q']] = n
            for c in n.get('inner', []):
                self._index(c, scope + [nm or '(anon)'])
            return
        if k == 'ClassTemplateDecl' or k == 'FunctionTemplateDecl':
            for c in n.get('inner', []):
                if k == 'FunctionTemplateDecl' and c.get('kind') in ('FunctionDecl', 'CXXMethodDecl') and not any(x.get('kind') == 'TemplateArgument' for x in c.get('inner', [])):
                    continue    # the template itself; its instantiations are indexed
                self._index(c, scope)
            return
        if k in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl', 'FunctionDecl'):
            n['_scope'] = scope
            self.by_id[i] = n
            return
        if k == 'EnumDecl':
            val = -1
            for c in n.get('inner', []):
                if c.get('kind') != 'EnumConstantDecl':
                    continue
                v = None
                for e in c.get('inner', []):
                    if e.get('kind') in ('ConstantExpr', 'ImplicitCastExpr') or 'value' in e:
                        v = find_value(e)
                val = val + 1 if v is None else v
                c['_v'] = val
                c['_q'] = '::'.join(scope + ([nm] if nm else []) + [c['name']])
                self.by_id[c['id']] = c
                self.enums[c['id']] = (c['name'], val)
            n['_q'] = '::'.join(scope + [nm or '(anon)'])
            self.enum_types[n['_q']] = n
            self.by_id[i] = n
            return
        if k in ('FieldDecl', 'VarDecl'):
            n['_scope'] = scope
            self.by_id[i] = n
            if k == 'VarDecl':
                self.globals.setdefault(nm, n)
            return

    def _finish(self):
        for i, n in list(self.by_id.items()):
            if n.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl', 'FunctionDecl'):
                sc = n['_scope']
                p = n.get('parentDeclContextId')
                if not sc and p and p in self.by_id and '_q' in self.by_id[p]:
                    sc = self.by_id[p]['_q'].split('::')
                elif not sc and n.get('previousDecl') in self.by_id:
                    sc = self.by_id[n['previousDecl']]['_scope']
                n['_scope'] = sc
                n['_q'] = '::'.join(sc + [n.get('name', '?')])
                m = n.get('mangledName') or n['_q'] + n['type']['qualType']
                n['_m'] = m
                self.decl_of.setdefault(m, n)
                if any(c.get('kind') == 'CompoundStmt' for c in n.get('inner', [])):
                    self.funcs[m] = n

    def text(self, rng):
        b, e = rng['begin'], rng['end']
        b = b.get('expansionLoc', b); e = e.get('expansionLoc', e)
        f = b.get('_f')
        if not f or 'offset' not in b or 'offset' not in e:
            return ''
        if f not in self.texts:
            self.texts[f] = open(f, 'rb').read()
        return self.texts[f][b['offset']:e['offset'] + e.get('tokLen', 0)].decode('latin1')


def find_value(e):
    if 'value' in e:
        try:
            return int(e['value'])
        except ValueError:
            return None
    for c in e.get('inner', []):
        v = find_value(c)
        if v is not None:
            return v
    return None
