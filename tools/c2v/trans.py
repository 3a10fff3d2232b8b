"""c2v: mechanical translation of C++ functions (clang AST) into Verus exec functions.

Everything that cannot be translated faithfully raises Unsupported; nothing is skipped silently
except what is listed in DROPS (reported in the evidence)."""
import re
from .clangast import TU, find_value


class Unsupported(Exception):
    def __init__(self, what, node=None):
        loc = ''
        if node:
            b = node.get('range', {}).get('begin', {})
            b = b.get('expansionLoc', b)
            loc = ' at %s:%s' % (str(b.get('_f')).replace('/repo/', ''), b.get('_l'))
        super().__init__(what + loc)


KEYWORDS = set('''as break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut
pub ref return self Self static struct super trait true type unsafe use where while async await abstract become box do final
macro override priv typeof unsized virtual yield try spec proof exec tracked ghost open closed via when choose forall exists
is has assert assume requires ensures invariant decreases old implies matches global'''.split())

DROPS = [
    'qDebug/Q_ASSERT (compiled out in the shipped build) and output-only calls (puts, fputs, fprintf, printf, qWarning) carry no meaning',
    'const reference parameters and QStringRef are treated as values (snapshots)',
    'foreach iterates over a snapshot of its container (as Qt documents)',
    'destructors of Qt values and memory allocation failure are not modelled; strings longer than 2^30 characters cannot exist',
]

INTS = {'i32': ('i', 32, True), 'u32': ('u', 32, False), 'i64': ('l', 64, True), 'u64': ('m', 64, False),
        'i8': ('c', 8, True), 'u8': ('y', 8, False), 'u16': ('C', 16, False), 'i16': ('h', 16, True)}


class Ty:
    """kind: one of INTS, bool, void, QString, list, set, hash, struct, ptr, eptr, iter, hiter, bytes, other"""
    def __init__(self, kind, args=(), name=None, ref=False, const=False):
        self.kind, self.args, self.name, self.ref, self.const = kind, tuple(args), name, ref, const

    def rust(self):
        k = self.kind
        if k in INTS or k == 'bool': return k
        if k == 'void': return '()'
        if k == 'list': return 'QList<%s>' % self.args[0].rust()
        if k == 'set': return 'QSet<%s>' % self.args[0].rust()
        if k == 'hash': return 'QHash<%s, %s>' % (self.args[0].rust(), self.args[1].rust())
        if k == 'struct': return self.name.replace('::', '_')
        if k == 'mhash': return 'QMultiHash<%s, %s>' % (self.args[0].rust(), self.args[1].rust())
        if k == 'ptr': return 'u64'
        if k == 'eptr': return 'EPtr<%s>' % self.args[0].rust()
        if k == 'hiter': return 'EPtr<%s>' % self.args[0].rust()
        if k == 'iter': return 'i32'
        if k == 'buf': return 'Buf<%s>' % self.args[0].rust()
        return self.name or k

    def code(self):
        k = self.kind
        if k in INTS: return INTS[k][0]
        return {'bool': 'b', 'QString': 'S', 'list': 'L', 'set': 'T', 'hash': 'H', 'ptr': 'P', 'eptr': 'E', 'iter': 'I', 'hiter': 'J',
                'void': 'v', 'QRegExp': 'X', 'QByteArray': 'B', 'cstr': 'Z'}.get(k, self.name.replace('::', '_') if self.name else k)

    def __repr__(self):
        return self.rust()


def strip_name(s):
    return s.replace('NMakeFile::', '').strip()


def split_targs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == '<': d += 1
        if ch == '>': d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    if cur.strip(): out.append(cur.strip())
    return out


BASE = {'int': 'i32', 'unsigned int': 'u32', 'uint': 'u32', 'DWORD': 'u32', 'bool': 'bool', 'char': 'i8', 'signed char': 'i8',
        'unsigned char': 'u8', 'uchar': 'u8', 'unsigned short': 'u16', 'ushort': 'u16', 'short': 'i16', 'long': 'i64', 'unsigned long': 'u64',
        'size_t': 'u64', 'long long': 'i64', 'qint64': 'i64', 'quint64': 'u64', 'unsigned long long': 'u64', 'void': 'void', 'ulong': 'u64',
        'QChar': 'u16', 'QCharRef': 'u16', 'QLatin1Char': 'u16', 'char16_t': 'u16', 'wchar_t': 'u16', 'uint32_t': 'u32',
        'qlonglong': 'i64', 'qulonglong': 'u64', 'quint16': 'u16', 'quint8': 'u8'}
STRS = {'QString', 'QLatin1String', 'QStringRef', 'QStaticStringData'}
ENUM_QT = {'Qt::CaseSensitivity', 'QString::SplitBehavior', 'Qt::SplitBehaviorFlags', 'Qt::SplitBehavior', 'QRegExp::PatternSyntax',
           'QDir::Filter', 'QRegExp::CaretMode', 'QFlags<QString::SectionFlag>', 'QIODevice::OpenModeFlag', 'Qt::SplitBehavior',
           'QString::SplitBehaviorFlags'}


class Program:
    def __init__(self, sources, cfg):
        self.tus = [TU(s if isinstance(s, str) else s[0], ('NMakeFile',) if isinstance(s, str) else s[1]) for s in sources]
        self.cfg = cfg
        self.funcs, self.records, self.enum_types = {}, {}, {}
        self.by_q = {}
        for tu in self.tus:
            for m, n in tu.funcs.items():
                if m not in self.funcs:
                    self.funcs[m] = (tu, n)
                    self.by_q.setdefault(strip_name(n['_q']), []).append(m)
            for q, r in tu.records.items():
                self.records.setdefault(q, (tu, r))
            self.enum_types.update(tu.enum_types)

    # ---------------------------------------------------------------- types
    def ty(self, t, node=None):
        if isinstance(t, dict):
            q = t.get('qualType', '')
            d = t.get('desugaredQualType', q)
            try:
                return self.ty(q, node)
            except Unsupported:
                return self.ty(d, node)
        s = strip_name(t)
        s = re.sub(r'\b(class|struct|enum) ', '', s)
        const = False
        ref = False
        while True:
            s = s.strip()
            if s.endswith('&&'): s = s[:-2]; continue
            if s.endswith('&'): s = s[:-1]; ref = True; continue
            if s.startswith('const '): s = s[6:]; const = True; continue
            if s.endswith(' const'): s = s[:-6]; const = True; continue
            if s.endswith('*const'): s = s[:-5]; const = True; continue
            if s.endswith('__restrict'): s = s[:-10]; continue
            break
        r = self._ty(s, node)
        return Ty(r.kind, r.args, r.name, ref, const)

    def _ty(self, s, node):
        alias = self.cfg.get('types', {})
        if s in alias: return self._ty(alias[s], node)
        if s in self.cfg.get('noise', ()): return Ty('noise', name='Noise')
        if s in BASE: return Ty(BASE[s])
        if s in STRS: return Ty('QString', name='QString')
        if s.startswith('QStringBuilder<'): return Ty('QString', name='QString')
        if s in ('QStringList',): return Ty('list', [Ty('QString', name='QString')])
        if s == 'QVectorOfInt': return Ty('list', [Ty('i32')])
        if s in ENUM_QT: return Ty('i32')
        if s in ('QRegExp', 'QByteArray', 'QFileInfo', 'QFile', 'QTextStream') and s not in self.cfg.get('heap', ()): return Ty(s, name=s)
        if s.startswith('QFlags<'): return Ty('i32', name='flags')
        if s.endswith('*'):
            inner = s[:-1].strip()
            if inner.startswith('const '): inner = inner[6:]
            if inner.endswith(' const'): inner = inner[:-6]
            if inner in ('char', 'wchar_t'): return Ty('cstr', name='QString')
            if inner in self.cfg.get('owned', ()): return self._ty(inner, node)   # sole owner: treated as the object itself
            if inner in self.cfg.get('value_ptrs', ()): return self._ty(inner, node)
            if inner in self.cfg.get('eptr', {}):
                kt = self._ty(self.cfg['eptr'][inner]['key'], node)
                return Ty('eptr', [kt], inner)
            if inner not in self.records:
                full = [c for c in self.records if c.endswith('::' + inner)]
                if len(full) == 1: inner = full[0]
            return Ty('ptr', name=inner)
        m = re.match(r'^(QList|QVector|QStack|QSet|QHash|QMap|QMultiHash)<(.*)>(::(const_)?iterator)?$', s)
        if m and s.endswith('iterator') or (m and not m.group(3)):
            args = [self.ty(a, node) for a in split_targs(m.group(2))]
            if m.group(3):
                if m.group(1) in ('QHash', 'QMap', 'QMultiHash'): return Ty('hiter', args)
                return Ty('iter', args)
            k = {'QSet': 'set', 'QHash': 'hash', 'QMap': 'hash', 'QMultiHash': 'mhash'}.get(m.group(1), 'list')
            return Ty(k, args)
        if s in ('QStringList::iterator', 'QStringList::const_iterator'):
            return Ty('iter', [Ty('QString', name='QString')])
        if s in ('ProcessEnvironment',):
            return Ty('hash', [Ty('QString', name='QString'), Ty('QString', name='QString')])
        if s in ('ProcessEnvironmentKey', 'NMakeFile::ProcessEnvironmentKey') and 'ProcessEnvironmentKey' not in self.cfg.get('structs', ()): return Ty('QString', name='QString')
        for cls in self.records:
            if s == cls or (cls.endswith('::' + s)):
                return Ty('struct', name=cls)
        for e in self.enum_types:
            if s == e or e.endswith('::' + s):
                return Ty('i32')
        if s in self.cfg.get('local_enums', set()): return Ty('i32')
        if re.match(r'^[\w: ]+ \([\w:]+::\*\)\([\w:, ]*\)$', s): return Ty('i32', name='mfp')
        if s in self.cfg.get('opaque', {}): return Ty('opaque', name=s)
        raise Unsupported('type ' + s, node)

    # ---------------------------------------------------------------- functions
    def q(self, m):
        n = self.node_of(m)
        return strip_name(n['_q'])

    def node_of(self, m):
        if m in self.funcs: return self.funcs[m][1]
        for tu in self.tus:
            if m in tu.decl_of: return tu.decl_of[m]
        raise Unsupported('unknown function ' + m)

    def all_decls(self):
        if not hasattr(self, '_all'):
            self._all = {}
            for tu in self.tus:
                for m, n in tu.decl_of.items():
                    self._all.setdefault(strip_name(n['_q']), set()).add(m)
        return self._all

    def codes(self, m, full=False):
        n = self.node_of(m)
        out = []
        for c in n.get('inner', []):
            if c.get('kind') == 'ParmVarDecl':
                try:
                    t = self.ty(c['type'])
                    out.append(t.code() + (':' + strip_name(t.name).split('::')[-1] if full and t.kind == 'ptr' else ''))
                except Unsupported: out.append('q')
        return out

    def lookup(self, name):
        """'Class::fn' or 'Class::fn(codes)' -> mangled"""
        mm = re.match(r'^([\w:~ =\[\]<>]+?)(?:\(([\w,:]*)\))?$', name)
        q, codes = mm.group(1).strip(), mm.group(2)
        c = self.all_decls().get(q, set())
        if codes is not None:
            c = {m for m in c if codes in (','.join(self.codes(m)), ','.join(self.codes(m, True)))}
        if len(c) > 1:
            d = {m for m in c if m in self.funcs}
            if d: c = d
        if len(c) != 1: raise Unsupported('function %s not found (%d candidates)' % (name, len(c)))
        return next(iter(c))

    def taken(self):
        """the member functions whose address is taken in the sources of the unit"""
        if not hasattr(self, '_taken'):
            out = {}
            def walk(x, tu):
                if isinstance(x, dict):
                    if x.get('kind') == 'UnaryOperator' and x.get('opcode') == '&':
                        y = x['inner'][0]
                        if y.get('kind') == 'DeclRefExpr' and y['referencedDecl'].get('kind') == 'CXXMethodDecl':
                            d = tu.by_id.get(y['referencedDecl']['id'])
                            if d is not None and d.get('_m') and '::*)' in x['type']['qualType']: out[d['_m']] = self.mfp_type(x)
                    for c in x.get('inner', []): walk(c, tu)
            for tu in self.tus:
                for f in tu.funcs.values(): walk(f, tu)
            self._taken = {m: out[m] for m in sorted(out)}
        return self._taken

    @staticmethod
    def mfp_type(n): return (n['type'].get('desugaredQualType') or n['type']['qualType']).replace('NMakeFile::', '')

    def fname(self, m):
        q = self.q(m)
        q2 = q
        for a, b in (('operator<=', 'op_le'), ('operator==', 'op_eq'), ('operator!=', 'op_ne'), ('operator<', 'op_lt'), ('operator=', 'op_assign')): q2 = q2.replace(a, b)
        n = re.sub(r'\W+', '_', q2)
        if len(self.all_decls().get(q, ())) > 1:
            cc = self.codes(m)
            same = sum(1 for o in self.all_decls()[q] if self.codes(o) == cc) > 1
            if same: cc = [x.replace(':', '') for x in self.codes(m, True)]
            n += '__' + '_'.join(cc) if cc else '__v'
        if n in KEYWORDS: n += '_'
        return n

    def throws(self, m, stack=()):
        if m in self.throw_cache: return self.throw_cache[m]
        c = self.contracts.get(m)
        if c is not None and 'throws' in c.flags: r = True
        elif c is not None and 'nothrow' in c.flags: r = False
        elif m not in self.funcs: r = False
        elif m in stack: return False
        else:
            tu, n = self.funcs[m]
            r = self._throws(n, tu, stack + (m,))
        if not stack or r: self.throw_cache[m] = r
        return r

    def _throws(self, n, tu, stack):
        if not isinstance(n, dict): return False
        k = n.get('kind')
        if k == 'CXXThrowExpr': return True
        if k == 'CXXTryStmt':
            # the handlers may throw; a handler for everything is not assumed
            if self.catches_all(n): return any(self._throws(c, tu, stack) for c in n.get('inner', [])[1:])
            return any(self._throws(c, tu, stack) for c in n.get('inner', []))
        ref = n.get('referencedDecl', {}).get('id') or n.get('referencedMemberDecl')
        if ref:
            d = tu.by_id.get(ref)
            if d is not None and d.get('_m') and self.throws(d['_m'], stack): return True
            if d is None and n.get('referencedDecl', {}).get('kind') == 'FunctionDecl':
                for mm in self.by_q.get(n['referencedDecl'].get('name'), []):
                    if self.funcs[mm][1]['type']['qualType'] == n['referencedDecl']['type']['qualType'] and self.throws(mm, stack): return True
        return any(self._throws(c, tu, stack) for c in n.get('inner', []) if isinstance(c, dict))

    @staticmethod
    def catches_all(n):
        hs = n.get('inner', [])[1:]
        if len(hs) != 1: return False
        var = [c for c in hs[0].get('inner', []) if c.get('kind') == 'VarDecl']
        return not var or re.sub(r'\b(const|class|struct)\b|&', '', var[0]['type']['qualType']).strip().split('::')[-1] == 'Exception'

    def buf_type(self, cls, name, node):
        """a pointer member that owns an array (cfg bufs: 'Class::member' -> element type)"""
        e = self.cfg.get('bufs', {}).get(cls + '::' + name)
        return Ty('buf', [self._ty(e, node)]) if e else None

    def indirect_type(self, r, name):
        for u in r.get('inner', []):
            if u.get('kind') == 'CXXRecordDecl' and not u.get('name'):
                for f in u.get('inner', []):
                    if f.get('kind') == 'FieldDecl' and f.get('name') == name:
                        try: return self.ty(f['type'])
                        except Unsupported: return None
        return None

    def union_of(self, cls):
        """members of the anonymous union in a struct"""
        r = self.records[cls][1]
        us = [u for u in r.get('inner', []) if u.get('kind') == 'CXXRecordDecl' and not u.get('name') and u.get('tagUsed') == 'union']
        return [f['name'] for u in us for f in u.get('inner', []) if f.get('kind') == 'FieldDecl' and f.get('name')]

    def fields(self, cls):
        if cls in self.cfg.get('nofields', ()): return []
        only = self.cfg.get('fields', {}).get(cls)
        tu, r = self.records[cls]
        out = []
        for b in r.get('bases', []):
            bn = strip_name(b['type']['qualType'])
            if bn in self.records: out += self.fields(bn)
        for c in r.get('inner', []):
            if c.get('kind') == 'IndirectFieldDecl' and c.get('name'):
                t = self.indirect_type(r, c['name'])
                if t is not None: out.append((c['name'], t))
            if c.get('kind') == 'FieldDecl' and c.get('name'):
                if only is not None and c['name'] not in only: continue
                try:
                    t = self.buf_type(cls, c['name'], c) or self.ty(c['type'])
                    if t.kind == 'cstr': continue
                    if t.kind == 'struct' and t.name in self.cfg.get('skip_structs', ()): continue
                    out.append((c['name'], t))
                except Unsupported:
                    pass
        return out


class Path:
    """An lvalue. place: Rust place expression, or None if it needs get/set."""
    def __init__(self, kind, ty, **kw):
        self.kind, self.ty = kind, ty
        self.__dict__.update(kw)

    def place(self):
        if self.kind == 'var': return self.rust
        if self.kind == 'field':
            b = self.base.place()
            return None if b is None else b.strip('*') + '.' + self.name if not b.startswith('*') else b[1:] + '.' + self.name
        return None

    def read(self):
        p = self.place()
        if p is not None: return p
        if self.kind == 'field': return '(%s).%s' % (self.base.read(), self.name)
        if self.kind == 'index': return '%s.at(%s)' % (paren(self.base.read()), self.idx)
        if self.kind == 'bufel': return '%s.at_%s(%s)' % (paren(self.base.read()), self.ic, self.idx)
        if self.kind == 'strch': return '%s.at_i(%s)' % (paren(self.base.read()), self.idx)
        if self.kind == 'helem': return '%s.elem(%s)' % (paren(self.base.read()), self.key)
        if self.kind == 'heap': return 'hp.get_%s(%s)' % (self.cls.replace('::', '_'), self.ptr)
        if self.kind == 'rvalue': return self.code
        raise Unsupported('read of ' + self.kind)

    def write(self, val):
        """Rust statements storing val"""
        p = self.place()
        if p is not None and not getattr(self, 'union', None): return '%s = %s;' % (p, val)
        if re.search(r'\(hp[,)]', val) and self.kind != 'rvalue':     # the value first: its calls may change the object
            t = fresh('wv')
            return '{ let %s = %s; %s }' % (t, val, self.write(t))
        if self.kind == 'field' and getattr(self, 'union', None):     # writing one member of a union leaves the others unspecified
            t = fresh('wb')
            others = ' '.join('%s.%s = nondet_member();' % (t, o) for o in self.union if o != self.name)
            return '{ let mut %s = %s; %s.%s = %s; %s %s }' % (t, self.base.read(), t, self.name, val, others, self.base.write(t))
        if self.kind == 'field':
            t = fresh('wb')
            return '{ let mut %s = %s; %s.%s = %s; %s }' % (t, self.base.read(), t, self.name, val, self.base.write(t))
        if self.kind == 'index':
            return self.base.mutcall(lambda r: '%s.set(%s, %s);' % (r, self.idx, val), stmt=True)
        if self.kind == 'bufel':
            return self.base.mutcall(lambda r: '%s.set_%s(%s, %s);' % (r, self.ic, self.idx, val), stmt=True)
        if self.kind == 'strch':
            return self.base.mutcall(lambda r: '%s.set_i_C(%s, %s);' % (r, self.idx, val), stmt=True)
        if self.kind == 'helem':
            return self.base.mutcall(lambda r: '%s.insert(%s, %s);' % (r, self.key, val), stmt=True)
        if self.kind == 'heap':
            return 'hp.put_%s(%s, %s);' % (self.cls.replace('::', '_'), self.ptr, val)
        if self.kind == 'rvalue': return 'let _ = %s;' % val
        raise Unsupported('write to ' + self.kind)

    def mutcall(self, f, stmt=False):
        """call f(receiver place) that mutates the object; returns an expression (or statement)"""
        p = self.place()
        if p is not None:
            p2 = p[1:] if p.startswith('*') else p
            return f(p2)
        t, r = fresh('m'), fresh('r')
        if stmt:
            return '{ let mut %s = %s; %s %s }' % (t, self.read(), f(t), self.write(t))
        if self.kind == 'rvalue':
            return '{ let mut %s = %s; %s }' % (t, self.read(), f(t))
        return '{ let mut %s = %s; let %s = %s; %s %s }' % (t, self.read(), r, f(t), self.write(t), r)


_fresh = [0]


def fresh(p):
    _fresh[0] += 1
    return '%s__%d' % (p, _fresh[0])


def paren(s):
    if re.match(r'^[\w.]+(\([^()]*\))?$', s): return s
    return '(' + s + ')'


class Contract:
    def __init__(self, key):
        self.key = key
        self.header = ''        # requires/ensures/decreases text
        self.loops = {}         # ordinal -> text
        self.loop_body = {}     # ordinal -> proof text at the start of the body
        self.loop_end = {}
        self.loop_after = {}
        self.loop_before = {}
        self.cases = {}         # ordinal of the switch -> proof text at the end of every case
        self.calls = {}         # (name, ordinal) -> proof text before the statement with that call
        self.posts = {}
        self.entry = ''
        self.exit = ''
        self.attrs = ''
        self.flags = set()
        self.retname = 'res'


WIRING = {'connect', 'invokeMethod'}     # Qt connections and queued calls: not part of the translated code (the units state what is connected)
OUTPUT_ONLY = {'qDebug', 'qWarning', 'puts', 'fputs', 'fprintf', 'printf', 'fflush', 'putc', 'putchar'}


class FnTr:
    def __init__(self, prog, api, contracts, mangled, log=None):
        self.p, self.api, self.contracts = prog, api, contracts
        self.m = mangled
        self.tu, self.node = prog.funcs[mangled]
        self.q = strip_name(self.node['_q'])
        self.c = contracts.get(mangled)
        self.env = {}
        self.visible = set()
        self.loop_no = 0
        self.call_no, self.bound, self.post_q = {}, set(), []
        self.switch_no = 0
        self.loop_stack = []
        self.handlers = []
        self.lines = []
        self.inline_stack = [mangled]
        self.ret = None
        self.iters = {}
        self.called = set()
        self.locals_log = []
        self.uses_heap = 'heap' in (self.c.flags if self.c else ())
        self.may_throw = prog.throws(mangled)
        self.inlined_fns = set()
        self.probe = False
        self.probes = 0

    # ------------------------------------------------------------ output
    def emit(self, s, node=None, ind=0):
        mark = ''
        if node:
            b = node.get('range', {}).get('begin', {})
            b = b.get('expansionLoc', b)
            if b.get('_l'):
                mark = '  //@ %s:%s' % (str(b.get('_f')).split('/repo/')[-1], b['_l'])
        for i, l in enumerate(s.split('\n')):
            self.lines.append('    ' * (self.ind + ind) + l + (mark if i == 0 else ''))

    # ------------------------------------------------------------ names
    def newname(self, n):
        n = re.sub(r'\W', '_', n or 'anon')
        if n in KEYWORDS: n += '_'
        base, k = n, 2
        while n in self.visible:
            n = '%s_%d' % (base, k); k += 1
        self.visible.add(n)
        return n

    # ------------------------------------------------------------ function
    def params(self, node):
        return [c for c in node.get('inner', []) if c.get('kind') == 'ParmVarDecl']

    def body(self, node):
        for c in node.get('inner', []):
            if c.get('kind') == 'CompoundStmt': return c
        raise Unsupported('no body', node)

    def rettype(self, node):
        if node['kind'] in ('CXXConstructorDecl', 'CXXDestructorDecl'): return Ty('void')
        t = node['type']['qualType']
        r = t[:t.index('(')].strip()
        return self.p.ty(r, node)

    def is_method(self, node):
        return node['kind'] in ('CXXMethodDecl', 'CXXConstructorDecl') and self.decl(node).get('storageClass') != 'static'

    def decl(self, node):
        for tu in self.p.tus:
            d = tu.by_id.get(node.get('previousDecl', node['id']))
            if d: return d
        return node

    def is_const(self, node):
        return bool(re.search(r'\)\s*const', node['type']['qualType']))

    def cls(self, node):
        return strip_name('::'.join(node['_scope']))

    def heap_class(self, cls):
        return cls in self.p.cfg.get('heap', ()) or cls in self.p.cfg.get('heap_bases', ())

    def fnname(self, mangled):
        return self.p.fname(mangled)

    def signature(self, spec_only=False):
        n = self.node
        ps = []
        self.copyout = []
        if not hasattr(self, 'copied'): self.copied = set()
        if self.uses_heap: ps.append('hp: &mut Heap')
        for g in self.p.cfg.get('ghost_params', []):
            ps.append(g)
        if self.is_method(n):
            cls = self.cls(n)
            if self.heap_class(cls):
                ps.append('this: u64'); self.visible.add('this')
                self.this = Path('heap', Ty('struct', name=cls), ptr='this', cls=cls)
                self.this_ptr = 'this'
            else:
                ps.append('this: &%s%s' % ('' if self.is_const(n) else 'mut ', cls.replace('::', '_')))
                self.visible.add('this')
                self.this = Path('var', Ty('struct', name=cls), rust='this')
        else:
            self.this = None
        for p in self.params(n):
            t = self.p.ty(p['type'], p)
            nm = self.newname(p.get('name') or 'arg')
            if t.ref and not t.const:
                ps.append('%s: &mut %s' % (nm, t.rust()))
                self.env[p['id']] = Path('var', t, rust='*' + nm)
            else:
                ps.append('%s%s: %s' % ('' if spec_only else 'mut ', nm, t.rust()))
                self.env[p['id']] = Path('var', t, rust=nm)
        rt = self.rettype(n)
        self.rt = rt
        rr = rt.rust()
        if self.may_throw: rr = 'Result<%s, Exc>' % rr
        c = self.c
        s = 'fn %s(%s) -> (%s: %s)' % (self.fnname(self.m), ', '.join(ps), c.retname if c else 'res', rr)
        return s

    def translate(self):
        self.ind = 0
        sig = self.signature()
        if self.c and self.c.attrs: self.emit(self.c.attrs)
        self.emit(sig, self.node)
        self.ind = 1
        if self.c and self.c.header: self.emit(self.c.header)
        self.ind = 0
        self.emit('{')
        self.ind = 1
        if self.c and self.c.entry: self.emit(self.c.entry)
        self.canary('entry')
        self.ctor_inits(self.node)
        self.stmts(self.body(self.node).get('inner', []))
        if self.rt.kind == 'void':
            self.canary('end')
            self.do_exit()
            if self.may_throw: self.emit('Ok(())')
        elif self.lines and not self.lines[-1].strip().startswith('return'):
            pass
        self.ind = 0
        self.emit('}')
        return '\n'.join(self.lines)

    def ctor_inits(self, node, recv=None):
        cls = self.cls(node)
        for c in node.get('inner', []):
            if c.get('kind') != 'CXXCtorInitializer': continue
            f = c.get('anyInit')
            if not f:
                if (c.get('baseInit', {}).get('qualType') or '').strip() == 'QObject': continue
                raise Unsupported('base class initializer', node)
            ft = dict(self.p.fields(cls)).get(f['name'])
            if ft is None: continue         # a field that is not part of the verified state
            e = c['inner'][0]
            k = self.strip(e)['kind']
            code = self.zero(ft) if k == 'ImplicitValueInitExpr' else self.coerce(e, ft)
            if recv is not None: self.emit(Path('field', ft, base=recv, name=f['name']).write(code), c if c.get('loc') else node)
            elif cls in self.p.cfg.get('heap', []):
                k = cls
                self.emit('{ let ini = %s; let mut wb = hp.get_%s(this); wb.%s = ini; hp.put_%s(this, wb); }' % (code, k, f['name'], k), c if c.get('loc') else node)
            else: self.emit('this.%s = %s;' % (f['name'], code), c if c.get('loc') else node)

    def canary(self, what):
        """vacuity probe: an assertion that must fail (if it holds, the hypotheses here are contradictory)"""
        if self.probe:
            self.probes += 1
            self.emit('if nondet_bool() { assert(false); } //#PROBE %s %s' % (self.fnname(self.m), what))

    def do_exit(self):
        if self.c and self.c.exit: self.emit(self.c.exit)

    # ------------------------------------------------------------ statements
    def stmts(self, lst):
        i = 0
        while i < len(lst):
            s = lst[i]
            if self.ret is not None and s.get('kind') == 'IfStmt' and i + 1 < len(lst) and self.has_return(s):
                # structured return elimination inside an inlined function
                self.if_stmt(s, rest=lst[i + 1:])
                return
            self.stmt(s)
            if self.ret is not None and i + 1 < len(lst) and self.has_return(s):
                self.emit('if !%s {' % self.ret['flag'])
                self.ret['useflag'] = True
                self.ind += 1
                self.stmts(lst[i + 1:])
                self.ind -= 1
                self.emit('}')
                return
            i += 1

    def has_return(self, s):
        if not isinstance(s, dict): return False
        if s.get('kind') == 'ReturnStmt': return True
        if s.get('kind') == 'LambdaExpr': return False
        return any(self.has_return(c) for c in s.get('inner', []))

    def always_leaves(self, s):
        k = s.get('kind')
        if k in ('ReturnStmt',): return True
        if k == 'CompoundStmt':
            return bool(s.get('inner')) and self.always_leaves(s['inner'][-1])
        if k == 'IfStmt':
            inn = s['inner']
            return s.get('hasElse') and self.always_leaves(inn[1]) and self.always_leaves(inn[2])
        return False

    def block(self, s):
        saved = set(self.visible)
        self.ind += 1
        if s.get('kind') == 'CompoundStmt':
            self.stmts(s.get('inner', []))
        else:
            self.stmts([s])
        self.ind -= 1
        self.visible = saved

    def stmt(self, s):
        k = s.get('kind')
        f = getattr(self, 's_' + k, None)
        if f: f(s)
        else:
            # expression statement
            code = self.expr_stmt(s)
            if code: self.emit(code, s)
        if self.post_q and k != 'ReturnStmt':
            q, self.post_q = self.post_q, []
            for t in q: self.emit(t)

    def note_call(self, name):
        if self.c is None or not (self.c.calls or self.c.posts): return
        k = self.call_no[name] = self.call_no.get(name, 0) + 1
        if (name, k) in self.c.calls:
            self.bound.add(('call', name, k)); self.emit(self.c.calls[(name, k)])
        if (name, k) in self.c.posts:
            self.bound.add(('post', name, k)); self.post_q.append(self.c.posts[(name, k)])

    def s_NullStmt(self, s): pass

    def s_CompoundStmt(self, s):
        self.emit('{')
        self.block(s)
        self.emit('}')

    def s_IfStmt(self, s): self.if_stmt(s)

    def if_stmt(self, s, rest=None):
        inn = list(s['inner'])
        if s.get('hasInit'): raise Unsupported('if with init', s)
        if s.get('hasVar'):
            self.emit('{'); self.ind += 1
            self.stmt(inn.pop(0))
        c = self.rv(inn[0])
        then, els = inn[1], inn[2] if s.get('hasElse') else None
        self.emit('if %s {' % c, s)
        self.block(then)
        if rest is not None and els is None and self.always_leaves(then):
            self.emit('} else {')
            self.ind += 1
            self.stmts(rest)
            self.ind -= 1
            self.emit('}')
        elif rest is not None:
            if els is not None:
                self.emit('} else {')
                self.block(els)
            self.emit('}')
            self.ret['useflag'] = True
            self.emit('if !%s {' % self.ret['flag'])
            self.ind += 1
            self.stmts(rest)
            self.ind -= 1
            self.emit('}')
        else:
            if els is not None:
                self.emit('} else {')
                self.block(els)
            self.emit('}')
        if s.get('hasVar'):
            self.ind -= 1; self.emit('}')

    def begin_loop(self, s, pre=None):
        self.loop_no += 1
        n = self.loop_no
        lab = "'l%d" % n
        if self.c and n in self.c.loop_before: self.emit(self.c.loop_before[n])
        self.emit('%s: loop' % lab, s)
        if self.c and n in self.c.loops:
            self.emit(self.c.loops[n], ind=1)
        self.emit('{')
        self.loop_stack.append({'label': lab, 'n': n, 'cont': None, 'depth': len(self.inline_stack)})
        return n

    def end_loop(self, n):
        L = self.loop_stack.pop()
        self.emit('};')     # (Verus reads a block right behind a loop as part of its clauses)
        if self.ret is not None and L.get('retinside') and self.loop_stack and self.loop_stack[-1]['depth'] == len(self.inline_stack):
            self.emit('if %s { break %s; }' % (self.ret['flag'], self.loop_stack[-1]['label']))
            self.loop_stack[-1]['retinside'] = True
        if self.c and n in self.c.loop_after: self.emit(self.c.loop_after[n])

    def body_proof(self, n):
        self.canary('loop %d' % n)
        if self.c and n in self.c.loop_body: self.emit(self.c.loop_body[n])

    def end_proof(self, n):
        if self.c and n in self.c.loop_end: self.emit(self.c.loop_end[n])

    def s_WhileStmt(self, s):
        inn = s['inner']
        if s.get('hasVar'): raise Unsupported('while with declaration', s)
        n = self.begin_loop(s)
        self.ind += 1
        self.loop_stack[-1]['cont'] = lambda: self.end_proof(n)
        self.cond_break(inn[0], s)
        self.body_proof(n)
        self.ind -= 1
        self.block(inn[1])
        self.ind += 1
        self.end_proof(n)
        self.ind -= 1
        self.end_loop(n)

    def cond_break(self, cond, s):
        if cond.get('kind') == 'CXXBoolLiteralExpr' and cond.get('value'): return
        self.emit('if !(%s) { break %s; }' % (self.rv(cond), self.loop_stack[-1]['label']), s)

    def jumps(self, n):
        """a break or continue that belongs to the enclosing loop (or anything that hides one)"""
        k = n.get('kind')
        if k in ('BreakStmt', 'ContinueStmt'): return True
        return any(isinstance(c, dict) and self.jumps(c) for c in n.get('inner', []))

    def s_DoStmt(self, s):
        body, cond = s['inner']
        c = self.strip(cond)
        while c.get('kind') == 'ImplicitCastExpr': c = self.strip(c['inner'][0])
        if (c.get('kind') == 'CXXBoolLiteralExpr' and not c['value'] or c.get('kind') == 'IntegerLiteral' and c['value'] == '0') and not self.jumps(body):
            return self.block(body)     # do { } while (0): the body, once
        n = self.begin_loop(s)
        self.ind += 1
        def cont():
            self.end_proof(n)
            self.cond_break(cond, s)
        self.loop_stack[-1]['cont'] = cont
        self.body_proof(n)
        self.ind -= 1
        # locals of the body are not visible in the condition
        self.block(body)
        self.ind += 1
        cont()
        self.ind -= 1
        self.end_loop(n)

    def s_ForStmt(self, s):
        init, var, cond, inc, body = (s['inner'] + [None] * 5)[:5]
        saved = set(self.visible)
        self.emit('{')
        self.ind += 1
        if init and init.get('kind'): self.stmt(init)
        n = self.begin_loop(s)
        self.ind += 1
        def cont():
            self.end_proof(n)
            if inc and inc.get('kind'):
                code = self.expr_stmt(inc)
                self.emit(code, inc)
        self.loop_stack[-1]['cont'] = cont
        if cond and cond.get('kind'): self.cond_break(cond, s)
        self.body_proof(n)
        self.ind -= 1
        self.block(body)
        self.ind += 1
        cont()
        self.ind -= 1
        self.end_loop(n)
        self.ind -= 1
        self.emit('}')
        self.visible = saved

    def s_CXXForRangeStmt(self, s):
        inn = s['inner']
        rng = var = None
        for c in inn:
            if c and c.get('kind') == 'DeclStmt':
                v = c['inner'][0]
                if v.get('name', '').startswith('__range'): rng = v
                elif not v.get('name', '').startswith('__'): var = v
        body = inn[-1]
        init = rng['inner'][0]
        saved = set(self.visible)
        ct, code = self.range_container(init)
        k = self.loop_no + 1
        cn, xn = self.newname('fe%d_c' % k), self.newname('fe%d_i' % k)
        self.emit('{'); self.ind += 1
        if ct.kind == 'set':
            self.emit('let %s = (%s).toList();' % (cn, code), s)
            ct = Ty('list', ct.args)
        elif ct.kind == 'hash':
            self.emit('let %s = (%s).values();' % (cn, code), s)
            ct = Ty('list', [ct.args[1]])
        else:
            self.emit('let %s = %s;' % (cn, code), s)
        if ct.kind != 'list': raise Unsupported('foreach over ' + ct.kind, s)
        self.emit('let mut %s: i32 = 0;' % xn)
        n = self.begin_loop(s)
        self.ind += 1
        def cont():
            self.end_proof(n)
            self.emit('%s = %s + 1;' % (xn, xn))
        self.loop_stack[-1]['cont'] = cont
        self.emit('if !(%s < %s.length()) { break %s; }' % (xn, cn, self.loop_stack[-1]['label']), s)
        vn = self.newname(var['name'])
        vt = ct.args[0]
        if vt.kind == 'struct' and vt.name in self.p.cfg.get('owned', ()):
            self.env[var['id']] = Path('index', vt, base=self.path(self.snapshot_arg(init)), idx=xn)
        else:
            self.emit('let mut %s: %s = %s.at(%s);' % (vn, vt.rust(), cn, xn), s)
            self.env[var['id']] = Path('var', vt, rust=vn)
        self.body_proof(n)
        self.ind -= 1
        self.block(body)
        self.ind += 1
        cont()
        self.ind -= 1
        self.end_loop(n)
        self.ind -= 1
        self.emit('}')
        self.visible = saved

    def snapshot_arg(self, init):
        n = self.strip(init)
        if n.get('kind') == 'CallExpr' and self.strip(n['inner'][0]).get('referencedDecl', {}).get('name') == 'c2v_snapshot': return n['inner'][1]
        return init

    def range_container(self, init):
        n = self.strip(init)
        if n.get('kind') == 'CallExpr':
            callee = self.strip(n['inner'][0])
            if callee.get('referencedDecl', {}).get('name') == 'c2v_snapshot':
                return self.ev(n['inner'][1])[::-1]
        c, t = self.ev(init)
        return t, c

    def s_BreakStmt(self, s):
        self.emit('break %s;' % self.loop_stack[-1]['label'], s)

    def s_ContinueStmt(self, s):
        L = self.loop_stack[-1]
        saved = set(self.visible)
        L['cont']()
        self.visible = saved
        self.emit('continue %s;' % L['label'], s)

    def s_ReturnStmt(self, s):
        inn = s.get('inner', [])
        if self.ret is None:
            if inn and self.rt.kind != 'void':
                self.canary('return')
                code = self.coerce(inn[0], self.rt)
                if self.c and self.c.exit:
                    self.emit('let %s = %s;' % ('ret_v', code), s)
                    self.do_exit(); code = 'ret_v'
            else:
                if inn: self.stmt(inn[0])
                self.do_exit(); code = '()'
            self.emit('return %s;' % ('Ok(%s)' % code if self.may_throw else ('' if code == '()' else code)), s)
            return
        r = self.ret
        if inn and r['ty'].kind != 'void':
            self.emit('%s = %s;' % (r['var'], self.coerce(inn[0], r['ty'])), s)
        elif inn:
            self.stmt(inn[0])
        self.emit('%s = true;' % r['flag'], s)
        if self.loop_stack and self.loop_stack[-1]['depth'] == len(self.inline_stack):
            r['useflag'] = True
            self.loop_stack[-1]['retinside'] = True
            self.emit('break %s;' % self.loop_stack[-1]['label'])

    def s_DeclStmt(self, s):
        for v in s.get('inner', []):
            k = v.get('kind')
            if k == 'VarDecl': self.var_decl(v, s)
            elif k == 'EnumDecl': self.local_enum(v)
            elif k in ('TypedefDecl', 'StaticAssertDecl', 'UsingDecl', 'TypeAliasDecl'): pass
            else: raise Unsupported('local ' + str(k), s)

    def local_enum(self, n):
        val = -1
        for c in n.get('inner', []):
            if c.get('kind') == 'EnumConstantDecl':
                v = None
                for e in c.get('inner', []): v = find_value(e)
                val = val + 1 if v is None else v
                self.env[c['id']] = Path('rvalue', Ty('i32'), code='%di32' % val)
        self.p.cfg.setdefault('local_enums', set()).add(n.get('name'))

    def var_decl(self, v, s):
        t = self.p.ty(v['type'], v)
        inner = [c for c in v.get('inner', []) if c.get('kind') not in ('FullComment',)]
        init = inner[0] if inner else None
        if t.kind == 'noise':
            if init: self.no_effects(init)
            self.env[v['id']] = Path('rvalue', t, code='Noise {}'); return
        if init is not None and self.p.cfg.get('bufs') and v['type']['qualType'].rstrip().endswith('*'):
            bp = self.bufptr(init)
            if bp is not None:
                if not self.never_assigned(v): raise Unsupported('pointer into an array that changes', s)
                base, off = bp
                if off is not None:
                    nm = self.newname(v['name']); self.emit('let %s: u64 = %s;' % (nm, off), s); off = nm
                self.env[v['id']] = Path('bufptr', Ty('ptr', name='?'), base=base, off=off); return
        qt = v['type']['qualType']
        self.locals_log.append((v['name'], t.rust()))
        if t.ref or qt.replace('const ', '').strip() == 'QCharRef':
            p = self.path(init)
            if t.const and p.kind == 'rvalue' or (t.const and t.kind in INTS and p.kind not in ('strch',)):
                pass
            else:
                self.env[v['id']] = self.freeze(p)
                return
        if t.kind in ('iter',):
            cont = self.iter_container(init)
            self.iters[v['id']] = cont
        if t.kind == 'hiter':
            self.iters[v['id']] = self.iter_container(init)
        if init is None:
            code = self.default(t)
        else:
            code = self.coerce(init, t)
        nm = self.newname(v['name'])
        self.emit('let mut %s: %s = %s;' % (nm, t.rust(), code), s)
        self.env[v['id']] = Path('var', t, rust=nm)

    def default(self, t):
        if t.kind == 'noise': return 'Noise {}'
        if t.kind in INTS: return 'nondet_%s()' % t.kind
        if t.kind == 'bool': return 'nondet_bool()'
        if t.kind == 'ptr': return 'nondet_u64()'
        if t.kind in ('iter',): return 'nondet_i32()'
        if t.kind == 'list': return 'QList::new()'
        if t.kind == 'set': return 'QSet::new()'
        if t.kind == 'mhash': return 'QMultiHash::new()'
        if t.kind == 'hash': return 'QHash::new()'
        if t.kind == 'struct': return self.struct_default(t.name)
        if t.kind in ('eptr', 'hiter'): return 'EPtr::nondet()'
        return '%s::new()' % t.rust()

    def struct_default(self, cls):
        cd = self.p.cfg.get('struct_default', {})
        if cls in cd: return cd[cls]
        tu, r = self.p.records[cls]
        # default member initialisers and default constructors of the fields; a user-provided constructor
        # must be configured explicitly
        inits = {}
        users = [c for c in r.get('inner', []) if c.get('kind') == 'CXXConstructorDecl' and not c.get('isImplicit') and not c.get('explicitlyDefaulted')]
        if users:
            # a constructor without parameters and without a body: its initialisers
            d = [c for c in users if not any(x.get('kind') == 'ParmVarDecl' for x in c.get('inner', []))]
            if len(d) == 1 and d[0].get('mangledName') in self.p.funcs: d = [self.p.node_of(d[0]['mangledName'])]
            body = [x for x in (d[0].get('inner', []) if d else []) if x.get('kind') == 'CompoundStmt']
            if len(d) != 1 or len(body) != 1 or body[0].get('inner'): raise Unsupported('user constructor of ' + cls)
            for x in d[0]['inner']:
                if x.get('kind') == 'CXXCtorInitializer' and x.get('anyInit', {}).get('name'): inits[x['anyInit']['name']] = x['inner'][0]
        vals = []
        for f, t in self.p.fields(cls):
            if f in inits:
                vals.append('%s: %s' % (f, self.coerce(inits[f], t)))
                continue
            fd = [c for c in r['inner'] if c.get('kind') == 'FieldDecl' and c.get('name') == f]
            if fd and fd[0].get('hasInClassInitializer') and fd[0].get('inner'):
                vals.append('%s: %s' % (f, self.coerce(fd[0]['inner'][0], t)))
            else:
                vals.append('%s: %s' % (f, self.default(t)))
        return '%s { %s }' % (cls.replace('::', '_'), ', '.join(vals))

    def freeze(self, p):
        """make the index expressions of an alias path stable"""
        if p.kind == 'field': return Path('field', p.ty, base=self.freeze(p.base), name=p.name)
        if p.kind in ('index', 'strch'):
            b = self.freeze(p.base)
            idx = p.idx
            if not re.match(r'^-?\d+i32$', idx):
                t = self.newname('ix')
                self.emit('let %s = %s;' % (t, idx))
                idx = t
            return Path(p.kind, p.ty, base=b, idx=idx)
        if p.kind == 'bufel':
            b = self.freeze(p.base)
            t = self.newname('ix'); self.emit('let %s = %s;' % (t, p.idx))
            return Path('bufel', p.ty, base=b, idx=t, ic=p.ic)
        if p.kind == 'helem':
            b = self.freeze(p.base)
            t = self.newname('kx'); self.emit('let %s = %s;' % (t, p.key))
            return Path('helem', p.ty, base=b, key=t)
        if p.kind == 'heap':
            if re.match(r'^\w+$', p.ptr) and p.ptr in ('this',): return p
            t = self.newname('px'); self.emit('let %s = %s;' % (t, p.ptr))
            return Path('heap', p.ty, ptr=t, cls=p.cls)
        if p.kind == 'rvalue':
            t = self.newname('rx'); self.emit('let mut %s = %s;' % (t, p.code))
            return Path('var', p.ty, rust=t)
        return p

    def s_SwitchStmt(self, s):
        inn = [c for c in s['inner'] if c]
        cond, body = inn[0], inn[-1]
        sv = self.newname('sw')
        self.switch_no += 1
        no = self.switch_no
        c, t = self.ev(cond)
        self.emit('let %s = %s;' % (sv, c), s)
        # flatten: list of (labels, [stmts])
        items = []
        def flat(n):
            k = n.get('kind')
            if k == 'CaseStmt':
                items.append(('case', self.rv(n['inner'][0])))
                flat(n['inner'][-1])
            elif k == 'DefaultStmt':
                items.append(('default', None))
                flat(n['inner'][-1])
            else:
                items.append(('stmt', n))
        for c0 in body.get('inner', []): flat(c0)
        groups = []
        cur = None
        for kind, x in items:
            if kind in ('case', 'default'):
                if cur is None or cur[1]:
                    cur = ([], []); groups.append(cur)
                cur[0].append(x if kind == 'case' else None)
            else:
                cur[1].append(x)
        def run(i):
            """statements executed when control enters at group i"""
            out = []
            for g in groups[i:]:
                for st in g[1]:
                    out.append(st)
                    if self.leaves_switch(st): return out
            return out
        self.switch_guard(groups, s)
        default = None
        first = True
        for i, (labels, sts) in enumerate(groups):
            if None in labels: default = i
            ls = [l for l in labels if l is not None]
            if not ls or (None in labels): 
                if None in labels: continue
            self.emit('%sif %s {' % ('' if first else '} else ', ' || '.join('%s == %s' % (sv, l) for l in ls)))
            first = False
            self.switch_body(run(i), no)
        if default is not None:
            if first:
                self.emit('{')
            else:
                self.emit('} else {')
            first = False
            self.switch_body(run(default), no)
        if not first: self.emit('}')

    def switch_guard(self, groups, s): pass

    def leaves_switch(self, st):
        k = st.get('kind')
        if k in ('BreakStmt', 'ReturnStmt', 'ContinueStmt', 'CXXThrowExpr'): return True
        if k == 'ExprWithCleanups' and st['inner'][0].get('kind') == 'CXXThrowExpr': return True
        if k == 'CompoundStmt':
            return any(self.leaves_switch(c) for c in st.get('inner', []))
        if k == 'IfStmt' and st.get('hasElse'):
            return self.leaves_switch(st['inner'][1]) and self.leaves_switch(st['inner'][2])
        return False

    def switch_body(self, sts, no):
        saved = set(self.visible)
        self.ind += 1
        out = []
        for st in sts:
            if st.get('kind') == 'BreakStmt': break
            if st.get('kind') == 'CompoundStmt':
                inner = []
                for c in st.get('inner', []):
                    if c.get('kind') == 'BreakStmt': break
                    inner.append(c)
                st = dict(st); st['inner'] = inner
            out.append(st)
        for st in out:
            self.check_no_switch_break(st)
        self.stmts(out)
        if self.c and no in self.c.cases and not (out and self.always_leaves(out[-1])): self.emit(self.c.cases[no])
        self.ind -= 1
        self.visible = saved

    def check_no_switch_break(self, n):
        k = n.get('kind')
        if k == 'BreakStmt': raise Unsupported('break nested in a switch case', n)
        if k in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt', 'SwitchStmt', 'LambdaExpr'): return
        for c in n.get('inner', []):
            if isinstance(c, dict): self.check_no_switch_break(c)

    def s_CXXTryStmt(self, s):
        """a handler of every exception that always leaves the function is executed where the exception arises"""
        body, hs = s['inner'][0], s['inner'][1:]
        if len(hs) != 1: raise Unsupported('several handlers', s)
        h = hs[0]
        var = [c for c in h['inner'] if c.get('kind') == 'VarDecl']
        blk = [c for c in h['inner'] if c.get('kind') == 'CompoundStmt'][-1]
        if var:
            q = re.sub(r'\b(const|class|struct)\b|&', '', var[0]['type']['qualType']).strip().split('::')[-1]
            if q != 'Exception': raise Unsupported('handler of ' + q, s)
            used = []
            def walk(x):
                if isinstance(x, dict):
                    if x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] == var[0]['id']: used.append(x)
                    if x.get('kind') == 'CallExpr' and self.callee_name(x) in OUTPUT_ONLY: return
                    for c in x.get('inner', []): walk(c)
            walk(blk)
            if used: raise Unsupported('handler that looks at the exception', s)
        top = [c for c in self.node.get('inner', []) if c.get('kind') == 'CompoundStmt']
        if self.ret is None and top and top[0].get('inner') and top[0]['inner'][-1] is s and not self.always_leaves(blk) and self.node['type']['qualType'].startswith('void '):
            blk = dict(blk, inner=blk.get('inner', []) + [{'kind': 'ReturnStmt', 'range': s.get('range', {})}])     # the end of the handler is the end of the function
        if self.ret is not None or not self.always_leaves(blk): raise Unsupported('handler that does not leave the function', s)
        def thrown(x):
            return isinstance(x, dict) and (x.get('kind') == 'CXXThrowExpr' or any(thrown(c) for c in x.get('inner', [])))
        if thrown(body): raise Unsupported('throw inside try', s)
        self.handlers.append((blk, len(self.inline_stack)))
        saved_mt = self.may_throw
        self.block(body)
        self.handlers.pop()

    # ------------------------------------------------------------ expressions
    TRANSPARENT = {'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr',
                   'SubstNonTypeTemplateParmExpr'}

    def strip(self, n):
        while True:
            k = n.get('kind')
            if k in self.TRANSPARENT: n = n['inner'][0]; continue
            if k in ('ImplicitCastExpr', 'CXXFunctionalCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXConstCastExpr') and n.get('castKind') in (
                    'NoOp', 'LValueToRValue', 'ConstructorConversion', 'UserDefinedConversion', 'FunctionToPointerDecay',
                    'DerivedToBase', 'UncheckedDerivedToBase', 'ArrayToPointerDecay', 'BuiltinFnToFnPtr'):
                n = n['inner'][0]; continue
            return n

    def ev(self, n):
        """-> (rust expression, Ty)"""
        if n.get('kind') == 'ImplicitCastExpr' and n.get('castKind') == 'LValueToRValue': self.no_alias(n)
        if self.is_noise(n): return 'Noise {}', Ty('noise', name='Noise')
        n = self.strip(n)
        k = n['kind']
        f = getattr(self, 'e_' + k, None)
        if not f: raise Unsupported('expression ' + k, n)
        r = f(n)
        if isinstance(r, Path):
            if r.kind == 'addr': return '&?', Ty('ptr', name='&')      # only usable as an out argument
            return r.read(), r.ty
        return r

    def no_alias(self, n):
        q = n['type'].get('desugaredQualType', n['type']['qualType'])
        if q.endswith('*') and strip_name(q[:-1].replace('const ', '').strip()).split('::')[-1] in self.p.cfg.get('owned', ()):
            raise Unsupported('a second pointer to an owned object', n)

    def rv(self, n): return self.ev(n)[0]

    def is_noise(self, n):
        """a value of a type the unit does not look into (texts built for messages): only its operands' side effects would matter"""
        noise = self.p.cfg.get('noise')
        if not noise: return False
        t = n.get('type', {})
        if not any(re.sub(r'^const |\s*&$', '', t.get(q, '')).strip().split('::')[-1] in noise for q in ('qualType', 'desugaredQualType')): return False
        self.no_effects(n)
        return True

    def no_effects(self, n):
        k = n.get('kind')
        if k in ('CompoundAssignOperator', 'CXXNewExpr', 'CXXDeleteExpr', 'CXXThrowExpr', 'LambdaExpr') or (k == 'BinaryOperator' and n.get('opcode') == '=') or (k == 'UnaryOperator' and n.get('opcode') in ('++', '--')):
            raise Unsupported('effect inside a text', n)
        if k in ('CXXMemberCallExpr', 'CallExpr'):
            c = self.strip(n['inner'][0])
            rid = c.get('referencedMemberDecl') or c.get('referencedDecl', {}).get('id')
            d = self.tu.by_id.get(rid)
            qt = (d or {}).get('type', {}).get('qualType', c.get('referencedDecl', {}).get('type', {}).get('qualType', ''))
            m = (d or {}).get('mangledName', '')
            if not (qt.endswith(' const') or re.match(r'_ZNK?\d*Q|_ZNK?1[0-9]Q|_Z\d+q', m) or (c.get('kind') == 'MemberExpr' and self.is_qt_object(c['inner'][0])) or (not d and (c.get('name') or c.get('referencedDecl', {}).get('name', '')) in ('toNativeSeparators', 'current', 'number', 'currentPath', 'toLocal8Bit'))):
                raise Unsupported('effect inside a text: ' + str(c.get('name') or c.get('referencedDecl', {}).get('name')), n)
        for x in n.get('inner', []):
            if isinstance(x, dict): self.no_effects(x)

    def is_qt_object(self, n):
        t = re.sub(r'^const |\s*[&*]$', '', n.get('type', {}).get('qualType', '')).strip()
        return bool(re.match(r'Q[A-Z]\w*$', t)) or t.split('::')[-1] in self.p.cfg.get('noise', ())

    def path(self, n):
        if self.is_noise(n): return Path('rvalue', Ty('noise', name='Noise'), code='Noise {}')
        n = self.strip(n)
        f = getattr(self, 'e_' + n['kind'], None)
        if not f: raise Unsupported('expression ' + n['kind'], n)
        r = f(n)
        if isinstance(r, Path): return r
        return Path('rvalue', r[1], code=r[0])

    def coerce(self, n, t):
        c, ct = self.ev(n)
        return self.conv(c, ct, t, n)

    def conv(self, c, ct, t, n=None):
        if ct.kind == t.kind or t.kind == 'void': return c
        if t.kind == 'noise': return 'Noise {}'
        if t.kind == 'bool' and ct.kind in INTS: return '(%s != 0)' % c
        if t.kind in INTS and ct.kind in INTS: return self.intcast(c, ct.kind, t.kind)
        if t.kind == 'QString' and ct.kind == 'u16': return 'QString::from_C(%s)' % c
        if t.kind == 'QString' and ct.kind == 'cstr': return c
        if t.kind == 'cstr' and ct.kind == 'QString': return c
        if t.kind == 'QByteArray' and ct.kind == 'cstr': return 'QByteArray::new_Z(%s)' % c
        if t.kind in INTS and ct.kind == 'bool': return '(if %s { 1%s } else { 0%s })' % (c, t.kind, t.kind)
        if t.kind == 'ptr' and ct.kind in ('i32', 'i64'): return '0u64'
        if t.kind == 'buf' and ct.kind in ('i32', 'ptr') and re.match(r'^0(i32|u64)$', c): return 'Buf::null()'
        if t.kind == 'eptr' and (ct.kind in ('i32', 'ptr')): return 'EPtr::null()'
        if t.kind == 'ptr' and ct.kind == 'ptr': return c
        if t.kind in ('iter', 'i32') and ct.kind in ('iter', 'i32'): return c
        if t.kind == 'struct' and ct.kind == 'struct': return c
        raise Unsupported('conversion %s -> %s' % (ct, t), n)

    def intcast(self, c, a, b):
        if a == b: return c
        sa, sb = INTS[a], INTS[b]
        m = re.match(r'^(-?\d+)(i32|u32|i8|u8|i64|u64|u16)$', c)
        if m:
            v = int(m.group(1)) & ((1 << sb[1]) - 1)
            if sb[2] and v >> (sb[1] - 1): v -= 1 << sb[1]
            return '%d%s' % (v, b) if v >= 0 else '(%d%s)' % (v, b)
        if sb[1] > sa[1] and (sb[2] or not sa[2]): return '(%s as %s)' % (c, b)
        return 'cast_%s_%s(%s)' % (a, b, c)

    def e_IntegerLiteral(self, n):
        t = self.p.ty(n['type'], n)
        return '%s%s' % (n['value'], t.kind), t

    def e_CharacterLiteral(self, n):
        t = self.p.ty(n['type'], n)
        v = n['value']
        if t.kind == 'i8' and v > 127: v -= 256
        return ('%d%s' % (v, t.kind), t)

    def e_CXXBoolLiteralExpr(self, n): return ('true' if n['value'] else 'false'), Ty('bool')
    def e_CXXNullPtrLiteralExpr(self, n): return '0u64', Ty('ptr', name='?')
    def e_GNUNullExpr(self, n): return '0u64', Ty('ptr', name='?')

    def e_StringLiteral(self, n):
        import ast
        v = n['value']
        s = c_string(v)
        return lit(s), Ty('cstr', name='QString')

    def e_CXXThisExpr(self, n):
        if self.this is None: raise Unsupported('this', n)
        if self.this.kind == 'heap': return self.this.ptr, Ty('ptr', name=self.this.cls)
        return Path('thisptr', Ty('ptr', name=self.this.ty.name), target=self.this)

    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        if d['id'] in self.env:
            return self.env[d['id']]
        if d['kind'] == 'EnumConstantDecl':
            for tu in self.p.tus:
                if d['id'] in tu.enums and tu is self.tu_cur():
                    return '%di32' % tu.enums[d['id']][1], Ty('i32')
            vs = {v for tu in self.p.tus if tu is self.tu_cur() for nm, v in tu.enums.values() if nm == d['name']}
            if len(vs) == 1 and d['name'] not in self.p.cfg.get('qt_enums', ()): return '%di32' % vs.pop(), Ty('i32')
            txt = self.tu_cur().text(n['range'])
            return 'E_' + re.sub(r'\W+', '_', strip_name(txt)) + '()', Ty('i32')
        if d['kind'] in ('VarDecl',):
            txt = d['name']
            if txt in self.p.cfg.get('globals', {}):
                g = self.p.cfg['globals'][txt]
                if g[1] == 'heapobj':   # a global object living on the heap
                    return Path('heap', Ty('struct', name=g[2]), ptr=g[0], cls=g[2])
                if g[1] == 'globalstruct':   # a mutable global object, passed along as a parameter
                    return Path('var', Ty('struct', name=g[2]), rust='*' + g[0])
                if g[1] == 'globalvar': return Path('var', self.p.ty(g[2]), rust='*' + g[0])   # a mutable global variable, passed along as a parameter
                return g[0], self.p.ty(g[1])
            # constant globals / statics with an initialiser we can evaluate
            tu = self.tu_cur()
            g = tu.by_id.get(d['id']) or tu.globals.get(d['name'])
            defs = [x for x in tu.by_id.values() if x.get('kind') == 'VarDecl' and x.get('name') == d['name'] and x.get('init')]
            if defs and 'const' in d['type']['qualType']:
                dd = defs[-1]
                return self.coerce(dd['inner'][0], self.p.ty(dd['type'])), self.p.ty(dd['type'])
            raise Unsupported('global variable ' + d['name'], n)
        raise Unsupported('reference to %s %s' % (d['kind'], d.get('name')), n)

    def tu_cur(self): return self.tu

    def e_MemberExpr(self, n):
        base = n['inner'][0]
        name = n.get('name', '')
        if not name: return self.deref(base) if n.get('isArrow') else self.path(base)     # an anonymous member
        if self.this is not None and self.this.kind == 'fobj' and self.strip(base).get('kind') == 'CXXThisExpr':
            if name not in self.this.fields: raise Unsupported('field ' + name, n)
            return self.this.fields[name]
        mt = None
        if not self.p.cfg.get('bufs') and not n['type']['qualType'].endswith('*') : mt = self.p.ty(n['type'], n)
        if n.get('isArrow'):
            b = self.deref(base)
        else:
            b = self.path(base)
        if mt is None: mt = (self.p.buf_type(b.ty.name, name, n) if b.ty.kind == 'struct' else None) or self.p.ty(n['type'], n)
        if b.ty.kind == 'struct' or b.kind == 'heap':
            pass
        elif b.ty.kind != 'struct':
            raise Unsupported('member %s of %s' % (name, b.ty), n)
        if not any(f == name for f, _ in self.p.fields(b.ty.name)):
            raise Unsupported('field %s::%s' % (b.ty.name, name), n)
        r = Path('field', mt, base=b, name=name)
        u = self.p.union_of(b.ty.name)
        if name in u: r.union = u
        return r

    def deref(self, n):
        """path of *n"""
        s = self.strip(n)
        r = getattr(self, 'e_' + s['kind'], None)
        if r is None: raise Unsupported('pointer expression ' + s['kind'], s)
        v = r(s)
        if isinstance(v, Path) and v.kind == 'thisptr': return v.target
        if isinstance(v, Path) and v.ty.kind == 'ptr' and v.kind == 'addr': return v.target
        if isinstance(v, Path) and v.ty.kind == 'struct' and v.ty.name in self.p.cfg.get('owned', ()): return v
        if isinstance(v, Path) and v.ty.kind in ('hash', 'ptr') and strip_name(re.sub(r'^const | const$', '', s['type'].get('qualType', '')[:-1].strip())).split('::')[-1] in self.p.cfg.get('owned', ()): return v
        if (v.ty if isinstance(v, Path) else v[1]).name in self.p.cfg.get('value_ptrs', ()): return v
        code, t = (v.read(), v.ty) if isinstance(v, Path) else v
        if t.kind == 'ptr':
            if not self.heap_class(t.name):
                g = self.p.cfg.get('embedded', {}).get(t.name)
                if g:
                    return self.embedded(g, t, s)
                raise Unsupported('dereference of %s*' % t.name, n)
            self.uses_heap = True
            return Path('heap', Ty('struct', name=t.name), ptr=code, cls=t.name)
        if t.kind == 'eptr':
            cfg = self.p.cfg['eptr'][t.name]
            self.emit_pending('proof { assert(%s.nn@); }' % code)
            return Path('helem', Ty('struct', name=self.p._ty(t.name, n).name), base=self.expr_path(cfg['container']), key='%s.key' % paren(code))
        if t.kind == 'iter':
            c = self.iter_of(s)
            return Path('index' , t.args[0], base=c, idx=code)
        raise Unsupported('dereference of ' + t.kind, n)

    def embedded(self, g, t, n):
        """pointer member treated as the object it points to: 'this.m_x' owned exclusively"""
        p = self.path(n)
        raise Unsupported('embedded', n)

    def emit_pending(self, s): pass

    def expr_path(self, text):
        """'this.m_macros' -> Path"""
        parts = text.split('.')
        assert parts[0] == 'this'
        p = self.this
        for f in parts[1:]:
            t = dict(self.p.fields(p.ty.name))[f]
            p = Path('field', t, base=p, name=f)
        return p

    # iterators ---------------------------------------------------------
    def iter_container(self, init):
        s = self.strip(init)
        while s.get('kind') == 'CXXConstructExpr' and len(s.get('inner', [])) == 1:
            s = self.strip(s['inner'][0])
        if s.get('kind') == 'CXXMemberCallExpr':
            me = self.strip(s['inner'][0])
            return self.path(me['inner'][0])
        if s.get('kind') == 'DeclRefExpr':
            return self.iters[s['referencedDecl']['id']]
        raise Unsupported('iterator initialiser', init)

    def iter_of(self, s):
        s = self.strip(s)
        if s.get('kind') == 'DeclRefExpr':
            return self.iters[s['referencedDecl']['id']]
        if s.get('kind') == 'UnaryOperator' or s.get('kind') == 'CXXOperatorCallExpr':
            return self.iter_of(s['inner'][-1] if s['kind'] == 'UnaryOperator' else s['inner'][1])
        raise Unsupported('iterator expression', s)

    # calls ---------------------------------------------------------------
    def expr_stmt(self, n):
        s = self.strip(n)
        k = s['kind']
        if self.is_noise(s): return ''
        if k == 'CXXMemberCallExpr' and self.p.cfg.get('noise') and self.strip(s['inner'][0]).get('kind') == 'MemberExpr' and self.is_noise(self.strip(s['inner'][0])['inner'][0]):
            for x in s['inner']: self.no_effects(x)
            return ''
        if k == 'BinaryOperator' and s['opcode'] == '=':
            return self.assign(s)
        if k == 'CompoundAssignOperator':
            return self.compound(s)
        if k == 'UnaryOperator' and s['opcode'] in ('++', '--'):
            p = self.path(s['inner'][0])
            return p.write('%s %s 1' % (p.read(), s['opcode'][0]) if p.ty.kind in ('i32', 'iter', 'i64') else
                           '%s.wrapping_%s(1)' % (p.read(), 'add' if s['opcode'] == '++' else 'sub'))
        if k == 'CXXOperatorCallExpr':
            r = self.op_call(s, stmt=True)
            c = r.read() if isinstance(r, Path) else r[0]
            return c if c.endswith(';') else c + ';'
        if k == 'CXXThrowExpr':
            return self.throw(s)
        if k == 'CStyleCastExpr' and s.get('castKind') == 'ToVoid':
            return self.expr_stmt(s['inner'][0]) if self.strip(s['inner'][0])['kind'] not in ('DeclRefExpr',) else ''
        if k == 'CXXStaticCastExpr' and s.get('castKind') == 'ToVoid':    # Q_ASSERT of the shipped build: (void)(false && ...)
            o = self.strip(s['inner'][0])
            if o['kind'] == 'BinaryOperator' and o['opcode'] == '&&' and self.strip(o['inner'][0]).get('kind') == 'CXXBoolLiteralExpr' and not self.strip(o['inner'][0])['value']: return ''
            return self.expr_stmt(o)
        if k == 'CXXDeleteExpr':
            p = self.ev(s['inner'][0])
            if p[1].name in self.p.cfg.get('value_ptrs', ()): return ''
            if not self.heap_class(p[1].name): raise Unsupported('delete', s)
            return 'hp.del_%s(%s);' % (p[1].name.replace('::', '_'), p[0])
        if k in ('CallExpr', 'CXXMemberCallExpr'):
            nm = self.callee_name(s)
            if nm in OUTPUT_ONLY: return ''
        if k == 'ConditionalOperator':
            c, a, b = s['inner']
            return 'if %s { %s } else { %s }' % (self.rv(c), self.expr_stmt(a), self.expr_stmt(b))
        if k in ('DeclRefExpr', 'IntegerLiteral'): return ''
        if k == 'BinaryOperator' and s['opcode'] == ',':
            return self.expr_stmt(s['inner'][0]) + ' ' + self.expr_stmt(s['inner'][1])
        r = getattr(self, 'e_' + k, None)
        if not r: raise Unsupported('statement ' + k, s)
        r = r(s)
        if isinstance(r, Path):
            if r.kind == 'rvalue': return r.code + ';'
            if r.kind == 'chain': return r.code0 + ';'
            if r.kind in ('var', 'field', 'index', 'strch', 'thisptr', 'addr', 'helem', 'heap', 'func'): return ''
            raise Unsupported('statement value ' + r.kind, s)
        c = r[0]
        return c if c.endswith(';') else c + ';'

    def callee_name(self, s):
        c = self.strip(s['inner'][0])
        return c.get('referencedDecl', {}).get('name') or c.get('name')

    def assign(self, s):
        l = self.strip(s['inner'][0])
        if l.get('kind') == 'MemberExpr': self.note_call('=' + l['name'])
        elif l.get('kind') == 'DeclRefExpr': self.note_call('=' + l['referencedDecl']['name'])
        l, r = s['inner']
        p = self.path(l)
        if p.ty.kind in ('iter',):
            pass
        return p.write(self.coerce(r, p.ty))

    def arith(self, op, a, ta, b, tb, n, rt):
        if op in ('<<', '>>') and rt.kind == 'i32' and self.p.cfg.get('overflow') == 'unspecified':
            return 'i32_%s(%s, %s)' % ('shl' if op == '<<' else 'shr', a, b)
        if op in ('<<', '>>') :
            return 'shift_%s_%s(%s, %s)' % ('shl' if op == '<<' else 'shr', rt.kind, a, b)
        if rt.kind in ('u32', 'u64', 'u16', 'u8') and op in '+-*':
            return '%s.wrapping_%s(%s)' % (paren(a), {'+': 'add', '-': 'sub', '*': 'mul'}[op], b)
        if op in '/%' and rt.kind in ('i32', 'i64'):
            return '%s_%s(%s, %s)' % ('cdiv' if op == '/' else 'crem', rt.kind, a, b)
        if self.p.cfg.get('overflow') == 'unspecified' and rt.kind == 'i32' and op in '+-*':
            return 'i32_%s(%s, %s)' % ({'+': 'add', '-': 'sub', '*': 'mul'}[op], a, b)
        return '(%s %s %s)' % (a, op, b)

    def compound(self, s):
        l, r = s['inner']
        p = self.path(l)
        op = s['opcode'][:-1]
        rt = self.p.ty(s.get('computeResultType', s['type']), s)
        b, tb = self.ev(r)
        a = self.conv(p.read(), p.ty, rt)
        b = self.conv(b, tb, rt) if op not in ('<<', '>>') else b
        return p.write(self.conv(self.arith(op, a, p.ty, b, tb, s, rt), rt, p.ty))

    def e_BinaryOperator(self, n):
        op = n['opcode']
        if op == '=':
            p = self.path(n['inner'][0])
            return '{ %s %s }' % (p.write(self.coerce(n['inner'][1], p.ty)), p.read()), p.ty
        if op == ',':
            c, t = self.ev(n['inner'][1])
            return '{ %s %s }' % (self.expr_stmt(n['inner'][0]), c), t
        if op in ('&&', '||'):
            a, ta = self.ev(n['inner'][0])
            mark = len(self.lines)
            b, tb = self.ev(n['inner'][1])
            if len(self.lines) > mark:
                hoisted = self.lines[mark:]
                del self.lines[mark:]
                t = self.newname('sc')
                self.emit('let mut %s: bool = %s;' % (t, self.conv(a, ta, Ty('bool'))), n)
                self.emit('if %s%s {' % ('' if op == '&&' else '!', t))
                self.lines += ['    ' + h for h in hoisted]
                self.emit('    %s = %s;' % (t, self.conv(b, tb, Ty('bool'))))
                self.emit('}')
                return t, Ty('bool')
            return '(%s %s %s)' % (self.conv(a, ta, Ty('bool')), op, self.conv(b, tb, Ty('bool'))), Ty('bool')
        (a, ta), (b, tb) = self.ev_many(n['inner'])
        if op in ('==', '!=', '<', '>', '<=', '>='):
            if ta.kind in ('ptr', 'eptr') or tb.kind in ('ptr', 'eptr'):
                if ta.kind == 'eptr' or tb.kind == 'eptr': raise Unsupported('eptr comparison', n)
                a = self.conv(a, ta, Ty('ptr')); b = self.conv(b, tb, Ty('ptr'))
            elif ta.kind != tb.kind and ta.kind in INTS and tb.kind in INTS:
                raise Unsupported('mixed comparison', n)
            elif ta.kind not in INTS and ta.kind not in ('bool', 'iter'):
                raise Unsupported('comparison of ' + ta.kind, n)
            return '(%s %s %s)' % (a, op, b), Ty('bool')
        t = self.p.ty(n['type'], n)
        if ta.kind in INTS and tb.kind in INTS:
            return self.arith(op, a, ta, b, tb, n, t), t
        if op in ('&', '|', '^') and ta.kind == 'bool' and tb.kind == 'bool':
            return '(%s %s %s)' % (a, op, b), Ty('bool')
        raise Unsupported('operator %s on %s, %s' % (op, ta, tb), n)

    def e_CompoundAssignOperator(self, n):
        p = self.path(n['inner'][0])
        return '{ %s %s }' % (self.compound(n), p.read()), p.ty

    def e_UnaryOperator(self, n):
        op = n['opcode']
        sub = n['inner'][0]
        if op in ('++', '--'):
            p = self.path(sub)
            if p.ty.kind in ('i32', 'i64', 'iter'): nv = '%s %s 1' % (p.read(), op[0])
            else: nv = '%s.wrapping_%s(1)' % (p.read(), 'add' if op == '++' else 'sub')
            if n.get('isPostfix'):
                t = fresh('t')
                return '{ let %s = %s; %s %s }' % (t, p.read(), p.write(nv), t), p.ty
            return '{ %s %s }' % (p.write(nv), p.read()), p.ty
        if op == '!':
            c, t = self.ev(sub)
            if t.kind == 'bool': return '!%s' % paren(c), Ty('bool')
            if t.kind in INTS or t.kind == 'ptr': return '(%s == 0)' % c, Ty('bool')
            if t.kind == 'eptr': return '(%s).is_null()' % c, Ty('bool')
        if op == '-':
            c, t = self.ev(sub)
            m = re.match(r'^\d+(i32|i64)$', c)
            if m: return '(-%s)' % c, t
            if t.kind == 'i32' and self.p.cfg.get('overflow') == 'unspecified': return 'i32_sub(0i32, %s)' % c, t
            if t.kind in ('i32', 'i64'): return '(-%s)' % paren(c), t
        if op == '~':
            c, t = self.ev(sub)
            return '(!%s)' % paren(c), t
        if op == '+': return self.ev(sub)
        if op == '*': return self.deref(sub)
        if op == '&' and self.strip(sub).get('kind') == 'DeclRefExpr' and self.strip(sub)['referencedDecl'].get('kind') == 'CXXMethodDecl':
            m = self.find_callee(self.strip(sub)['referencedDecl']['id'])
            ids = list(self.taken())
            if m not in ids: raise Unsupported('pointer to member', n)
            return '%di32' % (ids.index(m) + 1), Ty('i32', name='mfp')
        if op == '&':
            p = self.path(sub)
            if p.kind == 'helem' and p.ty.kind == 'struct':
                for k, cfg in self.p.cfg.get('eptr', {}).items():
                    if self.p._ty(k, n).name == p.ty.name:
                        return '{ let k__ = %s; EPtr::some(k__) }' % p.key, Ty('eptr', [self.p._ty(cfg['key'], n)], k)
            if p.kind == 'heap': return p.ptr, Ty('ptr', name=p.cls)
            return Path('addr', Ty('ptr', name=p.ty.name), target=p)
        raise Unsupported('unary ' + op, n)

    def e_ConditionalOperator(self, n):
        c, a, b = n['inner']
        t = self.p.ty(n['type'], n)
        cc = self.rv(c)
        mark = len(self.lines)
        va = self.coerce(a, t)
        ma = len(self.lines)
        vb = self.coerce(b, t)
        if len(self.lines) > mark:
            ha, hb = self.lines[mark:ma], self.lines[ma:]
            del self.lines[mark:]
            tmp = self.newname('cv')
            self.emit('let mut %s: %s;' % (tmp, t.rust()), n)
            self.emit('if %s {' % cc)
            self.lines += ['    ' + h for h in ha]
            self.emit('    %s = %s;' % (tmp, va))
            self.emit('} else {')
            self.lines += ['    ' + h for h in hb]
            self.emit('    %s = %s;' % (tmp, vb))
            self.emit('}')
            return tmp, t
        return '(if %s { %s } else { %s })' % (cc, va, vb), t

    def e_ImplicitCastExpr(self, n): return self.cast(n)
    e_CXXFunctionalCastExpr = e_CXXStaticCastExpr = e_CStyleCastExpr = e_ImplicitCastExpr

    def e_CXXReinterpretCastExpr(self, n):
        pt = self.p.ty(n['type'], n)
        inner = self.strip(n['inner'][0])
        if pt.kind == 'u64' and n.get('castKind') == 'PointerToIntegral' and inner.get('kind') == 'UnaryOperator' and inner.get('opcode') == '&' and self.strip(inner['inner'][0]).get('kind') == 'DeclRefExpr':
            return 'nondet_u64()', pt            # the address of a variable: any number
        if inner.get('kind') == 'UnaryOperator' and inner.get('opcode') == '&' and re.sub(r'const|\*|\s', '', strip_name(n['type'].get('qualType', ''))) in self.p.cfg.get('value_ptrs', ()):
            v = self.path(inner['inner'][0])     # a value seen as another type of the same meaning
            if v.ty.kind != pt.kind: raise Unsupported('reinterpret_cast', n)
            return v.read(), v.ty
        c, t = self.ev(n['inner'][0])
        if t.kind != 'buf': raise Unsupported('reinterpret_cast', n)
        return c, t

    def cast(self, n):
        ck = n.get('castKind')
        c, t = self.ev(n['inner'][0])
        if ck in ('IntegralCast',):
            rt = self.p.ty(n['type'], n)
            return self.conv(c, t, rt, n), rt
        if ck == 'IntegralToBoolean': return '(%s != 0)' % c, Ty('bool')
        if ck == 'PointerToBoolean':
            if t.kind in ('eptr', 'buf'): return '!(%s).is_null()' % c, Ty('bool')
            return '(%s != 0)' % c, Ty('bool')
        if ck == 'NullToPointer':
            rt = self.p.ty(n['type'], n)
            if rt.kind == 'eptr': return 'EPtr::null()', rt
            return '0u64', rt
        if ck == 'BitCast' and t.kind == 'ptr': return c, self.p.ty(n['type'], n)
        raise Unsupported('cast ' + str(ck), n)

    def e_CXXDefaultArgExpr(self, n): raise Unsupported('default argument', n)

    def e_CXXConstructExpr(self, n):
        t = self.p.ty(n['type'], n)
        args = [a for a in n.get('inner', []) if a.get('kind') != 'CXXDefaultArgExpr']
        if len(args) == 1:
            if t.kind == 'struct' and self.copy_ctor(t.name, n) is None or t.kind != 'struct':
                c, at = self.ev(args[0])
            else: c, at = '', Ty('none')
            if at.kind == t.kind and (t.kind != 'struct' or at.name == t.name): return c, t
            if t.kind in ('QString', 'cstr') and at.kind in ('QString', 'cstr'): return c, t
            if t.kind == 'u16' and at.kind in INTS:
                if at.kind == 'i8':
                    m = re.match(r'^(-?\d+)i8$', c)
                    if m: return '%du16' % (int(m.group(1)) & 255), t
                    return 'latin1_of(%s)' % c, t
                return self.intcast(c, at.kind, 'u16'), t
            if t.kind == 'QString' and at.kind == 'u16': return 'QString::from_C(%s)' % c, t
            if t.kind in ('iter', 'hiter'): return c, t
        if not args and not (t.kind == 'struct' and self.ctor_of(t.name, n) in self.contracts):
            if t.kind == 'u16': return '0u16', t
            return self.default_ctor(t, n), t
        if t.kind == 'struct':
            m = self.ctor_of(t.name, n)
            if m is not None and m in self.contracts:
                tmp = fresh('ob')
                self.emit('let mut %s: %s = nondet_%s();' % (tmp, t.rust(), t.rust()), n)
                code, _ = self.repo_call(m, Path('var', t, rust=tmp), n.get('inner', []), n)
                self.emit(code + ';', n)
                return tmp, t
            if m is not None and m in self.p.funcs and args:
                tmp = fresh('ob')
                self.emit('let mut %s: %s = nondet_%s();' % (tmp, t.rust(), t.rust()), n)
                self.inline(m, Path('var', t, rust=tmp), n.get('inner', []), n)
                return tmp, t
        parts = [self.ev(a) for a in args]
        cls = t.rust().split('<')[0]
        name = 'new_' + '_'.join(x[1].code() for x in parts)
        if (cls, name) in self.api.static:
            return '%s::%s(%s)' % (cls, name, ', '.join(x[0] for x in parts)), t
        raise Unsupported('constructor %s::%s' % (cls, name), n)

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def copy_ctor(self, cls, n):
        """the copy constructor called by n if it is written in the source and has a contract (otherwise all fields are copied)"""
        m = self.ctor_of(cls, n)
        if m is None: return None
        nd = self.p.node_of(m)
        if nd.get('isImplicit') or nd.get('explicitlyDefaulted'): return None
        ps = self.params(nd)
        if len(ps) != 1 or self.p.ty(ps[0]['type'], ps[0]).name != cls: return None
        if m in self.contracts: return m
        self.copied.add(cls)
        return None

    def ctor_of(self, cls, n):
        ct = strip_name(n.get('ctorType', {}).get('qualType', ''))
        for q, ms in self.p.all_decls().items():
            if q == cls + '::' + cls.split('::')[-1]:
                c = [m for m in ms if strip_name(self.p.node_of(m)['type']['qualType']) == ct]
                if len(c) == 1: return c[0]
        return None

    def default_ctor(self, t, n):
        if t.kind in INTS or t.kind in ('bool', 'ptr'): return '0'
        return self.default(t)

    def e_CXXScalarValueInitExpr(self, n):
        t = self.p.ty(n['type'], n)
        return ('false' if t.kind == 'bool' else '0%s' % t.rust()), t

    def e_InitListExpr(self, n):
        t = self.p.ty(n['type'], n)
        if t.kind == 'struct':
            fs = self.p.fields(t.name)
            inner = n.get('inner', [])
            if len(inner) == len(fs):
                return '%s { %s }' % (t.rust(), ', '.join('%s: %s' % (f, self.init_elem(e, ft)) for (f, ft), e in zip(fs, inner))), t
        if t.kind in INTS and len(n.get('inner', [])) == 1: return self.coerce(n['inner'][0], t), t
        raise Unsupported('initialiser list for %s' % t, n)

    def init_elem(self, e, ft):
        s = self.strip(e)
        if s['kind'] == 'ImplicitValueInitExpr': return self.zero(ft)
        if s['kind'] == 'CXXDefaultInitExpr':
            if ft.kind in INTS: return '0%s' % ft.kind
            return self.zero(ft)
        return self.coerce(e, ft)

    def zero(self, t):
        if t.kind in INTS: return '0%s' % t.kind
        if t.kind == 'bool': return 'false'
        if t.kind == 'ptr': return '0u64'
        return self.default(t)

    def e_CXXNewExpr(self, n):
        t = self.p.ty(n['type'], n)
        if t.kind == 'struct':              # an owned object
            for c in n.get('inner', []):
                if self.strip(c).get('kind') == 'CXXConstructExpr': return self.ev(c)
        if t.kind == 'ptr' and self.heap_class(t.name):
            init = None
            for c in n.get('inner', []):
                if c.get('kind') in ('CXXConstructExpr', 'ExprWithCleanups', 'CXXBindTemporaryExpr'):
                    s = self.strip(c)
                    star = self.p.cfg.get('heap_new', {}).get(t.name + '.*')
                    if s.get('kind') == 'CXXConstructExpr' and star:
                        init = star         # any arguments (they are not evaluated: addresses of members and this)
                    elif s.get('kind') == 'CXXConstructExpr' and s.get('inner'):
                        parts = [self.ev(a) for a in s['inner'] if a.get('kind') != 'CXXDefaultArgExpr']
                        nm = 'new_' + '_'.join(x[1].code() for x in parts)
                        cfg = self.p.cfg.get('heap_new', {}).get((t.name, nm)) or self.p.cfg.get('heap_new', {}).get(t.name + '.' + nm)
                        if not cfg: raise Unsupported('new %s(%s)' % (t.name, nm), n)
                        init = cfg
                        for i, x in enumerate(parts): init = init.replace('$%d' % (i + 1), x[0])
            if init is None: init = self.struct_default(t.name)
            self.uses_heap = True
            return 'hp.new_%s(%s)' % (t.name.replace('::', '_'), init), t
        raise Unsupported('new ' + str(t), n)

    def never_assigned(self, v):
        hit = []
        def walk(x):
            if not isinstance(x, dict): return
            k = x.get('kind')
            if (k == 'UnaryOperator' and x.get('opcode') in ('++', '--', '&')) or k == 'CompoundAssignOperator' or (k == 'BinaryOperator' and x.get('opcode') == '='):
                l = self.strip(x['inner'][0])
                if l.get('kind') == 'DeclRefExpr' and l['referencedDecl']['id'] == v['id']: hit.append(1)
            for c in x.get('inner', []): walk(c)
        walk(self.node)
        return not hit

    def bufptr(self, n):
        """(array, offset) of a pointer into an owned array, None when it is something else"""
        if not self.p.cfg.get('bufs'): return None
        s = self.strip(n)
        while s.get('kind') == 'ImplicitCastExpr' and s.get('castKind') == 'BitCast': s = self.strip(s['inner'][0])
        if s.get('kind') == 'MemberExpr':
            if not s['type']['qualType'].rstrip().endswith('*'): return None
            p = self.path(s)
            return (p, None) if p.ty.kind == 'buf' else None
        if s.get('kind') == 'DeclRefExpr':
            v = self.env.get(s['referencedDecl']['id'])
            return (v.base, v.off) if isinstance(v, Path) and v.kind == 'bufptr' else None
        if s.get('kind') == 'BinaryOperator' and s.get('opcode') == '+' and s['type']['qualType'].rstrip().endswith('*'):
            b = self.bufptr(s['inner'][0])
            if b is None: return None
            c, t = self.ev(s['inner'][1])
            c = self.conv(c, t, Ty('u64'))
            return b[0], c if b[1] is None else '%s.wrapping_add(%s)' % (paren(b[1]), c)
        return None

    def e_UnaryExprOrTypeTraitExpr(self, n):
        sz = {'wchar_t': 2, 'char16_t': 2, 'char': 1, 'int': 4}.get(n.get('argType', {}).get('qualType', '').replace('const ', ''))
        if sz is None and n.get('name') == 'sizeof' and self.p.cfg.get('bufs') and n.get('argType', {}).get('qualType') in self.p.cfg['bufs'].values():
            return 'elem_size::<%s>()' % self.p._ty(n['argType']['qualType'], n).rust(), Ty('u64')
        if n.get('name') != 'sizeof' or sz is None: raise Unsupported('sizeof', n)
        return '%du64' % sz, Ty('u64')

    def memcpy(self, args, n):
        """memcpy(bytes.data() + offset, text.utf16() or &character, size)"""
        def bare(x):
            x = self.strip(x)
            while x.get('kind') == 'ImplicitCastExpr': x = self.strip(x['inner'][0])
            return x
        d, f = bare(args[0]), bare(args[1])
        off = None
        if d.get('kind') == 'BinaryOperator' and d.get('opcode') == '+': d, off = bare(d['inner'][0]), d['inner'][1]
        def member(x, name):
            if x.get('kind') != 'CXXMemberCallExpr' or len(x['inner']) != 1 or x['inner'][0].get('name') != name: return None
            return self.path(x['inner'][0]['inner'][0])
        b = member(d, 'data')
        if b is None or b.ty.kind != 'QByteArray': raise Unsupported('memcpy', n)
        s = member(f, 'utf16')
        if s is not None and s.ty.kind == 'QString': what, v = 'utf16', s.read()
        elif f.get('kind') == 'UnaryOperator' and f.get('opcode') == '&':
            p = self.path(f['inner'][0])
            if p.ty.kind != 'u16': raise Unsupported('memcpy', n)
            what, v = 'wchar', p.read()
        else: raise Unsupported('memcpy', n)
        o, l, w = fresh('mo'), fresh('ml'), fresh('mv')
        oc, ot = self.ev(off) if off is not None else ('0i32', Ty('i32'))
        lc, lt = self.ev(args[2])
        return '{ let %s = %s; let %s = %s; let %s = %s; %s }' % (o, self.conv(oc, ot, Ty('i64')), w, v, l, self.conv(lc, lt, Ty('u64')),
            b.mutcall(lambda r: '%s.put_%s(%s, %s, %s)' % (r, what, o, w, l))), Ty('void')

    def e_ArraySubscriptExpr(self, n):
        x = self.strip(n['inner'][0])
        while x.get('kind') == 'ImplicitCastExpr': x = self.strip(x['inner'][0])
        if x.get('kind') == 'DeclRefExpr' and x['referencedDecl'].get('name') in self.p.cfg.get('tables', ()):
            c, t = self.ev(n['inner'][1])
            if t.kind != 'i32': raise Unsupported('table index', n)
            return 'tbl_%s(%s)' % (x['referencedDecl']['name'], c), Ty('i32')
        b = self.bufptr(n['inner'][0])
        if b is None: raise Unsupported('array subscript', n)
        c, t = self.ev(n['inner'][1])
        if t.kind not in INTS: raise Unsupported('array subscript', n)
        if b[1] is not None:
            c, t = '%s.wrapping_add(%s)' % (paren(b[1]), self.conv(c, t, Ty('u64'))), Ty('u64')
        return Path('bufel', b[0].ty.args[0], base=b[0], idx=c, ic=t.code())

    def throw(self, s):
        e = self.strip(s['inner'][0]) if s.get('inner') else None
        if e is None: raise Unsupported('rethrow', s)
        t = strip_name(e['type']['qualType']).replace('const ', '')
        args = []
        x = e
        while x.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and len(x.get('inner', [])) == 1 and \
                strip_name(self.strip(x['inner'][0])['type']['qualType']).replace('const ', '') == t:
            x = self.strip(x['inner'][0])
        args = [self.ev(a) for a in x.get('inner', []) if a.get('kind') != 'CXXDefaultArgExpr']
        return self.throw_code(t, args, s)

    def throw_code(self, t, args, s):
        if not self.may_throw: raise Unsupported('throw in a function not known to throw', s)
        return 'return Err(Exc::%s(%s));' % (t, ', '.join(a[0] for a in args))

    def e_CXXThrowExpr(self, n):
        return '{ %s }' % self.throw(n), Ty('void')

    # -- repo functions
    def find_callee(self, did, name=None, typ=None):
        for tu in self.p.tus:
            d = tu.by_id.get(did)
            if d is not None and tu is self.tu_cur():
                return d.get('_m')
        return None

    def taken(self):
        """the member functions whose address is taken in this translation unit"""
        return self.p.taken()

    def e_CXXMemberCallExpr(self, n):
        me = self.strip(n['inner'][0])
        args = n['inner'][1:]
        if me['kind'] == 'BinaryOperator' and me.get('opcode') in ('->*', '.*'):
            fp, ft = self.ev(me['inner'][1])
            recv = self.deref(me['inner'][0]) if me['opcode'] == '->*' else self.path(me['inner'][0])
            rt = self.p.ty(n['type'], n)
            x = self.newname('fp'); self.emit('let %s = %s;' % (x, fp), n)
            r = self.newname('fr'); self.emit('let mut %s: %s;' % (r, rt.rust()))
            first = True
            for i, (m, ft) in enumerate(self.taken().items()):
                if ft != self.p.mfp_type(me['inner'][1]): continue
                self.emit('%sif %s == %d {' % ('' if first else '} else ', x, i + 1)); first = False
                v = self.repo_call(m, recv, args, n)
                c = v.read() if isinstance(v, Path) else v[0]
                self.emit('    %s = %s;' % (r, c))
            if first: raise Unsupported('call through a pointer to member', n)
            self.emit('} else { %s = bad_pointer(); }' % r)
            return r, rt
        if me['kind'] != 'MemberExpr': raise Unsupported('call through ' + me['kind'], n)
        base = me['inner'][0]
        if strip_name(base['type'].get('qualType', '')).replace('const ', '').strip() == 'QMessageLogger':   # qWarning, qDebug, ...: output; qFatal ends the program
            return ('qfn_exit_i(2i32)' if me['name'] == 'fatal' else '()'), Ty('void')
        if me['name'] in ('lock', 'unlock') and strip_name(base['type'].get('qualType', '')).replace('const ', '').strip() in ('QMutex', 'QBasicMutex'):
            return '()', Ty('void')     # mutual exclusion: not part of what is translated (one thread's view)
        m = self.find_callee(me.get('referencedMemberDecl'))
        if m is None and me['name'] == 'moveToThread': return '()', Ty('void')     # which thread runs an object's handlers: not part of the translated code
        if me['name'].startswith('operator ') and m is None:
            return self.path(base)     # user defined conversion (QCharRef -> QChar, ...)
        if m is not None:
            if me.get('isArrow'):
                recv = self.deref(base)
            else:
                recv = self.path(base)
            return self.repo_call(m, recv, args, n)
        if me.get('isArrow'):
            recv = self.deref(base)
        else:
            recv = self.path(base)
        if recv.ty.kind in ('struct', 'ptr'):     # a class of another dump: by class and name, if the unit has a contract for it
            cands = [mm for mm in self.contracts if self.p.q(mm) == '%s::%s' % (recv.ty.name, me['name'])]
            if not cands and recv.ty.name.startswith('Q'):    # a member of a base class
                cands = [mm for mm in self.contracts if re.match(r'^Q\w+::%s$' % re.escape(me['name']), self.p.q(mm) or '')]
            if len(cands) == 1: return self.repo_call(cands[0], recv, args, n)
        return self.qt_call(recv, me['name'], args, n)

    def e_CallExpr(self, n):
        callee = self.strip(n['inner'][0])
        args = n['inner'][1:]
        if callee['kind'] == 'MemberExpr':   # static member through object
            return self.e_CXXMemberCallExpr(n)
        if callee['kind'] != 'DeclRefExpr':
            raise Unsupported('indirect call', n)
        d = callee['referencedDecl']
        if d['name'] in WIRING and self.find_callee(d['id']) is None: return '()', Ty('void')
        if d['id'] in self.env:   # function pointer parameter (inlined callee)
            v = self.env[d['id']]
            if v.kind == 'func': return self.repo_call(v.m, None, args, n)
            raise Unsupported('call through variable', n)
        m = self.find_callee(d['id'])
        if m is None:
            # function of another dump (global helper functions): by name and type
            cands = [mm for q in (d['name'],) for mm in self.p.by_q.get(q, [])
                     if self.p.funcs[mm][1]['type']['qualType'] == d['type']['qualType']]
            if not cands and d.get('kind') == 'CXXMethodDecl':
                cands = [mm for q, ms in self.p.by_q.items() if q.endswith('::' + d['name']) for mm in ms
                         if self.p.funcs[mm][1]['type']['qualType'] == d['type']['qualType'] and self.p.funcs[mm][1].get('storageClass') == 'static']
            if len(cands) == 1: m = cands[0]
        if m is not None and (m in self.p.funcs or m in self.contracts):
            return self.repo_call(m, None, args, n)
        txt = strip_name(self.tu_cur().text(callee['range']))
        if m is None and '::' in txt:     # a static member of a class of another dump, by its contract
            cands = [mm for mm in self.contracts if self.p.q(mm) == txt and self.p.node_of(mm).get('storageClass') == 'static']
            if len(cands) == 1: return self.repo_call(cands[0], None, args, n)
        return self.free_call(txt or d['name'], d['name'], args, n)

    def ev_many(self, nodes, f=None):
        """evaluate in order; when a later operand needs statements, earlier values are saved first"""
        out = []
        f = f or self.ev
        for a in nodes:
            mark = len(self.lines)
            r = f(a)
            if len(self.lines) > mark and out:
                hoisted = self.lines[mark:]
                del self.lines[mark:]
                for i, (c, t) in enumerate(out):
                    if re.match(r'^(\d+\w+|true|false|sp__\d+|lit_\w+\(\))$', c): continue
                    tmp = fresh('sp')
                    self.emit('let mut %s = %s;' % (tmp, c))
                    out[i] = (tmp, t)
                self.lines += hoisted
            out.append(r)
        return out

    def argvals(self, args):
        return self.ev_many([a for a in args if a.get('kind') != 'CXXDefaultArgExpr'])

    def free_call(self, txt, name, args, n):
        if name in OUTPUT_ONLY: return '()', Ty('void')
        if name in ('move', 'qAsConst', 'forward') and len(args) == 1: return self.path(args[0])
        if self.p.cfg.get('bufs') and args:
            bp = self.bufptr(args[0])
            if bp is not None and name == 'realloc' and len(args) == 2 and bp[1] is None:
                ek = bp[0].ty.args[0]
                return 'Buf::realloc(&%s, %s, %s)' % (bp[0].read(), self.rv(args[1]), {'i8': '1u64', 'i32': '4u64'}.get(ek.kind, 'elem_size::<%s>()' % ek.rust())), bp[0].ty
            if bp is not None:
                vals = self.argvals(args[1:])
                cls = txt.rsplit('::', 1)[0] if '::' in txt else ''
                key = (cls, name + '_'.join([''] + ['P'] + [v[1].code() for v in vals]))
                if key not in self.api.static: raise Unsupported('free function %s::%s' % key, n)
                return '%s::%s(&%s, %s%s)' % (key[0], key[1], bp[0].read(), bp[1] or '0u64', ''.join(', ' + v[0] for v in vals)), self.p.ty(n['type'], n)
        if name == 'memcpy' and len(args) == 3: return self.memcpy(args, n)
        if name in ('stable_sort', 'std::stable_sort') and len(args) == 3: return self.stable_sort(args, n)
        if name == 'qDeleteAll' and len(args) == 1:
            v = self.ev(args[0])
            vt = v[1].args[-1] if v[1].args else None
            if v[1].kind != 'hash' or vt is None or not self.heap_class(vt.name): raise Unsupported('qDeleteAll', n)
            return 'hp.del_hash_%s(&%s)' % (vt.name.replace('::', '_'), v[0]), Ty('void')
        vals = self.argvals(args)
        if name == 'operator==' or name == 'operator!=': raise Unsupported('operator call', n)
        sig = '_'.join(v[1].code() for v in vals)
        rt = self.p.ty(n['type'], n)
        if '::' in txt:
            t2 = re.sub(r'\s+', '_', txt.replace('<', '_').replace('>', '').replace('std::', 'std_'))
            cls, meth = t2.rsplit('::', 1)
            cls = cls.replace('::', '_')
            key = (cls, meth + ('_' + sig if sig else ''))
            if key in self.api.static:
                return '%s::%s(%s)' % (key[0], key[1], ', '.join(v[0] for v in vals)), rt
            f = 'qfn_%s_%s' % (cls, key[1])
        else:
            f = 'qfn_' + name + ('_' + sig if sig else '')
        if f in self.api.free and name in self.p.cfg.get('free_ghost', ()):
            return '%s(%s)' % (f, ', '.join([g.split(':')[0].strip() for g in self.p.cfg.get('ghost_params', [])] + [v[0] for v in vals])), rt
        if f in self.api.free:
            # by-reference out parameters of free functions are not supported here
            return '%s(%s)' % (f, ', '.join(v[0] for v in vals)), rt
        raise Unsupported('free function ' + f, n)

    def stable_sort(self, args, n):
        """std::stable_sort(l.begin(), l.end(), &less): contract qfn_stable_sort_<less> of the unit"""
        a, b, f = [self.strip(x) for x in args]
        while f.get('kind') in ('UnaryOperator', 'ImplicitCastExpr'): f = self.strip(f['inner'][0])
        if f.get('kind') != 'DeclRefExpr': raise Unsupported('stable_sort', n)
        c, d = self.iter_container(a), self.iter_container(b)
        if c.read() != d.read() or not re.search(r'\b0i32$', self.rv(args[0])) or not self.rv(args[1]).endswith('.length()'): raise Unsupported('stable_sort of a part', n)
        self.uses_heap = True
        return c.write('qfn_stable_sort_%s(&*hp, %s)' % (f['referencedDecl']['name'], c.read())), Ty('void')

    def qt_call(self, recv, name, args, n):
        self.note_call(name)
        t = recv.ty
        rt = self.p.ty(n['type'], n)
        # iterators of lists
        if t.kind in ('list',) and name in ('begin', 'constBegin', 'cbegin'): return '0i32', Ty('iter', t.args)
        if t.kind in ('list',) and name in ('end', 'constEnd', 'cend'): return '%s.length()' % paren(recv.read()), Ty('iter', t.args)
        if t.kind == 'list' and args and name in ('erase', 'insert'):
            vals = self.argvals(args)
            if vals[0][1].kind == 'iter':
                tmp = fresh('it')
                if name == 'erase':
                    return '{ let %s = %s; %s; %s }' % (tmp, vals[0][0], recv.mutcall(lambda r: '%s.removeAt_i(%s)' % (r, tmp)), tmp), Ty('iter', t.args)
                return '{ let %s = %s; %s; %s }' % (tmp, vals[0][0], recv.mutcall(lambda r: '%s.insert_i_E(%s, %s)' % (r, tmp, vals[1][0])), tmp), Ty('iter', t.args)
        if t.kind == 'hash' and name in ('begin', 'constBegin', 'cbegin'): return '%s.begin_it()' % paren(recv.read()), Ty('hiter', t.args)
        if t.kind == 'hash' and name in ('end', 'constEnd', 'cend'): return 'EPtr::null()', Ty('hiter', t.args)
        if t.kind == 'hiter':
            c = self.iter_of_path(recv, n)
            if name == 'value': return Path('helem', t.args[1], base=c, key='%s.key' % paren(recv.read()))
            if name == 'key': return '%s.key' % paren(recv.read()), t.args[0]
        if t.kind == 'list' and name in ('last', 'first', 'top', 'front', 'back') and not args:
            base = recv
            idx = '0i32' if name in ('first', 'front') else '%s.length() - 1' % paren(base.read())
            return Path('index', t.args[0], base=base, idx=idx)
        if t.kind == 'list' and name in ('at',) and len(args) == 1:
            return Path('index', t.args[0], base=recv, idx=self.rv(args[0]))
        cls = t.rust().split('<')[0]
        if self.p.cfg.get('bufs') and args:
            bp = self.bufptr(args[0])
            if bp is not None:
                vals = self.argvals(args[1:])
                mname = name + '_'.join([''] + ['P'] + [v[1].code() for v in vals])
                if (cls, mname) not in self.api.methods: raise Unsupported('API %s::%s' % (cls, mname), n)
                tm = [fresh('a') for v in vals]
                pre = ''.join('let %s = %s; ' % (x, v[0]) for x, v in zip(tm, vals)) + 'let %s = %s; ' % ('of__', bp[1] or '0u64')
                if recv.place() is None or bp[0].place() is None: raise Unsupported('array argument', n)
                return '{ %s%s.%s(&mut %s, of__%s) }' % (pre, recv.place().lstrip('*'), mname, bp[0].place(), ''.join(', ' + x for x in tm)), rt
        vals = self.argvals(args)
        if t.kind in ('list', 'set', 'hash', 'mhash'):
            # element arguments are coded E (list/set), K, V (hash)
            codes = []
            for v in vals:
                vt = v[1]
                if vt.kind == 'i32' and name not in ('append', 'contains', 'indexOf', 'prepend', 'removeAll', 'removeOne', 'push', 'insert_'):
                    codes.append('i')
                elif t.kind in ('list', 'set') and (vt.kind == t.args[0].kind or (vt.kind in ('cstr', 'QString', 'u16') and t.args[0].kind == 'QString')) and not (vt.kind == 'i32' and t.args[0].kind == 'i32' and name in ('removeAt', 'at', 'mid', 'resize')):
                    codes.append('E')
                elif t.kind in ('hash', 'mhash') and len(codes) == 0 and vt.kind in (t.args[0].kind, 'cstr'): codes.append('K')
                elif t.kind in ('hash', 'mhash') and len(codes) == 1: codes.append('V')
                else: codes.append(vt.code())
            vals = [((self.conv(v[0], v[1], t.args[0]) if c in 'EK' else self.conv(v[0], v[1], t.args[1]) if c == 'V' else v[0]), v[1]) for v, c in zip(vals, codes)]
            sig = '_'.join(codes)
        else:
            # QString API takes QChar or QString; char const* counts as string
            vals = [(v[0], Ty('QString', name='QString') if v[1].kind == 'cstr' else v[1]) for v in vals]
            sig = '_'.join(v[1].code() for v in vals)
        mname = name + ('_' + sig if sig else '')
        # out parameter bool* ok
        if cls == 'u16' and 'qc_' + mname in self.api.free:
            return 'qc_%s(%s)' % (mname, ', '.join([recv.read()] + [v[0] for v in vals])), rt
        if (cls, mname) not in self.api.methods:
            if vals and vals[-1][1].kind == 'ptr':
                last = [a for a in args if a.get('kind') != 'CXXDefaultArgExpr'][-1]
                p = self.path(last)
                if p.kind == 'addr':
                    sig2 = '_'.join(v[1].code() for v in vals[:-1])
                    mn = name + ('_' + sig2 if sig2 else '') + '_out'
                    if (cls, mn) in self.api.methods:
                        o, r = fresh('o'), fresh('r')
                        return '{ let (%s, %s) = %s.%s(%s); %s %s }' % (r, o, paren(recv.read()), mn, ', '.join(v[0] for v in vals[:-1]), p.target.write(o), r), rt
            raise Unsupported('API %s::%s' % (cls, mname), n)
        mut, chain = self.api.methods[(cls, mname)]
        argl = ', '.join(v[0] for v in vals)
        if mut and chain and recv.kind == 'rvalue' and recv.place() is None:
            recv = self.freeze(recv)        # a temporary that is changed and then used
        if mut:
            if any('{' in v[0] or '(hp' in v[0] for v in vals) or recv.place() is not None:
                # evaluate the arguments first (two-phase borrow)
                tmps = [fresh('a') for v in vals]
                pre = ''.join('let %s = %s; ' % (tn, v[0]) for tn, v in zip(tmps, vals)) if any(not re.match(r'^[\w]+$', v[0]) for v in vals) else ''
                if pre: argl = ', '.join(tmps)
                call = recv.mutcall(lambda r: '%s.%s(%s)' % (r, mname, argl))
                code = '{ %s%s }' % (pre, call) if pre else call
            else:
                code = recv.mutcall(lambda r: '%s.%s(%s)' % (r, mname, argl))
            if chain and rt.kind in ('QString', 'list'):
                # returns *this
                return ChainPath(recv, code)
            return code, rt
        return '%s.%s(%s)' % (paren(recv.read()), mname, argl), rt

    def iter_of_path(self, recv, n):
        for i, p in self.env.items():
            if p is recv: return self.iters[i]
        raise Unsupported('hash iterator', n)

    def e_CXXOperatorCallExpr(self, n): return self.op_call(n)

    def qstring_literal(self, n, args):
        """QStringLiteral("...") is a lambda with a static variable of that name"""
        found, var = [], []
        def walk(x):
            if not isinstance(x, dict): return
            if x.get('kind') == 'StringLiteral': found.append(x); return
            if x.get('kind') == 'VarDecl' and x.get('name') == 'qstring_literal': var.append(x)
            for c in x.get('inner', []): walk(c)
        walk(args[0])
        if var and found and len({f['value'] for f in found}) == 1 and found[0]['value'].startswith('u"'):
            return lit(c_string(found[0]['value'][1:])), Ty('QString', name='QString')
        return None

    def op_call(self, n, stmt=False):
        callee = self.strip(n['inner'][0])
        name = callee.get('referencedDecl', {}).get('name', '')
        op = name[len('operator'):]
        args = n['inner'][1:]
        if op == '()' and len(args) == 1:
            q = self.qstring_literal(n, args)
            if q: return q
        m = self.find_callee(callee.get('referencedDecl', {}).get('id'))
        if m is not None and m in self.p.funcs and op not in ('=',):
            nd = self.p.funcs[m][1]
            if op == '()':
                fo = self.functor(args[0])
                if fo is not None: return self.call_functor(fo, args[1:], n)
            if self.is_method(nd): return self.repo_call(m, self.path(args[0]), args[1:], n)
            return self.repo_call(m, None, args, n)
        if op in ('=',):
            l = self.strip(args[0])
            if l.get('kind') == 'MemberExpr': self.note_call('=' + l['name'])
            elif l.get('kind') == 'DeclRefExpr': self.note_call('=' + l['referencedDecl']['name'])
            p = self.path(args[0])
            code = p.write(self.coerce(args[1], p.ty))
            if stmt: return code, Ty('void')
            return '{ %s %s }' % (code, p.read()), p.ty
        if op == '[]':
            b = self.path(args[0])
            i, it = self.ev(args[1])
            if b.ty.kind == 'QString': return Path('strch', Ty('u16'), base=b, idx=self.conv(i, it, Ty('i32')))
            if b.ty.kind == 'list': return Path('index', b.ty.args[0], base=b, idx=i)
            if b.ty.kind == 'QByteArray':
                k = fresh('k')
                self.emit('let %s = %s;' % (k, self.conv(i, it, Ty('i32'))), n)
                return Path('bufel', Ty('i8'), base=b, idx=k, ic='i')
            if b.ty.kind == 'hash':
                k = self.conv(i, it, b.ty.args[0])
                kt = fresh('k')
                self.emit('let %s = %s;' % (kt, k), n)
                self.emit(b.mutcall(lambda r: '%s.ensure_K(%s);' % (r, kt), stmt=True), n)
                return Path('helem', b.ty.args[1], base=b, key=kt)
        if op in ('+=', '<<') and self.strip(args[0]).get('kind') is not None:
            p = self.path(args[0])
            if p.ty.kind in ('QString', 'list', 'set', 'QByteArray'):
                nm = 'append' if p.ty.kind in ('QString', 'list', 'QByteArray') else 'insert'
                return self.qt_call(p, nm, args[1:], n)
        if op == '+':
            (a, ta), (b, tb) = self.ev_many(args[:2])
            if ta.kind in ('QString', 'u16', 'cstr') and tb.kind in ('QString', 'u16', 'cstr'):
                S = Ty('QString', name='QString')
                return 'QString::concat(%s, %s)' % (self.conv(a, ta, S), self.conv(b, tb, S)), S
        if op in ('==', '!='):
            (a, ta), (b, tb) = self.ev_many(args[:2])
            neg = '!' if op == '!=' else ''
            if ta.kind in ('QString', 'cstr') and tb.kind in ('QString', 'cstr'): return '%s%s.eq_S(%s)' % (neg, paren(a), b), Ty('bool')
            if ta.kind == 'u16' and tb.kind == 'u16': return '(%s %s %s)' % (a, op, b), Ty('bool')
            if ta.kind == 'QByteArray' and tb.kind == 'QByteArray': return '%s%s.eq_B(%s)' % (neg, paren(a), b), Ty('bool')
            if ta.kind == 'iter' and tb.kind == 'iter': return '(%s %s %s)' % (a, op, b), Ty('bool')
            if ta.kind == 'hiter' and tb.kind == 'hiter':
                if b == 'EPtr::null()': return '%s%s.is_null()' % ('' if op == '==' else '!', paren(a)), Ty('bool')
                return '%s%s.eq_it(&%s)' % ('' if op == '==' else '!', paren(a), b), Ty('bool')
            if ta.kind == 'list' and tb.kind == 'list': return '%s%s.eq_L(%s)' % (neg, paren(a), b), Ty('bool')
            if ta.kind == 'QString' and tb.kind == 'u16': return '%s%s.eq_S(QString::from_C(%s))' % (neg, paren(a), b), Ty('bool')
            raise Unsupported('operator%s(%s, %s)' % (op, ta, tb), n)
        if op in ('++', '--'):
            p = self.path(args[0])
            if p.ty.kind == 'hiter' and op == '++' and stmt:
                return p.write('%s.next_it(%s)' % (paren(self.iter_of(args[0]).read()), p.read())), Ty('void')
            if p.ty.kind == 'iter':
                if stmt: return p.write('%s %s 1' % (p.read(), op[0])), Ty('void')
                if len(args) == 1:
                    return '{ %s %s }' % (p.write('%s %s 1' % (p.read(), op[0])), p.read()), p.ty
        if op == '()':
            fo = self.functor(args[0])
            if fo is not None: return self.call_functor(fo, args[1:], n)
        if op == '*':
            return self.deref(args[0])
        if op == '->':
            p = self.deref(args[0])
            return Path('addr', Ty('ptr', name=p.ty.name), target=p)
        raise Unsupported('operator' + op, n)

    # -- calls to functions of the repository
    def repo_call(self, m, recv, args, n):
        self.note_call(self.p.q(m).split('::')[-1])
        c = self.contracts.get(m)
        if c is None or 'inline' in c.flags:
            a = self.accessor(m)
            if a is not None: return self.access(m, a, recv, args)
            return self.inline(m, recv, args, n)
        self.called.add(m)
        nd = self.p.node_of(m)
        params = self.params(nd)
        pre, post, al = [], [], []
        if 'heap' in c.flags:
            al.append('hp'); self.uses_heap = True
        for g in self.p.cfg.get('ghost_params', []):
            al.append(g.split(':')[0].strip())
        if self.is_method(nd):
            cls = self.cls(nd)
            if self.heap_class(cls):
                al.append(recv.ptr if recv.kind == 'heap' else 'this')
            elif self.is_const(nd):
                t = fresh('me')
                if recv.place() is not None and recv.place() == 'this': al.append('this')
                elif recv.place() is not None: al.append('&' + recv.place())
                else:
                    pre.append('let %s = %s;' % (t, recv.read())); al.append('&' + t)
            else:
                pl = recv.place()
                if pl == 'this': al.append('this')
                elif pl is not None: al.append('&mut ' + pl)
                else:
                    t = fresh('me')
                    pre.append('let mut %s = %s;' % (t, recv.read())); al.append('&mut ' + t)
                    post.append(recv.write(t))
        vi = 0
        for i, p in enumerate(params):
            t = self.p.ty(p['type'], p)
            if i >= len(args) or args[i].get('kind') == 'CXXDefaultArgExpr':
                al.append(self.default_arg(nd, i, t)); continue
            if t.ref and not t.const:
                ap = self.path(args[i])
                tmp = fresh('o')
                pre.append('let mut %s = %s;' % (tmp, ap.read()))
                al.append('&mut ' + tmp)
                post.append(ap.write(tmp))
            else:
                code = self.coerce(args[i], t)
                if not re.match(r'^[\w.]+$', code):
                    tmp = fresh('a')
                    pre.append('let %s = %s;' % (tmp, code)); code = tmp
                al.append(code)
        rt = self.rettype(nd)
        call = '%s(%s)' % (self.fnname(m), ', '.join(al))
        throws = self.p.throws(m)
        if throws:
            if not self.may_throw and not self.handlers: raise Unsupported('exception escapes', n)
            r = fresh('r')
            val = fresh('v')
            body = ' '.join(pre) + ' let %s = %s; %s let %s = match %s { Ok(v) => v, Err(e) => { %s } };' % (
                r, call, ' '.join(post), val, r, self.propagate('e'))
            return '{ %s %s }' % (body, val), rt
        if not pre and not post: return call, rt
        if not post: return '{ %s %s }' % (' '.join(pre), call), rt
        r = fresh('r')
        return '{ %s let %s = %s; %s %s }' % (' '.join(pre), r, call, ' '.join(post), r), rt

    def accessor(self, m):
        """the expression E of a method T &f(...) { return E; }"""
        if m not in self.p.funcs: return None
        nd = self.p.funcs[m][1]
        t = nd['type']['qualType']
        if not self.is_method(nd) or not t[:t.index('(')].strip().endswith('&') or t.startswith('const '): return None
        sts = self.body(nd).get('inner', [])
        if len(sts) != 1 or sts[0].get('kind') != 'ReturnStmt' or any(not self.never_assigned_in(p, nd) for p in self.params(nd)): return None
        return sts[0]['inner'][0]

    def never_assigned_in(self, p, nd):
        save, self.node = self.node, nd
        try: return self.never_assigned(p)
        finally: self.node = save

    def access(self, m, e, recv, args):
        tu, nd = self.p.funcs[m]
        for p, a in zip(self.params(nd), args):
            t = self.p.ty(p['type'], p)
            c = self.coerce(a, t)
            if not re.match(r'^-?\w+$', c):
                x = self.newname(p.get('name') or 'arg'); self.emit('let %s: %s = %s;' % (x, t.rust(), c)); c = x
            self.env[p['id']] = Path('rvalue', t, code=c)
        saved = (self.this, self.tu)
        self.this, self.tu = recv, tu
        self.inlined_fns.add(m)
        try: return self.freeze(self.path(e))
        finally: self.this, self.tu = saved

    def propagate(self, e):
        if self.handlers:
            blk = self.handlers[-1][0]
            save = (self.lines, self.ind, self.handlers, set(self.visible), self.ret, self.post_q)
            self.lines, self.ind, self.handlers, self.ret, self.post_q = [], 0, self.handlers[:-1], None, []
            self.stmts(blk.get('inner', []))
            txt = ' '.join(l.split('  //@')[0] for l in self.lines)
            self.lines, self.ind, self.handlers, self.visible, self.ret, self.post_q = save
            return txt
        return 'return Err(%s);' % e

    def default_arg(self, nd, i, t):
        d = self.decl(nd)
        p = self.params(d)[i]
        if t.name == 'flags': return '0i32'
        for c in p.get('inner', []):
            if c.get('kind') not in ('FullComment',):
                save = self.tu
                try:
                    return self.coerce(c, t)
                finally:
                    self.tu = save
        raise Unsupported('default argument')

    def functor(self, a):
        """an argument that is a function object: a lambda, or a temporary of a class with operator()"""
        a = self.strip(a)
        while a.get('kind') in ('CXXConstructExpr',) and len(a.get('inner', [])) == 1 and self.is_functor_type(a): 
            b = self.strip(a['inner'][0])
            if b.get('kind') not in ('LambdaExpr', 'CXXTemporaryObjectExpr', 'CXXConstructExpr', 'DeclRefExpr') or not self.is_functor_type(b): break
            a = b
        if a.get('kind') == 'DeclRefExpr':
            v = self.env.get(a['referencedDecl']['id'])
            return v if isinstance(v, Path) and v.kind == 'functor' else None
        if a.get('kind') == 'LambdaExpr':
            rec = [c for c in a['inner'] if c.get('kind') == 'CXXRecordDecl'][0]
            for c in rec.get('inner', []):
                if c.get('kind') == 'FieldDecl':
                    q = c['type']['qualType']
                    if not q.endswith('&') and not q.endswith('*'): raise Unsupported('lambda with a captured copy', a)
            op = [c for c in rec['inner'] if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()'][0]
            if not any(c.get('kind') == 'CompoundStmt' for c in op.get('inner', [])):
                op = dict(op); op['inner'] = op.get('inner', []) + [c for c in a['inner'] if c.get('kind') == 'CompoundStmt'][-1:]
            op['_q'] = op.get('_q') or 'lambda'
            return Path('functor', Ty('void'), node=(self.tu, op), this=self.this, fields=None)
        if a.get('kind') in ('CXXTemporaryObjectExpr', 'CXXConstructExpr', 'CXXFunctionalCastExpr') and self.is_functor_type(a):
            cls = self.p.ty(a['type'], a).name
            tu, r = self.p.records[cls]
            ctors = [c for c in r['inner'] if c.get('kind') == 'CXXConstructorDecl' and not c.get('isImplicit') and len(self.params(c)) == len(a.get('inner', []))]
            if len(ctors) != 1: raise Unsupported('constructor of ' + cls, a)
            byp = {}
            for pd, arg in zip(self.params(ctors[0]), a.get('inner', [])):
                t = pd['type']['qualType']
                if self.strip(arg).get('kind') == 'CXXThisExpr': byp[pd['id']] = self.e_CXXThisExpr(self.strip(arg))
                elif t.endswith('&'): byp[pd['id']] = self.freeze(self.path(arg))
                else: raise Unsupported('function object with a copied value', a)
            fields = {}
            for c in ctors[0].get('inner', []):
                if c.get('kind') == 'CXXCtorInitializer':
                    x = self.strip(c['inner'][0])
                    if x.get('kind') != 'DeclRefExpr': raise Unsupported('initialiser of ' + cls, a)
                    ft = c['anyInit'].get('type', {}).get('qualType', '&')
                    fields[c['anyInit']['name']] = byp[x['referencedDecl']['id']]
                elif c.get('kind') == 'CompoundStmt' and c.get('inner'): raise Unsupported('constructor of ' + cls, a)
            op = [c for c in r['inner'] if c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()']
            if len(op) != 1: raise Unsupported('function object ' + cls, a)
            return Path('functor', Ty('void'), node=(tu, self.p.funcs[op[0]['_m']][1] if op[0].get('_m') in self.p.funcs else op[0]), this=None, fields=fields)
        return None

    def is_functor_type(self, a):
        if a.get('kind') == 'LambdaExpr': return True
        try: t = self.p.ty(a['type'], a)
        except Unsupported: return 'lambda at' in a['type'].get('qualType', '')
        if t.kind != 'struct' or t.name not in self.p.records: return False
        return any(c.get('kind') == 'CXXMethodDecl' and c.get('name') == 'operator()' for c in self.p.records[t.name][1].get('inner', []))

    def call_functor(self, v, args, n):
        tu, nd = v.node
        this = v.this if v.fields is None else Path('fobj', Ty('void'), fields=v.fields)
        return self.inline('functor:%s' % nd.get('id'), this, args, n, (tu, nd))

    def inline(self, m, recv, args, n, node=None):
        if node is None and m not in self.p.funcs: raise Unsupported('no body for ' + m, n)
        if m in self.inline_stack: raise Unsupported('recursive inlining of ' + m, n)
        tu, nd = node or self.p.funcs[m]
        params = self.params(nd)
        rt = self.rettype(nd)
        saved = (self.this, self.ret, self.tu, set(self.visible))
        binds = []
        for i, p in enumerate(params):
            if i >= len(args) or args[i].get('kind') == 'CXXDefaultArgExpr':
                t = self.p.ty(p['type'], p)
                binds.append((p, 'val', t, self.default_arg(nd, i, t))); continue
            pt = p['type']['qualType']
            if '(*)' in p['type'].get('desugaredQualType', pt) or 'JoinFunc' in pt:
                a = self.strip(args[i])
                while a.get('kind') == 'UnaryOperator' and a.get('opcode') == '&': a = self.strip(a['inner'][0])
                fm = self.find_callee(a.get('referencedDecl', {}).get('id'))
                if fm is None and a.get('kind') == 'DeclRefExpr' and a['referencedDecl']['id'] in self.env:
                    binds.append((p, 'alias', None, self.env[a['referencedDecl']['id']])); continue
                binds.append((p, 'alias', None, Path('func', Ty('void'), m=fm))); continue
            fo = self.functor(args[i])
            if fo is not None: binds.append((p, 'alias', None, fo)); continue
            t = self.p.ty(p['type'], p)
            if t.ref and not t.const:
                binds.append((p, 'alias', t, self.freeze(self.path(args[i]))))
            else:
                binds.append((p, 'val', t, self.coerce(args[i], t)))
        if recv is not None and recv.kind != 'fobj': recv = self.freeze(recv)
        rv, fl = self.newname('rv'), self.newname('done')
        # the value must be available to the caller: declare result outside the block
        if rt.kind != 'void':
            self.emit('let mut %s: %s = %s;' % (rv, rt.rust(), self.default(rt) if rt.kind != 'struct' else 'nondet_%s()' % rt.rust()), n)
        fl_line = len(self.lines)
        self.emit('let mut %s: bool = false;' % fl)
        self.emit('{ // inlined %s' % strip_name(nd['_q']))
        self.ind += 1
        for p, kind, t, v in binds:
            if kind == 'alias': self.env[p['id']] = v
            else:
                nm = self.newname(p.get('name') or 'arg')
                self.emit('let mut %s: %s = %s;' % (nm, t.rust(), v))
                self.env[p['id']] = Path('var', t, rust=nm)
        self.tu = tu
        self.this = recv if recv is not None else None
        self.ret = {'var': rv, 'flag': fl, 'ty': rt, 'useflag': False}
        self.inline_stack.append(m)
        if node is None: self.inlined_fns.add(m)
        if nd['kind'] == 'CXXConstructorDecl': self.ctor_inits(nd, recv)
        self.stmts(self.body(nd).get('inner', []))
        self.inline_stack.pop()
        self.ind -= 1
        self.emit('}')
        vis = self.visible
        self.this, self.ret, self.tu, self.visible = saved
        self.visible |= {rv, fl}
        if rt.kind == 'void': return '()', rt
        return rv, rt


class ChainPath(Path):
    """result of a mutating call that returns *this"""
    def __init__(self, recv, code):
        self.kind, self.ty, self.recv, self.code0 = 'chain', recv.ty, recv, code

    def place(self): return None

    def read(self): return '{ %s; %s }' % (self.code0, self.recv.read())
    def write(self, v): return '{ %s; %s }' % (self.code0, self.recv.write(v))

    def mutcall(self, f, stmt=False):
        return '{ %s; %s }' % (self.code0, self.recv.mutcall(f, stmt))


def c_string(v):
    """value of a clang StringLiteral ("..." with C escapes) as a python string"""
    assert v.endswith('"')
    v = v[v.index('"') + 1:-1]
    out, i = [], 0
    while i < len(v):
        if v[i] == '\\':
            c = v[i + 1]
            simple = {'n': '\n', 't': '\t', 'r': '\r', '\\': '\\', '"': '"', "'": "'", '0': '\0', 'a': '\a', 'b': '\b', 'f': '\f', 'v': '\v', '?': '?'}
            if c == 'x':
                j = i + 2
                while j < len(v) and v[j] in '0123456789abcdefABCDEF' and j < i + 4: j += 1
                out.append(chr(int(v[i + 2:j], 16))); i = j; continue
            if c in '01234567':
                j = i + 1
                while j < len(v) and v[j] in '01234567' and j < i + 4: j += 1
                out.append(chr(int(v[i + 1:j], 8))); i = j; continue
            out.append(simple[c]); i += 2
        else:
            out.append(v[i]); i += 1
    return ''.join(out)


LITS = {}


def seqlit(s):
    return 'Seq::<u16>::empty()' if s == '' else 'seq![%s]' % ', '.join('%du16' % ord(c) for c in s)


def lit(s):
    import hashlib
    n = 'lit_%s_%s' % (re.sub(r'\W+', '_', s)[:16], hashlib.sha1(s.encode()).hexdigest()[:8])
    LITS[n] = s
    return n + '()'


OPAQUE = {}


def opaque_lit(s):
    """a literal whose characters the solver sees only on request"""
    import hashlib
    n = 'slit_%s_%s' % (re.sub(r'\W+', '_', s)[:16], hashlib.sha1(s.encode()).hexdigest()[:8])
    OPAQUE[s] = n
    return n + '()'


def lit_decls():
    out = ['#[verifier::opaque] pub open spec fn %s() -> Str { %s }' % (n, seqlit(s)) for s, n in sorted(OPAQUE.items())]
    return '\n'.join(out + ['#[verifier::external_body] fn %s() -> (r: QString) ensures r@ == %s, !qs_null(r) { unimplemented!() }' % (n, OPAQUE[s] + '()' if s in OPAQUE else seqlit(s)) for n, s in sorted(LITS.items())])
