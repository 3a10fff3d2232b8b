"""A verification unit: spec file + sources -> generated Verus file -> verdict."""
import ast, json, os, re, subprocess, sys, time, hashlib, tempfile, shutil
from . import trans
from .trans import Program, FnTr, Contract, Unsupported, Ty, strip_name, fresh
from .clangast import VERIF, REPO, AstError

VERUS = shutil.which('verus') or 'verus'
PRELUDE = os.path.join(VERIF, 'specs', 'prelude.rs')


class API:
    """What the prelude offers (parsed from it, so that prelude and translator cannot disagree)"""
    def __init__(self, text):
        self.methods, self.static, self.free = {}, {}, {}
        for m in re.finditer(r'^impl(?:<[^{]*?>)? (\w+)(?:<[^{]*?>)? \{\n(.*?)^\}', text, re.S | re.M):
            cls, body = m.group(1), m.group(2)
            for f in re.finditer(r'pub fn (\w+)(?:<[^(]*>)?\(([^)]*)\)([^\n{]*)', body):
                name, ps, rest = f.groups()
                first = ps.split(',')[0].strip()
                if first in ('&mut self', 'self', '&self'):
                    self.methods[(cls, name)] = (first == '&mut self', first == '&mut self' and '->' not in rest)
                else:
                    self.static[(cls, name)] = rest
        for f in re.finditer(r'^pub fn (\w+)', text, re.M):
            self.free[f.group(1)] = True
        for f in re.finditer(r'^fn (\w+)', text, re.M):
            self.free[f.group(1)] = True


def parse_spec(text):
    """-> (directives, verus text, [contract descriptions])"""
    out, fns, cur, sec = [], [], None, None
    d = {'sources': [], 'cfg': {}, 'use': []}
    text = re.sub(r'@o"([^"\n]*)"', lambda m: trans.opaque_lit(m.group(1)), text)
    text = re.sub(r'@"([^"\n]*)"', lambda m: trans.seqlit(m.group(1)), text)
    cfgtext = ''
    incfg = False
    for line in text.split('\n'):
        m = re.match(r'^//@(\w+)\s*(.*)$', line)
        if not m:
            if incfg:
                cfgtext += line + '\n'
                continue
            if cur is not None:
                cur['secs'][sec] = cur['secs'].get(sec, '') + line + '\n'
            else:
                out.append(line)
            continue
        k, a = m.groups()
        a = a.strip()
        if k == 'sources':
            for s in a.split():
                if ':' in s:
                    f, fl = s.split(':')
                    d['sources'].append((f, ('NMakeFile',) + tuple(g for x in fl.split(',') for g in (global_functions(f) if x == 'auto' else (x,)))))
                else:
                    d['sources'].append(s)
        elif k == 'use': d['use'] += a.split()
        elif k == 'cfg': incfg = True
        elif k == 'endcfg':
            incfg = False
            new = ast.literal_eval(cfgtext)
            merge_cfg(d['cfg'], new)
            cfgtext = ''
        elif k in ('fn', 'extern', 'inline'):
            cur = {'name': a, 'kind': k, 'secs': {}, 'flags': set()}
            sec = 'header'
            fns.append(cur)
        elif k == 'flags': cur['flags'] |= set(a.split())
        elif k == 'attr': cur['secs']['attr'] = cur['secs'].get('attr', '') + a + '\n'
        elif k == 'ret': cur['secs']['ret'] = a
        elif k in ('header', 'entry', 'exit'): sec = k
        elif k in ('loop', 'body', 'end', 'after', 'before', 'case'): sec = (k, int(a))
        elif k in ('call', 'post'):
            nm, _, no = a.partition(' ')
            sec = (k, nm, int(no or 1))
        elif k == 'endfn': cur = None
        else: raise ValueError('spec directive ' + line)
    return d, '\n'.join(out), fns


def global_functions(src, headers=True):
    """names of the functions a file and the jom headers it includes define outside any namespace block (clang's AST
    filter is by name)"""
    t = open(os.path.join(REPO, src), errors='replace').read()
    names = re.findall(r'^(?:static |inline )*[A-Za-z_][\w:<>*& ]*?[ *&](\w+)\([^;{}]*\)\s*\{', t, re.M)
    names = [n for n in names if n not in ('if', 'while', 'for', 'switch')]
    if 'namespace NMakeFile {' in t: names = []
    if headers:
        for h in re.findall(r'^#include "([\w./]+\.h)"', t, re.M):
            f = os.path.join(os.path.dirname(src), h)
            if os.path.exists(os.path.join(REPO, f)): names += global_functions(f, False)
    return tuple(sorted(set(names)))


def merge_cfg(a, b):
    for k, v in b.items():
        if k in a and isinstance(v, dict): a[k].update(v)
        elif k in a and isinstance(v, (list, tuple)): a[k] = list(a[k]) + list(v)
        elif k in a and isinstance(v, set): a[k] |= v
        else: a[k] = v


class Unit:
    def __init__(self, name, probe=False):
        self.name = name
        self.probe = probe
        self.specfile = os.path.join(VERIF, 'specs', name + '.rs')
        self.d, self.verus, self.fns = parse_spec(open(self.specfile).read())
        self.used = [self.specfile]
        todo = list(self.d['use'])
        seen = set()
        pre = ''
        while todo:
            u = todo.pop(0)
            if u in seen: continue
            seen.add(u)
            f = os.path.join(VERIF, 'specs', u + '.rs')
            self.used.append(f)
            d2, v2, f2 = parse_spec(open(f).read())
            self.d['sources'] += [s for s in d2['sources'] if s not in self.d['sources']]
            merge_cfg(d2['cfg'], self.d['cfg']); self.d['cfg'] = d2['cfg']
            todo += d2['use']
            pre = v2 + '\n' + pre
            have = {x['name'] for x in self.fns}
            self.fns = [x for x in f2 if x['name'] not in have] + self.fns
        self.verus = pre + self.verus

    def mfps(self, prog):
        return ''.join('pub open spec fn mfp_%s() -> int { %d }\n' % (prog.fname(m), i + 1) for i, m in enumerate(prog.taken()))

    def generate(self):
        trans._fresh[0] = 0
        trans.LITS.clear()
        prelude = open(PRELUDE).read()
        cfg = self.d['cfg']
        prog = Program(self.d['sources'], cfg)
        self.prog = prog
        api = API(prelude + '\n' + self.verus)
        contracts = {}
        todo = []
        for f in self.fns:
            m = prog.lookup(f['name'])
            c = Contract(m)
            c.name = f['name']
            c.kind = f['kind']
            c.flags = set(f['flags'])
            if f['kind'] == 'inline': c.flags.add('inline')
            s = f['secs']
            c.header = s.get('header', '').rstrip('\n')
            c.entry, c.exit = s.get('entry', '').rstrip(), s.get('exit', '').rstrip()
            c.attrs = s.get('attr', '').rstrip()
            if 'ret' in s: c.retname = s['ret']
            for k, v in s.items():
                if isinstance(k, tuple) and len(k) == 3:
                    (c.calls if k[0] == 'call' else c.posts)[k[1:]] = v.rstrip()
                elif isinstance(k, tuple):
                    {'before': c.loop_before, 'loop': c.loops, 'body': c.loop_body, 'end': c.loop_end, 'after': c.loop_after, 'case': c.cases}[k[0]][k[1]] = v.rstrip()
            contracts[m] = c
            if f['kind'] == 'fn': todo.append(m)
        prog.contracts = contracts
        prog.throw_cache = {}
        out = []
        self.functions = []
        self.nprobes = 0
        self.inlined = set(); self.copied = set()
        self.problems = []
        body = []
        for m in contracts:
            c = contracts[m]
            if c.kind == 'extern':
                body.append(self.extern(prog, api, contracts, m))
        for m in todo:
            tr = FnTr(prog, api, contracts, m)
            tr.probe = self.probe
            body.append(tr.translate())
            self.nprobes += tr.probes
            self.functions.append({'name': contracts[m].name, 'rust': prog.fname(m), 'mangled': m,
                                   'loops': tr.loop_no, 'called': sorted(prog.q(x) for x in tr.called)})
            self.inlined |= {prog.q(x) for x in tr.inlined_fns}; self.copied |= tr.copied
            bad = [k for k in list(contracts[m].loops) if k > tr.loop_no]
            unb = [k for k in list(contracts[m].calls) if ('call',) + k not in tr.bound] + [k for k in list(contracts[m].posts) if ('post',) + k not in tr.bound]
            if unb: raise Unsupported('%s: hints for the calls %s cannot be bound' % (contracts[m].name, unb))
            if bad: raise Unsupported('%s has only %d loops, hints for loop %s cannot be bound' % (contracts[m].name, tr.loop_no, bad))
            unc = [k for k in contracts[m].cases if k > tr.switch_no]
            if unc: raise Unsupported('%s has only %d switch statements' % (contracts[m].name, tr.switch_no))
            missing = [k for k in range(1, tr.loop_no + 1) if k not in contracts[m].loops]
            if missing: raise Unsupported('%s has loops without invariant: %s' % (contracts[m].name, missing))
        structs = self.structs(prog)
        structs += '\n' + self.tables(prog)
        text = prelude + '\n' + structs + '\n' + trans.lit_decls() + '\n' + self.mfps(prog) + self.verus + '\n' + '\n\n'.join(body) + '\n}\nfn main() {}\n'
        self.text = text
        return text

    def tables(self, prog):
        """constant integer arrays (cfg tables), read off their definitions"""
        out = []
        for t in prog.cfg.get('tables', ()):
            vals = None
            for tu in prog.tus:
                for x in tu.by_id.values():
                    if x.get('kind') == 'VarDecl' and x.get('name') == t and x.get('init') and 'const ' in x['type']['qualType']:
                        il = [c for c in x['inner'] if c.get('kind') == 'InitListExpr']
                        if il and not il[0].get('array_filler'): vals = [const_int(e) for e in il[0].get('inner', [])]
            if not vals or None in vals: raise Unsupported('table ' + t)
            def tree(lo, hi):
                if hi - lo == 1: return str(vals[lo])
                m = (lo + hi) // 2
                return 'if i < %d { %s } else { %s }' % (m, tree(lo, m), tree(m, hi))
            out.append('#[verifier::opaque] pub open spec fn %s(i: int) -> int { %s }\npub open spec fn %s_len() -> int { %d }' % (t, tree(0, len(vals)), t, len(vals)))
            out.append('#[verifier::external_body] fn tbl_%s(i: i32) -> (r: i32) requires 0 <= i < %d ensures r == %s(i as int) { unimplemented!() }' % (t, len(vals), t))
            self.table_values = getattr(self, 'table_values', {}); self.table_values[t] = vals
        if prog.cfg.get('hints'):
            en = {nm: v for tu in prog.tus for nm, v in tu.enums.values()}
            mod = __import__('c2v.' + prog.cfg['hints'], fromlist=['hints']) if __name__.startswith('c2v') else __import__(__name__.rsplit('.', 1)[0] + '.' + prog.cfg['hints'], fromlist=['hints'])
            out.append(mod.hints(self.table_values, en))
        return '\n'.join(out)

    def extern(self, prog, api, contracts, m):
        tr = FnTr.__new__(FnTr)
        tr.p, tr.api, tr.contracts, tr.m = prog, api, contracts, m
        tr.node = prog.node_of(m)
        tr.q = prog.q(m); tr.c = contracts[m]; tr.env = {}; tr.visible = set()
        tr.uses_heap = 'heap' in tr.c.flags
        tr.may_throw = prog.throws(m)
        tr.lines = []; tr.ind = 0
        sig = tr.signature(spec_only=True)
        return '#[verifier::external_body]\n%s\n%s\n%s{ unimplemented!() }' % (tr.c.attrs, sig, tr.c.header + '\n')

    def default_axiom(self, prog, cls, fs):
        """what the members of a default-constructed object are, read off the class definition"""
        rn = cls.replace('::', '_')
        tu, r = prog.records[cls]
        if any(c.get('kind') == 'CXXConstructorDecl' and not c.get('isImplicit') and not c.get('explicitlyDefaulted') for c in r.get('inner', [])): return []
        cl = []
        for f, t in fs:
            fd = [c for c in r.get('inner', []) if c.get('kind') == 'FieldDecl' and c.get('name') == f]
            v = 0
            if fd and fd[0].get('hasInClassInitializer'):
                x = fd[0]['inner'][0] if fd[0].get('inner') else {}
                while x.get('kind') in ('ImplicitCastExpr', 'ConstantExpr', 'ExprWithCleanups', 'ParenExpr'): x = x['inner'][0]
                if x.get('kind') == 'IntegerLiteral': v = int(x['value'])
                elif x.get('kind') == 'CXXBoolLiteralExpr': v = int(bool(x['value']))
                elif x.get('kind') == 'CXXNullPtrLiteralExpr': v = 0
                elif x.get('kind') == 'DeclRefExpr' and x['referencedDecl']['id'] in tu.enums: v = tu.enums[x['referencedDecl']['id']][1]
                else: continue
            e = 'qdefault::<%s>().%s' % (rn, f)
            if t.kind == 'bool': cl.append(e if v else '!' + e)
            elif t.kind in ('i32', 'u32', 'i64', 'u64', 'i8', 'u8', 'u16', 'ptr'): cl.append('%s == %d' % (e, v))
            elif t.kind == 'QString' and not (fd and fd[0].get('hasInClassInitializer')): cl.append('%s@.len() == 0 && qs_null(%s)' % (e, e))
            elif t.kind == 'list': cl.append('%s@.len() == 0' % e)
        return ['pub axiom fn default_%s() ensures %s;' % (rn, ', '.join(cl))] if cl else []

    def structs(self, prog):
        out = []
        done = set()
        cfg = prog.cfg
        order = list(cfg.get('structs', ()))
        heap = list(cfg.get('heap', ()))
        for cls in order + heap:
            rn = cls.replace('::', '_')
            if rn in done: continue
            done.add(rn)
            fs = prog.fields(cls)
            fl = ['    pub %s: %s,' % (f, t.rust()) for f, t in fs] + ['    pub %s,' % g for g in cfg.get('ghost_fields', {}).get(cls, ())]
            out.append('#[derive(Clone, Copy)]\npub struct %s {\n%s\n}' % (rn, '\n'.join(fl)))
            if cls not in cfg.get('own_view', ()): out.append('impl View for %s { type V = %s; open spec fn view(&self) -> %s { *self } }' % (rn, rn, rn))
            out += self.default_axiom(prog, cls, fs)
            out.append('#[verifier::external_body] pub fn nondet_%s() -> %s { unimplemented!() }' % (rn, rn))
        if heap:
            ss, ms = [], []
            for cls in heap:
                rn = cls.replace('::', '_')
                ss.append('    pub %s: Map<u64, %s>,' % (rn, rn))
                others = ' && '.join('final(self)@.%s == old(self)@.%s' % (o.replace('::', '_'), o.replace('::', '_')) for o in heap if o != cls) or 'true'
                ms.append('''    #[verifier::external_body]
    pub fn get_%(c)s(&self, p: u64) -> (r: %(c)s)
        requires p != 0, self@.%(c)s.dom().contains(p),
        ensures r == self@.%(c)s[p],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn put_%(c)s(&mut self, p: u64, v: %(c)s)
        requires p != 0, old(self)@.%(c)s.dom().contains(p),
        ensures final(self)@ == (HeapV { %(c)s: old(self)@.%(c)s.insert(p, v), ..old(self)@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new_%(c)s(&mut self, v: %(c)s) -> (p: u64)
        ensures p != 0, !old(self)@.%(c)s.dom().contains(p), final(self)@ == (HeapV { %(c)s: old(self)@.%(c)s.insert(p, v), ..old(self)@ }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn del_%(c)s(&mut self, p: u64)
        requires p != 0 ==> old(self)@.%(c)s.dom().contains(p),
        ensures final(self)@ == (if p == 0 { old(self)@ } else { HeapV { %(c)s: old(self)@.%(c)s.remove(p), ..old(self)@ } }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn del_hash_%(c)s<K: View + Copy>(&mut self, c: &QHash<K, u64>)
        requires forall|k: K::V| #[trigger] c@.dom().contains(k) && c@[k] != 0 ==> old(self)@.%(c)s.dom().contains(c@[k]),
            forall|k: K::V, l: K::V| #[trigger] c@.dom().contains(k) && #[trigger] c@.dom().contains(l) && k != l && c@[k] != 0 ==> c@[k] != c@[l],
        ensures final(self)@ == (HeapV { %(c)s: final(self)@.%(c)s, ..old(self)@ }),
            forall|p: u64| #[trigger] final(self)@.%(c)s.dom().contains(p) <==> old(self)@.%(c)s.dom().contains(p) && forall|k: K::V| #[trigger] c@.dom().contains(k) ==> c@[k] != p,
            forall|p: u64| #[trigger] final(self)@.%(c)s.dom().contains(p) ==> final(self)@.%(c)s[p] == old(self)@.%(c)s[p],
    { unimplemented!() }
''' % {'c': rn})
            for extra in cfg.get('heap_ghost', ()):
                ss.append('    pub %s,' % extra)
            out.append('pub struct HeapV {\n%s\n}' % '\n'.join(ss))
            out.append('#[verifier::external_body]\npub struct Heap { _p: u64 }')
            out.append('impl View for Heap { type V = HeapV; uninterp spec fn view(&self) -> HeapV; }')
            out.append('impl Heap {\n%s}' % ''.join(ms))
        excs = cfg.get('exceptions', {'Exception': 'QString'})
        out.append('#[derive(Clone, Copy)]\npub enum Exc { %s }' % ', '.join('%s(%s)' % (k, v) if v else k for k, v in excs.items()))
        return '\n'.join(out)

    # ------------------------------------------------------------ run
    def run(self, outdir, rlimit=60, threads=8, timeout=600, text=None, extra=()):
        os.makedirs(outdir, exist_ok=True)
        f = os.path.join(outdir, self.name.lower() + ('_probe' if self.probe else '') + '.rs')
        text = text or self.text
        open(f, 'w').write(text)
        logd = os.path.join(outdir, 'log_' + os.path.basename(f)[:-3])
        shutil.rmtree(logd, ignore_errors=True)
        cmd = [VERUS, f, '--output-json', '--time', '--triggers-mode', 'silent', '--multiple-errors', '20' if not self.probe else '200',
               '--rlimit', str(rlimit), '--num-threads', str(threads), '--error-format=json', '--log', 'air-final', '--log-dir', logd] + list(extra)
        for o in self.d['cfg'].get('smt', ()): cmd += ['--smt-option', o]
        t0 = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=outdir)
            so, se = r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            return {'status': 'timeout', 'wall': time.time() - t0, 'errors': [], 'verified': 0, 'cmd': ' '.join(cmd), 'obligations': 0, 'per_fn': {}, 'smt_ms': 0, 'broken': [], 'unknown': []}
        return self.interpret(so, se, text, f, logd, time.time() - t0, cmd)

    def interpret(self, so, se, text, f, logd, wall, cmd):
        lines = text.split('\n')
        errs, broken, unknown = [], [], []
        for l in se.split('\n'):
            l = l.strip()
            if not l.startswith('{'):
                continue
            try: d = json.loads(l)
            except ValueError: continue
            if d.get('level') not in ('error',): continue
            msg = d.get('message', '')
            if msg.startswith('aborting due to'): continue
            sp = d.get('spans', [])
            prim = [s for s in sp if s.get('is_primary')] or sp
            ln = prim[0]['line_start'] if prim else 0
            e = {'msg': msg, 'line': ln, 'text': lines[ln - 1].strip() if 0 < ln <= len(lines) else '',
                 'labels': [((s.get('label') or ''), s['line_start'], lines[s['line_start'] - 1].strip()) for s in sp if s['line_start'] <= len(lines)]}
            e['fn'], e['src'] = self.locate(lines, ln, sp)
            if d.get('code') or 'rlimit' in msg.lower() or 'Resource limit' in msg:
                (unknown if ('rlimit' in msg.lower() or 'Resource limit' in msg) else broken).append(e)
            elif is_verif_msg(msg):
                errs.append(e)
            else:
                broken.append(e)
        try:
            j = json.loads(so[so.index('{'):])
            vr = j.get('verification-results', {})
            times = j.get('times-ms', {})
        except ValueError:
            vr, times = {}, {}
        ver = vr.get('verified', 0) or 0
        if broken or vr.get('encountered-vir-error') or not vr:
            status = 'broken'
            if not broken: broken.append({'msg': (se or so)[-1500:], 'line': 0, 'text': '', 'fn': '', 'src': '', 'labels': []})
        elif errs: status = 'failed'
        elif unknown: status = 'unknown'
        elif vr.get('success'): status = 'ok'
        else: status = 'broken'
        per = count_obligations(logd)
        n = sum(per.values())
        shutil.rmtree(logd, ignore_errors=True)
        smt = times.get('smt', {}) if isinstance(times.get('smt'), dict) else {}
        return {'status': status, 'errors': errs, 'broken': broken, 'unknown': unknown, 'verified': ver, 'wall': wall, 'obligations': n, 'per_fn': per,
                'smt_ms': smt.get('smt-run') or smt.get('total'), 'cmd': ' '.join(cmd)}

    def locate(self, lines, ln, spans):
        cands = [ln] + [s['line_start'] for s in spans]
        for l in cands:
            fn = None
            for i in range(min(l, len(lines)) - 1, -1, -1):
                m = re.match(r'^(?:pub )?(?:open |closed )?(?:broadcast )?(proof |spec |axiom )?fn (\w+)', lines[i])
                if m: fn = m.group(2); kind = m.group(1); start = i; break
            if not fn: continue
            src = ''
            for i in range(min(l, len(lines)) - 1, start - 1, -1):
                m = re.search(r'//@ (\S+:\d+)', lines[i])
                if m: src = m.group(1); break
            if kind is None: return fn, src
        return fn or '', ''


def const_int(e):
    neg = False
    while e.get('kind') in ('ImplicitCastExpr', 'ConstantExpr', 'ParenExpr') or (e.get('kind') == 'UnaryOperator' and e.get('opcode') in '+-'):
        if e['kind'] == 'UnaryOperator' and e['opcode'] == '-': neg = not neg
        e = e['inner'][0]
    if e.get('kind') != 'IntegerLiteral': return None
    return -int(e['value']) if neg else int(e['value'])


def is_verif_msg(m):
    keys = ('precondition not', 'postcondition not', 'assertion failed', 'invariant not satisfied', 'decreases not', 'arithmetic underflow',
            'assert_by', 'possible ', 'unreachable', 'requires not', 'recommendation', 'termination', 'loop invariant', 'not satisfied',
            'might', 'could not prove', 'may not', 'overflow', 'unable to prove', 'simplifies to false', 'failed precondition')
    return any(k in m for k in keys)


def count_obligations(logd):
    """-> {function: number of proof obligations Verus sent to the solver} (root module: the unit, not the prelude)"""
    res = {}
    for root, _, fs in os.walk(logd):
        for fn in fs:
            if not fn.endswith('-final.air') or fn == 'qt-final.air': continue
            cur, inq = '', False
            for l in open(os.path.join(root, fn), errors='replace'):
                if l.startswith(';;'):
                    m = re.match(r';; (Function-\S+) (\S+)', l)
                    if m: cur = m.group(2).split('::', 1)[-1]
                    inq = False
                elif l.startswith('(check-valid'): inq = True
                elif l.startswith('('): inq = False
                elif inq and l.lstrip().startswith('(location'):
                    res[cur] = res.get(cur, 0) + 1
    return res
