#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property on /repo's current working tree:
  1. the functions the property depends on are extracted from the C++ AST and verified against their contracts (Verus);
  2. a replay harness compiled from the same tree looks for a concrete failing input (the deductive verifier gives no
     usable counterexample for these theories); it is also the bounded stand-in where extraction is not possible.
Exit 0: every obligation discharged (or, labelled bounded in the evidence, the proof could not be set up) and no
failing input. Exit 1 + VIOLATION line: failing input found, or an obligation is not discharged."""
import json, os, re, shutil, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import build_harness
from claims import CLAIMS
from c2v.unit import Unit, PRELUDE
from c2v.trans import Unsupported
from c2v.clangast import AstError


def run_unit(name, outdir, probe=False, timeout=400, rlimit=60, threads=4):
    r = {'unit': name}
    try:
        u = Unit(name, probe=probe)
        u.generate()
    except Unsupported as e:
        r.update(status='unsupported', why=str(e)); return r
    except AstError as e:
        r.update(status='unsupported', why='clang: ' + str(e)[-600:]); return r
    except Exception as e:
        r.update(status='unsupported', why='extraction: ' + repr(e)[:300] + traceback.format_exc()[-500:]); return r
    res = u.run(outdir, timeout=timeout, rlimit=rlimit, threads=threads)
    r.update(res)
    r['functions'] = u.functions
    r['inlined'] = sorted(u.inlined)
    r['extern'] = [f['name'] for f in u.fns if f['kind'] == 'extern']
    r['copied'] = sorted(u.copied)
    r['assume'] = len(re.findall(r'\bassume\s*\(|\badmit\s*\(', u.verus))
    r['axioms'] = re.findall(r'axiom fn (\w+)', u.verus)
    r['nprobes'] = u.nprobes
    if probe:
        text, allhit = u.text, set()
        for k in range(3):
            L = text.split('\n')
            hit = {e['line'] for e in res.get('errors', []) if '#PROBE' in e['text']}
            allhit |= hit
            left = [i for i, l in enumerate(L) if '#PROBE' in l and i + 1 not in allhit]
            if not left or res['status'] != 'failed': break
            # again with the remaining probes only
            for i, l in enumerate(L):
                if '#PROBE' in l and i + 1 in allhit: L[i] = '// hit'
            text = '\n'.join(L)
            res = u.run(outdir, timeout=timeout, rlimit=rlimit, threads=threads, text=text)
        r['vacuous'] = [L[i].split('#PROBE')[1].strip() for i in left]
    return r


class Harness:
    def __init__(self, prop, work):
        self.prop, self.work, self.exe, self.err = prop, work, None, None
        self.cases = 0
    def build(self):
        try:
            self.exe = build_harness.build(os.path.join(self.work, 'h'), self.prop, cache='--cache' in sys.argv)
        except build_harness.BuildError as e:
            self.err = str(e)
        except Exception as e:
            self.err = repr(e)
    def run(self, seed, secs, thorough):
        """-> failing report text or None"""
        if not self.exe: return None
        out = os.path.join(self.work, 'found-%d.txt' % seed)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0', UBSAN_OPTIONS='print_stacktrace=0')
        cmd = [self.exe, self.prop, '--seed', str(seed), '--secs', str(secs), '--out', out] + (['--thorough'] if thorough else [])
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env, timeout=secs * 3 + 240, cwd=self.work)
        except subprocess.TimeoutExpired:
            self.err = 'harness timed out'; return None
        m = re.search(r'cases=(\d+)', r.stdout)
        if r.returncode == 0 and m:
            self.cases += int(m.group(1)); return None
        if r.returncode == 1 and os.path.exists(out): return open(out, errors='replace').read()
        self.err = 'harness rc %s: %s' % (r.returncode, (r.stdout + r.stderr)[-600:])
        return None
    def replay(self, f):
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0', UBSAN_OPTIONS='print_stacktrace=0')
        r = subprocess.run([self.exe, self.prop, '--replay', f], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', env=env, timeout=120, cwd=self.work)
        return r.returncode, r.stdout.strip()


def known(prop):
    """known findings of this property: [{'file':..., 'what':...}]"""
    f = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if not os.path.exists(f): return []
    return [k for k in json.load(open(f)).get('known', []) if k['property'] == prop]


def main():
    prop = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    elif os.environ.get('VERIF_TIER') in ('quick', 'thorough'): tier = os.environ['VERIF_TIER']
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cl = CLAIMS[prop]
    t0 = time.time()
    evd = os.path.join(VERIF, 'evidence')
    os.makedirs(evd, exist_ok=True)
    evf = os.path.join(evd, prop + '.json')
    replay = os.path.join(evd, prop + '-replay.txt')
    for f in (evf, replay):
        if os.path.exists(f): os.unlink(f)
    work = tempfile.mkdtemp(prefix='jomcheck-%s-' % prop)
    try:
        h = Harness(prop, work)
        units = cl['units']
        with ThreadPoolExecutor(max(2, len(units) + 1)) as ex:
            hb = ex.submit(h.build)
            big = tier == 'thorough'
            us = [ex.submit(run_unit, u, os.path.join(work, 'v'), False, 800 if big else 300, 200 if big else 60, 4) for u in units]
            hb.result()
            kf = known(prop)
            secs = cl.get('secs', 15) * (12 if big else 1)
            failing = h.run(seed, secs, big)
            res = [u.result() for u in us]
        failed = [r for r in res if r['status'] == 'failed']
        incon = [r for r in res if r['status'] not in ('ok', 'failed')]
        for r in failed + incon: describe(r)
        if h.err: print('note: harness: ' + h.err[-800:])
        if not failing and h.exe and (failed or incon):
            for k in range(1, 3):
                failing = h.run(seed + 1000 * k, max(secs, 25), True)
                if failing: break
        # vacuity probes
        vac, nprobes = [], 0
        if not failed and not incon and (big or cl.get('probe', False)):
            for r in res:
                p = run_unit(r['unit'], os.path.join(work, 'v'), True, 300, 60, 8)
                nprobes += p.get('nprobes', 0)
                allow = cl.get('dead', ())
                if p['status'] == 'failed': vac += [x for x in p.get('vacuous', []) if x not in allow]
                else: vac.append(r['unit'] + ': ' + p['status'])
        viol = 0
        rc = 0
        for k in kf:
            code, txt = h.replay(os.path.join(VERIF, k['input'])) if h.exe else (0, '')
            if code == 1: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        if failing:
            with open(replay, 'w') as f:
                f.write('replay with: %s/replay.sh %s <this file>\n' % (VERIF, prop) + failing)
                for r in failed: f.write('\nproof: ' + failtext(r))
            print(failing)
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            viol, rc = 1, 1
        elif failed:
            with open(replay, 'w') as f:
                f.write('obligations not discharged; no failing input was found by the bounded search (%d cases)\n' % h.cases)
                for r in failed: f.write('\n' + failtext(r))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
            viol, rc = 1, 1
        proved = not failed and not incon
        ok = [r for r in res if r['status'] == 'ok']
        obl = sum(r.get('obligations', 0) for r in res)
        nfail = sum(max(1, len(r.get('errors', []))) for r in failed)
        fns = [f for r in res for f in r.get('functions', [])]
        if proved and (obl == 0 or not fns): proved = False
        cov = {
            'obligations': obl, 'discharged': sum(r['obligations'] for r in ok) + sum(max(0, r.get('obligations', 0) - len(r.get('errors', []))) for r in failed),
            'checker_cmd': ' && '.join('verus %s.rs --rlimit 60 (text generated from /repo by tools/c2v, unit %s)' % (r['unit'].lower(), r['unit']) for r in res) or 'none',
            'trusted_base': trusted(res),
            'functions_under_contract': [f['name'] for f in fns],
            'functions_inlined': sorted({x for r in res for x in r.get('inlined', [])}),
            'functions_assumed': sorted({x for r in res for x in r.get('extern', [])}),
            'solver_ms': sum(r.get('smt_ms') or 0 for r in res), 'back_end': 'Verus 0.2026.09.13 / Z3',
            'vacuity_probes': nprobes, 'vacuous': vac,
            'units': [{k: r.get(k) for k in ('unit', 'status', 'obligations', 'wall', 'why', 'per_fn')} for r in res],
            'bounded_search_cases': h.cases, 'bounded_search': 'replay harness over generated inputs (seed %d), not counted as proof' % seed,
        }
        level = cl['level']
        if not proved and level == 'proof':
            level = 'other'
            cov['explanation'] = 'BOUNDED: the proof is not established on this tree (%s); only the bounded search decided' % '; '.join(
                r['unit'] + ' ' + r['status'] + ' ' + str(r.get('why', ''))[:200] for r in failed + incon)
        elif level != 'proof':
            cov['explanation'] = cl.get('explanation', '')
        ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': BASE_ASSUMPTIONS + cl.get('assumptions', []),
              'wall_s': round(time.time() - t0, 2), 'violations': viol}
        json.dump(ev, open(evf, 'w'), indent=1)
        if not failing and not failed and not h.exe and incon:
            print('error: neither the proof nor the harness could be built'); rc = 2
        if vac: print('note: vacuous probes: ' + ', '.join(vac))
        print('%s: %s (%d obligations, %d discharged, %d functions under contract, %d harness cases, %.1f s)' % (
            prop, 'VIOLATED' if rc == 1 else 'proved' if proved else 'bounded', cov['obligations'], cov['discharged'], len(fns), h.cases, time.time() - t0))
        return rc
    finally:
        shutil.rmtree(work, ignore_errors=True)


BASE_ASSUMPTIONS = [
    'tools/c2v translates the C++ AST (clang 18, Windows API declarations from native/shim) faithfully to Verus',
    'specs/prelude.rs states the behaviour of the Qt value types used',
    'no string or list reaches 2^30 elements',
]


def trusted(res):
    pre = open(PRELUDE).read()
    t = ['Verus and Z3', 'clang AST and tools/c2v', 'specs/prelude.rs: %d Qt operations by contract, axioms %s' % (pre.count('external_body'), ', '.join(re.findall(r'axiom fn (\w+)', pre)))]
    for r in res:
        if r.get('extern'): t.append('unit %s assumes the contracts of %s' % (r['unit'], ', '.join(r['extern'])))
        if r.get('copied'): t.append('unit %s takes the copy constructors of %s to copy every field' % (r['unit'], ', '.join(r['copied'])))
        if r.get('axioms'): t.append('unit %s axioms: %s' % (r['unit'], ', '.join(r['axioms'])))
        if r.get('assume'): t.append('unit %s has %d assume statements' % (r['unit'], r['assume']))
    return t


def describe(r):
    print('unit %s: %s %s' % (r['unit'], r['status'], r.get('why', '')))
    for k in ('errors', 'broken', 'unknown'):
        for e in r.get(k, [])[:6]:
            print('  %s %s %s: %s | %s' % (k, e.get('fn'), e.get('src'), e.get('msg', '')[:300], e.get('text', '')[:160]))


def failtext(r):
    s = 'unit %s, command %s\n' % (r['unit'], r.get('cmd'))
    for e in r.get('errors', []):
        s += 'failed obligation: function %s (%s): %s\n  at: %s\n' % (e['fn'], e['src'], e['msg'], e['text'])
        for lab, ln, tx in e['labels']: s += '    %s: %s\n' % (lab, tx)
    return s


if __name__ == '__main__':
    sys.exit(main())
