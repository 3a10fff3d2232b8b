"""Builds the replay harness from /repo's current working tree (only the Windows API is replaced)."""
import os, re, sys, subprocess, shutil, tempfile, glob, hashlib
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
Q = '/usr/include/x86_64-linux-gnu/qt5'
MOC = '/usr/lib/qt5/bin/moc' if os.path.exists('/usr/lib/qt5/bin/moc') else 'moc'
SKIP = {'jomprocess.cpp', 'jomprocess_qt.cpp', 'iocompletionport.cpp', 'jomprocess.h', 'iocompletionport.h'}


class BuildError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for base in (REPO + '/src/jomlib', REPO + '/src/app', VERIF + '/native/shim', VERIF + '/native/mock', VERIF + '/native/harness'):
        for f in sorted(os.listdir(base)):
            p = os.path.join(base, f)
            if os.path.isfile(p): h.update(f.encode()); h.update(open(p, 'rb').read())
    h.update(open(os.path.abspath(__file__), 'rb').read())
    return h.hexdigest()[:20]


def build(workdir, prop=None, cache=True, san=True):
    cdir = os.path.join(VERIF, '.cache')
    exe = os.path.join(cdir, 'harness-%s-%s' % (prop or 'all', tree_hash()))
    if cache and os.path.exists(exe): return exe
    src = os.path.join(workdir, 'src'); obj = os.path.join(workdir, 'obj')
    shutil.rmtree(workdir, ignore_errors=True)
    os.makedirs(src); os.makedirs(obj)
    for f in sorted(os.listdir(REPO + '/src/jomlib')):
        p = os.path.join(REPO, 'src/jomlib', f)
        if os.path.isfile(p) and f not in SKIP: shutil.copy(p, src)
    for f in ('main.cpp', 'application.h', 'application.cpp'):
        shutil.copy(os.path.join(REPO, 'src/app', f), src)
    # the static function behind main() gets a name other files can call (nothing else changes)
    mt = open(os.path.join(src, 'main.cpp'), errors='replace').read()
    if re.search(r'^\s*(static\s+)?bool\s+initJobServer\s*\(\s*const\s+Application\s*&\s*\w+\s*,\s*ProcessEnvironment\s*\*\s*\w+\s*,\s*JobServer\s*\*\*\s*\w+\s*\)\s*\{', mt, re.M):
        open(os.path.join(src, 'main.cpp'), 'a').write('\nbool jomInitJobServer(const Application &a, ProcessEnvironment *e, JobServer **j) { return initJobServer(a, e, j); }\n')
    for f in os.listdir(VERIF + '/native/mock'):
        shutil.copy(os.path.join(VERIF, 'native/mock', f), src)
    open(os.path.join(src, 'iocompletionport.h'), 'w').write('#pragma once\nnamespace NMakeFile { class IoCompletionPort { public: static void destroyInstance() {} }; }\n')
    # the environment block code is part of the Windows process class: it is cut out of the real file
    cut_env_block(src)
    flags = ['-std=gnu++17', '-fPIC', '-w', '-O1', '-g1', '-DQT_CORE_LIB', '-DUNICODE', '-fshort-wchar', '-D_fileno=fileno', '-DQT_NO_DEBUG', '-DQT_FORCE_ASSERTS',
             '-DJOM_VERSION_MAJOR=1', '-DJOM_VERSION_MINOR=1', '-DJOM_VERSION_PATCH=4',
             '-I' + src, '-I' + VERIF + '/native/shim', '-isystem', Q, '-isystem', Q + '/QtCore']
    if san: flags += ['-fsanitize=address,undefined', '-fno-sanitize=vptr,alignment', '-fno-sanitize-recover=undefined']
    jobs = []
    for f in sorted(os.listdir(src)):
        p = os.path.join(src, f)
        if f.endswith('.cpp'):
            extra = ['-DQT_NO_CAST_FROM_ASCII', '-DQT_NO_CAST_TO_ASCII'] if f not in ('winmock.cpp',) and os.path.exists(REPO + '/src/jomlib/' + f) else []
            extra += ['-include', VERIF + '/native/shim/windows.h']
            if f == 'main.cpp': extra += ['-Dmain=jom_main']
            if san and f == 'ppexprparser.cpp': extra += ['-fno-sanitize=shift,signed-integer-overflow']   # unspecified value, not a crash (C04)
            jobs.append((p, f, extra))
        if f.endswith('.h') and 'Q_OBJECT' in open(p, errors='replace').read():
            out = os.path.join(src, 'moc_' + f[:-2] + '.cc')
            r = subprocess.run([MOC, '-I' + src, p, '-o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: raise BuildError('moc ' + f + ': ' + r.stdout[-1500:])
            jobs.append((out, 'moc_' + f, []))
    for f in sorted(glob.glob(VERIF + '/native/harness/*.cpp')):
        b = os.path.basename(f)
        if prop and re.match(r'c\d+\.cpp$', b) and b != prop.lower() + '.cpp': continue
        jobs.append((f, 'h_' + os.path.basename(f), ['-include', VERIF + '/native/harness/open.h', '-I' + VERIF + '/native/harness']))

    def comp(j):
        p, f, extra = j
        o = os.path.join(obj, f + '.o')
        r = subprocess.run(['g++'] + flags + extra + ['-x', 'c++', '-c', p, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: raise BuildError('%s: %s' % (f, r.stdout[-3000:]))
        return o
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(8) as ex: objs = list(ex.map(comp, jobs))
    tmp = os.path.join(workdir, 'harness')
    r = subprocess.run(['g++'] + (['-fsanitize=address,undefined'] if san else []) + objs + ['-o', tmp, '-lQt5Core', '-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise BuildError('link: ' + r.stdout[-3000:])
    try:
        os.makedirs(cdir, exist_ok=True)
        shutil.copy(tmp, exe + '.%d' % os.getpid()); os.replace(exe + '.%d' % os.getpid(), exe)
        return exe
    except OSError:
        return tmp


def cut_env_block(src):
    t = open(REPO + '/src/jomlib/jomprocess.cpp', errors='replace').read()
    # createEnvBlock and the free functions right before it (everything behind the last member function above it)
    m = re.search(r'^(static |inline )*QByteArray createEnvBlock\(.*?^\}', t, re.S | re.M)
    body = ''
    if m:
        start = 0
        for x in re.finditer(r'^[\w*&<> ]+?\bProcess\w*::~?\w+\([^;{]*\{\n.*?^\}', t[:m.start()], re.S | re.M): start = x.end()
        body = t[start:m.end()] if start else m.group(0)
    open(os.path.join(src, 'envblock_cut.inc'), 'w').write(body)


if __name__ == '__main__':
    wd = tempfile.mkdtemp(prefix='jomharness-')
    try:
        print(build(wd, sys.argv[1] if len(sys.argv) > 1 else None))
    except BuildError as e:
        print(e); sys.exit(1)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
