"""Adds a planted bug: mkseed.py SPEC.py; SPEC.py defines ID, PROP, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO (C++ text). Development tool only."""
import sys, os, subprocess, json, shutil
S = {}; exec(open(sys.argv[1]).read(), S)
ID = S['ID']; D = '/verif/seeded/' + ID
os.makedirs(D, exist_ok=True)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo not clean'
DEMO_SH = r'''#!/bin/bash
# exit 0: the behaviour is right; links the jomlib built by build.sh
d=$(cd "$(dirname "$0")" && pwd)
export HOME=/root LANG=C.UTF-8 WINEPREFIX=/opt/vp/winelib/prefix WINEDEBUG=-all
unset DISPLAY JOMFLAGS MAKEFLAGS
w=/tmp/jom-demo-%(id)s
rm -rf /tmp/jom-demo-%(id)s
mkdir -p $w && cd $w || exit 2
Q=/usr/include/x86_64-linux-gnu/qt5
wineg++ -DQT_CORE_LIB -DQT_NO_DEBUG -I/repo/src/jomlib -isystem $Q -isystem $Q/QtCore -w -I/opt/vp/winelib/include -include msvc_names.h -O1 -fPIC \
    $d/demo.cpp -o $w/demo /repo/_build/lib/libjomlib.a /usr/lib/x86_64-linux-gnu/libQt5Core.so.5 || exit 2
timeout -k 5 100 wine $w/demo.exe.so; rc=$?
wineserver -k; wineserver -w
cd /; rm -rf /tmp/jom-demo-%(id)s
exit $rc
''' % {'id': ID}
HEAD = '''#include <QtCore>
#include <cstdio>
#include <string>
#include <vector>
#define private public
#define protected public
'''
open(D + '/demo.sh', 'w').write(DEMO_SH); os.chmod(D + '/demo.sh', 0o755)
open(D + '/demo.cpp', 'w').write(HEAD + S['DEMO'])
json.dump({'property': S['PROP'], 'needs': S['NEEDS'], 'what_it_breaks': S['BREAKS']}, open(D + '/meta.json', 'w'), indent=1)
try:
    for f, old, new in S['EDITS']:
        p = '/repo/' + f; t = open(p, newline='').read()
        assert t.count(old) == 1, (f, t.count(old), old)
        open(p, 'w', newline='').write(t.replace(old, new))
    open(D + '/patch.diff', 'w').write(subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE, text=True).stdout)
    r = sh('bash /opt/vp/build.sh'); assert r.returncode == 0, r.stdout[-2000:]
    r = sh('bash %s/demo.sh' % D, cwd='/repo'); print('demo with patch:', r.returncode, r.stdout[-300:]); ok1 = r.returncode not in (0, 2)
    sh('bash /opt/vp/test.sh /tmp/seed.json')
    b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/seed.json'))
    miss = set(b['stable']) - set(o['passed']); print('tests failing:', miss)
    if len(sys.argv) < 3:
        r = sh('timeout 900 python3 /verif/check.py %s --tier quick' % S['PROP'], cwd='/verif'); print('check:', r.returncode, r.stdout[-500:])
finally:
    sh('git -C /repo checkout -- .')
r = sh('bash /opt/vp/build.sh'); assert r.returncode == 0
r = sh('bash %s/demo.sh' % D, cwd='/repo'); print('demo without:', r.returncode, r.stdout[-300:])
print('GOOD' if ok1 and not miss and r.returncode == 0 else 'BAD')
