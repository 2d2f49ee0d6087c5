"""python3 tools/seed.py make [ids..]  : (re)generate /verif/seeded/<id> from tools/seeds.py, confirm each in /repo (build, tests, demo)
   python3 tools/seed.py check [ids..] : apply each seeded patch to /repo, run its property's check, undo"""
import sys, os, subprocess, json, shutil, difflib
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/tools')
R = '/repo'
DEMO = '''#!/bin/bash
# exit 0: behaviour intact, nonzero: broken. Runs in /repo after the build.
D=$(dirname "$(readlink -f "$0")"); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
F="-O1 -g -w -fsanitize=address -fno-omit-frame-pointer -DBMI_ACTIVE -Iinclude -Ibmi -Igiuh"
P=()
for s in src/bmi_lgar.cxx src/lgar.cxx src/soil_funcs.cxx src/linked_list.cxx src/mem_funcs.cxx src/util_funcs.cxx src/aet.cxx; do g++ -std=c++14 $F -c $s -o $T/$(basename $s).o & P+=($!); done
gcc $F -c giuh/giuh.c -o $T/giuh.o & P+=($!)
g++ -std=c++17 $F -I"$D" -c "$D/demo.cpp" -o $T/demo.o & P+=($!)
for p in "${P[@]}"; do wait $p || exit 9; done
g++ -fsanitize=address $T/*.o -o $T/demo -lm || exit 9
export ASAN_OPTIONS=detect_leaks=0:alloc_dealloc_mismatch=0
timeout 200 $T/demo $T >$T/out.txt 2>$T/err.txt; rc=$?
grep -h DEMO $T/err.txt; tail -3 $T/err.txt
exit $rc
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): assert sh('git -C %s status --porcelain' % R).stdout.strip() == '', 'repo dirty'
def undo(): sh('git -C %s checkout -- .' % R)

def make(s):
    d = os.path.join(H, 'seeded', s['id']); os.makedirs(d, exist_ok=True); clean()
    try:
        for f, a, b in s['edits']:
            p = os.path.join(R, f); t = open(p).read()
            if t.count(a) != 1: print(s['id'], 'EDIT does not match once', f, t.count(a)); return False
            open(p, 'w').write(t.replace(a, b))
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % R).stdout)
    finally: undo()
    open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write('#include "demo_util.h"\n' + s['demo']); shutil.copy(H + '/tools/seedsrc/demo_util.h', d)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    a = sh('cd %s && bash %s/demo.sh' % (R, d))
    if a.returncode: print(s['id'], 'DEMO FAILS ON CLEAN TREE', a.stdout[-800:]); return False
    try:
        assert sh('git -C %s apply %s/patch.diff' % (R, d)).returncode == 0
        b = sh('bash /opt/vp/build.sh'); c = sh('bash /opt/vp/test.sh /tmp/seed.json'); e = sh('cd %s && bash %s/demo.sh' % (R, d))
        j = json.load(open('/tmp/seed.json'))
        ok = b.returncode == 0 and not j['failed'] and e.returncode != 0
        print(s['id'], 'ok' if ok else 'REJECTED build %d failed %s demo %d %s' % (b.returncode, j['failed'], e.returncode, e.stdout[-300:]))
        return ok
    finally: undo(); 

def check(i):
    d = os.path.join(H, 'seeded', i); pid = json.load(open(d + '/meta.json'))['property']; clean()
    try:
        assert sh('git -C %s apply %s/patch.diff' % (R, d)).returncode == 0
        o = sh('cd %s && timeout 900 python3-vt dv/run.py %s quick' % (H, pid))
        v = [l for l in o.stdout.split('\n') if l.startswith('VIOLATION')]
        print(i, pid, 'rc', o.returncode, v[0] if v else 'MISSED', '|', o.stdout.split('\n')[0][-160:]); sys.stdout.flush()
        if os.environ.get('FULL'): print(o.stdout)
    finally: undo()

import seeds
ids = sys.argv[2:] or [s['id'] for s in seeds.SEEDS]
for s in seeds.SEEDS:
    if s['id'] in ids: (make if sys.argv[1] == 'make' else lambda s: check(s['id']))(s)
if sys.argv[1] == 'make': sh('bash /opt/vp/build.sh')
