"""makes a seeded bug: mkseed.py ID PROPERTY file 'old' 'new' (replaces once, in a clone) ; demo.sh and friends written by hand
usage from python: seed(id, prop, [(file, old, new)], needs, breaks, {demo files})"""
import os, sys, json, subprocess, shutil
REPO = os.environ.get('SEEDREPO', '/repo')
def seed(i, prop, edits, needs, breaks, files):
    d = '/verif/seeded/' + i
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(['git', '-C', REPO, 'status', '--porcelain'], capture_output=True, text=True).stdout.strip()
    try:
        for f, old, new in edits:
            p = os.path.join(REPO, f); b = open(p, encoding='latin1').read()
            assert b.count(old) == 1, (f, old, b.count(old))
            open(p, 'w', encoding='latin1').write(b.replace(old, new))
        o = subprocess.run(['git', '-C', REPO, 'diff'], capture_output=True).stdout
        open(d + '/patch.diff', 'wb').write(o)
    finally:
        subprocess.run(['git', '-C', REPO, 'checkout', '-q', '--', '.'])
    for n, t in files.items():
        open(d + '/' + n, 'w').write(t)
        if n.endswith('.sh'): os.chmod(d + '/' + n, 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
DEMO_C = '''#!/bin/bash
# run with cwd = the repository, after its build
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -w -g -O1 -DLittle_Endian -I include -I src/PUBLIC_INCLUDES -I src/primitives -c "$D/demo.c" -o "$T/demo.o" || exit 2
gfortran -o "$T/demo" "$T/demo.o" _build/librmn.a -lm -ldl -lpthread -fopenmp || exit 2
cd "$T" && ./demo
'''
DEMO_F = '''#!/bin/bash
# run with cwd = the repository, after its build
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gfortran -w -g -O1 -J "$T" -I _build -I _build/include -I include -c %s "$D/demo.F90" -o "$T/demo.o" || exit 2
gfortran -o "$T/demo" "$T/demo.o" _build/librmn.a -lm -ldl -lpthread -fopenmp || exit 2
cd "$T" && ./demo
'''
APP = ['App.h', 'appstub.c', 'app.F90', 'CMakeLists.txt']
DEMO_APP = '''#!/bin/bash
# run with cwd = the repository: builds all of it (with a stand-in for the App library) in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
{ cmake -S "$D" -B "$T/b" -G Ninja -DR="$R" && ninja -C "$T/b"; } > "$T/log" 2>&1 || { tail -5 "$T/log"; exit 2; }
gcc -w -g -O1 -DLittle_Endian -I "$D" -I include -I src/PUBLIC_INCLUDES -I src/PUBLIC_INCLUDES/rmn -I src/fstd98 -I src -c "$D/demo.c" -o "$T/demo.o" || exit 2
gfortran -o "$T/demo" "$T/demo.o" "$T/b/librmnv.a" -lm -ldl -lpthread || exit 2
mkdir "$T/w" && cd "$T/w" && ../demo > ../out 2> ../err; rc=$?; tail -3 ../out; exit $rc
'''
def appseed(i, prop, edits, needs, breaks, demo):
    f = {n: open('/verif/harness/appstub/' + n).read() for n in APP}; f['demo.sh'] = DEMO_APP; f['demo.c'] = demo
    seed(i, prop, edits, needs, breaks, f); own(i)
def cseed(i, prop, edits, needs, breaks, demo):
    seed(i, prop, edits, needs, breaks, {'demo.sh': DEMO_C, 'demo.c': demo}); own(i)
def own(i):
    """the lines removed must be lines of the original repository"""
    cur = None
    for l in open('/verif/seeded/%s/patch.diff' % i, encoding='latin1'):
        l = l.rstrip('\n')
        if l.startswith('--- a/'): cur = open('/tmp/base/' + l[6:], encoding='latin1').read().split('\n')
        elif l.startswith('-') and not l.startswith('---') and l[1:] not in cur: print(i, 'NOT ORIGINAL:', l)
