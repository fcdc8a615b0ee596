"""development helper: create and confirm planted bugs. A seed file (Python) defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C++ text)]
python3-vt tools/seedlib.py SEEDFILE [id...]  -> writes seeded/<id>/ and confirms build, tests, demo (in /repo, undone afterwards)"""
import sys, os, json, subprocess, shutil, runpy, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/repos/plywood/src/'
DEMO_SH = '''#!/bin/bash
# builds demo.cpp against the sources in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
S="$PWD/repos/plywood/src"
fl="-std=c++14 -w -O0 -g1 -fno-exceptions -fno-rtti -fno-strict-aliasing -pthread -include utility -DPLY_WITH_ASSERTS=%(asserts)s -I$here/config %(inc)s %(san)s"
srcs="$here/demo.cpp"
for f in %(srcs)s; do srcs="$srcs $S/$f"; done
i=0; for f in $srcs; do i=$((i+1)); echo "clang++-18 $fl -c $f -o $t/$i.o || exit 255"; done | xargs -P 8 -d '\\n' -I{} sh -c '{}' || { echo "demo does not build"; exit 2; }
clang++-18 -fsanitize=address -rdynamic -pthread -Wl,--unresolved-symbols=ignore-all $t/*.o -ldl -o $t/demo || exit 2
cd "$t" && ASAN_OPTIONS=detect_leaks=%(leaks)s timeout 120 ./demo
'''
sys.path.insert(0, V + '/engine')
import build

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def make(s):
    d = V + '/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    for f, old, new in s['edits']:
        t = open(SRC + f).read()
        assert t.count(old) == 1, (s['id'], f, t.count(old))
        open(SRC + f, 'w').write(t.replace(old, new))
    try:
        p = sh('git -C /repo diff')
        open(d + '/patch.diff', 'w').write(p.stdout)
        shutil.rmtree(d + '/config', True)
        shutil.copytree(V + '/config', d + '/config')
        open(d + '/demo.cpp', 'w').write(s['demo'])
        srcs = list(build.RUNTIME) + list(build.NATIVE_EXTRA) + list(s.get('srcs', []))
        open(d + '/demo.sh', 'w').write(DEMO_SH % dict(inc=' '.join('-I$S/' + i for i in build.INC), san='-fsanitize=address', srcs=' '.join(srcs), asserts=s.get('asserts', 1), leaks=s.get('leaks', 0)))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        dm = sh('bash %s/demo.sh' % d, cwd='/repo')
        b = sh('bash /opt/vp/build.sh')
        bad = []
        if b.returncode: bad = 'BUILD FAILED'
        else:
            sh('bash /opt/vp/test.sh /tmp/seed_out.json')
            o = json.load(open('/tmp/seed_out.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            st = base['stable']
            bad = [x for x in st if x not in o['passed']]
    finally:
        sh('git -C /repo checkout -- .')
    dm0 = sh('bash %s/demo.sh' % d, cwd='/repo')
    ok = dm.returncode != 0 and dm.returncode != 2 and dm0.returncode == 0 and not bad
    print(s['id'], 'OK' if ok else 'BAD', 'demo with patch', dm.returncode, 'without', dm0.returncode, 'broken tests', bad[:5], flush=True)
    if not ok:
        print(dm.stdout[-500:], dm.stderr[-1500:], dm0.stdout[-500:], dm0.stderr[-1500:])

m = runpy.run_path(sys.argv[1])
for s in m['SEEDS']:
    if len(sys.argv) < 3 or s['id'] in sys.argv[2:]:
        make(s)
sh('bash /opt/vp/build.sh')
