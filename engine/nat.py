"""native search of harnesses of a unit: python3-vt nat.py UNIT [harness-substr...] (development)"""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, run
from concurrent.futures import ThreadPoolExecutor
u = sys.argv[1]
out = '/tmp/vfbuild/nat_' + u
os.system('rm -rf ' + out)
os.makedirs(out, exist_ok=True)
exe = run.native_build(u, out)
fin, pre, _ = build.build_unit(u, out)
hs = re.findall(r'^define .*?@(verify_\w+)\(', open(fin).read(), re.M)
hs = [h for h in hs if len(sys.argv) < 3 or any(a in h for a in sys.argv[2:])]
dic = run.dictionary(fin)
def f(h):
    tp, txt = run.native_search(exe, h, 4, 1, out, dic)
    return h, tp, txt, run.native_replay(exe, h, tp)[1][:1500] if tp else ''
with ThreadPoolExecutor(8) as tp:
    for h, t, txt, r in tp.map(f, hs):
        print(h, 'FOUND' if t else '-', txt[-200:], r)
