"""development driver: python3-vt dev.py UNIT [harness...]"""
import sys, time, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, sym, build
import traceback

def run_harness(mod, h, opts, verbose=True):
    ex = sym.Exec(mod, h, opts)
    t = time.time()
    try:
        obls = ex.verify()
    except (sym.Unsupported, sym.OutOfTime, ir.IRError) as e:
        print('%s: UNDECIDED %s %s' % (h, type(e).__name__, e)); 
        if verbose>1: traceback.print_exc()
        return ex
    bad = [o for o in obls.values() if o.failed]
    print('%s: %d obligations (%d VCs), %d failed; %d paths, rounds %d, %.1fs (solver %.1fs, %d q) covers %s loops %d' % (
        h, len(obls), sum(o.paths for o in obls.values()), len(bad), ex.paths, ex.rounds, time.time() - t, ex.stats.time, ex.stats.queries, ex.covers, len(ex.loops_seen)))
    for o in bad:
        print('   FAILED', o.kind, o.name, o.loc, o.failed[0][:3])
    if verbose > 1:
        for k in ex.loops_seen:
            print('   loop', k, 'measures', list(ex.measures.get(k) or [])[:3], 'havoc', ex.havoc.get(k))
    return ex

if __name__ == '__main__':
    import tempfile, atexit, shutil
    OUT = tempfile.mkdtemp(prefix='vfdev')
    atexit.register(shutil.rmtree, OUT, True)
    u = sys.argv[1]
    args = sys.argv[2:]
    v = 1
    if '-v' in args:
        args.remove('-v'); v = 2
    t = time.time()
    fin, pre, srcs = build.build_unit(u, OUT)
    mod = ir.parse_module(open(fin).read())
    un = build.load_unit(u)
    print('build %.1fs' % (time.time() - t))
    hs = [n for n in mod.funcs if n.startswith('verify_')]
    for h in hs:
        if args and not any(a in h for a in args): continue
        o = dict(getattr(un, 'OPTS', {})); o.update(un.HARNESS.get(h, {}))
        run_harness(mod, h, o, v)
