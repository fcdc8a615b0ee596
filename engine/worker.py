"""verify one harness: python3-vt worker.py LL UNIT HARNESS MODE(verify|bmc) -> JSON on stdout"""
import sys, os, json, time, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir, sym, build


def main():
    ll, unit, h, mode = sys.argv[1:5]
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    sys.setrecursionlimit(20000)
    u = build.load_unit(unit)
    opts = dict(getattr(u, 'OPTS', {}))
    opts.update(u.HARNESS.get(h, {}))
    t0 = time.time()
    out = {'unit': unit, 'harness': h, 'mode': mode}
    mod = ir.parse_module(open(ll).read())
    sym.preload_demangle(list(mod.funcs) + list(mod.decls))
    if mode == 'bmc':
        best = None
        tl = float(sys.argv[5])
        for depth in (1, 2, 4, 7, 12):
            left = tl - (time.time() - t0)
            if left < 2:
                break
            o = dict(opts)
            o['time'] = left
            ex = sym.Exec(mod, h, o)
            try:
                r = ex.bounded(depth)
            except (sym.Unsupported, sym.OutOfTime, ir.IRError) as e:
                out['note'] = '%s: %s' % (type(e).__name__, e)
                continue
            except Exception as e:
                out['note'] = 'internal %r' % e
                continue
            if r:
                best = {'obligation': r[0].name, 'kind': r[0].kind, 'loc': r[0].loc, 'tape': r[1], 'depth': depth}
                break
        out['found'] = best
        print(json.dumps(out))
        return
    if mode == 'retry':
        opts['query'] = 90000
        opts['path_query'] = 8000
        opts['time'] = float(sys.argv[5]) - 5
    ex = sym.Exec(mod, h, opts)
    out['status'] = 'proved'
    try:
        obls = ex.verify()
    except (sym.Unsupported, sym.OutOfTime, ir.IRError, MemoryError) as e:
        out['status'] = 'undecided'
        out['reason'] = '%s: %s' % (type(e).__name__, e)
        obls = ex.obls
    except Exception as e:
        import traceback
        out['status'] = 'undecided'
        out['reason'] = 'internal error %r %s' % (e, traceback.format_exc()[-1500:])
        obls = ex.obls
    ol = []
    for o in obls.values():
        ol.append({'name': o.name, 'kind': o.kind, 'loc': o.loc, 'vcs': o.paths, 'proved': o.proved, 'trivial': o.triv,
                   'backends': o.backends, 'failed': [list(f[:3]) + [f[3]] for f in o.failed]})
        if o.failed and out['status'] == 'proved':
            out['status'] = 'failed'
    vac = []
    if out['status'] == 'proved':
        if not ex.covers.get('exit_sat') and not opts.get('noexit'):
            vac.append('no feasible path reaches the end of the harness')
        for c, v in ex.covers.items():
            if c.startswith('cover:') and not v:
                vac.append('unreachable ' + c)
        if not [o for o in obls.values() if o.kind == 'ensures']:
            vac.append('no postcondition obligation was generated')
        if vac:
            out['status'] = 'vacuous'
    out['vacuity'] = vac
    out['obligations'] = ol
    out['paths'] = ex.paths
    out['rounds'] = getattr(ex, 'rounds', 0)
    out['solver_s'] = round(ex.stats.time, 2)
    out['queries'] = ex.stats.queries
    out['wall_s'] = round(time.time() - t0, 2)
    out['notes'] = sorted(ex.notes)
    out['loops'] = [{'at': ex.loop_loc(*k), 'measure': sorted(ex.measures.get(k) or [])[:1]} for k in sorted(ex.loops_seen)]
    out['contracts_used'] = sorted('%s -> %s' % (sym.demangle(a), b) for a, b in ex.assumed)
    out['unrolled'] = list(opts.get('unroll', []))
    print(json.dumps(out))


main()
