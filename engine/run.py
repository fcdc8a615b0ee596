"""check driver: python3-vt run.py PROPERTY [--tier quick|thorough] | --replay FILE"""
import sys, os, json, time, subprocess, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from build import VERIF, SRC, REPO
import props

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
PY = sys.executable
NPROC = max(2, min(8, os.cpu_count() or 2))


def worker(ll, unit, h, mode, tl):
    cmd = [PY, VERIF + '/engine/worker.py', ll, unit, h, mode, str(tl)]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=tl + (0 if mode == 'retry' else 60))
    except subprocess.TimeoutExpired:
        return {'unit': unit, 'harness': h, 'mode': mode, 'status': 'undecided', 'reason': 'time limit', 'obligations': []}
    try:
        return json.loads(p.stdout.strip().split('\n')[-1])
    except Exception:
        return {'unit': unit, 'harness': h, 'mode': mode, 'status': 'undecided', 'reason': 'worker died: ' + p.stderr[-1500:], 'obligations': []}


def native_build(unit, out):
    """ASan build of the unit, the real sources and the native primitives"""
    exe = '%s/%s.native' % (out, unit)
    if os.path.exists(exe):
        return exe
    u = build.load_unit(unit)
    fl = build.flags(getattr(u, 'FLAGS', [])) + ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-DVF_NATIVE=1']
    srcs = ['%s/units/%s.cpp' % (VERIF, unit)] + [SRC + '/' + s for s in list(u.SOURCES) + list(getattr(u, 'NATIVE_EXTRA', build.NATIVE_EXTRA))]
    jobs = []
    objs = []
    for i, s in enumerate(srcs):
        o = '%s/%s_n%d.o' % (out, unit, i)
        objs.append(o)
        jobs.append([build.CXX] + fl + ['-c', s, '-o', o])
    o = out + '/vf_native_%s.o' % unit
    objs.append(o)
    jobs.append([build.CXX, '-std=c++14', '-O1', '-g1', '-fsanitize=address', '-fno-exceptions', '-I' + VERIF + '/lib', '-c', VERIF + '/lib/vf_native.cpp', '-o', o])
    with ThreadPoolExecutor(NPROC) as tp:
        list(tp.map(build.sh, jobs))
    build.sh([build.CXX, '-fsanitize=address', '-rdynamic', '-pthread', '-Wl,--unresolved-symbols=ignore-all',
              '-Wl,--wrap=malloc,--wrap=free,--wrap=realloc,--wrap=posix_memalign'] + objs + ['-ldl', '-o', exe])
    return exe


NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_segv=1')


def write_tape(tape, fn):
    b = bytearray()
    for t in tape:
        if t[0] == 'i':
            b += b'i' + int(t[2]).to_bytes(8, 'little')
        else:
            b += b'b' + int(t[1]).to_bytes(8, 'little') + bytes.fromhex(t[2])
    open(fn, 'wb').write(b)


def native_replay(exe, h, tapefile):
    try:
        p = subprocess.run([exe, h, 'replay', tapefile], capture_output=True, text=True, errors='replace', timeout=60, env=NENV, cwd=os.path.dirname(exe))
    except subprocess.TimeoutExpired:
        return True, 'timeout'
    if 'VF-PASSED' in p.stdout or 'VF-DISCARDED' in p.stdout:
        return False, p.stdout.strip()
    return True, (p.stdout[-500:] + '\n' + p.stderr[-2500:]).strip()


def dictionary(ll):
    """integer constants of the verified code: seeds for the native search"""
    c = set()
    for m in re.finditer(r'(?:icmp \w+ i\d+ \S+, |i\d+ |, )(-?\d+)\b', open(ll).read()):
        v = int(m.group(1))
        if -(1 << 63) <= v < (1 << 64) and abs(v) > 2:
            c.add(v & ((1 << 64) - 1))
    return [str(x) for x in sorted(c)][:300]


def native_search(exe, h, secs, seed, out, dic):
    tape = '%s/%s_%d.tape' % (out, h, seed)
    try:
        p = subprocess.run([exe, h, 'search', str(seed), str(secs), tape] + dic, capture_output=True, text=True, errors='replace', timeout=secs + 60, env=NENV, cwd=out)
    except subprocess.TimeoutExpired:
        return None, 'search time limit'
    m = re.search(r'VF-FOUND (.*)', p.stdout)
    if m:
        return tape, m.group(1)
    return None, p.stdout.strip()[-300:]


def reach(pre, h):
    """functions of the repository reachable from the harness before inlining"""
    import sym
    txt = open(pre).read()
    calls = {}
    cur = None
    for ln in txt.split('\n'):
        if ln.startswith('define'):
            cur = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln).group(1).strip('"')
            calls[cur] = set()
        elif ln.startswith('}'):
            cur = None
        elif cur and '@' in ln:
            for m in re.finditer(r'@("[^"]*"|[-\w$.]+)', ln):
                calls[cur].add(m.group(1).strip('"'))
    seen = set()
    st = [h]
    while st:
        x = st.pop()
        if x in seen or x not in calls:
            continue
        seen.add(x)
        st.extend(calls[x])
    sym.preload_demangle(list(seen))
    return sorted({re.sub(r'\[abi:[^]]*\]', '', sym.demangle(x)) for x in seen if not x.startswith(('verify_', 'vf_', 'spec_', 'inv_', 'contract_', 'axiom_', '_ZN9__gnu', '_ZSt', '_ZNSt'))})


def check(prop, tier):
    t0 = time.time()
    P = props.PROPS[prop]
    out = tempfile.mkdtemp(prefix='vf_%s_' % prop)
    code = 2
    try:
        code = check_in(prop, tier, P, out, t0)
    except build.BuildError as e:
        print('ERROR: the code under check does not build with the harness:\n%s' % e)
        write_evidence(prop, tier, P, [], {}, t0, 0, error=str(e)[:2000])
        code = 2
    finally:
        shutil.rmtree(out, ignore_errors=True)
    return code


def check_in(prop, tier, P, out, t0):
    import ir
    units = P['units']          # list of (unit, harness regex)
    lls = {}
    with ThreadPoolExecutor(4) as tp:
        for (u, _), r in zip(units, tp.map(lambda x: build.build_unit(x[0], out), units)):
            lls[u] = r
    jobs = []
    for u, pat in units:
        txt = open(lls[u][0]).read()
        un = build.load_unit(u)
        hs = re.findall(r'^define .*?@(verify_\w+)\(', txt, re.M)
        sel = [h for h in hs if re.match('verify_(' + pat + ')$', h)]
        if not sel:
            raise build.BuildError('no harness of unit %s matches %s' % (u, pat))
        for h in sel:
            o = un.HARNESS.get(h, {})
            if o.get('tier') == 'thorough' and tier != 'thorough':
                continue
            jobs.append((u, h, o.get('cost', 10)))
    jobs.sort(key=lambda j: -j[2])
    limit = 600 if tier == 'quick' else 800
    with ThreadPoolExecutor(NPROC) as tp:
        res = list(tp.map(lambda j: worker(lls[j[0]][0], j[0], j[1], 'verify', limit), jobs))
    bad = [r for r in res if r['status'] != 'proved']
    viol = []
    for r in res:
        nf = sum(1 for o in r['obligations'] if o['failed'])
        print('%-34s %-9s %3d obligations %4d VCs %2d failed  solver %.1fs %s' % (
            r['harness'], r['status'], len(r['obligations']), sum(o['vcs'] for o in r['obligations']), nf, r.get('solver_s', 0), r.get('reason', '')[:300]))
    if bad:
        viol = investigate(prop, P, bad, lls, out, t0)
        left = 840 - (time.time() - t0)
        if not any(v['concrete'] for v in viol) and left > 60 and all(retriable(r) for r in bad):
            # no counterexample and no failing input: the solvers ran out of time; once more with larger limits
            with ThreadPoolExecutor(NPROC) as tp:
                again = list(tp.map(lambda r: worker(lls[r['unit']][0], r['unit'], r['harness'], 'retry', left), bad))
            ok = {r['harness']: r for r in again if r['status'] == 'proved'}
            for r in again:
                print('again: %-34s %-9s solver %.1fs %s' % (r['harness'], r['status'], r.get('solver_s', 0), r.get('reason', '')[:300]))
            res = [ok.get(r['harness'], r) for r in res]
            viol = [v for v in viol if v['harness'] not in ok]
    funcs = {}
    for u, h, _ in jobs:
        funcs[h] = reach(lls[u][1], h)
    write_evidence(prop, tier, P, res, funcs, t0, len(viol), viol=viol)
    if viol:
        conc = [v for v in viol if v['concrete']]
        v = (conc or viol)[0]
        for x in viol:
            print('  %s: obligation %s' % (x['harness'], x['obligation']))
        print('VIOLATION property=%s replay=%s%s' % (prop, v['replay'], '' if v['concrete'] else ' no-failing-input-found'))
        return 1
    print('OK property=%s: %d functions harnessed, all obligations discharged, %.1fs' % (prop, len(res), time.time() - t0))
    return 0


def retriable(r):
    if r['status'] == 'undecided':
        return r.get('reason', '').startswith(('OutOfTime', 'time limit'))
    return r['status'] == 'failed' and all(f[0] == 'unknown' for o in r['obligations'] for f in o['failed'])


def investigate(prop, P, bad, lls, out, t0):
    """a failed obligation: look for an input of the real code that shows it"""
    rdir = VERIF + '/out'
    os.makedirs(rdir, exist_ok=True)
    viol = []
    exes = {}
    err = {}
    for u in sorted({r['unit'] for r in bad}):
        try:
            exes[u] = native_build(u, out)
        except build.BuildError as e:
            err[u] = str(e)[-1500:]
    budget = max(30, min(150, 780 - (time.time() - t0)))
    n = len(bad)
    per = max(10, min(60, budget * NPROC / (3 * n) if n * 3 > NPROC else 60))
    tasks = []
    for r in bad:
        u, h = r['unit'], r['harness']
        if u not in exes:
            continue
        # models the verifier returned for the failed obligations themselves
        k = 0
        for o in r['obligations']:
            for f in o['failed']:
                if f[3]:
                    tasks.append(('model', r, f[3], k, o))
                    k += 1
        tasks.append(('bmc', r, None, 0, None))
        for k in range(2):
            tasks.append(('search', r, None, k, None))

    found = {}

    def do(t):
        kind, r, tape, k, o = t
        u, h = r['unit'], r['harness']
        if h in found:
            return
        exe = exes[u]
        tf = '%s/%s_%s_%d.tape' % (out, h, kind, k)
        if kind == 'model':
            write_tape(tape, tf)
            ok, txt = native_replay(exe, h, tf)
            if ok:
                found.setdefault(h, (tf, 'verifier counterexample', o['name'] + ' @ ' + o['loc'], txt))
        elif kind == 'bmc':
            w = worker(lls[u][0], u, h, 'bmc', per)
            f = w.get('found')
            if f and f['tape']:
                write_tape(f['tape'], tf)
                ok, txt = native_replay(exe, h, tf)
                if ok:
                    found.setdefault(h, (tf, 'verifier counterexample (bounded unrolling %d)' % f['depth'], f['obligation'] + ' @ ' + f['loc'], txt))
        else:
            tp, txt = native_search(exe, h, per, SEED * 100 + k, out, dictionary(lls[u][0]))
            if tp:
                ok, txt2 = native_replay(exe, h, tp)
                if ok:
                    found.setdefault(h, (tp, 'native search', txt, txt2))
    with ThreadPoolExecutor(NPROC) as tp:
        list(tp.map(do, tasks))
    for r in bad:
        h = r['harness']
        rp = '%s/%s_%s.json' % (rdir, prop, h)
        fo = [o for o in r['obligations'] if o['failed']]
        names = ['%s [%s] @ %s' % (o['name'], o['kind'], o['loc']) for o in fo] or [r.get('reason') or '; '.join(r.get('vacuity', [])) or 'undecided']
        d = {'property': prop, 'unit': r['unit'], 'harness': h, 'status': r['status'], 'failed_obligations': names,
             'verifier_output': [[o['name'], o['loc'], [f[:3] for f in o['failed']]] for o in fo], 'reason': r.get('reason', ''), 'native_build_error': err.get(r['unit'], '')}
        if h in found:
            tf, how, ob, txt = found[h]
            d.update({'found_by': how, 'failing': ob, 'tape_hex': open(tf, 'rb').read().hex(), 'native_output': txt[-3000:]})
            d['how_to_replay'] = 'cd /verif && python3-vt engine/run.py --replay %s' % rp
            ob0 = ob
        else:
            ob0 = names[0]
        json.dump(d, open(rp, 'w'), indent=1)
        viol.append({'harness': h, 'replay': rp, 'concrete': h in found, 'obligation': ob0})
    return viol


def write_evidence(prop, tier, P, res, funcs, t0, nviol, viol=(), error=None):
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    allf = sorted({f for v in funcs.values() for f in v if 'ply::' in f or not re.match(r'[\w:]*std::|operator (new|delete)', f)})
    bk = {}
    nob = nvc = nd = triv = 0
    for r in res:
        for o in r['obligations']:
            nob += 1
            nvc += o['vcs']
            triv += o['trivial']
            if not o['failed'] and r['status'] in ('proved', 'failed'):
                nd += 1
            for b, k in o['backends'].items():
                bk[b] = bk.get(b, 0) + k
    bk['simplifier'] = triv
    notes = sorted({n for r in res for n in r.get('notes', [])})
    contracts = sorted({c for r in res for c in r.get('contracts_used', [])})
    cov = {
        'obligations': nob, 'discharged': nd, 'verification_conditions': nvc,
        'checker_cmd': 'python3-vt engine/run.py %s' % prop,
        'trusted_base': props.TRUSTED, 'back_ends': bk,
        'solver_s': round(sum(r.get('solver_s', 0) for r in res), 1),
        'functions_under_contract': allf, 'functions_count': len(allf),
        'contracts_assumed_at_call_sites': contracts,
        'harnesses': [{k: r.get(k) for k in ('harness', 'status', 'paths', 'rounds', 'solver_s', 'queries', 'wall_s', 'loops', 'vacuity', 'unrolled')} |
                      {'obligations': len(r['obligations'])} for r in res],
        'bounded': P.get('bounded', []),
    }
    if error:
        cov['error'] = error
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': P.get('level', 'proof'), 'coverage': cov,
          'assumptions': props.ASSUMPTIONS + P.get('assumptions', []) + notes, 'wall_s': round(time.time() - t0, 1), 'violations': nviol}
    json.dump(ev, open('%s/evidence/%s.json' % (VERIF, prop), 'w'), indent=1)


def replay(fn):
    d = json.load(open(fn))
    out = tempfile.mkdtemp(prefix='vf_replay_')
    try:
        if 'tape_hex' not in d:
            print('no failing input recorded; failed obligations:', d['failed_obligations'])
            return 1
        exe = native_build(d['unit'], out)
        tf = out + '/t.tape'
        open(tf, 'wb').write(bytes.fromhex(d['tape_hex']))
        ok, txt = native_replay(exe, d['harness'], tf)
        print(txt)
        print('REPRODUCED' if ok else 'not reproduced')
        return 1 if ok else 0
    finally:
        shutil.rmtree(out, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == '--setup':
        for t in (['clang++-18', '--version'], ['opt-18', '--version']):
            subprocess.run(t, check=True, stdout=subprocess.DEVNULL)
        import z3
        print('ok')
        sys.exit(0)
    if sys.argv[1] == '--replay':
        sys.exit(replay(sys.argv[2]))
    prop = sys.argv[1]
    tier = TIER
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    kf = getattr(props, 'KNOWN', {}).get(prop, [])
    code = check(prop, tier)
    sys.exit(code)
