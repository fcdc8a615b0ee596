"""Compile /repo's current sources plus a harness unit to LLVM IR and link/inline them."""
import hashlib
import importlib.util
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
SRC = REPO + '/repos/plywood/src'
INC = ['platform', 'runtime', 'reflect', 'pylon/pylon', 'pylon/reflect', 'cpp', 'crowbar', 'math/math', 'math/serial', 'image/image',
       'web/common', 'web/markdown', 'web/serve-docs', 'web/documentation', 'audio/primitives', 'build/common', 'build/target', 'build/provider',
       'build/folder', 'build/repo', 'cook', 'codec']
CXX = 'clang++-18'
_R = 'runtime/ply-runtime/'
# every portable runtime source (platform back ends and Label.cpp, which does not compile with asserts on its own, excluded)
RUNTIME = sorted(os.path.relpath(os.path.join(d, f), SRC) for d, _, fs in os.walk(SRC + '/runtime/ply-runtime') for f in fs
                 if f.endswith('.cpp') and f not in ('Label.cpp', 'Precomp.cpp') and
                 (os.path.basename(d) != 'impl' or f in ('FormatString.cpp', 'TypeParser.cpp')))
NATIVE_EXTRA = [_R + 'filesystem/impl/FileSystem_POSIX.cpp', _R + 'io/impl/Pipe_FD.cpp', _R + 'io/impl/StdPipes_FD.cpp']


def flags(extra=()):
    f = ['-std=c++14', '-fno-exceptions', '-fno-rtti', '-fno-strict-aliasing', '-DPLY_WITH_ASSERTS=1',
         '-I' + VERIF + '/config', '-I' + VERIF + '/lib', '-include', 'utility', '-w', '-pthread']
    for i in INC:
        f.append('-I%s/%s' % (SRC, i))
    return f + list(extra)


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stderr[-4000:]))
    return p.stdout


def load_unit(name):
    path = '%s/units/%s.py' % (VERIF, name)
    spec = importlib.util.spec_from_file_location('unit_' + name, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def build_unit(name, out):
    """returns (path to linked+inlined .ll, path to pre-inlining .ll)"""
    u = load_unit(name)
    os.makedirs(out, exist_ok=True)
    cc = ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-gline-tables-only', '-S', '-emit-llvm',
          '-fno-builtin', '-fno-threadsafe-statics']
    procs = []
    lls = []
    srcs = ['%s/units/%s.cpp' % (VERIF, name)] + [SRC + '/' + s for s in u.SOURCES]
    for i, s in enumerate(srcs):
        o = '%s/%s_%d.ll' % (out, name, i)
        lls.append(o)
        cmd = [CXX] + flags(getattr(u, 'FLAGS', [])) + cc + [s, '-o', o]
        procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    for cmd, p in procs:
        o, _ = p.communicate()
        if p.returncode:
            raise BuildError(' '.join(cmd) + '\n' + o[-4000:])
    linked = '%s/%s_l.ll' % (out, name)
    sh(['llvm-link-18', '-S'] + lls + ['-o', linked])
    txt = open(linked).read()
    # drop every noinline (PLY_NO_INLINE) so helpers are inlined; keep functions that have contracts apart
    txt = re.sub(r'\bnoinline\b', '', txt)
    txt = re.sub(r'\boptnone\b', '', txt)
    txt = re.sub(r'\balwaysinline\b', '', txt)
    defs = re.findall(r'^define .*?@("[^"]*"|[-\w$.]+)\(', txt, re.M)
    import sym
    names = [d.strip('"') for d in defs]
    sym.preload_demangle(names)
    keep = []
    pats = list(getattr(u, 'NOINLINE', []))
    for h, o in getattr(u, 'HARNESS', {}).items():
        pats += list(o.get('replace', {})) + list(o.get('rec', {}))
    for n in names:
        if n.startswith(('contract_', 'spec_', 'inv_', 'axiom_')) or any(re.search(p, sym.demangle(n)) for p in pats):
            keep.append(n)
    ks = set(keep)

    def fix(m):
        n = m.group(2).strip('"')
        if n in ks:
            return m.group(0).rstrip()[:-1].rstrip() + ' noinline {' if '!dbg' not in m.group(0) else re.sub(r' (#\d+ )?(align \d+ )?(comdat\S* )?(align \d+ )?!dbg', lambda k: ' noinline ' + k.group(0), m.group(0), count=1)
        return m.group(0)
    txt = re.sub(r'^(define .*?@)("[^"]*"|[-\w$.]+)\(.*\{$', fix, txt, flags=re.M)
    pre = '%s/%s_p.ll' % (out, name)
    open(pre, 'w').write(txt)
    api = [n for n in names if n.startswith(('verify_', 'contract_', 'spec_', 'inv_', 'axiom_', 'ghost_'))]
    gl = re.findall(r'^@(ghost_\w+) =', txt, re.M)
    final = '%s/%s.ll' % (out, name)
    # entry points are re-marked not to be inlined into each other
    passes = ('internalize,globaldce,function(sroa,early-cse,simplifycfg,instsimplify),cgscc(inline),'
              'globaldce,function(sroa,early-cse<memssa>,instsimplify,simplifycfg,sroa,early-cse,instsimplify,simplifycfg),globaldce')
    passes = getattr(u, 'PASSES', passes)
    sh(['opt-18', '-S', '-passes=' + passes, '-internalize-public-api-list=' + ','.join(api + gl),
        '-inline-threshold=100000000', '-inline-cost-full=0', pre, '-o', final])
    return final, pre, srcs
