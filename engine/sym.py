"""VC generator: symbolic execution of LLVM IR between cut points, with contracts,
loop invariants (template instances kept by a Houdini fixpoint) and z3/cvc5 back ends."""
import itertools
import re
import time
import subprocess
import tempfile
import os
import z3
from ir import *
import ir as IR

BV = z3.BitVec
BVV = z3.BitVecVal
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)
SIZE_LIMIT = 1 << 47
DEBUG = os.environ.get('VFDEBUG')


class Unsupported(Exception):
    pass


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class Restart(Exception):
    pass


class PathEnd(Exception):
    pass


class OutOfTime(Exception):
    pass


class Violated(Exception):
    """bounded mode: obligation refuted on a path from the entry"""


def simp(e):
    return z3.simplify(e)


def isc(e):
    return z3.is_bv_value(e)


def cval(e):
    return e.as_long()


def zext64(e):
    n = e.size()
    if n == 64:
        return e
    if n > 64:
        return simp(z3.Extract(63, 0, e))
    return simp(z3.ZeroExt(64 - n, e))


def sext64(e):
    n = e.size()
    if n == 64:
        return e
    return simp(z3.SignExt(64 - n, e))


def c64(v):
    return BVV(v, 64)


class Region:
    __slots__ = ('rid', 'name', 'size', 'kind', 'w', 'base', 'extra', 'align')

    def __init__(self, rid, name, size, kind, w=0):
        self.rid = rid
        self.name = name
        self.size = size
        self.kind = kind
        self.w = w
        self.base = None
        self.extra = None

    def __repr__(self):
        return 'R%d:%s' % (self.rid, self.name)


class Ptr:
    __slots__ = ('r', 'off')

    def __init__(self, r, off):
        self.r = r
        self.off = off

    def __repr__(self):
        return '<%s+%s>' % (self.r, self.off)


class FuncRef:
    def __init__(self, name):
        self.name = name
        self.kind = 'func'
        self.rid = -1
        self.base = None
        self.size = c64(0)

    def __repr__(self):
        return 'F:' + self.name


NULL = Ptr(None, c64(0))


def isnull(p):
    return p.r is None and isc(p.off) and cval(p.off) == 0


# ---------------- memory nodes ----------------
class Node:
    pass


class BaseUF(Node):
    __slots__ = ('uid', 'w')

    def __init__(self, uid, w):
        self.uid = uid
        self.w = w


class BaseUndef(Node):
    pass


UNDEF = BaseUndef()


class Cells(Node):
    __slots__ = ('d', 'base')

    def __init__(self, d, base):
        self.d = d        # off -> (size, val)
        self.base = base


class Store(Node):
    __slots__ = ('off', 'size', 'val', 'prev')

    def __init__(self, off, size, val, prev):
        self.off = off
        self.size = size
        self.val = val
        self.prev = prev


class Copy(Node):
    __slots__ = ('off', 'n', 'src', 'soff', 'prev')

    def __init__(self, off, n, src, soff, prev):
        self.off = off
        self.n = n
        self.src = src
        self.soff = soff
        self.prev = prev


class Fill(Node):
    __slots__ = ('off', 'n', 'byte', 'prev')

    def __init__(self, off, n, byte, prev):
        self.off = off
        self.n = n
        self.byte = byte
        self.prev = prev


class Act:
    """activation of a loop cut point"""
    __slots__ = ('header', 'entry', 'vals', 'mem', 'bounds', 'status', 'nregions')


class Frame:
    __slots__ = ('fn', 'env', 'label', 'idx', 'prev', 'acts', 'res', 'allocas', 'visits', 'iscontract')

    def __init__(self, fn):
        self.fn = fn
        self.env = {}
        self.label = fn.entry
        self.idx = 0
        self.prev = None
        self.acts = []
        self.res = None
        self.allocas = []
        self.visits = {}
        self.iscontract = False

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn = self.fn
        f.env = dict(self.env)
        f.label = self.label
        f.idx = self.idx
        f.prev = self.prev
        f.acts = list(self.acts)
        f.res = self.res
        f.allocas = list(self.allocas)
        f.visits = dict(self.visits)
        f.iscontract = self.iscontract
        return f


class State:
    def __init__(self):
        self.frames = []
        self.mem = {}
        self.status = {}
        self.regions = {}
        self.pc = []
        self.model = None
        self.nd = []
        self.cnt = {}
        self.globs = {}
        self.heap_live = 0
        self.logs = {}
        self.trust = 0

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.status = dict(self.status)
        s.regions = dict(self.regions)
        s.pc = list(self.pc)
        s.model = self.model
        s.nd = list(self.nd)
        s.cnt = dict(self.cnt)
        s.globs = dict(self.globs)
        s.heap_live = self.heap_live
        s.logs = dict(self.logs)
        s.trust = self.trust
        return s


# ---------------- solver ----------------
class SolverStats:
    def __init__(self):
        self.time = 0.0
        self.queries = 0
        self.by = {}


CVC5 = '/usr/bin/cvc5' if os.path.exists('/usr/bin/cvc5') else 'cvc5'


class Backend:
    def __init__(self, stats):
        self.st = stats
        self.cache = {}
        self.fpseen = {}
        self.last = 'z3'
        self.divax = {}       # id of a division axiom -> (axiom, id of the quotient)

    def nodiv(self, pc, keep):
        """pc without the axioms of divisions that do not occur in keep (a weaker path condition)"""
        if not self.divax:
            return list(pc)
        ids = set()
        stack = list(keep)
        while stack:
            e = stack.pop()
            if e.get_id() not in ids:
                ids.add(e.get_id())
                stack.extend(e.children())
        return [c for c in pc if c.get_id() not in self.divax or (keep and any(i in ids for i in self.divax[c.get_id()][1]))]

    def check(self, conds, timeout=5000, want_model=False):
        """returns ('sat', model) / ('unsat', None) / ('unknown', None)"""
        key = frozenset(c.get_id() for c in conds)
        hit = self.cache.get(key)
        if hit is not None and (hit[0][0] != 'unknown' or hit[2] >= timeout):
            return hit[0]
        r = self.check1(conds, timeout)
        self.cache[key] = (r, list(conds), timeout)
        return r

    def z3run(self, conds, timeout, logic='QF_UFBV'):
        t0 = time.time()
        s = z3.SimpleSolver() if logic == 'simple' else z3.SolverFor(logic) if logic else z3.Solver()
        s.set('timeout', int(timeout))
        s.add(conds)
        r = s.check()
        self.st.time += time.time() - t0
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            return 'sat', s.model()
        return 'unknown', None

    def isfp(self, conds):
        seen = self.fpseen
        for c in conds:
            k = c.get_id()
            v = seen.get(k)
            if v is None:
                v = seen[k] = (has_fp(c), c)
            if v[0]:
                return True
        return False

    def check1(self, conds, timeout):
        t0 = time.time()
        self.st.queries += 1
        fp = self.isfp(conds)
        lg = None if fp else 'QF_UFBV'
        self.last = 'z3'
        r = self.z3run(conds, min(400, timeout), 'simple')
        if r[0] == 'unknown' and timeout > 400:
            c = self.race(conds, timeout, fp)
            if c == 'unsat':
                r = ('unsat', None)
            else:
                self.last = 'z3'
                r = self.z3run(conds, min(1500, timeout), 'simple')
                if r[0] == 'unknown':
                    r = self.z3run(conds, timeout, lg)
                if r[0] == 'unknown' and c == 'sat':
                    self.last = 'cvc5-sat'
        dt = time.time() - t0
        if DEBUG and dt > 1:
            import traceback
            print('SLOW %.1f %s' % (dt, r[0]), self.last, ' < '.join(x.name + ':' + str(x.lineno) for x in traceback.extract_stack()[-6:-2][::-1]), len(conds), flush=True)
        return r

    def prove(self, pc, goal, timeout=20000):
        """portfolio; returns (status, model, backend)"""
        if self.divax:
            done = len(pc)
            for short in (self.nodiv(pc, []), self.nodiv(pc, [goal])):
                if len(short) == done:
                    continue
                done = len(short)
                r, m = self.check(short + [z3.Not(goal)], min(4000, timeout))
                if r == 'unsat':
                    return 'proved', None, self.last
        conds = list(pc) + [z3.Not(goal)]
        r, m = self.check(conds, timeout)
        if r == 'unsat':
            return 'proved', None, self.last
        if r == 'sat':
            return 'refuted', m, 'z3'
        r, m = self.z3run(conds, timeout, None)
        if r == 'unsat':
            return 'proved', None, 'z3-smt'
        if r == 'sat':
            return 'refuted', m, 'z3-smt'
        r = self.cvc5(conds, ['--solve-bv-as-int=sum'], timeout)
        if r == 'unsat':
            return 'proved', None, 'cvc5-bv-as-int'
        if r == 'sat' or self.last == 'cvc5-sat':
            return 'refuted', None, 'cvc5'
        return 'unknown', None, '-'

    def race(self, conds, timeout, fp):
        """cvc5 bit-blasting against cvc5 with integers; the first answer counts"""
        t0 = time.time()
        s = z3.Solver()
        s.add(conds)
        fd, fn = tempfile.mkstemp(suffix='.smt2')
        os.write(fd, ('(set-logic ALL)\n' + s.to_smt2()).encode())
        os.close(fd)
        ps = []
        for name, opts in (('cvc5', []),) + (() if fp else (('cvc5-bv-as-int', ['--solve-bv-as-int=iand']),)):
            try:
                ps.append((name, subprocess.Popen(['cvc5', '--tlimit=%d' % timeout, '-q'] + opts + [fn], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
            except OSError:
                pass
        res = 'unknown'
        end = t0 + timeout / 1000 + 10
        wait = 0.005
        while ps and time.time() < end:
            for q in list(ps):
                if q[1].poll() is not None:
                    ps.remove(q)
                    out = q[1].stdout.read().strip().split('\n')[0]
                    q[1].stdout.close()
                    if out in ('sat', 'unsat'):
                        res = out
                        self.last = q[0]
                        break
            if res != 'unknown':
                break
            time.sleep(wait)
            wait = min(0.05, wait * 1.5)
        for q in ps:
            q[1].kill()
            q[1].wait()
            q[1].stdout.close()
        os.unlink(fn)
        self.st.time += time.time() - t0
        return res

    def cvc5(self, conds, opts, timeout):
        t0 = time.time()
        s = z3.Solver()
        s.add(conds)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        fd, fn = tempfile.mkstemp(suffix='.smt2')
        os.write(fd, txt.encode())
        os.close(fd)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '-q'] + opts + [fn], capture_output=True, text=True,
                               timeout=timeout / 1000 + 10)
            out = p.stdout.strip().split('\n')[0]
        except Exception:
            out = 'unknown'
        os.unlink(fn)
        self.st.time += time.time() - t0
        return out


class Obl:
    __slots__ = ('name', 'kind', 'loc', 'proved', 'failed', 'backends', 'triv', 'paths')

    def __init__(self, name, kind, loc):
        self.name = name
        self.kind = kind
        self.loc = loc
        self.proved = 0
        self.failed = []
        self.backends = {}
        self.triv = 0
        self.paths = 0


class Exec:
    def __init__(self, mod, harness, opts=None):
        self.mod = mod
        self.harness = harness
        self.o = dict(time=300, maxpaths=20000, query=20000, bmc=0, lenbound=0, noterm=False, replace={}, rec={},
                      terms=None, noauto=False, path_query=2000, autounroll=0, unroll={}, terminv=True)
        self.o.update(opts or {})
        self.stats = SolverStats()
        self.be = Backend(self.stats)
        self.fresh_n = 0
        self.rid_n = 0
        self.globregs = {}
        self.dropped = {}       # (fn,header) -> set(ids)
        self.havoc = {}         # (fn,header) -> set(keys)
        self.ptrclass = {}      # (fn,header,name) -> class
        self.measures = {}      # (fn,header) -> set(ids) or None
        self.obls = {}
        self.mode = 'infer'
        self.covers = {}
        self.notes = set()
        self.funcs_seen = set()
        self.invs = self.find_invs('inv')
        self.axioms = self.find_invs('axiom')
        self.t0 = time.time()
        self.paths = 0
        self.base_bits = {}
        self.used_inv = {}
        self.loops_seen = set()
        self.rolled = set()
        self.divs = {}
        self.divroot = {}
        self.divq = {}
        self.assumed = set()
        self.bmc_fail = None

    # ---- util ----
    def find_invs(self, kind):
        r = []
        for n, f in self.mod.funcs.items():
            m = re.match(kind + r'_(.+?)__(\w+)$', n)
            if m and (m.group(1) == self.harness[len('verify_'):] or
                      m.group(1) in self.o.get('invsets', ())):
                r.append((m.group(2), f))
        return r

    def fresh(self, name, bits):
        self.fresh_n += 1
        return BV('%s!%d' % (name, self.fresh_n), bits)

    def uid(self):
        self.fresh_n += 1
        return self.fresh_n

    def region(self, st, name, size, kind, w=0, node=UNDEF):
        self.rid_n += 1
        k = st.cnt.get(name, 0)
        st.cnt[name] = k + 1
        if k:
            name = '%s#%d' % (name, k)
        r = Region(self.rid_n, name, size, kind, w)
        st.mem[r.rid] = node
        st.status[r.rid] = 'live'
        st.regions[r.rid] = r
        return r

    def rbase(self, st, r):
        """addresses: region k lives at k * 2^47 (sizes are at most 2^47, so regions are disjoint)"""
        if r.base is None:
            r.base = c64(r.rid << 47)
        return r.base

    def base_region(self, st, v):
        """region of an integer address of the form base + offset, read off the term"""
        c = None
        if isc(v):
            c = cval(v)
        elif z3.is_app(v) and v.decl().kind() == z3.Z3_OP_BADD:
            for x in v.children():
                if isc(x):
                    c = cval(x)
        if c is None or c < (1 << 46):
            return None
        return st.regions.get((c + (1 << 46)) >> 47)

    def toint(self, st, v):
        if isinstance(v, Ptr):
            if v.r is None:
                return v.off
            return simp(self.rbase(st, v.r) + v.off)
        return v

    def toptr(self, st, v):
        if isinstance(v, Ptr):
            return v
        v = simp(v)
        r = self.base_region(st, v)
        if r is not None:
            return Ptr(r, simp(v - self.rbase(st, r)))
        return Ptr(None, v)

    def checktime(self):
        if time.time() - self.t0 > self.o['time']:
            raise OutOfTime()

    # ---- obligations ----
    def loc(self, ins):
        if ins is None or ins.dbg is None:
            return ''
        return self.dbgloc(ins.dbg)

    def dbgloc(self, d):
        c = getattr(self, '_dl', None)
        if c is None:
            c = self._dl = {}
        if d in c:
            return c[d]
        t = self.mod.md.get(d, '')
        m = re.search(r'line: (\d+)', t)
        line = m.group(1) if m else '?'
        sc = re.search(r'scope: (!\d+)', t)
        fn = ''
        sp = ''
        if sc:
            x = sc.group(1)
            for _ in range(20):
                tt = self.mod.md.get(x, '')
                if 'DISubprogram' in tt:
                    m = re.search(r'name: "([^"]*)"', tt)
                    sp = m.group(1) if m else ''
                    m = re.search(r'file: (!\d+)', tt)
                    if m:
                        ft = self.mod.md.get(m.group(1), '')
                        m = re.search(r'filename: "([^"]*)"', ft)
                        fn = os.path.basename(m.group(1)) if m else ''
                    break
                m = re.search(r'scope: (!\d+)', tt)
                if not m:
                    break
                x = m.group(1)
        r = '%s:%s(%s)' % (fn, line, sp)
        c[d] = r
        return r

    def assume(self, st, c):
        c = simp(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathEnd()
        st.pc.append(c)
        if st.model is not None:
            if not z3.is_true(st.model.eval(c, model_completion=True)):
                st.model = None

    def oblige(self, st, cond, name, kind, ins=None):
        """cond must hold here on every path."""
        if self.pure:
            return
        cond = simp(cond)
        if self.mode == 'infer':
            self.assume(st, cond)
            return
        if st.trust and kind in ('assert', 'arith', 'unreachable'):
            self.notes.add('assertions of the code are assumed between vf_trust(true) and vf_trust(false) (proved by another harness)')
            self.assume(st, cond)
            return
        loc = self.loc(ins)
        key = (name, kind, loc)
        ob = self.obls.get(key)
        if ob is None:
            ob = self.obls[key] = Obl(name, kind, loc)
        ob.paths += 1
        if z3.is_true(cond):
            ob.triv += 1
            ob.proved += 1
            return
        if self.mode == 'bmc':
            r, m = self.be.check(st.pc + [z3.Not(cond)], 10000)
            if r == 'sat':
                self.bmc_fail = (ob, self.tape(st, m))
                raise Violated()
            if r == 'unsat':
                ob.proved += 1
            self.assume(st, cond)
            return
        # 'check' mode: st.model may falsify directly
        r, m, b = self.be.prove(st.pc, cond, self.o['query'])
        if r == 'proved':
            ob.proved += 1
            ob.backends[b] = ob.backends.get(b, 0) + 1
        else:
            ob.failed.append((r, b, self.describe(st, m) if m is not None else '', self.tape(st, m) if m is not None else None))
            if len(ob.failed) > 3:
                ob.failed = ob.failed[:3]
        self.assume(st, cond)

    def describe(self, st, m):
        out = []
        for kind, nm, t in st.nd[:40]:
            try:
                if kind == 'i':
                    out.append('%s=%s' % (nm, m.eval(t, model_completion=True)))
                elif kind == 'buf':
                    out.append('%s.size=%s' % (nm, m.eval(t[1], model_completion=True)))
            except Exception:
                pass
        return ' '.join(out)

    def tape(self, st, m):
        out = []
        for kind, nm, t in st.nd:
            if kind == 'i':
                v = m.eval(t, model_completion=True)
                if z3.is_true(v) or z3.is_false(v):
                    out.append(('i', 8, int(z3.is_true(v))))
                else:
                    out.append(('i', t.size(), v.as_long()))
            elif kind == 'buf':
                base, n, w = t
                nv = m.eval(n, model_completion=True).as_long()
                if nv > 4096:
                    return None
                data = bytearray()
                ww = base.w or 1
                for j in range(0, nv, ww):
                    f = self.uf(base, ww)
                    v = m.eval(f(c64(j)), model_completion=True).as_long()
                    data += v.to_bytes(ww, 'little')
                out.append(('b', nv, bytes(data[:nv]).hex()))
        return out

    # ---- feasibility ----
    def feasible(self, st, c):
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if st.model is not None and z3.is_true(st.model.eval(c, model_completion=True)):
            return True
        r, m = self.be.check(self.be.nodiv(st.pc, []) + [c], self.o['path_query'])
        if r == 'unsat':
            return False
        if r == 'sat' and not self.be.divax:
            return m
        return True

    def decide(self, st, c):
        """True/False if c is determined by the path condition, else None"""
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        for p in st.pc[::-1][:60]:
            if p.eq(c):
                return True
        if self.pure:
            nc = simp(z3.Not(c))
            for p in st.pc[::-1][:60]:
                if p.eq(nc):
                    return False
        t = None
        if st.model is not None:
            t = z3.is_true(st.model.eval(c, model_completion=True))
        if t is not True:
            r, m = self.be.check(self.be.nodiv(st.pc, []) + [c], self.o['path_query'])
            if r == 'unsat':
                return False
            if r == 'unknown':
                return None
            st.model = m
        r, m = self.be.check(self.be.nodiv(st.pc, []) + [z3.Not(c)], self.o['path_query'])
        if r == 'unsat':
            return True
        return None

    # ---- memory ----
    def uf(self, base, size):
        return z3.Function('m%d_%d' % (base.uid, size), z3.BitVecSort(64), z3.BitVecSort(8 * size))

    def read(self, st, node, off, size, ptr=False):
        """typed read of `size` bytes at BV64 `off`. returns BV or Ptr"""
        while True:
            if isinstance(node, BaseUndef):
                if ptr:
                    return Ptr(self.undef_region(st), self.fresh('undefp', 64))
                return self.fresh('undef', 8 * size)
            if isinstance(node, BaseUF):
                if ptr:
                    return Ptr(None, self.read_uf(st, node, off, size))
                return self.read_uf(st, node, off, size)
            if isinstance(node, Cells):
                r = self.read_cells(st, node, off, size, ptr)
                if r is None:
                    node = node.base
                    continue
                return r
            if isinstance(node, Store):
                d = simp(off - node.off)
                if isc(d):
                    dv = cval(d)
                    if dv >= 1 << 63:
                        dv -= 1 << 64
                    if dv == 0 and size == node.size:
                        return node.val
                    if dv >= node.size or dv <= -size:
                        node = node.prev
                        continue
                    if dv >= 0 and dv + size <= node.size:
                        v = self.toint(st, node.val)
                        return simp(z3.Extract(8 * (dv + size) - 1, 8 * dv, v))
                    return self.read_bytes(st, node, off, size)
                if size == node.size:
                    if size > 1:
                        part = z3.And(d != 0, z3.Or(z3.ULT(d, c64(size)), z3.UGT(d, c64((1 << 64) - size))))
                        if self.decide(st, part) is not False:
                            return self.read_bytes(st, node, off, size)
                    rest = self.read(st, node.prev, off, size, ptr)
                    return self.ite(st, d == 0, node.val, rest)
                ov = z3.Or(z3.ULT(d, c64(node.size)), z3.UGT(d, c64((1 << 64) - size)))
                if self.decide(st, ov) is False:
                    node = node.prev
                    continue
                return self.read_bytes(st, node, off, size)
            if isinstance(node, (Copy, Fill)):
                d = simp(off - node.off)
                # inside: d + size <= n  (unsigned, n < 2^47, no wrap as d<=n)
                inside = simp(z3.And(z3.ULE(c64(size), node.n), z3.ULE(d, node.n - size)))
                # outside: d >= n and d <= 2^64 - size
                outside = simp(z3.Or(node.n == 0, z3.And(z3.UGE(d, node.n), z3.ULE(d, c64(((1 << 64) - size) & ((1 << 64) - 1))))))
                if z3.is_true(inside):
                    ins = True
                elif z3.is_true(outside):
                    ins = False
                elif size == 1:
                    ins = None
                    if ptr:
                        ins = self.decide(st, inside)
                else:
                    ins = self.decide(st, inside)
                    if ins is False or ins is None:
                        o = self.decide(st, outside)
                        if o is True:
                            ins = False
                        else:
                            # maybe partial?
                            if self.decide(st, z3.Or(inside, outside)) is not True:
                                return self.read_bytes(st, node, off, size)
                            ins = None
                if ins is True or ins is None:
                    if isinstance(node, Copy):
                        a = lambda: self.read(st, node.src, simp(node.soff + d), size, ptr)
                    else:
                        a = lambda: self.fillval(node.byte, size, ptr)
                if ins is True:
                    return a()
                if ins is False:
                    node = node.prev
                    continue
                return self.ite(st, inside, a(), self.read(st, node.prev, off, size, ptr))
            raise Unsupported('read node %r' % node)

    def fillval(self, b, size, ptr):
        v = simp(z3.Concat(*([b] * size))) if size > 1 else b
        if ptr:
            return Ptr(None, v)
        return v

    def undef_region(self, st):
        r = st.cnt.get('undefreg')
        if r is None:
            r = self.region(st, 'uninit', c64(0), 'uninit')
            st.status[r.rid] = 'uninit'
            st.cnt['undefreg'] = r
        return r

    def ite(self, st, c, a, b):
        c = simp(c)
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
                return Ptr(a.r, simp(z3.If(c, a.off, b.off)))
            d = self.decide(st, c)
            if d is True:
                return a
            if d is False:
                return b
            if any(not isinstance(x, Ptr) or (x.r is None and not isc(x.off)) for x in (a, b)):
                return Ptr(None, simp(z3.If(c, self.toint(st, a), self.toint(st, b))))
            raise NeedSplit(c)
        return simp(z3.If(c, a, b))

    def read_bytes(self, st, node, off, size):
        if size == 1:
            raise Unsupported('byte read of partial overlap')
        bs = [self.read(st, node, simp(off + j), 1) for j in range(size)]
        bs = [self.toint(st, b) for b in bs]
        return simp(z3.Concat(*bs[::-1]))

    def read_uf(self, st, base, off, size):
        w = base.w
        if w == 0 or w == size:
            return self.uf(base, size)(off)
        if w == 1:
            f = self.uf(base, 1)
            return simp(z3.Concat(*[f(simp(off + j)) for j in range(size)][::-1]))
        if size < w:
            f = self.uf(base, w)
            lo = simp(off & (w - 1))
            al = simp(off - lo)
            word = f(al)
            if isc(lo):
                k = cval(lo)
                if k + size <= w:
                    return simp(z3.Extract(8 * (k + size) - 1, 8 * k, word))
            if size == 1:
                sh = simp(z3.LShR(word, zx(lo * 8, word.size())))
                return simp(z3.Extract(7, 0, sh))
            raise Unsupported('unaligned narrow read')
        # size > w
        f = self.uf(base, w)
        return simp(z3.Concat(*[f(simp(off + j)) for j in range(0, size, w)][::-1]))

    def read_cells(self, st, node, off, size, ptr):
        if isc(off):
            o = cval(off)
            e = node.d.get(o)
            if e is not None and e[0] == size:
                return e[1]
            hit = None
            for co, (cs, cv) in node.d.items():
                if co < o + size and o < co + cs:
                    hit = (co, cs, cv)
                    break
            if hit is None:
                return None
            co, cs, cv = hit
            if co <= o and o + size <= co + cs:
                v = self.toint(st, cv)
                k = o - co
                return simp(z3.Extract(8 * (k + size) - 1, 8 * k, v))
            # spans several cells / base: assemble bytes
            out = []
            for j in range(size):
                b = self.read(st, node, c64(o + j), 1)
                out.append(b)
            return simp(z3.Concat(*out[::-1]))
        # symbolic offset
        res = self.read(st, node.base, off, size, ptr) if not isinstance(node.base, BaseUndef) else None
        items = sorted(node.d.items())
        first = True
        for co, (cs, cv) in items:
            if cs == size:
                c = simp(off == co)
                if z3.is_false(c):
                    continue
                if res is None:
                    res = cv if not isinstance(cv, Ptr) else cv
                    # undefined elsewhere: keep the first as default only if in-range is certain
                    if len(items) > 1 or True:
                        res = self.ite(st, c, cv, self.fresh('undef', 8 * size) if not isinstance(cv, Ptr) else cv)
                    continue
                res = self.ite(st, c, cv, res)
            else:
                d = simp(off - co)
                ov = z3.Or(z3.ULT(d, c64(cs)), z3.UGT(d, c64((1 << 64) - size)))
                if self.decide(st, ov) is not False:
                    if size == 1:
                        v = self.toint(st, cv)
                        sh = simp(z3.LShR(v, zx(d * 8, v.size())))
                        bb = simp(z3.Extract(7, 0, sh))
                        if res is None:
                            res = self.fresh('undef', 8)
                        res = self.ite(st, z3.ULT(d, c64(cs)), bb, res)
                    elif size < cs:
                        return self.read_bytes(st, node, off, size)
                    else:
                        return self.read_bytes(st, node, off, size)
        if res is None:
            return Ptr(self.undef_region(st), self.fresh('undefp', 64)) if ptr else self.fresh('undef', 8 * size)
        return res

    def write(self, st, rid, off, size, val):
        node = st.mem[rid]
        if isc(off):
            o = cval(off)
            if isinstance(node, Cells):
                d = dict(node.d)
                base = node.base
            elif st.regions[rid].kind in ('stack', 'heap', 'global') and len_ok(st.regions[rid]) and isinstance(node, (BaseUndef, BaseUF, Fill, Copy)):
                d = {}
                base = node
            else:
                st.mem[rid] = Store(off, size, val, node)
                return
            for co in list(d):
                cs, cv = d[co]
                if co < o + size and o < co + cs:
                    if co >= o and co + cs <= o + size:
                        del d[co]
                    else:
                        iv = self.toint(st, cv)
                        del d[co]
                        for j in range(cs):
                            if not (o <= co + j < o + size):
                                d[co + j] = (1, simp(z3.Extract(8 * j + 7, 8 * j, iv)))
            d[o] = (size, val)
            st.mem[rid] = Cells(d, base)
            return
        st.mem[rid] = Store(off, size, val, node)

    def access(self, st, p, n, what, ins):
        """bounds/liveness obligation for n bytes (BV64) at p; returns region"""
        if p.r is None:
            q = self.resolve_addr(st, p, n)
            if q is not None:
                p.r, p.off = q.r, q.off
                return self.access(st, p, n, what, ins)
            self.oblige(st, FALSE, 'null-or-wild-%s' % what, 'memory', ins)
            raise PathEnd()
        if isinstance(p.r, FuncRef):
            raise Unsupported('data access to function')
        s = st.status.get(p.r.rid)
        if s != 'live':
            self.oblige(st, FALSE, '%s of %s memory' % (what, s), 'memory', ins)
            raise PathEnd()
        if not self.pure:
            cond = z3.And(z3.ULE(n, p.r.size), z3.ULE(p.off, p.r.size - n))
            self.oblige(st, cond, 'in-bounds %s' % what, 'memory', ins)
        return p.r

    def resolve_addr(self, st, p, n):
        """an integer address that provably lies in one known region"""
        if isc(p.off):
            return None
        for r in list(st.regions.values()):
            if r.base is not None and st.status.get(r.rid) == 'live':
                d = simp(p.off - r.base)
                if self.decide(st, z3.And(z3.ULE(n, r.size), z3.ULE(d, r.size - n))) is True:
                    return Ptr(r, d)
        return None

    def load(self, st, p, ty, ins):
        if p.r is None:
            q = self.resolve_addr(st, p, c64(1))
            if q is not None:
                p = q
        t = self.mod.resolve(ty)
        if t[0] == 'struct':
            offs, _ = self.mod.layout(t)
            return tuple(self.load(st, Ptr(p.r, simp(p.off + o)), e, ins) for o, e in zip(offs, t[1]))
        if t[0] in ('arr',):
            es = self.mod.sizeof(t[2])
            return tuple(self.load(st, Ptr(p.r, simp(p.off + es * k)), t[2], ins) for k in range(t[1]))
        size = self.mod.sizeof(t)
        r = self.access(st, p, c64(size), 'read', ins)
        v = self.read(st, st.mem[r.rid], p.off, size, t[0] == 'ptr')
        if t[0] == 'ptr':
            if not isinstance(v, Ptr):
                v = self.toptr(st, v)
            return v
        if isinstance(v, Ptr):
            return v   # integer-typed pointer value
        if t[0] == 'int':
            if t[1] == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            if t[1] != 8 * size:
                return simp(z3.Extract(t[1] - 1, 0, v))
            return v
        if t[0] in ('float', 'double'):
            return v
        raise Unsupported('load %r' % (t,))

    def store(self, st, p, ty, v, ins):
        if p.r is None:
            q = self.resolve_addr(st, p, c64(1))
            if q is not None:
                p = q
        t = self.mod.resolve(ty)
        if t[0] == 'struct':
            offs, _ = self.mod.layout(t)
            for o, e, x in zip(offs, t[1], v):
                self.store(st, Ptr(p.r, simp(p.off + o)), e, x, ins)
            return
        if t[0] == 'arr':
            es = self.mod.sizeof(t[2])
            for k in range(t[1]):
                self.store(st, Ptr(p.r, simp(p.off + es * k)), t[2], v[k], ins)
            return
        size = self.mod.sizeof(t)
        r = self.access(st, p, c64(size), 'write', ins)
        if r.kind == 'const' or st.status.get(('ro', r.rid)):
            self.oblige(st, FALSE, 'write to read-only memory', 'memory', ins)
            raise PathEnd()
        if not isinstance(v, Ptr):
            if z3.is_bool(v):
                v = simp(z3.If(v, BVV(1, 8 * size), BVV(0, 8 * size)))
            elif v.size() != 8 * size:
                v = simp(z3.ZeroExt(8 * size - v.size(), v))
        self.write(st, r.rid, p.off, size, v)

    # ---- constants / operands ----
    def const(self, st, c, ty):
        k = c[0]
        if k == 'int':
            if ty[0] == 'int':
                if ty[1] == 1:
                    return z3.BoolVal(bool(c[1] & 1))
                return BVV(c[1], ty[1])
            raise Unsupported('int const of %r' % (ty,))
        if k == 'fp':
            return fpconst(c[1], ty[0])
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.undef(st, ty)
        if k == 'zero':
            return self.zero(ty)
        if k == 'global':
            return self.globptr(st, c[1])
        if k == 'cgep':
            p = self.const(st, c[2][0][1], PTR)
            off = self.gepoff(st, c[1], [(t, self.const(st, v, t)) for t, v in c[2][1:]])
            return Ptr(p.r, simp(p.off + off))
        if k == 'ccast':
            x = self.const(st, c[3], c[2])
            if c[1] in ('ptrtoint', 'inttoptr', 'bitcast'):
                if c[1] == 'inttoptr':
                    return self.toptr(st, x)
                return x
            return self.cast(st, c[1], c[2], x, c[4])
        if k == 'cbin':
            return self.binop(st, c[1], c[2], self.const(st, c[3], c[2]), self.const(st, c[4], c[2]), None)
        if k == 'cicmp':
            return self.icmp(st, c[1], self.const(st, c[3], c[2]), self.const(st, c[4], c[2]))
        if k == 'agg':
            t = self.mod.resolve(ty)
            return tuple(self.const(st, v, tt) for tt, v in c[1])
        if k == 'bytes':
            return tuple(BVV(b, 8) for b in c[1])
        raise Unsupported('const %r' % (c,))

    def undef(self, st, ty):
        t = self.mod.resolve(ty)
        if t[0] == 'int':
            if t[1] == 1:
                return z3.Bool('undefb!%d' % self.uid())
            return self.fresh('undef', t[1])
        if t[0] == 'ptr':
            return Ptr(self.undef_region(st), c64(0))
        if t[0] == 'struct':
            return tuple(self.undef(st, e) for e in t[1])
        if t[0] == 'arr':
            return tuple(self.undef(st, t[2]) for _ in range(t[1]))
        if t[0] == 'float':
            return self.fresh('undef', 32)
        if t[0] == 'double':
            return self.fresh('undef', 64)
        raise Unsupported('undef %r' % (t,))

    def zero(self, ty):
        t = self.mod.resolve(ty)
        if t[0] == 'int':
            return BVV(0, t[1]) if t[1] != 1 else FALSE
        if t[0] == 'ptr':
            return NULL
        if t[0] == 'float':
            return BVV(0, 32)
        if t[0] == 'double':
            return BVV(0, 64)
        if t[0] == 'struct':
            return tuple(self.zero(e) for e in t[1])
        if t[0] == 'arr':
            return tuple(self.zero(t[2]) for _ in range(t[1]))
        raise Unsupported('zero %r' % (t,))

    def globptr(self, st, name):
        if name in self.mod.aliases:
            return self.const(st, self.mod.aliases[name], PTR)
        if name in self.mod.funcs or name in self.mod.decls:
            k = ('f', name)
            if k not in self.globregs:
                self.globregs[k] = FuncRef(name)
            return Ptr(self.globregs[k], c64(0))
        if name in st.globs:
            return Ptr(st.globs[name], c64(0))
        t, init, isconst = self.mod.globals[name]
        size = self.mod.sizeof(t)
        r = self.region(st, '@' + name, c64(size), 'const' if isconst else 'global')
        st.globs[name] = r
        if init is None:
            st.mem[r.rid] = BaseUF(self.uid(), 0)
        else:
            d = {}
            self.init_cells(st, d, 0, t, init)
            st.mem[r.rid] = Cells(d, UNDEF)
        return Ptr(r, c64(0))

    def init_cells(self, st, d, off, ty, c):
        t = self.mod.resolve(ty)
        if t[0] == 'struct':
            offs, _ = self.mod.layout(t)
            for k, (o, e) in enumerate(zip(offs, t[1])):
                cc = c if c[0] in ('zero', 'undef') else c[1][k][1]
                self.init_cells(st, d, off + o, e, cc)
            return
        if t[0] == 'arr':
            es = self.mod.sizeof(t[2])
            if c[0] == 'bytes':
                for k, b in enumerate(c[1]):
                    d[off + k] = (1, BVV(b, 8))
                return
            for k in range(t[1]):
                cc = c if c[0] in ('zero', 'undef') else c[1][k][1]
                self.init_cells(st, d, off + es * k, t[2], cc)
            return
        if c[0] == 'undef':
            return
        v = self.const(st, c, t)
        sz = self.mod.sizeof(t)
        if not isinstance(v, Ptr):
            if z3.is_bool(v):
                v = BVV(1 if z3.is_true(v) else 0, 8 * sz)
        d[off] = (sz, v)

    def val(self, st, v, ty):
        if v[0] == 'reg':
            return st.frames[-1].env[v[1]]
        return self.const(st, v, ty)

    def gepoff(self, st, bt, idx):
        off = c64(0)
        t = bt
        first = True
        for it, iv in idx:
            iv = self.toint(st, iv)
            if first:
                off = off + sext64(iv) * self.mod.sizeof(t)
                first = False
                continue
            t = self.mod.resolve(t)
            if t[0] == 'struct':
                k = cval(iv)
                off = off + self.mod.layout(t)[0][k]
                t = t[1][k]
            elif t[0] in ('arr', 'vec'):
                t = t[2]
                off = off + sext64(iv) * self.mod.sizeof(t)
            else:
                raise Unsupported('gep into %r' % (t,))
        return simp(off)

    # ---- arithmetic ----
    def binop(self, st, op, ty, x, y, ins):
        if op[0] == 'f':
            return fpbin(op, x, y, ty)
        if ty == ('int', 1):
            if op == 'and':
                return simp(z3.And(x, y))
            if op == 'or':
                return simp(z3.Or(x, y))
            if op in ('xor', 'add', 'sub'):
                return simp(z3.Xor(x, y))
            if op == 'mul':
                return simp(z3.And(x, y))
            raise Unsupported('i1 ' + op)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and op == 'sub' and x.r is y.r:
            return simp(x.off - y.off)
        if isinstance(x, Ptr) and op in ('add', 'sub') and not isinstance(y, Ptr) and x.r is not None:
            return Ptr(x.r, simp(x.off + y if op == 'add' else x.off - y))
        x = self.toint(st, x)
        y = self.toint(st, y)
        n = ty[1]
        if op == 'add':
            r = x + y
        elif op == 'sub':
            if self.divq and z3.is_app_of(y, z3.Z3_OP_BMUL) and y.num_args() == 2 and isc(y.arg(0)):
                m = self.divq.get((y.arg(1).get_id(), x.get_id(), cval(y.arg(0))))
                if m is not None:
                    return m
            r = x - y
        elif op == 'mul':
            r = x * y
        elif op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.oblige(st, y != 0, 'no division by zero', 'arith', ins)
            if op[0] == 's' and not isc(y):
                self.oblige(st, z3.Not(z3.And(x == BVV(1 << (n - 1), n), y == BVV(-1, n))), 'no division overflow', 'arith', ins)
            if isc(y) and not isc(x) and n >= 16 and self.o.get('divuf', True):
                c = cval(y)
                if c & (c - 1) and (op[0] == 'u' or c < 1 << (n - 1)):
                    neg = z3.BoolVal(False) if op[0] == 'u' else simp(x < 0)
                    x = self.split_ite(st, x)
                    d = self.decide(st, neg)
                    if d is None:
                        raise NeedSplit(neg)
                    q, m = self.divconst(st, simp(-x) if d else x, c, n)
                    if d:
                        q, m = simp(-q), simp(-m)
                    return q if op in ('udiv', 'sdiv') else m
            r = {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda a, b: a / b, 'srem': z3.SRem}[op](x, y)
        elif op in ('shl', 'lshr', 'ashr'):
            if not isc(y):
                self.oblige(st, z3.ULT(y, BVV(n, n)), 'shift in range', 'arith', ins)
            r = {'shl': lambda a, b: a << b, 'lshr': z3.LShR, 'ashr': lambda a, b: a >> b}[op](x, y)
        elif op == 'and':
            r = x & y
        elif op == 'or':
            r = x | y
        elif op == 'xor':
            r = x ^ y
        else:
            raise Unsupported(op)
        return simp(r)

    def split_ite(self, st, x, depth=3):
        """x with the conditional terms near its root decided (the path is split if they are not)"""
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            d = self.decide(st, x.arg(0))
            if d is None:
                raise NeedSplit(x.arg(0))
            return self.split_ite(st, x.arg(1) if d else x.arg(2), depth)
        if depth and z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL):
            ch = [self.split_ite(st, t, depth - 1) for t in x.children()]
            if any(not a.eq(b) for a, b in zip(ch, x.children())):
                r = ch[0]
                for t in ch[1:]:
                    r = r + t if x.decl().kind() == z3.Z3_OP_BADD else r * t
                return simp(r)
        return x

    def divfew(self, st, x, c, n):
        """quotient that takes at most opts['divsplit'] values here: split by value"""
        pc = self.be.nodiv(st.pc, [])
        r, m = self.be.check(pc, 2000)
        if r != 'sat':
            return None
        vals = set()
        lo = hi = m.eval(x, model_completion=True).as_long() // c
        for _ in range(2 * self.o['divsplit']):
            q, m = self.be.check(pc + [z3.ULT(x, BVV(lo * c, n))], 2000) if lo else ('unsat', None)
            if q != 'sat':
                break
            lo = m.eval(x, model_completion=True).as_long() // c
        for _ in range(2 * self.o['divsplit']):
            if (hi + 1) * c >= 1 << n:
                break
            p, m = self.be.check(pc + [z3.UGE(x, BVV((hi + 1) * c, n))], 2000)
            if p != 'sat':
                break
            hi = m.eval(x, model_completion=True).as_long() // c
            if hi - lo > self.o['divsplit']:
                return None
        else:
            return None
        if q != 'unsat' and lo or (p != 'unsat' if (hi + 1) * c < 1 << n else False):
            return None
        if lo == hi:
            return BVV(lo, n), simp(x - BVV(lo * c, n))
        raise NeedSplit(simp(z3.ULT(x, BVV((lo + hi + 1) // 2 * c, n))))

    def divlin(self, st, x, c, n):
        """x = c*A + B with 0 <= B < c and no overflow: quotient A, remainder B"""
        A, B = BVV(0, n), BVV(0, n)
        any = False
        for t in x.children() if z3.is_app_of(x, z3.Z3_OP_BADD) else [x]:
            if z3.is_app_of(t, z3.Z3_OP_BMUL) and t.num_args() == 2 and isc(t.arg(0)):
                k = cval(t.arg(0))
                k = k - (1 << n) if k >> (n - 1) else k
                if k % c == 0:
                    A = A + BVV(k // c, n) * t.arg(1)
                    any = True
                    continue
            if isc(t):
                k = cval(t)
                k = k - (1 << n) if k >> (n - 1) else k
                A, t = A + BVV(k // c, n), BVV(k % c, n)
            B = B + t
        if not any:
            A, B = BVV(0, n), x
        A, B = simp(A), simp(B)
        lim = ((1 << n) - 1) // c - 1
        ok = z3.And(z3.ULT(B, BVV(c, n)), z3.ULE(A, BVV(lim, n)))
        r, m = self.be.check(self.be.nodiv(st.pc, []) + [z3.Not(ok)], 3000)
        return (A, B) if r == 'unsat' else None

    def divconst(self, st, x, c, n):
        """division by a constant, defined by its unique quotient and remainder"""
        k = (x.get_id(), c)
        e = self.divs.get(k)
        lin = self.divlin(st, x, c, n) if e is None else None
        if lin:
            return lin
        if self.o.get('divsplit') and e is None:
            few = self.divfew(st, x, c, n)
            if few:
                return few
        if e is None:
            # floor(floor(r/a)/c) = floor(r/(a*c))
            root, tot = self.divroot.get(x.get_id(), (x, 1))[:2]
            tot *= c
            if tot >= 1 << n:
                q, m, ax, hard = BVV(0, n), x, TRUE, TRUE
            else:
                q = z3.Function('div%d_%d' % (n, tot), z3.BitVecSort(n), z3.BitVecSort(n))(root)
                self.divroot[q.get_id()] = (root, tot, q)
                m = z3.Function('rem%d_%d' % (n, c), z3.BitVecSort(n), z3.BitVecSort(n))(x)
                rem = simp(root - q * BVV(tot, n))
                self.divq[q.get_id(), x.get_id(), c] = m
                ax = z3.And(z3.ULE(q, BVV(((1 << n) - 1) // tot, n)), z3.ULT(m, BVV(c, n)), z3.ULE(q, x), z3.ULE(m, x), z3.Implies(q == 0, m == x))
                hard = z3.And(m == x - q * BVV(c, n), z3.ULT(rem, BVV(tot, n)), z3.UGE(root, rem), z3.UGE(x, m))
                self.be.divax[hard.get_id()] = (hard, (q.get_id(), m.get_id()))
            e = self.divs[k] = (q, m, ax, hard, x)
        self.add_fact(st, e[3])
        self.add_fact(st, e[2])
        return e[0], e[1]

    def use_axioms(self, st, entry, vals, key):
        for nm, f in self.axioms:
            for tn, t, k in self.terms(entry, vals, key):
                if k not in 'zb':
                    self.assume(st, self.pure_call(st, f, [t]))

    def cast(self, st, op, t1, x, t2):
        if op in ('bitcast',):
            return x
        if op == 'ptrtoint':
            if t2[1] == 64:
                return x
            x = self.toint(st, x)
            return simp(z3.Extract(t2[1] - 1, 0, x))
        if op == 'inttoptr':
            if isinstance(x, Ptr):
                return x
            return self.toptr(st, zext64(x))
        if op in ('fpext', 'fptrunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp'):
            return fpcast(op, x, t1, t2)
        if z3.is_bool(x) if not isinstance(x, Ptr) else False:
            n = t2[1]
            if op == 'zext':
                return simp(z3.If(x, BVV(1, n), BVV(0, n)))
            if op == 'sext':
                return simp(z3.If(x, BVV(-1, n), BVV(0, n)))
            raise Unsupported('cast i1')
        x = self.toint(st, x)
        n1 = x.size()
        n2 = t2[1]
        if op == 'zext':
            return simp(z3.ZeroExt(n2 - n1, x))
        if op == 'sext':
            return simp(z3.SignExt(n2 - n1, x))
        if op == 'trunc':
            if n2 == 1:
                return simp(z3.Extract(0, 0, x) == 1)
            return simp(z3.Extract(n2 - 1, 0, x))
        raise Unsupported(op)

    def icmp(self, st, pred, x, y):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if not isinstance(x, Ptr):
                x = self.toptr(st, x)
            if not isinstance(y, Ptr):
                y = self.toptr(st, y)
            if x.r is y.r:
                x, y = x.off, y.off
            elif pred in ('eq', 'ne'):
                if x.r is not None and y.r is not None:
                    e = FALSE
                else:
                    a, b = (x, y) if x.r is None else (y, x)
                    # a is an integer address, b is into a region
                    if b.r.kind == 'uninit':
                        e = z3.Bool('undefb!%d' % self.uid())
                    elif isc(a.off) and cval(a.off) < 4096:
                        e = FALSE
                    else:
                        e = simp(a.off == self.toint(st, b))
                return e if pred == 'eq' else simp(z3.Not(e))
            else:
                x = self.toint(st, x)
                y = self.toint(st, y)
        if z3.is_bool(x):
            if pred == 'eq':
                return simp(x == y)
            if pred == 'ne':
                return simp(x != y)
            x = z3.If(x, BVV(1, 1), BVV(0, 1))
            y = z3.If(y, BVV(1, 1), BVV(0, 1))
        f = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT,
             'uge': z3.UGE, 'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b,
             'sge': lambda a, b: a >= b}[pred]
        return simp(f(x, y))

    # ---- main loop ----
    def initial(self):
        st = State()
        fn = self.mod.funcs[self.harness]
        st.frames.append(Frame(fn))
        return st

    def run_once(self):
        self.pure = False
        self.paths = 0
        self.fresh_n = 0
        self.rid_n = 0
        self.globregs = {}
        self.changed = False
        work = [self.initial()]
        self.work = work
        while work:
            st = work.pop()
            self.paths += 1
            if self.paths > self.o['maxpaths']:
                raise Unsupported('path limit %d' % self.o['maxpaths'])
            try:
                self.run_path(st, work)
            except PathEnd:
                pass

    def verify(self):
        """infer invariants, then check every obligation. returns dict summary"""
        self.t0 = time.time()
        self.mode = 'infer'
        rounds = 0
        while True:
            rounds += 1
            try:
                self.changed = False
                self.run_once()
            except Restart:
                continue
            if not self.changed:
                break
        self.mode = 'check'
        self.rounds = rounds
        while True:
            self.obls = {}
            self.covers = {}
            try:
                self.changed = False
                self.run_once()
            except Restart:
                continue
            if not self.changed:
                break
        # termination
        for (fn, h), ms in self.measures.items():
            ob = Obl('loop at %s terminates (decreasing measure)' % self.loop_loc(fn, h), 'termination', self.loop_loc(fn, h))
            ob.paths = 1
            if ms or ms is None or self.o['noterm']:
                ob.proved = 1
                if not self.o['noterm']:
                    ob.backends['z3'] = 1
                else:
                    continue
            else:
                ob.failed.append(('unknown', '-', 'no candidate measure decreases on every back edge', None))
            self.obls[(ob.name, ob.kind, fn + h)] = ob
        return self.obls

    def loop_loc(self, fn, h):
        f = self.mod.funcs[fn]
        for i in f.blocks[h].phis + f.blocks[h].ins:
            if i.dbg:
                l = self.dbgloc(i.dbg)
                if l:
                    return l
        return fn + ':' + h

    def bounded(self, depth):
        """bounded search from the entry for a refuted obligation with a concrete model"""
        self.mode = 'bmc'
        self.obls = {}
        self.t0 = time.time()
        self.o['bmc'] = depth
        try:
            self.run_once()
        except Violated:
            return self.bmc_fail
        return None

    def run_path(self, st, work):
        steps = 0
        while True:
            fr = st.frames[-1]
            blk = fr.fn.blocks[fr.label]
            steps += 1
            if steps & 63 == 0:
                self.checktime()
            ins = blk.ins[fr.idx]
            try:
                r = self.step(st, fr, ins, work)
            except NeedSplit as e:
                c = e.cond
                self.checktime()
                for cc in (c, z3.Not(c)):
                    f = self.feasible(st, cc)
                    if f is not False:
                        s2 = st.copy()
                        s2.pc.append(simp(cc))
                        s2.model = f if f is not True else (st.model if st.model is not None and z3.is_true(st.model.eval(cc, model_completion=True)) else None)
                        work.append(s2)
                return
            if r == 'end':
                return

    def set(self, fr, ins, v):
        if ins.res is not None:
            fr.env[ins.res] = v

    def step(self, st, fr, ins, work):
        op = ins.op
        if op in BIN:
            x = self.val(st, ins.a[0], ins.ty)
            y = self.val(st, ins.a[1], ins.ty)
            self.set(fr, ins, self.binop(st, op, self.mod.resolve(ins.ty), x, y, ins))
        elif op == 'icmp':
            pred, t, x, y = ins.a
            self.set(fr, ins, self.icmp(st, pred, self.val(st, x, t), self.val(st, y, t)))
        elif op == 'fcmp':
            pred, t, x, y = ins.a
            self.set(fr, ins, fcmp(pred, self.val(st, x, t), self.val(st, y, t), t))
        elif op == 'fneg':
            v = self.val(st, ins.a[0], ins.ty)
            self.set(fr, ins, simp(v ^ BVV(1 << (v.size() - 1), v.size())))
        elif op in CAST:
            t, x = ins.a
            self.set(fr, ins, self.cast(st, op, t, self.val(st, x, t), ins.ty))
        elif op == 'freeze':
            self.set(fr, ins, self.val(st, ins.a[0], ins.ty))
        elif op == 'select':
            c, x, y = ins.a
            cv = self.val(st, c, ('int', 1))
            xv = self.val(st, x, ins.ty)
            yv = self.val(st, y, ins.ty)
            if z3.is_bool(xv) if not isinstance(xv, (Ptr, tuple)) else False:
                self.set(fr, ins, simp(z3.If(cv, xv, yv)))
            else:
                self.set(fr, ins, self.ite(st, cv, xv, yv))
        elif op == 'alloca':
            t, n = ins.a
            nv = self.val(st, n, ('int', 64)) if n[0] == 'reg' else c64(n[1])
            r = self.region(st, ins.res or 'alloca', simp(zext64(nv) * self.mod.sizeof(t)), 'stack')
            fr.allocas.append(r.rid)
            self.set(fr, ins, Ptr(r, c64(0)))
        elif op == 'load':
            p = self.val(st, ins.a[0], PTR)
            self.set(fr, ins, self.load(st, p, ins.ty, ins))
        elif op == 'store':
            v, a = ins.a
            vv = self.val(st, v, ins.ty)
            p = self.val(st, a, PTR)
            self.store(st, p, ins.ty, vv, ins)
        elif op == 'getelementptr':
            bt, ops = ins.a
            p = self.val(st, ops[0][1], PTR)
            off = self.gepoff(st, bt, [(t, self.val(st, v, t)) for t, v in ops[1:]])
            self.set(fr, ins, Ptr(p.r, simp(p.off + off)))
        elif op == 'extractvalue':
            v = self.val(st, ins.a[0], ins.ty)
            for k in ins.a[1]:
                v = v[k]
            self.set(fr, ins, v)
        elif op == 'insertvalue':
            v, et, e, idx = ins.a
            v = self.val(st, v, ins.ty)
            e = self.val(st, e, et)
            self.set(fr, ins, insval(v, e, idx))
        elif op == 'br':
            return self.goto(st, fr, ins.a[0], work, ins)
        elif op == 'condbr':
            c = self.val(st, ins.a[0], ('int', 1))
            if z3.is_true(c):
                return self.goto(st, fr, ins.a[1], work, ins)
            if z3.is_false(c):
                return self.goto(st, fr, ins.a[2], work, ins)
            return self.branch(st, fr, [(c, ins.a[1]), (simp(z3.Not(c)), ins.a[2])], work)
        elif op == 'switch':
            v, d, cs = ins.a
            x = self.toint(st, self.val(st, v, ins.ty))
            if z3.is_bool(x):
                x = z3.If(x, BVV(1, 1), BVV(0, 1))
            groups = {}
            alln = []
            for cv, l in cs:
                e = simp(x == BVV(cv, x.size()))
                if z3.is_true(e):
                    return self.goto(st, fr, l, work, ins)
                if z3.is_false(e):
                    continue
                groups.setdefault(l, []).append(e)
                alln.append(e)
            br = [(simp(z3.Or(es)), l) for l, es in groups.items()]
            dn = simp(z3.Not(z3.Or(alln))) if alln else TRUE
            if d in groups:
                br = [(c if l != d else simp(z3.Or(c, dn)), l) for c, l in br]
            else:
                br.append((dn, d))
            return self.branch(st, fr, br, work)
        elif op == 'call':
            return self.call(st, fr, ins, work)
        elif op == 'ret':
            v = self.val(st, ins.a[0], ins.ty) if ins.a[0] is not None else None
            return self.ret(st, fr, v)
        elif op == 'unreachable':
            self.oblige(st, FALSE, 'unreachable code is not reached', 'unreachable', ins)
            raise PathEnd()
        elif op == 'fence':
            pass
        elif op == 'unsupported':
            raise Unsupported(ins.a[0])
        else:
            raise Unsupported(op)
        fr.idx += 1

    def ret(self, st, fr, v):
        for rid in fr.allocas:
            st.status[rid] = 'dead stack'
        st.frames.pop()
        if not st.frames:
            if self.pure:
                self.pure_out.append((st.pc[self.pure_mark:], v))
            else:
                self.covers['exit'] = self.covers.get('exit', 0) + 1
                if self.mode == 'check' and 'exit_sat' not in self.covers:
                    r, m = self.be.check(st.pc, 10000)
                    if r == 'sat':
                        self.covers['exit_sat'] = 1
            return 'end'
        caller = st.frames[-1]
        ins = caller.fn.blocks[caller.label].ins[caller.idx]
        if ins.res is not None:
            caller.env[ins.res] = v
        caller.idx += 1

    def branch(self, st, fr, br, work):
        if self.pure:
            out = []
            for c, l in br:
                if z3.is_false(c):
                    continue
                s2 = st.copy()
                s2.pc.append(c)
                out.append((s2, l))
            for s2, l in out:
                r = self.goto(s2, s2.frames[-1], l, work, None)
                if r != 'end':
                    work.append(s2)
            return 'end'
        feas = []
        if st.trust:
            rest = [(c, l) for c, l in br if not self.traps(fr.fn, l)]
            if rest:
                br = rest
        for i, (c, l) in enumerate(br):
            if z3.is_false(c):
                continue
            f = True if st.trust and len(br) == 1 else self.feasible(st, c)
            if f is False:
                continue
            feas.append((c, l, f))
        self.checktime()
        if not feas:
            raise PathEnd()
        if len(feas) == 1:
            c, l, f = feas[0]
            if f is not True:
                st.model = f
            # implied (up to solver 'unknown'); record anyway
            st.pc.append(c)
            return self.goto(st, fr, l, work, None)
        for c, l, f in feas:
            s2 = st.copy()
            s2.pc.append(c)
            if f is not True:
                s2.model = f
            elif s2.model is not None and not z3.is_true(s2.model.eval(c, model_completion=True)):
                s2.model = None
            try:
                r = self.goto(s2, s2.frames[-1], l, work, None)
            except PathEnd:
                continue
            except NeedSplit as e:
                raise Unsupported('split in goto')
            if r != 'end':
                work.append(s2)
        return 'end'

    def traps(self, fn, label):
        for i in fn.blocks[label].ins:
            if i.op == 'call' and isinstance(i.a[0], tuple) and 'trap' in str(i.a[0]):
                return True
            if i.op != 'call':
                return False
        return False

    def phi_values(self, st, fr, label, frm):
        vals = {}
        for ph in fr.fn.blocks[label].phis:
            for v, l in ph.a:
                if l == frm:
                    vals[ph.res] = self.val(st, v, ph.ty)
                    break
            else:
                raise Unsupported('phi without incoming')
        return vals

    def goto(self, st, fr, label, work, ins):
        frm = fr.label
        vals = self.phi_values(st, fr, label, frm)
        loops = compute_loops(fr.fn)
        # leaving loops
        while fr.acts and label not in loops[fr.acts[-1].header]:
            fr.acts.pop()
        if label in loops and not self.pure:
            if self.mode == 'bmc' or self.is_unrolled(fr.fn.name, label):
                back = frm in loops[label]
                n = fr.visits.get(label, 0) + 1 if back else 0
                fr.visits[label] = n
                if self.mode == 'bmc' and n > self.o['bmc']:
                    self.notes.add('bounded: loop cut at %d' % self.o['bmc'])
                    raise PathEnd()
                if n > 4096:
                    raise Unsupported('unroll limit')
            elif self.o['autounroll'] and (fr.fn.name, label) not in self.rolled:
                # complete unrolling: every path must leave the loop within the limit (infeasible branches are pruned by the
                # solver); a loop that does not is restarted with invariants
                back = frm in loops[label]
                n = fr.visits.get(label, 0) + 1 if back else 0
                fr.visits[label] = n
                if n > self.o['autounroll']:
                    self.rolled.add((fr.fn.name, label))
                    raise Restart()
            else:
                back = frm in loops[label] and any(a.header == label for a in fr.acts)
                if back:
                    self.backedge(st, fr, label, vals)
                    raise PathEnd()
                forks = self.loop_forks(st, fr, label, vals)
                if forks:
                    for ov in forks:
                        s2 = st.copy()
                        f2 = s2.frames[-1]
                        try:
                            v2 = self.enter_loop(s2, f2, label, vals, ov)
                        except PathEnd:
                            continue
                        f2.env.update(v2)
                        f2.prev = frm
                        f2.label = label
                        f2.idx = 0
                        work.append(s2)
                    return 'end'
                vals = self.enter_loop(st, fr, label, vals)
        elif label in loops and self.pure:
            n = fr.visits.get(label, 0) + 1
            fr.visits[label] = n
            if n > 300:
                raise Unsupported('loop in pure function')
        fr.env.update(vals)
        fr.prev = frm
        fr.label = label
        fr.idx = 0

    def is_unrolled(self, fn, label):
        for pat in self.o['unroll']:
            if re.search(pat, fn + ':' + label):
                return True
        return False

    # ---- loops ----
    def loopkey(self, fr, label):
        return (fr.fn.name, label)

    def named_cells(self, st, keys):
        out = {}
        byname = {r.name: r for r in st.regions.values()}
        for k in sorted(keys):
            if k[0] == 'cell':
                r = byname.get(k[1])
                if r is None:
                    continue
                node = st.mem.get(r.rid)
                if isinstance(node, Cells) and k[2] in node.d and node.d[k[2]][0] == k[3]:
                    out['[%s+%d]' % (k[1], k[2])] = node.d[k[2]][1]
        return out

    def loop_forks(self, st, fr, label, vals):
        """case split at a loop head for pointers that are null or point into a block"""
        key = self.loopkey(fr, label)
        names = [k[1] for k, c in self.ptrclass.items() if k[0] == key and isinstance(c, tuple)]
        if not names:
            return None
        if len(names) > 4:
            raise Unsupported('too many nullable pointers')
        forks = [{}]
        for nm in sorted(names):
            forks = [dict(f, **{nm: z}) for f in forks for z in (True, False)]
        return forks

    def enter_loop(self, st, fr, label, vals, ov=None):
        self.ov = ov or {}
        key = self.loopkey(fr, label)
        self.loops_seen.add(key)
        hv = self.havoc.setdefault(key, set())
        if key not in self.measures:
            self.measures[key] = None
        act = Act()
        act.header = label
        entry = dict(vals)
        entry.update(self.named_cells(st, hv))
        act.entry = entry
        act.bounds = self.bounds(st, fr, label, entry)
        # initiation
        self.use_axioms(st, entry, entry, key)
        cands = self.candidates(st, fr, label, act, entry)
        self.dbgvals = entry
        self.check_cands(st, key, cands, 'init')
        # havoc
        new = {}
        for nm, v in vals.items():
            new[nm] = self.havoc_val(st, key, nm, v)
        byname = {r.name: r for r in st.regions.values()}
        for k in sorted(hv):
            r = byname.get(k[1])
            if r is None:
                continue
            node = st.mem[r.rid]
            if k[0] == 'cell':
                if isinstance(node, Cells) and k[2] in node.d and node.d[k[2]][0] == k[3]:
                    d = dict(node.d)
                    nm = '[%s+%d]' % (k[1], k[2])
                    d[k[2]] = (k[3], self.havoc_val(st, key, nm, d[k[2]][1]))
                    st.mem[r.rid] = Cells(d, node.base)
                else:
                    # not a plain cell here: overwrite with a fresh value
                    self.write(st, r.rid, c64(k[2]), k[3], self.fresh('h', 8 * k[3]))
            else:
                st.mem[r.rid] = BaseUF(self.uid(), r.w)
        st.model = None
        cells = self.named_cells(st, hv)
        act.vals = dict(new)
        act.vals.update(cells)
        fr.acts.append(act)
        self.use_axioms(st, act.entry, act.vals, key)
        cands = self.candidates(st, fr, label, act, act.vals)
        dr = self.dropped.get(key, set())
        for cid, c in cands:
            if cid not in dr:
                c = simp(c)
                if z3.is_false(c):
                    raise PathEnd()
                if not z3.is_true(c):
                    st.pc.append(c)
        act.mem = dict(st.mem)
        act.status = dict(st.status)
        # drop path if infeasible
        r, m = self.be.check(st.pc, self.o['path_query'])
        if r == 'unsat':
            raise PathEnd()
        st.model = m
        return new

    def havoc_val(self, st, key, nm, v):
        if isinstance(v, Ptr):
            cls = self.ptrclass.get((key, nm))
            if isinstance(cls, tuple):
                old = v.r
                if cls[0] == 'nullheap' and old is not None and st.status.get(old.rid) == 'live':
                    st.status[old.rid] = 'generalised'
                if self.ov.get(nm):
                    return NULL
                if cls[0] == 'nullable':
                    r = next((r for r in st.regions.values() if r.name == cls[1]), None)
                    if r is None:
                        raise Unsupported('nullable pointer %s into an unknown block' % nm)
                    return Ptr(r, self.fresh(safe(nm), 64))
                cls = 'heap'
                if old is None:
                    v = Ptr(None, c64(0))
            if cls == 'heap':
                old = v.r
                if old is not None and st.status.get(old.rid) == 'live' and old.kind == 'heap':
                    st.status[old.rid] = 'generalised'
                sz = self.fresh('hsz', 64)
                r = self.region(st, 'gen_' + safe(nm), sz, 'heap', old.w if old is not None and isinstance(old, Region) else 0)
                st.mem[r.rid] = BaseUF(self.uid(), r.w)
                st.pc.append(z3.ULE(sz, c64(SIZE_LIMIT)))
                return Ptr(r, self.fresh(safe(nm), 64) if cls != 'heap' else c64(0))
            if cls == 'window':
                src, _, _ = v.r.extra
                return self.mkwindow(st, src, self.fresh('wpos', 64), self.fresh('wlen', 64), self.fresh(safe(nm), 64), assume=True)
            if cls == 'int':
                return Ptr(None, self.fresh(safe(nm), 64))
            if v.r is None and isc(v.off):
                # constant null until shown to change
                if ((key, nm)) in self.ptrclass:
                    return Ptr(None, self.fresh(safe(nm), 64))
                return v
            if isinstance(v.r, FuncRef):
                return v
            return Ptr(v.r, self.fresh(safe(nm), 64))
        if isinstance(v, tuple):
            return tuple(self.havoc_val(st, key, nm + '.%d' % i, x) for i, x in enumerate(v))
        if z3.is_bool(v):
            return z3.Bool('%s!%d' % (safe(nm), self.uid()))
        return self.fresh(safe(nm), v.size())

    def mkwindow(self, st, src, pos, n, off, assume=False):
        r = self.region(st, 'win', n, 'window')
        r.extra = (src, pos, n)
        st.mem[r.rid] = Copy(c64(0), n, st.mem[src.rid], pos, UNDEF)
        st.status[('ro', r.rid)] = True
        if assume:
            st.pc.append(z3.And(z3.ULE(n, src.size), z3.ULE(pos, src.size - n)))
        return Ptr(r, off)

    def livein(self, fn, label):
        """registers used in the loop but defined outside it"""
        c = self.__dict__.setdefault('_livein', {})
        k = (fn.name, label)
        if k not in c:
            body = compute_loops(fn)[label]
            defs, uses = set(), []
            for bn in body:
                b = fn.blocks[bn]
                for i in b.phis + b.ins:
                    if i.res is not None:
                        defs.add(i.res)
                    regs_in(i.a, uses)
            out = []
            for u in uses:
                if u not in defs and u not in out:
                    out.append(u)
            c[k] = out[:16]
        return c[k]

    def bounds(self, st, fr, label, entry):
        B = []
        for nm, v in entry.items():
            if isinstance(v, Ptr):
                if v.r is not None and not isinstance(v.r, FuncRef):
                    B.append(('e:' + nm, v.off))
                    B.append(('s:' + nm, v.r.size))
            elif isinstance(v, tuple) or z3.is_bool(v):
                pass
            else:
                B.append(('e:' + nm, zext64(v)))
        for nm in self.livein(fr.fn, label):
            v = fr.env.get(nm)
            if isinstance(v, Ptr):
                if v.r is not None and not isinstance(v.r, FuncRef):
                    B.append(('l:' + nm, v.off))
            elif v is not None and not isinstance(v, tuple) and z3.is_bv(v) and v.size() <= 64:
                B.append(('l:' + nm, zext64(v)))
        k = 0
        for kind, nm, t in st.nd:
            if kind == 'i' and z3.is_bv(t) and t.size() >= 16:
                B.append(('n:' + nm, zext64(t)))
                k += 1
                if k > 12:
                    break
        for f in st.frames:
            for a in f.acts:
                for nm, v in a.vals.items():
                    if isinstance(v, Ptr):
                        if v.r is not None and not isinstance(v.r, FuncRef):
                            B.append(('o:' + a.header + nm, v.off))
                    elif not isinstance(v, tuple) and not z3.is_bool(v):
                        B.append(('o:' + a.header + nm, zext64(v)))
        for nm, t in self.o.get('bounds', {}).items():
            B.append((nm, c64(t)))
        # dedupe
        seen = set()
        out = []
        for nm, t in B:
            t = simp(t)
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            out.append((nm, t))
        return out

    def terms(self, entry, vals, key=None):
        """progress terms: list of (name, term64, plain?)"""
        out = []
        for nm, v in vals.items():
            e = entry.get(nm)
            if isinstance(v, Ptr):
                if key is not None and isnull(v) and isinstance(self.ptrclass.get((key, nm)), tuple):
                    out.append((nm, c64(-1), 'z'))
                if v.r is None or isinstance(v.r, FuncRef):
                    continue
                out.append((nm, v.off, 'p'))
                if isinstance(e, Ptr) and e.r is v.r and not (isc(e.off) and cval(e.off) == 0):
                    out.append((nm + '-0', simp(v.off - e.off), 'd'))
                    out.append(('0-' + nm, simp(e.off - v.off), 'd'))
                out.append(('sz-' + nm, simp(v.r.size - v.off), 'd'))
            elif isinstance(v, tuple):
                continue
            elif z3.is_bool(v):
                out.append((nm, simp(z3.If(v, c64(1), c64(0))), 'b'))
            else:
                out.append((nm, zext64(v), 'i'))
                if e is not None and not isinstance(e, (Ptr, tuple)) and not z3.is_bool(e):
                    if not (isc(e) and cval(e) == 0):
                        out.append((nm + '-0', zext64(simp(v - e)), 'd'))
                        out.append(('0-' + nm, zext64(simp(e - v)), 'd'))
        return out

    def candidates(self, st, fr, label, act, vals):
        key = self.loopkey(fr, label)
        dr = self.dropped.get(key, set())
        T = self.terms(act.entry, vals, key)
        out = []

        def add(cid, thunk):
            if cid in dr:
                return
            out.append((cid, thunk()))
        if not self.o['noauto']:
            plain = [t for t in T if t[2] in ('i', 'p')]
            for nm, t, k in plain:
                for bn, b in act.bounds:
                    add('%s<=%s' % (nm, bn), lambda: z3.ULE(t, b))
                    add('%s>=%s' % (nm, bn), lambda: z3.UGE(t, b))
                if k == 'p':
                    for m in (2, 4, 8):
                        add('%s%%%d' % (nm, m), lambda: (t & (m - 1)) == 0)
            for nm, v in vals.items():
                if isinstance(v, Ptr):
                    if v.r is None:
                        continue
                    continue
                if isinstance(v, tuple):
                    continue
                e = act.entry.get(nm)
                if isinstance(e, Ptr):
                    continue
                if z3.is_bool(v):
                    add('%s=T' % nm, lambda: v)
                    add('%s=F' % nm, lambda: z3.Not(v))
                    continue
                add('%s>=s0' % nm, lambda: v >= 0)
                add('%s>=s-1' % nm, lambda: v >= -1)
                add('%s<s0' % nm, lambda: v < 0)
                if e is not None:
                    add('%s=0' % nm, lambda: v == e)
                    add('%s>=s' % nm, lambda: v >= e)
                    add('%s<=s' % nm, lambda: v <= e)
            for i in range(len(plain)):
                for j in range(i + 1, len(plain)):
                    n1, t1, k1 = plain[i]
                    n2, t2, k2 = plain[j]
                    add('%s<=%s' % (n1, n2), lambda: z3.ULE(t1, t2))
                    add('%s<=%s' % (n2, n1), lambda: z3.ULE(t2, t1))
                    e1 = self.eterm(act.entry, n1)
                    e2 = self.eterm(act.entry, n2)
                    if e1 is None or e2 is None:
                        continue
                    d1 = simp(t1 - e1)
                    d2 = simp(t2 - e2)
                    add('%s~%s' % (n1, n2), lambda: d1 == d2)
                    add('%s~-%s' % (n1, n2), lambda: d1 == -d2)
                    for m in self.o.get('scales', (2, 4, 8, 16) if 'p' in (k1, k2) else ()):
                        add('%s~%d%s' % (n1, m, n2), lambda: d1 == d2 * m)
                        add('%s~%d%s' % (n2, m, n1), lambda: d2 == d1 * m)
                        add('%s~-%d%s' % (n1, m, n2), lambda: d1 == -d2 * m)
                        add('%s~-%d%s' % (n2, m, n1), lambda: d2 == -d1 * m)
        bufs = None
        for nm, f in self.invs:
            isp = [t[0] == 'ptr' for t, _, _ in f.params]
            ni = len(isp) - sum(isp)
            if any(isp) and bufs is None:
                bufs = [(r.name, Ptr(r, c64(0))) for rid, r in st.regions.items() if r.kind == 'stack' and st.status.get(rid) == 'live'
                        and isc(r.size) and 16 <= cval(r.size) <= 4096]
            if ni <= 1:
                dom = [(a, b) for a, b, c in T if c != 'b']
            elif self.o.get('difftemplates'):
                dom = [(a, b) for a, b, c in T]
            else:
                dom = [(a, b) for a, b, c in T if c != 'd']
            for combo in itertools.product(*[bufs if q else dom for q in isp]):
                if len(set(a for a, _ in combo)) < len(combo):
                    continue
                cid = 'inv:' + nm + ('(%s)' % ','.join(a for a, _ in combo) if combo else '')
                if cid in dr:
                    continue
                args = [b for _, b in combo]
                if any(isp):
                    try:
                        add(cid, lambda: self.pure_call(st, f, args))
                    except Unsupported:
                        dr.add(cid)
                else:
                    add(cid, lambda: self.pure_call(st, f, args))
        return out

    def eterm(self, entry, nm):
        e = entry.get(nm)
        if e is None or isinstance(e, tuple):
            return None
        if isinstance(e, Ptr):
            return e.off
        if z3.is_bool(e):
            return None
        return zext64(e)

    def check_cands(self, st, key, cands, what):
        dr = self.dropped.setdefault(key, set())
        rem = []
        for cid, c in cands:
            if cid in dr:
                continue
            c = simp(c)
            if z3.is_true(c):
                continue
            rem.append((cid, c))

        def drop(x):
            dr.add(x)
            self.changed = True
            if DEBUG and x.startswith('inv:') and DEBUG in x:
                print('DROP', what, key[1], x, 'round', getattr(self, 'rounds', 0), [(k[1], c) for k, c in self.ptrclass.items() if k[0] == key])
                for nm, v in self.dbgvals.items():
                    mm = self.dbgm
                    ev = lambda t: mm.eval(t, model_completion=True) if mm is not None and z3.is_expr(t) else t
                    print('     ', nm, (v.r, ev(v.off)) if isinstance(v, Ptr) else ev(v))
        self.dbgm = st.model
        if st.model is not None:
            nr = []
            for cid, c in rem:
                if z3.is_false(st.model.eval(c, model_completion=True)):
                    drop(cid)
                else:
                    nr.append((cid, c))
            rem = nr
        while rem:
            self.checktime()
            r, m = self.be.check(st.pc + [z3.Or([z3.Not(c) for _, c in rem])], self.o['query'])
            if r == 'unsat':
                return
            self.dbgm = m
            if r == 'sat':
                nr = []
                for cid, c in rem:
                    if z3.is_true(m.eval(c, model_completion=True)):
                        nr.append((cid, c))
                    else:
                        drop(cid)
                if len(nr) == len(rem):
                    raise Unsupported('model eval')
                rem = nr
                continue
            # unknown: individually
            nr = []
            for cid, c in rem:
                rr, m, _ = self.be.prove(st.pc, c, self.o['query'])
                if rr != 'proved':
                    drop(cid)
            return

    def backedge(self, st, fr, label, vals):
        key = self.loopkey(fr, label)
        act = [a for a in fr.acts if a.header == label][-1]
        hv = self.havoc[key]
        # memory frame
        newk = set()
        byrid = st.regions
        for rid, n0 in act.mem.items():
            r = byrid[rid]
            n1 = st.mem[rid]
            if n1 is n0:
                continue
            if act.status.get(rid) != 'live':
                continue
            if st.status.get(rid) != 'live' and r.kind != 'heap':
                continue
            if ('reg', r.name) in hv:
                continue
            ks = self.diff(st, r, n0, n1)
            for k in ks:
                if k not in hv:
                    newk.add(k)
        cells = self.named_cells(st, hv)
        nv = dict(vals)
        nv.update(cells)
        # pointer classes
        for nm, v in nv.items():
            h = act.vals.get(nm)
            if isinstance(h, Ptr) or isinstance(v, Ptr):
                self.ptr_backedge(st, key, nm, h, v, act)
        if newk:
            if len([k for k in newk if k[0] == 'cell']) > 200:
                raise Unsupported('too many modified cells')
            hv |= newk
            self.changed = True
            raise Restart()
        # freed regions
        for rid, s0 in act.status.items():
            if s0 == 'live' and st.status.get(rid) != 'live' and isinstance(rid, int):
                r = byrid[rid]
                if r.kind == 'heap' and not r.name.startswith('gen_'):
                    raise Unsupported('region %s freed inside a loop' % r.name)
        if self.o.get('loopleak', True):
            new = [r for rid, r in byrid.items() if r.kind == 'heap' and st.status.get(rid) == 'live' and rid not in act.status]
            gone = [rid for rid, s0 in act.status.items() if isinstance(rid, int) and s0 == 'live' and byrid[rid].kind == 'heap' and st.status.get(rid) != 'live']
            extra = sum(1 for nm, v in nv.items() if self.ptrclass.get((key, nm)) == ('nullheap',) and isinstance(v, Ptr) and v.r is not None and isnull(act.vals[nm]))
            self.oblige(st, z3.BoolVal(len(new) <= len(gone) + extra), 'blocks allocated in a loop iteration are released or replace released ones', 'leak')
        self.use_axioms(st, act.entry, nv, key)
        cands = self.candidates(st, fr, label, act, nv)
        self.dbgvals = nv
        self.check_cands(st, key, cands, 'step')
        # termination measures
        if self.o['noterm']:
            self.measures[key] = {'-'}
            return
        ms = self.measure_terms(act, act.vals, nv)
        cur = self.measures.get(key)
        alive = set()
        for mid, c in ms:
            if cur is not None and mid not in cur:
                continue
            c = simp(c)
            if z3.is_true(c):
                alive.add(mid)
                continue
            if z3.is_false(c):
                continue
            # prove quickly; only until one is found if none known
            if st.model is not None and z3.is_false(st.model.eval(c, model_completion=True)):
                continue
            r, m = self.be.check(st.pc + [z3.Not(c)], self.o['path_query'])
            if r == 'unsat':
                alive.add(mid)
        if cur is None:
            self.measures[key] = alive
        else:
            self.measures[key] = cur & alive
        if cur != self.measures[key]:
            pass

    def measure_terms(self, act, v0, v1):
        out = []
        ts = []
        for nm, a in v0.items():
            b = v1.get(nm)
            if b is None or isinstance(a, tuple):
                continue
            if isinstance(a, Ptr):
                if not isinstance(b, Ptr) or a.r is not b.r or a.r is None:
                    # windows: pointer moved on to another chunk
                    continue
                ts.append((nm, a.off, b.off))
            elif isinstance(b, Ptr) or z3.is_bool(a) or z3.is_bool(b):
                continue
            else:
                ts.append((nm, a, b))
        for nm, a, b in ts:
            out.append(('up:' + nm, z3.UGT(b, a)))
            out.append(('down:' + nm, z3.ULT(b, a)))
            out.append(('sup:' + nm, b > a))
            out.append(('sdown:' + nm, b < a))
        for i in range(len(ts)):
            for j in range(len(ts)):
                if i != j and ts[i][1].size() == ts[j][1].size():
                    n1, a1, b1 = ts[i]
                    n2, a2, b2 = ts[j]
                    out.append(('down:%s-%s' % (n1, n2), z3.ULT(b1 - b2, a1 - a2)))
        return out

    def ptr_backedge(self, st, key, nm, h, v, act):
        if h is None:
            return
        k = (key, nm)
        if isinstance(h, Ptr) and isinstance(v, Ptr):
            if h.r is v.r:
                if h.r is None and not (isc(h.off) and isc(v.off) and cval(h.off) == cval(v.off)):
                    if self.ptrclass.get(k) != 'int':
                        self.ptrclass[k] = 'int'
                        self.changed = True
                        raise Restart()
                return
            if isinstance(h.r, Region) and isinstance(v.r, Region):
                if h.r.kind == 'window' and v.r.kind == 'window' and h.r.extra[0] is v.r.extra[0]:
                    if self.ptrclass.get(k) != 'window':
                        self.ptrclass[k] = 'window'
                        self.changed = True
                        raise Restart()
                    return
                if h.r.kind == 'heap' and v.r.kind == 'heap':
                    if self.ptrclass.get(k) not in ('heap', ('nullheap',)):
                        self.ptrclass[k] = 'heap'
                        self.changed = True
                        raise Restart()
                    # new region must be fresh in this iteration and at offset 0; the old one gone
                    if v.r.rid in act.mem or not (isc(v.off) and cval(v.off) == 0):
                        raise Unsupported('pointer %s moves to an older heap region' % nm)
                    self.oblige(st, z3.BoolVal(st.status.get(h.r.rid) != 'live'), 'replaced heap block is released', 'leak')
                    if st.status.get(v.r.rid) != 'live':
                        raise Unsupported('stale pointer at loop head')
                    return
            if isnull(h) != isnull(v):
                o = v if isnull(h) else h
                if isinstance(o.r, Region) and o.r.kind != 'window':
                    cls = self.ptrclass.get(k)
                    freshblock = o.r.kind == 'heap' and (o.r.name.startswith('gen_') or o.r.rid not in act.mem)
                    if freshblock:
                        want = ('nullheap',)
                    else:
                        want = ('nullable', o.r.name)
                    if cls == want:
                        if want[0] == 'nullheap' and v is o and not (isc(v.off) and cval(v.off) == 0):
                            raise Unsupported('interior heap pointer %s at loop head' % nm)
                        return
                    if cls is None or cls in ('heap',):
                        self.ptrclass[k] = want
                        self.changed = True
                        raise Restart()
        raise Unsupported('pointer %s changes region in loop: %r -> %r' % (nm, h, v))

    def diff(self, st, r, n0, n1):
        """cells modified between n0 and n1 for region r"""
        c0, b0 = (n0.d, n0.base) if isinstance(n0, Cells) else ({}, n0)
        c1, b1 = (n1.d, n1.base) if isinstance(n1, Cells) else ({}, n1)
        if b0 is not b1:
            if isinstance(b0, BaseUndef) and not c0 and (r.kind == 'stack' and isc(r.size) and cval(r.size) <= 64):
                return []
            # scratch regions re-initialised (lifetime.start) inside the loop
            if r.kind == 'stack' and isinstance(b0, BaseUndef):
                ks0 = []
                if all(o in c1 and same(c0[o][1], c1[o][1]) for o in c0):
                    return []
                return [('cell', r.name, o, c0[o][0]) for o in c0 if not (o in c1 and same(c0[o][1], c1[o][1]))]
            return [('reg', r.name)]
        ks = []
        for o in set(c0) | set(c1):
            if o in c0 and o in c1 and c0[o][0] == c1[o][0]:
                if same(c0[o][1], c1[o][1]):
                    continue
                ks.append(('cell', r.name, o, c0[o][0]))
            elif o in c1 and o not in c0:
                if isinstance(b0, BaseUndef):
                    # undefined at the loop head covers any value, unless overlapping defined cells
                    if any(x < o + c1[o][0] and o < x + c0[x][0] for x in c0):
                        return [('reg', r.name)]
                    continue
                ks.append(('cell', r.name, o, c1[o][0]))
            else:
                # vanished: overwritten by a different-width store
                return [('reg', r.name)]
        return ks

    # ---- pure evaluation ----
    def pure_call(self, st, f, args):
        s2 = State()
        s2.mem = dict(st.mem)
        s2.status = dict(st.status)
        s2.regions = dict(st.regions)
        s2.pc = list(st.pc)
        s2.nd = st.nd
        s2.cnt = dict(st.cnt)
        s2.globs = dict(st.globs)
        s2.logs = st.logs
        fr = Frame(f)
        for (t, pn, at), a in zip(f.params, args):
            if t[0] == 'int' and not isinstance(a, Ptr):
                if t[1] < a.size():
                    a = simp(z3.Extract(t[1] - 1, 0, a))
            fr.env[pn] = a
        s2.frames.append(fr)
        sv = (self.pure, getattr(self, 'pure_out', None), getattr(self, 'pure_mark', 0), self.mode)
        mark = len(s2.pc)
        outer = not self.pure
        if outer:
            self.facts = []
        self.pure = True
        self.pure_out = []
        self.pure_mark = mark
        w = [s2]
        try:
            while w:
                s = w.pop()
                try:
                    self.run_path(s, w)
                except PathEnd:
                    pass
            outs = self.pure_out
        finally:
            self.pure, self.pure_out, self.pure_mark, self.mode = sv
        if outer and self.facts:
            st.pc.extend(self.facts)
            st.model = None
        st.cnt.update({k: v for k, v in s2.cnt.items() if isinstance(k, tuple)})
        if not outs:
            raise Unsupported('pure function %s has no result' % f.name)
        res = outs[-1][1]
        for pc, v in outs[:-1][::-1]:
            c = z3.And(pc) if pc else TRUE
            if z3.is_bool(v):
                res = z3.If(c, v, res)
            else:
                res = z3.If(c, v, res)
        return simp(res)

    def add_fact(self, st, ax):
        if self.pure:
            self.facts.append(ax)
        st.pc.append(ax)
        st.model = None

    def pure_call_facts(self, st, f, a):
        return self.pure_call(st, f, a)

    # ---- calls ----
    def call(self, st, fr, ins, work):
        cal, args = ins.a
        if cal == ('asm',):
            if '""' in args if isinstance(args, str) else True:
                fr.idx += 1
                return
        if cal[0] == 'global':
            name = cal[1]
            while name in self.mod.aliases:
                name = self.mod.aliases[name][1]
        else:
            p = self.val(st, cal, PTR)
            if not isinstance(p.r, FuncRef):
                if p.r is None:
                    self.oblige(st, FALSE, 'call through null or wild pointer', 'memory', ins)
                    raise PathEnd()
                raise Unsupported('indirect call to %r' % (p,))
            name = p.r.name
        av = None
        from builtins_vf import BUILTINS, lookup
        h = lookup(name)
        if h is not None:
            av = [self.val(st, v, t) for t, v, at in args]
            r = h(self, st, fr, ins, av, name)
            if r == 'end':
                return 'end'
            fr.idx += 1
            return
        # contract replacement
        tgt = name
        incontract = any(f.iscontract for f in st.frames)
        rep = self.contract_for(st, name)
        if rep is not None:
            tgt = rep
            self.assumed.add((name, rep))
        if tgt not in self.mod.funcs:
            if tgt in self.mod.decls or True:
                raise Unsupported('call to external %s' % tgt)
        f = self.mod.funcs[tgt]
        av = []
        for (t, v, at), (pt, pn, pat) in zip(args, f.params):
            x = self.val(st, v, t)
            if 'byval' in at:
                bt = at['byval'] if at['byval'] is not True else pat['byval']
                sz = self.mod.sizeof(bt)
                r = self.region(st, 'byval_' + pn, c64(sz), 'stack')
                st.mem[r.rid] = Copy(c64(0), c64(sz), st.mem[x.r.rid], x.off, UNDEF)
                x = Ptr(r, c64(0))
            av.append(x)
        nf = Frame(f)
        nf.iscontract = rep is not None
        for (pt, pn, pat), x in zip(f.params, av):
            nf.env[pn] = x
        if len(st.frames) > 60:
            raise Unsupported('recursion depth (no contract for %s?)' % name)
        st.frames.append(nf)
        lp = compute_loops(f)
        if f.entry in lp:
            raise Unsupported('entry block is loop header')
        return

    def contract_for(self, st, name):
        if any(f.iscontract for f in st.frames):
            return None
        dn = demangle(name)
        for pat, c in self.o['replace'].items():
            if re.search(pat, dn) and name != c:
                return c
        if len(st.frames) > 1:
            for pat, c in self.o['rec'].items():
                if re.search(pat, dn) and name != c:
                    return c
        return None


_dm = {}


def preload_demangle(names):
    names = [n for n in names if n not in _dm]
    if not names:
        return
    p = subprocess.run(['llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True)
    for n, d in zip(names, p.stdout.split('\n')):
        _dm[n] = d


def demangle(n):
    if n not in _dm:
        preload_demangle([n])
    return _dm.get(n, n)


def regs_in(a, out):
    if isinstance(a, tuple):
        if len(a) == 2 and a[0] == 'reg':
            out.append(a[1])
            return
        for x in a:
            regs_in(x, out)
    elif isinstance(a, list):
        for x in a:
            regs_in(x, out)


def insval(agg, v, idx):
    l = list(agg)
    if len(idx) == 1:
        l[idx[0]] = v
    else:
        l[idx[0]] = insval(l[idx[0]], v, idx[1:])
    return tuple(l)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.r is b.r and a.off.eq(b.off)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        return False
    return a.eq(b)


def safe(n):
    return re.sub(r'[^\w.]', '_', n)


def zx(e, n):
    if e.size() == n:
        return e
    if e.size() < n:
        return z3.ZeroExt(n - e.size(), e)
    return z3.Extract(n - 1, 0, e)


def len_ok(r):
    return isc(r.size) or r.kind in ('stack', 'global', 'heap')


def has_fp(e):
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if isinstance(x.sort(), z3.FPSortRef):
            return True
        st.extend(x.children())
    return False


def mentions(e, v):
    seen = set()
    st = [e]
    vid = v.get_id()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.get_id() == vid:
            return True
        st.extend(x.children())
    return False


# ---- floats: values are kept as IEEE bit vectors ----
RM = z3.RNE()


def fsort(n):
    return z3.Float32() if n == 32 else z3.Float64()


def tofp(b):
    return z3.fpBVToFP(b, fsort(b.size()))


def tobits(f):
    return simp(z3.fpToIEEEBV(simp(f)))


def fpconst(s, ty):
    import struct
    if s.startswith('0x'):
        v = int(s[2:], 16)
        d = struct.unpack('<d', struct.pack('<Q', v))[0]
        if ty == 'float':
            return BVV(struct.unpack('<I', struct.pack('<f', d))[0], 32)
        return BVV(v, 64)
    d = float(s)
    if ty == 'float':
        return BVV(struct.unpack('<I', struct.pack('<f', d))[0], 32)
    return BVV(struct.unpack('<Q', struct.pack('<d', d))[0], 64)


def fpbin(op, x, y, ty):
    a, b = tofp(x), tofp(y)
    if op == 'fadd':
        r = z3.fpAdd(RM, a, b)
    elif op == 'fsub':
        r = z3.fpSub(RM, a, b)
    elif op == 'fmul':
        r = z3.fpMul(RM, a, b)
    elif op == 'fdiv':
        r = z3.fpDiv(RM, a, b)
    else:
        raise Unsupported(op)
    return tobits(r)


def fcmp(pred, x, y, t):
    a, b = tofp(x), tofp(y)
    un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
    d = {'eq': z3.fpEQ(a, b), 'gt': z3.fpGT(a, b), 'ge': z3.fpGEQ(a, b), 'lt': z3.fpLT(a, b), 'le': z3.fpLEQ(a, b),
         'ne': z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b)))}
    if pred == 'ord':
        return simp(z3.Not(un))
    if pred == 'uno':
        return simp(un)
    if pred == 'true':
        return TRUE
    if pred == 'false':
        return FALSE
    if pred[0] == 'o':
        return simp(d[pred[1:]])
    return simp(z3.Or(un, d[pred[1:]]))


def fpcast(op, x, t1, t2):
    nb = {'float': 32, 'double': 64}
    if op in ('fpext', 'fptrunc'):
        return tobits(z3.fpFPToFP(RM, tofp(x), fsort(nb[t2[0]])))
    if op == 'sitofp':
        return tobits(z3.fpSignedToFP(RM, x, fsort(nb[t2[0]])))
    if op == 'uitofp':
        return tobits(z3.fpUnsignedToFP(RM, x, fsort(nb[t2[0]])))
    if op == 'fptosi':
        return simp(z3.fpToSBV(z3.RTZ(), tofp(x), z3.BitVecSort(t2[1])))
    if op == 'fptoui':
        return simp(z3.fpToUBV(z3.RTZ(), tofp(x), z3.BitVecSort(t2[1])))
    raise Unsupported(op)
