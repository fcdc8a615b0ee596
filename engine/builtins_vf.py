"""Intrinsics, libc contracts and the vf_* specification primitives."""
import re
import z3
import sym
from sym import *

BUILTINS = {}


def b(*names):
    def d(f):
        for n in names:
            BUILTINS[n] = f
        return f
    return d


PREF = []


def pref(p):
    def d(f):
        PREF.append((p, f))
        return f
    return d


_cache = {}


def lookup(name):
    if name in _cache:
        return _cache[name]
    h = BUILTINS.get(name)
    if h is None:
        for p, f in PREF:
            if name.startswith(p):
                h = f
                break
    _cache[name] = h
    return h


def setres(fr, ins, v):
    if ins.res is not None:
        fr.env[ins.res] = v


@pref('llvm.lifetime.start')
def lt_start(ex, st, fr, ins, a, name):
    p = a[1]
    if isinstance(p.r, Region) and p.r.kind == 'stack' and st.status.get(p.r.rid) == 'live':
        st.mem[p.r.rid] = UNDEF


@pref('llvm.lifetime.end')
def lt_end(ex, st, fr, ins, a, name):
    p = a[1]
    if isinstance(p.r, Region) and p.r.kind == 'stack' and st.status.get(p.r.rid) == 'live':
        st.mem[p.r.rid] = UNDEF


@pref('llvm.assume')
def lassume(ex, st, fr, ins, a, name):
    pass


@pref('llvm.expect')
def lexpect(ex, st, fr, ins, a, name):
    setres(fr, ins, a[0])


@pref('llvm.launder')
def launder(ex, st, fr, ins, a, name):
    setres(fr, ins, a[0])


@pref('llvm.invariant')
def linv(ex, st, fr, ins, a, name):
    setres(fr, ins, NULL)


@pref('llvm.stacksave')
def ssave(ex, st, fr, ins, a, name):
    setres(fr, ins, NULL)


@pref('llvm.stackrestore')
def srest(ex, st, fr, ins, a, name):
    pass


@pref('llvm.is.constant')
def isconst(ex, st, fr, ins, a, name):
    setres(fr, ins, FALSE)


@pref('llvm.objectsize')
def objsz(ex, st, fr, ins, a, name):
    setres(fr, ins, BVV(-1, 64))


@pref('llvm.trap')
def trap(ex, st, fr, ins, a, name):
    ex.oblige(st, FALSE, 'assertion holds (PLY_ASSERT / trap not reached)', 'assert', ins)
    raise PathEnd()


BUILTINS['llvm.debugtrap'] = trap
BUILTINS['abort'] = trap
BUILTINS['__cxa_pure_virtual'] = trap


@pref('llvm.ubsantrap')
def ubsan(ex, st, fr, ins, a, name):
    trap(ex, st, fr, ins, a, name)


def arith(pfx):
    def d(f):
        @pref('llvm.' + pfx + '.')
        def h(ex, st, fr, ins, a, name):
            a = [ex.toint(st, x) for x in a]
            r = f(ex, st, a)
            if isinstance(r, tuple):
                setres(fr, ins, tuple(simp(x) for x in r))
            else:
                setres(fr, ins, simp(r))
        return f
    return d


arith('umin')(lambda ex, st, a: z3.If(z3.ULE(a[0], a[1]), a[0], a[1]))
arith('umax')(lambda ex, st, a: z3.If(z3.UGE(a[0], a[1]), a[0], a[1]))
arith('smin')(lambda ex, st, a: z3.If(a[0] <= a[1], a[0], a[1]))
arith('smax')(lambda ex, st, a: z3.If(a[0] >= a[1], a[0], a[1]))
arith('abs')(lambda ex, st, a: z3.If(a[0] >= 0, a[0], -a[0]))
arith('usub.sat')(lambda ex, st, a: z3.If(z3.UGE(a[0], a[1]), a[0] - a[1], BVV(0, a[0].size())))
arith('uadd.sat')(lambda ex, st, a: z3.If(z3.ULT(a[0] + a[1], a[0]), BVV(-1, a[0].size()), a[0] + a[1]))
arith('fshl')(lambda ex, st, a: fsh(a, True))
arith('fshr')(lambda ex, st, a: fsh(a, False))
arith('uadd.with.overflow')(lambda ex, st, a: (a[0] + a[1], z3.Not(z3.BVAddNoOverflow(a[0], a[1], False))))
arith('sadd.with.overflow')(lambda ex, st, a: (a[0] + a[1], z3.Not(z3.And(z3.BVAddNoOverflow(a[0], a[1], True), z3.BVAddNoUnderflow(a[0], a[1])))))
arith('usub.with.overflow')(lambda ex, st, a: (a[0] - a[1], z3.ULT(a[0], a[1])))
arith('umul.with.overflow')(lambda ex, st, a: (a[0] * a[1], z3.Not(z3.BVMulNoOverflow(a[0], a[1], False))))
arith('smul.with.overflow')(lambda ex, st, a: (a[0] * a[1], z3.Not(z3.And(z3.BVMulNoOverflow(a[0], a[1], True), z3.BVMulNoUnderflow(a[0], a[1])))))


def fsh(a, left):
    n = a[0].size()
    s = z3.URem(a[2], BVV(n, n))
    cat = z3.Concat(a[0], a[1])
    s2 = z3.ZeroExt(n, s)
    if left:
        return z3.Extract(2 * n - 1, n, cat << s2)
    return z3.Extract(n - 1, 0, z3.LShR(cat, s2))


@arith('bswap')
def bswap(ex, st, a):
    n = a[0].size() // 8
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a[0]) for i in range(n)])


@arith('ctpop')
def ctpop(ex, st, a):
    n = a[0].size()
    r = BVV(0, n)
    for i in range(n):
        r = r + z3.ZeroExt(n - 1, z3.Extract(i, i, a[0]))
    return r


@arith('ctlz')
def ctlz(ex, st, a):
    n = a[0].size()
    r = BVV(n, n)
    for i in range(n):
        r = z3.If(z3.Extract(i, i, a[0]) == 1, BVV(n - 1 - i, n), r)
    return r


@arith('cttz')
def cttz(ex, st, a):
    n = a[0].size()
    r = BVV(n, n)
    for i in range(n - 1, -1, -1):
        r = z3.If(z3.Extract(i, i, a[0]) == 1, BVV(i, n), r)
    return r


@pref('llvm.fabs')
def fabs(ex, st, fr, ins, a, name):
    n = a[0].size()
    setres(fr, ins, simp(a[0] & BVV((1 << (n - 1)) - 1, n)))


def ptr_of(ex, st, v):
    return v if isinstance(v, Ptr) else ex.toptr(st, v)


def do_copy(ex, st, ins, d, s, n, overlap_ok):
    n = simp(ex.toint(st, n))
    n = zext64(n)
    if isc(n) and cval(n) == 0:
        return
    z = ex.decide(st, n == 0)
    if z is True:
        return
    # an empty copy between valid positions of live blocks changes nothing and needs no case of its own
    if z is None and not all(isinstance(p.r, Region) and st.status.get(p.r.rid) == 'live' and ex.decide(st, z3.ULE(p.off, p.r.size)) is True for p in (d, s)):
        raise NeedSplit(n == 0)
    rs = ex.access(st, s, n, 'read (copy source)', ins)
    rd = ex.access(st, d, n, 'write (copy destination)', ins)
    if st.status.get(('ro', rd.rid)) or rd.kind == 'const':
        ex.oblige(st, FALSE, 'write to read-only memory', 'memory', ins)
        raise PathEnd()
    if rs is rd and not overlap_ok:
        same = z3.Or(d.off == s.off, n == 0)  # copying a block onto itself is tolerated
        ex.oblige(st, z3.Or(same, z3.UGE(d.off - s.off, n) & z3.UGE(s.off - d.off, n)), 'memcpy ranges do not overlap', 'memory', ins)
    src = st.mem[rs.rid]
    # small constant copies of plain cells: keep the destination as cells
    if isc(n) and cval(n) <= 512 and isc(d.off) and isc(s.off) and isinstance(src, Cells):
        so, do, nn = cval(s.off), cval(d.off), cval(n)
        cov = sorted((o, c) for o, c in src.d.items() if o < so + nn and so < o + c[0])
        if all(o >= so and o + c[0] <= so + nn for o, c in cov) and isinstance(src.base, BaseUndef):
            # bytes not covered are undefined in the source
            dn = st.mem[rd.rid]
            dd = dict(dn.d) if isinstance(dn, Cells) else {}
            base = dn.base if isinstance(dn, Cells) else dn
            ok = isinstance(base, BaseUndef)
            if ok and all((o >= do and o + c[0] <= do + nn) or o + c[0] <= do or o >= do + nn for o, c in dd.items()):
                for o in [o for o in dd if do <= o < do + nn]:
                    del dd[o]
                for o, c in cov:
                    dd[o - so + do] = c
                st.mem[rd.rid] = Cells(dd, base)
                return
    st.mem[rd.rid] = Copy(d.off, n, src, s.off, st.mem[rd.rid])


@pref('llvm.memcpy')
def lmemcpy(ex, st, fr, ins, a, name):
    do_copy(ex, st, ins, ptr_of(ex, st, a[0]), ptr_of(ex, st, a[1]), a[2], False)


@pref('llvm.memmove')
def lmemmove(ex, st, fr, ins, a, name):
    do_copy(ex, st, ins, ptr_of(ex, st, a[0]), ptr_of(ex, st, a[1]), a[2], True)


@b('memcpy')
def memcpy(ex, st, fr, ins, a, name):
    lmemcpy(ex, st, fr, ins, a, name)
    setres(fr, ins, a[0])


@b('memmove')
def memmove(ex, st, fr, ins, a, name):
    lmemmove(ex, st, fr, ins, a, name)
    setres(fr, ins, a[0])


def do_fill(ex, st, ins, d, v, n):
    n = zext64(simp(ex.toint(st, n)))
    if isc(n) and cval(n) == 0:
        return
    z = ex.decide(st, n == 0)
    if z is True:
        return
    if z is None:
        raise NeedSplit(n == 0)
    rd = ex.access(st, d, n, 'write (fill)', ins)
    st.mem[rd.rid] = Fill(d.off, n, v, st.mem[rd.rid])


@pref('llvm.memset')
def lmemset(ex, st, fr, ins, a, name):
    do_fill(ex, st, ins, ptr_of(ex, st, a[0]), a[1], a[2])


@b('memset')
def memset(ex, st, fr, ins, a, name):
    do_fill(ex, st, ins, ptr_of(ex, st, a[0]), simp(z3.Extract(7, 0, a[1])), a[2])
    setres(fr, ins, a[0])


# ---- heap (assumed contract of the allocator) ----
@b('malloc', '_Znwm', '_Znam')
def malloc(ex, st, fr, ins, a, name):
    n = ex.toint(st, a[0])
    ex.notes.add('assumed: malloc/realloc succeed and return a fresh block of the requested size')
    ex.assume(st, z3.ULE(n, c64(SIZE_LIMIT)))
    r = ex.region(st, 'heap', simp(n), 'heap')
    setres(fr, ins, Ptr(r, c64(0)))


@b('posix_memalign')
def memalign(ex, st, fr, ins, a, name):
    n = ex.toint(st, a[2])
    ex.assume(st, z3.ULE(n, c64(SIZE_LIMIT)))
    r = ex.region(st, 'heap', simp(n), 'heap')
    ex.store(st, a[0], PTR, Ptr(r, c64(0)), ins)
    setres(fr, ins, BVV(0, 32))


@b('calloc')
def calloc(ex, st, fr, ins, a, name):
    n = simp(a[0] * a[1])
    ex.assume(st, z3.ULE(n, c64(SIZE_LIMIT)))
    r = ex.region(st, 'heap', n, 'heap', 0, Fill(c64(0), n, BVV(0, 8), UNDEF))
    setres(fr, ins, Ptr(r, c64(0)))


def check_heap_ptr(ex, st, p, ins):
    if p.r is None or isinstance(p.r, FuncRef):
        ex.oblige(st, FALSE, 'free of a heap block', 'memory', ins)
        raise PathEnd()
    s = st.status.get(p.r.rid)
    if s != 'live' or p.r.kind != 'heap':
        ex.oblige(st, FALSE, 'free of a live heap block (%s %s)' % (s, p.r.kind), 'memory', ins)
        raise PathEnd()
    ex.oblige(st, p.off == 0, 'free of the start of a block', 'memory', ins)


@b('free', '_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm')
def free(ex, st, fr, ins, a, name):
    p = ptr_of(ex, st, a[0])
    if isnull(p):
        return
    check_heap_ptr(ex, st, p, ins)
    st.status[p.r.rid] = 'freed'


@b('realloc')
def realloc(ex, st, fr, ins, a, name):
    p = ptr_of(ex, st, a[0])
    n = ex.toint(st, a[1])
    ex.assume(st, z3.ULE(n, c64(SIZE_LIMIT)))
    if isnull(p):
        r = ex.region(st, 'heap', simp(n), 'heap')
        setres(fr, ins, Ptr(r, c64(0)))
        return
    check_heap_ptr(ex, st, p, ins)
    old = p.r
    m = simp(z3.If(z3.ULE(n, old.size), n, old.size))
    src = st.mem[old.rid]
    d = ex.decide(st, z3.UGE(n, old.size))
    if d is True:
        m = old.size
    r = ex.region(st, 'heap', simp(n), 'heap', old.w)
    st.mem[r.rid] = Copy(c64(0), m, src, c64(0), UNDEF)
    if isinstance(src, Cells) and d is True:
        st.mem[r.rid] = src     # same cells; bytes beyond the old size were never defined there
    st.status[old.rid] = 'freed'
    setres(fr, ins, Ptr(r, c64(0)))


# ---- libc contracts ----
def probes(ex, st):
    """instances at which universally quantified libc postconditions are used: the unit's ghost_probe[] array"""
    if 'ghost_probe' not in ex.mod.globals:
        return []
    p = ex.globptr(st, 'ghost_probe')
    n = cval(p.r.size) // 8
    return [ex.toint(st, ex.read(st, st.mem[p.r.rid], c64(8 * j), 8)) for j in range(n)]


def byte_at(ex, st, p, j):
    return ex.toint(st, ex.read(st, st.mem[p.r.rid], simp(p.off + j), 1))


def addpc(st, c):
    c = simp(c)
    if not z3.is_true(c):
        st.pc.append(c)
        st.model = None


@b('memcmp', 'bcmp')
def memcmp(ex, st, fr, ins, a, name):
    p, q = ptr_of(ex, st, a[0]), ptr_of(ex, st, a[1])
    n = zext64(simp(ex.toint(st, a[2])))
    if isc(n) and cval(n) == 0:
        setres(fr, ins, BVV(0, 32))
        return
    z = ex.decide(st, n == 0)
    if z is True:
        setres(fr, ins, BVV(0, 32))
        return
    if z is None:
        raise NeedSplit(n == 0)
    ex.access(st, p, n, 'read (memcmp)', ins)
    ex.access(st, q, n, 'read (memcmp)', ins)
    r = ex.fresh('memcmp', 32)
    if isc(n) and cval(n) <= 16:
        res = BVV(0, 32)
        for j in range(cval(n) - 1, -1, -1):
            x, y = byte_at(ex, st, p, c64(j)), byte_at(ex, st, q, c64(j))
            res = z3.If(x == y, res, z3.ZeroExt(24, x) - z3.ZeroExt(24, y))
        setres(fr, ins, simp(res))
        return
    ex.notes.add('assumed: libc contract of memcmp/strlen/memchr')
    for k in probes(ex, st):
        addpc(st, z3.Implies(z3.And(r == 0, z3.ULT(k, n)), byte_at(ex, st, p, k) == byte_at(ex, st, q, k)))
    d = ex.fresh('mismatch', 64)
    x, y = byte_at(ex, st, p, d), byte_at(ex, st, q, d)
    addpc(st, z3.Implies(r != 0, z3.And(z3.ULT(d, n), x != y, (r < 0) == z3.ULT(x, y))))
    for k in probes(ex, st):
        addpc(st, z3.Implies(z3.And(r != 0, z3.ULT(k, d)), byte_at(ex, st, p, k) == byte_at(ex, st, q, k)))
    setres(fr, ins, r)


@b('strlen')
def strlen(ex, st, fr, ins, a, name):
    p = ptr_of(ex, st, a[0])
    if p.r is None:
        ex.access(st, p, c64(1), 'read (strlen)', ins)
    if isc(p.r.size) and isc(p.off) and cval(p.r.size) - cval(p.off) <= 4096 and p.r.kind in ('const', 'global', 'stack'):
        node = st.mem[p.r.rid]
        for j in range(cval(p.r.size) - cval(p.off)):
            v = ex.toint(st, ex.read(st, node, c64(cval(p.off) + j), 1))
            if not isc(v):
                break
            if cval(v) == 0:
                setres(fr, ins, c64(j))
                return
    ex.notes.add('assumed: libc contract of memcmp/strlen/memchr')
    ex.access(st, p, c64(1), 'read (strlen)', ins)
    last = simp(p.r.size - p.off - 1)
    ex.oblige(st, byte_at(ex, st, p, last) == 0, 'string is terminated', 'memory', ins)
    r = ex.fresh('strlen', 64)
    addpc(st, z3.And(z3.ULE(r, last), byte_at(ex, st, p, r) == 0))
    for k in probes(ex, st):
        addpc(st, z3.Implies(z3.ULT(k, r), byte_at(ex, st, p, k) != 0))
    setres(fr, ins, r)


@b('memchr')
def memchr(ex, st, fr, ins, a, name):
    p = ptr_of(ex, st, a[0])
    c = simp(z3.Extract(7, 0, a[1]))
    n = zext64(simp(ex.toint(st, a[2])))
    z = ex.decide(st, n == 0)
    if z is True:
        setres(fr, ins, NULL)
        return
    if z is None:
        raise NeedSplit(n == 0)
    ex.access(st, p, n, 'read (memchr)', ins)
    ex.notes.add('assumed: libc contract of memcmp/strlen/memchr')
    f = z3.Bool('memchr!%d' % ex.uid())
    if not st.cnt.get(('mc', id(ins), len(st.pc))):
        pass
    key = ('memchr', len(st.frames), fr.idx, fr.label)
    pend = st.logs.get(key)
    if pend is None:
        st.logs = dict(st.logs)
        st.logs[key] = f
        raise NeedSplit(f)
    f = pend
    st.logs = dict(st.logs)
    del st.logs[key]
    r = ex.fresh('memchr', 64)
    if ex.decide(st, f) is True:
        addpc(st, z3.And(z3.ULT(r, n), byte_at(ex, st, p, r) == c))
        for k in probes(ex, st):
            addpc(st, z3.Implies(z3.ULT(k, r), byte_at(ex, st, p, k) != c))
        setres(fr, ins, Ptr(p.r, simp(p.off + r)))
    else:
        for k in probes(ex, st):
            addpc(st, z3.Implies(z3.ULT(k, n), byte_at(ex, st, p, k) != c))
        setres(fr, ins, NULL)


# ---- spec primitives ----
def nd(bits):
    def h(ex, st, fr, ins, a, name):
        k = sum(1 for x in st.nd if x[0] == 'i')
        v = ex.fresh('nd%d' % k, bits)
        st.nd.append(('i', 'nd%d' % k, v))
        setres(fr, ins, v)
    return h


for _n in (8, 16, 32, 64):
    BUILTINS['vf_nd%d' % _n] = nd(_n)


@b('vf_len')
def vf_len(ex, st, fr, ins, a, name):
    """nondeterministic 32-bit length; the argument only bounds native/bounded searches"""
    v = ex.fresh('len', 32)
    st.nd.append(('i', 'len', v))
    if ex.mode == 'bmc':
        st.pc.append(z3.ULE(v, a[0]))
    setres(fr, ins, v)


@b('vf_bool')
def vf_bool(ex, st, fr, ins, a, name):
    v = z3.Bool('ndb!%d' % ex.uid())
    st.nd.append(('i', 'ndb', v))
    setres(fr, ins, v)


@b('vf_buf')
def vf_buf(ex, st, fr, ins, a, name):
    """fresh block of n bytes with arbitrary contents, element width w"""
    n = ex.toint(st, a[0])
    w = cval(a[1])
    base = BaseUF(ex.uid(), w)
    ex.assume(st, z3.ULE(n, c64(SIZE_LIMIT)))
    r = ex.region(st, 'buf', simp(n), 'buf', w, base)
    st.nd.append(('buf', r.name, (base, r.size, w)))
    setres(fr, ins, Ptr(r, c64(0)))


@b('vf_object')
def vf_object(ex, st, fr, ins, a, name):
    """uninitialised object of constant size, outside of the heap"""
    r = ex.region(st, 'obj', simp(ex.toint(st, a[0])), 'buf', 1, Cells({}, UNDEF))
    setres(fr, ins, Ptr(r, c64(0)))


@b('vf_heapbuf')
def vf_heapbuf(ex, st, fr, ins, a, name):
    """like vf_buf but as a heap block (may be freed / reallocated by the code)"""
    n = ex.toint(st, a[0])
    w = cval(a[1])
    base = BaseUF(ex.uid(), w)
    ex.assume(st, z3.ULE(n, c64(SIZE_LIMIT)))
    r = ex.region(st, 'heap', simp(n), 'heap', w, base)
    st.nd.append(('buf', r.name, (base, r.size, w)))
    setres(fr, ins, Ptr(r, c64(0)))


@b('vf_readonly')
def vf_readonly(ex, st, fr, ins, a, name):
    st.status[('ro', a[0].r.rid)] = True


@b('vf_assume')
def vf_assume(ex, st, fr, ins, a, name):
    c = a[0]
    if not z3.is_bool(c):
        c = c != 0
    ex.assume(st, c)
    r, m = ex.be.check(st.pc, ex.o['path_query'])
    if r == 'unsat':
        raise PathEnd()
    st.model = m


@b('vf_assert_')
def vf_assert(ex, st, fr, ins, a, name):
    c = a[0]
    if not z3.is_bool(c):
        c = c != 0
    nm = cstring(ex, st, a[1])
    ex.oblige(st, c, nm, 'ensures', ins)


def cstring(ex, st, p):
    node = st.mem[p.r.rid]
    out = ''
    o = cval(p.off)
    while True:
        v = ex.read(st, node, c64(o), 1)
        c = cval(v)
        if c == 0:
            return out
        out += chr(c)
        o += 1


@b('vf_cover_')
def vf_cover(ex, st, fr, ins, a, name):
    """reachability (vacuity) check: some path must reach this point feasibly"""
    nm = cstring(ex, st, a[0])
    ex.covers.setdefault('cover:' + nm, 0)
    if ex.mode == 'check' and not ex.covers['cover:' + nm]:
        r, m = ex.be.check(st.pc, 10000)
        if r == 'sat':
            ex.covers['cover:' + nm] = 1


@b('vf_havoc')
def vf_havoc(ex, st, fr, ins, a, name):
    """arbitrary new contents for n bytes at p (frame of a contract), element width w"""
    p, n, w = a[0], zext64(ex.toint(st, a[1])), cval(a[2])
    if isc(n) and cval(n) == 0:
        return
    r = p.r
    if r is None:
        return
    st.mem[r.rid] = Copy(p.off, n, BaseUF(ex.uid(), w), p.off, st.mem[r.rid])


@b('vf_window')
def vf_window(ex, st, fr, ins, a, name):
    """read-only view of src[pos, pos+len): own bounds, same contents"""
    src, pos, n = a[0], zext64(ex.toint(st, a[1])), zext64(ex.toint(st, a[2]))
    r = src.r
    p2 = simp(src.off + pos)
    setres(fr, ins, ex.mkwindow(st, r, p2, n, c64(0)))


@b('vf_window_pos')
def vf_window_pos(ex, st, fr, ins, a, name):
    """offset of p within the source region of its window"""
    p = a[0]
    if p.r is None or isinstance(p.r, FuncRef):
        setres(fr, ins, BVV(-1, 64))
        return
    if p.r.kind == 'window':
        setres(fr, ins, simp(p.r.extra[1] + p.off))
    else:
        setres(fr, ins, p.off)


@b('vf_window_base')
def vf_window_base(ex, st, fr, ins, a, name):
    p = a[0]
    setres(fr, ins, p.r.extra[1] if p.r is not None and p.r.kind == 'window' else c64(0))


@b('vf_size')
def vf_size(ex, st, fr, ins, a, name):
    p = a[0]
    setres(fr, ins, p.r.size if isinstance(p.r, Region) else c64(0))


@b('vf_same')
def vf_same(ex, st, fr, ins, a, name):
    """do two pointers point into the same block?"""
    x, y = a
    setres(fr, ins, z3.BoolVal(isinstance(x, Ptr) and isinstance(y, Ptr) and x.r is y.r))


@b('vf_offset')
def vf_offset(ex, st, fr, ins, a, name):
    setres(fr, ins, a[0].off)


@b('vf_is_heap')
def vf_is_heap(ex, st, fr, ins, a, name):
    p = a[0]
    setres(fr, ins, z3.BoolVal(isinstance(p.r, Region) and p.r.kind == 'heap' and st.status.get(p.r.rid) == 'live'))


@b('vf_heap_live')
def vf_heap_live(ex, st, fr, ins, a, name):
    n = sum(1 for rid, r in st.regions.items() if r.kind == 'heap' and st.status.get(rid) == 'live')
    setres(fr, ins, c64(n))


@b('vf_trust')
def vf_trust(ex, st, fr, ins, a, name):
    v = a[0]
    st.trust = int(z3.is_true(z3.simplify(v if z3.is_bool(v) else v != 0)))


@b('vf_symbolic')
def vf_symbolic(ex, st, fr, ins, a, name):
    setres(fr, ins, TRUE)


@pref('__cxa_atexit')
def atexit(ex, st, fr, ins, a, name):
    setres(fr, ins, BVV(0, 32))


@b('__cxa_guard_acquire')
def guard_acq(ex, st, fr, ins, a, name):
    setres(fr, ins, BVV(1, 32))


@b('__cxa_guard_release')
def guard_rel(ex, st, fr, ins, a, name):
    pass


@pref('spec_')
def spec(ex, st, fr, ins, a, name):
    """recursive specification function: uninterpreted application plus its unfolding"""
    f = ex.mod.funcs[name]
    fuel = ex.fuel if hasattr(ex, 'fuel') and ex.fuel is not None else ex.o.get('fuel', 2)
    setres(fr, ins, spec_app(ex, st, f, a, fuel))


def spec_app(ex, st, f, a, fuel):
    # all-constant or bounded-mode applications are executed
    key = []
    sig = []
    nm = f.name
    for x in a:
        if isinstance(x, Ptr):
            nm += '@%s' % (x.r.rid if x.r is not None and not isinstance(x.r, FuncRef) else '0')
            x = x.off
        if z3.is_bool(x):
            sig.append(z3.BoolSort())
        else:
            sig.append(z3.BitVecSort(x.size()))
        key.append(x)
    t = f.ret
    rs = z3.BoolSort() if t == ('int', 1) else z3.BitVecSort(t[1])
    if sig:
        app = z3.Function(nm, *(sig + [rs]))(*key)
    else:
        app = z3.Const(nm, rs)
    done = st.logs.get('spec')
    if done is None:
        done = st.logs['spec'] = {}
    k = (app.get_id())
    if fuel > 0 and done.get(k, (0,))[0] < 1:
        done = dict(done)
        done[k] = (1, app)
        st.logs = dict(st.logs)
        st.logs['spec'] = done
        sv = getattr(ex, 'fuel', None)
        ex.fuel = fuel - 1
        try:
            body = ex.pure_call_facts(st, f, a)
        finally:
            ex.fuel = sv
        ax = simp(app == body)
        if not z3.is_true(ax):
            ex.add_fact(st, ax)
    return app
