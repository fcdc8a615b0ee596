"""Parser for the textual LLVM IR (opaque pointers) emitted by clang/opt 18."""
import re

TOK = re.compile(r'''
 (?P<str>c?"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
|(?P<local>%(?:"(?:[^"])*"|[-\w$.]+))
|(?P<glob>@(?:"(?:[^"])*"|[-\w$.]+))
|(?P<meta>!(?:"(?:[^"])*"|[-\w$.]*))
|(?P<attr>\#\d+)
|(?P<dots>\.\.\.)
|(?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
|(?P<word>[A-Za-z_][\w.$-]*)
|(?P<punct><\{|\}>|[()\[\]{}<>,=*:|])
''', re.X)


class IRError(Exception):
    pass


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        c = s[pos]
        if c in ' \t\n':
            pos += 1
            continue
        if c == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise IRError('tokenize: %r' % s[pos:pos + 60])
        out.append((m.lastgroup, m.group()))
        pos = m.end()
    return out


# ---- types: tuples ----
VOID = ('void',)
PTR = ('ptr',)
LABEL = ('label',)
META = ('metadata',)


class Module:
    def __init__(self):
        self.types = {}      # name -> type or None (opaque)
        self.globals = {}    # name -> (type, initializer const or None, isconst)
        self.funcs = {}      # name -> Function
        self.decls = {}      # name -> ret type
        self.aliases = {}
        self.md = {}         # raw metadata text
        self._sz = {}

    def resolve(self, t):
        while t[0] == 'named':
            r = self.types.get(t[1])
            if r is None:
                raise IRError('opaque type ' + t[1])
            t = r
        return t

    def sizeof(self, t):
        k = t
        if k in self._sz:
            return self._sz[k]
        t = self.resolve(t)
        if t[0] == 'int':
            b = (t[1] + 7) // 8
            p = 1
            while p < b:
                p *= 2
            r = p
        elif t[0] in ('ptr', 'double'):
            r = 8
        elif t[0] == 'float':
            r = 4
        elif t[0] == 'x86_fp80':
            r = 16
        elif t[0] == 'arr':
            r = t[1] * self.sizeof(t[2])
        elif t[0] == 'vec':
            r = t[1] * self.sizeof(t[2])
        elif t[0] == 'struct':
            r = self.layout(t)[1]
        else:
            raise IRError('sizeof %r' % (t,))
        self._sz[k] = r
        return r

    def alignof(self, t):
        t = self.resolve(t)
        if t[0] == 'arr':
            return self.alignof(t[2])
        if t[0] == 'struct':
            if t[2]:
                return 1
            return max([1] + [self.alignof(x) for x in t[1]])
        if t[0] == 'vec':
            return self.sizeof(t)
        return min(16, self.sizeof(t))

    def layout(self, t):
        t = self.resolve(t)
        off = 0
        offs = []
        for x in t[1]:
            if not t[2]:
                a = self.alignof(x)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += self.sizeof(x)
        if not t[2]:
            a = self.alignof(t)
            off = (off + a - 1) // a * a
        return offs, off


class Function:
    def __init__(self, name, ret, params):
        self.name = name
        self.ret = ret
        self.params = params   # list of (type, name, attrs)
        self.blocks = {}       # label -> Block
        self.order = []
        self.entry = None
        self.loops = None


class Block:
    __slots__ = ('label', 'phis', 'ins')

    def __init__(self, label):
        self.label = label
        self.phis = []
        self.ins = []


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'dbg', 'text')

    def __init__(self, op, res, ty, a, dbg, text):
        self.op = op
        self.res = res
        self.ty = ty
        self.a = a
        self.dbg = dbg
        self.text = text

    def __repr__(self):
        return self.text.strip()


PARAM_ATTRS = set('''noundef nonnull noalias nocapture readonly writeonly readnone signext zeroext inreg returned
immarg nest nofree noundef dead_on_unwind writable swiftself allocalign allocptr'''.split())
FLAGS = set('''nuw nsw exact inbounds fast nnan ninf nsz arcp contract afn reassoc disjoint nneg volatile atomic
tail musttail notail fastcc ccc coldcc unnamed_addr'''.split())


class P:
    """token stream parser"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i][1] == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise IRError('expected %r got %r in %r' % (s, self.peek(), self.t))

    def eof(self):
        return self.i >= len(self.t)

    # types
    def type(self):
        k, v = self.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                t = ('int', int(v[1:]))
            elif v in ('void', 'ptr', 'float', 'double', 'label', 'metadata', 'x86_fp80', 'token', 'half'):
                t = (v,)
            elif v == 'opaque':
                return None
            else:
                raise IRError('type? %r in %r' % (v, self.t))
        elif k == 'local':
            t = ('named', uq(v[1:]))
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif v == '{' or v == '<{':
            pk = v == '<{'
            fs = []
            end = '}>' if pk else '}'
            while not self.accept(end):
                fs.append(self.type())
                self.accept(',')
            t = ('struct', tuple(fs), pk)
        elif v == '<':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect('>')
            t = ('vec', n, e)
        else:
            raise IRError('type? %r in %r' % (v, self.t))
        # function type "ret (args)"
        while self.peek()[1] == '(' and self._functype_ahead():
            self.skip_parens()
            t = ('func', t)
        return t

    def _functype_ahead(self):
        # only in call instructions with explicit function types e.g. "i32 (ptr, ...) @printf"
        d = 0
        j = self.i
        while j < len(self.t):
            if self.t[j][1] == '(':
                d += 1
            elif self.t[j][1] == ')':
                d -= 1
                if d == 0:
                    return j + 1 < len(self.t) and self.t[j + 1][0] in ('glob', 'local')
            j += 1
        return False

    def skip_parens(self):
        d = 0
        while True:
            k, v = self.next()
            if v in ('(', '{', '[', '<{', '<'):
                d += 1
            elif v in (')', '}', ']', '}>', '>'):
                d -= 1
                if d == 0:
                    return

    def flags(self):
        fl = []
        while self.peek()[1] in FLAGS:
            fl.append(self.next()[1])
        return fl

    def param_attrs(self):
        at = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.next()
                at[v] = True
            elif k == 'word' and v in ('sret', 'byval', 'dereferenceable', 'dereferenceable_or_null', 'align',
                                       'allocsize', 'range', 'elementtype', 'preallocated', 'inalloca', 'byref'):
                self.next()
                if v == 'align':
                    if self.accept('('):
                        self.next()
                        self.expect(')')
                    else:
                        self.next()
                    continue
                if self.peek()[1] == '(':
                    if v in ('sret', 'byval'):
                        self.next()
                        at[v] = self.type()
                        self.expect(')')
                    else:
                        self.skip_parens()
            else:
                return at

    # values / constants, given type
    def value(self, ty):
        k, v = self.next()
        if k == 'local':
            return ('reg', uq(v[1:]))
        return self._const(k, v, ty)

    def _const(self, k, v, ty):
        if k == 'glob':
            return ('global', uq(v[1:]))
        if k == 'num':
            if ty[0] in ('float', 'double', 'x86_fp80'):
                return ('fp', v)
            return ('int', int(v, 0))
        if k == 'word':
            if v == 'true':
                return ('int', 1)
            if v == 'false':
                return ('int', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'getelementptr':
                self.flags()
                self.accept('inrange')
                self.expect('(')
                bt = self.type()
                self.expect(',')
                ops = []
                while True:
                    self.accept('inrange')
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if self.accept(')'):
                        break
                    self.expect(',')
                return ('cgep', bt, ops)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return ('ccast', v, t, x, t2)
            if v in ('add', 'sub', 'mul', 'xor', 'and', 'or', 'shl', 'lshr'):
                self.flags()
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect(',')
                t2 = self.type()
                y = self.value(t2)
                self.expect(')')
                return ('cbin', v, t, x, y)
            if v == 'icmp':
                pred = self.next()[1]
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect(',')
                t2 = self.type()
                y = self.value(t2)
                self.expect(')')
                return ('cicmp', pred, t, x, y)
        if k == 'str':
            assert v[0] == 'c'
            b = bytearray()
            s = v[2:-1]
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\':
                        b.append(92)
                        i += 2
                    else:
                        b.append(int(s[i + 1:i + 3], 16))
                        i += 3
                else:
                    b.append(ord(s[i]))
                    i += 1
            return ('bytes', bytes(b))
        if v in ('[', '{', '<{', '<'):
            end = {'[': ']', '{': '}', '<{': '}>', '<': '>'}[v]
            es = []
            while not self.accept(end):
                t = self.type()
                es.append((t, self.value(t)))
                self.accept(',')
            return ('agg', es)
        raise IRError('const? %r %r in %r' % (k, v, self.t))

    def tval(self):
        t = self.type()
        self.param_attrs()
        return (t, self.value(t))


def uq(s):
    return s[1:-1] if s.startswith('"') else s


BIN = set('add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv frem'.split())
CAST = set('trunc zext sext bitcast ptrtoint inttoptr fptosi fptoui sitofp uitofp fpext fptrunc addrspacecast'.split())
DBG = re.compile(r',\s*!dbg (!\d+)')
MDSUF = re.compile(r'(,\s*![\w.]+ !\d+)+\s*$')


def parse_ins(text, mod):
    m = DBG.search(text)
    dbg = m.group(1) if m else None
    s = DBG.sub('', text)
    s = MDSUF.sub('', s)
    p = P(tokenize(s), mod)
    res = None
    if p.peek()[0] == 'local' and p.peek(1)[1] == '=':
        res = uq(p.next()[1][1:])
        p.next()
    op = p.next()[1]

    def mk(ty, a, o=op):
        return Ins(o, res, ty, a, dbg, text)
    if op in BIN:
        fl = p.flags()
        t = p.type()
        x = p.value(t)
        p.expect(',')
        y = p.value(t)
        return mk(t, (x, y, fl), op)
    if op == 'fneg':
        p.flags()
        t = p.type()
        return mk(t, (p.value(t),))
    if op in ('icmp', 'fcmp'):
        p.flags()
        pred = p.next()[1]
        t = p.type()
        x = p.value(t)
        p.expect(',')
        y = p.value(t)
        return mk(('int', 1), (pred, t, x, y))
    if op in CAST:
        p.flags()
        t = p.type()
        x = p.value(t)
        p.expect('to')
        t2 = p.type()
        return mk(t2, (t, x))
    if op == 'freeze':
        t, v = p.tval()
        return mk(t, (v,))
    if op == 'select':
        p.flags()
        ct, c = p.tval()
        p.expect(',')
        t, x = p.tval()
        p.expect(',')
        t2, y = p.tval()
        return mk(t, (c, x, y))
    if op == 'phi':
        p.flags()
        t = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(t)
            p.expect(',')
            l = uq(p.next()[1][1:])
            p.expect(']')
            inc.append((v, l))
            if not p.accept(','):
                break
        return mk(t, inc)
    if op == 'alloca':
        p.accept('inalloca')
        t = p.type()
        n = ('int', 1)
        while p.accept(','):
            if p.accept('align'):
                p.next()
            else:
                nt = p.type()
                n = p.value(nt)
        return mk(PTR, (t, n))
    if op == 'load':
        p.flags()
        t = p.type()
        p.expect(',')
        pt, v = p.tval()
        return mk(t, (v,))
    if op == 'store':
        p.flags()
        t, v = p.tval()
        p.expect(',')
        pt, a = p.tval()
        return mk(t, (v, a))
    if op == 'getelementptr':
        p.flags()
        bt = p.type()
        p.expect(',')
        ops = []
        while True:
            ops.append(p.tval())
            if not p.accept(','):
                break
        return mk(PTR, (bt, ops))
    if op in ('call', 'tail', 'musttail', 'notail', 'invoke'):
        if op != 'call':
            p.next()
        fl = p.flags()
        # return attrs
        p.param_attrs()
        while p.peek()[1] in FLAGS:
            p.next()
        rt = p.type()
        if rt[0] == 'func':
            rt = rt[1]
        elif p.peek()[1] == '(':
            p.skip_parens()
        cal = p.value(PTR) if p.peek()[1] != 'asm' else ('asm',)
        if cal == ('asm',):
            return mk(rt, (cal, [], s), 'call')
        p.expect('(')
        args = []
        while not p.accept(')'):
            t = p.type()
            at = p.param_attrs()
            if t[0] == 'metadata':
                d = 0
                while p.peek()[1] not in (',', ')') or d:
                    v = p.next()[1]
                    if v == '(':
                        d += 1
                    if v == ')':
                        d -= 1
                args.append((t, ('undef',), at))
            else:
                args.append((t, p.value(t), at))
            p.accept(',')
        return mk(rt, (cal, args), 'call')
    if op == 'ret':
        if p.peek()[1] == 'void':
            return mk(VOID, (None,))
        t, v = p.tval()
        return mk(t, (v,))
    if op == 'br':
        if p.accept('label'):
            return mk(VOID, (uq(p.next()[1][1:]),))
        t, c = p.tval()
        p.expect(',')
        p.expect('label')
        a = uq(p.next()[1][1:])
        p.expect(',')
        p.expect('label')
        b = uq(p.next()[1][1:])
        return mk(VOID, (c, a, b), 'condbr')
    if op == 'switch':
        t, v = p.tval()
        p.expect(',')
        p.expect('label')
        d = uq(p.next()[1][1:])
        p.expect('[')
        cs = []
        while not p.accept(']'):
            ct = p.type()
            c = p.value(ct)
            p.expect(',')
            p.expect('label')
            cs.append((c[1], uq(p.next()[1][1:])))
        return mk(t, (v, d, cs))
    if op == 'unreachable':
        return mk(VOID, ())
    if op in ('extractvalue',):
        t, v = p.tval()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return mk(t, (v, idx))
    if op == 'insertvalue':
        t, v = p.tval()
        p.expect(',')
        et, e = p.tval()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()[1]))
        return mk(t, (v, et, e, idx))
    if op in ('fence',):
        return mk(VOID, ())
    if op in ('atomicrmw', 'cmpxchg'):
        raise IRError('atomic: ' + text)
    raise IRError('unknown instruction: ' + text)


def parse_module(text):
    mod = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if not ln or ln[0] == ';' or ln.startswith('source_filename') or ln.startswith('target') \
                or ln.startswith('attributes') or ln.startswith('$'):
            i += 1
            continue
        if ln[0] == '!':
            m = re.match(r'(!\d+|![\w.]+) = (.*)', ln)
            if m:
                mod.md[m.group(1)] = m.group(2)
            i += 1
            continue
        if ln[0] == '%':
            p = P(tokenize(ln), mod)
            nm = uq(p.next()[1][1:])
            p.expect('=')
            p.expect('type')
            mod.types[nm] = p.type()
            i += 1
            continue
        if ln[0] == '@':
            ln2 = MDSUF.sub('', ln)
            p = P(tokenize(ln2), mod)
            nm = uq(p.next()[1][1:])
            p.expect('=')
            isconst = False
            external = False
            alias = False
            while True:
                k, v = p.peek()
                if v in ('global', 'constant'):
                    isconst = v == 'constant'
                    p.next()
                    break
                if v == 'alias':
                    alias = True
                    p.next()
                    break
                if v in ('external', 'extern_weak'):
                    external = True
                p.next()
                if v in ('thread_local', 'addrspace') and p.peek()[1] == '(':
                    p.skip_parens()
            t = p.type()
            if alias:
                if p.peek()[1] == '(':
                    p.skip_parens()
                p.expect(',')
                p.type()
                mod.aliases[nm] = p.value(PTR)
                i += 1
                continue
            init = None
            if not external and not p.eof() and p.peek()[1] not in (',',):
                init = p.value(t)
            mod.globals[nm] = (t, init, isconst)
            i += 1
            continue
        if ln.startswith('declare'):
            m = re.search(r'@("[^"]*"|[-\w$.]+)\(', ln)
            mod.decls[uq(m.group(1))] = ln
            i += 1
            continue
        if ln.startswith('define'):
            toks = tokenize(re.sub(r'!dbg !\d+', '', ln))
            p = P(toks, mod)
            p.next()
            while p.peek()[0] == 'word' and p.peek()[1] in (
                    'dso_local', 'internal', 'linkonce_odr', 'weak_odr', 'weak', 'linkonce', 'private', 'hidden', 'local_unnamed_addr',
                    'unnamed_addr', 'fastcc', 'available_externally', 'protected', 'external', 'coldcc', 'ccc'):
                p.next()
            p.param_attrs()
            rt = p.type()
            nm = uq(p.next()[1][1:])
            p.expect('(')
            params = []
            k = 0
            while not p.accept(')'):
                if p.accept('...'):
                    continue
                t = p.type()
                at = p.param_attrs()
                if p.peek()[0] == 'local':
                    pn = uq(p.next()[1][1:])
                else:
                    pn = str(k)
                k += 1
                params.append((t, pn, at))
                p.accept(',')
            f = Function(nm, rt, params)
            i += 1
            cur = None
            while lines[i] != '}':
                s = lines[i]
                st = s.strip()
                if not st or st[0] == ';':
                    i += 1
                    continue
                if s[0] not in ' \t':
                    m = re.match(r'("[^"]*"|[-\w$.]+):', s)
                    cur = Block(uq(m.group(1)))
                    f.blocks[cur.label] = cur
                    f.order.append(cur.label)
                    i += 1
                    continue
                if cur is None:
                    cur = Block(str(len(params)))
                    f.blocks[cur.label] = cur
                    f.order.append(cur.label)
                if re.match(r'\s*switch ', s):
                    while not re.search(r'\]\s*(,\s*!.*)?$', lines[i]):
                        i += 1
                        s += ' ' + lines[i]
                if '@llvm.dbg.' in s or '@llvm.experimental.noalias' in s:
                    i += 1
                    continue
                try:
                    ins = parse_ins(s, mod)
                except IRError as e:
                    ins = Ins('unsupported', None, VOID, (str(e),), None, s)
                if ins.op == 'phi':
                    cur.phis.append(ins)
                else:
                    cur.ins.append(ins)
                i += 1
            f.entry = f.order[0]
            mod.funcs[nm] = f
            i += 1
            continue
        i += 1
    return mod


# ---- CFG / loops ----
def succs(b):
    t = b.ins[-1]
    if t.op == 'br':
        return [t.a[0]]
    if t.op == 'condbr':
        return [t.a[1], t.a[2]]
    if t.op == 'switch':
        r = [t.a[1]]
        for _, l in t.a[2]:
            if l not in r:
                r.append(l)
        return r
    return []


def compute_loops(f):
    """returns dict header -> set(blocks) of natural loops; checks reducibility"""
    if f.loops is not None:
        return f.loops
    order = []
    seen = set()

    stack = [(f.entry, iter(succs(f.blocks[f.entry])))]
    seen.add(f.entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succs(f.blocks[s]))))
                break
        else:
            order.append(b)
            stack.pop()
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succs(f.blocks[b]):
            preds[s].append(b)
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while idx[x] > idx[y]:
                                x = idom[x]
                            while idx[y] > idx[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in succs(f.blocks[b]):
            if idx[s] <= idx[b]:
                if not dom(s, b):
                    raise IRError('irreducible loop in ' + f.name)
                body = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    f.loops = loops
    return loops
