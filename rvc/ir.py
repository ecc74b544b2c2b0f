"""Parser for the textual LLVM IR that clang emits for the real sources.

Only the constructs clang -O0 + mem2reg produces for C are understood; anything
else raises IRError, which the driver turns into an "undecided" obligation.
"""
import re


class IRError(Exception):
    pass


TOK = re.compile(r'''
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<id>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>![a-zA-Z0-9_.]*)
  | (?P<attr>\#[0-9]+)
  | (?P<num>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|0x[0-9A-Fa-f]+|-?[0-9]+)
  | (?P<word>[a-zA-Z_][-a-zA-Z0-9_.]*)
  | (?P<dots>\.\.\.)
  | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c in ' \t':
            i += 1
            continue
        if c == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise IRError('lex: ' + s[i:i + 40])
        out.append((m.lastgroup, m.group()))
        i = m.end()
    return out


# ---- types -----------------------------------------------------------------

class Ty:
    __slots__ = ('k', 'w', 'el', 'n', 'name', 'packed')

    def __init__(self, k, w=0, el=None, n=0, name=None, packed=False):
        self.k, self.w, self.el, self.n, self.name, self.packed = k, w, el, n, name, packed

    def __repr__(self):
        return {'int': 'i%d' % self.w}.get(self.k, self.k + (':' + self.name if self.name else ''))


VOID = Ty('void')
PTR = Ty('ptr')
INT = {}


def i(w):
    if w not in INT:
        INT[w] = Ty('int', w)
    return INT[w]


class Types:
    def __init__(self):
        self.named = {}

    def resolve(self, t):
        while t.k == 'named':
            if t.name not in self.named:
                raise IRError('opaque type ' + t.name)
            t = self.named[t.name]
        return t

    def align(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            b = (t.w + 7) // 8
            a = 1
            while a < b and a < 16:
                a *= 2
            return min(a, 16)
        if t.k == 'ptr':
            return 8
        if t.k == 'fp':
            return t.w // 8 if t.w <= 64 else 16
        if t.k == 'arr':
            return self.align(t.el)
        if t.k == 'struct':
            if t.packed:
                return 1
            return max([self.align(e) for e in t.el] or [1])
        raise IRError('align ' + repr(t))

    def size(self, t):
        t = self.resolve(t)
        if t.k == 'int':
            a = self.align(t)
            b = (t.w + 7) // 8
            return (b + a - 1) // a * a
        if t.k == 'ptr':
            return 8
        if t.k == 'fp':
            return {32: 4, 64: 8, 80: 16, 128: 16}[t.w]
        if t.k == 'arr':
            return t.n * self.size(t.el)
        if t.k == 'struct':
            off = 0
            for e in t.el:
                if not t.packed:
                    a = self.align(e)
                    off = (off + a - 1) // a * a
                off += self.size(e)
            a = self.align(t)
            return (off + a - 1) // a * a
        raise IRError('size ' + repr(t))

    def field_off(self, t, idx):
        t = self.resolve(t)
        off = 0
        for j, e in enumerate(t.el):
            if not t.packed:
                a = self.align(e)
                off = (off + a - 1) // a * a
            if j == idx:
                return off
            off += self.size(e)
        raise IRError('field')


# ---- parser over one token list -----------------------------------------------

PARAM_ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'nocapture', 'readonly', 'writeonly', 'noalias', 'returned',
               'immarg', 'inreg', 'readnone', 'noreturn', 'local_unnamed_addr', 'unnamed_addr', 'dso_local', 'internal',
               'external', 'private', 'hidden', 'global', 'constant', 'common', 'linkonce_odr', 'weak', 'dso_preemptable',
               'inbounds', 'nsw', 'nuw', 'exact', 'volatile', 'tail', 'musttail', 'notail', 'fast', 'nnan', 'ninf', 'nsz',
               'arcp', 'contract', 'afn', 'reassoc', 'extern_weak', 'disjoint', 'nneg', 'samesign', 'inrange', 'atomic',
               'nuw', 'available_externally', 'linkonce', 'fastcc', 'ccc', 'coldcc', 'swiftself', 'nofree', 'nounwind',
               'allocalign', 'dead_on_unwind', 'writable', 'allocptr', 'noinline', 'weak_odr', 'thread_local'}


class P:
    def __init__(self, toks, types):
        self.t = toks
        self.i = 0
        self.types = types

    def peek(self, k=0):
        return self.t[self.i + k][1] if self.i + k < len(self.t) else None

    def kind(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def next(self):
        r = self.t[self.i][1]
        self.i += 1
        return r

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            raise IRError('expected %s got %s in %s' % (s, self.peek(), ' '.join(x[1] for x in self.t)[:200]))

    def type(self):
        w = self.next()
        if w == 'ptr':
            if self.peek() == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
            t = PTR
        elif w == 'void':
            t = VOID
        elif re.fullmatch(r'i[0-9]+', w):
            t = i(int(w[1:]))
        elif w == 'double':
            t = Ty('fp', 64)
        elif w == 'float':
            t = Ty('fp', 32)
        elif w == 'x86_fp80':
            t = Ty('fp', 80)
        elif w == 'label':
            t = Ty('label')
        elif w == 'metadata':
            t = Ty('metadata')
        elif w == 'opaque':
            t = Ty('opaque')
        elif w == '...':
            t = Ty('dots')
        elif w == '[':
            n = int(self.next()); self.expect('x')
            el = self.type(); self.expect(']')
            t = Ty('arr', el=el, n=n)
        elif w == '{':
            t = Ty('struct', el=self._fields('}'))
        elif w == '<':
            if self.peek() == '{':
                self.next()
                f = self._fields('}')
                self.expect('>')
                t = Ty('struct', el=f, packed=True)
            else:
                n = int(self.next()); self.expect('x'); el = self.type(); self.expect('>')
                t = Ty('vec', el=el, n=n)
        elif w.startswith('%'):
            t = Ty('named', name=w)
        else:
            raise IRError('type ' + w)
        # function type  T (args)
        while self.peek() == '(' and t.k != 'label':
            # only used inside call signatures
            depth = 0
            j = self.i
            while True:
                x = self.t[j][1]
                if x == '(':
                    depth += 1
                elif x == ')':
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            args = []
            va = False
            self.next()
            while self.peek() != ')':
                if self.accept('...'):
                    va = True
                else:
                    args.append(self.type())
                    self.attrs()
                self.accept(',')
            self.expect(')')
            t = Ty('fn', el=(t, args, va))
        return t

    def _fields(self, close):
        f = []
        while self.peek() != close:
            f.append(self.type())
            self.accept(',')
        self.expect(close)
        return f

    def attrs(self):
        """Skip parameter attributes; returns dict of interesting ones."""
        r = {}
        while True:
            w = self.peek()
            if w in PARAM_ATTRS:
                r[w] = True
                self.next()
            elif w in ('align', 'dereferenceable', 'dereferenceable_or_null'):
                self.next()
                if self.accept('('):
                    self.next(); self.expect(')')
                else:
                    self.next()
            elif w in ('byval', 'sret', 'elementtype', 'preallocated', 'byref'):
                self.next(); self.expect('(')
                r[w] = self.type()
                self.expect(')')
            elif w in ('range', 'memory', 'allocsize', 'captures', 'nofpclass'):
                self.next()
                self.skip_parens()
            else:
                return r

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            w = self.next()
            if w == '(':
                d += 1
            elif w == ')':
                d -= 1

    def value(self, ty):
        """An operand of type ty. Returns a tuple tree."""
        k, w = self.t[self.i]
        if k == 'id':
            self.i += 1
            return ('local', w[1:].strip('"')) if w[0] == '%' else ('global', w[1:].strip('"'))
        if k == 'num':
            self.i += 1
            if ty.k == 'fp':
                if w.startswith('0x'):
                    return ('fpbits', int(w, 16))
                return ('fp', float(w))
            return ('int', int(w))
        if k == 'str':
            self.i += 1
            return ('cstr', unescape(w[2:-1]))
        if w in ('true', 'false'):
            self.i += 1
            return ('int', 1 if w == 'true' else 0)
        if w == 'null':
            self.i += 1
            return ('null',)
        if w in ('undef', 'poison'):
            self.i += 1
            return ('undef',)
        if w == 'zeroinitializer':
            self.i += 1
            return ('zero',)
        if w == 'none':
            self.i += 1
            return ('null',)
        if w == '[':
            self.i += 1
            return ('agg', self._vals(']'))
        if w == '{':
            self.i += 1
            return ('agg', self._vals('}'))
        if w == '<':
            self.i += 1
            if self.accept('{'):
                v = self._vals('}')
                self.expect('>')
            else:
                v = self._vals('>')
            return ('agg', v)
        if w == 'getelementptr':
            self.next(); self.attrs()
            if self.peek() == 'inrange':
                self.next(); self.skip_parens()
            self.expect('(')
            bt = self.type(); self.expect(',')
            ops = self._vals(')')
            return ('cgep', bt, ops)
        if w in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            self.next(); self.expect('(')
            t1 = self.type(); v = self.value(t1); self.expect('to'); t2 = self.type(); self.expect(')')
            return ('ccast', w, t1, v, t2)
        if w in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            self.next(); self.attrs(); self.expect('(')
            vs = self._vals(')')
            return ('cbin', w, vs)
        if w == 'asm':
            raise IRError('inline asm')
        raise IRError('value ' + w)

    def _vals(self, close):
        r = []
        while self.peek() != close:
            self.attrs()
            t = self.type(); self.attrs()
            r.append((t, self.value(t)))
            self.accept(',')
        self.expect(close)
        return r


def unescape(s):
    out = bytearray()
    j = 0
    while j < len(s):
        if s[j] == '\\':
            if s[j + 1] == '\\':
                out.append(92); j += 2
            else:
                out.append(int(s[j + 1:j + 3], 16)); j += 3
        else:
            out += s[j].encode('latin-1', 'replace'); j += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'txt')

    def __init__(self, op, res, ty, a, line, txt):
        self.op, self.res, self.ty, self.a, self.line, self.txt = op, res, ty, a, line, txt


class Function:
    def __init__(self, name, ret, params, va, internal):
        self.name, self.ret, self.params, self.va, self.internal = name, ret, params, va, internal
        self.blocks = {}
        self.order = []
        self.entry = None
        self.loops = None
        self.module = None

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return list(t.a[1:]) if t.a[0] is not None else [t.a[1]]
        if t.op == 'switch':
            return [t.a[2]] + [x[1] for x in t.a[3]]
        return []

    def analyse(self):
        if self.loops is not None:
            return
        succ = {b: list(dict.fromkeys(self.succs(b))) for b in self.order}
        pred = {b: [] for b in self.order}
        for b in succ:
            for s in succ[b]:
                pred[s].append(b)
        reach = []
        seen = set()
        st = [self.entry]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b); reach.append(b)
            st.extend(succ[b])
        dom = {b: set(reach) for b in reach}
        dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for b in self.order:
                if b not in seen or b == self.entry:
                    continue
                ps = [dom[p] for p in pred[b] if p in seen]
                d = set.intersection(*ps) | {b}
                if d != dom[b]:
                    dom[b] = d
                    ch = True
        loops = {}
        for b in reach:
            for s in succ[b]:
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in pred[x] if p in seen)
        self.loops = loops
        self.loop_order = [b for b in self.order if b in loops]


class Module:
    def __init__(self, name):
        self.name = name
        self.types = Types()
        self.globals = {}
        self.functions = {}
        self.declared = {}


def parse_module(text, name):
    m = Module(name)
    lines = text.split('\n')
    dbg = {}
    for l in lines:
        if l.startswith('!'):
            mm = re.match(r'!(\d+) = (?:distinct )?!DILocation\(line: (\d+)', l)
            if mm:
                dbg[mm.group(1)] = int(mm.group(2))
    idx = 0
    n = len(lines)
    cur = None
    blk = None
    while idx < n:
        l = lines[idx]
        idx += 1
        if not l or l[0] == ';':
            continue
        if cur is None:
            if l[0] == '%' and ' = type ' in l:
                p = P(tokenize(l), m.types)
                nm = p.next(); p.expect('='); p.expect('type')
                t = p.type()
                if t.k != 'opaque':
                    m.types.named[nm] = t
            elif l[0] == '@':
                _global(m, l)
            elif l.startswith('define '):
                cur = _define(m, l)
                blk = None
            elif l.startswith('declare '):
                mm = re.search(r'@("[^"]*"|[-\w$.]+)\(', l)
                if mm:
                    m.declared[mm.group(1).strip('"')] = l
            continue
        if l[0] == '}':
            cur = None
            continue
        mm = re.match(r'^("[^"]*"|[-\w$.]+):', l)
        if mm:
            blk = mm.group(1).strip('"')
            cur.blocks[blk] = []
            cur.order.append(blk)
            if cur.entry is None:
                cur.entry = blk
            continue
        s = l.strip()
        if not s:
            continue
        if blk is None:
            blk = '0'
            cur.blocks[blk] = []
            cur.order.append(blk)
            cur.entry = blk
        if s.startswith('switch ') and not s.rstrip().split('!')[0].rstrip().endswith(']'):
            while ']' not in lines[idx]:
                s += ' ' + lines[idx].strip()
                idx += 1
            s += ' ' + lines[idx].strip()
            idx += 1
        md = re.search(r', !dbg !(\d+)', s)
        line = dbg.get(md.group(1)) if md else None
        s2 = re.sub(r'(, )?![a-zA-Z.]+ !\d+', '', s)
        cur.blocks[blk].append((s2, line))
    for f in m.functions.values():
        f.module = m
    return m


def _global(m, l):
    l2 = re.sub(r', !dbg !\d+', '', l)
    p = P(tokenize(l2), m.types)
    nm = p.next()[1:].strip('"')
    p.expect('=')
    const = False
    ext = False
    internal = False
    while True:
        w = p.peek()
        if w == 'constant':
            const = True
        if w == 'external':
            ext = True
        if w in ('internal', 'private'):
            internal = True
        if w in PARAM_ATTRS:
            p.next()
            if w == 'thread_local' and p.peek() == '(':
                p.skip_parens()
        else:
            break
    t = p.type()
    init = None
    if not ext:
        init = p.value(t)
    m.globals[nm] = dict(name=nm, ty=t, init=init, const=const, internal=internal)


def _define(m, l):
    l2 = re.sub(r'!dbg !\d+', '', l)
    p = P(tokenize(l2.rstrip(' {')), m.types)
    p.expect('define')
    internal = False
    while p.peek() in PARAM_ATTRS:
        if p.peek() == 'internal':
            internal = True
        p.next()
    p.attrs()
    # return type: must not swallow '(' as function type: name follows, so fine
    ret = p.type()
    nm = p.next()[1:].strip('"')
    p.expect('(')
    params = []
    va = False
    k = 0
    while p.peek() != ')':
        if p.accept('...'):
            va = True
        else:
            t = p.type()
            at = p.attrs()
            if p.kind() == 'id':
                pn = p.next()[1:].strip('"')
            else:
                pn = str(k)
            params.append((pn, t, at))
            k += 1
        p.accept(',')
    f = Function(nm, ret, params, va, internal)
    m.functions[nm] = f
    return f


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptrunc', 'fpext', 'fptosi', 'fptoui', 'sitofp', 'uitofp'}


def lower(f):
    """Parse the instructions of f (lazily)."""
    if getattr(f, 'lowered', False):
        return f
    types = f.module.types
    for b in f.order:
        f.blocks[b] = [parse_instr(s, line, types) for (s, line) in f.blocks[b]]
        out = []
        for ins in f.blocks[b]:
            if ins is not None:
                out.append(ins)
        f.blocks[b] = out
    f.lowered = True
    f.analyse()
    return f


def parse_instr(s, line, types):
    toks = tokenize(s)
    p = P(toks, types)
    res = None
    if p.kind() == 'id' and p.peek(1) == '=':
        res = p.next()[1:].strip('"')
        p.next()
    while p.peek() in ('tail', 'musttail', 'notail'):
        p.next()
    op = p.next()
    I = lambda o, ty, *a: Instr(o, res, ty, a, line, s)
    if op == 'br':
        if p.accept('label'):
            return I('br', None, None, p.next()[1:].strip('"'))
        t = p.type(); c = p.value(t); p.expect(','); p.expect('label'); a = p.next()[1:].strip('"'); p.expect(','); p.expect('label')
        b = p.next()[1:].strip('"')
        return I('br', None, c, a, b)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.expect(','); p.expect('label'); d = p.next()[1:].strip('"'); p.expect('[')
        cs = []
        while p.peek() != ']':
            t2 = p.type(); cv = p.value(t2); p.expect(','); p.expect('label'); cs.append((cv[1], p.next()[1:].strip('"')))
        return I('switch', t, t, v, d, cs)
    if op == 'ret':
        t = p.type()
        if t.k == 'void':
            return I('ret', t, None)
        return I('ret', t, p.value(t))
    if op == 'unreachable':
        return I('unreachable', None)
    if op in BIN:
        fl = p.attrs()
        t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return I('bin', t, op, a, b, fl)
    if op == 'fneg':
        p.attrs(); t = p.type()
        return I('fneg', t, p.value(t))
    if op in ('icmp', 'fcmp'):
        p.attrs()
        pr = p.next(); t = p.type(); a = p.value(t); p.expect(','); b = p.value(t)
        return I(op, t, pr, a, b)
    if op in CAST:
        p.attrs()
        t = p.type(); a = p.value(t); p.expect('to'); t2 = p.type()
        return I('cast', t2, op, t, a)
    if op == 'load':
        p.attrs()
        t = p.type(); p.expect(','); pt = p.type(); a = p.value(pt)
        return I('load', t, a)
    if op == 'store':
        p.attrs()
        t = p.type(); v = p.value(t); p.expect(','); pt = p.type(); a = p.value(pt)
        return I('store', t, v, a)
    if op == 'alloca':
        p.attrs()
        t = p.type(); cnt = None
        if p.accept(',') and p.peek() not in ('align',):
            t2 = p.type(); cnt = (t2, p.value(t2))
        return I('alloca', t, cnt)
    if op == 'getelementptr':
        p.attrs()
        if p.peek() == 'inrange':
            p.next(); p.skip_parens()
        t = p.type(); p.expect(',')
        ops = []
        while p.i < len(p.t):
            tt = p.type(); ops.append((tt, p.value(tt)))
            if not p.accept(','):
                break
        return I('gep', t, ops)
    if op == 'phi':
        p.attrs()
        t = p.type(); inc = []
        while p.accept('['):
            v = p.value(t); p.expect(','); b = p.next()[1:].strip('"'); p.expect(']'); inc.append((v, b))
            p.accept(',')
        return I('phi', t, inc)
    if op == 'select':
        p.attrs()
        ct = p.type(); c = p.value(ct); p.expect(','); t = p.type(); a = p.value(t); p.expect(','); t2 = p.type(); b = p.value(t2)
        return I('select', t, c, a, b)
    if op == 'freeze':
        t = p.type()
        return I('freeze', t, p.value(t))
    if op == 'call':
        p.attrs()
        t = p.type()
        if t.k == 'fn':
            t = t.el[0]
        if p.peek() == 'asm':
            return I('asm', t)
        callee = p.value(PTR)
        p.expect('(')
        args = []
        while p.peek() != ')':
            at = p.type()
            if at.k == 'metadata':
                return None
            ad = p.attrs()
            args.append((at, p.value(at), ad)); p.accept(',')
        p.expect(')')
        if callee[0] == 'global' and callee[1].startswith(('llvm.dbg', 'llvm.lifetime')):
            return None
        return I('call', t, callee, args)
    if op == 'extractvalue':
        t = p.type(); v = p.value(t); ix = []
        while p.accept(','):
            ix.append(int(p.next()))
        return I('extractvalue', t, v, ix)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.expect(','); t2 = p.type(); v2 = p.value(t2); ix = []
        while p.accept(','):
            ix.append(int(p.next()))
        return I('insertvalue', t, v, t2, v2, ix)
    if op == 'va_arg':
        t = p.type(); v = p.value(t); p.expect(','); t2 = p.type()
        return I('va_arg', t2, v)
    if op in ('atomicrmw', 'cmpxchg', 'fence'):
        return I('atomic', None, s)
    raise IRError('instr ' + s)
