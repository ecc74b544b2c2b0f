from .common import *

HP = 'rtypes.h rvm/rvmcpu.h rvm/rvmreg.h rpa/rpastatpriv.h rpa/rpavm.h'
want(HP, 'struct rpastat_s', ['dbex', 'input', 'start', 'end', 'err', 'encoding', 'debug', 'records', 'instackbuffer', 'instack', 'instacksize', 'cache', 'ip', 'ip.input', 'ip.serial', 'cpu'])
want(HP, 'rpainput_t', ['input', 'wc', 'iwc', 'wcsize', 'eof'])
want(HP, 'rvmcpu_t', ['r', 'status', 'error', 'abort', 'userdata1', 'switables'])
want(HP, 'rvmreg_t', ['v', 'size', 'type', 'flags'])
want(HP, 'rvm_asmins_t', ['data'])
want(HP, 'rpair_t', ['p1', 'p2'])
want(HP, 'rvm_switable_t', ['name', 'op'])
SWI = ['RPA_' + x for x in ('MATCHCHR_NAN MATCHCHR_OPT MATCHCHR_MUL MATCHCHR_MOP MATCHRNG_NAN MATCHRNG_OPT MATCHRNG_MUL MATCHRNG_MOP MATCHRNG_PEEK '
       'MATCHSPCHR_NAN MATCHSPCHR_OPT MATCHSPCHR_MUL MATCHSPCHR_MOP SHIFT SETCACHE CHECKCACHE EMITSTART EMITEND EMITTAIL ABORT PRNINFO MATCHBITMAP EXITONBITMAP VERIFYBITMAP').split()]
want(HP, None, ['RPA_ENCODING_UTF8', 'RPA_ENCODING_BYTE', 'RPA_ENCODING_UTF16LE', 'RPA_ENCODING_ICASE', 'R_TOP', 'R_REC', 'R_OTP', 'R_LOO', 'R0', 'R1', 'SP', 'FP', 'DA', 'RVM_REGS_NUM',
                'RVM_STATUS_Z', 'RVM_STATUS_N', '(int)RPA_BITMAP_BITS', 'RPA_E_EXECUTION', 'RVM_OPSWI(0)', 'RVM_OPCODE_BITS'] + SWI)
want('rtypes.h rlib/rharray.h', 'rharray_t', ['members'])
want(HP, 'rpacache_t', ['hit', 'disalbled', 'serial', 'entry'])
C = O.c
ST = lambda f=None: O('struct rpastat_s', f)
IN = lambda f=None: O('rpainput_t', f)
CP = lambda f=None: O('rvmcpu_t', f)
NONE = bv((1 << 64) - 1)
ENC = {'utf8': 'RPA_ENCODING_UTF8', 'byte': 'RPA_ENCODING_BYTE', 'utf16': 'RPA_ENCODING_UTF16LE'}


class Regs:
    """the register file of a machine, contents arbitrary"""

    def __init__(self, v, ptrs=()):
        self.v, self.RS = v, O('rvmreg_t')
        n = C('RVM_REGS_NUM')
        self.f, fs, ft, ff = v.fun('reg', 64, 64), v.fun('regsize', 64, 32), v.fun('regtype', 64, 16), v.fun('regflags', 64, 16)
        reg = Region(CP('r'), self.RS, {O('rvmreg_t', 'v'): (8, lambda i: self.f(i)), O('rvmreg_t', 'size'): (4, lambda i: fs(i)),
                                        O('rvmreg_t', 'type'): (2, lambda i: ft(i)), O('rvmreg_t', 'flags'): (2, lambda i: ff(i))}, count=bv(n))
        self.status, self.abort = v.bv('status'), v.bv('abort0')
        self.cells = {CP('status'): (8, self.status), CP('abort'): (8, self.abort)}
        self.obj = v.obj('cpu', CP(), cells=self.cells, regions=[reg])
        self.p = Ptr(self.obj)

    def old(self, i):
        return self.f(bv(C(i)) if isinstance(i, str) else zx(i))

    def at(self, i, f='v'):
        i = C(i) if isinstance(i, str) else i
        if isinstance(i, int):
            return self.p + (CP('r') + i * self.RS + O('rvmreg_t', f))
        return self.p + (bv(CP('r') + O('rvmreg_t', f)) + zx(i) * bv(self.RS))

    def new(self, s, i):
        return self.v.rd(s, self.at(i), 8)

    def st(self, s, f='status'):
        return self.v.rd(s, self.p + CP(f), 8)

    def frame(self, s, allow, label='other registers'):
        v = self.v
        w = v.bv('W', 4)
        ok = And(*[w != bv(C(i), 4) for i in allow])
        v.check(s, Or(Not(ok), self.new(s, w) == self.old(w)), label)


def ins(v, op1, op2=None, op3=None):
    o = v.obj('ins', O('rvm_asmins_t'))
    b = Ptr(o)
    z = [x if x is not None else v.bv('op%d' % i, 4) for i, x in ((1, op1), (2, op2), (3, op3))]
    v.E.store(v.s, b + (O('rvm_asmins_t', 'data') + O('rvmreg_t')), 2, simp(z3.Concat(v.bv('pad', 4), z[2], z[1], z[0])))
    return b


class Stat:
    """a matching context in the middle of a run over an input of any length: the characters numbered below
    `serial` are decoded; one entry before the first and one end-of-input entry after the last may be current"""

    def __init__(self, v, enc=None, icase=None, cap=6):
        self.v = v
        self.N = N = v.bv('inputsize')
        v.assume(U(N, bv(1 << 40)))
        v.small(N, cap)
        self.inp = v.obj('input', N)
        self.serial, self.P, self.start = v.bv('serial'), v.bv('position'), v.bv('from')
        v.assume(ULE(self.P, N), ULE(self.start, self.P), ULE(self.serial, self.P - self.start))
        self.pos, self.wc, self.iwc, self.ws, self.ef = v.fun('pos', 64, 64), v.fun('wc', 64, 32), v.fun('iwc', 64, 32), v.fun('wcsize', 64, 32), v.fun('eof', 64, 8)
        self.stack = v.obj('instack', simp((N + 2) * bv(IN())), regions=[Region(0, IN(), {
            IN('input'): (8, lambda i: Ptr(self.inp, self.pos(i - 1))), IN('wc'): (4, lambda i: self.wc(i - 1)), IN('iwc'): (4, lambda i: self.iwc(i - 1)),
            IN('wcsize'): (4, lambda i: self.ws(i - 1)), IN('eof'): (1, lambda i: self.eof(i - 1))})])
        e = v.bv('encoding', 32)
        if enc is not None:
            v.assume((e & bv(0xff, 32)) == bv(C(ENC[enc]), 32))
        self.enc = e
        self.icase = (e & bv(C('RPA_ENCODING_ICASE'), 32)) != 0
        self.regs = Regs(v)
        self.o = v.obj('stat', ST(), cells={
            ST('instack'): (8, Ptr(self.stack, bv(IN()))), ST('instackbuffer'): (8, Ptr(self.stack)), ST('instacksize'): (8, N), ST('encoding'): (4, e), ST('debug'): (4, bv(0, 32)),
            ST('start'): (8, Ptr(self.inp)), ST('end'): (8, Ptr(self.inp, N)), ST('input'): (8, Ptr(self.inp, self.start)),
            ST('ip.input'): (8, Ptr(self.inp, self.P)), ST('ip.serial'): (8, self.serial), ST('cpu'): (8, self.regs.p), ST('records'): (8, bv(0))})
        self.p = Ptr(self.o)
        v.E.store(v.s, self.regs.p + CP('userdata1'), 8, self.p)

    def eof(self, i):
        """only the entry after the last character carries the end mark"""
        return z3.If(And(i == self.serial, self.P == self.N), bv(1, 8), bv(0, 8))

    def top(self, name='top'):
        """a current position: decoded, or the end mark, or -1 before the first character"""
        t = self.v.bv(name)
        self.v.assume(t >= -1, Or(t < self.serial, And(t == self.serial, self.P == self.N)))
        return t

    def cell(self, s, i, f, size=4):
        p = Ptr(self.stack, simp((i + 1) * bv(IN()) + IN(f)))
        return self.v.rd(s, p, size)

    def others(self, s, hit, W):
        for f, z, g in (('wc', 4, self.wc), ('iwc', 4, self.iwc), ('wcsize', 4, self.ws), ('eof', 1, self.eof)):
            self.v.check(s, Or(hit, self.cell(s, W, f, z) == g(W)), 'other characters untouched')
        u = self.v.given(s, Not(hit))
        if u:
            self.v.check(u, self.v.peq(self.v.rdp(u, Ptr(self.stack, simp((W + 1) * bv(IN())))), Ptr(self.inp, self.pos(W))), 'other characters untouched')

    def context(self, s):
        v = self.v
        for f in ('instack', 'instackbuffer', 'start', 'end', 'input', 'cpu', 'records'):
            a, b = v.rdp(s, self.p + ST(f)), v.rdp(v.s, self.p + ST(f))
            v.check(s, v.peq(a, b) if isinstance(b, Ptr) else a == b, 'context field ' + f)
        v.check(s, And(v.rd(s, self.p + ST('encoding'), 4) == self.enc, v.rd(s, self.p + ST('instacksize')) == self.N), 'context sizes')

    def byte(self, s, i):
        return self.v.E.rd(s, Ptr(self.inp, simp(i)), 1)


def icased(c):
    """the other case of a character"""
    r = c
    for lo, hi in ((0x41, 0x5a), (0xc0, 0xdf), (0x390, 0x3ab), (0x410, 0x42f)):
        r = z3.If(And(z3.UGE(c, bv(lo, 32)), ULE(c, bv(hi, 32))), c + 32, r)
        r = z3.If(And(z3.UGE(c, bv(lo + 32, 32)), ULE(c, bv(hi + 32, 32))), c - 32, r)
    return r


class Dec:
    """the decoders, by the contract C01 proves: a non-empty input yields one character of 1 to 4 bytes, all inside it"""

    def __init__(self, v, t):
        self.v, self.t = v, t
        self.wc, self.k, self.other = v.fun('decoded', 64, 32), v.fun('bytes', 64, 32), v.fun('othercase', 32, 32)
        k = self.k(t.P)
        v.assume(z3.UGE(k, bv(1, 32)), ULE(k, bv(4, 32)), Or(t.P == t.N, ULE(t.P + zx(k), t.N)))
        v.E.contracts['r_charicase'] = lambda E, s, a, ins_: [(s, self.charicase(E, s, a[0]))]

    def charicase(self, E, s, c):
        E.prove(s, U(c, bv(1 << 32)), 'a 32-bit character')
        return zx(self.other(z3.Extract(31, 0, c)))

    def decoder(self, E, s, a, ins_):
        t = self.t
        E.prove(s, And(self.v.peq(a[1], Ptr(t.inp, t.P)), self.v.peq(a[2], Ptr(t.inp, t.N)), U(t.P, t.N)), 'decoder-arguments')
        E.store(s, a[0], 4, self.wc(t.P))
        return [(s, self.k(t.P))]


@unit('C16', 'shift', params=sorted(ENC), targets=['rpa_stat_shift', 'rpa_stat_*_getchar', 'r_charicase', 'r_utf8_mbtowc', 'r_utf16_mbtowc'])
def shift(v, enc):
    """the cursor moves to the next character; it is decoded at most once, from the bytes inside the input only"""
    t = Stat(v, enc)
    top = t.top()
    d = Dec(v, t)
    v.noreplay = True
    if enc == 'byte':
        wc, k = z3.ZeroExt(24, t.byte(v.s, t.P)), bv(1)
    else:
        v.E.contracts['r_%s_mbtowc' % enc] = d.decoder
        wc, k = d.wc(t.P), zx(d.k(t.P))
    ateof = And(top == t.serial, t.P == t.N)
    fresh_ = And(Not(ateof), top + 1 == t.serial)
    dec = And(fresh_, U(t.P, t.N))
    last = And(fresh_, t.P == t.N)
    x = t.serial
    W = v.witness('W')
    v.assume(W >= -1, W <= t.N)
    for s in v.call('rpa_stat_shift', [t.p, top]):
        v.check(s, s.ret == z3.If(ateof, NONE, top + 1), 'position after the shift')
        v.check(s, v.rd(s, t.p + ST('ip.serial')) == z3.If(dec, t.serial + 1, t.serial), 'characters decoded')
        ip = v.rdp(s, t.p + ST('ip.input'))
        np = z3.If(dec, t.P + k, t.P)
        v.check(s, v.peq(ip, Ptr(t.inp, np)), 'input position')
        v.check(s, And(ULE(np, t.N), Or(Not(dec), ULE(bv(1), k))), 'progress within the input')
        u = v.given(s, dec)
        if u:
            v.check(u, v.peq(v.rdp(u, Ptr(t.stack, simp((x + 1) * bv(IN())))), Ptr(t.inp, t.P)), 'input of the character')
            v.check(u, t.cell(u, x, 'wc') == wc, 'character value')
            v.check(u, And(t.cell(u, x, 'wcsize') == z3.Extract(31, 0, k), t.cell(u, x, 'eof', 1) == 0), 'character size')
            v.check(u, Or(Not(t.icase), t.cell(u, x, 'iwc') == d.other(wc)), 'other case')
        u = v.given(s, last)
        if u:
            v.check(u, v.peq(v.rdp(u, Ptr(t.stack, simp((x + 1) * bv(IN())))), Ptr(t.inp, t.N)), 'end of input')
            v.check(u, And(t.cell(u, x, 'eof', 1) != 0, t.cell(u, x, 'wcsize') == 0), 'end mark')
        v.unchanged(s, t.inp, 'input untouched')
        t.others(s, And(fresh_, W == x), W)
        t.context(s)


@unit('C16', 'other-case', targets=['r_charicase'])
def other_case(v):
    """case folding pairs every letter with its other case and leaves other characters alone"""
    c = v.bv('c')
    v.assume(U(c, bv(1 << 32)))
    for s in v.call('r_charicase', [c]):
        v.check(s, s.ret == zx(icased(z3.Extract(31, 0, c))), 'other case')


def matches(t, s, kind, top, a):
    """the relation each matcher decides on the character at the cursor"""
    c, ic = zx(t.wc(top)), zx(t.iwc(top))
    live = t.eof(top) == 0
    if kind == 'chr':
        return And(live, Or(c == a[0], And(t.icase, ic == a[0])))
    if kind == 'rng':
        ins = lambda x: And(ULE(a[0], x), ULE(x, a[1]))
        return And(live, Or(ins(c), And(t.icase, ins(ic))))
    if kind == 'spchr':
        m = a[0]
        for k, x in (('t', 9), ('r', 13), ('n', 10)):
            m = z3.If(a[0] == bv(ord(k)), bv(x), m)
        return And(live, Or(a[0] == bv(ord('.')), c == m))
    if kind == 'bitmap':
        bit = lambda x: z3.Extract(0, 0, z3.LShR(a[0], x & 63)) == 1
        return And(live, Or(bit(c), And(t.icase, bit(ic))))


@unit('C16', 'test-character', params=['chr', 'rng', 'spchr'], targets=['rpa_stat_matchchr', 'rpa_stat_matchrng', 'rpa_stat_matchspchr', 'rpa_special_char'])
def test_char(v, kind):
    """each matcher succeeds exactly when the character at the cursor is one it stands for"""
    t = Stat(v)
    top = t.top()
    a = [v.bv('operand%d' % i) for i in range(2 if kind == 'rng' else 1)]
    W = v.witness('W')
    v.assume(W >= -1, W <= t.N)
    for s in v.call('rpa_stat_match' + kind, [t.p, top] + a):
        v.check(s, s.ret == z3.If(matches(t, s, kind, top, a), bv(1, 32), bv(0, 32)), 'match')
        v.unchanged(s, t.o, 'context untouched')
        t.others(s, FALSE, W)


HOW = {'nan': (False, 'N'), 'opt': (False, 'Z'), 'mul': (True, 'N'), 'mop': (True, 'Z')}


def abstract(v, t, kind, want_ops):
    """contracts of the character test and of the shift, as the units above prove them:
    M(j) says whether the matcher accepts the character at position j of the (fixed) input"""
    m = v.fun('accepts', 64, 8)
    L = v.bv('length')
    v.assume(L >= 0, U(L, bv(1 << 40)))
    v.small(L, 4)

    def M(j):
        return And(m(j) == 1, j < L, j >= -1)

    def test(E, s, a, ins_):
        E.prove(s, BoolV(isinstance(a[0], Ptr) and a[0].obj is t.o), 'same-context')
        for x, y in zip(a[2:], want_ops):
            E.prove(s, zx(x) == y, 'operand')
        E.prove(s, a[1] >= -1, 'position')
        return [(s, z3.If(M(a[1]), bv(1, 32), bv(0, 32)))]

    def shift_(E, s, a, ins_):
        E.prove(s, BoolV(isinstance(a[0], Ptr) and a[0].obj is t.o), 'same-context')
        E.prove(s, And(a[1] >= -1, a[1] < L), 'shift-from-a-character')
        return [(s, a[1] + 1)]
    v.E.contracts['rpa_stat_match' + kind] = test
    v.E.contracts['rpa_stat_shift'] = shift_
    return M, L


@unit('C16', 'matcher', params=[k + '_' + h for k in ('chr', 'rng', 'spchr') for h in ('nan', 'opt', 'mul', 'mop')], targets=['rpavm_swi_matchchr_*', 'rpavm_swi_matchrng_*', 'rpavm_swi_matchspchr_*', 'rpavm_swi_shift'])
def matcher(v, what):
    """the matchers of the grammar machine advance the cursor by exactly the characters matched"""
    kind, how = what.split('_')
    loop, flag = HOW[how]
    t = Stat(v)
    op1 = v.bv('op1', 4)
    reg = t.regs.old(op1)
    ops = [reg] if kind != 'rng' else [zx(z3.Extract(31, 0, reg)), zx(z3.Extract(63, 32, reg))]
    top = t.regs.old('R_TOP')
    v.assume(top >= -1, op1 != bv(C('R0'), 4), op1 != bv(C('R_TOP'), 4))
    M, L = abstract(v, t, kind, ops)
    v.assume(top <= L)
    v.noreplay = True
    W = v.witness('j')
    R0, TOP = t.regs.at('R0'), t.regs.at('R_TOP')

    def hint(Lp):
        def cands(vw):
            out = []
            for _, x in vw.ints(64):
                out += [x >= top, x <= L, x >= 0, Implies(And(W >= top, W < x), M(W)), Implies(And(W >= top, W < top + x), M(W)), x <= L - top]
                for _, y in vw.ints(64):
                    if x is not y:
                        out += [x == top + y]
            return out
        Lp.cands.append(cands)
    v.E.loop_specs['*'] = hint
    for s in v.call('rpavm_swi_match' + what, [t.regs.p, ins(v, op1)]):
        nt = t.regs.new(s, 'R_TOP')
        k = nt - top
        if loop:
            v.check(s, nt >= top, 'never backwards')
            v.check(s, Implies(And(W >= top, W < nt), M(W)), 'every character consumed matches')
            v.check(s, Not(M(nt)), 'as many as match')
        else:
            v.check(s, k == z3.If(M(top), bv(1), bv(0)), 'one character if it matches')
        v.check(s, t.regs.st(s) == z3.If(k != 0, bv(0), bv(C('RVM_STATUS_' + flag))), 'status')
        v.check(s, t.regs.new(s, 'R0') == z3.If(k != 0, k, NONE if flag == 'N' else bv(0)), 'number of characters')
        t.regs.frame(s, ['R0', 'R_TOP'])
        v.unchanged(s, t.o, 'context untouched')


@unit('C16', 'peek', targets=['rpavm_swi_matchrng_peek'])
def peek(v):
    """the look-ahead test never moves the cursor"""
    t = Stat(v)
    op1 = v.bv('op1', 4)
    reg = t.regs.old(op1)
    top = t.regs.old('R_TOP')
    M, L = abstract(v, t, 'rng', [zx(z3.Extract(31, 0, reg)), zx(z3.Extract(63, 32, reg))])
    v.noreplay = True
    v.assume(top >= -1, top <= L)
    for s in v.call('rpavm_swi_matchrng_peek', [t.regs.p, ins(v, op1)]):
        v.check(s, t.regs.st(s) == z3.If(M(top), t.regs.status, bv(C('RVM_STATUS_N'))), 'status')
        v.check(s, t.regs.new(s, 'R0') == z3.If(M(top), t.regs.old('R0'), NONE), 'result register')
        t.regs.frame(s, ['R0'])


@unit('C16', 'shift-instruction', targets=['rpavm_swi_shift'])
def shift_ins(v):
    """the cursor register follows the shift, and stays at the end of the input"""
    t = Stat(v)
    r = v.bv('newtop')
    top = t.regs.old('R_TOP')
    v.assume(Or(r == NONE, r == top + 1))
    v.noreplay = True

    def shift_(E, s, a, ins_):
        E.prove(s, And(BoolV(isinstance(a[0], Ptr) and a[0].obj is t.o), a[1] == top), 'shift-arguments')
        return [(s, r)]
    v.E.contracts['rpa_stat_shift'] = shift_
    for s in v.call('rpavm_swi_shift', [t.regs.p, ins(v, None)]):
        v.check(s, t.regs.new(s, 'R_TOP') == z3.If(r >= 0, r, top), 'cursor')
        v.check(s, t.regs.st(s) == t.regs.status, 'status')
        t.regs.frame(s, ['R_TOP'])


@unit('C16', 'instruction-numbers', targets=['rpavm_cpu_create', 'rvm_cpu_addswitable'])
def table(v):
    """the number the code generator emits for an instruction selects that instruction's routine"""
    v.noreplay = True
    v.E.exhaustive = 400
    for s in v.call('rpavm_cpu_create', [bv(4096)]):
        ok = isinstance(s.ret, Ptr)
        v.check(s, BoolV(ok), 'machine created')
        if not ok:
            continue
        outs = v.call('r_harray_get', [v.rdp(s, s.ret + O('rvmcpu_t', 'switables')), bv(0)], state=s)
        v.check(s, BoolV(len(outs) == 1 and isinstance(outs[0].ret, Ptr)), 'routine table registered')
        s = outs[0]
        g = v.rdp(s, s.ret)
        for m in SWI:
            n = (C(m) - C('RVM_OPSWI(0)')) >> C('RVM_OPCODE_BITS')
            f = v.rdp(s, g + (n * O('rvm_switable_t') + O('rvm_switable_t', 'op')))
            v.check(s, BoolV(isinstance(f, FnRef) and f.name == 'rpavm_swi_' + m[4:].lower()), m)


@unit('C16', 'begin', params=['fresh', 'reuse'], targets=['rpa_stat_init'])
def begin(v, kind):
    """a run starts before the first character of the given range, with room for every character of it; bad ranges are refused"""
    N = v.bv('inputsize')
    v.assume(U(N, bv(1 << 40)))
    v.small(N, 6)
    inp = v.obj('input', N)
    i, a, e = v.bv('at'), v.bv('start'), v.bv('end')
    v.assume(ULE(a, N), ULE(e, N), ULE(i, N))
    regs = Regs(v)
    cache = v.obj('cache', O('rpacache_t'))
    M = v.bv('oldsize')
    enc = v.bv('encoding', 32)
    cells = {ST('cpu'): (8, regs.p), ST('cache'): (8, Ptr(cache)), ST('debug'): (4, bv(0, 32))}
    if kind == 'fresh':
        cells.update({ST('instackbuffer'): (8, bv(0)), ST('instack'): (8, bv(0)), ST('instacksize'): (8, bv(0))})
    else:
        v.assume(U(M, bv(1 << 40)))
        v.small(M, 6)
        buf = v.obj('instack', simp((M + 2) * bv(IN())), cells={IN('eof'): (1, bv(0, 8))})
        cells.update({ST('instackbuffer'): (8, Ptr(buf)), ST('instack'): (8, Ptr(buf, bv(IN()))), ST('instacksize'): (8, M)})
    o = v.obj('stat', ST(), cells=cells)
    p = Ptr(o)
    ok = And(ULE(a, e), ULE(a, i), ULE(i, e))
    for s in v.call('rpa_stat_init', [p, enc, Ptr(inp, i), Ptr(inp, a), Ptr(inp, e), bv(0)]):
        v.check(s, s.ret == z3.If(ok, bv(0, 32), bv(0xffffffff, 32)), 'bad ranges are refused')
        u = v.given(s, ok)
        if not u:
            continue
        for f, x in (('start', a), ('end', e), ('input', i), ('ip.input', i)):
            v.check(u, v.peq(v.rdp(u, p + ST(f)), Ptr(inp, x)), f)
        v.check(u, And(v.rd(u, p + ST('ip.serial')) == 0, v.rd(u, p + ST('encoding'), 4) == enc), 'nothing decoded yet')
        v.check(u, v.is_null(v.rdp(u, p + ST('records'))), 'records')
        b, k = v.rdp(u, p + ST('instackbuffer')), v.rdp(u, p + ST('instack'))
        good = isinstance(b, Ptr) and isinstance(k, Ptr) and b.obj is k.obj
        v.check(u, BoolV(good), 'character table present')
        if good:
            z = v.rd(u, p + ST('instacksize'))
            v.check(u, And(b.off == 0, k.off == bv(IN()), z3.UGE(z, e - a), BoolV(b.obj.oid not in u.freed)), 'character table')
            v.check(u, z3.UGE(b.obj.size, (z + 2) * bv(IN())), 'room for every character and the end mark')
            v.check(u, v.rd(u, b + IN('eof'), 1) == 0, 'before the first character is not the end')
        v.check(u, And(regs.new(u, 'R_TOP') == NONE, regs.new(u, 'SP') == 0, regs.new(u, 'FP') == 0, regs.new(u, 'R_LOO') == 0, regs.new(u, 'R_REC') == 0), 'cursor before the first character')


@unit('C16', 'run', targets=['rpa_stat_exec'])
def run(v):
    """the machine runs only after a successful start; its result is the number of characters matched"""
    t = Stat(v)
    cache = v.obj('cache', O('rpacache_t'))
    v.E.store(v.s, t.p + ST('cache'), 8, Ptr(cache))
    started, ret, r0, off = v.bv('started', 32), v.bv('execresult', 32), v.bv('matched'), v.bv('offset')
    ser0 = v.rd(v.s, Ptr(cache, bv(O('rpacache_t', 'serial'))))
    flag = v.obj('ghost', 8, cells={0: (8, bv(0))})
    prog = v.obj('prog', 64)
    v.noreplay = True
    args = [bv(3, 32), Ptr(t.inp, t.start), Ptr(t.inp), Ptr(t.inp, t.N), bv(0)]

    def init(E, s, a, ins_):
        E.prove(s, And(*[v.peq(x, y) if isinstance(y, Ptr) else BoolV(not isinstance(x, Ptr)) if y.size() == 64 else x == y for x, y in zip(a[1:], args)]), 'start-arguments')
        E.store(s, Ptr(flag), 8, bv(1))
        return [(s, started)]

    def cpuexec(E, s, a, ins_):
        E.prove(s, And(E.rd(s, Ptr(flag), 8) == 1, started == 0, v.peq(a[1], Ptr(prog)), a[2] == off, v.peq(a[0], t.regs.p)), 'runs-only-after-a-start')
        E.store(s, Ptr(flag), 8, bv(2))
        E.store(s, t.regs.at('R0'), 8, r0)
        return [(s, ret)]
    v.E.contracts['rpa_stat_init'] = init
    v.E.contracts['rvm_cpu_exec'] = cpuexec
    v.assume(Or(started == 0, started == bv(0xffffffff, 32)))
    for s in v.call('rpa_stat_exec', [t.p, Ptr(prog), off] + args):
        v.check(s, v.rd(s, Ptr(cache, bv(O('rpacache_t', 'serial')))) == ser0 + 1, 'results remembered for another input are dropped')
        v.check(s, s.ret == z3.If(Or(started != 0, ret < 0), NONE, z3.If(r0 < 0, bv(0), r0)), 'characters matched')
        v.check(s, v.rd(s, Ptr(flag)) == z3.If(started == 0, bv(2), bv(1)), 'the machine ran')


@unit('C16', 'consumed', params=['match', 'parse'], targets=['rpa_stat_match', 'rpa_stat_parse', 'rpa_stat_exec_rid'])
def consumed(v, how):
    """the result is the number of bytes of the characters matched"""
    t = Stat(v)
    n, off, rid = v.bv('matched'), v.bv('offset'), v.bv('rule')
    have = v.bv('have', 8)
    prog, db = v.obj('prog', 64), v.obj('dbex', 8)
    v.E.store(v.s, t.p + ST('dbex'), 8, Ptr(db))
    v.noreplay = True
    v.assume(n >= -1, Or(n <= t.serial, n == NONE), Or(n < 0, n < t.serial, t.P == t.N))
    # n characters matched: the entry after them is decoded or the end mark
    args = [v.bv('encoding1', 32), Ptr(t.inp, t.start), Ptr(t.inp), Ptr(t.inp, t.N)]
    recs = Arr(v, 'records_array', 8) if how == 'parse' else None
    rp = recs.p if recs else bv(0)
    seen = v.obj('ghost', 8, cells={0: (8, bv(0))})

    def ex(E, s, a, ins_):
        E.prove(s, And(v.peq(a[1], Ptr(prog)), a[2] == off, a[3] == args[0], *[v.peq(x, y) for x, y in zip(a[4:7], args[1:])]), 'run-arguments')
        E.prove(s, v.peq(a[7], rp) if recs else BoolV(not isinstance(a[7], Ptr)), 'run-records')
        return [(s, n)]
    def norm(E, s, a, ins_):
        E.store(s, Ptr(seen), 8, bv(1))
        return [(s, None)]
    v.E.contracts['rpa_stat_exec'] = ex
    v.E.contracts['rpa_stat_normalizeleftrecursion'] = norm
    v.E.contracts['rpa_dbex_executable'] = lambda E, s, a, i: [(s, Ptr(prog))]
    v.E.contracts['rpa_dbex_executableoffset'] = lambda E, s, a, i: (E.prove(s, a[1] == rid, 'rule'), [(s, off)])[1]
    v.assume(ULE(t.start, t.pos(n)), ULE(t.pos(n), t.N))
    for s in v.call('rpa_stat_' + how, [t.p, rid] + args + ([rp] if recs else [])):
        v.check(s, s.ret == z3.If(Or(off < 0, n < 0), NONE, z3.If(n == 0, bv(0), t.pos(n) - t.start)), 'bytes matched')
