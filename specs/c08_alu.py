from .vmcommon import *

SIGN = bv(1 << 63)


def neg(x):
    return z3.Extract(63, 63, x) == bv(1, 1)


def b2s(c, bit):
    return z3.If(c, bv(bit), bv(0))


def flags(old, keep, z=None, n=None, c=None, vv=None):
    """status with the named flags replaced; keep: mask of bits preserved from the old status"""
    r = old & bv(keep % (1 << 64))
    for cond, nm in ((z, 'Z'), (n, 'N'), (c, 'C'), (vv, 'V')):
        if cond is not None:
            r = r | b2s(cond, C('RVM_STATUS_' + nm))
    return r


def NZ(st, res):
    return flags(st, ~C('RVM_STATUS_ALL'), z=res == bv(0), n=neg(res))


def zn(x):
    return z3.ZeroExt(1, x)


def f_add(st, a, b):
    r = a + b
    return r, flags(st, ~0xf, r == 0, neg(r), U(r, a), And(neg(a) == neg(b), neg(r) != neg(a)))


def f_adc(st, a, b):
    cin = z3.Extract(2, 2, st)
    w = zn(a) + zn(b) + z3.ZeroExt(64, cin)
    r = z3.Extract(63, 0, w)
    return r, flags(st, ~0xf, r == 0, neg(r), z3.Extract(64, 64, w) == bv(1, 1), And(neg(a) == neg(b), neg(r) != neg(a)))


def v_sub(a, b, r):
    """V of the subtracting instructions, as the project's own tests pin it (asm-cmp.c): operands of
    different sign whose result keeps the sign of the first"""
    return And(neg(a) != neg(b), neg(r) == neg(a))


def f_sub(st, a, b):
    r = a - b
    return r, flags(st, ~0xf, r == 0, neg(r), z3.UGE(a, b), v_sub(a, b, r))


def f_sbc(st, a, b):
    nb = z3.Extract(2, 2, st) ^ bv(1, 1)
    w = zn(a) - zn(b) - z3.ZeroExt(64, nb)
    r = z3.Extract(63, 0, w)
    return r, flags(st, ~0xf, r == 0, neg(r), z3.Extract(64, 64, w) == bv(0, 1), v_sub(a, b, r))


def nz(f):
    def g(st, a, b):
        r = f(a, b)
        return r, NZ(st, r)
    return g


def pl(f):
    return lambda st, a, b: (f(a, b), st)


def f_muls(st, a, b):
    r = a * b
    return r, flags(NZ(st, r), -1, c=And(a != 0, z3.UDiv(r, a) != b))


def sdiv(a, b):
    return z3.If(b == bv(-1 % (1 << 64)), -a, a / b)


def smod(a, b):
    return z3.If(b == bv(-1 % (1 << 64)), bv(0), z3.SRem(a, b))


def f_ror(st, a, b):
    r = z3.RotateRight(a, z3.URem(b, bv(64)))
    return r, flags(st, ~C('RVM_STATUS_ALL'), r == 0, neg(r), neg(r))


SH = lambda a, b: U(b, bv(64))
NZD = lambda a, b: b != bv(0)
# opcode: (function of status and the two source operands, precondition on them)
BIN = {
    'ADD': (pl(lambda a, b: a + b), None), 'SUB': (pl(lambda a, b: a - b), None), 'MUL': (pl(lambda a, b: a * b), None),
    'DIV': (pl(z3.UDiv), NZD), 'MOD': (pl(z3.URem), NZD),
    'ADDS': (f_add, None), 'ADC': (f_adc, None), 'SUBS': (f_sub, None), 'SBC': (f_sbc, None),
    'AND': (nz(lambda a, b: a & b), None), 'ORR': (nz(lambda a, b: a | b), None), 'XOR': (nz(lambda a, b: a ^ b), None),
    'BIC': (nz(lambda a, b: a & ~b), None),
    'LSL': (nz(lambda a, b: a << b), SH), 'LSR': (nz(z3.LShR), SH), 'LSRS': (nz(lambda a, b: a >> b), SH), 'ASR': (nz(lambda a, b: a >> b), SH),
    'MLS': (nz(lambda a, b: a * b), None), 'MULS': (f_muls, None), 'DIVS': (nz(z3.UDiv), NZD), 'DVS': (nz(sdiv), NZD), 'MODS': (nz(smod), NZD),
}


@unit('C08', 'binary', params=sorted(BIN), targets=['rvm_op_*', 'rvm_cpu_exec', 'rvm_cpu_create'], timeout=300)
def binary(v, op):
    """op1 = op2 <op> op3 with flags; no other register, tag, status bit or memory changes"""
    c = Cpu(v, op)
    f, pre = BIN[op]
    a, b = c.val(c.op2), c.val(c.op3)
    if pre is not None:
        v.assume(pre(a, b))
    for s in c.run():
        r, st = f(c.status, a, b)
        c.frame(s, [(c.op1, r)], st)


@unit('C08', 'rotate', params=[0, 1, 2, 7, 31, 32, 33, 63], targets=['rvm_op_ror'], timeout=300)
def rotate(v, n):
    """ROR by each count; counts above 63 are taken modulo 64"""
    c = Cpu(v, 'ROR', op3=3, da=0)
    b = c.val(bv(3, 4))
    v.assume(z3.URem(b, bv(64)) == bv(n))
    a = c.val(c.op2)
    for s in c.run():
        r, st = f_ror(c.status, a, bv(n))
        c.frame(s, [(c.op1, r)], st)


UN = {
    'MOVS': lambda st, a: (a, NZ(st, a)),
    'NOT': lambda st, a: (~a, NZ(st, ~a)),
}


@unit('C08', 'unary', params=sorted(UN))
def unary(v, op):
    c = Cpu(v, op)
    a = c.val(c.op2)
    for s in c.run():
        r, st = UN[op](c.status, a)
        c.frame(s, [(c.op1, r)], st)


@unit('C08', 'incdec', params=['INC', 'DEC'])
def incdec(v, op):
    c = Cpu(v, op)
    a = c.val(c.op1)
    for s in c.run():
        c.frame(s, [(c.op1, a + 1 if op == 'INC' else a - 1)])


@unit('C08', 'clz', targets=['rvm_op_clz'])
def clz(v):
    c = Cpu(v, 'CLZ', op2=2, da=0)
    a = c.val(bv(2, 4))
    for s in c.run():
        n = bv(64)
        for i in range(64):
            n = z3.If(z3.Extract(i, i, a) == bv(1, 1), bv(63 - i), n)
        c.frame(s, [(c.op1, n)])


def cm_cmp(st, a, b):
    r = a - b
    return flags(st, ~0xf, r == 0, neg(r), U(a, b), v_sub(a, b, r))


def cm_cmn(st, a, b):
    return f_add(st, a, b)[1]


@unit('C08', 'compare', params=['CMP', 'CMN', 'TST'])
def compare(v, op):
    """flags of op1 - op2, op1 + op2, op1 & op2; no register changes"""
    c = Cpu(v, op)
    a, b = c.val(c.op1), c.val(c.op2)
    for s in c.run():
        st = {'CMP': cm_cmp, 'CMN': cm_cmn, 'TST': lambda st, a, b: NZ(st, a & b)}[op](c.status, a, b)
        c.frame(s, [], st)


@unit('C08', 'teq')
def teq(v):
    c = Cpu(v, 'TEQ')
    a, b = c.val(c.op2), c.val(c.op3)
    for s in c.run():
        c.frame(s, [], NZ(c.status, a ^ b))


@unit('C08', 'move', params=['MOV', 'SWP', 'CLR', 'CFLAG', 'NOP'])
def move(v, op):
    """whole registers are moved, value and tag alike"""
    c = Cpu(v, op)
    N = C('RVM_REGS_NUM')
    for s in c.run():
        w = v.bv('W', 4)
        t = v.given(s, w != bv(C('PC'), 4))
        for f, n in (('v', 8), ('size', 4), ('type', 2), ('flags', 2)):
            x = c.at(w, f)
            if op == 'MOV':
                x = z3.If(c.op1 == w, c.at(c.op2, f), x)
            if op == 'SWP':
                x = z3.If(c.op1 == w, c.at(c.op2, f), z3.If(c.op2 == w, c.at(c.op1, f), x))
            if op == 'CLR' and f != 'size':
                x = z3.If(c.op1 == w, {'v': bv(0), 'type': bv(C('RVM_DTYPE_UNDEF'), 16), 'flags': bv(0, 16)}[f], x)
            v.check(t, c.newat(t, w, f) == x, 'registers')
        v.check(s, c.st(s) == (c.status & ~c.val(c.op1) if op == 'CFLAG' else c.status), 'status')
        v.check(s, c.st(s, 'error') == 0, 'no error')
        v.unchanged(s, c.cpu.obj, 'rest of the machine untouched', excl=lambda w: z3.UGE(w, bv(O('rvmcpu_t', 'switables'))))
        v.unchanged(s, c.stackp.obj, 'stack untouched')


@unit('C08', 'divide-by-zero', params=['DIV', 'MOD', 'DIVS', 'DVS', 'MODS'])
def divzero(v, op):
    """division by zero stops the machine with an error before any register is written"""
    c = Cpu(v, op)
    v.assume(c.val(c.op3) == bv(0))
    v.E.allow_assert_fail = True
    v.E.assert_states = []
    outs = c.run()
    for s in outs:
        v.check(s, And(c.st(s, 'error') == bv(C('RVM_E_DIVZERO')), c.st(s, 'abort') != 0), 'stops with an error')
        v.check(s, c.kept(s), 'registers untouched')
    for s in v.E.assert_states:
        v.check(s, And(c.st(s, 'error') == bv(C('RVM_E_DIVZERO')), c.st(s, 'abort') != 0), 'stops with an error')
        v.check(s, c.kept(s), 'registers untouched')
