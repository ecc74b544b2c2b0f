from .vmcommon import *

W8 = {'LDR': 8, 'LDRP': 8, 'LDRB': 1, 'LDRH': 2, 'LDRW': 4, 'STR': 8, 'STRP': 8, 'STRB': 1, 'STRH': 2, 'STRW': 4}


def block(v, n):
    sz = v.bv('blocksize')
    v.assume(ULE(sz, bv(1 << 40)))
    v.small(sz, 24)
    m = v.obj('block', sz)
    off = v.bv('off')
    v.assume(ULE(bv(n), sz), ULE(off, sz - bv(n)))
    return m, off


@unit('C09', 'load', params=['LDR', 'LDRP', 'LDRB', 'LDRH', 'LDRW'], targets=['rvm_op_ldr', 'rvm_op_ldrp', 'rvm_op_ldrb', 'rvm_op_ldrh', 'rvm_op_ldrw'])
def load(v, op):
    """op1 = zero-extended little-endian value of the addressed bytes; memory unchanged"""
    n = W8[op]
    m, off = block(v, n)
    c = Cpu(v, op, ptr=('op2', Ptr(m, off)))
    val = zx(v.E.rd(v.s, Ptr(m, off), n))
    for s in c.run():
        c.frame(s, [(c.op1, val)])
        v.unchanged(s, m, 'memory untouched')


@unit('C09', 'load-register', targets=['rvm_op_ldrr'])
def ldrr(v):
    """LDRR copies value, size, type and flags"""
    n = O('rvmreg_t')
    m, off = block(v, n)
    c = Cpu(v, 'LDRR', ptr=('op2', Ptr(m, off)))
    g = lambda f, k: v.E.rd(v.s, Ptr(m, simp(off + bv(O('rvmreg_t', f)))), k)
    tg = {'size': g('size', 4), 'type': g('type', 2), 'flags': g('flags', 2)}
    for s in c.run():
        c.frame(s, [(c.op1, g('v', 8))], tags=[(c.op1, tg)])
        v.unchanged(s, m, 'memory untouched')


@unit('C09', 'store', params=['STR', 'STRP', 'STRB', 'STRH', 'STRW'], targets=['rvm_op_str', 'rvm_op_strp', 'rvm_op_strb', 'rvm_op_strh', 'rvm_op_strw'])
def store(v, op):
    """exactly the addressed bytes take the low bytes of op1"""
    n = W8[op]
    m, off = block(v, n)
    c = Cpu(v, op, ptr=('op2', Ptr(m, off)))
    v.assume(c.op1 != c.op2)
    x = c.val(c.op1)
    for s in c.run():
        c.frame(s, [])
        v.check(s, v.rd(s, Ptr(m, off), n) == z3.Extract(8 * n - 1, 0, x), 'stored value')
        v.unchanged(s, m, 'neighbouring bytes untouched', excl=lambda w: z3.UGE(w - off, bv(n)))


@unit('C09', 'store-register', targets=['rvm_op_strr'])
def strr(v):
    """STRR stores value, size, type and flags of op1 at the address in op2 when op2 is a pointer"""
    n = O('rvmreg_t')
    m, off = block(v, n)
    c = Cpu(v, 'STRR', ptr=('op2', Ptr(m, off)))
    v.assume(c.op1 != c.op2, c.at(c.op2, 'type') == bv(C('RVM_DTYPE_POINTER'), 16))
    for s in c.run():
        c.frame(s, [])
        for f, k in (('v', 8), ('size', 4), ('type', 2), ('flags', 2)):
            v.check(s, v.rd(s, Ptr(m, simp(off + bv(O('rvmreg_t', f)))), k) == c.at(c.op1, f), 'stored register')
        v.unchanged(s, m, 'neighbouring bytes untouched', excl=lambda w: z3.UGE(w - off, bv(n)))


@unit('C09', 'store-register-not-a-pointer', targets=['rvm_op_strr'])
def strr_bad(v):
    c = Cpu(v, 'STRR')
    v.assume(c.at(c.op2, 'type') != bv(C('RVM_DTYPE_POINTER'), 16))
    for s in aborts(c, 'RVM_E_LVALUE'):
        v.check(s, c.kept(s), 'registers untouched')


def aborts(c, err):
    v = c.v
    v.E.allow_assert_fail = True
    v.E.assert_states = []
    outs = c.run() + v.E.assert_states
    for s in outs:
        v.check(s, And(c.st(s, 'error') == bv(C(err)), c.st(s, 'abort') != 0), 'stops with an error')
    return outs


def slot(c, s, i, f='v'):
    return c.v.rd(s, Ptr(c.stackp.obj, simp(i * bv(c.RS) + bv(O('rvmreg_t', f)))), {'v': 8, 'size': 4, 'type': 2, 'flags': 2}[f])


FS = ('v', 'size', 'type', 'flags')


def stackframe(c, s, lo, n, label='stack words elsewhere untouched'):
    """every stack word outside [lo, lo+n) keeps its value"""
    c.v.unchanged(s, c.stackp.obj, label, excl=lambda w: z3.UGE(w - bv(c.RS) * lo, bv(c.RS) * n))


def spv(c):
    return c.at(bv(C('SP'), 4))


@unit('C09', 'push', targets=['rvm_op_push'])
def push(v):
    """SP rises by one and the slot it names receives the whole register"""
    c = Cpu(v, 'PUSH')
    sp = spv(c) + 1
    v.assume(U(sp, c.stacksize))
    v.small(sp, 20)
    for s in c.run():
        c.frame(s, [(bv(C('SP'), 4), sp)], stack=False)
        for f in FS:
            v.check(s, slot(c, s, sp, f) == c.at(c.op1, f), 'pushed register')
        stackframe(c, s, sp, bv(1))


@unit('C09', 'push-full', targets=['rvm_op_push'])
def push_full(v):
    """pushing onto a full stack stops the machine instead of writing past it"""
    c = Cpu(v, 'PUSH')
    v.assume(z3.UGE(spv(c) + 1, c.stacksize))
    for s in aborts(c, 'RVM_E_NOMEM'):
        v.check(s, c.kept(s), 'registers untouched')
        v.unchanged(s, c.stackp.obj, 'stack untouched')


@unit('C09', 'pop', targets=['rvm_op_pop'])
def pop(v):
    """the register receives the top word and SP falls by one; the stack is unchanged"""
    c = Cpu(v, 'POP')
    sp = spv(c)
    v.assume(U(sp, c.stacksize))
    v.small(sp, 20)
    SP = bv(C('SP'), 4)
    for s in c.run():
        tg = {f: slot(c, v.s, sp, f) for f in FS[1:]}
        c.frame(s, [(SP, sp - 1), (c.op1, slot(c, v.s, sp))], tags=[(c.op1, tg)])


BASES = [(15, 15), (None, 15), (15, None), (None, None)]      # which operands are absent


@unit('C09', 'load-from-stack', targets=['rvm_op_lds'], params=BASES)
def lds(v, p):
    """op1 = the stack word at op2 + op3, an absent operand counting as zero"""
    c = cpu3(v, 'LDS', *p)
    sp = stackaddr(c)
    v.assume(U(sp, c.stacksize))
    v.small(sp, 20)
    for s in c.run():
        c.frame(s, [(c.op1, slot(c, v.s, sp))], tags=[(c.op1, {f: slot(c, v.s, sp, f) for f in FS[1:]})])


def cpu3(v, op, op2, op3):
    c = Cpu(v, op, op2=op2, op3=op3)
    for k, o in ((op2, c.op2), (op3, c.op3)):
        if k is None:
            v.assume(o != bv(C('XX'), 4))
    return c


def stackaddr(c):
    XX = bv(C('XX'), 4)
    g = lambda o: bv(0) if o.eq(XX) else z3.If(o == XX, bv(0), c.val(o)) if is_num(o) else c.val(o)
    return g(c.op2) + g(c.op3)


@unit('C09', 'store-to-stack', targets=['rvm_op_sts'], params=BASES)
def sts(v, p):
    """the stack word at op2 + op3 receives the whole register"""
    c = cpu3(v, 'STS', *p)
    sp = stackaddr(c)
    v.assume(U(sp, c.stacksize))
    v.small(sp, 20)
    for s in c.run():
        c.frame(s, [], stack=False)
        for f in FS:
            v.check(s, slot(c, s, sp, f) == c.at(c.op1, f), 'stored register')
        stackframe(c, s, sp, bv(1))


@unit('C09', 'store-past-stack', targets=['rvm_op_sts', 'rvm_op_addrs'], params=[(o, b) for o in ('STS', 'ADDRS') for b in BASES[1:]])
def sts_full(v, p):
    c = cpu3(v, p[0], *p[1])
    v.assume(z3.UGE(stackaddr(c), c.stacksize))
    for s in aborts(c, 'RVM_E_NOMEM'):
        v.check(s, c.kept(s), 'registers untouched')
        v.unchanged(s, c.stackp.obj, 'stack untouched')


@unit('C09', 'address-of-stack', targets=['rvm_op_addrs'], params=BASES)
def addrs(v, p):
    c = cpu3(v, 'ADDRS', *p)
    sp = stackaddr(c)
    v.assume(U(sp, c.stacksize))
    v.small(sp, 20)
    for s in c.run():
        want_ = v.E.to_bv(Ptr(c.stackp.obj, simp(sp * bv(c.RS))))
        c.frame(s, [(c.op1, want_)], tags=[(c.op1, {'type': bv(C('RVM_DTYPE_POINTER'), 16), 'flags': bv(0, 16)})])


def popcount(bits, k):
    """number of set bits among the lowest k"""
    r = bv(0)
    for i in range(k):
        r = r + z3.ZeroExt(63, z3.Extract(i, i, bits))
    return r


NR = 15


def bit(bits, k):
    return z3.Extract(k, k, bits) == bv(1, 1)


def above(bits, k):
    r = bv(0)
    for i in range(NR - 1, k, -1):
        r = r + z3.ZeroExt(63, z3.Extract(i, i, bits))
    return r


SPN = lambda: bv(C('SP'), 4)
MASKREG = [(3, 0), (14, 1)]
MORE = [(i, 0) for i in range(16) if i not in (3, 13)]
#     # (register, immediate): the register the mask is in, among them SP, DA and the last one


@unit('C09', 'push-many', targets=['rvm_op_pushm'], params=MASKREG, more=MORE, timeout=400)
def pushm(v, p):
    """the registers named by the mask are pushed in ascending order; SP rises by their number"""
    c = Cpu(v, 'PUSHM', op1=p[0], da=p[1])
    bits = c.val(c.op1)
    sp = spv(c)
    v.assume(ULE(sp + 1, c.stacksize), ULE(c.stacksize - sp, bv(1 << 40)), U(sp + C('RVM_REGS_NUM'), c.stacksize))
    v.small(sp, 20)
    n = popcount(bits, NR)
    for s in c.run():
        c.frame(s, [(SPN(), sp + n)], stack=False)
        stackframe(c, s, sp + 1, n)
        for k in range(NR):
            if k == C('PC'):
                continue
            t = v.given(s, bit(bits, k))
            if t is not None:
                for f in FS:
                    v.check(t, slot(c, t, sp + 1 + popcount(bits, k), f) == c.at(bv(k, 4), f), 'pushed register')


@unit('C09', 'push-many-full', targets=['rvm_op_pushm'])
def pushm_full(v):
    c = Cpu(v, 'PUSHM')
    v.assume(z3.UGE(spv(c) + C('RVM_REGS_NUM'), c.stacksize))
    for s in aborts(c, 'RVM_E_NOMEM'):
        v.check(s, c.kept(s), 'registers untouched')
        v.unchanged(s, c.stackp.obj, 'stack untouched')


@unit('C09', 'pop-many', targets=['rvm_op_popm'], params=MASKREG, more=MORE, timeout=400)
def popm(v, p):
    """the registers named by the mask are popped in descending order, undoing PUSHM of that mask; SP falls by
    their number unless SP itself is popped"""
    c = Cpu(v, 'POPM', op1=p[0], da=p[1])
    bits = c.val(c.op1)
    sp = spv(c)
    n = popcount(bits, NR)
    v.assume(Not(bit(bits, C('PC'))), ULE(n, sp), U(sp, c.stacksize))
    v.small(sp, 20)
    for s in c.run():
        for k in range(NR):
            if k == C('PC'):
                continue
            for hit in (True, False):
                t = v.given(s, bit(bits, k) if hit else Not(bit(bits, k)))
                if t is None:
                    continue
                for f in FS:
                    if hit:
                        x = slot(c, v.s, sp - above(bits, k), f)
                    else:
                        x = c.at(bv(k, 4), f) if not (k == C('SP') and f == 'v') else sp - n
                    v.check(t, c.newat(t, bv(k, 4), f) == x, 'popped register' if hit else 'other registers untouched')
        v.check(s, c.st(s) == c.status, 'status')
        v.check(s, c.st(s, 'error') == bv(0), 'no error')
        v.unchanged(s, c.stackp.obj, 'stack untouched')
        v.unchanged(s, c.prog, 'program untouched')


@unit('C09', 'store-many', targets=['rvm_op_stm'], params=MASKREG, more=MORE, timeout=400)
def stm(v, p):
    """consecutive words from the address in op1 receive the registers named by the mask, ascending"""
    m, off = block(v, 8 * NR)
    c = Cpu(v, 'STM', op1=1, op2=p[0], da=p[1], ptr=('op1', Ptr(m, off)))
    v.assume(c.op1 != c.op2)
    bits = c.val(c.op2)
    n = popcount(bits, NR)
    v.assume(Not(bit(bits, C('PC'))))
    for s in c.run():
        c.frame(s, [])
        for k in range(NR):
            if k == C('PC'):
                continue
            t = v.given(s, bit(bits, k), c.op1 != bv(k, 4))
            if t is not None:
                v.check(t, v.rd(t, Ptr(m, simp(off + 8 * popcount(bits, k))), 8) == c.at(bv(k, 4)), 'stored register')
        v.unchanged(s, m, 'memory elsewhere untouched', excl=lambda w: z3.UGE(w - off, 8 * n))


@unit('C09', 'load-many', targets=['rvm_op_ldm'], params=MASKREG, more=MORE, timeout=400)
def ldm(v, p):
    """the registers named by the mask receive consecutive words from the address in op1, ascending, as plain words"""
    m, off = block(v, 8 * NR)
    c = Cpu(v, 'LDM', op1=1, op2=p[0], da=p[1], ptr=('op1', Ptr(m, off)))
    v.assume(c.op1 != c.op2)
    bits = c.val(c.op2)
    v.assume(Not(bit(bits, C('PC'))))
    for s in c.run():
        for k in range(NR):
            if k == C('PC'):
                continue
            for hit in (True, False):
                t = v.given(s, bit(bits, k) if hit else Not(bit(bits, k)))
                if t is None:
                    continue
                if hit:
                    v.check(t, c.newat(t, bv(k, 4)) == v.rd(v.s, Ptr(m, simp(off + 8 * popcount(bits, k))), 8), 'loaded register')
                else:
                    for f in FS:
                        v.check(t, c.newat(t, bv(k, 4), f) == c.at(bv(k, 4), f), 'other registers untouched')
        v.check(s, c.st(s) == c.status, 'status')
        v.check(s, c.st(s, 'error') == bv(0), 'no error')
        v.unchanged(s, m, 'memory untouched')
        v.unchanged(s, c.stackp.obj, 'stack untouched')
        v.unchanged(s, c.prog, 'program untouched')
