from .vmcommon import *
from .c09_mem import aborts, slot, bit

Zf = lambda st: (st & bv(C('RVM_STATUS_Z'))) != 0
Nf = lambda st: (st & bv(C('RVM_STATUS_N'))) != 0
COND = {
    'B': lambda st: TRUE, 'BEQ': Zf, 'BNEQ': lambda st: Not(Zf(st)), 'BLEQ': lambda st: Or(Nf(st), Zf(st)),
    'BGEQ': lambda st: Not(Nf(st)), 'BLES': Nf, 'BGRE': lambda st: Not(Or(Nf(st), Zf(st))),
}
XC = {'BX': 'B', 'BXEQ': 'BEQ', 'BXNEQ': 'BNEQ', 'BXLEQ': 'BLEQ', 'BXGEQ': 'BGEQ', 'BXLES': 'BLES', 'BXGRE': 'BGRE'}
LR, PC = 'LR', 'PC'


def R(n):
    return bv(C(n), 4)


def lr_is(c, s, i):
    return c.v.peq(c.v.rdp(s, c.rp(C('LR'))), c.insptr(i))


@unit('C10', 'branch', params=sorted(COND), targets=['rvm_op_b*', 'rvm_cpu_exec'])
def branch(v, op):
    """control continues at the instruction op1 away when the condition holds, else at the next one; nothing else changes"""
    c = Cpu(v, op, many=True)
    d = c.val(c.op1)
    t = z3.If(COND[op](c.status), c.pos + d, c.pos + 1)
    v.assume(Not(And(Zf(c.status), Nf(c.status))))
    v.assume(U(t, c.n), t != c.pos)
    v.small(d, 20)
    for s in c.run(merge=False):
        v.check(s, c.pc_is(s, t + 1), 'execution stopped right after the branch target')
        c.frame(s, [])
        v.check(s, s.ret == bv(0, 32), 'result')


@unit('C10', 'branch-and-link', targets=['rvm_op_bl'])
def bl(v):
    """control continues op1 away and the link register names the branch"""
    c = Cpu(v, 'BL', many=True)
    d = c.val(c.op1)
    t = c.pos + d
    v.assume(U(t, c.n), t != c.pos)
    v.small(d, 20)
    for s in c.run():
        v.check(s, c.pc_is(s, t + 1), 'execution stopped right after the branch target')
        v.check(s, lr_is(c, s, c.pos), 'link register')
        c.frame(s, [], allow=[C('LR')])


def target(v):
    t = v.bv('target')
    return t, lambda c: c.insptr(t)


@unit('C10', 'branch-to-register', params=sorted(XC), targets=['rvm_op_bx*'])
def bx(v, op):
    """control continues right after the instruction the register names when the condition holds, else at the next one"""
    t, f = target(v)
    c = Cpu(v, op, many=True, ptr=('op1', f))
    v.small(t, 20)
    v.assume(U(t, c.n))
    nx = z3.If(COND[XC[op]](c.status), t + 1, c.pos + 1)
    v.assume(Not(And(Zf(c.status), Nf(c.status))))
    v.assume(U(nx, c.n), nx != c.pos)
    for s in c.run(merge=False):
        v.check(s, c.pc_is(s, nx + 1), 'execution stopped right after the target')
        c.frame(s, [])


@unit('C10', 'branch-to-register-and-link', params=['BXL', 'CALL'], targets=['rvm_op_bxl', 'rvm_op_call'])
def bxl(v, op):
    """a call to a function value continues right after the named instruction; the link register names the call"""
    t, f = target(v)
    c = Cpu(v, op, many=True, ptr=('op1', f))
    v.small(t, 20)
    if op == 'CALL':
        v.assume(c.at(c.op1, 'type') == bv(C('RVM_DTYPE_FUNCTION'), 16))
    v.assume(c.op1 != R('LR'))
    v.assume(U(t, c.n), U(t + 1, c.n), t + 1 != c.pos)
    for s in c.run():
        v.check(s, c.pc_is(s, t + 2), 'execution stopped right after the target')
        v.check(s, lr_is(c, s, c.pos), 'link register')
        c.frame(s, [], allow=[C('LR')])


@unit('C10', 'call-not-a-function', targets=['rvm_op_call'])
def call_bad(v):
    c = Cpu(v, 'CALL')
    for k in ('RVM_DTYPE_FUNCTION', 'RVM_DTYPE_SWIID', 'RVM_DTYPE_OPHANDLER'):
        v.assume(c.at(c.op1, 'type') != bv(C(k), 16))
    for s in aborts(c, 'RVM_E_NOTFUNCTION'):
        v.check(s, c.kept(s), 'registers untouched')


@unit('C10', 'return', targets=['rvm_op_ret'])
def ret(v):
    """RET continues right after the instruction the link register names"""
    t, f = target(v)
    c = Cpu(v, 'RET', many=True, ptr=(C('LR'), f))
    v.small(t, 20)
    v.assume(U(t, c.n), U(t + 1, c.n), t + 1 != c.pos)
    for s in c.run():
        v.check(s, c.pc_is(s, t + 2), 'execution stopped right after the target')
        c.frame(s, [])


@unit('C10', 'next', params=['NOP', 'MOV', 'CMP', 'LDS'], targets=['rvm_op_nop', 'rvm_cpu_exec'])
def nop(v, op):
    """an instruction that is not a branch is followed by the next one"""
    c = Cpu(v, op, many=True)
    v.assume(U(c.pos + 1, c.n))
    if op == 'LDS':
        from .c09_mem import stackaddr
        v.assume(c.op2 != bv(C('XX'), 4), c.op3 != bv(C('XX'), 4), U(stackaddr(c), c.stacksize))
    for s in c.run():
        v.check(s, c.pc_is(s, c.pos + 2), 'execution stopped after the next instruction')
        if op == 'NOP':
            c.frame(s, [])


@unit('C10', 'stop', targets=['rvm_op_exit'])
def stop(v):
    """EXT ends execution at once, without an error"""
    c = Cpu(v, 'EXT', many=True)
    for s in c.run():
        v.check(s, c.pc_is(s, c.pos + 1), 'nothing after it ran')
        v.check(s, s.ret == bv(0, 32), 'result')
        c.frame(s, [])


@unit('C10', 'return-from-stack', targets=['rvm_op_pop', 'rvm_op_popm'], params=['POP', 'POPM'])
def popret(v, op):
    """popping an instruction address into the program counter continues right after it"""
    c = Cpu(v, op, many=True, op1=C('PC') if op == 'POP' else C('DA'), da=0 if op == 'POP' else 1)
    t = v.bv('target')
    sp = c.at(bv(C('SP'), 4))
    v.small(sp, 20)
    v.small(t, 20)
    v.assume(U(sp, c.stacksize), U(t, c.n), U(t + 1, c.n), t + 1 != c.pos, ULE(bv(1), sp))
    v.assume(c.immv == bv(1 << C('PC')))
    v.E.store(v.s, Ptr(c.stackp.obj, simp(sp * bv(c.RS))), 8, c.insptr(t))
    for s in c.run():
        v.check(s, c.pc_is(s, t + 2), 'execution stopped right after the target')
        v.check(s, c.newat(s, bv(C('SP'), 4)) == sp - 1, 'stack pointer')


def tables(v, c, n, seen):
    """n software-interrupt tables of 256 routines registered with the machine"""
    ent = O('rvm_switable_t')
    v.noreplay = True
    for i in range(n):
        m = v.obj('switable%d' % i, 256 * ent)

        def val(E, s, idx, off, size, isptr, extra, i=i):
            d = decompose(off, bv(0), ent)
            if d is not None and d[1] == O('rvm_switable_t', 'op') and size == 8:
                s.ghost['picked'] = (i, d[0])
                return [(TRUE, FnRef('swi_routine_%d' % i))]
            return [(TRUE, Wild('table'))]
        v.E.push(v.s, m, ('fn', lambda idx, off, size: TRUE, val))

        def routine(E, s, args, ins):
            s.ghost.setdefault('ran', []).append((s.ghost.get('picked'), args))
            return [(s, None)]
        v.E.models['swi_routine_%d' % i] = routine
        nm = v.obj('name%d' % i, 5)
        for j, ch in enumerate(b'tab%d\0' % i):
            v.E.store(v.s, Ptr(nm, j), 1, bv(ch, 8))
        v.make('rvm_cpu_addswitable', [c.cpu, Ptr(nm), Ptr(m)])


@unit('C10', 'software-interrupt', params=[(o, k) for o in ('SWI', 'SWIID', 'CALL') for k in (0, 1, 2)], targets=['rvm_op_swi', 'rvm_op_swiid', 'rvm_op_call', 'rvm_cpu_addswitable'])
def swi(v, p):
    """the routine called is the one at the given number of the given table, with the machine and the instruction; execution goes on"""
    op, tab = p
    c = Cpu(v, op)
    tables(v, c, 3, None)
    num_ = v.bv('swinum')
    v.small(num_, 10)
    v.assume(U(num_, bv(256)))
    ident = bv(tab << 8) + num_
    if op == 'SWI':
        v.assume(zx(c.swi) == ident)
    else:
        v.assume(c.val(c.op1) == ident)
    if op == 'CALL':
        v.assume(c.at(c.op1, 'type') == bv(C('RVM_DTYPE_SWIID'), 16), c.op1 != R('LR'))
    for s in c.run():
        ran = s.ghost.get('ran', [])
        v.check(s, TRUE if len(ran) == 1 else FALSE, 'exactly one routine ran')
        if len(ran) == 1:
            (pick, args) = ran[0]
            v.check(s, And(TRUE if pick[0] == tab else FALSE, pick[1] == num_), 'the routine of that table and number')
            v.check(s, And(v.peq(args[0], c.cpu), v.peq(args[1], c.insptr(bv(0)))), 'machine and instruction passed')
        v.check(s, c.pc_is(s, bv(2)), 'execution went on with the next instruction')
        if op == 'CALL':
            v.check(s, lr_is(c, s, bv(0)), 'link register')
            c.frame(s, [], allow=[C('LR')])
        else:
            c.frame(s, [])


@unit('C10', 'software-interrupt-unknown-table', params=['SWI', 'SWIID'], targets=['rvm_op_swi', 'rvm_op_swiid'])
def swi_bad(v, op):
    c = Cpu(v, op)
    tables(v, c, 2, None)
    k = zx(c.swi) if op == 'SWI' else c.val(c.op1)
    v.assume(z3.UGE(z3.Extract(31, 0, z3.LShR(k, 8)), bv(2, 32)))
    for s in aborts(c, 'RVM_E_SWITABLE'):
        v.check(s, TRUE if not s.ghost.get('ran') else FALSE, 'no routine ran')
        v.check(s, c.kept(s), 'registers untouched')
