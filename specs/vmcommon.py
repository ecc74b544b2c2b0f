from .common import *

HV = 'rtypes.h rvm/rvmcpu.h rvm/rvmreg.h'
want(HV, 'rvmcpu_t', ['r', 'status', 'error', 'abort', 'switables', 'stacksize', 'stack', 'data', 'ops', 'thisptr', 'gc', 'userdata1', 'userdata7'])
want(HV, 'rvmreg_t', ['v', 'size', 'type', 'flags'])
want(HV, 'rvm_switable_t', ['name', 'op'])
want(HV, 'rvm_asmins_t', ['data', 'swi', 'cond', 'opcode'])
OPS = ['EXT', 'ABORT', 'ASR', 'SWI', 'SWIID', 'CALL', 'MOV', 'MOVS', 'SWP', 'INC', 'DEC', 'ADD', 'ADDS', 'ADC', 'AND', 'BIC', 'CLZ', 'CMN', 'XOR', 'SUB', 'SUBS', 'SBC',
       'MUL', 'MLS', 'MULS', 'NOT', 'DIV', 'DVS', 'DIVS', 'MOD', 'MODS', 'BX', 'BXEQ', 'BXNEQ', 'BXLEQ', 'BXGEQ', 'BXLES', 'BXGRE', 'BXL', 'BL', 'B',
       'STR', 'STRP', 'STRB', 'STRH', 'STRW', 'STRR', 'LDR', 'LDRP', 'LDRB', 'LDRH', 'LDRW', 'LDRR', 'CFLAG', 'CLR', 'CLRR', 'LSL', 'LSR', 'LSRS', 'STM', 'LDM', 'STS', 'LDS',
       'ORR', 'PUSH', 'POP', 'CMP', 'NOP', 'BEQ', 'BNEQ', 'BLEQ', 'BGEQ', 'BLES', 'BGRE', 'RET', 'ROR', 'PUSHM', 'POPM', 'TST', 'TEQ', 'ADDRS', 'SETTYPE', 'TYPE']
REGN = ['FP', 'SP', 'LR', 'PC', 'DA', 'XX', 'RVM_REGS_NUM']
FLAGS = ['RVM_STATUS_Z', 'RVM_STATUS_N', 'RVM_STATUS_C', 'RVM_STATUS_V', 'RVM_STATUS_E', 'RVM_STATUS_ALL']
DT = ['RVM_DTYPE_POINTER', 'RVM_DTYPE_UNDEF', 'RVM_DTYPE_FUNCTION', 'RVM_DTYPE_SWIID', 'RVM_DTYPE_OPHANDLER', 'RVM_DTYPE_SIGNED', 'RVM_DTYPE_DOUBLE', 'RVM_DTYPE_PAIR', 'RVM_DTYPE_STRPTR', 'RVM_DTYPE_STRING', 'RVM_DTYPE_UNSIGNED', 'RVM_DTYPE_BOOLEAN']
ERR = ['RVM_E_DIVZERO', 'RVM_E_LVALUE', 'RVM_E_NOMEM', 'RVM_E_SWITABLE', 'RVM_E_NOTFUNCTION']
want(HV, None, ['RVM_' + o for o in OPS] + REGN + FLAGS + DT + ERR + ['(int)RVM_COUNT'])
C = O.c


class Cpu:
    """a machine as rvm_cpu_create makes it, with arbitrary registers and status, about to
    run a program of one arbitrary instruction of the given opcode followed by EXT"""

    def __init__(self, v, op, stack=None, da=None, op1=None, op2=None, op3=None, cond=0, nopc=True, nsteps=2, setreg=True, extra=(), pos=0, ptr=None, immptr=None, many=False):
        self.v = v
        if stack is None:
            stack = v.bv('stacksize')
            v.assume(ULE(stack, bv(1 << 40)), z3.UGE(stack, bv(1)))
            v.small(stack, 24)
        self.stacksize = stack
        p = v.make('rvm_cpu_create', [stack])
        if not isinstance(p, Ptr):
            raise Undecided('rvm_cpu_create returned no machine')
        self.cpu = p
        N = C('RVM_REGS_NUM')
        self.RS = O('rvmreg_t')
        fv, fs, ft, ff = v.fun('reg', 64, 64), v.fun('regsize', 64, 32), v.fun('regtype', 64, 16), v.fun('regflags', 64, 16)
        self.ff = {'v': fv, 'size': fs, 'type': ft, 'flags': ff}
        self.status = v.bv('status')
        E, s = v.E, v.s
        lo, hi = O('rvmcpu_t', 'r'), O('rvmcpu_t', 'r') + N * self.RS
        reg = Region(lo, self.RS, {O('rvmreg_t', f): (z, (lambda g: lambda i: g(i))(g)) for (f, g), z in zip(self.ff.items(), (8, 4, 2, 2))})
        obj = p.obj

        def inside(idx, off, size):
            return And(z3.ULE(bv(lo), off), z3.ULT(off, bv(hi)))

        self.ptr = None          # (operand term, Ptr): a register that holds an address
        self.immptr = immptr     # the immediate is an address

        def val(E_, s_, idx, off, size, isptr, extra):
            if self.ptr is not None:
                d = decompose(off, bv(lo), self.RS)
                if d is not None and d[1] == 0 and size == 8:
                    c = simp(d[0] == zx(self.ptr[0]))
                    if z3.is_true(c):
                        return [(TRUE, self.ptr[1])]
                    if not z3.is_false(c) and E_._feas(s_, list(extra), c):
                        return [(c, self.ptr[1])] + [(And(Not(c), k), x) for k, x in reg.try_read(E_, s_, obj, idx, off, size, False)]
            return reg.try_read(E_, s_, obj, idx, off, size, False)
        E.push(s, obj, ('fn', inside, val))
        E.store(s, p + O('rvmcpu_t', 'status'), 8, self.status)
        E.store(s, p + O('rvmcpu_t', 'abort'), 8, v.bv('abort0'))
        E.store(s, p + O('rvmcpu_t', 'error'), 8, v.bv('error0'))
        self.stackp = v.rdp(s, p + O('rvmcpu_t', 'stack'))
        f = v.fun('stackbytes', 64, 8)
        if isinstance(self.stackp, Ptr):
            self.stackf = FunBase(f)
            E.push(s, self.stackp.obj, ('rebase', self.stackf))
        # the program
        self.INS = O('rvm_asmins_t')
        self.pos = pos
        if many:
            # a program of any length: EXT everywhere but at the (arbitrary) starting position
            self.n = v.bv('proglen')
            self.pos = pos = v.bv('start')
            v.small(self.n, 20)
            v.assume(ULE(self.n, bv(1 << 40)), U(pos, self.n))
            self.prog = v.obj('prog', self.n * self.INS)
            hole = v.fun('progbytes', 64, 8)
            code = O('rvm_asmins_t', 'opcode')
            pk = O('rvm_asmins_t', 'data') + O('rvmreg_t')

            def pval(E_, s_, idx, off, size, isptr, extra):
                d = decompose(off, bv(0), self.INS)
                if d is None or isptr:
                    return FunBase(hole).read(E_, s_, self.prog, idx, off, size, isptr)
                out = []
                for j in range(size):
                    k = d[1] + j
                    out.append(bv(C('RVM_EXT'), 8) if k == code else bv(0, 8) if k in (pk, pk + 1) else hole(simp(off + j)))
                return [(TRUE, out[0] if size == 1 else simp(z3.Concat(*reversed(out))))]
            E.push(s, self.prog, ('fn', lambda idx, off, size: TRUE, pval))
        else:
            self.prog = v.obj('prog', (2 + pos + len(extra)) * self.INS)
        self.op1 = v.bv('op1', 4) if op1 is None else bv(op1, 4)
        self.op2 = v.bv('op2', 4) if op2 is None else bv(op2, 4)
        self.op3 = v.bv('op3', 4) if op3 is None else bv(op3, 4)
        self.da = v.bv('da', 1) if da is None else bv(da, 1)
        if nopc:
            for o, fixed in ((self.op1, op1), (self.op2, op2), (self.op3, op3)):
                if fixed is None:
                    v.assume(o != bv(C('PC'), 4))
        self.ins(pos, C('RVM_' + op) if isinstance(op, str) else op, self.op1, self.op2, self.op3, self.da, cond, 'imm')
        if not many:
            self.ins(pos + 1, C('RVM_EXT'), bv(0, 4), bv(0, 4), bv(0, 4), bv(0, 1), 0, 'immx')
        if ptr is not None:
            if callable(ptr[1]):
                ptr = (ptr[0], ptr[1](self))
            k = {'op1': self.op1, 'op2': self.op2, 'op3': self.op3}.get(ptr[0], ptr[0])
            self.ptr = (k if z3.is_expr(k) else bv(k, 4), ptr[1])
            v.assume(Not(And(self.da == bv(1, 1), self.ptr[0] == bv(C('DA'), 4))))
    def ins(self, i, opcode, o1, o2, o3, da, cond, nm):
        v, E, s = self.v, self.v.E, self.v.s
        b = Ptr(self.prog, simp(bv(i) * self.INS if isinstance(i, int) else i * bv(self.INS)))
        iv, is_, it, if_ = self.immptr if (nm == 'imm' and self.immptr is not None) else v.bv(nm), v.bv(nm + '.size', 32), v.bv(nm + '.type', 16), v.bv(nm + '.flags', 16)
        E.store(s, b + O('rvmreg_t', 'v'), 8, iv)
        E.store(s, b + O('rvmreg_t', 'size'), 4, is_)
        E.store(s, b + O('rvmreg_t', 'type'), 2, it)
        E.store(s, b + O('rvmreg_t', 'flags'), 2, if_)
        E.store(s, b + (O('rvm_asmins_t', 'data') + O('rvmreg_t')), 2, simp(z3.Concat(v.bv(nm + '.pad', 3), da, o3, o2, o1)))
        swi = v.bv(nm + '.swi', 16)
        E.store(s, b + O('rvm_asmins_t', 'swi'), 2, swi)
        if nm == 'imm':
            self.swi = swi
        E.store(s, b + O('rvm_asmins_t', 'cond'), 1, bv(cond, 8) if isinstance(cond, int) else cond)
        E.store(s, b + O('rvm_asmins_t', 'opcode'), 1, bv(opcode, 8))
        if nm == 'imm':
            iv = E.to_bv(iv)
            self.immv, self.imms, self.immt, self.immf = iv, is_, it, if_

    def at(self, o, f='v'):
        """what the instruction sees in register o"""
        o = zx(o)
        im = {'v': self.immv, 'size': self.imms, 'type': self.immt, 'flags': self.immf}[f]
        x = self.ff[f](o)
        if self.ptr is not None and f == 'v':
            x = z3.If(o == zx(self.ptr[0]), self.v.E.to_bv(self.ptr[1]), x)
        return z3.If(And(self.da == bv(1, 1), o == bv(C('DA'))), im, x)

    def val(self, o):
        return self.at(o)

    def rp(self, i, f='v'):
        return self.cpu + (O('rvmcpu_t', 'r') + i * self.RS + O('rvmreg_t', f))

    def new(self, s, i, f='v'):
        return self.v.rd(s, self.rp(i, f), {'v': 8, 'size': 4, 'type': 2, 'flags': 2}[f])

    def newat(self, s, w, f='v'):
        return self.v.rd(s, self.cpu + (bv(O('rvmcpu_t', 'r') + O('rvmreg_t', f)) + zx(w) * bv(self.RS)), {'v': 8, 'size': 4, 'type': 2, 'flags': 2}[f])

    def kept(self, s):
        w = self.v.bv('W', 4)
        return Or(w == bv(C('PC'), 4), self.newat(s, w) == self.at(w))

    def run(self, exhaustive=70, merge=True):
        self.v.E.exhaustive = exhaustive
        self.v.E.merge = merge
        return self.v.call('rvm_cpu_exec', [self.cpu, Ptr(self.prog), bv(self.pos) if isinstance(self.pos, int) else self.pos])

    def insptr(self, i):
        return Ptr(self.prog, simp(i * bv(self.INS)))

    def pc_is(self, s, i):
        """the program counter register names instruction i"""
        p = self.v.rdp(s, self.rp(C('PC')))
        return self.v.peq(p, self.insptr(i))

    def st(self, s, f='status'):
        return self.v.rd(s, self.cpu + O('rvmcpu_t', f), 8)

    def frame(self, s, writes, status=None, allow=(), tags=None, stack=True, program=True):
        """every register not named keeps value, size, type and flags; status as given.
        writes: [(operand, value)]; a written register keeps size, type and flags unless tags says otherwise"""
        v = self.v
        w = v.bv('W', 4)
        t = v.given(s, w != bv(C('PC'), 4), *[w != bv(i, 4) for i in allow])
        if t is not None:
            nv = self.at(w)
            for o, val in writes:
                nv = z3.If(o == w, val, nv)
            v.check(t, self.newat(t, w) == nv, 'register values')
            for f in ('size', 'type', 'flags'):
                x = self.at(w, f)
                for o, tg in (tags or ()):
                    if f in tg:
                        x = z3.If(o == w, tg[f], x)
                v.check(t, self.newat(t, w, f) == x, 'register tags')
        v.check(s, self.st(s) == (self.status if status is None else status), 'status')
        v.check(s, self.st(s, 'error') == bv(0), 'no error')
        lo = O('rvmcpu_t', 'r')
        st = O('rvmcpu_t', 'status')
        v.unchanged(s, self.cpu.obj, 'rest of the machine untouched', excl=lambda w: Or(
            z3.UGE(w, bv(O('rvmcpu_t', 'switables')))))
        v.unchanged(s, self.prog, 'program untouched')
        if stack and isinstance(self.stackp, Ptr):
            v.unchanged(s, self.stackp.obj, 'stack untouched')
