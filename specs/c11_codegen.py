from .vmcommon import *

HC = 'rtypes.h rvm/rvmcodegen.h'
want(HC, 'rvm_codegen_t', ['code', 'staticdata', 'dynamicdata', 'sourceidx', 'codemap', 'relocmap', 'cursrcidx'])
want(HC, 'rvm_codemap_t', ['labels', 'hash'])
want(HC, 'rvm_codelabel_t', ['type', 'base', 'value', 'name', 'size'])
want(HC, 'rvm_relocmap_t', ['records'])
want(HC, 'rvm_relocrecord_t', ['target', 'type', 'offset', 'label'])
want(HC, 'rstr_t', ['str', 'size'])
want(HC, None, ['RVM_CODELABEL_OFFSET', 'RVM_CODELABEL_POINTER', 'RVM_CODELABEL_INVALID', 'RVM_RELOC_DEFAULT', 'RVM_RELOC_JUMP', 'RVM_RELOC_BRANCH', 'RVM_RELOC_STRING', 'RVM_RELOC_BLOB', 'RVM_RELOC_CODE', 'RVM_RELOC_DATA'])
D_ = lambda: C('DA')


# ---------------------------------------------------------------- encoding
FORMS = {   # constructor: (width of the immediate, value as the instruction holds it, register type, size)
    'rvm_asm': ('RVM_DTYPE_UNSIGNED', 64), 'rvm_asml': ('RVM_DTYPE_SIGNED', 64), 'rvm_asms': ('RVM_DTYPE_SWIID', 64), 'rvm_asmf': ('RVM_DTYPE_FUNCTION', 64),
    'rvm_asmb': ('RVM_DTYPE_BOOLEAN', 32), 'rvm_asm2': ('RVM_DTYPE_PAIR', 0), 'rvm_asmp': ('RVM_DTYPE_POINTER', 64), 'rvm_asmd': ('RVM_DTYPE_DOUBLE', -1),
}


@unit('C11', 'encode', params=[(f, c) for f in sorted(FORMS) for c in (0, 1)], targets=['rvm_asm*', 'rvm_cond_asm*', 'rvm_reg_set*'])
def encode(v, p):
    """an assembled instruction holds exactly the opcode, software-interrupt number, operands and typed immediate it was given"""
    form, cond = p
    typ, w = FORMS[form]
    out = v.obj('ins', O('rvm_asmins_t'))
    opc, o1, o2, o3 = (v.bv(n) for n in ('opcode', 'o1', 'o2', 'o3'))
    for o in (o1, o2, o3):
        v.assume(U(o, bv(16)))
    v.assume(U(opc, bv(1 << 24)))
    args = [Ptr(out)]
    if cond:
        cc = v.bv('cond')
        v.assume(U(cc, bv(256)))
        args.append(cc)
    args += [opc, o1, o2, o3]
    if w == 0:
        a, b = v.bv('p1', 32), v.bv('p2', 32)
        args += [a, b]
        val = z3.Concat(b, a)
    elif w == -1:
        d = v.double('d')
        args += [d]
        val = None
    else:
        a = v.bv('data', w)
        args += [a]
        val = z3.If(a != 0, bv(1), bv(0)) if typ == 'RVM_DTYPE_BOOLEAN' else a
    for s in v.call('rvm_cond_' + form[4:] if cond else form, args):
        r = lambda f, n, k=0: v.rd(s, Ptr(out, O('rvm_asmins_t', f) + k), n)
        if val is not None:
            v.check(s, v.rd(s, Ptr(out), 8) == val, 'immediate')
        else:
            x = v.rd(s, Ptr(out), 8)
            v.check(s, Or(z3.fpBVToFP(x, z3.Float64()) == d, z3.fpIsNaN(d)), 'immediate')
        t = v.rd(s, Ptr(out, O('rvmreg_t', 'type')), 2)
        v.check(s, t == bv(C(typ), 16), 'type of the immediate')
        v.check(s, v.rd(s, Ptr(out, O('rvmreg_t', 'size')), 4) == bv(0, 32), 'size of the immediate')
        v.check(s, v.rd(s, Ptr(out, O('rvmreg_t', 'flags')), 2) == bv(0, 16), 'flags of the immediate')
        pk = v.rd(s, Ptr(out, O('rvm_asmins_t', 'data') + O('rvmreg_t')), 2)
        da = z3.If(Or(o1 == D_(), o2 == D_(), o3 == D_()), bv(1, 1), bv(0, 1))
        n4 = lambda o: z3.Extract(3, 0, o)
        v.check(s, pk == z3.Concat(bv(0, 3), da, n4(o3), n4(o2), n4(o1)), 'operands')
        v.check(s, r('swi', 2) == z3.Extract(23, 8, opc), 'software-interrupt number')
        v.check(s, r('opcode', 1) == z3.Extract(7, 0, opc), 'opcode')
        v.check(s, r('cond', 1) == (z3.Extract(7, 0, cc) if cond else bv(0, 8)), 'condition')


# ---------------------------------------------------------------- code buffer
class CG:
    """a code generator with any amount of code, labels, relocation records and static data"""

    def __init__(self, v, room=0, named=None):
        self.v = v
        I = O('rvm_asmins_t')
        self.code = Arr(v, 'code', I)
        self.src = Arr(v, 'src', 8)
        self.data = Arr(v, 'sdata', 1, cap=32)
        self.labels = Arr(v, 'labels', O('rvm_codelabel_t'), regions=[Region(0, O('rvm_codelabel_t'), {})] if False else None)
        self.recs = Arr(v, 'recs', O('rvm_relocrecord_t'))
        if room:
            for a, k in ((self.code, room), (self.src, 0), (self.labels, 4), (self.recs, room)):
                v.assume(ULE(a.len + k, a.alloc))
            v.assume(ULE(self.code.len + room, self.src.alloc))
        self.hash = v.obj('hash', 64)
        self.map = v.obj('codemap', O('rvm_codemap_t'), cells={O('rvm_codemap_t', 'labels'): (8, self.labels.p), O('rvm_codemap_t', 'hash'): (8, Ptr(self.hash))})
        self.rel = v.obj('relocmap', O('rvm_relocmap_t'), cells={O('rvm_relocmap_t', 'records'): (8, self.recs.p)})
        self.cur = v.bv('cursrc')
        g = lambda f: O('rvm_codegen_t', f)
        self.cg = v.obj('cg', O('rvm_codegen_t'), cells={g('code'): (8, self.code.p), g('staticdata'): (8, self.data.p), g('sourceidx'): (8, self.src.p),
                        g('codemap'): (8, Ptr(self.map)), g('relocmap'): (8, Ptr(self.rel)), g('cursrcidx'): (8, self.cur)})
        self.p = Ptr(self.cg)
        self.W = v.witness('W')
        self.b = v.bv('B')
        v.assume(U(self.b, bv(I)))
        self.I = I

    def lab(self, s, i, f, new=True):
        n = {'type': 4}.get(f, 8)
        off = O('rvm_codelabel_t', f)
        return self.labels.new(s, i, off, n) if new else self.labels.old(i, off, n)

    def rec(self, s, i, f):
        return self.recs.new(s, i, O('rvm_relocrecord_t', f), {'target': 4, 'type': 4}.get(f, 8))

    def names(self, found):
        """contract of the label index (a hash table, property C05): names already bound give their index, others -1;
        `found`: list of (name pointer, index term)"""
        v = self.v

        def lookup(E, s, a, ins):
            n = E.rdp(s, a[1] + O('rstr_t', 'str'))
            for nm, i in found + s.ghost.get('bound', []):
                if not isinstance(nm, str):
                    if any(isinstance(x, Ptr) and E.valid(s, v.peq(x, nm)) for c, x in n):
                        return [(s, i)]
                else:
                    for c, x in n:
                        if isinstance(x, Ptr) and x.obj.kind == 'const' and bytes(num(simp(E.rd(s, x + k, 1))) for k in range(len(nm) + 1)) == nm.encode() + b'\0':
                            return [(s, i)]
            s.ghost['missed'] = s.ghost.get('missed', 0) + 1
            return [(s, bv(-1))]

        def insert(E, s, a, ins):
            s.ghost['bound'] = s.ghost.get('bound', []) + [(x, a[2]) for c, x in E.rdp(s, a[1] + O('rstr_t', 'str'))]
            s.ghost['inserted'] = s.ghost.get('inserted', []) + [(a[1], a[2])]
            return [(s, None)]
        v.E.contracts['r_hash_lookup_index'] = lookup
        v.E.contracts['r_hash_insert_index'] = insert


def insobj(v):
    return v.obj('ins', O('rvm_asmins_t'))


def code_is(g, s, n, at=None, ins=None, shift=None):
    """the code array holds the old instructions, ins at position at"""
    v = g.v
    v.check(s, g.code.nlen(s) == n, 'code length')
    g.code.wf(s)
    t = v.given(s, U(g.W, n))
    if t is not None:
        old = g.code.old(g.W, g.b)
        if shift is not None:
            old = z3.If(U(g.W, shift), old, g.code.old(g.W - 1, g.b))
        new = old if at is None else z3.If(g.W == at, v.E.rd(v.s, Ptr(ins, g.b), 1), old)
        v.check(t, g.code.new(t, g.W, g.b) == new, 'instructions')


@unit('C11', 'addins', targets=['rvm_codegen_addins'])
def addins(v):
    """the instruction becomes the last one and remembers the current source position; nothing else changes"""
    g = CG(v)
    i = insobj(v)
    v.assume(U(g.src.len, bv(MAXN)))
    for s in v.call('rvm_codegen_addins', [g.p, Ptr(i)]):
        v.check(s, s.ret == g.code.len, 'returns its position')
        code_is(g, s, g.code.len + 1, g.code.len, i)
        v.check(s, g.src.new(s, g.code.len, 0, 8) == g.cur, 'source position')
        g.src.wf(s)
        t = v.given(s, U(g.W, g.src.len), g.W != g.code.len)
        if t is not None:
            v.check(t, g.src.new(t, g.W, 0, 8) == g.src.old(g.W, 0, 8), 'other source positions')


@unit('C11', 'replaceins', targets=['rvm_codegen_replaceins'])
def replaceins(v):
    g = CG(v)
    i = insobj(v)
    k = v.bv('index', 32)
    v.assume(U(zx(k), g.code.len))
    for s in v.call('rvm_codegen_replaceins', [g.p, k, Ptr(i)]):
        v.check(s, s.ret == zx(k), 'returns its position')
        code_is(g, s, g.code.len, zx(k), i)


@unit('C11', 'insertins', targets=['rvm_codegen_insertins'])
def insertins(v):
    g = CG(v)
    i = insobj(v)
    k = v.bv('index', 32)
    v.assume(ULE(zx(k), g.code.len))
    for s in v.call('rvm_codegen_insertins', [g.p, k, Ptr(i)]):
        v.check(s, s.ret == zx(k), 'returns its position')
        code_is(g, s, g.code.len + 1, zx(k), i, shift=zx(k))


@unit('C11', 'queries', params=['getcode', 'getcodesize', 'getsource', 'setsource', 'setcodesize'], targets=['rvm_codegen_get*', 'rvm_codegen_set*'])
def queries(v, q):
    g = CG(v)
    k = v.bv('index')
    if q == 'getcode':
        v.assume(U(k, g.code.len), U(k, bv(1 << 32)))
        for s in v.call('rvm_codegen_getcode', [g.p, z3.Extract(31, 0, k)]):
            v.check(s, v.peq(s.ret, Ptr(g.code.data, simp(k * bv(g.I)))), 'address of the instruction')
    elif q == 'getcodesize':
        for s in v.call('rvm_codegen_getcodesize', [g.p]):
            v.check(s, s.ret == g.code.len, 'number of instructions')
    elif q == 'getsource':
        for s in v.call('rvm_codegen_getsource', [g.p, k]):
            v.check(s, z3.If(U(k, g.src.len), s.ret == g.src.old(k, 0, 8), s.ret == bv(-1)) if True else TRUE, 'source position or -1')
    elif q == 'setsource':
        for s in v.call('rvm_codegen_setsource', [g.p, k]):
            v.check(s, v.rd(s, g.p + O('rvm_codegen_t', 'cursrcidx')) == k, 'current source position')
            code_is(g, s, g.code.len)
    else:
        v.assume(ULE(k, g.code.len), U(k, bv(1 << 32)))
        for s in v.call('rvm_codegen_setcodesize', [g.p, z3.Extract(31, 0, k)]):
            code_is(g, s, k)


# ---------------------------------------------------------------- labels
def label_is(g, s, i, typ, base, value):
    v = g.v
    v.check(s, g.lab(s, i, 'type') == bv(C(typ), 32), 'kind of label')
    if base is not None:
        v.check(s, g.lab(s, i, 'base') == base, 'base of the label')
    v.check(s, g.lab(s, i, 'value') == value, 'position of the label')


def labels_kept(g, s, *but):
    v = g.v
    w = v.bv('LW')
    b = v.bv('LB')
    t = v.given(s, U(w, g.labels.len), U(b, bv(O('rvm_codelabel_t'))), *[w != i for i in but])
    if t is not None:
        v.check(t, g.labels.new(t, w, b) == g.labels.old(w, b), 'other labels')


def lab_setup(v, g, fresh_name, ncode=True):
    nm = v.obj('name', v.bv('namecap'))
    n = v.bv('namesize', 32)
    v.assume(U(zx(n), nm.size), U(nm.size, bv(1 << 30)))
    v.small(nm.size, 8)
    idx = v.bv('labelidx')
    v.assume(U(idx, g.labels.len))
    ci = v.bv('codelabel')
    v.assume(U(ci, g.labels.len), ci != idx, g.lab(v.s, ci, 'type', False) == bv(C('RVM_CODELABEL_POINTER'), 32))
    found = [('.code', ci), ('.data', ci)]
    if not fresh_name:
        found.append((Ptr(nm), idx))
    g.names(found)
    return Ptr(nm), n, (g.labels.len if fresh_name else idx), ci


@unit('C11', 'addlabel', params=[True, False], targets=['rvm_codegen_addlabel', 'rvm_codemap_addoffset', 'rvm_codemap_add', 'rvm_codelabel_setoffset'])
def addlabel(v, fresh_name):
    """a label names the position it is given, relative to the code; other labels keep theirs; a new name is entered in the index under a copy of the name"""
    g = CG(v, room=1)
    nm, n, i, ci = lab_setup(v, g, fresh_name)
    at = v.bv('at')
    v.assume(U(at, bv(MAXN)))
    for s in v.call('rvm_codegen_addlabel', [g.p, nm, n, at]):
        v.check(s, s.ret == i, 'label index')
        label_is(g, s, i, 'RVM_CODELABEL_OFFSET', ci, at * bv(g.I))
        labels_kept(g, s, i)
        v.check(s, g.labels.nlen(s) == (g.labels.len + 1 if fresh_name else g.labels.len), 'number of labels')
        ins = s.ghost.get('inserted', [])
        v.check(s, len(ins) == (1 if fresh_name else 0), 'entries made in the index')
        if fresh_name and len(ins) == 1:
            v.check(s, ins[0][1] == i, 'index entry')
            p = v.rdp(s, ins[0][0] + O('rstr_t', 'str'))
            v.check(s, v.rd(s, ins[0][0] + O('rstr_t', 'size'), 4) == n, 'length of the copied name')
            w = v.bv('NW')
            t = v.given(s, U(w, zx(n)))
            if t is not None:
                v.check(t, v.rd(t, p + w, 1) == v.E.rd(v.s, nm + w, 1), 'copied name')


@unit('C11', 'label-here', params=[True, False], targets=['rvm_codegen_addlabel_default', 'rvm_codegen_redefinelabel_default', 'rvm_codegen_redefinelabel'])
def label_here(v, redefine):
    """a label placed here names the next instruction to be emitted"""
    g = CG(v, room=1)
    nm, n, i, ci = lab_setup(v, g, False)
    args = [g.p, i] if redefine else [g.p, nm, n]
    for s in v.call('rvm_codegen_redefinelabel_default' if redefine else 'rvm_codegen_addlabel_default', args):
        v.check(s, s.ret == i, 'label index')
        label_is(g, s, i, 'RVM_CODELABEL_OFFSET', ci, g.code.len * bv(g.I))
        labels_kept(g, s, i)


@unit('C11', 'redefine-unknown', params=['rvm_codegen_redefinelabel', 'rvm_codegen_redefinepointer', 'rvm_codegen_validlabel'], targets=['rvm_codemap_label'])
def redefine_unknown(v, f):
    """an index that is not a label is refused and nothing changes"""
    g = CG(v, room=1)
    nm, n, i, ci = lab_setup(v, g, False)
    k = v.bv('bad')
    v.assume(Not(And(k >= 0, k < g.labels.len)))
    for s in v.call(f, [g.p, k] + ([v.bv('x')] if 'valid' not in f else [])):
        v.check(s, s.ret == (bv(0) if 'valid' in f else bv(-1)), 'refused')
        labels_kept(g, s)


@unit('C11', 'validlabel', targets=['rvm_codegen_validlabel', 'rvm_codemap_validindex'])
def validlabel(v):
    g = CG(v, room=1)
    k = v.bv('k')
    v.assume(U(k, g.labels.len))
    for s in v.call('rvm_codegen_validlabel', [g.p, k]):
        v.check(s, s.ret == z3.If(g.lab(s, k, 'type', False) != bv(C('RVM_CODELABEL_INVALID'), 32), bv(1), bv(0)), 'valid unless marked invalid')


def seq(v, g, s, first, items):
    """code from position first on is exactly these instructions"""
    I = g.I
    for k, (op, o1, o2, o3, imm) in enumerate(items):
        i = first + k
        da = 1 if D_() in (o1, o2, o3) else 0
        v.check(s, g.code.new(s, i, O('rvm_asmins_t', 'opcode'), 1) == bv(C('RVM_' + op), 8), 'opcode %d' % k)
        v.check(s, g.code.new(s, i, O('rvm_asmins_t', 'data') + O('rvmreg_t'), 2) == bv(o1 | o2 << 4 | o3 << 8 | da << 12, 16), 'operands %d' % k)
        v.check(s, g.code.new(s, i, 0, 8) == imm, 'immediate %d' % k)


SAVED = lambda: (1 << C('FP')) | (1 << C('SP')) | (1 << C('LR'))


@unit('C11', 'function-start', params=['fixed', 'varying'], targets=['rvm_codegen_funcstart', 'rvm_codegen_vargs_funcstart', 'rvm_codegen_addlabelins'])
def funcstart(v, kind):
    """the prologue is emitted in order, the function's name is bound to its first instruction"""
    g = CG(v, room=5)
    nm, n, i, ci = lab_setup(v, g, False)
    x = v.bv('args', 32)
    L = g.code.len
    v.assume(U(L, bv(1 << 31)))
    FP, SP, LR, XX = C('FP'), C('SP'), C('LR'), C('XX')
    for s in v.call('rvm_codegen_funcstart' if kind == 'fixed' else 'rvm_codegen_vargs_funcstart', [g.p, nm, n] + ([x] if kind == 'fixed' else [])):
        v.check(s, s.ret == z3.Extract(31, 0, L + 1), 'returns the position of the first instruction')
        v.check(s, g.code.nlen(s) == L + 4, 'number of instructions')
        seq(v, g, s, L, [('NOP', XX, XX, XX, bv(0)), ('PUSHM', D_(), XX, XX, bv(SAVED())), ('MOV', FP, SP, XX, bv(0)),
                         ('ADD', SP, SP, D_(), zx(x)) if kind == 'fixed' else ('ADD', SP, SP, 0, bv(0))])
        label_is(g, s, i, 'RVM_CODELABEL_OFFSET', ci, (L + 1) * bv(g.I))
        t = v.given(s, U(g.W, L))
        if t is not None:
            v.check(t, g.code.new(t, g.W, g.b) == g.code.old(g.W, g.b), 'earlier instructions')


@unit('C11', 'function-end', targets=['rvm_codegen_funcend'])
def funcend(v):
    g = CG(v, room=5)
    L = g.code.len
    FP, SP, LR, XX = C('FP'), C('SP'), C('LR'), C('XX')
    for s in v.call('rvm_codegen_funcend', [g.p]):
        v.check(s, g.code.nlen(s) == L + 3, 'number of instructions')
        seq(v, g, s, L, [('MOV', SP, FP, XX, bv(0)), ('POPM', D_(), XX, XX, bv(SAVED())), ('BX', LR, XX, XX, bv(0))])
        t = v.given(s, U(g.W, L))
        if t is not None:
            v.check(t, g.code.new(t, g.W, g.b) == g.code.old(g.W, g.b), 'earlier instructions')


@unit('C11', 'data', targets=['rvm_codegen_adddata'])
def adddata(v):
    """static data is copied, word aligned, zero terminated; its label names where it went; data already there is kept"""
    g = CG(v, room=1)
    nm, n, i, ci = lab_setup(v, g, False)
    sz = v.bv('size')
    v.assume(U(sz, bv(MAXN)), U(bv(0), sz))
    v.small(sz, 8)
    d = v.obj('source', sz)
    al = (g.data.len + 7) & ~bv(7)
    for s in v.call('rvm_codegen_adddata', [g.p, nm, n, Ptr(d), sz]):
        label_is(g, s, i, 'RVM_CODELABEL_OFFSET', ci, al)
        g.data.wf(s)
        v.check(s, ULE(al + sz + 1, g.data.nlen(s)), 'inside the data')
        w = v.bv('DW')
        t = v.given(s, U(w, sz))
        if t is not None:
            v.check(t, g.data.new(t, al + w) == v.E.rd(v.s, Ptr(d, w), 1), 'copied')
        v.check(s, g.data.new(s, al + sz) == bv(0, 8), 'terminated')
        t = v.given(s, U(w, g.data.len))
        if t is not None:
            v.check(t, g.data.new(t, w) == g.data.old(w), 'earlier data')


# ---------------------------------------------------------------- relocation
@unit('C11', 'add-relocated-instruction', targets=['rvm_codegen_index_addrelocins', 'rvm_relocmap_add'])
def addreloc(v):
    """the instruction is appended and one record made for its position, type and label"""
    g = CG(v, room=1)
    i = insobj(v)
    ty = v.bv('type', 32)
    lb = v.bv('label')
    for s in v.call('rvm_codegen_index_addrelocins', [g.p, ty, lb, Ptr(i)]):
        v.check(s, s.ret == g.code.len, 'position')
        code_is(g, s, g.code.len + 1, g.code.len, i)
        R_ = g.recs.len
        v.check(s, g.recs.nlen(s) == R_ + 1, 'one record')
        v.check(s, And(g.rec(s, R_, 'target') == bv(C('RVM_RELOC_CODE'), 32), g.rec(s, R_, 'type') == ty, g.rec(s, R_, 'offset') == g.code.len, g.rec(s, R_, 'label') == lb), 'the record')
        t = v.given(s, U(g.W, R_))
        if t is not None:
            b = v.bv('RB')
            t = v.given(t, U(b, bv(24)))
            v.check(t, g.recs.new(t, g.W, b) == g.recs.old(g.W, b), 'other records')


@unit('C11', 'resolve', params=['pointer', 'offset', 'invalid', 'invalid-base', 'unknown'], targets=['rvm_codemap_resolve', 'rvm_codemap_label'])
def resolve(v, kind):
    """a pointer label gives its address, an offset label its base's address plus the offset, an undefined one is reported"""
    g = CG(v, room=1)
    i, j = v.bv('i'), v.bv('j')
    v.assume(U(i, g.labels.len), U(j, g.labels.len), i != j)
    ty = lambda k: g.lab(v.s, k, 'type', False)
    K = lambda n: bv(C('RVM_CODELABEL_' + n), 32)
    err = v.obj('err', 8)
    v.assume(ty(i) == K({'pointer': 'POINTER', 'offset': 'OFFSET', 'invalid': 'INVALID', 'invalid-base': 'OFFSET', 'unknown': 'POINTER'}[kind]))
    v.assume(g.lab(v.s, i, 'base', False) == j)
    v.assume(ty(j) == K('INVALID' if kind == 'invalid-base' else 'POINTER'))
    k = i
    if kind == 'unknown':
        k = v.bv('k')
        v.assume(Not(And(k >= 0, k < g.labels.len)))
    val = lambda x: g.lab(v.s, x, 'value', False)
    v.assume(val(j) != bv(-1))
    for s in v.call('rvm_codemap_resolve', [Ptr(g.map), k, Ptr(err)]):
        bad = i if kind == 'invalid' else j
        v.check(s, s.ret == {'pointer': val(i), 'offset': val(j) + val(i), 'invalid': bv(-1), 'invalid-base': bv(-1), 'unknown': bv(0)}[kind], 'address')
        if kind.startswith('invalid'):
            v.check(s, v.peq(v.rdp(s, Ptr(err)), Ptr(g.labels.data, simp(bad * bv(O('rvm_codelabel_t'))))), 'the label at fault')
        else:
            v.unchanged(s, err, 'no error')


RT = ['DEFAULT', 'JUMP', 'BRANCH', 'STRING', 'BLOB']


@unit('C11', 'relocate', params=[(t, n) for n in (1, 2, 3) for t in RT if n < 3 or t == 'JUMP'], targets=['rvm_relocmap_relocate', 'rvm_relocmap_get'], bounded='up to three relocation records; everything else unbounded', timeout=300)
def relocate(v, p):
    """every relocated instruction refers to the position of its label in the form its record asks for; nothing else in the code changes"""
    typ, n = p
    g = CG(v)
    v.E.exhaustive = 12
    v.assume(g.recs.len == bv(n))
    v.assume(U(g.code.len, bv(1 << 30)))
    g.code.new
    res = v.fun('address', 64, 64)
    offs = []
    K = lambda f, k: g.recs.old(bv(k), O('rvm_relocrecord_t', f), {'target': 4, 'type': 4}.get(f, 8))
    for k in range(n):
        o = K('offset', k)
        v.assume(U(o, g.code.len), *[o != x for x in offs])
        offs.append(o)
        v.assume(K('target', k) == bv(C('RVM_RELOC_CODE'), 32), K('type', k) == bv(C('RVM_RELOC_' + (typ if k == n - 1 else 'DEFAULT')), 32))
        v.assume(res(K('label', k)) != bv(-1))
    strl = v.bv('strlen')

    def resolve_(E, s, a, ins):
        return [(s, res(a[1]))]

    def strlen(E, s, a, ins):
        s.ghost['measured'] = a[0]
        return [(s, strl)]
    v.E.contracts['rvm_codemap_resolve'] = resolve_
    if typ == 'STRING':
        v.E.contracts['r_strlen'] = v.E.contracts['strlen'] = strlen
    I = bv(g.I)
    for s in v.call('rvm_relocmap_relocate', [Ptr(g.rel), Ptr(g.map), Ptr(g.code.data), bv(0)]):
        v.check(s, s.ret == bv(0, 32), 'result')
        for k in range(n):
            a = res(K('label', k))
            ty = typ if k == n - 1 else 'DEFAULT'
            here = v.E.to_bv(Ptr(g.code.data)) + offs[k] * I
            want_ = {'DEFAULT': a, 'STRING': a, 'BLOB': a, 'JUMP': a - I, 'BRANCH': (a - here) / I}[ty]
            v.check(s, g.code.new(s, offs[k], 0, 8) == want_, 'relocated immediate %d' % k)
            if ty == 'STRING':
                v.check(s, g.code.new(s, offs[k], O('rvmreg_t', 'size'), 4) == z3.Extract(31, 0, strl), 'size of the string')
        t = v.given(s, U(g.W, g.code.len), *([Or(z3.UGE(g.b, bv(8)), *[g.W == x for x in []])] if False else []))
        keep = And(*[Or(g.W != o, z3.UGE(g.b, bv(12 if typ == 'STRING' else 8))) for o in offs])
        t = v.given(s, U(g.W, g.code.len), keep)
        if t is not None:
            v.check(t, g.code.new(t, g.W, g.b) == g.code.old(g.W, g.b), 'rest of the code')


@unit('C11', 'relocate-undefined', bounded='up to two relocation records', targets=['rvm_relocmap_relocate'])
def relocate_undefined(v):
    """an undefined label makes relocation fail"""
    g = CG(v)
    v.E.exhaustive = 12
    n = 2
    v.assume(g.recs.len == bv(n))
    res = v.fun('address', 64, 64)
    K = lambda f, k: g.recs.old(bv(k), O('rvm_relocrecord_t', f), {'target': 4, 'type': 4}.get(f, 8))
    for k in range(n):
        v.assume(U(K('offset', k), g.code.len), K('type', k) == bv(0, 32))
    v.assume(Or(*[res(K('label', k)) == bv(-1) for k in range(n)]))
    v.E.contracts['rvm_codemap_resolve'] = lambda E, s, a, ins: [(s, res(a[1]))]
    for s in v.call('rvm_relocmap_relocate', [Ptr(g.rel), Ptr(g.map), Ptr(g.code.data), bv(0)]):
        v.check(s, s.ret == bv(-1, 32), 'reported')
