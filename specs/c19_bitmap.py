from .common import *
from .c16_match import Stat, Regs, ins, matches, icased, CP, ST, C
from .c18_record import RS, HR

HB = 'rtypes.h rpa/rpabitmap.h rpa/rpaparser.h rpa/rpavm.h rpa/rparecord.h'
want(HB, 'rparecord_t', ['input', 'inputsiz', 'top', 'size', 'rule', 'inputoff'])
want(HB, 'rpa_bitmapcompiler_t', ['dbex', 'beginchar', 'endchar'])
PROD = ('CHAR CHARRNG BEGINCHAR ENDCHAR CLSCHAR CLS NAMEDRULE REQOP NEGBRANCH BRACKETEXP ALTBRANCH ANONYMOUSRULE OROP NOROP SPECIALCHAR HEX DEC CLSNUM NUMRNG AREF CREF NOTOP MINOP').split()
want(HB, None, ['RPA_PRODUCTION_' + x for x in PROD] + ['RPA_PRODUCTION_COUNT', 'RPA_MATCH_OPTIONAL', 'RPA_LOOP_PATH', 'RPA_RECORD_START', 'RPA_RECORD_END'])
BC = lambda f=None: O('rpa_bitmapcompiler_t', f)
NONE = bv((1 << 64) - 1)
ALL = NONE
SEQ = ('NAMEDRULE', 'REQOP', 'NEGBRANCH', 'BRACKETEXP', 'ALTBRANCH', 'ANONYMOUSRULE')
UNION = ('CLS', 'OROP', 'NOROP')


def bit(c):
    return bv(1) << (zx(c) & 63)


@unit('C19', 'consult', targets=['rpa_stat_matchbitmap'])
def consult(v):
    """the run-time test lets through every character of the set, in either case when case does not matter, and at
    the end of the input what can match nothing"""
    t = Stat(v)
    top = t.top()
    b = v.bv('bitmap')
    W = v.witness('W')
    v.assume(W >= -1, W <= t.N)
    ateof = t.eof(top) != 0
    for s in v.call('rpa_stat_matchbitmap', [t.p, top, b]):
        v.check(s, s.ret == z3.If(ateof, z3.If(b == ALL, bv(1, 32), bv(0, 32)), z3.If(matches(t, s, 'bitmap', top, [b]), bv(1, 32), bv(0, 32))), 'characters of the set are let through')
        v.unchanged(s, t.o, 'context untouched')
        t.others(s, FALSE, W)


@unit('C19', 'instruction', params=['matchbitmap', 'exitonbitmap', 'verifybitmap'], targets=['rpavm_swi_matchbitmap', 'rpavm_swi_exitonbitmap', 'rpavm_swi_verifybitmap'])
def instruction(v, what):
    """the instructions give up exactly when the test fails, and otherwise change nothing"""
    t = Stat(v)
    op1 = v.bv('op1', 4)
    b, r0, top = t.regs.old(op1), t.regs.old('R0'), t.regs.old('R_TOP')
    pos = top - r0 if what == 'verifybitmap' else top
    ok = v.bv('passes', 32)
    v.assume(Or(ok == 0, ok == 1))
    v.noreplay = True

    def test(E, s, a, i):
        E.prove(s, And(v.peq(a[0], t.p), a[1] == pos, a[2] == b), 'test-arguments')
        return [(s, ok)]
    v.E.contracts['rpa_stat_matchbitmap'] = test
    N = bv(C('RVM_STATUS_N'))
    for s in v.call('rpavm_swi_' + what, [t.regs.p, ins(v, op1)]):
        ab, st = t.regs.st(s, 'abort'), t.regs.st(s)
        if what == 'verifybitmap':
            stop = And(b != 0, r0 != 0, ok == 0, (t.regs.status & N) == 0)
            v.check(s, st == t.regs.status, 'status kept')
            v.check(s, Implies(Not(stop), ab == t.regs.abort), 'stops only on a contradiction')
            t.regs.frame(s, [])
            continue
        v.check(s, st == z3.If(ok == 1, bv(0), N), 'status tells whether to go on')
        v.check(s, t.regs.new(s, 'R0') == z3.If(ok == 1, r0, NONE), 'result')
        if what == 'exitonbitmap':
            v.check(s, Implies(ok == 1, ab == t.regs.abort), 'goes on when the test passes')
            v.check(s, Implies(ok == 0, ab != 0), 'stops when it fails')
        else:
            v.check(s, ab == t.regs.abort, 'goes on')
        t.regs.frame(s, ['R0'])


class Node:
    """one record of a parsed grammar with its children, any number of them, each with its bitmap and usertype;
    navigation enters by the contract C18 proves"""

    def __init__(self, v, prod, end):
        self.v = v
        n = self.n = v.bv('records')
        v.assume(U(n, bv(1 << 31)))
        F = v.fun
        self.B, self.ut = F('bitmap', 64, 64), F('usertype', 64, 32)
        self.uid, self.ty, self.isz = F('ruleuid', 64, 32), F('type', 64, 32), F('inputsiz', 64, 64)
        self.cf, self.nx, self.pre, self.seen, self.at = F('ischild', 64, 8), F('next', 64, 64), F('before', 64, 64), F('reached', 64, 8), F('inputat', 64, 64)
        self.dec, self.k = F('decoded', 64, 32), F('bytes', 64, 32)
        self.inlen = v.bv('grammarsize')
        v.assume(U(self.inlen, bv(1 << 40)))
        self.inp = v.obj('grammar', self.inlen)
        self.a = Arr(v, 'records_array', RS(), maxn=1 << 31, len_=n, regions=[Region(0, RS(), {
            RS('type'): (4, lambda i: self.ty(i)), RS('ruleuid'): (4, lambda i: self.uid(i)), RS('usertype'): (4, lambda i: self.ut(i)), RS('userdata'): (8, lambda i: self.B(i)),
            O('rparecord_t', 'input'): (8, lambda i: Ptr(self.inp, self.at(i))), O('rparecord_t', 'inputsiz'): (8, lambda i: self.isz(i))})])
        self.rec, self.st = v.bv('rec'), v.bv('startrec')
        self.first, self.last, self.tot = v.bv('firstchild'), v.bv('lastchild'), v.bv('total')
        rec, st = self.rec, self.st
        v.assume(U(rec, n), ULE(st, rec), self.uid(rec) == (bv(C('RPA_PRODUCTION_' + prod), 32) if isinstance(prod, str) else prod))
        S, E_ = bv(C('RPA_RECORD_START'), 32), bv(C('RPA_RECORD_END'), 32)
        v.assume((self.ty(rec) & (S | E_)) == (E_ if end else S), st != rec if end else st == rec)
        # the text of the record lies in the grammar and is not empty
        v.assume(ULE(self.at(rec), self.inlen), ULE(bv(1), self.isz(rec)), ULE(self.isz(rec), self.inlen - self.at(rec)))
        self.dbex = v.obj('dbex', 8)
        self.bchar, self.echar = v.bv('beginchar', 32), v.bv('endchar', 32)
        self.bc = v.obj('compiler', BC(), cells={BC('dbex'): (8, Ptr(self.dbex)), BC('beginchar'): (4, self.bchar), BC('endchar'): (4, self.echar)})
        v.assume(Or(self.first == NONE, self.child(self.first)), Or(self.last == NONE, self.child(self.last)))
        v.assume((self.first == NONE) == (self.last == NONE))
        v.assume(self.facts(self.first), self.facts(self.last))
        v.noreplay = True
        for f in ('get', 'firstchild', 'lastchild', 'next', 'prev'):
            v.E.contracts['rpa_recordtree_' + f] = getattr(self, f)
        v.E.contracts['r_utf8_mbtowc'] = self.mbtowc

    def child(self, x):
        return self.cf(x) == 1

    def opt(self, x):
        return (self.ut(x) & bv(C('RPA_MATCH_OPTIONAL'), 32)) != 0

    def facts(self, x):
        """what holds for a child x: it is another record; before(next) adds its bitmap"""
        d = self.nx(x)
        lastone = d == NONE
        req = And(self.seen(x) == 1, Not(self.opt(x)))
        return Implies(self.child(x), And(U(x, self.n), x != self.rec, x != self.st, Or(lastone, And(self.child(d), self.pre(d) == self.pre(x) | self.B(x))),
                                          Or(lastone, (self.seen(d) == 1) == And(self.seen(x) == 1, self.opt(x))), self.ends(x, lastone, req)))

    def ends(self, x, lastone, req):
        return TRUE

    def get(self, E, s, a, i):
        E.prove(s, And(v_same(a[0], self), a[1] == self.rec), 'record asked for')
        w = z3.Extract(0, 0, a[2]) == 1
        end = (self.ty(self.rec) & bv(C('RPA_RECORD_END'), 32)) != 0
        e = self.v.bv('endrec')
        return [(s, z3.If(w, self.st, z3.If(end, self.rec, e)))]

    def side(self, E, s, a, x, of):
        E.prove(s, And(v_same(a[0], self), of(a[1]), zx(a[2]) == bv(C('RPA_RECORD_END'))), 'record asked for')
        s.assume(self.facts(x))
        return [(s, x)]

    def firstchild(self, E, s, a, i):
        return self.side(E, s, a, self.first, lambda x: x == self.rec)

    def lastchild(self, E, s, a, i):
        return self.side(E, s, a, self.last, lambda x: x == self.rec)

    def next(self, E, s, a, i):
        # after no record comes no record
        s.assume(self.facts(a[1]))
        d = z3.If(a[1] == NONE, NONE, self.nx(a[1]))
        r = self.side(E, s, a, d, lambda x: Or(x == NONE, self.child(x)))
        return r

    def prev(self, E, s, a, i):
        return NotImplemented

    def mbtowc(self, E, s, a, i):
        """C01: one character of 1 to 4 bytes, inside the text"""
        o, z = self.at(self.rec), self.isz(self.rec)
        E.prove(s, And(self.v.peq(a[1], Ptr(self.inp, o)), self.v.peq(a[2], Ptr(self.inp, o + z))), 'decodes the text of the record')
        k = self.k(o)
        s.assume(And(z3.UGE(k, bv(1, 32)), ULE(k, bv(4, 32))))
        E.store(s, a[0], 4, self.dec(o))
        return [(s, k)]

    @property
    def char(self):
        return self.dec(self.at(self.rec))

    def new(self, s, i, f='userdata', size=8):
        return self.a.new(s, i, O('rparecord_t', f), size)

    def call(self):
        v = self.v
        return v.call('rpa_bitmap_set', [self.a.p, self.rec, Ptr(self.bc)])

    def frame(self, s, bchar=None, echar=None, udonly=True):
        v, rec, st = self.v, self.rec, self.st
        W = v.witness('W')
        u = v.given(s, U(W, self.n))
        if u is not None:
            v.check(u, Or(W == rec, W == st, self.new(u, W) == self.B(W)), 'other bitmaps kept')
            for f, z, g in (('type', 4, self.ty), ('ruleuid', 4, self.uid), ('usertype', 4, self.ut), ('inputsiz', 8, self.isz)):
                v.check(u, self.new(u, W, f, z) == g(W), 'records kept')
            v.check(u, v.peq(v.rdp(u, self.a.ndata(u) + simp(W * bv(RS()) + O('rparecord_t', 'input'))), Ptr(self.inp, self.at(W))), 'records kept')
        v.check(s, self.a.nlen(s) == self.n, 'records kept')
        p = Ptr(self.bc)
        v.check(s, v.rd(s, p + BC('beginchar'), 4) == (self.bchar if bchar is None else bchar), 'range under construction')
        v.check(s, v.rd(s, p + BC('endchar'), 4) == (self.echar if echar is None else echar), 'range under construction')

    def result(self, s, want_, label, end):
        v = self.v
        v.check(s, self.new(s, self.rec) == want_, label)
        if end:
            v.check(s, self.new(s, self.st) == want_, 'both ends of the record carry the bitmap')


def v_same(p, t):
    return BoolV(isinstance(p, Ptr) and p.obj is t.a.obj)


ENDS = [(p, e) for p in ('CHAR', 'CLSCHAR', 'SPECIALCHAR', 'CLSNUM', 'AREF', 'CREF', 'HEX', 'DEC', 'NOTOP', 'MINOP', 'BEGINCHAR', 'ENDCHAR', 'other') for e in (True, False)]


@unit('C19', 'leaf', params=['%s-%s' % (p, 'end' if e else 'start') for p, e in ENDS], targets=['rpa_bitmap_set', 'rpa_bitmap_set_char', 'rpa_bitmap_set_clschar', 'rpa_bitmap_set_specialchar', 'rpa_bitmap_set_clsnum',
      'rpa_bitmap_set_ref', 'rpa_bitmap_set_long', 'rpa_bitmap_set_notop', 'rpa_bitmap_set_minop', 'rpa_bitmap_set_beginchar', 'rpa_bitmap_set_endchar', 'rpa_bitmap_set_startrec'])
def leaf(v, what):
    """the bitmap of a character, number, reference or negation holds every character it can start with"""
    p, e = what.split('-')
    end = e == 'end'
    if p == 'other':
        num_ = v.bv('production', 32)
        v.assume(And(*[num_ != bv(C('RPA_PRODUCTION_' + x), 32) for x in PROD]))
        t = Node(v, num_, end)
    else:
        t = Node(v, p, end)
    rec = t.rec
    old = t.B(rec)
    v.assume(U(t.isz(t.first), bv(1 << 32)))     # names are shorter than 4 GiB
    x = old
    kw = {}
    if p == 'CHAR' or p == 'CLSCHAR' and end:
        x = old | bit(t.char)
    elif p == 'SPECIALCHAR':
        c = t.char
        sp = c
        for k, q in (('t', 9), ('r', 13), ('n', 10)):
            sp = z3.If(c == bv(ord(k), 32), bv(q, 32), sp)
        x = z3.If(c == bv(ord('.'), 32), ALL, old | bit(sp))
    elif p == 'CLSNUM' and end:
        x = z3.If(t.first == NONE, old, old | bit(t.B(t.first)))
    elif p in ('AREF', 'CREF'):
        rid, rb = v.bv('rule'), v.bv('rulebitmap')
        v.E.contracts['rpa_dbex_lookup'] = lambda E, s, a, i: (E.prove(s, And(v.peq(a[0], Ptr(t.dbex)), v.peq(a[1], Ptr(t.inp, t.at(t.first)))), 'rule named'), E.prove(s, zx(a[2]) == t.isz(t.first), 'size of the name'), [(s, rid)])[2]
        v.E.contracts['rpa_dbex_getrulebitmap'] = lambda E, s, a, i: (E.prove(s, And(v.peq(a[0], Ptr(t.dbex)), a[1] == rid), 'bitmap of the rule named'), [(s, rb)])[1]
        if end:
            loop = (t.ut(rec) & bv(C('RPA_LOOP_PATH'), 32)) != 0
            x = z3.If(Or(loop, t.first == NONE, rid < 0), old, rb)
    elif p in ('HEX', 'DEC'):
        num32, okay = v.bv('number', 32), v.bv('isnumber', 32)

        def r2l(E, s, a, i):
            E.prove(s, v.peq(a[0], t.a.ndata(s) + simp(rec * bv(RS()))), 'number of this record')
            E.store(s, a[1], 4, num32)
            return [(s, okay)]
        v.E.contracts['rpa_record2long'] = r2l
        x = z3.If(okay < 0, old, zx(num32))
    elif p == 'NOTOP' and end:
        x = z3.If(t.first == NONE, old, ALL)
    elif p == 'MINOP' and end:
        x = z3.If(t.first == NONE, old, z3.If(t.opt(t.first), ALL, t.B(t.first)))
    elif p == 'BEGINCHAR' and end:
        kw = dict(bchar=t.char)
    elif p == 'ENDCHAR' and end:
        kw = dict(echar=t.char)
    elif p == 'other':
        x = ALL
    for s in t.call():
        t.result(s, x, 'first characters', end)
        t.frame(s, **kw)


@unit('C19', 'range', params=['chars-end', 'chars-start', 'numbers-end', 'numbers-start'], targets=['rpa_bitmap_set', 'rpa_bitmap_set_range', 'rpa_bitmap_set_numrng'])
def range_(v, what):
    """the bitmap of a range holds every character of the range, whichever end is given first"""
    p, e = what.split('-')
    end = e == 'end'
    t = Node(v, 'CHARRNG' if p == 'chars' else 'NUMRNG', end)
    old = t.B(t.rec)
    kw = {}
    if p == 'chars':
        a, b, have = zx(t.bchar), zx(t.echar), BoolV(end)
        if not end:
            kw = dict(bchar=bv(0, 32), echar=bv(0, 32))
    else:
        a, b, have = t.B(t.first), t.B(t.last), And(BoolV(end), t.first != NONE)
        v.assume(U(a, bv(1 << 32)), U(b, bv(1 << 32)))
    lo, hi = z3.If(ULE(a, b), a, b), z3.If(ULE(a, b), b, a)

    v.E.symcells = True
    q = v.bv('character')
    inr = And(ULE(lo, q), ULE(q, hi))

    def hint(L):
        def cands(vw):
            out = []
            xs = [x for _, x in vw.ints(64)]
            for x in xs:
                out += [ULE(lo, x), ULE(x - lo, bv(64)), ULE(x, hi + 1), (x & old) == old]
                for y in xs:
                    if y is not x:
                        out.append(Implies(U((q - lo) & 63, x - lo), z3.Extract(0, 0, z3.LShR(y, q & 63)) == 1))
            return out
        L.cands.append(cands)
    v.E.loop_specs['*'] = hint
    for s in t.call():
        x = t.new(s, t.rec)
        v.check(s, Implies(And(have, inr), z3.Extract(0, 0, z3.LShR(x, q & 63)) == 1), 'every character of the range is in')
        v.check(s, (x & old) == old, 'nothing already there is lost')
        v.check(s, Implies(Not(have), x == old), 'nothing yet')
        if end:
            v.check(s, t.new(s, t.st) == x, 'both ends of the record carry the bitmap')
        t.frame(s, **kw)


class Seq(Node):
    """required: only the children up to the first one that is required count; when there is none, every character does"""

    def ends(self, x, lastone, req):
        return And(Implies(req, self.tot == self.pre(x) | self.B(x)), Implies(And(self.seen(x) == 1, Not(req), lastone), self.tot == ALL))


class Un(Node):
    def ends(self, x, lastone, req):
        return Implies(lastone, self.tot == self.pre(x) | self.B(x))


@unit('C19', 'combine', params=['%s-%s' % (p, e) for p in SEQ + UNION for e in ('end', 'start')], targets=['rpa_bitmap_set', 'rpa_bitmap_set_cls', 'rpa_bitmap_set_namedrule', 'rpa_bitmap_set_expression', 'rpa_bitmap_set_orop'])
def combine(v, what):
    """the bitmap of a choice is the union of its parts; that of a sequence the union up to the first required part"""
    p, e = what.split('-')
    end = e == 'end'
    t = (Seq if p in SEQ else Un)(v, p, end)
    rec, old = t.rec, t.B(t.rec)
    f = t.first
    if p == 'NAMEDRULE':      # its first child is the name
        v.assume(Implies(f != NONE, t.facts(f)))
        f = z3.If(t.first == NONE, NONE, t.nx(t.first))
        v.assume(t.facts(f))
    v.assume(Implies(f != NONE, And(t.pre(f) == 0, t.seen(f) == 1)), Implies(f == NONE, t.tot == (ALL if p in SEQ else bv(0))))
    v.E.symcells = True

    def hint(L):
        def head(h, vals, k):
            for x in vals.values():
                if isinstance(x, z3.BitVecRef) and x.size() == 64:
                    h.assume(t.facts(x))
        L.custom_head = head

        def cands(vw):
            out = []
            xs = [x for _, x in vw.ints(64)]
            for x in xs:
                out += [Or(x == NONE, t.child(x)), Or(x == NONE, t.seen(x) == 1), Implies(x == NONE, t.tot == ALL)]
                for y in xs:
                    if y is not x:
                        out += [Implies(x != NONE, y == old | t.pre(x)), Implies(x == NONE, y == old | t.tot)]
            return out
        L.cands.append(cands)
    v.E.loop_specs['*'] = hint
    for s in t.call():
        t.result(s, (old | t.tot) if end else old, 'union of the parts' if p in UNION else 'union up to the first required part', end)
        t.frame(s)
