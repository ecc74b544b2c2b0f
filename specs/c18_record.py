from .common import *

HR = 'rtypes.h rlib/rarray.h rpa/rparecord.h'
want(HR, 'rparecord_t', ['type', 'ruleuid', 'usertype', 'ruleid', 'userdata'])
want(HR, None, ['RPA_RECORD_START', 'RPA_RECORD_END', 'RVALSET_OR', 'RVALSET_XOR', 'RVALSET_AND'])
RS = lambda f=None: O('rparecord_t', f)
NONE = bv((1 << 64) - 1)
HN = 6


class Tree:
    """any well-nested sequence of n start/end records.  D(i): depth before record i; mate(i): the record
    that closes or opens i, the nearest one at which the depth is back."""

    def __init__(self, v, maxn=1 << 31):
        self.v = v
        n = self.n = v.bv('records')
        v.assume(U(n, bv(maxn)))
        v.small(n, HN)
        self.sf, self.rest, self.D, self.mf = v.fun('isstart', 64, 32), v.fun('otherbits', 64, 32), v.fun('depth', 64, 64), v.fun('mate', 64, 64)
        self.uid, self.ut = v.fun('ruleuid', 64, 32), v.fun('usertype', 64, 32)
        ty = lambda i: (self.rest(i) & bv(0xfffffffc, 32)) | z3.If(self.S(i), bv(1, 32), bv(2, 32))
        self.a = Arr(v, 'records_array', RS(), maxn=maxn, len_=n, regions=[Region(0, RS(), {
            RS('type'): (4, ty), RS('ruleuid'): (4, lambda i: self.uid(i)), RS('usertype'): (4, lambda i: self.ut(i))})])
        self.p = self.a.p
        v.assume(self.D(bv(0)) == 0, self.D(n) == 0)
        if v.mode in ('hunt', 'concrete'):
            for i in range(HN):
                v.assume(Implies(U(bv(i), n), And(*self.facts(bv(i), *[bv(j) for j in range(1, HN + 1)]))))

    def S(self, i):
        return self.sf(i) == 1

    def mate(self, i):
        return self.mf(i)

    def lo(self, i):
        return z3.If(self.S(i), i, self.mate(i))

    def hi(self, i):
        return z3.If(self.S(i), self.mate(i), i)

    def facts(self, i, *js):
        """well-nestedness, instance for record i (and, between it and its mate, for the positions js)"""
        m, lo, hi, D = self.mate(i), self.lo(i), self.hi(i), self.D
        r = [D(i + 1) == z3.If(self.S(i), D(i) + 1, D(i) - 1), Or(self.S(i), D(i) >= 1), ULE(D(i), i), U(D(i + 1), bv(1 << 32)),
             U(m, self.n), self.S(m) != self.S(i), self.mate(m) == i, U(lo, hi), D(hi + 1) == D(lo)]
        for j in js:
            r.append(Implies(And(U(lo, j), ULE(j, hi)), D(j) > D(lo)))
        return r

    def inst(self, i, *js):
        return Implies(U(i, self.n), And(*self.facts(i, *js)))

    def pick(self, i, ty):
        return z3.If(ty & bv(1) == 1, self.lo(i), self.hi(i))

    # contract of rpa_recordtree_get, proved by the unit 'get'
    def get_contract(self, E, s, a, ins):
        arr, i, ty = a
        E.prove(s, BoolV(isinstance(arr, Ptr) and arr.obj is self.a.obj), 'same-records')
        s.assume(self.inst(i, i + 1))
        s.assume(self.inst(self.mate(i)))
        for d in (1, -1):
            for x in (self.hi(i), self.lo(i)):
                s.assume(self.inst(x + bv(d % (1 << 64))))
        return [(s, z3.If(U(i, self.n), self.pick(i, ty), NONE))]


def setup(v, contract=True):
    t = Tree(v)
    rec, ty = v.bv('rec'), v.bv('type')
    v.small(rec, HN + 1)
    v.assume(t.inst(rec, rec + 1), t.inst(t.mate(rec)))
    if contract and v.mode == 'prove':
        v.E.contracts['rpa_recordtree_get'] = t.get_contract
    return t, rec, ty


def same(v, t, s):
    W = v.witness('W')
    u = v.given(s, U(W, t.n))
    if u is not None:
        for c in range(0, RS(), 8):
            v.check(u, t.a.new(u, W, c, 8) == t.a.old(W, c, 8), 'records unchanged')
    v.check(s, t.a.nlen(s) == t.n, 'records unchanged')


@unit('C18', 'get', targets=['rpa_recordtree_get'])
def get(v):
    """start or end of the record: the record itself or its mate"""
    t, rec, ty = setup(v, False)

    def hint(L):
        L.no_auto = True

        def head(h, vals, k):
            for x in vals.values():
                if isinstance(x, z3.BitVecRef) and x.size() == 64:
                    h.assume(t.inst(x))
                    h.assume(Implies(U(rec, t.n), And(*t.facts(rec, x, x + 1))))
        L.custom_head = head

        def cands(vw):
            out = []
            xs = [x for _, x in vw.ints(64)]
            for x in xs:
                out += [ULE(x, t.hi(rec)), ULE(t.lo(rec), x)]
                for y in xs:
                    if y is not x:
                        out += [y == t.D(x) - t.D(rec), y == t.D(rec + 1) - t.D(x + 1)]
            return out
        L.cands.append(cands)
    v.E.loop_specs['*'] = hint
    for s in v.call('rpa_recordtree_get', [t.p, rec, ty]):
        v.check(s, s.ret == z3.If(U(rec, t.n), t.pick(rec, ty), NONE), 'start or end of the record')
        same(v, t, s)


def child_of(t, rec, which):
    """-> (exists, a record of the one asked for)"""
    lo, hi = t.lo(rec), t.hi(rec)
    ok = U(rec, t.n)
    if which == 'firstchild':
        return And(ok, t.S(lo + 1)), lo + 1
    if which == 'lastchild':
        return And(ok, Not(t.S(hi - 1))), hi - 1
    if which == 'next':
        return And(ok, U(hi + 1, t.n), t.S(hi + 1)), hi + 1
    return And(ok, lo != 0, Not(t.S(lo - 1))), lo - 1


@unit('C18', 'navigate', params=['firstchild', 'lastchild', 'next', 'prev'], targets=['rpa_recordtree_firstchild', 'rpa_recordtree_lastchild', 'rpa_recordtree_next', 'rpa_recordtree_prev'])
def navigate(v, which):
    t, rec, ty = setup(v)
    ex, r = child_of(t, rec, which)
    v.assume(t.inst(r), t.inst(t.mate(r)))
    for s in v.call('rpa_recordtree_' + which, [t.p, rec, ty]):
        v.check(s, s.ret == z3.If(ex, t.pick(r, ty), NONE), which + ' or nothing')
        same(v, t, s)


@unit('C18', 'parent', targets=['rpa_recordtree_parent'], timeout=700)
def parent(v):
    """the record enclosing this one: its end is the nearest later position where the depth drops below this record's"""
    v.E.hou_ms = 10000
    t, rec, ty = setup(v)
    D, n = t.D, t.n
    d = D(t.lo(rec))
    K = v.bv('K')
    v.small(K, HN)
    v.assume(Implies(And(U(rec, n), d != 0), And(U(t.hi(rec), K), U(K, n), Not(t.S(K)), D(K + 1) == d - 1)), t.inst(K))

    def kin(j):
        return Implies(And(U(rec, n), d != 0, U(t.hi(rec), j), ULE(j, K)), D(j) >= d)
    if v.mode in ('hunt', 'concrete'):
        for j in range(HN + 1):
            v.assume(kin(bv(j)))

    def good(x):
        return And(U(x, n), D(t.lo(x)) == d, Or(d == 0, U(t.hi(x), K)), ULE(t.hi(rec), t.hi(x)))

    def last(x):
        return And(U(x, n), Not(t.S(x)), D(x + 1) == d, Or(d == 0, U(x, K)), ULE(t.hi(rec), x), Or(x + 1 == n, Not(t.S(x + 1))))

    def axioms(s, x):
        m = t.hi(x)
        s.assume(t.inst(x, K + 1, K))
        s.assume(t.inst(m))
        for j in (m, m + 1):
            s.assume(t.inst(j, K + 1, K))
            s.assume(t.inst(t.mate(j)))
        for j in (x + 1, m + 1, m + 2, t.mate(m + 1), t.mate(m + 1) + 1):
            s.assume(kin(j))

    def hint(L):
        L.no_auto = True

        def head(h, vals, k):
            for x in vals.values():
                if isinstance(x, z3.BitVecRef) and x.size() == 64:
                    axioms(h, x)
        L.custom_head = head

        def cands(vw):
            xs = [x for _, x in vw.ints(64)]
            return [z3.If(x == NONE, last(y), good(x)) for x in xs for y in xs if y is not x] + [good(x) for x in xs] + [Or(x == NONE, good(x)) for x in xs]
        L.cands.append(cands)
    v.E.loop_specs['*'] = hint
    if v.mode == 'prove':
        axioms(v.s, rec)
    for s in v.call('rpa_recordtree_parent', [t.p, rec, ty]):
        v.check(s, s.ret == z3.If(And(U(rec, n), d != 0), t.pick(K, ty), NONE), 'enclosing record or nothing')
        same(v, t, s)


@unit('C18', 'size', targets=['rpa_recordtree_size'])
def size(v):
    t, rec, ty = setup(v)
    for s in v.call('rpa_recordtree_size', [t.p, rec]):
        v.check(s, s.ret == z3.If(U(rec, t.n), t.hi(rec) - t.lo(rec) + 1, NONE), 'records from start to end')
        same(v, t, s)


@unit('C18', 'record', targets=['rpa_record_get'])
def record(v):
    t, rec, ty = setup(v)
    for s in v.call('rpa_record_get', [t.p, rec]):
        u = v.given(s, U(rec, t.n))
        if u is not None:
            v.check(u, v.peq(s.ret, Ptr(t.a.data, rec * bv(RS()))), 'the record')
        u = v.given(s, z3.UGE(rec, t.n))
        if u is not None:
            v.check(u, v.is_null(s.ret), 'nothing outside the sequence')


@unit('C18', 'attributes', params=['getruleuid', 'getusertype'], targets=['rpa_record_getruleuid', 'rpa_record_getusertype'])
def attributes(v, which):
    """the attribute of the record's start, or nothing outside the sequence"""
    t, rec, ty = setup(v)
    f = t.uid if which == 'getruleuid' else t.ut
    for s in v.call('rpa_record_' + which, [t.p, rec]):
        v.check(s, s.ret == z3.If(U(rec, t.n), zx(f(t.lo(rec))), NONE), 'attribute of the start record')
        same(v, t, s)


@unit('C18', 'setusertype', params=['RVALSET_OR', 'RVALSET_XOR', 'RVALSET_AND', 'set'], targets=['rpa_record_setusertype', 'rpa_recordptr_setusertype'])
def setusertype(v, op):
    """both ends of the record take the new type, nothing else changes"""
    t, rec, ty = setup(v)
    val = v.bv('value', 32)
    W = v.witness('W')
    o = bv(O.c(op), 32) if op != 'set' else v.bv('op', 32)
    if op == 'set':
        v.assume(*[o != bv(O.c(x), 32) for x in ('RVALSET_OR', 'RVALSET_XOR', 'RVALSET_AND')])
    fn = {'RVALSET_OR': lambda x: x | val, 'RVALSET_XOR': lambda x: x ^ val, 'RVALSET_AND': lambda x: x & val, 'set': lambda x: val}[op]
    for s in v.call('rpa_record_setusertype', [t.p, rec, val, o]):
        u = v.given(s, U(W, t.n))
        if u is None:
            continue
        hit = And(U(rec, t.n), Or(W == rec, W == t.mate(rec)))
        v.check(u, t.a.new(u, W, RS('usertype'), 4) == z3.If(hit, fn(t.ut(W)), t.ut(W)), 'user type of both ends')
        for c in range(0, RS(), 4):
            if c != RS('usertype'):
                v.check(u, t.a.new(u, W, c, 4) == t.a.old(W, c, 4), 'nothing else changes')


@unit('C18', 'copy', targets=['rpa_recordtree_copy'])
def copy(v):
    """the records from the start to the end of the subtree are appended in order"""
    v.noreplay = True
    t, rec, ty = setup(v)
    dl = v.bv('dstlen')
    v.assume(U(dl, bv(1 << 31)))
    dst = v.obj('dst', O('rarray_t'), cells={O('rarray_t', 'len'): (8, dl)})
    LEN = Ptr(dst, bv(O('rarray_t', 'len')))

    def add(E, s, a, ins):
        # contract (C02): the element pointed to becomes the last one
        ok = isinstance(a[0], Ptr) and a[0].obj is dst and isinstance(a[1], Ptr) and a[1].obj is t.a.data
        E.prove(s, BoolV(ok), 'appends a record of the source')
        if not ok:
            raise PathDead()
        l = E.rd(s, LEN, 8)
        E.prove(s, a[1].off == (t.lo(rec) + l - dl) * bv(RS()), 'the next record of the subtree is appended')
        E.store(s, LEN, 8, l + 1)
        return [(s, l)]
    v.E.contracts['r_array_add'] = add
    for s in v.call('rpa_recordtree_copy', [Ptr(dst), t.p, rec]):
        sz = t.hi(rec) - t.lo(rec) + 1
        v.check(s, v.rd(s, LEN) - dl == z3.If(U(rec, t.n), sz, bv(0)), 'all records of the subtree')
        v.check(s, s.ret == z3.If(U(rec, t.n), sz, NONE), 'number of records')
        same(v, t, s)


@unit('C18', 'move', targets=['rpa_recordtree_move'], timeout=700)
def move(v):
    """overlapping moves in both directions copy the old records"""
    t = Tree(v)
    W = v.witness('W')
    dst, src, n = v.bv('dst'), v.bv('src'), v.bv('n')
    v.assume(U(dst, bv(1 << 32)), U(src, bv(1 << 32)), U(n, bv(1 << 32)), ULE(src + n, t.n))
    for x in (dst, src, n):
        v.small(x, HN)
    ok = ULE(dst + n, t.n)
    for s in v.call('rpa_recordtree_move', [t.p, dst, src, n]):
        v.check(s, s.ret == z3.If(ok, bv(0, 32), bv(0xffffffff, 32)), 'result')
        u = v.given(s, U(W, t.n))
        if u:
            hit = And(ok, ULE(dst, W), U(W, dst + n))
            for c in range(0, RS(), 8):
                v.check(u, t.a.new(u, W, c, 8) == z3.If(hit, t.a.old(W - dst + src, c, 8), t.a.old(W, c, 8)), 'records')
