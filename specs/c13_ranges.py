from .common import *

HX = 'rtypes.h rex/rextransition.h'
want(HX, 'rex_transition_t', ['type', 'lowin', 'highin', 'srcuid', 'dstuid'])
want(HX, None, ['REX_TRANSITION_INPUT', 'REX_TRANSITION_EMPTY'])
TR = lambda f=None: O('rex_transition_t', f)
C = O.c
MAXC = bv(0xffffffff, 32)


class Ranges:
    """a list of any length of ranges sorted by lower bound (gap: disjoint and not adjacent either); w: the number of
    ranges that begin at or below the character tracked"""

    def __init__(self, v, c, gap=False, name='trans', dst=None):
        self.v, self.c, self.gap = v, c, gap
        self.low, self.high = v.fun(name + '_low', 64, 32), v.fun(name + '_high', 64, 32)
        src, dst, ty = v.fun(name + '_src', 64, 64), v.fun(name + '_dst', 64, 64), v.fun(name + '_type', 64, 32)
        self.n = v.bv(name + '_count')
        v.assume(U(self.n, bv(1 << 31)))
        self.a = Arr(v, name, TR(), maxn=1 << 32, len_=self.n, regions=[Region(0, TR(), {
            TR('lowin'): (4, lambda i: self.low(i)), TR('highin'): (4, lambda i: self.high(i)), TR('type'): (4, lambda i: ty(i)),
            TR('srcuid'): (8, lambda i: src(i)), TR('dstuid'): (8, lambda i: dst(i))})])
        self.w = v.bv(name + '_begun')
        v.assume(ULE(self.w, self.n))
        v.noreplay = True

    def at(self, *xs):
        """sortedness, at the indices given"""
        r = []
        for x in xs:
            ok = U(x, self.n)
            r += [Implies(ok, (U(x, self.w)) == ULE(self.low(x), self.c)), Implies(ok, ULE(self.low(x), self.high(x)))]
            if self.gap:
                # sorted, disjoint and not adjacent
                y = x + 1
                r += [Implies(And(ok, U(y, self.n)), And(self.high(x) != MAXC, U(self.high(x) + 1, self.low(y))))]
                r += [Implies(And(ok, U(x, self.w), x + 1 != self.w), U(self.high(x), self.c))]
        return And(*r)

    def covers(self, x):
        return And(U(x, self.n), ULE(self.low(x), self.c), ULE(self.c, self.high(x)))

    def covered(self):
        """with gap: the last range that begins at or below the character decides"""
        return And(self.w != 0, ULE(self.c, self.high(self.w - 1)))


def search_hint(r):
    def hint(L):
        def head(h, vals, k):
            xs = [x for x in vals.values() if isinstance(x, z3.BitVecRef) and x.size() == 64]
            for x in xs:
                h.assume(r.at(x, x - 1))
                for y in xs:
                    h.assume(r.at(z3.LShR(x + y, 1), x + z3.LShR(y - x, 1)))
        L.custom_head = head

        def cands(vw):
            out = []
            for _, x in vw.ints(64):
                out += [ULE(x, r.w), ULE(r.w, x), ULE(x, r.n)]
            return out
        L.cands.append(cands)
    return hint


@unit('C13', 'find', targets=['rex_transitions_find'])
def find(v):
    """the range that holds the character, or nothing when none does"""
    c = v.bv('char', 32)
    r = Ranges(v, c, gap=True)
    v.E.loop_specs['*'] = search_hint(r)
    v.assume(r.at(bv(0), r.w, r.w - 1, r.n - 1))
    for s in v.call('rex_transitions_find', [r.a.p, c]):
        if isinstance(s.ret, Ptr):
            v.check(s, And(BoolV(s.ret.obj is r.a.data), r.covered(), s.ret.off == (r.w - 1) * bv(TR())), 'the range holding the character')
        else:
            v.check(s, And(s.ret == 0, Not(r.covered())), 'nothing only when no range holds the character')
        v.check(s, r.a.nlen(s) == r.n, 'list unchanged')


@unit('C13', 'add', targets=['rex_transitions_add'])
def add(v):
    """the range asked for, bounds in either order, goes where the list stays sorted"""
    c1, c2, src, dst = v.bv('c1', 32), v.bv('c2', 32), v.bv('srcuid'), v.bv('dstuid')
    lo, hi = z3.If(ULE(c1, c2), c1, c2), z3.If(ULE(c1, c2), c2, c1)
    r = Ranges(v, lo)
    v.E.loop_specs['*'] = search_hint(r)
    v.assume(r.at(r.w, r.w - 1))
    g = v.obj('inserted', 8, cells={0: (8, bv(0))})

    def insert(E, s, a, i):
        E.prove(s, BoolV(isinstance(a[0], Ptr) and a[0].obj is r.a.obj), 'same-list')
        k = a[1]
        s.assume(r.at(k, k - 1))
        f = lambda x, n=8: E.rd(s, a[2] + TR(x), n)
        E.prove(s, ULE(k, r.n), 'goes inside the list')
        E.prove(s, Implies(k != 0, ULE(r.low(k - 1), lo)), 'not after a range that begins later')
        E.prove(s, Implies(U(k, r.n), ULE(lo, r.low(k))), 'not before a range that begins earlier')
        E.prove(s, And(f('lowin', 4) == lo, f('highin', 4) == hi), 'the characters asked for')
        E.prove(s, And(f('srcuid') == src, f('dstuid') == dst, f('type', 4) == bv(C('REX_TRANSITION_INPUT'), 32)), 'between the states asked for')
        E.store(s, Ptr(g), 8, E.rd(s, Ptr(g), 8) + 1)
        E.store(s, r.a.p + O('rarray_t', 'len'), 8, r.n + 1)
        return [(s, k)]
    v.E.contracts['r_array_insert'] = insert
    for s in v.call('rex_transitions_add', [r.a.p, c1, c2, src, dst]):
        v.check(s, v.rd(s, Ptr(g)) == 1, 'one range more')
        v.check(s, BoolV(isinstance(s.ret, Ptr) and s.ret.obj is r.a.data), 'the new range')


@unit('C13', 'negative', targets=['rex_transitions_negative'])
def negative(v):
    """exactly the characters no range holds are added"""
    c, src, dst = v.bv('char', 32), v.bv('srcuid'), v.bv('dstuid')
    r = Ranges(v, c, gap=True)
    d = v.obj('result', O('rarray_t'))
    before = v.bv('before', 8)
    g = v.obj('held', 1, cells={0: (1, before)})
    v.assume(ULE(before, bv(1, 8)), r.at(bv(0), r.w, r.w - 1, r.n - 1))

    def radd(E, s, a, i):
        E.prove(s, BoolV(isinstance(a[0], Ptr) and a[0].obj is d), 'adds to the result')
        E.prove(s, ULE(a[1], a[2]), 'bounds in order')
        E.prove(s, And(a[3] == src, a[4] == dst), 'between the states asked for')
        E.store(s, Ptr(g), 1, z3.If(And(ULE(a[1], c), ULE(c, a[2])), bv(1, 8), E.rd(s, Ptr(g), 1)))
        return [(s, bv(0))]
    v.E.contracts['rex_transitions_add'] = radd

    def want_(i):
        return z3.If(Or(before == 1, And(Not(r.covered()), Or(U(r.w, i), i == r.n))), bv(1, 8), bv(0, 8))

    def hint(L):
        def head(h, vals, k):
            h.assume(r.at(k, k - 1, r.w, r.w - 1))
            for x in vals.values():
                if isinstance(x, z3.BitVecRef) and x.size() == 64:
                    h.assume(r.at(x, x - 1))
        L.custom_head = head
        L.cands.append(lambda vw: [vw.rd(Ptr(g), 1) == want_(x) for _, x in vw.ints(64)] + [vw.rd(Ptr(g), 1) == want_(vw.k)] + [ULE(x, r.n) for _, x in vw.ints(64)])
    v.E.loop_specs['*'] = hint
    for s in v.call('rex_transitions_negative', [Ptr(d), r.a.p, src, dst]):
        v.check(s, v.rd(s, Ptr(g), 1) == z3.If(Or(before == 1, Not(r.covered())), bv(1, 8), bv(0, 8)), 'exactly the characters no range holds')
        v.check(s, r.a.nlen(s) == r.n, 'list unchanged')
