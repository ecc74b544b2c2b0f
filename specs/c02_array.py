from .common import *

ES = [1, 4, 8, 16, 24]


def datum(v, es):
    d = v.obj('datum', es)
    return d


def arr_case(v, es):
    a = Arr(v, 'array', es)
    W = v.witness('W')
    b = v.bv('B')
    v.assume(U(b, bv(es)))
    return a, W, b


@unit('C02', 'insert', params=ES, targets=['r_array_insert', 'r_array_check_resize', 'r_array_setlength', 'r_array_exist_replace'])
def insert(v, es):
    """insert shifts the tail up by one; positions past the end extend the array"""
    a, W, b = arr_case(v, es)
    d = datum(v, es)
    idx = v.bv('index')
    v.assume(U(idx, bv(MAXN)))
    v.small(idx, 6)
    for s in v.call('r_array_insert', [a.p, idx, Ptr(d)]):
        v.check(s, s.ret == idx, 'returns the index')
        nl = z3.If(U(idx, a.len), a.len + 1, idx + 1)
        v.check(s, a.nlen(s) == nl, 'length')
        a.wf(s)
        t = v.given(s, U(W, nl), Or(U(W, a.len + 1), W == idx), Or(U(idx, a.len), U(W, a.len), W == idx))
        if t:
            want_ = z3.If(W == idx, v.E.rd(v.s, Ptr(d, b), 1), z3.If(U(W, idx), a.old(W, b), a.old(W - 1, b)))
            v.check(t, a.new(t, W, b) == want_, 'elements')


@unit('C02', 'insert-null', params=ES, targets=['r_array_insert'])
def insert_null(v, es):
    a, W, b = arr_case(v, es)
    idx = v.bv('index')
    v.assume(U(idx, bv(MAXN)))
    v.small(idx, 6)
    for s in v.call('r_array_insert', [a.p, idx, bv(0)]):
        nl = z3.If(U(idx, a.len), a.len + 1, idx + 1)
        v.check(s, a.nlen(s) == nl, 'length')
        a.wf(s)
        t = v.given(s, U(W, nl), Or(U(idx, a.len), U(W, a.len), W == idx))
        if t:
            want_ = z3.If(W == idx, bv(0, 8), z3.If(U(W, idx), a.old(W, b), a.old(W - 1, b)))
            v.check(t, a.new(t, W, b) == want_, 'elements')


@unit('C02', 'add', params=ES, targets=['r_array_add'])
def add(v, es):
    a, W, b = arr_case(v, es)
    d = datum(v, es)
    for s in v.call('r_array_add', [a.p, Ptr(d)]):
        v.check(s, s.ret == a.len, 'returns the index of the new element')
        v.check(s, a.nlen(s) == a.len + 1, 'length')
        a.wf(s)
        t = v.given(s, ULE(W, a.len))
        if t:
            v.check(t, a.new(t, W, b) == z3.If(W == a.len, v.E.rd(v.s, Ptr(d, b), 1), a.old(W, b)), 'elements')


@unit('C02', 'replace', params=ES, targets=['r_array_replace'])
def replace(v, es):
    a, W, b = arr_case(v, es)
    d = datum(v, es)
    idx = v.bv('index')
    v.assume(U(idx, bv(MAXN)))
    v.small(idx, 6)
    for s in v.call('r_array_replace', [a.p, idx, Ptr(d)]):
        nl = z3.If(U(idx, a.len), a.len, idx + 1)
        v.check(s, And(s.ret == idx, a.nlen(s) == nl), 'length')
        a.wf(s)
        t = v.given(s, Or(U(W, a.len), W == idx))
        if t:
            v.check(t, a.new(t, W, b) == z3.If(W == idx, v.E.rd(v.s, Ptr(d, b), 1), a.old(W, b)), 'elements')


@unit('C02', 'delete', params=ES, targets=['r_array_delete', 'r_array_move', 'r_array_removelast'])
def delete(v, es):
    a, W, b = arr_case(v, es)
    idx = v.bv('index')
    v.small(idx, 6)
    for s in v.call('r_array_delete', [a.p, idx]):
        nl = z3.If(U(idx, a.len), a.len - 1, a.len)
        v.check(s, a.nlen(s) == nl, 'length')
        a.wf(s)
        t = v.given(s, U(W, nl))
        if t:
            v.check(t, a.new(t, W, b) == z3.If(U(W, idx), a.old(W, b), z3.If(U(idx, a.len), a.old(W + 1, b), a.old(W, b))), 'elements')


@unit('C02', 'setlength', params=ES, targets=['r_array_setlength', 'r_array_expand', 'r_array_slot_expand', 'r_array_removelast'])
def setlength(v, es):
    a, W, b = arr_case(v, es)
    n = v.bv('n')
    v.assume(U(n, bv(MAXN)))
    v.small(n, 6)
    for s in v.call('r_array_setlength', [a.p, n]):
        v.check(s, And(s.ret == n, a.nlen(s) == n), 'length')
        a.wf(s)
        t = v.given(s, U(W, n), U(W, a.len))
        if t:
            v.check(t, a.new(t, W, b) == a.old(W, b), 'elements kept')


@unit('C02', 'move', params=[1, 8], more=[4, 16, 24], targets=['r_array_move'])
def move(v, es):
    """overlapping moves in both directions copy the old elements; nothing outside the destination changes"""
    a, W, b = arr_case(v, es)
    dst, src, n = v.bv('dst'), v.bv('src'), v.bv('n')
    v.assume(U(dst, bv(MAXN)), U(src, bv(MAXN)), U(n, bv(MAXN)), ULE(src + n, a.len))
    for x in (dst, src, n):
        v.small(x, 6)
    ok = ULE(dst + n, a.len)
    for s in v.call('r_array_move', [a.p, dst, src, n]):
        v.check(s, s.ret == z3.If(ok, bv(0, 32), bv(0xffffffff, 32)), 'result')
        v.check(s, a.nlen(s) == a.len, 'length')
        a.wf(s)
        t = v.given(s, U(W, a.len))
        if t:
            hit = And(ok, ULE(dst, W), U(W, dst + n))
            w = min(es, 8)
            for c in range(0, es, w):
                v.check(t, a.new(t, W, c, w) == z3.If(hit, a.old(W - dst + src, c, w), a.old(W, c, w)), 'elements')


def grown(v, es, fn, args, need):
    """storage gained by growing is zeroed, element storage already there is kept"""
    a, W, b = arr_case(v, es)
    n = v.bv('n')
    v.assume(U(n, bv(MAXN)))
    v.small(n, 6)
    nd = need(a, n)
    for s in v.call(fn, args(a, n)):
        v.check(s, And(z3.UGE(a.nalloc(s), nd), z3.UGE(a.nalloc(s), a.alloc)), 'room')
        a.wf(s)
        t = v.given(s, U(W, a.nalloc(s)))
        if t:
            v.check(t, a.new(t, W, b) == z3.If(U(W, a.alloc), a.old(W, b), bv(0, 8)), 'storage kept, growth zeroed')
            v.check(t, a.nlen(t) == (n if fn == 'r_array_setlength' else a.len), 'length')
        if fn == 'r_array_slot_expand':
            v.check(s, v.peq(s.ret, a.ndata(s) + simp(n * bv(es))), 'slot address')


@unit('C02', 'grow-setlength', params=ES, targets=['r_array_setlength', 'r_array_check_resize'])
def grow_setlength(v, es):
    grown(v, es, 'r_array_setlength', lambda a, n: [a.p, n], lambda a, n: n)


@unit('C02', 'grow-slot', params=ES, targets=['r_array_slot_expand', 'r_array_check_resize'])
def grow_slot(v, es):
    grown(v, es, 'r_array_slot_expand', lambda a, n: [a.p, n], lambda a, n: n + 1)


@unit('C02', 'grow-expand', params=ES, targets=['r_array_expand', 'r_array_check_resize'])
def grow_expand(v, es):
    grown(v, es, 'r_array_expand', lambda a, n: [a.p, n], lambda a, n: a.len + n)


@unit('C02', 'removelast', params=[8], targets=['r_array_removelast'])
def removelast(v, es):
    a, W, b = arr_case(v, es)
    for s in v.call('r_array_removelast', [a.p]):
        v.check(s, a.nlen(s) == z3.If(a.len == 0, a.len, a.len - 1), 'length')
        a.wf(s)
        t = v.given(s, U(W, a.nlen(s)))
        if t:
            v.check(t, a.new(t, W, b) == a.old(W, b), 'elements kept')
