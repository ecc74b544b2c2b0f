from .common import *

HF = 'rtypes.h rlib/rref.h rlib/robject.h'
want(HF, 'rref_t', ['obj', 'count', 'type', 'lock'])
want(HF, 'robject_t', ['lnk', 'type', 'size', 'cleanup', 'copy', 'gc', 'gprops', 'lprops'])
want(HF, 'rlink_t', ['next', 'prev'])
want(HF, None, ['R_OBJECT_REF', '(int)RREF_TYPE_SHARED'])
RF = lambda f=None: O('rref_t', f)
OB = lambda f=None: O('robject_t', f)
MAXB = bv(1 << 40)
ALLOC = ('r_malloc', 'r_zmalloc', 'r_calloc', 'r_realloc', 'r_free')


def locks(v):
    """the spin lock, sequentially: never taken twice, released only when held"""
    g = v.obj('lockstate', 8, cells={0: (8, bv(0))})

    def lock(E, s, a, i):
        E.prove(s, E.rd(s, Ptr(g), 8) == 0, 'lock taken only when free')
        E.store(s, Ptr(g), 8, bv(1))
        return [(s, None)]

    def unlock(E, s, a, i):
        E.prove(s, E.rd(s, Ptr(g), 8) == 1, 'lock released only when held')
        E.store(s, Ptr(g), 8, bv(0))
        return [(s, None)]
    v.E.contracts['r_spinlock_lock'] = lock
    v.E.contracts['r_spinlock_unlock'] = unlock
    return lambda s: v.rd(s, Ptr(g))


class Heap:
    """the accounting allocator after any amount of memory has been handed out"""

    def __init__(self, v, choices=()):
        self.v = v
        self.choices, self.taken, self.pending = list(choices), [], []
        for n in ALLOC + ('r_memset', 'r_memcpy'):
            v.E.models.pop(n, None)
        v.noreplay = True
        self.held = locks(v)
        self.s = v.s
        self.other(v.bv('already'))

    def size(self, name, small=16):
        n = self.v.bv(name)
        self.v.assume(U(n, MAXB))
        self.s.assume(U(n, MAXB))
        self.v.small(n, small)
        return n

    def one(self, name, args):
        outs = self.v.call(name, args, state=self.s)
        if not outs:
            raise Undecided('%s has no outcome' % name)
        k = 0
        if len(outs) > 1:       # each outcome is followed in a run of its own
            new_ = not self.choices
            k = 0 if new_ else self.choices.pop(0)
            if new_:
                self.pending += [self.taken + [j] for j in range(1, len(outs))]
            self.taken.append(k)
        self.s = outs[k]
        return self.s.ret

    def other(self, n):
        """something else is allocated meanwhile"""
        self.s.assume(U(n, MAXB))
        self.one('r_malloc', [n])

    def used(self):
        return self.one('r_debug_get_allocmem', [])

    def peak(self):
        return self.one('r_debug_get_maxmem', [])

    def check(self, c, label):
        self.v.check(self.s, c, label)

    def step(self, name, args):
        """-> result, bytes in use before and after"""
        a, m = self.used(), self.peak()
        r = self.one(name, args)
        b, m2 = self.used(), self.peak()
        self.check(m2 == z3.If(U(m, b), b, m), 'highest amount in use')
        self.check(self.held(self.s) == 0, 'lock released')
        return r, a, b

    def block(self, p, n, label='storage of the size asked for'):
        ok = isinstance(p, Ptr)
        self.check(BoolV(ok), label)
        if not ok:
            raise PathDead()
        if not self.v.concrete:
            u = self.v.given(self.s, n != 0)
            if u is not None:
                self.v.E.check_access(u, p, n, 'storage-handed-out')
        self.check(p.off & 7 == 0, 'aligned')

    def fill(self, p, n, w, val):
        self.s.assume(U(w, n))
        self.v.E.store(self.s, p + w, 1, val)


def explore(v, body):
    todo = [[]]
    while todo:
        h = Heap(v, todo.pop())
        body(h)
        todo += h.pending
        if len(todo) > 60:
            raise Undecided('too many paths')


@unit('C07', 'account', params=['r_malloc', 'r_zmalloc'], targets=['r_malloc', 'r_zmalloc', 'r_free', 'r_realloc', 'r_dbg_malloc', 'r_dbg_free', 'r_dbg_realloc', 'r_debug_get_allocmem', 'r_debug_get_maxmem', 'r_memset'])
def account(v, how):
    """handing out, resizing and releasing a block: the total follows exactly, the contents survive"""
    def body(h):
        n, m, w, val = h.size('size'), h.size('newsize'), v.bv('at'), v.bv('value', 8)
        v.small(w, 16)
        p, a, b = h.step(how, [n])
        h.check(b - a - n == bv(8), 'in use: the size asked for and one word')
        h.block(p, n)
        if how == 'r_zmalloc':
            u = v.given(h.s, U(w, n))
            if u:
                v.check(u, v.rd(u, p + w, 1) == 0, 'handed out zeroed')
        h.other(h.size('meanwhile'))
        h.fill(p, n, w, val)
        q, c, d = h.step('r_realloc', [p, m])
        h.check(d - c == m - n, 'in use: the difference')
        h.block(q, m)
        u = v.given(h.s, U(w, m))
        if u:
            v.check(u, v.rd(u, q + w, 1) == val, 'contents survive a resize')
        h.other(h.size('meanwhile2'))
        _, e, f = h.step('r_free', [q])
        h.check(e - f == m + 8, 'in use: what was counted is given back')
        h.check(BoolV(q.obj.oid in h.s.freed and p.obj.oid in h.s.freed), 'storage given back')
    explore(v, body)


@unit('C07', 'account-array', params=[1, 3, 4, 8, 24], more=[2, 16], targets=['r_calloc', 'r_dbg_calloc', 'r_free', 'r_dbg_free'])
def account_array(v, es):
    """zeroed arrays"""
    def body(h):
        k, w = h.size('count', 4), v.bv('at')
        v.small(w, 16)
        n = simp(k * bv(es))
        p, a, b = h.step('r_calloc', [k, bv(es)])
        h.check(And(z3.UGE(b - a, n), ULE(b - a, n + bv(max(8 * es, 8)))), 'in use: the size asked for and a few words')
        h.block(p, n)
        u = v.given(h.s, U(w, n))
        if u:
            v.check(u, v.rd(u, p + w, 1) == 0, 'handed out zeroed')
            v.E.store(u, p + w, 1, v.bv('value', 8))
            h.s = u
        h.other(h.size('meanwhile'))
        _, e, f = h.step('r_free', [p])
        h.check(e - f == b - a, 'in use: what was counted is given back')
        h.check(BoolV(p.obj.oid in h.s.freed), 'storage given back')
    explore(v, body)


@unit('C07', 'account-none', targets=['r_realloc', 'r_free', 'r_debug_reset_maxmem'])
def account_none(v):
    """resizing nothing hands out, releasing nothing does nothing"""
    def body(h):
        n = h.size('size')
        _, a, b = h.step('r_free', [bv(0)])
        h.check(a == b, 'releasing nothing')
        p, a, b = h.step('r_realloc', [bv(0), n])
        h.check(b - a == n + 8, 'in use: the size asked for and one word')
        h.block(p, n)
        _, e, f = h.step('r_free', [p])
        h.check(f == a, 'in use as before')
        h.one('r_debug_reset_maxmem', [])
        x, y = h.used(), h.peak()
        h.check(And(x == f, y == f), 'the peak starts again')
    explore(v, body)


class Ref:
    def __init__(self, v, linked):
        self.v = v
        self.count, self.type = v.bv('count', 32), v.bv('type', 32)
        n = Ptr(v.obj('neighbour', 16)) if linked else None
        self.obj = v.obj('ref', RF())
        self.p = Ptr(self.obj)
        lk = OB('lnk')
        nxt = n if linked else self.p
        m, f = v.E.prog.find_function('r_ref_cleanup')
        for off, z, x in ((lk + O('rlink_t', 'next'), 8, nxt), (lk + O('rlink_t', 'prev'), 8, nxt), (RF('count'), 4, self.count), (RF('type'), 4, self.type),
                          (RF('lock'), 4, bv(0, 32)), (OB('cleanup'), 8, FnRef('r_ref_cleanup', m)), (OB('size'), 4, bv(RF(), 32))):
            v.E.store(v.s, self.p + off, z, x)
        if linked:
            v.E.store(v.s, n + O('rlink_t', 'next'), 8, self.p)
            v.E.store(v.s, n + O('rlink_t', 'prev'), 8, self.p)
        self.n = n
        self.held = locks(v)
        v.noreplay = True

    def dead(self, s):
        return self.obj.oid in s.freed


@unit('C07', 'take', targets=['r_ref_inc', 'r_ref_get'])
def take(v):
    r = Ref(v, False)
    v.assume(r.count != bv(0xffffffff, 32))
    for s in v.call('r_ref_inc', [r.p]):
        v.check(s, s.ret == r.count + 1, 'references counted')
        v.check(s, BoolV(not r.dead(s)), 'still alive')
        v.check(s, r.held(s) == 0, 'lock released')
        for t in v.call('r_ref_get', [r.p], state=s):
            v.check(t, t.ret == r.count + 1, 'references counted')
        v.check(s, v.rd(s, r.p + RF('type'), 4) == r.type, 'type kept')


@unit('C07', 'drop', params=['alone', 'linked'], targets=['r_ref_dec', 'r_ref_cleanup', 'r_object_destroy', 'r_object_cleanup'])
def drop(v, how):
    """destroyed exactly when the last reference is dropped"""
    r = Ref(v, how == 'linked')
    for s in v.call('r_ref_dec', [r.p]):
        v.check(s, s.ret == z3.If(r.count == 0, bv(0, 32), r.count - 1), 'references counted')
        v.check(s, (r.count == 1) if r.dead(s) else (r.count != 1), 'destroyed exactly with the last reference')
        if not r.dead(s):
            v.check(s, r.held(s) == 0, 'lock released')
            v.check(s, v.rd(s, r.p + RF('count'), 4) == s.ret, 'references counted')
        if how == 'linked':
            nx, pv = v.rdp(s, r.n + O('rlink_t', 'next')), v.rdp(s, r.n + O('rlink_t', 'prev'))
            w = r.n if r.dead(s) else r.p
            v.check(s, And(v.peq(nx, w), v.peq(pv, w)), 'a destroyed object is on no list')


@unit('C07', 'new', targets=['r_ref_create', 'r_ref_init', 'r_object_create', 'r_object_init', 'r_ref_dec'])
def new(v):
    """a new object carries one reference: dropping it destroys it"""
    held = locks(v)
    v.noreplay = True

    def atomic_set(E, s, a, i):
        E.store(s, a[0], 4, a[1])
        return [(s, None)]
    v.E.contracts['r_atomic_set'] = atomic_set
    for s in v.call('r_ref_create', [bv(0, 32)]):
        ok = isinstance(s.ret, Ptr)
        v.check(s, BoolV(ok), 'created')
        if not ok:
            continue
        p = s.ret
        for t in v.call('r_ref_get', [p], state=s):
            v.check(t, t.ret == bv(1, 32), 'one reference')
        k = v.bv('taken')
        for t in v.call('r_ref_inc', [p], state=s):
            for u in v.call('r_ref_dec', [p], state=t):
                v.check(u, And(u.ret == bv(1, 32), BoolV(p.obj.oid not in u.freed)), 'alive while one reference is left')
                for w in v.call('r_ref_dec', [p], state=u):
                    v.check(w, And(w.ret == bv(0, 32), BoolV(p.obj.oid in w.freed)), 'destroyed with the last reference')
