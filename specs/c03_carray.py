from .common import *

HC = 'rtypes.h rlib/rcarray.h'
want(HC, 'rcarray_t', ['array', 'alloc_size', 'len', 'elt_size'])
want(HC, None, ['R_CARRAY_CHUNKSIZE', 'R_CARRAY_CHUNKBITS'])
CA = lambda f: O('rcarray_t', f)
ES = [1, 8, 24]


class CArr:
    """a well-formed chunked array: any number of whole chunks, length within them"""

    def __init__(self, v, es, name='carray'):
        self.v, self.es, self.name = v, es, name
        self.K = O.c('R_CARRAY_CHUNKSIZE')
        self.B = O.c('R_CARRAY_CHUNKBITS')
        self.n = v.bv(name + '.chunks')
        self.len = v.bv(name + '.len')
        self.alloc = self.n * bv(self.K)
        v.assume(U(self.n, bv(1 << 30)), ULE(self.len, self.alloc), self.n != 0)
        v.small(self.n, 2)
        ch = []
        self.ch = v.obj(name + '.chunk', self.K * es, indexed=True, count=self.n, valid=lambda i: U(i, self.n))
        ch.append(self.ch)
        self.arr = Arr(v, name + '.array', 8, maxn=1 << 31, len_=self.n, regions=[Region(0, 8, {0: (8, lambda i: Ptr(ch[0], bv(0), i))})])
        self.obj = v.obj(name, O('rcarray_t'), cells={CA('array'): (8, self.arr.p), CA('alloc_size'): (8, self.alloc), CA('len'): (8, self.len), CA('elt_size'): (8, bv(es))})
        self.p = Ptr(self.obj)
        self.W = v.witness('W')      # any element within the old chunks
        self.Wb = v.bv('Wb')

    def slot(self, s, i, b=0):
        """address of byte b of element i, as the access macro computes it"""
        v = self.v
        d = v.rdp(s, v.rdp(s, self.p + CA('array')) + O('rarray_t', 'data'))
        c = v.rdp(s, d + simp(z3.LShR(i, bv(self.B)) * bv(8)))
        return c + simp((i & bv(self.K - 1)) * bv(self.es) + b)

    def nlen(self, s):
        return self.v.rd(s, self.p + CA('len'))

    def kept(self, s, but=None):
        """every element that was there is at its address with its value"""
        v, W = self.v, self.W
        t = v.given(s, U(W, self.alloc), U(self.Wb, bv(self.es)), *([W != but] if but is not None else []))
        if t is not None:
            a, b = self.slot(v.s, W, self.Wb), self.slot(t, W, self.Wb)
            v.check(t, v.peq(a, b), 'element keeps its address')
            v.E.check_access(t, b, 1, 'element')
            v.check(t, v.rd(t, b, 1) == v.E.rd(v.s, a, 1), 'element keeps its value')
        if but is not None:
            t = v.given(s, W == but, U(W, self.alloc), U(self.Wb, bv(self.es)))
            if t is not None:
                v.check(t, v.peq(self.slot(v.s, W, self.Wb), self.slot(t, W, self.Wb)), 'element keeps its address')

    def wf(self, s):
        """whole chunks, capacity covers the length, every slot exists"""
        v = self.v
        self.arr.wf(s)
        n = self.arr.nlen(s)
        v.check(s, And(v.rd(s, self.p + CA('alloc_size')) == n * bv(self.K), ULE(self.nlen(s), n * bv(self.K)), v.rd(s, self.p + CA('elt_size')) == bv(self.es)), 'capacity covers the length')
        v.check(s, ULE(self.n, n), 'no chunk is given up')

    def grown(self, s, upto):
        """elements beyond the old capacity exist and are zeroed"""
        v, W = self.v, self.W
        t = v.given(s, ULE(self.alloc, W), U(W, upto), U(self.Wb, bv(self.es)))
        if t is not None:
            for c in range(4):
                t2 = v.given(t, z3.LShR(W, bv(self.B)) == self.n + bv(c))
                if t2 is not None:
                    p = self.slot(t2, (self.n + c) * bv(self.K) + (W & bv(self.K - 1)), self.Wb)
                    v.E.check_access(t2, p, 1, 'new-element')
                    v.check(t2, v.rd(t2, p, 1) == bv(0, 8), 'new storage zeroed')


def data(v, es, null):
    return bv(0) if null else Ptr(v.obj('data', es))


def holds(v, c, s, i, d):
    """element i has the bytes of d (or zeroes)"""
    b = v.bv('Db')
    t = v.given(s, U(b, bv(c.es)))
    for k in [None] + list(range(4)):
        x = i
        t2 = v.given(t, U(i, c.alloc)) if k is None else v.given(t, z3.LShR(i, bv(c.B)) == c.n + bv(k))
        if t2 is None:
            continue
        if k is not None:
            x = (c.n + k) * bv(c.K) + (i & bv(c.K - 1))
        p = c.slot(t2, x, b)
        v.E.check_access(t2, p, 1, 'element')
        v.check(t2, v.rd(t2, p, 1) == (v.E.rd(v.s, d + b, 1) if isinstance(d, Ptr) else bv(0, 8)), 'element value')


BOTH = [(es, n) for es in ES for n in (False, True)]


@unit('C03', 'add', params=BOTH, targets=['r_carray_add', 'r_carray_inclength', 'r_carray_checkexpand', 'r_carray_add_chunks'])
def add(v, p):
    """the element is appended; all others keep their address and value"""
    es, null = p
    c, d = CArr(v, es), None
    d = data(v, es, null)
    v.E.exhaustive = 4
    for s in v.call('r_carray_add', [c.p, d]):
        v.check(s, s.ret == c.len, 'index')
        v.check(s, c.nlen(s) == c.len + 1, 'length')
        c.wf(s)
        c.kept(s, c.len)
        holds(v, c, s, c.len, d)
        c.grown(s, c.len)


@unit('C03', 'replace', params=[(8, False, 1)], more=[(es, n, k) for k in (2, 3) for es, n in BOTH], targets=['r_carray_replace'], bounded='growth by at most one chunk (quick) or three (thorough)')
def replace(v, p):
    """the element is replaced; all others keep their address and value"""
    es, null, k = p
    c = CArr(v, es)
    d = data(v, es, null)
    i = v.bv('index')
    v.assume(U(i, c.alloc + k * c.K - 1))
    v.E.exhaustive = 6
    for s in v.call('r_carray_replace', [c.p, i, d]):
        v.check(s, s.ret == i, 'index')
        v.check(s, c.nlen(s) == c.len, 'length')
        c.wf(s)
        c.kept(s, i)
        holds(v, c, s, i, d)


@unit('C03', 'replace-within', params=BOTH, targets=['r_carray_replace', 'r_carray_slot_expand'])
def replace_in(v, p):
    """an element within the capacity is replaced; all others keep their address and value"""
    es, null = p
    c = CArr(v, es)
    d = data(v, es, null)
    i = v.bv('index')
    v.assume(U(i, c.alloc))
    for s in v.call('r_carray_replace', [c.p, i, d]):
        v.check(s, s.ret == i, 'index')
        v.check(s, c.nlen(s) == c.len, 'length')
        c.wf(s)
        c.kept(s, i)
        holds(v, c, s, i, d)


@unit('C03', 'setlength', params=[(8, 2)], more=[(es, 3) for es in ES], targets=['r_carray_setlength'], bounded='growth by at most two chunks (quick) or three (thorough)')
def setlength(v, p):
    """the length is as asked, covered by storage; elements keep their address and value"""
    es, k = p
    c = CArr(v, es)
    n = v.bv('newlen')
    v.assume(U(n, c.alloc + k * c.K))
    v.E.exhaustive = 6
    for s in v.call('r_carray_setlength', [c.p, n]):
        v.check(s, c.nlen(s) == n, 'length')
        c.wf(s)
        c.kept(s)
        c.grown(s, n)


@unit('C03', 'declength', params=[8], targets=['r_carray_declength'])
def declength(v, es):
    """one element fewer, at least none"""
    c = CArr(v, es)
    for s in v.call('r_carray_declength', [c.p]):
        v.check(s, c.nlen(s) == z3.If(c.len == 0, c.len, c.len - 1), 'length')
        c.wf(s)
        c.kept(s)


@unit('C03', 'create', params=ES, targets=['r_carray_create', 'r_carray_init'])
def create(v, es):
    """a new array is empty and well formed"""
    v.E.exhaustive = 4
    for s in v.call('r_carray_create', [bv(es)]):
        p = s.ret
        r = lambda f: v.rd(s, p + CA(f))
        v.check(s, And(r('len') == 0, r('elt_size') == bv(es)), 'empty')
        a = v.rdp(s, p + CA('array'))
        n = v.rd(s, a + O('rarray_t', 'len'))
        v.check(s, And(r('alloc_size') == n * bv(O.c('R_CARRAY_CHUNKSIZE')), n == 1), 'whole chunks')
        ch = v.rdp(s, v.rdp(s, a + O('rarray_t', 'data')))
        w = v.bv('w')
        t = v.given(s, U(w, bv(es * O.c('R_CARRAY_CHUNKSIZE'))))
        v.E.check_access(t, ch + w, 1, 'chunk')
        v.check(t, v.rd(t, ch + w, 1) == bv(0, 8), 'zeroed')
