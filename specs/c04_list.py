from .common import *

HL = 'rtypes.h rlib/rlist.h'
want(HL, 'rlist_t', ['next', 'prev'])
PAY = 8          # each link sits behind other data of its structure


def NX():
    return O('rlist_t', 'next')


def PV():
    return O('rlist_t', 'prev')


class Ring:
    """a ring of m members (any m below 2^31): members 0 .. m-1 in order, the head is number m"""

    def __init__(self, v, name='node', maxn=1 << 31):
        self.v = v
        m = self.m = v.bv(name + 's')
        v.assume(U(m, bv(maxn)))
        v.small(m, 5)
        o = []
        at = lambda i: Ptr(o[0], bv(PAY), simp(i))
        self.at = at
        self.o = v.obj(name, 3 * PAY + O('rlist_t'), indexed=True, count=m + 1, valid=lambda i: ULE(i, m), cells={
            PAY + NX(): (8, lambda i: at(z3.If(i == m, bv(0), i + 1))),
            PAY + PV(): (8, lambda i: at(z3.If(i == bv(0), m, i - 1)))})
        o.append(self.o)
        self.head = at(m)

    def frame(self, s):
        """nothing but the links of the members is touched"""
        v = self.v
        i = v.bv('other')
        t = v.given(s, ULE(i, self.m))
        for lo, n in ((0, PAY), (PAY + O('rlist_t'), 2 * PAY)):
            for b in range(0, n, 8):
                v.check(t, v.rd(t, Ptr(self.o, bv(lo + b), i)) == v.E.rd(v.s, Ptr(self.o, bv(lo + b), i), 8), 'member data untouched')


def fresh_node(v):
    o = v.obj('new', 3 * PAY + O('rlist_t'))
    return Ptr(o, bv(PAY))


def ring(v, s, parts, label='two-way ring'):
    """parts: list of (length, f) -- the ring positions in order, the head last; f(j) the link at position j of the part.
    Every position's next is the following position and that one's prev leads back."""
    n = len(parts)
    j = v.bv('J')
    for k in range(n):
        ln, f = parts[k]
        # inside the part
        t = v.given(s, U(j, ln), U(j + 1, ln))
        if t is not None:
            link(v, t, f(j), f(j + 1), label)
        # last of part k to first of the next non-empty part
        for d in range(1, n + 1):
            l2, g = parts[(k + d) % n]
            t = v.given(s, j == ln - 1, ln != 0, l2 != 0, *[parts[(k + e) % n][0] == 0 for e in range(1, d)])
            if t is not None:
                link(v, t, f(j), g(bv(0)), label)


def link(v, s, a, b, label):
    v.check(s, v.peq(v.rdp(s, a + NX()), b), label + ': next')
    v.check(s, v.peq(v.rdp(s, b + PV()), a), label + ': prev')


@unit('C04', 'init', targets=['r_list_init'])
def init(v):
    """an initialised head is an empty ring"""
    p = fresh_node(v)
    for s in v.call('r_list_init', [p]):
        ring(v, s, [(bv(1), lambda j: p)])
        v.unchanged(s, p.obj, 'other data', excl=lambda w: Or(U(w, bv(PAY)), z3.UGE(w, bv(PAY + O('rlist_t')))))


def inserted(v, r, s, p, q):
    """q is at position p, the old members keep their order"""
    at = r.at
    ring(v, s, [(p, at), (bv(1), lambda j: q), (r.m + 1 - p, lambda j: at(j + p))])
    r.frame(s)
    v.unchanged(s, q.obj, 'other data', excl=lambda w: Or(U(w, bv(PAY)), z3.UGE(w, bv(PAY + O('rlist_t')))))


@unit('C04', 'add', targets=['r_list_add'])
def add(v):
    """a node added between two neighbours is between them; the order of the others is kept"""
    r, q = Ring(v), fresh_node(v)
    p = v.bv('pos')
    v.assume(ULE(p, r.m))
    prev = z3.If(p == 0, r.m, p - 1)
    for s in v.call('r_list_add', [q, r.at(prev), r.at(p)]):
        inserted(v, r, s, p, q)


@unit('C04', 'addh', targets=['r_list_addh'])
def addh(v):
    """a node added at the head comes first"""
    r, q = Ring(v), fresh_node(v)
    for s in v.call('r_list_addh', [r.head, q]):
        inserted(v, r, s, bv(0), q)


@unit('C04', 'addt', targets=['r_list_addt'])
def addt(v):
    """a node added at the tail comes last"""
    r, q = Ring(v), fresh_node(v)
    for s in v.call('r_list_addt', [r.head, q]):
        inserted(v, r, s, r.m, q)


@unit('C04', 'del', targets=['r_list_del'])
def delete(v):
    """the node is gone and the others keep their order"""
    r = Ring(v)
    d = v.bv('del')
    v.assume(U(d, r.m))
    for s in v.call('r_list_del', [r.at(d)]):
        ring(v, s, [(d, r.at), (r.m - d, lambda j: r.at(j + d + 1))])
        r.frame(s)


@unit('C04', 'unlink', targets=['r_list_unlink'])
def unlink(v):
    """everything between the two is gone and the others keep their order"""
    r = Ring(v)
    a, b = v.bv('a'), v.bv('b')
    v.assume(U(a, b), ULE(b, r.m))
    for s in v.call('r_list_unlink', [r.at(a), r.at(b)]):
        ring(v, s, [(a + 1, r.at), (r.m + 1 - b, lambda j: r.at(j + b))])
        r.frame(s)


def result(v, s, null, p):
    """NULL exactly under the condition, else p"""
    t = v.given(s, null)
    if t is not None:
        v.check(t, v.is_null(s.ret), 'nothing when there is none')
    t = v.given(s, Not(null))
    if t is not None:
        v.check(t, v.peq(s.ret, p), 'the member')


@unit('C04', 'query', params=['first', 'last', 'next', 'prev', 'next-null', 'prev-null'], targets=['r_list_first', 'r_list_last', 'r_list_next', 'r_list_prev'])
def query(v, k):
    """first, last, next and previous member, or NULL when there is none"""
    r = Ring(v)
    i = v.bv('i')
    v.assume(U(i, r.m) if k in ('next', 'prev') else TRUE)
    fn, nul = 'r_list_' + k.split('-')[0], k.endswith('null')
    args = [r.head] + ([] if k in ('first', 'last') else [bv(0) if nul else r.at(i)])
    exp = {'first': (r.m == 0, r.at(bv(0))), 'last': (r.m == 0, r.at(r.m - 1)), 'next': (i == r.m - 1, r.at(i + 1)), 'prev': (i == 0, r.at(i - 1))}
    for s in v.call(fn, args):
        if nul:
            v.check(s, v.is_null(s.ret), 'nothing when there is none')
        else:
            result(v, s, *exp[k])
        v.unchanged(s, r.o, 'ring unchanged', idx=v.bv('W'))


@unit('C04', 'count', targets=['r_list_count'])
def count(v):
    """the number of members"""
    r = Ring(v)
    for s in v.call('r_list_count', [r.head]):
        v.check(s, zx(s.ret) == r.m, 'number of members')
        v.unchanged(s, r.o, 'ring unchanged', idx=v.bv('W'))


@unit('C04', 'splice', targets=['r_list_splice'])
def splice(v):
    """the spliced members come first, in order, followed by the old ones; the source ring is empty"""
    r, q = Ring(v), Ring(v, 'src')
    for s in v.call('r_list_splice', [q.head, r.head]):
        ring(v, s, [(q.m, q.at), (r.m + 1, r.at)], 'destination ring')
        ring(v, s, [(bv(1), lambda j: q.head)], 'source ring')
        r.frame(s)
        q.frame(s)
