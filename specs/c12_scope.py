from .common import *

HS = 'rtypes.h rlib/rstring.h rvm/rvmscope.h'
want(HS, 'rvm_scope_t', ['names', 'nameshash', 'varstack', 'scopestack'])
want(HS, 'rvm_varmap_t', ['name', 'data', 'datatype'])
want(HS, 'rstr_t', ['str', 'size'])
want(HS, None, ['VARMAP_DATATYPE_OFFSET', 'VARMAP_DATATYPE_PTR'])
C = O.c


class Scope:
    """any stack of bindings (below 2^31) with any stack of saved lengths"""

    def __init__(self, v):
        self.v = v
        VM = O('rvm_varmap_t')
        self.slen = v.fun('slen', 64, 64)
        self.same = v.fun('same', 64, 1)
        self.namesobj = v.obj('bound_name', lambda i: self.slen(i) + 1, indexed=True)
        v.noreplay = True
        dat, ty = v.fun('vardata', 64, 64), v.fun('vartype', 64, 8)
        self.vars = Arr(v, 'varstack', VM, maxn=1 << 31, regions=[Region(0, VM, {
            O('rvm_varmap_t', 'name'): (8, lambda i: Ptr(self.namesobj, bv(0), i)),
            O('rvm_varmap_t', 'data'): (8, lambda i: dat(i)), O('rvm_varmap_t', 'datatype'): (1, lambda i: ty(i))})])
        self.marks = Arr(v, 'scopestack', 8, maxn=1 << 31)
        self.names = Arr(v, 'names', 8)
        self.hash = v.obj('hash', 64)
        g = lambda f: O('rvm_scope_t', f)
        self.o = v.obj('scope', O('rvm_scope_t'), cells={g('names'): (8, self.names.p), g('nameshash'): (8, Ptr(self.hash)), g('varstack'): (8, self.vars.p), g('scopestack'): (8, self.marks.p)})
        self.p = Ptr(self.o)
        self.n = v.bv('namesize', 32)
        self.key = v.obj('key', zx(self.n) + 1)
        v.assume(U(zx(self.n), bv(1 << 30)))
        self.W = v.witness('W')

        def strlen(E, s, a, ins):
            p = a[0]
            if isinstance(p, Ptr) and p.obj is self.namesobj:
                E.prove(s, p.off == bv(0), 'name-pointer')
                return [(s, self.slen(p.idx))]
            return NotImplemented

        def strncmp(E, s, a, ins):
            p, q, n = a
            if isinstance(q, Ptr) and q.obj is self.namesobj:
                p, q = q, p
            E.prove(s, And(p.off == bv(0), q.off == bv(0), BoolV(p.obj is self.namesobj and q.obj is self.key), zx(n) == zx(self.n)), 'names-compared')
            # contract: zero iff the first n bytes agree (names hold no NUL)
            r = fresh('cmp', 32)
            s.assume((r == 0) == (self.same(p.idx) == bv(1, 1)))
            return [(s, r)]
        v.E.contracts['r_strlen'] = strlen
        v.E.contracts['r_strncmp'] = strncmp

    def match(self, i):
        return And(self.slen(i) == zx(self.n), self.same(i) == bv(1, 1))


def found(v, c, s, lo):
    """result: the slot of the last matching binding from lo on, or NULL when there is none"""
    L = c.vars.len
    r = s.ret
    if isinstance(r, Ptr):
        v.check(s, BoolV(r.obj is c.vars.data), 'a binding is returned')
        i = v.bv('I')
        t = v.given(s, r.off == i * bv(O('rvm_varmap_t')), U(i, L))
        v.check(s, And(z3.URem(r.off, bv(O('rvm_varmap_t'))) == 0, U(r.off, L * bv(O('rvm_varmap_t')))), 'slot of a binding')
        if t is not None:
            v.check(t, And(c.match(i), ULE(lo, i)), 'the binding has that name and is in scope')
        t = v.given(s, r.off == i * bv(O('rvm_varmap_t')), U(i, L), U(i, c.W), U(c.W, L))
        if t is not None:
            v.check(t, Not(c.match(c.W)), 'no later binding has that name')
    else:
        v.check(s, v.is_null(r), 'nothing')
        t = v.given(s, ULE(lo, c.W), U(c.W, L))
        if t is not None:
            v.check(t, Not(c.match(c.W)), 'no binding has that name')


@unit('C12', 'lookup', targets=['rvm_scope_lookup'])
def lookup(v):
    """the innermost binding of the name, else nothing"""
    c = Scope(v)
    for s in v.call('rvm_scope_lookup', [c.p, Ptr(c.key), c.n]):
        found(v, c, s, bv(0))
        v.unchanged(s, c.o, 'scope unchanged')


@unit('C12', 'tiplookup', targets=['rvm_scope_tiplookup'])
def tiplookup(v):
    """the last binding of the name made since the innermost scope was entered, else nothing"""
    c = Scope(v)
    top = c.marks.old(c.marks.len - 1, 0, 8)
    v.assume(Or(c.marks.len == 0, ULE(top, c.vars.len)))
    for s in v.call('rvm_scope_tiplookup', [c.p, Ptr(c.key), c.n]):
        found(v, c, s, z3.If(c.marks.len == 0, bv(0), top))


@unit('C12', 'enter', targets=['rvm_scope_push'])
def enter(v):
    """entering a scope remembers how many bindings there are and changes none"""
    c = Scope(v)
    for s in v.call('rvm_scope_push', [c.p]):
        v.check(s, c.marks.nlen(s) == c.marks.len + 1, 'one more scope')
        v.check(s, c.marks.new(s, c.marks.len, 0, 8) == c.vars.len, 'remembered')
        t = v.given(s, U(c.W, c.marks.len))
        if t is not None:
            v.check(t, c.marks.new(t, c.W, 0, 8) == c.marks.old(c.W, 0, 8), 'outer scopes')
        v.unchanged(s, c.vars.obj, 'bindings')
        v.unchanged(s, c.vars.data, 'bindings')
        c.marks.wf(s)


@unit('C12', 'leave', targets=['rvm_scope_pop'])
def leave(v):
    """leaving a scope removes exactly the bindings made since it was entered"""
    c = Scope(v)
    top = c.marks.old(c.marks.len - 1, 0, 8)
    v.assume(c.marks.len != 0, ULE(top, c.vars.len))
    for s in v.call('rvm_scope_pop', [c.p]):
        v.check(s, c.marks.nlen(s) == c.marks.len - 1, 'one scope less')
        v.check(s, c.vars.nlen(s) == top, 'bindings made before it was entered remain')
        v.unchanged(s, c.vars.data, 'bindings')
        t = v.given(s, U(c.W, c.marks.len - 1))
        if t is not None:
            v.check(t, c.marks.new(t, c.W, 0, 8) == c.marks.old(c.W, 0, 8), 'outer scopes')
        c.marks.wf(s)
        c.vars.wf(s)


@unit('C12', 'bind', params=[(k, f) for k in ('offset', 'pointer') for f in (True, False)], targets=['rvm_scope_addoffset', 'rvm_scope_addpointer', 'rvm_scope_addname'])
def bind(v, p):
    """a new binding goes on top, with an owned copy of exactly that name; earlier bindings are kept"""
    kind, known = p
    c = Scope(v)
    kn = v.obj('known', O('rstr_t'), cells={O('rstr_t', 'str'): (8, Ptr(v.obj('knownstr', zx(c.n) + 1))), O('rstr_t', 'size'): (4, c.n)})
    kstr = v.rdp(v.s, Ptr(kn, O('rstr_t', 'str')))

    def look(E, s, a, ins):
        s.ghost['asked'] = a[1]
        E.prove(s, E.rd(s, a[1] + O('rstr_t', 'size'), 4) == c.n, 'name-index-asked-for-the-name')
        for g, x in E.rdp(s, a[1] + O('rstr_t', 'str')):
            E.prove(s, Or(Not(g), v.peq(x, Ptr(c.key))), 'name-index-asked-for-the-name')
        return [(s, Ptr(kn) if known else bv(0))]

    def ins_(E, s, a, ins):
        s.ghost['inserted'] = s.ghost.get('inserted', 0) + 1
        E.prove(s, v.peq(a[1], a[2]), 'name-index-holds-the-name')
        return [(s, None)]
    v.E.contracts['r_hash_lookup_object'] = look
    v.E.contracts['r_hash_insert_object'] = ins_
    x = v.bv('x', 32 if kind == 'offset' else 64)
    VM = lambda f: O('rvm_varmap_t', f)
    L = c.vars.len
    for s in v.call('rvm_scope_add' + kind, [c.p, Ptr(c.key), c.n, x]):
        v.check(s, c.vars.nlen(s) == L + 1, 'one more binding')
        c.vars.wf(s)
        v.check(s, c.vars.new(s, L, VM('data'), 4 if kind == 'offset' else 8) == x, 'value bound')
        v.check(s, c.vars.new(s, L, VM('datatype'), 1) == bv(C('VARMAP_DATATYPE_OFFSET' if kind == 'offset' else 'VARMAP_DATATYPE_PTR'), 8), 'kind of value')
        nm = v.rdp(s, c.vars.ndata(s) + simp(L * bv(VM(None)) + VM('name')))
        if known:
            v.check(s, v.peq(nm, kstr), 'shared copy of the name')
        else:
            w = v.bv('NW')
            v.check(s, BoolV(isinstance(nm, Ptr) and nm.obj not in (c.key,)), 'owned copy')
            t = v.given(s, U(w, zx(c.n)))
            if t is not None:
                v.E.check_access(t, nm + w, 1, 'name')
                v.check(t, v.rd(t, nm + w, 1) == v.E.rd(v.s, Ptr(c.key, w), 1), 'copied name')
            v.check(s, v.rd(s, nm + zx(c.n), 1) == bv(0, 8), 'terminated')
            v.check(s, s.ghost.get('inserted') == 1, 'entered in the name index')
        t = v.given(s, U(c.W, L))
        if t is not None:
            for f, n in (('name', 8), ('data', 8), ('datatype', 1)):
                v.check(t, c.vars.new(t, c.W, VM(f), n) == c.vars.old(c.W, VM(f), n), 'earlier bindings')
