from .common import *

HD = 'rtypes.h rlib/robject.h rex/rexdfatypes.h'
want(HD, 'robject_t', [])
want(HD, 'rexdfa_t', ['nstates', 'states', 'ntrans', 'trans', 'naccsubstates', 'accsubstates', 'nsubstates', 'substates', 'bits'])
want(HD, 'rexdfs_t', ['type', 'trans', 'ntrans', 'accsubstates', 'naccsubstates', 'substates', 'nsubstates'])
want(HD, 'rexdft_t', ['lowin', 'highin', 'state'])
want(HD, 'rexdfss_t', ['type', 'uid', 'userdata'])
want(HD, None, ['REX_STATETYPE_ACCEPT', 'REX_DFA_STARTSTATE', 'REX_DFA_DEADSTATE'])
C = O.c
FS, FT, FD = (lambda f: O('rexdfs_t', f)), (lambda f: O('rexdft_t', f)), (lambda f: O('rexdfa_t', f))
SS, ST_ = (lambda: O('rexdfs_t')), (lambda: O('rexdft_t'))
HN, HT = 3, 4         # table sizes when hunting for a concrete failing input


def slice_(v, f, g, n, total, lo=1):
    """an arbitrary non-empty slice [base, base+len) of the table of the given length"""
    b, l = f(n), g(n)
    base = z3.If(U(b, total), b, bv(0, 32))
    ln = z3.If(And(ULE(bv(lo, 32), l), ULE(l, total - base)), l, bv(lo, 32))
    return base, ln


class Dfa:
    """any compiled automaton: every state owns a non-empty slice of the transition table, sorted by low
    bound, the first one starting at 0 (all characters are covered); targets are states of the automaton.
    pick(n, c): the number, within the slice of state n, of the one range that holds character c."""

    def __init__(self, v):
        self.v = v
        ns, nt = v.bv('nstates', 32), v.bv('ntrans', 32)
        self.ns, self.nt = ns, nt
        v.assume(U(ns, bv(1 << 30, 32)), U(nt, bv(1 << 30, 32)), ULE(bv(2, 32), ns), ULE(bv(1, 32), nt))
        v.small(ns, HN)
        v.small(nt, HT)
        self.f, self.g, self.ty = v.fun('sbase', 32, 32), v.fun('scount', 32, 32), v.fun('stype', 32, 32)
        self.low, self.tst, self.h = v.fun('low', 64, 32), v.fun('tstate', 64, 32), v.fun('pick', 32, 32, 32)
        high = v.fun('high', 64, 32)
        i32 = lambda i: simp(z3.Extract(31, 0, i))
        self.states = v.obj('states', zx(ns) * bv(SS()), regions=[Region(0, SS(), {
            FS('type'): (4, lambda i: self.ty(i32(i))), FS('trans'): (4, lambda i: self.base(i32(i))), FS('ntrans'): (4, lambda i: self.count(i32(i)))})])
        self.trans = v.obj('trans', zx(nt) * bv(ST_()), regions=[Region(0, ST_(), {
            FT('lowin'): (4, lambda i: self.low(i)), FT('highin'): (4, lambda i: high(i)), FT('state'): (4, lambda i: self.target(i))})])
        self.o = v.obj('dfa', FD(None), cells={
            FD('nstates'): (4, ns), FD('states'): (8, Ptr(self.states)), FD('ntrans'): (4, nt), FD('trans'): (8, Ptr(self.trans))})
        self.p = Ptr(self.o)
        self.lowdecl = None if v.concrete else self.low.name() if hasattr(self.low, 'name') else None
        if v.mode in ('hunt', 'concrete'):
            for n in range(HN):
                n = bv(n, 32)
                v.assume(Implies(U(n, ns), self.slice_ok(n)))
                b, l = self.base(n), self.count(n)
                for k in range(HT):
                    i = b + bv(k, 32)
                    inr = And(U(n, ns), U(bv(k, 32), l))
                    v.assume(Implies(And(inr, BoolV(k == 0)), self.low(zx(i)) == 0))
                    v.assume(Implies(And(inr, U(bv(k + 1, 32), l)), U(self.low(zx(i)), self.low(zx(i + 1)))))
            for i in range(HT):
                v.assume(U(self.tst(bv(i)), ns))
        v.E.cmp_hook = self.on_cmp

    def base(self, n):
        return self.f(n)

    def count(self, n):
        return self.g(n)

    def target(self, i):
        return self.tst(i)

    def pick(self, n, c):
        return self.h(n, c)

    def delta(self, n, c):
        return self.target(zx(self.base(n) + self.pick(n, c)))

    def slice_ok(self, n):
        return And(ULE(bv(1, 32), self.g(n)), ULE(self.f(n), self.nt), ULE(self.g(n), self.nt - self.f(n)))

    def facts(self, n, c):
        return [self.slice_ok(n), U(self.pick(n, c), self.count(n)), U(self.delta(n, c), self.ns)]

    def on_cmp(self, s, a, b):
        """the table is sorted: instance for the comparison the code makes"""
        for x, c in ((a, b), (b, a)):
            x = simp(x)
            if self.v.concrete or not z3.is_app(x) or c.size() != 32 or x.decl().name() != self.lowdecl:
                continue
            idx = z3.Extract(31, 0, x.arg(0))
            for n in self.owners(x.arg(0)):
                i = idx - self.base(n)
                s.assume(Implies(U(i, self.count(n)), z3.UGE(c, x) == ULE(i, self.pick(n, c))))

    def owners(self, t):
        out, todo, seen = {}, [t], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().name() == self.f.name():
                    out[x.arg(0).get_id()] = x.arg(0)
                todo.extend(x.children())
        return list(out.values())


def search_cands(d, state, char):
    """candidate invariants of a search in the slice: position relative to pick"""
    def f(vw):
        n, c = state(vw), char(vw)
        if n is None:
            return []
        j, l = d.pick(n, c), d.count(n)
        out = []
        for _, x in vw.ints(32):
            out += [ULE(x, j), ULE(j, x), U(j, x), ULE(x, j + 1), ULE(x, l)]
        return out
    return f


@unit('C14', 'next', targets=['rex_dfa_next'])
def next_(v):
    """the step goes to the target of the one range holding the character"""
    d = Dfa(v)
    n, c = v.bv('state', 32), v.bv('char', 32)
    v.assume(U(n, d.ns), *d.facts(n, c))
    v.E.loop_specs['*'] = lambda L: L.cands.append(search_cands(d, lambda vw: n, lambda vw: c))
    for s in v.call('rex_dfa_next', [d.p, n, c]):
        v.check(s, s.ret == d.delta(n, c), 'target of the range holding the character')
        v.unchanged(s, d.o, 'automaton unchanged')


class Run:
    """ghost run over the input: pos(k) where character k starts, ch(k) the character, st(k) the state
    after k characters, acc(k) the position after the last accepting state up to k (0: none)"""

    def __init__(self, v, d, utf8):
        self.v, self.d = v, d
        self.n = v.bv('size')
        v.assume(U(self.n, bv(1 << 31)))
        v.small(self.n, 3)
        self.data = v.obj('input', self.n)
        self.utf8 = utf8 and v.mode == 'prove'
        self.st, self.acc, self.posf = v.fun('ST', 64, 32), v.fun('ACC', 64, 64), v.fun('POS', 64, 64)
        self.DL, self.DW = v.fun('declen', 64, 32), v.fun('decchar', 64, 32)
        self.K = v.bv('K')
        v.assume(U(self.K, bv(1 << 32)))
        if self.utf8:
            v.E.contracts['r_utf8_mbtowc'] = self.decode
        z = bv(0)
        base = [self.st(z) == bv(C('REX_DFA_STARTSTATE'), 32), self.acc(z) == 0, self.pos(z) == 0]
        v.assume(*base)
        v.assume(U(bv(C('REX_DFA_STARTSTATE')), zx(d.ns)))
        if v.mode in ('hunt', 'concrete'):
            for k in range(4):
                v.assume(*self.step(bv(k)))
                if utf8:
                    v.assume(Implies(U(bv(k), self.n), U(v.E.rd(v.s, Ptr(self.data, bv(k)), 1), bv(0x80, 8))))
        v.E.loop_specs['*'] = self.hint

    def pos(self, k):
        return self.posf(k) if self.utf8 else k

    def dl(self, p):
        """length of the character at offset p < size (contract of the decoder, C01)"""
        l = self.DL(p)
        return zx(z3.If(And(ULE(bv(1, 32), l), ULE(l, bv(6, 32)), ULE(zx(l), self.n - p)), l, bv(1, 32)))

    def ch(self, k):
        if self.utf8:
            return self.DW(self.pos(k))
        return zx(self.v.E.rd(self.v.s, Ptr(self.data, k), 1), 32)

    def decode(self, E, s, a, ins):
        out, p, q = a
        ok = isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj is self.data and q.obj is self.data
        E.prove(s, And(ULE(p.off, q.off), q.off == self.n) if ok else FALSE, 'decoder-called-on-the-rest-of-the-input')
        if not ok:
            raise PathDead()
        t = s.copy()
        s.assume(p.off == self.n)
        t.assume(U(p.off, self.n))
        E.store(t, out, 4, self.DW(p.off))
        return [x for x in ((s, bv(0, 32)), (t, simp(z3.Extract(31, 0, self.dl(p.off))))) if E.feasible(x[0], TRUE)]

    def stop(self, k):
        return Or(z3.UGE(self.pos(k), self.n), self.d.delta(self.st(k), self.ch(k)) == bv(C('REX_DFA_DEADSTATE'), 32))

    def step(self, k):
        """the definitions of the ghost functions, at k"""
        n, k1 = self.st(k), k + 1
        r = [Implies(U(n, self.d.ns), And(*self.d.facts(n, self.ch(k)))),
             self.st(k1) == self.d.delta(n, self.ch(k)),
             self.acc(k1) == z3.If(self.d.ty(self.st(k1)) == bv(C('REX_STATETYPE_ACCEPT'), 32), self.pos(k1), self.acc(k)),
             Implies(U(k, self.K), Not(self.stop(k))), Implies(k == self.K, self.stop(k))]
        if self.utf8:
            r.append(self.pos(k1) == self.pos(k) + self.dl(self.pos(k)))
        return r

    def hint(self, L):
        def head(h, vals, k):
            for c in self.step(k):
                h.assume(c)
        L.custom_head = head

        L.no_auto = L.strong = True

        def cands(vw):
            k = vw.k
            out = [ULE(k, self.K), U(self.st(k), self.d.ns), ULE(self.pos(k), self.n), ULE(self.acc(k), self.pos(k))]
            for _, x in vw.ints():
                if x.size() >= 32:
                    out += [zx(x) == zx(self.st(k)), zx(x) == self.acc(k), sx(x) == self.pos(k)]
            for _, p in vw.ptrs(self.data):
                out.append(p.off == self.pos(k))
            return out
        L.cands.append(cands)
        # the search inside: relative to the pick for whatever state and character the comparison is about
        seen = {}

        def inner(vw):
            out = []
            for n, c in self.pairs:
                j, l = self.d.pick(n, c), self.d.count(n)
                for _, x in vw.ints(32):
                    out += [ULE(x, j), U(j, x), ULE(x, j + 1), ULE(x, l), U(x, l)]
            return out
        L.cands.append(inner)


def run(v, enc):
    d = Dfa(v)
    r = Run(v, d, enc == 'utf8')
    r.pairs = []
    old = d.on_cmp

    def on_cmp(s, a, b):
        for x, c in ((a, b), (b, a)):
            x = simp(x)
            if not v.concrete and z3.is_app(x) and c.size() == 32 and x.decl().name() == d.lowdecl:
                for n in d.owners(x.arg(0)):
                    if not any(n.eq(q[0]) and c.eq(q[1]) for q in r.pairs):
                        r.pairs = (r.pairs + [(n, c)])[-1:]
        old(s, a, b)
    v.E.cmp_hook = on_cmp
    rg = v.obj('regex', O('robject_t') + 8, cells={O('robject_t'): (8, d.p)})
    for s in v.call('rex_regex_match', [Ptr(rg), bv(1 if enc == 'byte' else 0, 32), Ptr(r.data), Ptr(r.data, r.n)]):
        if v.concrete:
            k = next(i for i in range(5) if z3.is_true(simp(r.stop(bv(i)))))
            v.check(s, sx(s.ret) == r.acc(bv(k)), 'longest accepted prefix')
            continue
        v.check(s, sx(s.ret) == r.acc(r.K), 'longest accepted prefix')
        v.unchanged(s, r.data, 'input unchanged')


@unit('C14', 'match', params=['byte', 'utf8'], timeout=700, targets=['rex_regex_match', 'rex_regex_match_byte', 'rex_regex_match_utf8'])
def match(v, enc):
    """the automaton is run to the end of the input or to the dead state; the longest accepted prefix is reported"""
    run(v, enc)


# ---------------------------------------------------------------- accessors
@unit('C14', 'accessors', params=['state', 'transition', 'substate', 'accsubstate'], targets=['rex_dfa_state', 'rex_dfa_transition', 'rex_dfa_substate', 'rex_dfa_accsubstate'])
def accessors(v, k):
    """the n-th entry of the state's slice of the table, or NULL beyond it"""
    d = Dfa(v)
    n, i = v.bv('state', 32), v.bv('i', 32)
    total = v.bv('total', 32)
    v.assume(U(total, bv(1 << 30, 32)))
    v.small(total, 4)
    tab = v.obj('subtable', zx(total) * bv(O('rexdfss_t')))
    bf, cf = v.fun('subbase', 32, 32), v.fun('subcount', 32, 32)
    v.assume(Implies(U(n, d.ns), d.slice_ok(n)))
    i32 = lambda x: simp(z3.Extract(31, 0, x))
    sl = lambda x: slice_(v, bf, cf, x, total, 0)
    if k.endswith('substate'):
        d.states.base.regions[0].fields.update({FS(k + 's'): (4, lambda x: sl(i32(x))[0]), FS('n' + k + 's'): (4, lambda x: sl(i32(x))[1])})
        d.o.base.cells.update({FD(k + 's'): (8, Ptr(tab)), FD('n' + k + 's'): (4, total)})
    for s in v.call('rex_dfa_' + k, [d.p, n] + ([] if k == 'state' else [i])):
        if k == 'state':
            null, p = z3.UGE(n, d.ns), Ptr(d.states, zx(n) * bv(SS()))
        elif k == 'transition':
            null, p = Or(z3.UGE(n, d.ns), z3.UGE(i, d.count(n))), Ptr(d.trans, zx(d.base(n) + i) * bv(ST_()))
        else:
            b, l = sl(n)
            null, p = Or(z3.UGE(n, d.ns), z3.UGE(i, l)), Ptr(tab, zx(b + i) * bv(O('rexdfss_t')))
        t = v.given(s, null)
        if t is not None:
            v.check(t, v.is_null(s.ret), 'nothing beyond the slice')
        t = v.given(s, Not(null))
        if t is not None:
            v.check(t, v.peq(s.ret, p), 'entry of the slice')
            if isinstance(s.ret, Ptr):
                v.E.check_access(t, s.ret, {'state': SS(), 'transition': ST_()}.get(k, O('rexdfss_t')), 'entry')
        v.unchanged(s, d.o, 'automaton unchanged')


# ---------------------------------------------------------------- searching
class Scan:
    """M(p): what matching at p yields (contract of the match function).  The prefilter is sound: when the
    bit of the window at p is clear nothing matches at p.  K: the first character position with a match."""

    def __init__(self, v, utf8):
        self.v, self.utf8 = v, utf8
        v.noreplay = True
        v.E.feas_ms = 300
        self.n = v.bv('size')
        v.assume(U(self.n, bv(1 << 31)))
        v.small(self.n, 4)
        self.data = v.obj('input', self.n)
        self.Mf, self.DL, self.DW = v.fun('M', 64, 32), v.fun('declen', 64, 32), v.fun('decchar', 64, 32)
        self.NX, self.ch = v.fun('NX', 64, 64), v.fun('CH', 64, 32)
        self.N3, self.win = v.fun('N3', 64, 64), v.fun('WIN', 64, 32)
        self.K = v.bv('K')
        v.assume(ULE(self.K, self.n))
        z = p0 = bv(0)
        chars, p = [], z
        for _ in range(3):
            chars.append(self.chdef(p))
            p = simp(z3.If(U(p, self.n), p + self.len(p), p))
        w = bv(0, 32)
        for c in chars:
            w = (w << 5) | (c & bv(31, 32))
        v.assume(self.N3(z) == p, self.win(z) == w)
        v.assume(Or(self.K == self.n, self.M(self.K) != 0))
        self.bits = v.obj('bits', 4096)
        self.dfa = v.obj('dfa', FD(None), cells={FD('bits'): (8, Ptr(self.bits))})
        self.rg = v.obj('regex', O('robject_t') + 8, cells={O('robject_t'): (8, Ptr(self.dfa))})
        for enc in ('byte', 'utf8'):
            v.E.contracts['rex_regex_match_' + enc] = self.matcher(enc)
        v.E.contracts['r_utf8_mbtowc'] = self.decode
        v.E.loop_specs['*'] = self.hint

    def byte(self, p):
        return self.v.E.rd(self.v.s, Ptr(self.data, p), 1)

    def M(self, p):
        m = self.Mf(p)
        return z3.If(ULE(zx(m), self.n - p), m, bv(0, 32))

    def len(self, p):
        if not self.utf8:
            return bv(1)
        l = self.DL(p)
        return z3.If(U(self.byte(p), bv(0x80, 8)), bv(1), zx(z3.If(And(ULE(bv(1, 32), l), ULE(l, bv(6, 32)), ULE(zx(l), self.n - p)), l, bv(1, 32))))

    def chdef(self, p):
        b = self.byte(p)
        return z3.If(U(p, self.n), z3.If(Or(BoolV(not self.utf8), U(b, bv(0x80, 8))), zx(b, 32), self.DW(p)), bv(0, 32))

    def nx(self, p, k=1):
        for _ in range(k):
            p = self.NX(p)
        return p

    def defs(self, p):
        """definitions of the next position and of the character at p"""
        return [self.NX(p) == z3.If(U(p, self.n), p + self.len(p), p), self.ch(p) == self.chdef(p)]

    def matcher(self, enc):
        def h(E, s, a, ins):
            rg, p, q = a
            good = enc == ('utf8' if self.utf8 else 'byte') and all(isinstance(x, Ptr) for x in a) and rg.obj is self.rg and p.obj is self.data and q.obj is self.data
            E.prove(s, And(ULE(p.off, self.n), q.off == self.n) if good else FALSE, 'match-tried-on-the-rest-of-the-input')
            if not good:
                raise PathDead()
            return [(s, self.M(p.off))]
        return h

    def decode(self, E, s, a, ins):
        out, p, q = a
        ok = isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj is self.data and q.obj is self.data
        E.prove(s, And(ULE(p.off, q.off), q.off == self.n) if ok else FALSE, 'decoder-called-on-the-rest-of-the-input')
        if not ok:
            raise PathDead()
        t = s.copy()
        s.assume(p.off == self.n)
        t.assume(U(p.off, self.n))
        E.store(t, out, 4, self.chdef(p.off))
        return [x for x in ((s, bv(0, 32)), (t, simp(z3.Extract(31, 0, self.len(p.off))))) if E.feasible(x[0], TRUE)]

    def facts(self, p):
        """instances at character position p of: soundness of the prefilter, no match before K, K is a character position"""
        w, q, p1 = self.win(p), self.N3(p), self.NX(p)
        B = zx(self.v.E.rd(self.v.s, Ptr(self.bits, zx(z3.LShR(w, 3))), 1), 32)
        r = self.defs(p) + self.defs(q)
        # the window moves along with the position
        r += [U(w, bv(1 << 15, 32)), self.N3(p1) == self.NX(q), self.win(p1) == (((w << 5) | (self.ch(q) & bv(31, 32))) & bv(0x7fff, 32))]
        r += [ULE(q, self.n), ULE(p, q), Implies(U(p, self.n), U(p, q)), Implies(U(q, self.n), U(p1, q))]
        return r + [Implies((B & (bv(1, 32) << (w & bv(7, 32)))) == 0, self.M(p) == 0),
                Implies(U(p, self.K), And(self.M(p) == 0, ULE(p + self.len(p), self.K)))]

    def hint(self, L):
        n = L.const_trip()
        if n:
            L.unroll = n
            return
        L.no_auto = L.strong = True

        def head(h, vals, k):
            for x in vals.values():
                if isinstance(x, Ptr) and x.obj is self.data:
                    for c in self.facts(x.off):
                        h.assume(c)
        L.custom_head = head

        def cands(vw):
            ps = [p.off for _, p in vw.ptrs(self.data)]
            out = []
            for p in ps:
                out += [ULE(p, self.n), U(p, self.n), ULE(p, self.K)]
                out += [q == self.N3(p) for q in ps if q is not p]
                out += [x == self.win(p) for _, x in vw.ints(32)]
            return out
        L.cands.append(cands)


@unit('C14', 'scan', params=['byte'], tier='thorough', timeout=800, targets=['rex_regex_scan', 'rex_regex_scan_byte', 'rex_regex_scan_utf8'])
def scan(v, enc):
    """the first position with a match is reported with its length, or nothing when there is none"""
    c = Scan(v, enc == 'utf8')
    where = v.obj('where', 8)
    old = v.E.rd(v.s, Ptr(where), 8)
    for s in v.call('rex_regex_scan', [Ptr(c.rg), bv(1 if enc == 'byte' else 0, 32), Ptr(c.data), Ptr(c.data, c.n), Ptr(where)]):
        t = v.given(s, c.K == c.n)
        if t is not None:
            v.check(t, s.ret == bv(0, 32), 'no match')
        t = v.given(s, U(c.K, c.n))
        if t is not None:
            v.check(t, s.ret == c.M(c.K), 'length of the first match')
            w = v.rdp(t, Ptr(where))
            v.check(t, v.peq(w, Ptr(c.data, c.K)), 'position of the first match')
        v.unchanged(s, c.data, 'input unchanged')
