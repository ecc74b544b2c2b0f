from .common import *
from .c16_match import Stat, Regs, ins, ST, C, NONE, HP

want(HP, 'rpacache_t', ['hit', 'disalbled', 'serial', 'entry'])
want(HP, 'rpacachedentry_t', ['ruleid', 'top', 'ret', 'startrec', 'recsize', 'serial', 'records'])
want(HP, 'rpa_ruledata_t', ['size', 'ruleid', 'ruleuid', 'flags', 'namesize', 'name'])
want(HP, 'rparecord_t', ['top', 'size', 'rule', 'input', 'inputsiz', 'inputoff', 'userdata', 'ruleid', 'ruleuid', 'type', 'usertype'])
want(HP, None, ['RPA_MCACHE_SIZE', 'RPA_RFLAG_EMITRECORD', 'RPA_RFLAG_LEFTRECURSION', 'RPA_LOOP_PATH', 'RPA_RECORD_START', 'RPA_RECORD_END'])
CA = lambda f=None: O('rpacache_t', f)
EN = lambda f=None: O('rpacachedentry_t', f)
AR = lambda f=None: O('rarray_t', f)
RC = lambda f=None: O('rparecord_t', f)
RD = lambda f=None: O('rpa_ruledata_t', f)
KEY = ('ruleid', 'top', 'ret', 'recsize', 'serial')


class Cache:
    """any cache contents; no entry is newer than the current evaluation"""

    def __init__(self, v):
        self.v = v
        self.n = C('RPA_MCACHE_SIZE')
        self.cur, self.off = v.bv('serial'), v.bv('disabled')
        v.assume(self.cur != NONE, self.cur != 0)
        f = {k: v.fun('e_' + k, 64, 64) for k in KEY + ('startrec',)}
        sf = f['serial']
        f['serial'] = lambda i: z3.If(ULE(sf(i), self.cur), sf(i), self.cur)
        ln = v.fun('e_len', 64, 64)
        self.arrs = v.obj('entryrecords', self.n * AR(), regions=[Region(0, AR(), {AR('len'): (8, lambda i: ln(i))})])
        reg = {EN(k): (8, (lambda g: lambda i: g(i))(g)) for k, g in f.items()}
        reg[EN('records')] = (8, lambda i: Ptr(self.arrs, simp(i * bv(AR()))))
        self.o = v.obj('cache', CA(), cells={CA('hit'): (8, v.bv('hit')), CA('disalbled'): (8, self.off), CA('serial'): (8, self.cur)},
                       regions=[Region(CA('entry'), EN(), reg, count=bv(self.n))])
        self.p = Ptr(self.o)

    def lenp(self, e, s):
        return self.v.rdp(s, e + EN('records')) + AR('len')


def ghost_contracts(v, c, source, want_next):
    """the same, for the one array of an entry that is being filled: (which, length) kept aside"""
    g = v.obj('filling', 16, cells={0: (8, NONE), 8: (8, bv(0))})

    def setlen(E, s, a, i):
        E.prove(s, BoolV(isinstance(a[0], Ptr) and a[0].obj is c.arrs), 'array resized')
        E.prove(s, E.rd(s, Ptr(g), 8) == NONE, 'one array')
        E.store(s, Ptr(g), 8, a[0].off)
        E.store(s, Ptr(g, bv(8)), 8, a[1])
        return [(s, bv(0, 32))]

    def add(E, s, a, i):
        ok = isinstance(a[0], Ptr) and a[0].obj is c.arrs and isinstance(a[1], Ptr) and a[1].obj is source
        E.prove(s, BoolV(ok), 'appends a record')
        if not ok:
            raise PathDead()
        E.prove(s, a[0].off == E.rd(s, Ptr(g), 8), 'to the array being filled')
        l = E.rd(s, Ptr(g, bv(8)), 8)
        E.prove(s, a[1].off == want_next(l), 'records kept in order')
        E.store(s, Ptr(g, bv(8)), 8, l + 1)
        return [(s, l)]
    v.E.contracts['r_array_setlength'] = setlen
    v.E.contracts['r_array_add'] = add

    def length(s, e):
        a = v.rdp(s, e + EN('records'))
        return z3.If(a.off == v.rd(s, Ptr(g)), v.rd(s, Ptr(g, bv(8))), v.rd(s, a + AR('len')))
    return length


def array_contracts(v, target, source, want_next):
    """r_array_setlength and r_array_add by their contracts (C02), on the arrays given"""
    def setlen(E, s, a, i):
        E.prove(s, BoolV(isinstance(a[0], Ptr) and a[0].obj is target), 'array resized')
        E.store(s, a[0] + AR('len'), 8, a[1])
        return [(s, bv(0, 32))]

    def add(E, s, a, i):
        ok = isinstance(a[0], Ptr) and a[0].obj is target and isinstance(a[1], Ptr) and a[1].obj is source
        E.prove(s, BoolV(ok), 'appends a record')
        if not ok:
            raise PathDead()
        l = E.rd(s, a[0] + AR('len'), 8)
        E.prove(s, a[1].off == want_next(l), 'records kept in order')
        E.store(s, a[0] + AR('len'), 8, l + 1)
        return [(s, l)]
    v.E.contracts['r_array_setlength'] = setlen
    v.E.contracts['r_array_add'] = add


@unit('C17', 'remember', params=['records', 'match-only'], targets=['rpa_cache_set', 'rpa_cache_lookup'])
def remember(v, kind):
    """what is remembered is found again under the same rule and position only; other remembered results stay as they are"""
    v.noreplay = True
    c = Cache(v)
    top, rule, ret, start, size = [v.bv(x) for x in ('top', 'rule', 'ret', 'startrec', 'size')]
    top2, rule2 = v.bv('top2'), v.bv('rule2')
    v.assume(U(size, bv(1 << 31)), U(start, bv(1 << 31)))
    src = Arr(v, 'records', RC(), maxn=1 << 33)
    v.assume(ULE(start + size, src.len))
    length = ghost_contracts(v, c, src.data, lambda l: (start + l) * bv(RC()))
    rp = src.p if kind == 'records' else bv(0)
    kept = Not(And(ret > 0, size > 128))
    for s in v.call('rpa_cache_set', [c.p, top, rule, ret, rp, start, size]):
        same = And(top == top2, rule == rule2)
        for u in v.call('rpa_cache_lookup', [c.p, top2, rule2], state=s):
            e = u.ret
            if not isinstance(e, Ptr):
                v.check(u, Or(Not(same), c.off != 0, Not(kept)), 'a remembered result is found again')
                continue
            g = lambda f: v.rd(u, e + EN(f))
            v.check(u, BoolV(e.obj is c.o), 'an entry of the cache')
            v.check(u, And(c.off == 0, g('ruleid') == rule2, g('top') == top2, g('serial') == c.cur), 'the entry is for this rule, position and run')
            w = v.given(u, same, kept)
            if w:
                v.check(w, And(v.rd(w, e + EN('ret')) == ret, v.rd(w, e + EN('recsize')) == size), 'the result remembered')
                v.check(w, length(w, e) == (size if kind == 'records' else bv(0)), 'all its records')
            w = v.given(u, Or(Not(same), Not(kept)))
            if w:
                for f in KEY:
                    v.check(w, v.rd(w, e + EN(f)) == v.E.rd(v.s, e + EN(f), 8), 'other results unchanged')
                v.check(w, length(w, e) == v.E.rd(v.s, c.lenp(e, w), 8), 'other records unchanged')


@unit('C17', 'forget', targets=['rpa_cache_invalidate', 'rpa_cache_lookup'])
def forget(v):
    """after a new run starts nothing remembered before is found"""
    c = Cache(v)
    top, rule = v.bv('top'), v.bv('rule')
    for s in v.call('rpa_cache_invalidate', [c.p]):
        for u in v.call('rpa_cache_lookup', [c.p, top, rule], state=s):
            v.check(u, v.is_null(u.ret), 'nothing is found')


@unit('C17', 'switched-off', targets=['rpa_cache_disable', 'rpa_cache_lookup'])
def off(v):
    """a disabled cache remembers nothing"""
    c = Cache(v)
    top, rule, d = v.bv('top'), v.bv('rule'), v.bv('d')
    for s in v.call('rpa_cache_disable', [c.p, d]):
        for u in v.call('rpa_cache_lookup', [c.p, top, rule], state=s):
            w = v.given(u, d != 0)
            if w:
                v.check(w, v.is_null(w.ret), 'nothing is found')


def recording(v, t):
    """the record array of a run, seen through its length"""
    n = v.bv('reclen')
    v.assume(U(n, bv(1 << 31)))
    o = v.obj('recs', AR(), cells={AR('len'): (8, n)})
    v.E.store(v.s, t.p + ST('records'), 8, Ptr(o))
    return o, n


@unit('C17', 'reuse', params=['records', 'match-only'], targets=['rpavm_swi_checkcache'])
def reuse(v, kind):
    """reusing a result reproduces its position, its status and its records, and nothing happens when there is none"""
    v.noreplay = True
    t = Stat(v)
    op1, op2 = v.bv('op1', 4), v.bv('op2', 4)
    rule, top, rec = t.regs.old(op1), t.regs.old(op2), t.regs.old('R_REC')
    cache = v.obj('cache', CA())
    v.E.store(v.s, t.p + ST('cache'), 8, Ptr(cache))
    ret, rs = v.bv('ret'), v.bv('recsize')
    src = Arr(v, 'remembered', RC(), maxn=1 << 20)
    ent = v.obj('entry', EN(), cells={EN('ret'): (8, ret), EN('recsize'): (8, rs), EN('records'): (8, src.p)})
    v.assume(rec >= -1, U(rec + 1, bv(1 << 31)))
    if kind == 'records':
        o, n = recording(v, t)
        array_contracts(v, o, src.data, lambda l: (l - (rec + 1)) * bv(RC()))
    else:
        v.assume(rs == 0)
    found = v.bv('found', 1) == 1

    def lookup(E, s, a, i):
        E.prove(s, And(v.peq(a[0], Ptr(cache)), a[1] == top, a[2] == rule), 'rule and position looked up')
        u = s.copy()
        s.assume(found)
        u.assume(Not(found))
        return [(s, Ptr(ent)), (u, bv(0))]
    v.E.contracts['rpa_cache_lookup'] = lookup
    hit = And(found, ret > 0)
    Zb, Nb = bv(C('RVM_STATUS_Z')), bv(C('RVM_STATUS_N'))
    for s in v.call('rpavm_swi_checkcache', [t.regs.p, ins(v, op1, op2)]):
        r = z3.If(found, ret, bv(0))
        v.check(s, t.regs.new(s, 'R0') == r, 'the remembered result')
        v.check(s, (t.regs.st(s) & (Zb | Nb)) == z3.If(r == 0, Zb, z3.If(r < 0, Nb, bv(0))), 'status')
        v.check(s, t.regs.new(s, 'R_TOP') == z3.If(hit, top + ret, t.regs.old('R_TOP')), 'position')
        if kind == 'records':
            emit = And(hit, rs != 0)
            v.check(s, t.regs.new(s, 'R_REC') == z3.If(emit, rec + src.len, rec), 'last record')
            v.check(s, v.rd(s, Ptr(o, bv(AR('len')))) == z3.If(emit, rec + 1 + src.len, n), 'all remembered records emitted')
        t.regs.frame(s, ['R0', 'R_TOP', 'R_REC'])


@unit('C17', 'record-result', targets=['rpavm_swi_setcache'])
def setcache(v):
    """the result handed to the cache is the one of this rule at this position, with the records it emitted"""
    v.noreplay = True
    t = Stat(v)
    op = [v.bv('op%d' % i, 4) for i in (1, 2, 3)]
    rule, prev, end = [t.regs.old(x) for x in op]
    r0, top = t.regs.old('R0'), t.regs.old('R_OTP')
    cache = v.obj('cache', CA())
    v.E.store(v.s, t.p + ST('cache'), 8, Ptr(cache))
    o, n = recording(v, t)
    g = v.obj('ghost', 8, cells={0: (8, bv(0))})

    def cset(E, s, a, i):
        full = And(r0 > 0, prev != end)
        E.prove(s, And(v.peq(a[0], Ptr(cache)), a[1] == top, a[2] == rule, a[3] == r0, v.peq(a[4], Ptr(o))), 'rule, position and result')
        E.prove(s, a[6] == z3.If(full, end - prev, bv(0)), 'number of records')
        E.prove(s, Or(Not(full), a[5] == prev + 1), 'first record')
        E.store(s, Ptr(g), 8, E.rd(s, Ptr(g), 8) + 1)
        return [(s, None)]
    v.E.contracts['rpa_cache_set'] = cset
    for s in v.call('rpavm_swi_setcache', [t.regs.p, ins(v, *op)]):
        v.check(s, v.rd(s, Ptr(g)) == 1, 'remembered once')
        v.check(s, t.regs.st(s) == t.regs.status, 'status')
        t.regs.frame(s, [])


@unit('C17', 'drop-records', targets=['rpavm_swi_emittail'])
def tail(v):
    """records emitted by a failed attempt are dropped"""
    v.noreplay = True
    t = Stat(v)
    o, n = recording(v, t)
    rec = t.regs.old('R_REC')
    array_contracts(v, o, None, lambda l: l)
    for s in v.call('rpavm_swi_emittail', [t.regs.p, ins(v, None)]):
        v.check(s, v.rd(s, Ptr(o, bv(AR('len')))) == rec + 1, 'records up to the current one kept')
        t.regs.frame(s, [])


@unit('C17', 'emit', params=['start', 'end'], targets=['rpavm_swi_emitstart', 'rpavm_swi_emitend'])
def emit(v, kind):
    """a record describes the rule, the position and the extent of the match, and follows the last one"""
    v.noreplay = True
    t = Stat(v)
    src = Arr(v, 'recs', RC(), maxn=1 << 31)
    v.E.store(v.s, t.p + ST('records'), 8, src.p)
    op = [v.bv('op%d' % i, 4) for i in (1, 2, 3)]
    rec = t.regs.old('R_REC')
    tp, ln = t.regs.old(op[1]), t.regs.old(op[2])
    f = {k: v.bv('rule.' + k) for k in ('ruleid', 'ruleuid', 'flags', 'namesize', 'name')}
    rd = v.obj('ruledata', bv(1 << 12), cells={RD(k): (8, x) for k, x in f.items()})
    v.assume(U(f['name'], bv(1 << 12)))
    v.E.store(v.s, t.regs.at(op[0]), 8, Ptr(rd))
    v.assume(*[x != op[0] for x in op[1:]])
    v.assume(rec >= -1, rec + 1 <= src.len, U(rec + 1, src.alloc), tp >= 0, ULE(tp, t.serial), ULE(ln, t.serial), ULE(tp + ln, t.serial))
    st = t.regs.old('R1') + 1
    W = v.witness('W')
    if kind == 'end':
        v.assume(st >= 0, st <= rec)
        v.assume(op[0] != bv(C('R1'), 4))
    v.assume(op[0] != bv(C('R_REC'), 4))
    new = rec + 1

    def replace(E, s, a, i):
        E.prove(s, And(v.peq(a[0], src.p), a[1] == new, BoolV(not isinstance(a[2], Ptr))), 'the record after the last one')
        E.store(s, src.p + AR('len'), 8, z3.If(src.len == new, new + 1, src.len))
        return [(s, a[1])]
    v.E.contracts['r_array_replace'] = replace
    on = (f['flags'] & bv(C('RPA_RFLAG_EMITRECORD'))) != 0
    lo32 = lambda x: z3.Extract(31, 0, x)
    size = t.pos(tp + ln) - t.pos(tp)
    for s in v.call('rpavm_swi_emit' + kind, [t.regs.p, ins(v, *op)]):
        t.regs.frame(s, ['R_REC'], 'other registers') if False else None
        v.check(s, t.regs.new(s, 'R_REC') == z3.If(on, new, rec), 'current record')
        v.check(s, src.nlen(s) == z3.If(And(on, src.len == new), new + 1, src.len), 'number of records')
        u = v.given(s, on)
        if u:
            r = lambda i, k, z=8: src.new(u, i, RC(k), z)
            v.check(u, r(new, 'type', 4) == bv(C('RPA_RECORD_' + kind.upper()), 32), 'kind of record')
            v.check(u, And(r(new, 'ruleid', 4) == lo32(f['ruleid']), r(new, 'ruleuid', 4) == lo32(f['ruleuid'])), 'rule')
            v.check(u, v.peq(v.rdp(u, Ptr(src.data, new * bv(RC()) + RC('rule'))), Ptr(rd, f['name'])), 'rule name')
            v.check(u, v.peq(v.rdp(u, Ptr(src.data, new * bv(RC()) + RC('input'))), Ptr(t.inp, t.pos(tp))), 'where the match starts')
            v.check(u, And(r(new, 'inputoff') == t.pos(tp), r(new, 'top', 4) == lo32(tp)), 'offset of the match')
            if kind == 'start':
                v.check(u, r(new, 'inputsiz') == 0, 'size')
            else:
                v.check(u, And(r(new, 'inputsiz') == size, r(new, 'size', 4) == lo32(ln)), 'size of the match')
                v.check(u, And(r(st, 'inputsiz') == size, r(st, 'size', 4) == lo32(ln)), 'size in the start record')
        w = v.given(s, U(W, src.len), Or(Not(on), And(W != new, Or(W != st, BoolV(kind == 'start')))))
        if w:
            for k, z in (('type', 4), ('ruleid', 4), ('ruleuid', 4), ('top', 4), ('size', 4), ('inputsiz', 8), ('inputoff', 8), ('userdata', 8), ('usertype', 4)):
                v.check(w, src.new(w, W, RC(k), z) == src.old(W, RC(k), z), 'other records unchanged')
