"""Small layer over z3: term helpers, slicing, query cache, statistics."""
import time
import z3
from . import intblast

z3.set_param('smt.random_seed', 1)
BV64 = z3.BitVecSort(64)
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)

_bvc = {}


def bv(v, w=64):
    k = (v, w)
    r = _bvc.get(k)
    if r is None:
        r = z3.BitVecVal(v, w)
        _bvc[k] = r
    return r


_fresh = [0]


def fresh(name, w=64):
    _fresh[0] += 1
    return z3.BitVec('%s!%d' % (name, _fresh[0]), w)


def fresh_id():
    _fresh[0] += 1
    return _fresh[0]


def fresh_bool(name):
    _fresh[0] += 1
    return z3.Bool('%s!%d' % (name, _fresh[0]))


def fresh_fun(name, *sorts):
    _fresh[0] += 1
    return z3.Function('%s!%d' % (name, _fresh[0]), *sorts)


def is_num(t):
    return z3.is_bv_value(t)


def num(t):
    return t.as_long()


def snum(t):
    return t.as_signed_long()


_simp = {}


def simp(t):
    """simplify with sum-of-monomials, memoised"""
    k = t.get_id()
    r = _simp.get(k)
    if r is not None:
        return r[1]
    u = z3.simplify(t, som=True, som_blowup=20, mul_to_power=False)
    _simp[k] = (t, u)
    _simp[u.get_id()] = (u, u)
    if len(_simp) > 400000:
        _simp.clear()
    return u


_vars = {}


def vars_of(t):
    """set of (decl ids) of uninterpreted symbols in t"""
    k = t.get_id()
    r = _vars.get(k)
    if r is not None:
        return r[1]
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        c = _vars.get(i)
        if c is not None:
            out |= c[1]
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    r = frozenset(out)
    _vars[k] = (t, r)
    return r


def And(*a):
    a = [x for x in a if not z3.is_true(x)]
    if not a:
        return TRUE
    if len(a) == 1:
        return a[0]
    return z3.And(*a)


def Or(*a):
    a = [x for x in a if not z3.is_false(x)]
    if not a:
        return FALSE
    if len(a) == 1:
        return a[0]
    return z3.Or(*a)


def Not(a):
    return z3.Not(a)


def Implies(a, b):
    return z3.Implies(a, b)


_ABS = {}
NLOPS = {z3.Z3_OP_BMUL: 'mul', z3.Z3_OP_BUDIV: 'udiv', z3.Z3_OP_BUDIV_I: 'udiv', z3.Z3_OP_BUREM: 'urem', z3.Z3_OP_BUREM_I: 'urem',
         z3.Z3_OP_BSDIV: 'sdiv', z3.Z3_OP_BSDIV_I: 'sdiv', z3.Z3_OP_BSREM: 'srem', z3.Z3_OP_BSREM_I: 'srem', z3.Z3_OP_BSMOD: 'smod', z3.Z3_OP_BSMOD_I: 'smod'}


def _rebuild(t, ch):
    k = t.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if k == z3.Z3_OP_DISTINCT:
        return z3.Distinct(*ch)
    if k == z3.Z3_OP_CONCAT:
        return z3.Concat(*ch)
    if k == z3.Z3_OP_BADD:
        r = ch[0]
        for c in ch[1:]:
            r = r + c
        return r
    if k in (z3.Z3_OP_BOR, z3.Z3_OP_BAND, z3.Z3_OP_BXOR, z3.Z3_OP_BMUL):
        r = ch[0]
        for c in ch[1:]:
            r = {z3.Z3_OP_BOR: lambda a, b: a | b, z3.Z3_OP_BAND: lambda a, b: a & b, z3.Z3_OP_BXOR: lambda a, b: a ^ b, z3.Z3_OP_BMUL: lambda a, b: a * b}[k](r, c)
        return r
    raise intblast.Unsupported('rebuild ' + str(t.decl()))


def _noise(a):
    k = a.decl().kind()
    if k == z3.Z3_OP_NOT:
        a = a.arg(0)
        k = a.decl().kind()
        return k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGT)
    return k in (z3.Z3_OP_OR, z3.Z3_OP_SLEQ, z3.Z3_OP_SGEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGT)


class Stats:
    def __init__(self):
        self.queries = 0
        self.cached = 0
        self.time = 0.0
        self.unknown = 0
        self.slow = []
        self.bv = 0
        self.lia = 0
        self.unsupp = {}


class Smt:
    """Satisfiability of a conjunction, with cone-of-influence slicing and a cache."""

    def __init__(self, timeout_ms=20000):
        self.timeout = timeout_ms
        self.cache = {}
        self.stats = Stats()
        self.deadline = None
        self.dump = None
        self.first_ms = 150

    def slice(self, pc, goal):
        need = set(vars_of(goal))
        todo = [(p, vars_of(p)) for p in pc]
        out = []
        ch = True
        while ch and todo:
            ch = False
            rest = []
            for p, v in todo:
                if not v or (v & need):
                    if v:
                        out.append(p)
                        need |= v
                        ch = True
                    elif z3.is_false(p):
                        out.append(p)
                else:
                    rest.append((p, v))
            todo = rest
        return out

    def check(self, pc, goal, full=False, want_model=False, timeout=None, approx=False):
        """is  /\\pc /\\ goal satisfiable?  -> 'sat' | 'unsat' | 'unknown', model"""
        g = simp(goal)
        if z3.is_false(g):
            return 'unsat', None
        if z3.is_true(g) and not full:
            return 'sat', None
        asm = list(pc) if full else self.slice(pc, g)
        key = (frozenset(a.get_id() for a in asm), g.get_id(), approx)
        if not want_model:
            r = self.cache.get(key)
            if r is not None:
                self.stats.cached += 1
                return r[0], None
        t0 = time.time()
        tmo = timeout or self.timeout
        if self.deadline:
            left = self.deadline - t0
            if left <= 0.5:
                return 'unknown', None
            tmo = min(tmo, int(left * 1000))
        r = None
        if approx:
            r = self.abstracted(asm + [g], tmo, True)
            if r == 'unknown':
                r = None
        if r is None:
            r, m = self.solve(asm + [g], tmo, want_model)
        else:
            m = None
            self.stats.bv += 1
        dt = time.time() - t0
        self.stats.queries += 1
        self.stats.time += dt
        if dt > 2:
            self.stats.slow.append(round(dt, 1))
        if r == 'unknown':
            self.stats.unknown += 1
        if r != 'unknown':
            self.cache[key] = (r, asm, g)
        return r, m

    def abstracted(self, asm, tmo, want=False):
        """multiplication and division as uninterpreted functions: unsat stays unsat"""
        cache = _ABS
        if len(cache) > 300000:
            cache.clear()
        hit = [False]

        def go(t):
            k = t.get_id()
            r = cache.get(k)
            if r is not None:
                if r[1] is not r[0]:
                    hit[0] = True
                return r[1]
            if not z3.is_app(t):
                raise intblast.Unsupported('quantifier')
            ch = [go(c) for c in t.children()]
            dk = t.decl().kind()
            nm = NLOPS.get(dk)
            if nm is not None and (nm != 'mul' or sum(0 if is_num(c) else 1 for c in ch) > 1) and not (nm != 'mul' and is_num(ch[1])):
                hit[0] = True
                w = t.size()
                f = z3.Function('nl_%s%d' % (nm, w), *([z3.BitVecSort(w)] * 3))
                u = ch[0]
                for c in ch[1:]:
                    u = f(u, c) if nm != 'mul' else z3.If(z3.ULE(u, c), f(u, c), f(c, u))
            elif ch and any(not a.eq(b) for a, b in zip(ch, t.children())):
                u = t.decl()(*ch) if len(ch) == t.decl().arity() else _rebuild(t, ch)
            else:
                u = t
            cache[k] = (t, u)
            return u
        asm = [a for a in asm]
        try:
            new = [go(a) for a in asm]
        except intblast.Unsupported:
            return None if want else False
        if not hit[0]:
            return None if want else False
        s = z3.Solver()
        s.set('timeout', min(tmo, 3000))
        s.add(*new)
        r = str(s.check())
        return r if want else r == 'unsat'

    def solve(self, asm, tmo, want_model):
        """portfolio: short bit-vector attempt, integer translation, long bit-vector attempt"""
        t0 = time.time()
        first = min(tmo, self.first_ms)
        s = z3.Solver()
        s.set('timeout', first)
        s.add(*asm)
        r = str(s.check())
        if r != 'unknown':
            self.stats.bv += 1
            return r, (s.model() if r == 'sat' and want_model else None)
        if self.abstracted(asm, tmo):
            self.stats.bv += 1
            return 'unsat', None
        if len(asm) > 30:
            # fewer assumptions first: clauses and signed comparisons are mostly
            # redundant loop-invariant candidates, and dropping them is sound
            lean = [a for a in asm[:-1] if not _noise(a)]
            if len(lean) + 8 < len(asm):
                lean.append(asm[-1])
                try:
                    l2, _ = intblast.translate(lean)
                    s = z3.Solver()
                    s.set('timeout', min(3000, max(500, tmo // 8)))
                    s.add(*l2)
                    if s.check() == z3.unsat:
                        self.stats.lia += 1
                        return 'unsat', None
                except intblast.Unsupported:
                    s = z3.Solver()
                    s.set('timeout', min(3000, max(500, tmo // 8)))
                    s.add(*lean)
                    if s.check() == z3.unsat:
                        self.stats.bv += 1
                        return 'unsat', None
        li = None
        try:
            li, tr = intblast.translate(asm)
        except intblast.Unsupported as e:
            self.stats.unsupp[str(e)] = self.stats.unsupp.get(str(e), 0) + 1
        if li is not None:
            s = z3.Solver()
            s.set('timeout', max(500, tmo // 2))
            s.add(*li)
            r = str(s.check())
            if r != 'unknown':
                self.stats.lia += 1
                if r == 'unsat' or not want_model:
                    return r, None
                im = s.model()
                s2 = z3.Solver()
                s2.set('timeout', tmo)
                s2.add(*asm)
                for nm, (bvt, iv) in tr.vars.items():
                    v = im.eval(iv, model_completion=True)
                    s2.add(bvt == z3.BitVecVal(v.as_long(), bvt.size()))
                r2 = str(s2.check())
                return 'sat', (s2.model() if r2 == 'sat' else None)
        left = tmo - int(1000 * (time.time() - t0))
        if left < 200:
            return 'unknown', None
        s = z3.Solver()
        s.set('timeout', left)
        s.add(*asm)
        r = str(s.check())
        if r != 'unknown':
            self.stats.bv += 1
        return r, (s.model() if r == 'sat' and want_model else None)
