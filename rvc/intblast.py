"""Exact translation of bit-vector queries to linear integer arithmetic + UF.

Every n-bit term becomes an integer in [0, 2^n); an operation that may leave the range
is corrected by an explicit wrap-around variable, so machine arithmetic is *not* treated
as mathematical: the translation is equisatisfiable.  Interval analysis over the path
condition removes the wrap-around variables where they are provably zero.
Terms with genuine bitwise structure raise Unsupported and go to the bit-vector solver."""
import z3


class Unsupported(Exception):
    pass


K = z3


class Tr:
    def __init__(self):
        self.memo = {}
        self.bool_memo = {}
        self.side = []
        self.vars = {}       # name -> (bvterm, intvar)
        self.funs = {}
        self.bounds = {}     # ast id -> [lo, hi]
        self.keep = []
        self.n = 0

    # ---------------------------------------------------------------- bounds
    def note(self, t, lo=None, hi=None):
        k = t.get_id()
        b = self.bounds.get(k)
        if b is None:
            b = self.bounds[k] = [0, (1 << t.size()) - 1]
            self.keep.append(t)
        ch = False
        if lo is not None and lo > b[0]:
            b[0] = lo
            ch = True
        if hi is not None and hi < b[1]:
            b[1] = hi
            ch = True
        return ch

    def rng(self, t):
        """cheap syntactic interval"""
        if z3.is_bv_value(t):
            v = t.as_long()
            return v, v
        b = self.bounds.get(t.get_id())
        r = (0, (1 << t.size()) - 1) if b is None else (b[0], b[1])
        d = t.decl().kind()
        if d == z3.Z3_OP_ZERO_EXT:
            r2 = self.rng(t.arg(0))
        elif d == z3.Z3_OP_CONCAT and z3.is_bv_value(t.arg(0)) and t.num_args() == 2:
            r2 = self.rng(t.arg(1))
            base = t.arg(0).as_long() << t.arg(1).size()
            r2 = (r2[0] + base, r2[1] + base)
        elif d in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL):
            lo, hi = self.arith_rng(t)
            r2 = (lo, hi) if 0 <= lo and hi < (1 << t.size()) else r
        else:
            r2 = r
        return max(r[0], r2[0]), min(r[1], r2[1])

    def arith_rng(self, t):
        w = t.size()
        if t.decl().kind() == z3.Z3_OP_BADD:
            lo = hi = 0
            for a in t.children():
                l, h = self.arith_rng(a)
                lo += l
                hi += h
            return lo, hi
        if t.decl().kind() == z3.Z3_OP_BMUL and z3.is_bv_value(t.arg(0)) and t.num_args() == 2:
            c = t.arg(0).as_long()
            if c >= 1 << (w - 1):
                c -= 1 << w
            l, h = self.rng(t.arg(1))
            return (c * l, c * h) if c >= 0 else (c * h, c * l)
        if z3.is_bv_value(t):
            c = t.as_long()
            if c >= 1 << (w - 1):
                c -= 1 << w
            return c, c
        return self.rng(t)

    def learn(self, f, pos=True):
        """bounds from one assertion; True when something changed"""
        k = f.decl().kind()
        if k == z3.Z3_OP_AND and pos:
            r = False
            for c in f.children():
                r |= self.learn(c)
            return r
        if k == z3.Z3_OP_OR and not pos:
            r = False
            for c in f.children():
                r |= self.learn(c, False)
            return r
        if k == z3.Z3_OP_NOT:
            return self.learn(f.arg(0), not pos)
        if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            a, b = f.arg(0), f.arg(1)
            if k in (z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
                a, b = b, a
            strict = k in (z3.Z3_OP_ULT, z3.Z3_OP_UGT)
            if not pos:
                a, b = b, a
                strict = not strict
            # a <= b or a < b
            r = False
            al, ah = self.rng(a)
            bl, bh = self.rng(b)
            if not z3.is_bv_value(a):
                r |= self.note(a, hi=bh - (1 if strict else 0))
                if a.decl().kind() == z3.Z3_OP_EXTRACT and a.params()[1] == 0:
                    x = a.arg(0)
                    if self.rng(x)[1] < 1 << a.size():
                        r |= self.note(x, hi=bh - (1 if strict else 0))
            if not z3.is_bv_value(b):
                r |= self.note(b, lo=al + (1 if strict else 0))
            return r
        if k in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
            a, b = f.arg(0), f.arg(1)
            if k in (z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
                a, b = b, a
            strict = k in (z3.Z3_OP_SLT, z3.Z3_OP_SGT)
            if not pos:
                a, b = b, a
                strict = not strict
            w = a.size()
            half = 1 << (w - 1)
            r = False
            al, ah = self.rng(a)
            bl, bh = self.rng(b)
            # 0 <= a (const nonneg <= x): x in [c, half-1]
            if ah < half and not z3.is_bv_value(b) and al >= 0:
                r |= self.note(b, lo=al + (1 if strict else 0), hi=half - 1)
            elif z3.is_bv_value(a) and a.as_long() == (1 << w) - 1 and strict:
                r |= self.note(b, hi=half - 1)
            # x <= b nonneg const: only useful once x is known nonneg
            if not z3.is_bv_value(a) and ah < half and bh < half:
                r |= self.note(a, hi=bh - (1 if strict else 0))
            return r
        if k == z3.Z3_OP_EQ and pos and z3.is_bv(f.arg(0)):
            a, b = f.arg(0), f.arg(1)
            r = False
            al, ah = self.rng(a)
            bl, bh = self.rng(b)
            if not z3.is_bv_value(a):
                r |= self.note(a, lo=bl, hi=bh)
            if not z3.is_bv_value(b):
                r |= self.note(b, lo=al, hi=ah)
            for x, y in ((a, b), (b, a)):
                # the high part is zero: the whole is below 2^l
                if z3.is_bv_value(y) and y.as_long() == 0 and x.decl().kind() == z3.Z3_OP_EXTRACT and x.params()[0] == x.arg(0).size() - 1:
                    r |= self.note(x.arg(0), hi=(1 << x.params()[1]) - 1)
            return r
        return False

    # ---------------------------------------------------------------- terms
    def fresh(self, nm='q'):
        self.n += 1
        return z3.Int('%s?%d' % (nm, self.n))

    def wrap(self, e, lo, hi, w):
        """e integer expression in [lo,hi]; reduce modulo 2^w"""
        M = 1 << w
        if 0 <= lo and hi < M:
            return e, lo, hi
        qlo, qhi = lo // M, hi // M
        if qlo == qhi:
            return e - qlo * M, lo - qlo * M, hi - qlo * M
        q = self.fresh()
        self.side.append(q >= qlo)
        self.side.append(q <= qhi)
        r = self.fresh('r')
        self.side.append(r == e - q * M)
        self.side.append(r >= 0)
        self.side.append(r < M)
        return r, 0, M - 1

    def term(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is not None:
            return r[1]
        e, lo, hi = self._term(t)
        b = self.bounds.get(k)
        if b is not None:
            # the bound follows from the assertions; asserting it again keeps the
            # translation exact where the assertion itself simplifies away under it
            if b[0] > lo:
                lo = b[0]
                self.side.append(e >= lo)
            if b[1] < hi:
                hi = b[1]
                self.side.append(e <= hi)
        self.memo[k] = (t, (e, lo, hi))
        return e, lo, hi

    def lin(self, t):
        """integer value of an arithmetic term without wrap (signed coefficients)"""
        w = t.size()
        d = t.decl().kind()
        if z3.is_bv_value(t):
            c = t.as_long()
            if c >= 1 << (w - 1):
                c -= 1 << w
            return z3.IntVal(c), c, c
        if t.get_id() in self.memo:
            return self.memo[t.get_id()][1]
        if d == z3.Z3_OP_BADD:
            es, lo, hi = [], 0, 0
            for a in t.children():
                e, l, h = self.lin(a)
                es.append(e)
                lo += l
                hi += h
            return z3.Sum(es), lo, hi
        if d == z3.Z3_OP_BMUL and z3.is_bv_value(t.arg(0)) and t.num_args() == 2:
            c = t.arg(0).as_long()
            if c >= 1 << (w - 1):
                c -= 1 << w
            e, l, h = self.term(t.arg(1))
            return c * e, min(c * l, c * h), max(c * l, c * h)
        return self.term(t)

    def _term(self, t):
        w = t.size()
        if z3.is_bv_value(t):
            v = t.as_long()
            return z3.IntVal(v), v, v
        d = t.decl().kind()
        if d == z3.Z3_OP_UNINTERPRETED:
            b = self.bounds.get(t.get_id(), [0, (1 << w) - 1])
            if t.num_args() == 0:
                v = z3.Int(t.decl().name())
                self.vars[t.decl().name()] = (t, v)
            else:
                f = self.fun(t.decl())
                v = f(*[self.arg(a) for a in t.children()])
            self.side.append(v >= b[0])
            self.side.append(v <= b[1])
            return v, b[0], b[1]
        if d in (z3.Z3_OP_BADD,) or (d == z3.Z3_OP_BMUL and z3.is_bv_value(t.arg(0)) and t.num_args() == 2):
            e, lo, hi = self.lin_top(t)
            return self.wrap(e, lo, hi, w)
        if d == z3.Z3_OP_BMUL:
            rs = [self.term(a) for a in t.children()]
            raise Unsupported('nonlinear')
        if d == z3.Z3_OP_BSUB:
            a, b = self.term(t.arg(0)), self.term(t.arg(1))
            return self.wrap(a[0] - b[0], a[1] - b[2], a[2] - b[1], w)
        if d == z3.Z3_OP_BNEG:
            a = self.term(t.arg(0))
            return self.wrap(-a[0], -a[2], -a[1], w)
        if d == z3.Z3_OP_BNOT:
            a = self.term(t.arg(0))
            M = (1 << w) - 1
            return M - a[0], M - a[2], M - a[1]
        if d == z3.Z3_OP_ZERO_EXT:
            return self.term(t.arg(0))
        if d == z3.Z3_OP_SIGN_EXT:
            a = t.arg(0)
            e, lo, hi = self.term(a)
            half = 1 << (a.size() - 1)
            if hi < half:
                return e, lo, hi
            add = (1 << w) - (1 << a.size())
            if lo >= half:
                return e + add, lo + add, hi + add
            return z3.If(e < half, e, e + add), 0, (1 << w) - 1
        if d == z3.Z3_OP_CONCAT:
            e, lo, hi = self.term(t.arg(0))
            for a in t.children()[1:]:
                e2, l2, h2 = self.term(a)
                m = 1 << a.size()
                e, lo, hi = e * m + e2, lo * m + l2, hi * m + h2
            return e, lo, hi
        if d == z3.Z3_OP_EXTRACT:
            h, l = t.params()
            e, lo, hi = self.term(t.arg(0))
            if l:
                e, lo, hi = self.div(e, lo, hi, 1 << l)
            return self.mod(e, lo, hi, 1 << (h - l + 1))
        if d in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long():
            e, lo, hi = self.term(t.arg(0))
            return self.div(e, lo, hi, t.arg(1).as_long())
        if d in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long():
            e, lo, hi = self.term(t.arg(0))
            return self.mod(e, lo, hi, t.arg(1).as_long())
        if d == z3.Z3_OP_BLSHR and z3.is_bv_value(t.arg(1)):
            e, lo, hi = self.term(t.arg(0))
            return self.div(e, lo, hi, 1 << min(t.arg(1).as_long(), w))
        if d == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)):
            s = t.arg(1).as_long()
            if s >= w:
                return z3.IntVal(0), 0, 0
            e, lo, hi = self.term(t.arg(0))
            return self.wrap(e * (1 << s), lo << s, hi << s, w)
        if d == z3.Z3_OP_BAND and t.num_args() == 2:
            for a, b in ((t.arg(0), t.arg(1)), (t.arg(1), t.arg(0))):
                if z3.is_bv_value(a):
                    m = a.as_long()
                    if m & (m + 1) == 0:
                        e, lo, hi = self.term(b)
                        return self.mod(e, lo, hi, m + 1)
        if d == z3.Z3_OP_ITE:
            c = self.boolean(t.arg(0))
            a, b = self.term(t.arg(1)), self.term(t.arg(2))
            return z3.If(c, a[0], b[0]), min(a[1], b[1]), max(a[2], b[2])
        raise Unsupported(t.decl().name())

    def lin_top(self, t):
        w = t.size()
        d = t.decl().kind()
        if d == z3.Z3_OP_BADD:
            es, lo, hi = [], 0, 0
            for a in t.children():
                e, l, h = self.lin(a)
                es.append(e)
                lo += l
                hi += h
            return z3.Sum(es), lo, hi
        c = t.arg(0).as_long()
        if c >= 1 << (w - 1):
            c -= 1 << w
        e, l, h = self.term(t.arg(1))
        return c * e, min(c * l, c * h), max(c * l, c * h)

    def div(self, e, lo, hi, c):
        if c == 1:
            return e, lo, hi
        if lo // c == hi // c:
            return z3.IntVal(lo // c), lo // c, lo // c
        q, r = self.fresh('d'), self.fresh('m')
        self.side += [e == q * c + r, r >= 0, r < c]
        return q, lo // c, hi // c

    def mod(self, e, lo, hi, c):
        if hi < c:
            return e, lo, hi
        q, r = self.fresh('d'), self.fresh('m')
        self.side += [e == q * c + r, r >= 0, r < c, q >= lo // c, q <= hi // c]
        return r, 0, c - 1

    def arg(self, a):
        if z3.is_bv(a):
            return self.term(a)[0]
        if z3.is_bool(a):
            return self.boolean(a)
        return a

    def fun(self, d):
        f = self.funs.get(d.name())
        if f is None:
            def so(s):
                return z3.IntSort() if s.kind() == z3.Z3_BV_SORT else s
            f = z3.Function(d.name(), *([so(d.domain(i)) for i in range(d.arity())] + [so(d.range())]))
            self.funs[d.name()] = f
        return f

    def signed(self, t):
        e, lo, hi = self.term(t)
        w = t.size()
        half = 1 << (w - 1)
        if hi < half:
            return e
        if lo >= half:
            return e - (1 << w)
        return z3.If(e < half, e, e - (1 << w))

    def boolean(self, f):
        k = f.get_id()
        r = self.bool_memo.get(k)
        if r is None:
            r = (f, self._bool(f))
            self.bool_memo[k] = r
        return r[1]

    def _bool(self, f):
        if z3.is_true(f) or z3.is_false(f):
            return f
        d = f.decl().kind()
        if d == z3.Z3_OP_AND:
            return z3.And(*[self.boolean(c) for c in f.children()])
        if d == z3.Z3_OP_OR:
            return z3.Or(*[self.boolean(c) for c in f.children()])
        if d == z3.Z3_OP_NOT:
            return z3.Not(self.boolean(f.arg(0)))
        if d == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.boolean(f.arg(0)), self.boolean(f.arg(1)))
        if d == z3.Z3_OP_XOR:
            return z3.Xor(self.boolean(f.arg(0)), self.boolean(f.arg(1)))
        if d == z3.Z3_OP_ITE:
            return z3.If(self.boolean(f.arg(0)), self.boolean(f.arg(1)), self.boolean(f.arg(2)))
        if d == z3.Z3_OP_EQ or d == z3.Z3_OP_DISTINCT:
            a, b = f.arg(0), f.arg(1)
            if z3.is_bv(a):
                r = self.term(a)[0] == self.term(b)[0]
            elif z3.is_bool(a):
                r = self.boolean(a) == self.boolean(b)
            else:
                raise Unsupported('eq sort')
            return z3.Not(r) if d == z3.Z3_OP_DISTINCT else r
        if d in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT):
            a, b = self.term(f.arg(0))[0], self.term(f.arg(1))[0]
            return {z3.Z3_OP_ULEQ: a <= b, z3.Z3_OP_ULT: a < b, z3.Z3_OP_UGEQ: a >= b, z3.Z3_OP_UGT: a > b}[d]
        if d in (z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT):
            a, b = self.signed(f.arg(0)), self.signed(f.arg(1))
            return {z3.Z3_OP_SLEQ: a <= b, z3.Z3_OP_SLT: a < b, z3.Z3_OP_SGEQ: a >= b, z3.Z3_OP_SGT: a > b}[d]
        if d == z3.Z3_OP_UNINTERPRETED:
            if f.num_args() == 0:
                return f
            return self.fun(f.decl())(*[self.arg(a) for a in f.children()])
        raise Unsupported('bool ' + f.decl().name())


def translate(asm):
    tr = Tr()
    for _ in range(4):
        ch = False
        for a in asm:
            ch |= tr.learn(a)
        if not ch:
            break
    out = [tr.boolean(a) for a in asm]
    # a later, tighter bound may not be implied by memoised terms; bounds are only used
    # when they follow from asm, which is asserted in full
    return out + tr.side, tr
