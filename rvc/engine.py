"""rvc: contract verifier for the real C sources of this repository.

The unit of verification is a function of /repo as compiled to LLVM IR (clang -O0,
mem2reg).  The engine generates verification conditions by path-wise symbolic
execution over *unbounded* symbolic inputs and memory; loops are cut by inductive
invariants (loops.py), never by a bound, unless the loop is exhaustively unrolled
and an unwinding obligation shows that no further iteration is possible.
"""
import time
import z3
from . import ir
from .smt import *


class Undecided(Exception):
    """The engine met something outside its reach."""


class PartialRead(Exception):
    pass


class PathDead(Exception):
    pass


# ---------------------------------------------------------------- objects, pointers

OBJS = {}


class Obj:
    __slots__ = ('oid', 'name', 'size', 'kind', 'base', 'indexed', 'valid', 'addrv', 'meta', 'ptrdom', 'init')

    def __init__(self, name, size, kind='heap', base=None, indexed=False, valid=None):
        self.oid = fresh_id()
        self.name = name
        self.size = size if (size is None or z3.is_expr(size) or callable(size)) else bv(size)
        self.kind = kind
        self.base = base or DefaultBase(name, indexed)
        self.indexed = indexed
        self.valid = valid          # indexed families: idx -> Bool
        self.addrv = None
        self.meta = {}
        OBJS[self.oid] = self

    def addr(self, idx=None):
        if self.indexed:
            if self.addrv is None:
                self.addrv = fresh_fun('addr_' + self.name, BV64, BV64)
            return self.addrv(idx)
        if self.addrv is None:
            self.addrv = fresh('addr_' + self.name)
        return self.addrv

    def __repr__(self):
        return '<%s>' % self.name


class DefaultBase:
    """Uninterpreted bytes."""

    def __init__(self, name, indexed=False):
        self.indexed = indexed
        self.name = name
        self.f = None

    def fn(self):
        if self.f is None:
            if self.indexed:
                self.f = fresh_fun('mem_' + self.name, BV64, BV64, z3.BitVecSort(8))
            else:
                self.f = fresh_fun('mem_' + self.name, BV64, z3.BitVecSort(8))
        return self.f

    def byte(self, idx, off):
        return self.fn()(idx, off) if self.indexed else self.fn()(off)

    def read(self, E, s, obj, idx, off, size, isptr):
        bs = [self.byte(idx, simp(off + bv(j))) for j in range(size)]
        if isptr:
            return [(TRUE, Wild('uninitialised or untyped memory of %s' % obj.name, simp(z3.Concat(*reversed(bs))) if size == 8 else None))]
        return [(TRUE, bs[0] if size == 1 else z3.Concat(*reversed(bs)))]


class ZeroBase:
    def read(self, E, s, obj, idx, off, size, isptr):
        return [(TRUE, bv(0, 8 * size))]


class Layout:
    """Typed initial content.

    cells: {off: (size, value or callable(idx))};  regions: list of Region.
    value is a BitVec, Ptr, or ('alt', [(cond,value)..])."""

    def __init__(self, name, cells=None, regions=None, rest=None, indexed=False):
        self.cells = dict(cells or {})
        self.regions = list(regions or [])
        self.rest = rest or DefaultBase(name, indexed)

    def read(self, E, s, obj, idx, off, size, isptr):
        o = simp(off)
        if is_num(o):
            k = num(o)
            for co, (cs, v) in self.cells.items():
                if co == k and cs == size:
                    return _alts(v(idx) if callable(v) else v)
                if co <= k and k + size <= co + cs:
                    r = []
                    for c, x in _alts(v(idx) if callable(v) else v):
                        x = E.to_bv(x)
                        lo = 8 * (k - co)
                        r.append((c, simp(z3.Extract(lo + 8 * size - 1, lo, x))))
                    return r
                if co < k + size and k < co + cs:
                    if isptr:
                        return [(TRUE, Wild('misaligned pointer read'))]
                    bs = []
                    for j in range(size):
                        a = self.read(E, s, obj, idx, bv(k + j), 1, False)
                        bs.append(E.merge_int(a))
                    return [(TRUE, z3.Concat(*reversed(bs)))]
        for r in self.regions:
            x = r.try_read(E, s, obj, idx, o, size, isptr)
            if x is not None:
                return x
        if not is_num(o):
            # symbolic offset over struct cells: ITE over the cells it can match
            alts = []
            rest = []
            for co, (cs, v) in self.cells.items():
                if cs == size and E.feasible(s, o == bv(co)):
                    for c, x in _alts(v(idx) if callable(v) else v):
                        alts.append((And(o == bv(co), c), x))
                    rest.append(o != bv(co))
            if alts:
                if E.feasible(s, And(*rest)):
                    for c, x in self.rest.read(E, s, obj, idx, o, size, isptr):
                        alts.append((And(c, *rest), x))
                return alts
        return self.rest.read(E, s, obj, idx, o, size, isptr)


def _alts(v):
    if isinstance(v, tuple) and v and v[0] == 'alt':
        return v[1]
    return [(TRUE, v)]


def small_range(d, n):
    """d ULE n where d = c + k*zext(x) and exactly one value of the narrow x qualifies: the condition as x == value"""
    if n < 0:
        return None
    d = simp(d)
    c = 0
    x = k = None
    for a in (d.children() if z3.is_app_of(d, z3.Z3_OP_BADD) else [d]):
        if is_num(a):
            c = num(a)
        elif x is not None:
            return None
        elif z3.is_app_of(a, z3.Z3_OP_BMUL) and a.num_args() == 2 and is_num(a.arg(0)):
            k, x = num(a.arg(0)), a.arg(1)
        else:
            k, x = 1, a
    if x is None or not z3.is_app_of(x, z3.Z3_OP_CONCAT) or x.num_args() != 2 or not is_num(x.arg(0)) or num(x.arg(0)) != 0:
        return None
    y = x.arg(1)
    if y.size() > 6:
        return None
    hit = [v for v in range(1 << y.size()) if (c + k * v) % (1 << 64) <= n]
    return simp(y == bv(hit[0], y.size())) if len(hit) == 1 else None


def decompose(off, lo, stride):
    """off - lo == stride*i + c  ->  (i, c) syntactically, else None"""
    d = simp(off - lo)
    const = 0
    terms = []
    args = d.children() if z3.is_app_of(d, z3.Z3_OP_BADD) else [d]
    for a in args:
        if is_num(a):
            const = (const + num(a)) % (1 << 64)
            continue
        if z3.is_app_of(a, z3.Z3_OP_BMUL) and is_num(a.arg(0)):
            c = num(a.arg(0))
            if c >= 1 << 63:
                c -= 1 << 64
            if c % stride:
                return None
            rest = a.children()[1:]
            x = rest[0]
            for y in rest[1:]:
                x = x * y
            terms.append(bv((c // stride) % (1 << 64)) * x)
        else:
            if stride == 1:
                terms.append(a)
                continue
            m = _shl_form(a, stride)
            if m is None:
                return None
            terms.append(m)
    if const >= 1 << 63:
        const -= 1 << 64
    q, c = divmod(const, stride)
    t = bv(q % (1 << 64))
    for x in terms:
        t = t + x
    return simp(t), c


def _shl_form(a, stride):
    """concat(extract(..x), 0s) == x << k, as simplify writes multiplication by 2^k"""
    if z3.is_app_of(a, z3.Z3_OP_CONCAT) and a.num_args() == 2 and is_num(a.arg(1)) and num(a.arg(1)) == 0:
        k = a.arg(1).size()
        hi = a.arg(0)
        if z3.is_app_of(hi, z3.Z3_OP_EXTRACT):
            h, l = hi.params()
            x = hi.arg(0)
            if l == 0 and h == 63 - k and x.size() == 64 and (1 << k) % stride == 0:
                return x * bv((1 << k) // stride)
    return None


class Region:
    """Array of equal elements inside an object: element i at lo + stride*i.

    fields: {suboff: (size, fn(i) -> value | ('alt',..))}; byte: fn(i, c) fallback."""

    def __init__(self, lo, stride, fields, count=None):
        self.lo = lo if z3.is_expr(lo) else bv(lo)
        self.stride, self.fields, self.count = stride, fields, count

    def try_read(self, E, s, obj, idx, off, size, isptr):
        if self.count is not None:
            hi = simp(self.lo + self.count * bv(self.stride))
            inside = And(z3.ULE(self.lo, off), z3.ULT(off, hi))
            si = simp(inside)
            if z3.is_false(si):
                return None
            if not z3.is_true(si) and E.feasible(s, Not(inside)):
                if not E.feasible(s, inside):
                    return None
                raise Undecided('read straddling region of %s' % obj.name)
        d = decompose(off, self.lo, self.stride)
        if d is None:
            # alignment by the solver
            for c in self.fields:
                if E.valid(s, z3.URem(off - self.lo - bv(c), bv(self.stride)) == 0):
                    d = (simp(z3.UDiv(off - self.lo - bv(c), bv(self.stride))), c)
                    break
            else:
                raise Undecided('unaligned access to array %s' % obj.name)
        i, c = d
        if c in self.fields and self.fields[c][0] == size:
            f = self.fields[c][1]
            v = f(idx, i) if obj.indexed else f(i)
            return _alts(v)
        for fo, (fs, f) in self.fields.items():
            if fo <= c and c + size <= fo + fs:
                v = f(idx, i) if obj.indexed else f(i)
                lo = 8 * (c - fo)
                return [(cc, simp(z3.Extract(lo + 8 * size - 1, lo, E.to_bv(x)))) for cc, x in _alts(v)]
        if isptr:
            return [(TRUE, Wild('no pointer field here in %s' % obj.name))]
        if size == 1:
            rest = getattr(obj.base, 'rest', None)
            if rest is not None:
                return rest.read(E, s, obj, idx, off, size, False)
            return [(TRUE, z3.Function('pad_%s' % obj.name, z3.BitVecSort(64), z3.BitVecSort(8))(off))]
        bs = []
        for j in range(size):
            a = self.try_read(E, s, obj, idx, simp(off + bv(j)), 1, False)
            bs.append(E.merge_int(a))
        return [(TRUE, z3.Concat(*reversed(bs)))]


class Ptr:
    __slots__ = ('obj', 'idx', 'off')

    def __init__(self, obj, off=None, idx=None):
        self.obj = obj
        self.off = bv(0) if off is None else (off if z3.is_expr(off) else bv(off))
        self.idx = idx if (idx is None or z3.is_expr(idx)) else bv(idx)

    def __repr__(self):
        return '&%s%s+%s' % (self.obj.name, '' if self.idx is None else '[%s]' % self.idx, self.off)

    def __add__(self, k):
        return Ptr(self.obj, simp(self.off + (k if z3.is_expr(k) else bv(k))), self.idx)


class Wild:
    """An unusable pointer (uninitialised, or forged from an integer)."""
    __slots__ = ('why', 'term')

    def __init__(self, why, term=None):
        self.why = why
        self.term = term if term is not None else fresh('wild')

    def __repr__(self):
        return 'Wild(%s)' % self.why


class FnRef:
    __slots__ = ('name', 'module', 'fn', 'spec')

    def __init__(self, name, module=None, fn=None, spec=None):
        self.name, self.module, self.fn, self.spec = name, module, fn, spec


class Frame:
    __slots__ = ('fn', 'env', 'block', 'ip', 'prev', 'res', 'visits', 'depth')

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.env, f.block, f.ip, f.prev, f.res = self.fn, dict(self.env), self.block, self.ip, self.prev, self.res
        f.visits = dict(self.visits)
        f.depth = self.depth
        return f


class State:
    __slots__ = ('pc', 'mem', 'freed', 'frames', 'ghost', 'ret', 'pending', 'trace', 'born', 'loopk', 'approx', 'derived')

    def __init__(self):
        self.pc = []
        self.mem = {}
        self.freed = {}
        self.frames = []
        self.ghost = {}
        self.ret = None
        self.pending = None
        self.trace = []
        self.born = []
        self.loopk = ()
        self.approx = False
        self.derived = set()     # ids of pc members that follow from the ones before them

    def copy(self):
        t = State()
        t.pc = list(self.pc)
        t.mem = dict(self.mem)
        t.freed = dict(self.freed)
        t.frames = [f.copy() for f in self.frames]
        t.ghost = {k: (list(v) if isinstance(v, list) else v) for k, v in self.ghost.items()}
        t.ret = self.ret
        t.pending = self.pending
        t.trace = list(self.trace)
        t.born = list(self.born)
        t.loopk = self.loopk
        t.approx = self.approx
        t.derived = set(self.derived)
        return t

    def derive(self, c):
        c = simp(c)
        if not z3.is_true(c):
            k = c.get_id()
            if any(x.get_id() == k for x in self.pc):
                return      # a branch condition stays one
            self.pc.append(c)
            self.derived.add(k)

    def assume(self, c):
        c = simp(c)
        if not z3.is_true(c):
            self.pc.append(c)


class Failure:
    def __init__(self, ob, state, cond, kind, status, model=None):
        self.ob, self.state, self.cond, self.kind, self.status, self.model = ob, state, cond, kind, status, model


def atom_max(a):
    if z3.is_app_of(a, z3.Z3_OP_ZERO_EXT):
        return (1 << a.arg(0).size()) - 1
    if z3.is_app_of(a, z3.Z3_OP_CONCAT) and is_num(a.arg(0)) and num(a.arg(0)) == 0:
        return (1 << (a.size() - a.arg(0).size())) - 1
    if is_num(a):
        return num(a)
    if z3.is_app_of(a, z3.Z3_OP_ITE):
        x, y = atom_max(a.arg(1)), atom_max(a.arg(2))
        return None if x is None or y is None else max(x, y)
    return None


def bit_lit(c, val=True):
    """(1-bit term, its value) when the condition fixes a single bit"""
    while z3.is_not(c):
        c, val = c.arg(0), not val
    if z3.is_eq(c):
        a, b = c.children()
        if is_num(a):
            a, b = b, a
        if z3.is_bv(a) and a.size() == 1 and is_num(b):
            return a, num(b) if val else 1 - num(b)
    return None


def has_bits(d):
    """d depends on single bits or conditions"""
    for x in (d.children() if z3.is_app_of(d, z3.Z3_OP_BADD) else [d]):
        if z3.is_app_of(x, z3.Z3_OP_BMUL) and x.num_args() == 2:
            x = x.arg(1)
        if z3.is_app_of(x, z3.Z3_OP_ITE) or (z3.is_app_of(x, z3.Z3_OP_CONCAT) and any(y.size() == 1 for y in x.children())):
            return True
    return False


def under(d, known):
    """d with the conditions known to hold substituted"""
    sub = {}

    def lit(c, val):
        if z3.is_not(c):
            lit(c.arg(0), not val)
        elif val and z3.is_and(c) or (not val and z3.is_or(c)):
            for x in c.children():
                lit(x, val)
        else:
            b = bit_lit(c, val)
            if b is not None:
                sub[b[0].get_id()] = (b[0], bv(b[1], 1))
            else:
                sub[c.get_id()] = (c, TRUE if val else FALSE)
    for c in known:
        lit(c, True)
    ps = [x for x in sub.values() if not is_num(x[0])]
    if not ps:
        return d
    return simp(z3.substitute(d, *ps))


def affine_range(d):
    """d as a signed integer without wrap-around: (min, max, gcd of coefficients, constant), or None"""
    from math import gcd
    lo = hi = g = c = 0
    for a in (d.children() if z3.is_app_of(d, z3.Z3_OP_BADD) else [d]):
        if is_num(a):
            c += snum(a)
            lo += snum(a)
            hi += snum(a)
            continue
        k, x, mx = 1, a, None
        if z3.is_app_of(a, z3.Z3_OP_BMUL) and a.num_args() == 2 and is_num(a.arg(0)):
            k, x = snum(a.arg(0)), a.arg(1)
        if z3.is_app_of(x, z3.Z3_OP_CONCAT) and is_num(x.arg(x.num_args() - 1)) and num(x.arg(x.num_args() - 1)) == 0:
            sh = x.arg(x.num_args() - 1).size()
            w = x.size()
            if is_num(x.arg(0)) and num(x.arg(0)) == 0:
                w -= x.arg(0).size()
            elif x.num_args() == 2 and False:
                pass
            mx = (1 << (w - sh)) - 1
            k <<= sh
        else:
            mx = atom_max(x)
        if mx is None or mx > 1 << 56 or abs(k) > 1 << 40:
            return None
        if k >= 0:
            hi += k * mx
        else:
            lo += k * mx
        g = gcd(g, abs(k))
    if lo < -(1 << 61) or hi > 1 << 61:
        return None
    return lo, hi, g, c


class Obligations:
    def __init__(self):
        self.count = {}       # name -> instances
        self.ok = {}
        self.fail = {}        # name -> Failure (first)
        self.trivial = 0
        self.solver = 0

    def add(self, name, ok, failure=None, trivial=False):
        self.count[name] = self.count.get(name, 0) + 1
        if ok:
            self.ok[name] = self.ok.get(name, 0) + 1
            if trivial:
                self.trivial += 1
            else:
                self.solver += 1
        elif name not in self.fail or (failure.status == 'sat' and self.fail[name].status != 'sat'):
            self.fail[name] = failure


CMPS = {
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
    'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
    'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b,
}
RM = z3.RNE()


STOP = object()


class Engine:
    def __init__(self, program, timeout_ms=20000):
        self.prog = program
        self.smt = Smt(timeout_ms)
        self.ob = Obligations()
        self.globals = {}
        self.models = {}          # external function name -> handler(E, s, args, ins) -> [(s, ret)]
        self.contracts = {}       # function name -> handler used instead of the body
        self.used_contracts = {}
        self.executed = {}        # functions whose bodies were executed -> count
        self.loop_info = {}       # (fn, header) -> dict
        self.loop_specs = {}      # fn name -> callable(L) user hints
        self.unroll = None        # bounded mode: max visits per loop header
        self.exhaustive = None    # every loop: unrolled at most N times, with an unwinding obligation
        self.assert_states = None
        self.merge = False        # join the paths of call-free regions (if-conversion)
        self.unroll_fns = {}      # fn -> N  (exhaustive unroll with unwinding obligation)
        self.record = True        # record obligations (off during invariant inference)
        self.allow_assert_fail = False
        self.paths = 0
        self.loop_stack = []
        self.max_paths = 20000
        self.deadline = None
        self.stop_first_fail = False
        self.hunt = None          # set of obligation names searched for in bounded mode
        self.hits = []
        self.witnesses = []
        self.cmp_log = None
        self.cmp_hook = None     # contract's instances of quantified preconditions at a comparison
        self.write_log = None
        self.rec_depth = 0
        self.check_overflow = False
        self.truncated = False
        self.feas_ms = 4000
        self.hou_ms = 1500
        self.addr_map = {}
        self.obj_index = OBJS
        from . import models
        models.install(self)

    # ------------------------------------------------------------ solver front
    def feasible(self, s, c):
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.tick()
        r, _ = self.smt.check(s.pc, c, timeout=self.feas_ms, approx=True)
        return r != 'unsat'

    def valid(self, s, c):
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.tick()
        r, _ = self.smt.check(s.pc, Not(c), timeout=4000)
        return r == 'unsat'

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Undecided('time budget of the verification unit exhausted')

    def where(self, s):
        if not s.frames:
            return 'spec'
        f = s.frames[-1]
        ln = None
        if f.block in f.fn.blocks and f.ip - 1 < len(f.fn.blocks[f.block]):
            ln = f.fn.blocks[f.block][max(0, f.ip - 1)].line
        return '%s:%s' % (f.fn.name, ln)

    def prove(self, s, c, kind, where=None, assume=True):
        """An obligation. Returns True when discharged."""
        c = simp(c)
        name = (where or self.where(s)) + '/' + kind
        if z3.is_true(c):
            if self.record:
                self.ob.add(name, True, trivial=True)
            return True
        self.tick()
        if not self.record:
            # inference runs: take the obligation as satisfied (the final run checks it)
            if z3.is_false(c):
                raise PathDead()
            if assume:
                s.assume(c)
            return True
        r, m = self.smt.check(s.pc, Not(c))
        if r == 'unsat':
            self.ob.add(name, True)
            if assume:
                s.derive(c)
            return True
        # reachability of the failing state, with all of the path condition
        r, m = self.smt.check(s.pc, Not(c), full=True, want_model=True)
        if r == 'unsat':
            self.ob.add(name, True)
            if z3.is_false(c):
                raise PathDead()
            if assume:
                s.derive(c)
            return True
        snap = s.copy()
        self.ob.add(name, False, Failure(name, snap, c, kind, r, m))
        if self.hunt is not None:
            self.hits.append((name, snap, c, r, m))
            raise Found()
        if assume:
            if z3.is_false(c) or not self.feasible(s, c):
                raise PathDead()
            s.assume(c)
        return False

    # ------------------------------------------------------------ values
    def to_bv(self, v, w=None):
        if isinstance(v, Ptr):
            a = simp(v.obj.addr(v.idx) + v.off)
            self.addr_map[a.get_id()] = (a, v)
            return a
        if isinstance(v, Wild):
            return v.term
        if isinstance(v, FnRef):
            a = z3.BitVec('fnaddr_' + v.name, 64)
            self.addr_map[a.get_id()] = (a, v)
            return a
        if isinstance(v, z3.FPRef):
            return z3.fpToIEEEBV(v)
        return v

    def from_bv_ptr(self, v):
        """an integer used as a pointer"""
        if isinstance(v, (Ptr, Wild, FnRef)):
            return v
        v = simp(v)
        if is_num(v) and num(v) == 0:
            return v
        hit = self.addr_map.get(v.get_id())
        if hit is not None:
            return hit[1]
        # addr + k ?
        if z3.is_app_of(v, z3.Z3_OP_BADD):
            for (a, p) in list(self.addr_map.values()):
                if isinstance(p, Ptr):
                    d = simp(v - a)
                    if is_num(d):
                        return p + d
        if is_num(v):
            return Wild('integer constant %d used as pointer' % num(v), v)
        return Wild('integer used as pointer', v)

    def is_null(self, v):
        if isinstance(v, (Ptr, FnRef)):
            return FALSE
        if isinstance(v, Wild):
            return v.term == bv(0)
        return simp(v == bv(0, v.size()))

    def merge_int(self, alts):
        v = self.to_bv(alts[-1][1])
        for c, x in reversed(alts[:-1]):
            v = z3.If(c, self.to_bv(x), v)
        return simp(v)

    # ------------------------------------------------------------ memory
    def check_access(self, s, p, size, what):
        """size: python int or BV64 term. Returns nothing; raises PathDead when hopeless."""
        if isinstance(p, FnRef):
            self.prove(s, FALSE, what + ':code-pointer')
        if isinstance(p, Wild):
            self.prove(s, FALSE, what + ':invalid-pointer(%s)' % p.why)
            raise PathDead()
        if not isinstance(p, Ptr):
            self.prove(s, FALSE, what + ':null-or-integer-pointer')
            raise PathDead()
        o = p.obj
        if o.kind == 'fn':
            self.prove(s, FALSE, what + ':code-pointer')
            raise PathDead()
        sz = bv(size) if isinstance(size, int) else size
        if o.indexed and o.valid is not None:
            self.prove(s, o.valid(p.idx), what + ':object-exists')
        if o.oid in s.freed:
            fr = s.freed[o.oid]
            if fr is True:
                self.prove(s, FALSE, what + ':use-after-free')
            else:
                for fi in fr:
                    self.prove(s, Not(fi(p.idx)) if callable(fi) else p.idx != fi, what + ':use-after-free')
        if o.size is not None:
            osz = o.size(p.idx) if callable(o.size) else o.size
            self.prove(s, And(z3.ULE(p.off, osz), z3.ULE(sz, osz - p.off)), what + ':in-bounds')

    def push(self, s, obj, upd):
        s.mem[obj.oid] = (upd, s.mem.get(obj.oid))
        if self.write_log is not None:
            self.write_log.append((obj, upd))

    def load(self, s, p, size, isptr, what='load'):
        """-> guarded alternatives [(cond, value)]"""
        self.check_access(s, p, size, what)
        return self.read_chain(s, p.obj, s.mem.get(p.obj.oid), p.idx, p.off, size, isptr)

    def quick_disjoint(self, lo1, n1, lo2, n2, d=None):
        d = simp(lo1 - lo2) if d is None else d
        r = affine_range(d)
        if r is None:
            return False
        lo, hi, g, c = r
        if lo >= n2 or hi <= -n1:
            return True
        if g > 1:
            m = c % g
            if m >= n2 and m - g <= -n1:
                return True
        return False

    def _misses(self, s, extra, c, sub, idx, off, size):
        """quick: no update of this arm touches the bytes read"""
        while sub[0][0] != 'stop':
            u, sub = sub
            if u[0] == 'br':
                if not all(self._misses(s, list(extra) + [c], c2, sub2, idx, off, size) for c2, sub2 in u[1]):
                    return False
                continue
            n = u[3]
            if z3.is_expr(n) and is_num(n):
                n = num(n)
            if not isinstance(n, int):
                return False
            if idx is not None and z3.is_false(simp(idx == u[1])):
                continue
            d = simp(off - u[2])
            if self.quick_disjoint(off, size, u[2], n, d):
                continue
            if not has_bits(d):
                return False
            d = under(d, list(s.pc) + list(extra) + [c])
            if not self.quick_disjoint(off, size, u[2], n, d):
                return False
        return True

    def relation(self, s, extra, lo1, n1, idx1, lo2, n2, idx2):
        """relation of [lo1,lo1+n1) (a read, n1 int) to [lo2,lo2+n2): 'no', 'in', 'maybe' or 'partial'
        n2: int or term; 'in' means wholly inside."""
        if idx1 is not None:
            ie = simp(idx1 == idx2)
            if z3.is_false(ie):
                return 'no', None
        else:
            ie = TRUE
        d = simp(lo1 - lo2)
        if not isinstance(n2, int) and is_num(simp(n2)):
            n2 = num(simp(n2))
        if isinstance(n2, int):
            if not is_num(d):
                if self.quick_disjoint(lo1, n1, lo2, n2, d):
                    return 'no', None
                if has_bits(d):
                    d2 = under(d, list(s.pc) + list(extra))
                    if d2 is not d:
                        d = d2
                        if not is_num(d) and self.quick_disjoint(lo1, n1, lo2, n2, d):
                            return 'no', None
            if is_num(d):
                k = snum(d)
                if k >= n2 or k + n1 <= 0:
                    return 'no', None
                if 0 <= k and k + n1 <= n2:
                    if z3.is_true(ie):
                        return 'in', TRUE
                    if not self._feas(s, extra, ie):
                        return 'no', None
                    if not self._feas(s, extra, Not(ie)):
                        return 'in', TRUE
                    return 'maybe', ie
                if not self._feas(s, extra, ie):
                    return 'no', None
                return 'partial', ie
            n2t = bv(n2)
        else:
            n2t = n2
        # unsigned distances; objects are < 2^47 so no wrap-around
        # d = lo1 - lo2 ;  inside  iff d + n1 <= n2 (d as unsigned, no wrap)
        inside = And(ie, z3.ULE(bv(n1), n2t), z3.ULE(d, n2t - bv(n1)))
        nd = simp(lo2 - lo1)
        overlap = And(ie, z3.UGT(n2t, bv(0)), Or(z3.ULT(d, n2t), z3.ULT(nd, bv(n1))))
        if not self._feas(s, extra, overlap):
            return 'no', None
        if n1 > 1 and self._feas(s, extra, And(overlap, Not(inside))):
            return 'partial', overlap
        if not self._feas(s, extra, Not(inside)):
            return 'in', TRUE
        if z3.is_true(ie) and isinstance(n2, int):
            r = small_range(d, n2 - n1)
            if r is not None:
                return 'maybe', r
        return 'maybe', simp(inside)

    def _feas(self, s, extra, c):
        c = simp(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.tick()
        r, _ = self.smt.check(s.pc + extra, c, timeout=4000, approx=True)
        return r != 'unsat'

    def read_chain(self, s, obj, chain, idx, off, size, isptr, extra=()):
        extra = list(extra)
        out = []
        conds = []

        def emit(c, v):
            out.append((And(*(conds + ([c] if not z3.is_true(c) else []))), v))

        while True:
            if chain is None:
                for c, v in obj.base.read(self, s, obj, idx, off, size, isptr):
                    emit(c, v)
                break
            u, parent = chain
            k = u[0]
            if k == 'st':
                _, uidx, uoff, usz, val = u
                rel, c = self.relation(s, extra, off, size, idx, uoff, usz, uidx)
                if rel == 'no':
                    chain = parent
                    continue
                if rel == 'partial':
                    return self._bytewise(s, obj, chain, idx, off, size, isptr, extra, out, conds)
                v = self._sub(val, usz, simp(off - uoff), size)
                if v is None:
                    return self._bytewise(s, obj, chain, idx, off, size, isptr, extra, out, conds)
                emit(c, v)
                if rel == 'in':
                    break
                conds.append(simp(Not(c)))
                extra.append(simp(Not(c)))
                chain = parent
                continue
            if k == 'cp':
                _, uidx, uoff, ulen, sobj, schain, sidx, soff = u
                rel, c = self.relation(s, extra, off, size, idx, uoff, ulen, uidx)
                if rel == 'no':
                    chain = parent
                    continue
                if rel == 'partial':
                    return self._bytewise(s, obj, chain, idx, off, size, isptr, extra, out, conds)
                for c2, v in self.read_chain(s, sobj, schain, sidx, simp(off - uoff + soff), size, isptr,
                                             extra + ([c] if rel == 'maybe' else [])):
                    emit(And(c, c2), v)
                if rel == 'in':
                    break
                conds.append(simp(Not(c)))
                extra.append(simp(Not(c)))
                chain = parent
                continue
            if k == 'fill':
                _, uidx, uoff, ulen, byte = u
                rel, c = self.relation(s, extra, off, size, idx, uoff, ulen, uidx)
                if rel == 'no':
                    chain = parent
                    continue
                if rel == 'partial':
                    return self._bytewise(s, obj, chain, idx, off, size, isptr, extra, out, conds)
                emit(c, simp(z3.Concat(*([byte] * size))) if size > 1 else byte)
                if rel == 'in':
                    break
                conds.append(simp(Not(c)))
                extra.append(simp(Not(c)))
                chain = parent
                continue
            if k == 'fn':
                # ('fn', cond(idx,off,size)->Bool , val(E,s,idx,off,size,isptr)->alts)
                c = simp(u[1](idx, off, size))
                if not self._feas(s, extra, c):
                    chain = parent
                    continue
                full = not self._feas(s, extra, Not(c))
                for c2, v in u[2](self, s, idx, off, size, isptr, extra + ([] if full else [c])):
                    emit(And(c, c2) if not full else c2, v)
                if full:
                    break
                conds.append(simp(Not(c)))
                extra.append(simp(Not(c)))
                chain = parent
                continue
            if k == 'sw':
                # ('sw', Sweep, iterations)
                sw, kk = u[1], u[2]
                base_extra = extra

                def parent_read(g, sw=sw, parent=parent, base_extra=base_extra):
                    return self.read_chain(s, obj, parent, idx, off, size, isptr, base_extra + list(g))
                a = sw.read(self, s, kk, idx, off, size, isptr, extra, parent_read)
                if a is None:
                    return self._bytewise(s, obj, chain, idx, off, size, isptr, extra, out, conds)
                for c, v in a:
                    emit(c, v)
                break
            if k == 'stop':
                out.append((And(*conds), STOP))
                break
            if k == 'br':
                # ('br', [(cond, suffix chain ending in a 'stop' marker)])
                left = []
                if all(self._misses(s, extra, c, sub, idx, off, size) for c, sub in u[1]):
                    chain = parent
                    continue
                for c, sub in u[1]:
                    if not self._feas(s, extra, c):
                        continue
                    try:
                        alts = self.read_chain(s, obj, sub, idx, off, size, isptr, extra + [c])
                    except PartialRead:
                        return self._bytewise(s, obj, chain, idx, off, size, isptr, extra, out, conds)
                    for c2, v in alts:
                        if v is STOP:
                            left.append(And(c, c2))
                        else:
                            emit(And(c, c2), v)
                if not left:
                    break
                lc = simp(Or(*left))
                if not z3.is_true(lc):
                    if not self._feas(s, extra, lc):
                        break
                    conds.append(lc)
                    extra.append(lc)
                chain = parent
                continue
            if k == 'rebase':
                # content replaced: ('rebase', base)
                for c, v in u[1].read(self, s, obj, idx, off, size, isptr):
                    emit(c, v)
                break
            raise Undecided('update kind ' + k)
        return out

    def _sub(self, val, usz, d, size):
        if isinstance(val, (Ptr, Wild, FnRef)):
            if size == 8 and usz == 8:
                return val
            val = self.to_bv(val)
        if size == usz:
            return val
        val = self.to_bv(val)
        if is_num(d):
            lo = 8 * num(d)
            return simp(z3.Extract(lo + 8 * size - 1, lo, val))
        w = val.size()
        sh = simp(z3.Extract(w - 1, 0, d) if w <= 64 else z3.ZeroExt(w - 64, d))
        return simp(z3.Extract(8 * size - 1, 0, z3.LShR(val, sh * bv(8, w))))

    def _bytewise(self, s, obj, chain, idx, off, size, isptr, extra, out, conds):
        if isptr and size == 8:
            out.append((And(*conds), Wild('pointer partly overwritten in %s' % obj.name)))
            return out
        if size == 1:
            raise Undecided('byte read partial')
        bs = []
        for j in range(size):
            a = self.read_chain(s, obj, chain, idx, simp(off + bv(j)), 1, False, extra)
            if any(v is STOP for _, v in a):
                raise PartialRead()
            bs.append(self.merge_int(a))
        out.append((And(*conds), simp(z3.Concat(*reversed(bs)))))
        return out

    def store(self, s, p, size, val, what='store'):
        self.check_access(s, p, size, what)
        if p.obj.kind == 'const':
            self.prove(s, FALSE, what + ':write-to-constant')
        self.push(s, p.obj, ('st', p.idx, p.off, size, val))

    # merged integer read for specs (never forks)
    def rd(self, s, p, size, chk=False):
        if chk:
            self.check_access(s, p, size, 'spec-read')
        a = self.read_chain(s, p.obj, s.mem.get(p.obj.oid), p.idx, p.off, size, False)
        return self.merge_int(a)

    def rdp(self, s, p):
        """guarded pointer read for specs -> alternatives"""
        return self.read_chain(s, p.obj, s.mem.get(p.obj.oid), p.idx, p.off, 8, True)

    def alloc(self, s, name, size, kind='heap', base=None):
        o = Obj(name, size, kind, base)
        s.born.append(o)
        return o

    # ------------------------------------------------------------ globals / constants
    def global_ptr(self, name, module):
        m, g = self.prog.find_global(name, module)
        if g is None:
            fm, f = self.prog.find_function(name, module)
            return FnRef(name, module)
        key = (m.name if g['internal'] else '', name)
        o = self.globals.get(key)
        if o is None:
            sz = m.types.size(g['ty'])
            o = Obj('@' + name, sz, 'const' if g['const'] else 'global')
            self.globals[key] = o
            if g['init'] is not None:
                cells = {}
                self._init_cells(m, g['ty'], g['init'], 0, cells)
                o.base = Layout(name, cells, rest=ZeroBase())
            o.meta['global'] = name
        return Ptr(o)

    def _init_cells(self, m, ty, v, off, cells):
        t = m.types.resolve(ty)
        if v[0] in ('zero', 'undef'):
            return
        if v[0] == 'cstr':
            for j, b in enumerate(v[1]):
                cells[off + j] = (1, bv(b, 8))
            return
        if v[0] == 'agg':
            for j, (et, ev) in enumerate(v[1]):
                if t.k == 'arr':
                    o = off + j * m.types.size(t.el)
                else:
                    o = off + m.types.field_off(t, j)
                self._init_cells(m, et, ev, o, cells)
            return
        sz = m.types.size(t)
        val = self.const(m, t, v)
        if not isinstance(val, list):
            cells[off] = (sz, val)

    def const(self, m, ty, v):
        k = v[0]
        t = m.types.resolve(ty) if ty.k == 'named' else ty
        if k == 'int':
            return bv(v[1] % (1 << t.w), t.w) if t.k == 'int' else bv(v[1])
        if k == 'null':
            return bv(0)
        if k == 'global':
            return self.global_ptr(v[1], m)
        if k == 'fpbits':
            if t.w == 64:
                return z3.simplify(z3.fpBVToFP(bv(v[1], 64), z3.Float64()))
            return z3.simplify(z3.fpFPToFP(RM, z3.fpBVToFP(bv(v[1], 64), z3.Float64()), z3.Float32()))
        if k == 'fp':
            return z3.FPVal(v[1], z3.Float64() if t.w == 64 else z3.Float32())
        if k == 'cgep':
            base = self.const(m, v[2][0][0], v[2][0][1])
            return self.gep(m, v[1], base, [(tt, self.const(m, tt, vv)) for tt, vv in v[2][1:]])
        if k == 'ccast':
            x = self.const(m, v[2], v[3])
            return self.cast(None, v[1], v[2], v[4], x)
        if k in ('zero', 'undef'):
            return self.zero(m, t, k == 'undef')
        if k == 'agg':
            return [self.const(m, et, ev) for et, ev in v[1]]
        if k == 'cbin':
            a, b = [self.const(m, tt, vv) for tt, vv in v[2]]
            return self.binop(None, v[1], a, b, {})
        raise Undecided('constant ' + k)

    def zero(self, m, t, undef=False):
        t = m.types.resolve(t)
        if t.k == 'int':
            return fresh('undef', t.w) if undef else bv(0, t.w)
        if t.k == 'ptr':
            return Wild('undef') if undef else bv(0)
        if t.k == 'fp':
            return z3.FPVal(0.0, z3.Float64() if t.w == 64 else z3.Float32())
        if t.k == 'struct':
            return [self.zero(m, e, undef) for e in t.el]
        if t.k == 'arr':
            return [self.zero(m, t.el, undef) for _ in range(t.n)]
        raise Undecided('zero')

    def val(self, s, f, ty, v):
        k = v[0]
        if k == 'local':
            try:
                return f.env[v[1]]
            except KeyError:
                raise Undecided('unbound local %s in %s' % (v[1], f.fn.name))
        if k == 'int' and ty.k == 'int':
            return bv(v[1] % (1 << ty.w), ty.w)
        return self.const(f.fn.module, ty, v)

    def gep(self, m, ty, base, idxs):
        off = bv(0)
        first = True
        t = ty
        for (it, iv) in idxs:
            if first:
                sz = m.types.size(t)
                off = off + self._sx64(iv) * bv(sz)
                first = False
                continue
            t = m.types.resolve(t)
            if t.k == 'struct':
                j = num(iv)
                off = off + bv(m.types.field_off(t, j))
                t = t.el[j]
            elif t.k == 'arr':
                off = off + self._sx64(iv) * bv(m.types.size(t.el))
                t = t.el
            else:
                raise Undecided('gep')
        off = simp(off)
        if isinstance(base, Ptr):
            return base + off
        if isinstance(base, Wild):
            return Wild(base.why, simp(base.term + off))
        if isinstance(base, FnRef):
            return base
        r = simp(base + off)
        if is_num(r) and num(r) == 0:
            return r
        return Wild('offset from null', r)

    def _sx64(self, v):
        v = self.to_bv(v)
        if v.size() == 64:
            return v
        return z3.SignExt(64 - v.size(), v)

    # ------------------------------------------------------------ arithmetic
    def binop(self, s, op, a, b, fl):
        if isinstance(a, (Ptr, Wild, FnRef)) or isinstance(b, (Ptr, Wild, FnRef)):
            return self.ptr_arith(s, op, a, b)
        if op == 'add':
            return simp(a + b)
        if op == 'sub':
            return simp(a - b)
        if op == 'mul':
            return simp(a * b)
        if op == 'and':
            return simp(a & b)
        if op == 'or':
            return simp(a | b)
        if op == 'xor':
            return simp(a ^ b)
        w = a.size()
        if op in ('shl', 'lshr', 'ashr'):
            if s is not None:
                self.prove(s, z3.ULT(b, bv(w, w)), 'shift-amount-below-width')
            if op == 'shl':
                return simp(a << b)
            if op == 'lshr':
                return simp(z3.LShR(a, b))
            return simp(a >> b)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if s is not None:
                self.prove(s, b != bv(0, w), 'division-by-zero')
                if op in ('sdiv', 'srem'):
                    self.prove(s, Or(a != bv(1 << (w - 1), w), b != bv((1 << w) - 1, w)), 'division-overflow')
            if op == 'udiv':
                return simp(z3.UDiv(a, b))
            if op == 'urem':
                return simp(z3.URem(a, b))
            if op == 'sdiv':
                return simp(a / b)
            return simp(z3.SRem(a, b))
        if op == 'fadd':
            return z3.simplify(z3.fpAdd(RM, a, b))
        if op == 'fsub':
            return z3.simplify(z3.fpSub(RM, a, b))
        if op == 'fmul':
            return z3.simplify(z3.fpMul(RM, a, b))
        if op == 'fdiv':
            return z3.simplify(z3.fpDiv(RM, a, b))
        if op == 'frem':
            return z3.FP('frem!%d' % fresh_id(), a.sort())
        raise Undecided('binop ' + op)

    def ptr_arith(self, s, op, a, b):
        if op == 'add':
            if isinstance(a, Ptr) and not isinstance(b, (Ptr, Wild, FnRef)):
                return a + b
            if isinstance(b, Ptr) and not isinstance(a, (Ptr, Wild, FnRef)):
                return b + a
        if op == 'sub':
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                if a.idx is None or z3.is_true(simp(a.idx == b.idx)) or (s is not None and self.valid(s, a.idx == b.idx)):
                    return simp(a.off - b.off)
            if isinstance(a, Ptr) and not isinstance(b, (Ptr, Wild, FnRef)):
                return a + simp(-b)
        return self.binop(s, op, self.to_bv(a), self.to_bv(b), {})

    def ptr_cmp(self, s, pr, a, b):
        if isinstance(a, FnRef) and isinstance(b, FnRef):
            if a.name == b.name:
                return TRUE if pr in ('eq', 'ule', 'uge', 'sle', 'sge') else FALSE
            if pr in ('eq', 'ne'):
                return FALSE if pr == 'eq' else TRUE
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj:
                same = TRUE if a.idx is None else simp(a.idx == b.idx)
                if pr in ('eq', 'ne'):
                    e = simp(And(same, a.off == b.off))
                    return e if pr == 'eq' else simp(Not(e))
                if z3.is_true(same) or self.valid(s, same):
                    # object offsets stay below 2^47 in magnitude: compare as signed
                    return simp(CMPS['s' + pr[1:]](a.off, b.off)) if pr[0] in 'us' else CMPS[pr](a.off, b.off)
            elif pr in ('eq', 'ne'):
                return FALSE if pr == 'eq' else TRUE
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (Ptr, FnRef)) and not isinstance(y, (Ptr, Wild, FnRef)):
                if is_num(y) and num(y) == 0:
                    if pr == 'eq':
                        return FALSE
                    if pr == 'ne':
                        return TRUE
            if isinstance(x, Ptr) and isinstance(y, FnRef):
                if pr in ('eq', 'ne'):
                    return FALSE if pr == 'eq' else TRUE
        return simp(CMPS[pr](self.to_bv(a), self.to_bv(b)))

    def cast(self, s, op, t1, t2, v):
        if op in ('bitcast',):
            return v
        if op == 'ptrtoint':
            if t2.w == 64:
                return v
            return simp(z3.Extract(t2.w - 1, 0, self.to_bv(v)))
        if op == 'inttoptr':
            if isinstance(v, (Ptr, Wild, FnRef)):
                return v
            if v.size() < 64:
                v = z3.ZeroExt(64 - v.size(), v)
            return self.from_bv_ptr(v)
        if op == 'trunc':
            return simp(z3.Extract(t2.w - 1, 0, self.to_bv(v)))
        if op in ('zext', 'sext'):
            v = self.to_bv(v)
            d = t2.w - v.size()
            if d <= 0:
                return v
            if s is not None and z3.is_app_of(v, z3.Z3_OP_EXTRACT) and not is_num(v):
                h, l = v.params()
                x = v.arg(0)
                if l == 0 and x.size() == t2.w:
                    w = v.size()
                    if op == 'zext':
                        rng = z3.ULT(x, bv(1 << w, t2.w))
                    else:
                        rng = And(x >= bv(-(1 << (w - 1)) % (1 << t2.w), t2.w), x < bv(1 << (w - 1), t2.w))
                    if self.valid(s, rng):
                        return x
            # sext(a+b) == sext(a)+sext(b) when there is no overflow
            if s is not None and v.size() == 32 and z3.is_app_of(v, z3.Z3_OP_BADD):
                ch = v.children()
                ext = z3.SignExt if op == 'sext' else z3.ZeroExt
                tot = sum(((z3.SignExt(d, c) if op == 'sext' or (is_num(c) and snum(c) < 0) else z3.ZeroExt(d, c)) for c in ch[1:]),
                          (z3.SignExt(d, ch[0]) if op == 'sext' or (is_num(ch[0]) and snum(ch[0]) < 0) else z3.ZeroExt(d, ch[0])))
                tot = simp(tot)
                full = simp(ext(d, v))
                if self.valid(s, full == tot):
                    return tot
            return simp((z3.ZeroExt if op == 'zext' else z3.SignExt)(d, v))
        if op in ('fpext', 'fptrunc'):
            return z3.simplify(z3.fpFPToFP(RM, v, z3.Float64() if t2.w == 64 else z3.Float32()))
        if op == 'sitofp':
            return z3.simplify(z3.fpSignedToFP(RM, v, z3.Float64() if t2.w == 64 else z3.Float32()))
        if op == 'uitofp':
            return z3.simplify(z3.fpUnsignedToFP(RM, v, z3.Float64() if t2.w == 64 else z3.Float32()))
        if op == 'fptosi':
            return z3.simplify(z3.fpToSBV(z3.RTZ(), v, z3.BitVecSort(t2.w)))
        if op == 'fptoui':
            return z3.simplify(z3.fpToUBV(z3.RTZ(), v, z3.BitVecSort(t2.w)))
        raise Undecided('cast ' + op)

    # ------------------------------------------------------------ execution
    def new_frame(self, s, fn, args, res=None):
        ir.lower(fn)
        f = Frame()
        f.fn = fn
        f.env = {}
        f.block = fn.entry
        f.ip = 0
        f.prev = None
        f.res = res
        f.visits = {}
        f.depth = len(s.frames)
        for (pn, pt, at), a in zip(fn.params, args):
            if 'byval' in at and isinstance(a, Ptr):
                sz = fn.module.types.size(at['byval'])
                o = self.alloc(s, fn.name + '.' + pn, sz, 'stack')
                self.push(s, o, ('cp', None, bv(0), bv(sz), a.obj, s.mem.get(a.obj.oid), a.idx, a.off))
                a = Ptr(o)
            f.env[pn] = a
        s.frames.append(f)
        self.executed[fn.name] = self.executed.get(fn.name, 0) + 1
        return f

    def call_name(self, s, name, args, module=None):
        """Symbolically execute real function `name`; -> list of states with .ret"""
        m, fn = self.prog.find_function(name, module)
        if fn is None:
            raise Undecided('function %s not found in the sources' % name)
        return self.run_fn(s, fn, args)

    def run_fn(self, s, fn, args):
        s = s.copy()
        d = len(s.frames)
        self.new_frame(s, fn, args)
        return self.run([s], d)

    def run(self, starts, depth, stop=None):
        """DFS until frame depth falls to `depth`."""
        work = list(starts)
        done = []
        while work:
            s = work.pop()
            if self.truncated and self.hunt is not None:
                break
            try:
                self.advance(s, work, done, depth, stop)
            except PathDead:
                pass
        return done

    def advance(self, s, work, done, depth, stop):
        while True:
            if len(s.frames) <= depth:
                self.paths += 1
                if self.paths > self.max_paths:
                    if self.hunt is not None:
                        self.truncated = True
                    else:
                        raise Undecided('path budget exhausted')
                done.append(s)
                return
            f = s.frames[-1]
            if s.pending is not None:
                tgt = s.pending
                s.pending = None
                if self.goto(s, tgt, work, stop):
                    return
                continue
            ins = f.fn.blocks[f.block][f.ip]
            f.ip += 1
            if self.step(s, f, ins, work, stop):
                return

    def fork(self, s, alts):
        """alts: [(cond, value)] -> [(state, value)] feasible ones; the first reuses s"""
        live = []
        for c, v in alts:
            c = simp(c)
            if z3.is_true(c) or self.feasible(s, c):
                live.append((c, v))
        if not live:
            raise PathDead()
        out = []
        for j, (c, v) in enumerate(live):
            t = s if j == len(live) - 1 else s.copy()
            t.assume(c)
            out.append((t, v))
        return out

    def step(self, s, f, ins, work, stop):
        """returns True when this state must not be continued by the caller"""
        op = ins.op
        m = f.fn.module
        if op == 'br':
            if ins.a[0] is None:
                s.pending = ins.a[1]
                return False
            c = self.val(s, f, ir.i(1), ins.a[0])
            c = self.as_bool(c)
            if z3.is_true(c):
                s.pending = ins.a[1]
                return False
            if z3.is_false(c):
                s.pending = ins.a[2]
                return False
            t = self.feasible(s, c)
            e = self.feasible(s, Not(c)) if t else True
            if t and e:
                s2 = s.copy()
                s2.assume(Not(c))
                s2.pending = ins.a[2]
                if self.merge and self.hunt is None:
                    from . import merge
                    join = merge.suitable(f.fn, f.block)
                    if join is not None:
                        base = s.copy()
                        s.assume(c)
                        s.pending = ins.a[1]
                        merge.try_merge(self, base, f, [s2, s], join, work)
                        return True
                work.append(s2)
                s.assume(c)
                s.pending = ins.a[1]
            elif t:
                s.pending = ins.a[1]
            else:
                s.pending = ins.a[2]
            return False
        if op == 'load':
            p = self.val(s, f, ir.PTR, ins.a[0])
            return self.do_load(s, f, ins, p, work)
        if op == 'store':
            t = m.types.resolve(ins.ty)
            v = self.val(s, f, t, ins.a[0])
            p = self.val(s, f, ir.PTR, ins.a[1])
            self.store_typed(s, m, t, v, p)
            return False
        if op == 'gep':
            base = self.val(s, f, ir.PTR, ins.a[0][0][1])
            f.env[ins.res] = self.gep(m, ins.ty, base, [(tt, self.val(s, f, tt, vv)) for tt, vv in ins.a[0][1:]])
            return False
        if op == 'bin':
            a = self.val(s, f, ins.ty, ins.a[1])
            b = self.val(s, f, ins.ty, ins.a[2])
            if ins.ty.k == 'int' and ins.ty.w == 1:
                a, b = self.as_bool(a), self.as_bool(b)
                fn = {'xor': z3.Xor, 'and': And, 'or': Or}.get(ins.a[0])
                if fn is None:
                    raise Undecided('i1 arithmetic ' + ins.a[0])
                f.env[ins.res] = z3.simplify(fn(a, b))
                return False
            if self.check_overflow and 'nsw' in ins.a[3] and ins.a[0] in ('add', 'sub', 'mul') and not isinstance(a, (Ptr, Wild, FnRef)):
                self.nsw(s, ins.a[0], a, b)
            f.env[ins.res] = self.binop(s, ins.a[0], a, b, ins.a[3])
            return False
        if op == 'icmp':
            a = self.val(s, f, ins.ty, ins.a[1])
            b = self.val(s, f, ins.ty, ins.a[2])
            if isinstance(a, (Ptr, Wild, FnRef)) or isinstance(b, (Ptr, Wild, FnRef)):
                if self.cmp_log is not None and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                    if a.idx is not None:
                        self.cmp_log.append((ins.a[0], a.idx, b.idx))
                    self.cmp_log.append((ins.a[0], a.off, b.off))
                c = self.ptr_cmp(s, ins.a[0], a, b)
            else:
                if self.cmp_log is not None:
                    self.cmp_log.append((ins.a[0], a, b))
                if self.cmp_hook is not None:
                    self.cmp_hook(s, a, b)
                c = simp(CMPS[ins.a[0]](a, b))
            f.env[ins.res] = c
            return False
        if op == 'fcmp':
            a = self.val(s, f, ins.ty, ins.a[1])
            b = self.val(s, f, ins.ty, ins.a[2])
            pr = ins.a[0]
            cm = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}
            if pr == 'une':
                c = Not(z3.fpEQ(a, b))
            elif pr == 'one':
                c = And(Not(z3.fpEQ(a, b)), Not(z3.fpIsNaN(a)), Not(z3.fpIsNaN(b)))
            elif pr == 'uno':
                c = Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            elif pr == 'ord':
                c = And(Not(z3.fpIsNaN(a)), Not(z3.fpIsNaN(b)))
            elif pr[0] == 'o':
                c = cm[pr[1:]](a, b)
            else:
                c = Or(z3.fpIsNaN(a), z3.fpIsNaN(b), cm[pr[1:]](a, b))
            f.env[ins.res] = z3.simplify(c)
            return False
        if op == 'cast':
            v = self.val(s, f, ins.a[1], ins.a[2])
            if ins.a[1].k == 'int' and ins.a[1].w == 1:
                v = self.as_bool(v)
                if ins.a[0] == 'zext':
                    f.env[ins.res] = simp(z3.If(v, bv(1, ins.ty.w), bv(0, ins.ty.w)))
                else:
                    f.env[ins.res] = simp(z3.If(v, bv(-1 % (1 << ins.ty.w), ins.ty.w), bv(0, ins.ty.w)))
                return False
            if ins.a[0] == 'inttoptr' and not isinstance(v, (Ptr, Wild, FnRef)) and z3.is_app_of(v, z3.Z3_OP_ITE):
                # integer ITE that carries pointers: fork
                pass
            r = self.cast(s, ins.a[0], ins.a[1], ins.ty, v)
            if ins.ty.k == 'int' and ins.ty.w == 1:
                r = simp(r == bv(1, 1))
            f.env[ins.res] = r
            return False
        if op == 'call':
            return self.do_call(s, f, ins, work)
        if op == 'ret':
            v = None
            if ins.a[0] is not None:
                v = self.val(s, f, ins.ty, ins.a[0])
                if ins.ty.k == 'int' and ins.ty.w == 1:
                    v = self.as_bool(v)
            s.frames.pop()
            s.ret = v
            if s.frames and f.res is not None and f.res != '':
                s.frames[-1].env[f.res] = v
            return False
        if op == 'select':
            c = self.as_bool(self.val(s, f, ir.i(1), ins.a[0]))
            a = self.val(s, f, ins.ty, ins.a[1])
            b = self.val(s, f, ins.ty, ins.a[2])
            if z3.is_true(c):
                f.env[ins.res] = a
            elif z3.is_false(c):
                f.env[ins.res] = b
            elif isinstance(a, (Ptr, Wild, FnRef)) or isinstance(b, (Ptr, Wild, FnRef)):
                for t, v in self.fork(s, [(c, a), (Not(c), b)]):
                    t.frames[-1].env[ins.res] = v
                    if t is not s:
                        work.append(t)
            else:
                if ins.ty.k == 'int' and ins.ty.w == 1:
                    a, b = self.as_bool(a), self.as_bool(b)
                f.env[ins.res] = simp(z3.If(c, a, b)) if not isinstance(a, z3.FPRef) else z3.If(c, a, b)
            return False
        if op == 'switch':
            v = self.to_bv(self.val(s, f, ins.a[0], ins.a[1]))
            alts = []
            byl = {}
            none = []
            for cv, lab in ins.a[3]:
                c = v == bv(cv % (1 << v.size()), v.size())
                byl.setdefault(lab, []).append(c)
                none.append(Not(c))
            for lab, cs in byl.items():
                if lab == ins.a[2]:
                    continue
                alts.append((Or(*cs), lab))
            dn = And(*none)
            if ins.a[2] in byl:
                dn = Or(dn, *byl[ins.a[2]])
            alts.append((dn, ins.a[2]))
            for t, lab in self.fork(s, alts):
                t.pending = lab
                if t is not s:
                    work.append(t)
            return False
        if op == 'alloca':
            sz = m.types.size(ins.ty)
            if ins.a[0] is not None:
                n = self.val(s, f, ins.a[0][0], ins.a[0][1])
                n = n if n.size() == 64 else z3.ZeroExt(64 - n.size(), n)
                szt = simp(n * bv(sz))
            else:
                szt = bv(sz)
            f.env[ins.res] = Ptr(self.alloc(s, f.fn.name + '.' + ins.res, szt, 'stack'))
            return False
        if op == 'freeze':
            f.env[ins.res] = self.val(s, f, ins.ty, ins.a[0])
            return False
        if op == 'fneg':
            f.env[ins.res] = z3.simplify(z3.fpNeg(self.val(s, f, ins.ty, ins.a[0])))
            return False
        if op == 'extractvalue':
            v = self.val(s, f, ins.ty, ins.a[0])
            for j in ins.a[1]:
                v = v[j]
            f.env[ins.res] = v
            return False
        if op == 'insertvalue':
            v = self.val(s, f, ins.ty, ins.a[0])
            x = self.val(s, f, ins.a[1], ins.a[2])
            v = list(v)
            assert len(ins.a[3]) == 1
            v[ins.a[3][0]] = x
            f.env[ins.res] = v
            return False
        if op == 'unreachable':
            raise PathDead()
        raise Undecided('instruction ' + ins.txt[:60])

    def nsw(self, s, op, a, b):
        w = a.size()
        if op == 'add':
            c = And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b))
        elif op == 'sub':
            c = And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True))
        else:
            c = And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b))
        self.prove(s, c, 'signed-overflow')

    def as_bool(self, v):
        if z3.is_bool(v):
            return simp(v)
        return simp(v == bv(1, 1))

    def do_load(self, s, f, ins, p, work):
        m = f.fn.module
        t = m.types.resolve(ins.ty)
        if t.k in ('struct', 'arr'):
            raise Undecided('aggregate load')
        size = m.types.size(t)
        isptr = t.k == 'ptr'
        alts = self.load(s, p, size, isptr or size == 8)
        if isptr:
            if len(alts) == 1:
                s.assume(alts[0][0])
                f.env[ins.res] = self.from_bv_ptr(alts[0][1])
                return False
            for st, v in self.fork(s, alts):
                st.frames[-1].env[ins.res] = self.from_bv_ptr(v)
                if st is not s:
                    work.append(st)
            return False
        if size == 8 and any(isinstance(v, (Ptr, FnRef)) for _, v in alts):
            if len(alts) > 1:
                for st, v in self.fork(s, alts):
                    st.frames[-1].env[ins.res] = v if t.k == 'int' else self._fp(v, t)
                    if st is not s:
                        work.append(st)
                return False
            s.assume(alts[0][0])
            f.env[ins.res] = alts[0][1]
            return False
        if any(isinstance(v, Wild) for _, v in alts):
            alts = self.read_chain(s, p.obj, s.mem.get(p.obj.oid), p.idx, p.off, size, False)
        if t.k == 'fp':
            if len(alts) == 1 and isinstance(alts[0][1], z3.FPRef):
                f.env[ins.res] = alts[0][1]
                return False
            f.env[ins.res] = self._fp(self.merge_int(alts), t)
            return False
        v = self.merge_int(alts)
        if t.k == 'int' and t.w != 8 * size:
            v = simp(z3.Extract(t.w - 1, 0, v))
            if t.w == 1:
                v = simp(v == bv(1, 1))
        f.env[ins.res] = v
        return False

    def _fp(self, v, t):
        if isinstance(v, z3.FPRef):
            return v
        v = self.to_bv(v)
        return z3.simplify(z3.fpBVToFP(v, z3.Float64() if t.w == 64 else z3.Float32()))

    def store_typed(self, s, m, t, v, p):
        size = m.types.size(t)
        if isinstance(v, list):
            raise Undecided('aggregate store')
        if t.k == 'int' and t.w == 1:
            v = z3.If(self.as_bool(v), bv(1, 8), bv(0, 8))
        elif t.k == 'int' and t.w < 8 * size:
            v = z3.ZeroExt(8 * size - t.w, v)
        self.store(s, p, size, v)

    def do_call(self, s, f, ins, work):
        callee = ins.a[0]
        args = []
        for at, av, ad in ins.a[1]:
            args.append(self.val(s, f, at, av))
        if callee[0] == 'global':
            target = FnRef(callee[1], f.fn.module)
        else:
            target = self.val(s, f, ir.PTR, callee)
        return self.invoke(s, f, ins, target, args, work)

    def invoke(self, s, f, ins, target, args, work):
        if isinstance(target, Wild) or not isinstance(target, FnRef):
            if isinstance(target, Ptr):
                self.prove(s, FALSE, 'call-through-data-pointer')
            else:
                self.prove(s, FALSE, 'call-through-invalid-pointer')
            raise PathDead()
        if target.spec is not None:
            outs = target.spec(self, s, args, ins)
            return self.finish_call(s, ins, outs, work)
        name = target.name
        h = self.contracts.get(name)
        if h is not None and not (s.frames and name in getattr(self, 'verifying', ()) and False):
            self.used_contracts[name] = self.used_contracts.get(name, 0) + 1
            outs = h(self, s, args, ins)
            if outs is not NotImplemented:
                return self.finish_call(s, ins, outs, work)
        h = self.models.get(name)
        if h is not None:
            outs = h(self, s, args, ins)
            return self.finish_call(s, ins, outs, work)
        m, fn = self.prog.find_function(name, target.module)
        if fn is None:
            raise Undecided('no body and no model for %s' % name)
        if sum(1 for fr in s.frames if fr.fn is fn) >= (3 if self.unroll is None else 6):
            if self.unroll is not None:
                raise PathDead()
            raise Undecided('recursion through %s without a contract' % name)
        if len(s.frames) > 60:
            raise Undecided('call depth')
        self.new_frame(s, fn, args, ins.res if ins is not None else None)
        return False

    def finish_call(self, s, ins, outs, work):
        """outs: [(state, ret)]"""
        if not outs:
            raise PathDead()
        same = False
        for t, v in outs:
            if ins is not None and ins.res is not None:
                if v is None:
                    v = self.zero(t.frames[-1].fn.module, ins.ty, True)
                t.frames[-1].env[ins.res] = v
            if t is s:
                same = True
            else:
                work.append(t)
        return not same

    # ------------------------------------------------------------ control flow
    def phis(self, fn, block):
        return [i for i in fn.blocks[block] if i.op == 'phi']

    def goto(self, s, tgt, work, stop):
        f = s.frames[-1]
        fn = f.fn
        prev = f.block
        if stop is not None:
            r = stop(s, prev, tgt)
            if r:
                return True
        isheader = tgt in fn.loops
        if isheader and prev not in fn.loops[tgt]:
            return self.loop_entry(s, tgt, work)
        if isheader:
            n = f.visits.get(tgt, 0) + 1
            f.visits[tgt] = n
            lim = self.exhaustive
            if lim is None:
                lim = self.unroll if self.unroll is not None else self.unroll_fns.get((fn.name, tgt), self.unroll_fns.get(fn.name))
            if lim is not None and n > lim:
                if self.exhaustive is None and self.unroll is not None and self.unroll_fns.get(fn.name) is None:
                    raise PathDead()
                self.prove(s, FALSE, 'unwinding:loop-bound-%d' % lim, '%s:%s' % (fn.name, fn.blocks[tgt][0].line))
                raise PathDead()
        self.enter_block(s, f, prev, tgt)
        return False

    def phi_values(self, s, f, prev, tgt):
        vals = {}
        for i in self.phis(f.fn, tgt):
            for v, b in i.a[0]:
                if b == prev:
                    x = self.val(s, f, i.ty, v)
                    if i.ty.k == 'int' and i.ty.w == 1:
                        x = self.as_bool(x)
                    vals[i.res] = x
                    break
            else:
                raise Undecided('phi without predecessor')
        return vals

    def enter_block(self, s, f, prev, tgt):
        vals = self.phi_values(s, f, prev, tgt)
        f.env.update(vals)
        f.prev = prev
        f.block = tgt
        f.ip = len(vals)

    def loop_entry(self, s, tgt, work):
        f = s.frames[-1]
        fn = f.fn
        f.visits[tgt] = 0
        if self.exhaustive is not None or self.unroll is not None or fn.name in self.unroll_fns or (fn.name, tgt) in self.unroll_fns:
            self.enter_block(s, f, f.block, tgt)
            return False
        from .loops import analyse_loop
        outs = analyse_loop(self, s, tgt)
        work.extend(outs)
        return True


class Found(Exception):
    pass
