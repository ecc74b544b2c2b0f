"""Array-sweep inference for loops that write memory at an offset affine in the iteration.

A loop whose iteration j writes the window [lo + st*j, lo + st*j + ext) of an object with
values that depend on j and on memory the loop has not overwritten yet leaves, after k
iterations, the windows 0..k-1 written and everything else as before the loop.  That
content is installed at the loop head as one update ('sw', Sweep, k); the inductive
step is an obligation (bytes at an arbitrary offset after one more iteration are those
of the sweep with k+1), so the inference itself need not be trusted."""
import re
import z3
from .smt import *
from .engine import Ptr, Wild, FnRef, Undecided, PathDead, decompose

NUM = re.compile(r'!(\d+)$')


class NotSweep(Exception):
    pass


class Sweep:
    def __init__(self, obj, lo, st, ext, k0, paths, pre, uidx):
        # paths: [(conds, [write, ...newest first])], write = (c0, size, kind, payload)
        self.obj, self.lo, self.st, self.ext, self.k0, self.paths, self.pre, self.uidx = obj, lo, st, ext, k0, paths, pre, uidx
        self.S = abs(st)

    def _sub(self, t, j):
        if isinstance(t, Ptr):
            return Ptr(t.obj, simp(z3.substitute(t.off, (self.k0, j))), None if t.idx is None else simp(z3.substitute(t.idx, (self.k0, j))))
        if isinstance(t, (Wild, FnRef)) or t is None:
            return t
        return simp(z3.substitute(t, (self.k0, j)))

    def locate(self, off):
        """-> (j, c) with off in window j at position c, c numeric or term"""
        if self.st > 0:
            d = decompose(off, self.lo, self.S)
            if d is not None:
                return d
            x = simp(off - self.lo)
            return simp(z3.UDiv(x, bv(self.S))), simp(z3.URem(x, bv(self.S)))
        d = decompose(off, self.lo, self.S)
        if d is not None:
            return simp(-d[0]), d[1]
        x = simp(self.lo + bv(self.S - 1) - off)
        return simp(z3.UDiv(x, bv(self.S))), simp(bv(self.S - 1) - z3.URem(x, bv(self.S)))

    def inside(self, off, k):
        """byte at off lies in a window of the first k iterations"""
        if self.st > 0:
            d = decompose(off, self.lo, self.S)
            if d is not None:
                return And(z3.ULT(d[0], k))
            return z3.ULT(off - self.lo, bv(self.S) * k)
        d = decompose(off, self.lo, self.S)
        if d is not None:
            return z3.ULT(-d[0], k)
        return z3.ULT(self.lo + bv(self.S - 1) - off, bv(self.S) * k)

    def read(self, E, s, k, idx, off, size, isptr, extra, parent_read):
        """alternatives covering every case; parent_read(extra)-> alts"""
        loc = self.locate(off)
        ie = TRUE if idx is None else simp(idx == self.uidx)
        if isinstance(loc[1], int):
            j, c = loc
            if c + size > self.S:
                return None        # straddles windows: byte by byte
            hit = simp(And(ie, z3.ULT(j, k)))
        else:
            if size > 1:
                return None
            j, c = loc
            hit = simp(And(ie, self.inside(off, k)))
        if not E._feas(s, extra, hit):
            return parent_read([])
        out = []
        allhit = not E._feas(s, extra, Not(hit))
        g = [] if allhit else [hit]
        rest = []
        for conds, ws in self.paths:
            pc = [self._sub(x, j) for x in conds]
            a = self._path(E, s, ws, j, c, size, isptr, extra + g + pc, parent_read)
            if a is None:
                return None
            for cc, v in a:
                out.append((And(*(g + pc + [cc])), v))
        if not allhit:
            nh = simp(Not(hit))
            for cc, v in parent_read([nh]):
                out.append((And(nh, cc), v))
        return out

    def _path(self, E, s, ws, j, c, size, isptr, extra, parent_read):
        res = []
        conds = []
        for c0, usz, kind, pay in ws:
            if isinstance(c, int):
                if c + size <= c0 or c >= c0 + usz:
                    continue
                if c < c0 or c + size > c0 + usz:
                    return None
                hit = TRUE
                d = bv(c - c0)
            else:
                hit = simp(And(z3.UGE(c, bv(c0)), z3.ULT(c, bv(c0 + usz))))
                d = simp(c - bv(c0))
            g = [] if z3.is_true(hit) else [hit]
            if kind == 'st':
                v = E._sub(self._sub(pay, j), usz, d, size)
                if isptr and not isinstance(v, (Ptr, Wild, FnRef)) and size != 8:
                    v = Wild('x')
                res.append((And(*(conds + g)), v))
            elif kind == 'fill':
                b = self._sub(pay, j)
                res.append((And(*(conds + g)), b if size == 1 else simp(z3.Concat(*([b] * size)))))
            else:
                sobj, schain, sidx, soff = pay
                for cc, v in E.read_chain(s, sobj, schain, self._sub(sidx, j), simp(self._sub(soff, j) + d), size, isptr, extra + g):
                    res.append((And(*(conds + g + [cc])), v))
            if z3.is_true(hit):
                return res
            conds = conds + [simp(Not(hit))]
        for cc, v in parent_read(conds):
            res.append((And(*(conds + [cc])), v))
        return res


def functional(t, k, marker):
    """t depends on k and on things fixed before the loop only"""
    if t is None or isinstance(t, (Wild, FnRef)):
        return not isinstance(t, Wild)
    if isinstance(t, Ptr):
        return functional(t.off, k, marker) and functional(t.idx, k, marker)
    kn = k.decl().name()
    for nm in vars_of(t):
        if nm == kn:
            continue
        m = NUM.search(nm)
        if m and int(m.group(1)) > marker:
            return False
    return True


def infer(E, L, obj, runs, marker):
    """runs: [(k, head, [back states], plen)]; -> Sweep or raises NotSweep"""
    if len(runs) != 1:
        raise NotSweep('several head shapes')
    k, h, backs, plen = runs[0]
    pre = L.s.mem.get(obj.oid)
    base = h.mem.get(obj.oid)
    paths = []
    lo = None
    raw = []
    uidx = None
    for b in backs:
        ch = b.mem.get(obj.oid)
        ws = []
        n = 0
        while ch is not base:
            if ch is None or n > 60:
                raise NotSweep('content replaced')
            ws.append(ch[0])
            ch = ch[1]
            n += 1
        conds = []
        for c in b.pc[plen:]:
            if functional(c, k, marker):
                conds.append(c)
            elif len(backs) > 1:
                raise NotSweep('path condition is not functional')
        if len(backs) == 1:
            conds = []
        raw.append((conds, ws))
    terms = []
    for conds, ws in raw:
        for u in ws:
            if u[0] not in ('st', 'cp', 'fill'):
                raise NotSweep('update ' + u[0])
            n = u[3]
            if not isinstance(n, int):
                if not is_num(simp(n)):
                    raise NotSweep('symbolic length')
                n = num(simp(n))
            if u[1] is not None:
                if not functional(u[1], bv(0), marker) if False else not functional(u[1], k, marker):
                    raise NotSweep('index')
                if k.decl().name() in set(vars_of(u[1])):
                    raise NotSweep('family index varies')
                if uidx is not None and not z3.eq(simp(uidx), simp(u[1])):
                    raise NotSweep('two family members')
                uidx = u[1]
            if not functional(u[2], k, marker):
                raise NotSweep('offset')
            terms.append((simp(u[2]), n, u))
    var = []
    for off, n, u in terms:
        nxt = simp(z3.substitute(off, (k, k + bv(1))))
        d = simp(nxt - off)
        if not is_num(d):
            raise NotSweep('offset not affine')
        sd = num(d)
        if sd >= 1 << 63:
            sd -= 1 << 64
        if sd != 0:
            var.append((off, n, u, sd))
    if not var:
        raise NotSweep('no moving write')
    st = var[0][3]
    if any(x[3] != st for x in var):
        raise NotSweep('different strides')
    o0 = var[0][0]
    cs = []
    for off, n, u, _ in var:
        d = simp(off - o0)
        if not is_num(d):
            raise NotSweep('windows apart')
        x = num(d)
        if x >= 1 << 63:
            x -= 1 << 64
        cs.append(x)
    mn = min(cs)
    ext = max(c - mn + x[1] for c, x in zip(cs, var))
    if ext > abs(st):
        raise NotSweep('windows overlap')
    lo = simp(z3.substitute(o0 + bv(mn % (1 << 64)), (k, bv(0))))
    rel = {id(x[2]): c - mn for c, x in zip(cs, var)}
    for conds, ws in raw:
        out = []
        for u in ws:
            if id(u) not in rel:
                continue          # fixed cell: a loop variable of its own
            c0 = rel[id(u)]
            if u[0] == 'st':
                if not functional(u[4], k, marker):
                    raise NotSweep('value')
                out.append((c0, u[3], 'st', u[4]))
            elif u[0] == 'fill':
                if not functional(u[4], k, marker):
                    raise NotSweep('value')
                out.append((c0, num(simp(u[3])) if not isinstance(u[3], int) else u[3], 'fill', u[4]))
            else:
                n = num(simp(u[3])) if not isinstance(u[3], int) else u[3]
                sobj, schain, sidx, soff = u[4], u[5], u[6], u[7]
                hc = h.mem.get(sobj.oid)
                if schain is not hc:
                    raise NotSweep('source changes')
                if not functional(soff, k, marker) or not functional(sidx, k, marker):
                    raise NotSweep('source offset')
                schain = L.s.mem.get(sobj.oid)
                out.append((c0, n, 'cp', (sobj, schain, sidx, soff)))
        paths.append((conds, out))
    return Sweep(obj, lo, st, ext, k, paths, pre, uidx)
