"""Joining of paths: an acyclic, call-free region between a branch and its immediate
post-dominator is executed path by path and the arrivals are merged into one state
(if-conversion).  When the arrivals cannot be expressed as one state they stay separate."""
import z3
from .smt import *


PURE = {'r_memcpy', 'r_memset', 'memcpy', 'memset', 'r_memmove', 'memmove'}


def postdom(fn):
    """block -> immediate post-dominator (None when there is none)"""
    r = getattr(fn, '_ipdom', None)
    if r is not None:
        return r
    blocks = list(fn.blocks)
    succ = {b: list(dict.fromkeys(fn.succs(b))) for b in blocks}
    EXIT = None
    full = set(blocks) | {EXIT}
    pd = {b: set(full) for b in blocks}
    pd[EXIT] = {EXIT}
    ch = True
    while ch:
        ch = False
        for b in reversed(blocks):
            ss = succ[b] or [EXIT]
            n = set.intersection(*[pd[x] for x in ss]) | {b}
            if n != pd[b]:
                pd[b] = n
                ch = True
    out = {}
    for b in blocks:
        c = pd[b] - {b}
        best = None
        for x in c:
            if x is not EXIT and len(pd[x]) == len(c):
                best = x
        out[b] = best
    fn._ipdom = out
    return out


def header_phis(fn):
    r = getattr(fn, '_hphi', None)
    if r is None:
        r = set()
        for h in fn.loops:
            for ins in fn.blocks[h]:
                if ins.op == 'phi':
                    for v, b in ins.a[0]:
                        if v[0] == 'local':
                            r.add(v[1])
        fn._hphi = r
    return r


def region(fn, b, join):
    """blocks strictly between b and join; None when unsuitable"""
    st = [x for x in fn.succs(b)]
    seen = set()
    while st:
        x = st.pop()
        if x == join or x in seen:
            continue
        seen.add(x)
        if x in fn.loops or len(seen) > 24:
            return None
        for ins in fn.blocks[x]:
            if ins.op in ('alloca', 'unreachable', 'ret'):
                return None
            if ins.op == 'call' and not (ins.a[0][0] == 'global' and (ins.a[0][1].startswith('llvm.') or ins.a[0][1] in PURE)):
                return None
        st.extend(fn.succs(x))
    return seen


def suitable(fn, b):
    c = getattr(fn, '_mergeable', None)
    if c is None:
        c = fn._mergeable = {}
    if b in c:
        return c[b]
    j = postdom(fn).get(b)
    ok = None
    if j is not None and not (j in fn.loops and b in fn.loops[j]):
        r = region(fn, b, j)
        if r is not None:
            inl = lambda x: frozenset(h for h in fn.loops if x in fn.loops[h])
            if all(inl(x) == inl(b) for x in list(r) + [j]):
                ok = j
    c[b] = ok
    return ok


def suffix(chain, base):
    out = []
    while chain is not base:
        if chain is None:
            return None
        out.append(chain[0])
        chain = chain[1]
    out.reverse()
    return out


def try_merge(E, s, f, starts, join, work):
    """starts: states about to enter the arms (their .pending set).  Continue them to `join`
    and push the joined state(s) on work."""
    depth = len(s.frames)
    base_mem = dict(s.mem)
    base_pc = len(s.pc)
    ref = (dict(s.freed), len(s.born), len(s.trace))
    arrivals = []

    def stop(t, prev, tgt):
        if len(t.frames) == depth and tgt == join:
            t.frames[-1].block = prev
            arrivals.append((t, prev))
            return True
        return False
    E.merge = False
    try:
        done = E.run(starts, depth - 1, stop)
    finally:
        E.merge = True
    assert not done
    if not arrivals:
        return
    m = None
    if len(arrivals) > 1:
        m = merge(E, f, arrivals, join, base_mem, base_pc, ref)
    if m is not None:
        work.append(m)
        return
    for t, prev in arrivals:
        E.enter_block(t, t.frames[-1], prev, join)
        work.append(t)


def merge(E, f, arrivals, join, base_mem, base_pc, ref):
    from .engine import Ptr, Wild, FnRef
    conds = []
    for t, prev in arrivals:
        if len(t.freed) != len(ref[0]) or len(t.born) != ref[1]:
            return None
        conds.append(And(*[c for c in t.pc[base_pc:] if c.get_id() not in t.derived]))
    fn = f.fn
    phis = [E.phi_values(t, t.frames[-1], prev, join) for t, prev in arrivals]

    def join_vals(vs):
        if all(v is vs[0] for v in vs):
            return vs[0]
        if any(isinstance(v, list) for v in vs):
            return None
        if any(isinstance(v, (Ptr, Wild, FnRef)) for v in vs):
            if all(isinstance(v, Ptr) and v.obj is vs[0].obj and v.idx is vs[0].idx for v in vs):
                return Ptr(vs[0].obj, join_vals([v.off for v in vs]), vs[0].idx)
            return None
        if len(vs) == 2 and all(z3.is_bv(v) and not z3.is_fp(v) and v.size() > 1 for v in vs):
            a, b = vs
            d = simp(a - b)
            if is_num(d):
                from .engine import bit_lit
                bl = bit_lit(conds[0])
                if bl is not None:
                    if bl[1] == 0:
                        b, d = a, simp(-d)
                    return simp(b + d * z3.ZeroExt(d.size() - 1, bl[0]))
                return simp(b + z3.If(conds[0], d, bv(0, d.size())))
            for x, y, c in ((a, b, conds[1]), (b, a, conds[0])):
                if is_num(x) or is_num(y) or z3.is_true(c):
                    continue
                if not (vars_of(x) & vars_of(y)):
                    continue
                r, _ = E.smt.check([c], x != y, timeout=300)
                if r == 'unsat':
                    return x
        r = vs[-1]
        for c, v in reversed(list(zip(conds[:-1], vs[:-1]))):
            if v.sort() != r.sort():
                return None
            r = z3.If(c, v, r)
        return simp(r) if not z3.is_fp(r) else z3.simplify(r)
    pv = {}
    hot = header_phis(fn)
    for k in phis[0]:
        vs = [p[k] for p in phis]
        if k in hot and all(z3.is_expr(v) and z3.is_bv(v) and is_num(v) for v in vs) and len(set(str(v) for v in vs)) > 1:
            return None      # a loop counter: keep the cases apart
        x = join_vals(vs)
        if x is None:
            return None
        pv[k] = x
    pushes = []
    oids = set()
    for t, _ in arrivals:
        for oid, ch in t.mem.items():
            if ch is not base_mem.get(oid):
                oids.add(oid)
    for oid in oids:
        sufs = [suffix(t.mem.get(oid), base_mem.get(oid)) for t, _ in arrivals]
        if any(sf is None for sf in sufs):
            return None
        p = _stores(E, oid, arrivals, sufs, base_mem, join_vals)
        if p is None:
            arms = []
            for c, sf in zip(conds, sufs):
                ch = (('stop',), None)
                for u in sf:
                    if u[0] not in ('st', 'cp', 'fill', 'br'):
                        return None
                    ch = (u, ch)
                arms.append((simp(c), ch))
            p = [(OBJS_get(oid), ('br', arms))]
        pushes += p
    t, prev = arrivals[0]
    t.pc = t.pc[:base_pc]
    some = simp(Or(*conds))
    if not z3.is_true(some) and E.smt.check([], Not(some), timeout=300)[0] != 'unsat':
        t.assume(some)
    t.mem = dict(base_mem)
    for o, u in pushes:
        E.push(t, o, u)
    fr = t.frames[-1]
    fr.env.update(pv)
    fr.prev = prev
    fr.block = join
    fr.ip = len(pv)
    return t


def _stores(E, oid, arrivals, sufs, base_mem, join_vals):
    from .engine import Ptr, Wild, FnRef, OBJS
    keys = {}
    pushes = []
    for sf in sufs:
        for u in sf:
            if u[0] != 'st' or not isinstance(u[3], int):
                return None
            k = (None if u[1] is None else simp(u[1]).get_id(), simp(u[2]).get_id(), u[3])
            keys[k] = u
    ks = list(keys)
    for i in range(len(ks)):
        for j in range(i):
            a, b = keys[ks[i]], keys[ks[j]]
            if E.quick_disjoint(a[2], a[3], b[2], b[3]) or (a[1] is not None and z3.is_false(simp(a[1] == b[1]))):
                continue
            return None
    for k in ks:
        u = keys[k]
        vals = []
        for (t, _), sf in zip(arrivals, sufs):
            v = None
            for w in sf:
                if (None if w[1] is None else simp(w[1]).get_id(), simp(w[2]).get_id(), w[3]) == k:
                    v = w[4]
            if v is None:
                alts = E.read_chain(t, OBJS[oid], base_mem.get(oid), u[1], u[2], u[3], u[3] == 8)
                if len(alts) == 1:
                    v = alts[0][1]
                elif any(isinstance(x, (Ptr, Wild, FnRef)) for _, x in alts):
                    return None
                else:
                    v = E.merge_int(alts)
            vals.append(v)
        if any(isinstance(v, Wild) for v in vals):
            return None
        x = join_vals(vals)
        if x is None:
            return None
        pushes.append((OBJS[oid], ('st', u[1], u[2], u[3], x)))
    return pushes


def OBJS_get(oid):
    from .engine import OBJS
    return OBJS[oid]
