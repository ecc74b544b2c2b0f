"""Models of the C library and of the allocation layer below the verified code.

These are the trusted base: each is listed in the evidence under "assumptions".
Allocation is assumed to succeed unless a unit asks for failures (E.oom)."""
import z3
from .smt import *


def install(E):
    from .engine import Ptr, Wild, FnRef, Undecided, PathDead, Obj, ZeroBase
    M = E.models
    E.oom = False
    E.printed = []

    def sz(v):
        return v if v.size() == 64 else z3.ZeroExt(64 - v.size(), v)

    def fail_alt(E, s, outs):
        if E.oom:
            t = s.copy()
            outs.append((t, bv(0)))
        return outs

    def malloc(E, s, a, ins):
        n = simp(sz(a[0]))
        outs = fail_alt(E, s, [])
        E.prove(s, z3.ULT(n, bv(1 << 47)), 'allocation-size-sane')
        o = E.alloc(s, 'heap%d' % fresh_id(), n)
        s.ghost.setdefault('allocs', []).append(o)
        return outs + [(s, Ptr(o))]

    def zmalloc(E, s, a, ins):
        n = simp(sz(a[0]))
        outs = fail_alt(E, s, [])
        E.prove(s, z3.ULT(n, bv(1 << 47)), 'allocation-size-sane')
        o = E.alloc(s, 'heap%d' % fresh_id(), n, base=ZeroBase())
        s.ghost.setdefault('allocs', []).append(o)
        return outs + [(s, Ptr(o))]

    def calloc(E, s, a, ins):
        n = simp(sz(a[0]) * sz(a[1]))
        return zmalloc(E, s, [n], ins)

    def free(E, s, a, ins):
        p = a[0]
        if not isinstance(p, (Ptr, Wild, FnRef)) and is_num(p) and num(p) == 0:
            return [(s, None)]
        if not isinstance(p, Ptr):
            E.prove(s, FALSE, 'free:invalid-pointer')
            raise PathDead()
        do_free(E, s, p, 'free')
        return [(s, None)]

    def do_free(E, s, p, what):
        E.prove(s, p.off == bv(0), what + ':start-of-object')
        if p.obj.kind not in ('heap', 'any'):
            E.prove(s, FALSE, what + ':not-heap')
            raise PathDead()
        if p.obj.indexed:
            E.check_access(s, p, 0, what)
            l = s.freed.get(p.obj.oid, ())
            s.freed[p.obj.oid] = tuple(l) + (p.idx,)
        else:
            if p.obj.oid in s.freed:
                E.prove(s, FALSE, what + ':double-free')
                raise PathDead()
            s.freed[p.obj.oid] = True
        s.ghost.setdefault('freed', []).append(p)

    def realloc(E, s, a, ins):
        p, n = a[0], simp(sz(a[1]))
        if not isinstance(p, Ptr):
            if not isinstance(p, (Wild, FnRef)) and is_num(p) and num(p) == 0:
                return malloc(E, s, [n], ins)
            E.prove(s, FALSE, 'realloc:invalid-pointer')
            raise PathDead()
        outs = fail_alt(E, s, [])
        E.prove(s, z3.ULT(n, bv(1 << 47)), 'allocation-size-sane')
        osz = p.obj.size(p.idx) if callable(p.obj.size) else p.obj.size
        if E.valid(s, z3.ULE(osz, n)):
            ln = osz
        elif E.valid(s, z3.ULE(n, osz)):
            ln = n
        else:
            ln = simp(z3.If(z3.ULE(osz, n), osz, n))
        o = E.alloc(s, 'heap%d' % fresh_id(), n)
        E.push(s, o, ('cp', None, bv(0), ln, p.obj, s.mem.get(p.obj.oid), p.idx, bv(0)))
        do_free(E, s, p, 'realloc')
        s.ghost.setdefault('allocs', []).append(o)
        return outs + [(s, Ptr(o))]

    def memcpy_any(what, allow_overlap):
        def h(E, s, a, ins):
            d, p, n = a[0], a[1], simp(sz(a[2]))
            if is_num(n) and num(n) == 0:
                return [(s, d)]
            # zero length with arbitrary pointers is harmless
            if not is_num(n) and E.feasible(s, n == bv(0)) and not (isinstance(d, Ptr) and isinstance(p, Ptr)):
                t = s.copy()
                t.assume(n == bv(0))
                s.assume(n != bv(0))
                if not E.feasible(s, TRUE):
                    return [(t, d)]
                return [(t, d)] + h(E, s, a, ins)
            E.check_access(s, d, n, what + '-dst')
            E.check_access(s, p, n, what + '-src')
            if d.obj.kind == 'const':
                E.prove(s, FALSE, what + ':write-to-constant')
            if not allow_overlap and d.obj is p.obj:
                same = TRUE if d.idx is None else d.idx == p.idx
                E.prove(s, Or(Not(same), n == 0, d.off == p.off, z3.ULE(d.off + n, p.off), z3.ULE(p.off + n, d.off)), what + ':no-overlap')
            src = s.mem.get(p.obj.oid)
            if is_num(n) and num(n) in (1, 2, 4, 8):
                # scalar-sized copies keep pointers and stay simple cells
                k = num(n)
                alts = E.read_chain(s, p.obj, src, p.idx, p.off, k, k == 8)
                if len(alts) == 1 and not isinstance(alts[0][1], Wild):
                    E.push(s, d.obj, ('st', d.idx, d.off, k, alts[0][1]))
                    return [(s, d)]
            E.push(s, d.obj, ('cp', d.idx, d.off, n, p.obj, src, p.idx, p.off))
            return [(s, d)]
        return h

    def memset(E, s, a, ins):
        d, c, n = a[0], a[1], simp(sz(a[2]))
        if is_num(n) and num(n) == 0:
            return [(s, d)]
        if not isinstance(d, Ptr) and not is_num(n) and E.feasible(s, n == bv(0)):
            t = s.copy()
            t.assume(n == bv(0))
            s.assume(n != bv(0))
            if not E.feasible(s, TRUE):
                return [(t, d)]
            return [(t, d)] + memset(E, s, a, ins)
        E.check_access(s, d, n, 'memset')
        c = simp(z3.Extract(7, 0, c)) if c.size() > 8 else c
        E.push(s, d.obj, ('fill', d.idx, d.off, n, c))
        return [(s, d)]

    def noop(ret=None):
        def h(E, s, a, ins):
            return [(s, ret)]
        return h

    def printer(E, s, a, ins):
        return [(s, fresh('printed', 32))]

    def assert_fail(E, s, a, ins):
        if E.allow_assert_fail:
            if E.assert_states is not None:
                E.assert_states.append(s.copy())
            raise PathDead()
        E.prove(s, FALSE, 'assertion')
        raise PathDead()

    def abort(E, s, a, ins):
        E.prove(s, FALSE, 'abort')
        raise PathDead()

    # strings: content functions; a C string is an object with an explicit length term in meta['strlen']
    def strlen(E, s, a, ins):
        p = a[0]
        if not isinstance(p, Ptr):
            E.prove(s, FALSE, 'strlen:invalid-pointer')
            raise PathDead()
        # constant strings: look for the zero
        o = simp(p.off)
        if p.obj.kind == 'const' and is_num(o):
            k = num(o)
            n = 0
            while True:
                b = E.rd(s, Ptr(p.obj, bv(k + n)), 1)
                if is_num(b) and num(b) == 0:
                    return [(s, bv(n))]
                n += 1
                if n > 10000:
                    raise Undecided('strlen')
        if is_num(o) and not callable(p.obj.size) and is_num(simp(p.obj.size)) and num(simp(p.obj.size)) < 256:
            # bytes written as constants
            for n in range(num(simp(p.obj.size)) - num(o)):
                b = simp(E.rd(s, p + n, 1))
                if not is_num(b):
                    break
                if num(b) == 0:
                    return [(s, bv(n))]
        if 'strlen' in p.obj.meta and s.mem.get(p.obj.oid) is None:
            L = p.obj.meta['strlen']
            L = L(p.idx) if callable(L) else L
            E.prove(s, z3.ULE(p.off, L), 'strlen:in-bounds')
            return [(s, simp(L - p.off))]
        if E.unroll is not None:
            outs = []
            n = 0
            cur = s
            while n < 40:
                E.check_access(cur, p + n, 1, 'strlen')
                b = E.rd(cur, p + n, 1)
                z = b == bv(0, 8)
                if E.feasible(cur, z):
                    t = cur.copy()
                    t.assume(z)
                    outs.append((t, bv(n)))
                if not E.feasible(cur, Not(z)):
                    break
                cur = cur.copy()
                cur.assume(Not(z))
                n += 1
            return outs
        # general: fresh length L with buf[off+L]==0, and buf[w]!=0 before it at the witnesses
        L = fresh('strlen')
        E.check_access(s, p, 1, 'strlen')
        s.assume(z3.ULT(L, (p.obj.size(p.idx) if callable(p.obj.size) else p.obj.size) - p.off))
        s.assume(E.rd(s, p + L, 1) == bv(0, 8))
        for w in E.witnesses:
            if w.size() == 64:
                s.assume(Implies(And(z3.ULE(p.off, w), z3.ULT(w, p.off + L)), E.rd(s, Ptr(p.obj, w, p.idx), 1) != 0))
        s.assume(Implies(L != 0, E.rd(s, p, 1) != 0))
        E.notes.add('strlen on symbolic buffer')
        return [(s, L)]

    M.update({
        'malloc': malloc, 'r_malloc': malloc, 'r_debug_malloc': malloc,
        'r_zmalloc': zmalloc, 'r_debug_zmalloc': zmalloc,
        'calloc': calloc, 'r_calloc': calloc, 'r_debug_calloc': calloc,
        'free': free, 'r_free': free, 'r_debug_free': free,
        'realloc': realloc, 'r_realloc': realloc, 'r_debug_realloc': realloc,
        'memcpy': memcpy_any('memcpy', False), 'memmove': memcpy_any('memmove', True),
        'memset': memset, 'r_memset': memset, 'r_memcpy': memcpy_any('memcpy', False), 'r_memmove': memcpy_any('memmove', True),
        'llvm.memcpy.p0.p0.i64': memcpy_any('memcpy', False), 'llvm.memmove.p0.p0.i64': memcpy_any('memmove', True),
        'llvm.memset.p0.i64': memset,
        'strlen': strlen, 'r_strlen': strlen,
        '__assert_fail': assert_fail, 'abort': abort, 'exit': abort,
    })
    E.notes = set()
    for nm in ('printf', 'r_printf', 'fprintf', 'puts', 'fputs', 'putchar', 'fflush', 'fwrite', 'perror', 'putc', 'fputc'):
        M[nm] = printer
    M['llvm.va_start'] = noop()
    M['llvm.va_end'] = noop()
    M['llvm.stacksave.p0'] = noop(bv(0))
    M['llvm.stackrestore.p0'] = noop()
