from .common import *


def z32(x):
    return z3.ZeroExt(24, x)


def cont(x):
    return z3.LShR(x, bv(6, 8)) == bv(2, 8)


def rng(v, cap=6, name='in'):
    """input range [p, p+n) of an object of exactly n bytes"""
    n = v.bv(name + '.n')
    v.assume(ULE(n, bv(1 << 46)))
    v.small(n, cap)
    o = v.obj(name, n)
    return n, o


def at(v, o, i):
    return v.E.rd(v.s, Ptr(o, bv(i)), 1)


@unit('C01', 'utf8-decode', targets=['r_utf8_mbtowc'])
def utf8_decode(v):
    """value and byte count of every byte string; never reads past the end"""
    n, src = rng(v)
    out = v.obj('out', 4)
    for s in v.call('r_utf8_mbtowc', [Ptr(out), Ptr(src), Ptr(src, n)]):
        got = v.rd(s, Ptr(out), 4)
        v.unchanged(s, src, 'input untouched')
        t = v.given(s, n == bv(0))
        if t:
            v.check(t, And(s.ret == bv(0, 32), got == bv(0, 32)), 'empty input')
        t = v.given(s, n != bv(0))
        if not t:
            continue
        b = [at(v, src, i) for i in range(4)]
        ok1 = ULE(b[0], bv(0x7f, 8))
        ok2 = And(z3.UGE(n, bv(2)), z3.UGE(b[0], bv(0xc2, 8)), ULE(b[0], bv(0xdf, 8)), cont(b[1]))
        ok3 = And(z3.UGE(n, bv(3)), z3.UGE(b[0], bv(0xe0, 8)), ULE(b[0], bv(0xef, 8)), cont(b[1]), cont(b[2]))
        ok4 = And(z3.UGE(n, bv(4)), z3.UGE(b[0], bv(0xf0, 8)), ULE(b[0], bv(0xf4, 8)), cont(b[1]), cont(b[2]), cont(b[3]))
        c = [z32(x) for x in b]
        low = [x & bv(0x3f, 32) for x in c]
        v2 = ((c[0] & bv(0x1f, 32)) << 6) | low[1]
        v3 = ((c[0] & bv(0x0f, 32)) << 12) | (low[1] << 6) | low[2]
        v4 = ((c[0] & bv(0x07, 32)) << 18) | (low[1] << 12) | (low[2] << 6) | low[3]
        v.check(t, s.ret == z3.If(ok2, bv(2, 32), z3.If(ok3, bv(3, 32), z3.If(ok4, bv(4, 32), bv(1, 32)))), 'bytes consumed')
        v.check(t, got == z3.If(ok2, v2, z3.If(ok3, v3, z3.If(ok4, v4, c[0]))), 'decoded value')


def enc_cap(v):
    size = v.bv('size', 32)
    v.small(size, 8)
    cap = zx(size)
    return size, v.obj('out', cap)


@unit('C01', 'utf8-encode', targets=['r_utf8_wctomb'])
def utf8_encode(v):
    wc = v.bv('wc', 32)
    size, out = enc_cap(v)
    need = z3.If(ULE(wc, bv(0x7f, 32)), bv(1, 32), z3.If(ULE(wc, bv(0x7ff, 32)), bv(2, 32), z3.If(ULE(wc, bv(0xffff, 32)), bv(3, 32), bv(4, 32))))
    okc = And(ULE(wc, bv(0x10ffff, 32)), z3.UGE(size, need))
    for s in v.call('r_utf8_wctomb', [wc, Ptr(out), size]):
        v.check(s, s.ret == z3.If(okc, need, bv(0, 32)), 'byte count, zero when it does not fit')
        v.unchanged(s, out, 'writes only the encoded bytes', excl=lambda w: z3.UGE(w, zx(s.ret)))
        b8 = lambda x: z3.Extract(7, 0, x)
        for m, bs in ((1, [wc]), (2, [0xc0 | z3.LShR(wc, 6), 0x80 | (wc & 0x3f)]),
                      (3, [0xe0 | z3.LShR(wc, 12), 0x80 | (z3.LShR(wc, 6) & 0x3f), 0x80 | (wc & 0x3f)]),
                      (4, [0xf0 | z3.LShR(wc, 18), 0x80 | (z3.LShR(wc, 12) & 0x3f), 0x80 | (z3.LShR(wc, 6) & 0x3f), 0x80 | (wc & 0x3f)])):
            t = v.given(s, okc, need == bv(m, 32))
            if t:
                for i, x in enumerate(bs):
                    v.check(t, v.rd(t, Ptr(out, bv(i)), 1) == b8(x), 'byte %d of %d' % (i, m))


@unit('C01', 'utf8-roundtrip', targets=['r_utf8_wctomb', 'r_utf8_mbtowc'])
def utf8_roundtrip(v):
    """decode(encode(wc) followed by anything) == wc"""
    wc = v.bv('wc', 32)
    out = v.obj('buf', 8)
    got = v.obj('got', 4)
    v.assume(ULE(wc, bv(0x10ffff, 32)))
    for s in v.call('r_utf8_wctomb', [wc, Ptr(out), bv(8, 32)]):
        v.check(s, And(s.ret > 0, s.ret <= 4), 'encodes')
        n = sx(s.ret)
        for t in v.call('r_utf8_mbtowc', [Ptr(got), Ptr(out), Ptr(out, bv(8))], state=s):
            v.check(t, And(sx(t.ret) == n, v.rd(t, Ptr(got), 4) == wc), 'decoded back')


@unit('C01', 'utf16-decode', targets=['r_utf16_mbtowc'])
def utf16_decode(v):
    n, src = rng(v)
    out = v.obj('out', 4)
    for s in v.call('r_utf16_mbtowc', [Ptr(out), Ptr(src), Ptr(src, n)]):
        got = v.rd(s, Ptr(out), 4)
        v.unchanged(s, src, 'input untouched')
        t = v.given(s, n == bv(0))
        if t:
            v.check(t, And(s.ret == bv(0, 32), got == bv(0, 32)), 'empty input')
        t = v.given(s, n != bv(0))
        if not t:
            continue
        c = [z32(at(v, src, i)) for i in range(4)]
        u1 = c[0] | (c[1] << 8)
        u2 = c[2] | (c[3] << 8)
        hi = lambda u: And(z3.UGE(u, bv(0xd800, 32)), U(u, bv(0xdc00, 32)))
        lo = lambda u: And(z3.UGE(u, bv(0xdc00, 32)), U(u, bv(0xe000, 32)))
        ok2 = And(z3.UGE(n, bv(2)), Not(hi(u1)), Not(lo(u1)))
        ok4 = And(z3.UGE(n, bv(4)), hi(u1), lo(u2))
        v.check(t, s.ret == z3.If(ok2, bv(2, 32), z3.If(ok4, bv(4, 32), bv(1, 32))), 'bytes consumed')
        v.check(t, got == z3.If(ok2, u1, z3.If(ok4, bv(0x10000, 32) + ((u1 - 0xd800) << 10) + (u2 - 0xdc00), c[0])), 'decoded value')


@unit('C01', 'utf16-encode', targets=['r_utf16_wctomb'])
def utf16_encode(v):
    wc = v.bv('wc', 32)
    size, out = enc_cap(v)
    need = z3.If(ULE(wc, bv(0xffff, 32)), bv(2, 32), bv(4, 32))
    sur = And(z3.UGE(wc, bv(0xd800, 32)), U(wc, bv(0xe000, 32)))
    okc = And(ULE(wc, bv(0x10ffff, 32)), Not(sur), z3.UGE(size, need))
    for s in v.call('r_utf16_wctomb', [wc, Ptr(out), size]):
        v.check(s, s.ret == z3.If(okc, need, bv(0, 32)), 'byte count, zero when it does not fit')
        v.unchanged(s, out, 'writes only the encoded bytes', excl=lambda w: z3.UGE(w, zx(s.ret)))


@unit('C01', 'utf16-roundtrip', targets=['r_utf16_wctomb', 'r_utf16_mbtowc'])
def utf16_roundtrip(v):
    wc = v.bv('wc', 32)
    out = v.obj('buf', 8)
    got = v.obj('got', 4)
    v.assume(ULE(wc, bv(0x10ffff, 32)), Or(U(wc, bv(0xd800, 32)), z3.UGE(wc, bv(0xe000, 32))))
    for s in v.call('r_utf16_wctomb', [wc, Ptr(out), bv(8, 32)]):
        v.check(s, And(s.ret > 0, s.ret <= 4), 'encodes')
        n = sx(s.ret)
        for t in v.call('r_utf16_mbtowc', [Ptr(got), Ptr(out), Ptr(out, bv(8))], state=s):
            v.check(t, And(sx(t.ret) == n, v.rd(t, Ptr(got), 4) == wc), 'decoded back')
