from rvc.harness import *
from rvc.harness import OFFS as O
from rvc.engine import *
from rvc.smt import *
import z3

want('rtypes.h rlib/rarray.h', 'robject_t', ['type', 'cleanup', 'copy'])
want('rtypes.h rlib/rarray.h', 'rarray_t', ['obj', 'data', 'len', 'alloc_size', 'elt_size'])

U = z3.ULT
ULE = z3.ULE
MAXN = 1 << 40          # element counts stay below 2^40 (stated precondition)


def zx(t, w=64):
    return t if t.size() == w else z3.ZeroExt(w - t.size(), t)


def sx(t, w=64):
    return t if t.size() == w else z3.SignExt(w - t.size(), t)


def min_(a, b):
    return z3.If(z3.ULE(a, b), a, b)


class Arr:
    """a well-formed rarray_t: len <= alloc_size, data holds alloc_size*elt_size bytes"""

    def __init__(self, v, name='array', es=8, regions=None, field=None, cap=4, alloc_min=1, maxn=MAXN, len_=None):
        self.v, self.es, self.name = v, es, name
        self.len = v.bv(name + '.len') if len_ is None else len_
        self.alloc = v.bv(name + '.alloc')
        v.assume(ULE(self.len, self.alloc), U(self.alloc, bv(maxn)), z3.UGE(self.alloc, bv(alloc_min)))
        v.small(self.alloc, cap)
        self.data = v.obj(name + '.data', simp(self.alloc * bv(es)), regions=regions)
        self.obj = v.obj(name, O('rarray_t'), cells=self.cells())

    def cells(self, at=0):
        return {at + O('rarray_t', 'data'): (8, Ptr(self.data)), at + O('rarray_t', 'len'): (8, self.len),
                at + O('rarray_t', 'alloc_size'): (8, self.alloc), at + O('rarray_t', 'elt_size'): (8, bv(self.es))}

    @property
    def p(self):
        return Ptr(self.obj)

    # views of a state
    def nlen(self, s):
        return self.v.rd(s, self.p + O('rarray_t', 'len'))

    def nalloc(self, s):
        return self.v.rd(s, self.p + O('rarray_t', 'alloc_size'))

    def ndata(self, s):
        return self.v.rdp(s, self.p + O('rarray_t', 'data'))

    def old(self, i, b=0, size=1):
        return self.v.E.rd(self.v.s, Ptr(self.data, simp(i * bv(self.es) + b)), size)

    def new(self, s, i, b=0, size=1):
        d = self.ndata(s)
        if not isinstance(d, Ptr):
            self.v.check(s, FALSE, 'array data pointer valid')
            raise PathDead()
        p = d + simp(i * bv(self.es) + b)
        if not self.v.concrete:
            self.v.E.check_access(s, p, size, 'array-slot')
        return self.v.E.rd(s, p, size)

    def wf(self, s, label='array stays well formed'):
        v = self.v
        d = self.ndata(s)
        if not isinstance(d, Ptr):
            v.check(s, FALSE, label)
            return
        v.check(s, And(ULE(self.nlen(s), self.nalloc(s)), d.off == bv(0), d.obj.size == self.nalloc(s) * bv(self.es),
                       v.rd(s, self.p + O('rarray_t', 'elt_size')) == bv(self.es),
                       BoolV(d.obj.oid not in s.freed)), label)


def BoolV(b):
    return TRUE if b else FALSE
