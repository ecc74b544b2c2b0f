"""Contract units: symbolic pre-state, one call of the real function, postconditions.

The same unit text is used three ways:
  prove     unbounded proof; every obligation goes to the solver
  hunt      after a failed obligation: loops unrolled to a bound, to get a real input
  concrete  replay of that input: the real C code is compiled (ASan/UBSan), run on it,
            and the postconditions are evaluated on the memory it left behind
"""
import os
import time
import traceback
import z3
from . import engine as eng
from .engine import *
from .smt import *
from .prog import Program

UNITS = {}


class Unit:
    def __init__(self, prop, name, fn, **kw):
        self.prop, self.name, self.fn = prop, name, fn
        self.params = kw.get('params', [None])
        self.nquick = len(self.params)       # params beyond these are for the thorough tier
        self.params = list(self.params) + list(kw.get('more', []))
        self.tier = kw.get('tier', 'quick')
        self.hunt_bound = kw.get('hunt', 4)
        self.timeout = kw.get('timeout', 400)
        self.qtimeout = kw.get('qtimeout', 60000)
        self.bounded = kw.get('bounded', None)
        self.targets = kw.get('targets', [])
        self.sources = kw.get('sources', None)
        self.doc = (fn.__doc__ or '').strip()


def unit(prop, name, **kw):
    def deco(fn):
        UNITS.setdefault(prop, []).append(Unit(prop, name, fn, **kw))
        return fn
    return deco


class ReplayMismatch(Exception):
    pass


class Violated(Exception):
    def __init__(self, label, detail=''):
        Exception.__init__(self, label)
        self.label, self.detail = label, detail


class FunBase:
    """bytes of an object given by a named function, so that replay can evaluate it"""

    def __init__(self, f, indexed=False):
        self.f, self.indexed = f, indexed

    def byte(self, idx, off):
        return self.f(idx, off) if self.indexed else self.f(off)

    def read(self, E, s, obj, idx, off, size, isptr):
        bs = [self.byte(idx, simp(off + bv(j))) for j in range(size)]
        if isptr:
            return [(TRUE, Wild('untyped memory of %s' % obj.name, simp(z3.Concat(*reversed(bs))) if size == 8 else None))]
        return [(TRUE, bs[0] if size == 1 else simp(z3.Concat(*reversed(bs))))]


class V:
    def __init__(self, E, u, mode='prove', model=None, native=None):
        self.E, self.u, self.mode, self.model, self.native = E, u, mode, model, native
        self.s = State()
        self.objs = []
        self.names = {}
        self.vac = 0
        self.calls = []
        self.reached = 0
        self.absfns = {}
        self.touched = []
        self.notes = []
        self.csrc = []
        self.smalls = []
        self.noreplay = False     # the pre-state holds something no native object can be built for

    @property
    def concrete(self):
        return self.mode == 'concrete'

    # ------------------------------------------------------------ symbols
    def _nm(self, name):
        n = self.names.get(name, 0)
        self.names[name] = n + 1
        return name if n == 0 else '%s_%d' % (name, n)

    def bv(self, name, w=64):
        name = self._nm(name)
        c = z3.BitVec(name, w)
        if self.concrete:
            return z3.simplify(self.model.eval(c, model_completion=True))
        return c

    def bool(self, name):
        name = self._nm(name)
        c = z3.Bool(name)
        if self.concrete:
            return z3.simplify(self.model.eval(c, model_completion=True))
        return c

    def double(self, name):
        name = self._nm(name)
        c = z3.FP(name, z3.Float64())
        if self.concrete:
            return z3.simplify(self.model.eval(c, model_completion=True))
        return c

    def fun(self, name, *widths):
        """uninterpreted function on bit-vectors; last width is the range"""
        name = self._nm(name)
        f = z3.Function(name, *[z3.BitVecSort(w) for w in widths])
        if self.concrete:
            return lambda *a: z3.simplify(self.model.eval(f(*a), model_completion=True))
        return f

    def witness(self, name, w=64):
        x = self.bv(name, w)
        if w == 64 and not self.concrete:
            self.E.witnesses.append(x)
        return x

    # ------------------------------------------------------------ objects
    def obj(self, name, size, kind='heap', base=None, cells=None, regions=None, indexed=False, valid=None, count=None, ptype=None):
        name = self._nm(name)
        rest = None
        if base is None:
            f = self.fun('mem_' + name, *([64, 64, 8] if indexed else [64, 8]))
            rest = FunBase(f, indexed)
            base = Layout(name, cells, regions, rest, indexed) if (cells is not None or regions is not None) else rest
        o = Obj(name, size if not isinstance(size, int) else bv(size), kind, base, indexed, valid)
        o.meta['count'] = count
        o.meta['ptype'] = ptype
        self.objs.append(o)
        return o

    # ------------------------------------------------------------ logic
    def assume(self, *cs):
        for c in cs:
            if isinstance(c, bool):
                c = TRUE if c else FALSE
            c = simp(c)
            if self.concrete:
                if not z3.is_true(c):
                    raise ReplayMismatch('assumption not met: %s' % str(c)[:200])
                continue
            self.s.assume(c)

    def small(self, t, n):
        """only while hunting for a concrete failing input: keep t small"""
        if self.mode == 'hunt':
            self.s.assume(z3.ULE(t, bv(n, t.size())))
        elif self.mode == 'prove':
            self.smalls.append(z3.ULE(t, bv(n, t.size())))

    def hunt_assume(self, c):
        if self.mode == 'hunt':
            self.s.assume(c)

    def call(self, name, args, module=None, state=None, keep_abs=False):
        s = state or self.s
        self.calls.append(name)
        if self.concrete:
            return self.native.call(self, s, name, args)
        t = s.copy()
        m, fn = self.E.prog.find_function(name, self.E.prog.module(module) if module else None)
        if fn is None:
            raise Undecided('function %s is not in the sources' % name)
        outs = self.E.run_fn(t, fn, args)
        if not self.vac and self.E.record:
            ok = any(self.E.smt.check(o.pc, TRUE, full=True)[0] == 'sat' for o in (outs + (self.E.assert_states or []))[:40])
            if ok:
                self.vac += 1
                self.reached += 1
            elif self.mode == 'prove' and not self.E.ob.fail:
                self.E.ob.add('%s/vacuity:no-path-returns' % name, False, Failure('vacuity', t, FALSE, 'vacuity', 'vacuous'))
        return outs

    def make(self, name, args, label=None):
        """build a pre-state object with the project's own constructor (executed, not assumed)"""
        m, fn = self.E.prog.find_function(name)
        if fn is None:
            raise Undecided('function %s is not in the sources' % name)
        old = self.E.exhaustive
        self.E.exhaustive = 400
        try:
            outs = self.E.run_fn(self.s, fn, args)
        finally:
            self.E.exhaustive = old
        if len(outs) != 1:
            raise Undecided('%s has %d outcomes' % (name, len(outs)))
        self.s = outs[0]
        for o in self.s.born:
            if o.kind != 'stack' and o not in self.objs:
                self.objs.append(o)
        self.s.born = []
        return self.s.ret

    def check(self, s, c, label):
        if isinstance(c, (list, tuple)):
            c = And(*c)
        if isinstance(c, bool):
            c = TRUE if c else FALSE
        if self.concrete:
            c = simp(c)
            if z3.is_false(c):
                raise Violated(label)
            if not z3.is_true(c):
                self.notes.append('replay: %s not evaluable: %s' % (label, str(c)[:120]))
            return True
        return self.E.prove(s, c, 'post:' + label, self.calls[-1] if self.calls else self.u.name)

    def given(self, s, *cs):
        """copy of s under extra hypotheses of the postcondition (skolem ranges); None when impossible"""
        t = s.copy()
        for c in cs:
            if isinstance(c, bool):
                c = TRUE if c else FALSE
            c = simp(c)
            if z3.is_false(c):
                return None
            t.assume(c)
        if self.concrete:
            for c in cs:
                c = simp(c if not isinstance(c, bool) else (TRUE if c else FALSE))
                if not z3.is_true(c):
                    return None
            return t
        if not self.E.feasible(t, TRUE) or (cs and not self.E.feasible(s, And(*[simp(c) for c in cs if not isinstance(c, bool)]))):
            return None
        return t

    # reading memory in postconditions
    def rd(self, s, p, size=8):
        if not isinstance(p, Ptr):
            self.check(s, FALSE, 'dereferenced pointer is valid')
            raise PathDead()
        return self.E.rd(s, p, size)

    def rdp(self, s, p):
        """pointer-valued read; alternatives are decided under the path condition"""
        alts = self.E.rdp(s, p)
        live = [(c, v) for c, v in alts if self.E.feasible(s, c)]
        if len(live) != 1:
            raise Undecided('ambiguous pointer in postcondition')
        v = live[0][1]
        if isinstance(v, z3.BitVecRef):
            v = self.E.from_bv_ptr(v)
        return v

    def peq(self, a, b):
        from .loops import val_equal
        return val_equal(self.E, a, b)

    def is_null(self, v):
        return self.E.is_null(v)

    def unchanged(self, s, obj, label, W=None, size=1, excl=None, idx=None):
        """frame: byte/word at a fresh offset of obj is as in the initial state"""
        old, new = self.s.mem.get(obj.oid), s.mem.get(obj.oid)
        if old is new and not self.concrete:
            self.check(s, TRUE, label)
            return
        w = W if W is not None else self.bv('frame_' + obj.name)
        t = self.given(s, z3.ULE(bv(size), obj.size), z3.ULE(w, obj.size - bv(size)), *([excl(w)] if excl else []))
        if t is None:
            return
        if not self.concrete:
            # only bytes written since can differ
            seen, c = set(), old
            while c is not None:
                seen.add(id(c))
                c = c[1]
            hit, simple = [], True

            def walk(c, stop, guard=TRUE):
                nonlocal simple
                while c is not None and not stop(c):
                    u = c[0]
                    if u[0] in ('st', 'fill', 'cp') and size == 1:
                        n = bv(u[3]) if isinstance(u[3], int) else u[3]
                        h = z3.ULT(w - u[2], n)
                        if idx is not None:
                            h = And(h, idx == u[1])
                        hit.append(And(guard, h))
                    elif u[0] == 'br' and size == 1:
                        for g, sub in u[1]:
                            walk(sub, lambda x: x[0][0] == 'stop', And(guard, g))
                    else:
                        simple = False
                    c = c[1]
                return c
            c = walk(new, lambda x: id(x) in seen)
            if simple and ((id(c) in seen) if c is not None else old is None):
                live = [h for h in hit if self.E.smt.check(t.pc, h)[0] != 'unsat']
                if len(live) < len(hit):
                    hit = live
                if not hit:
                    self.check(t, TRUE, label)
                    return
                t.assume(Or(*hit))
        a, b = self.E.read_chain(t, obj, old, idx, w, size, False), self.E.read_chain(t, obj, new, idx, w, size, False)
        if not a or not b:
            self.check(t, TRUE, label)       # no such byte: every alternative contradicts the path condition
            return
        a, b = self.E.merge_int(a), self.E.merge_int(b)
        self.check(t, a == b, label)

    def field(self, struct, name, hdr=None):
        return OFFS.get(struct, name, hdr)


class Offsets:
    """struct layouts, measured on the current headers with the C compiler"""

    def __init__(self):
        self.cache = {}
        self.consts = {}

    def load(self, want, workdir, repo):
        """want: list of (prelude, struct, [fields]); consts: list of (prelude, expr)"""
        import subprocess
        groups = {}
        for pre, st, fl in want:
            groups.setdefault(pre, []).append((st, fl))
        for n, (pre, items) in enumerate(groups.items()):
            src = ['#include <stddef.h>', '#include <stdio.h>']
            src += ['#include "%s"' % h for h in pre.split()]
            src.append('int main(void){')
            for st, fl in items:
                if st is None:
                    for e in fl:
                        src.append('printf("C %s %%lld\\n",(long long)(%s));' % (e.replace('%', '%%'), e))
                    continue
                src.append('printf("S %s %%zu\\n",sizeof(%s));' % (st.replace(' ', '_'), st))
                for f in fl:
                    src.append('printf("F %s %s %%zu\\n",offsetof(%s,%s));' % (st.replace(' ', '_'), f, st, f))
            src.append('return 0;}')
            c = '%s/off%d.c' % (workdir, n)
            open(c, 'w').write('\n'.join(src))
            from .prog import CFLAGS
            r = subprocess.run(['clang', '-w', '-O0', '-ffunction-sections', '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all'] + CFLAGS + [c, '-o', c + '.x', '-lm'], capture_output=True, text=True)
            if r.returncode:
                raise Undecided('layout probe: ' + r.stderr[:400])
            out = subprocess.run([c + '.x'], capture_output=True, text=True).stdout
            for l in out.split('\n'):
                p = l.rsplit(' ', 1)
                if len(p) != 2:
                    continue
                k = p[0]
                if k.startswith('C '):
                    self.consts[k[2:]] = int(p[1])
                elif k.startswith('S '):
                    self.cache[(k[2:], None)] = int(p[1])
                elif k.startswith('F '):
                    _, st, f = k.split(' ')
                    self.cache[(st, f)] = int(p[1])

    def __call__(self, st, f=None):
        return self.cache[(st.replace(' ', '_'), f)]

    def c(self, e):
        return self.consts[e]


OFFS = Offsets()
WANT = []


def want(prelude, struct, fields):
    WANT.append((prelude, struct, fields))


def run_unit(prog, u, param, mode='prove', model=None, native=None, timeout=None, bound=4):
    E = Engine(prog, timeout_ms=u.qtimeout)
    E.deadline = time.time() + (timeout or u.timeout)
    E.smt.deadline = E.deadline
    v = V(E, u, mode, model, native)
    E.v = v
    if mode == 'hunt':
        E.unroll = bound
        E.hunt = True
        E.smt.timeout = 8000
    t0 = time.time()
    res = {'unit': u.name, 'param': repr(param) if param is not None else None, 'mode': mode}
    status = 'proved'
    try:
        if param is None:
            u.fn(v)
        else:
            u.fn(v, param)
    except Found:
        status = 'found'
    except Undecided as e:
        status = 'undecided'
        res['why'] = str(e)
    except PathDead:
        # a failed obligation left no path to continue
        if not E.ob.fail:
            status = 'undecided'
            res['why'] = 'no path left'
    except Violated as e:
        status = 'violated'
        res['why'] = e.label
    except ReplayMismatch as e:
        status = 'mismatch'
        res['why'] = str(e)
    except RecursionError:
        status = 'undecided'
        res['why'] = 'recursion limit'
    except z3.Z3Exception as e:
        status = 'undecided'
        res['why'] = 'solver: %s' % str(e)[:200] + ' ' + traceback.format_exc()[-3000:]
    except (KeyError, IndexError, AttributeError, TypeError, AssertionError, ValueError) as e:
        status = 'undecided'
        res['why'] = 'engine: ' + (lambda x: x[:1500] + x[-900:])(traceback.format_exc())
    except Exception as e:
        status = 'undecided'
        res['why'] = 'engine: ' + (lambda x: x[:1500] + x[-900:])(traceback.format_exc())
    if status == 'proved' and E.ob.fail:
        status = 'failed'
    if status == 'proved' and mode == 'prove' and (not E.ob.count or not v.reached):
        status = 'undecided'
        res['why'] = 'vacuous: %d obligations, %d reachable calls' % (len(E.ob.count), v.reached)
    res.update(status=status, wall=round(time.time() - t0, 2),
               obligations=sum(E.ob.count.values()), names=len(E.ob.count),
               discharged=sum(E.ob.ok.values()), trivial=E.ob.trivial,
               failed=[{'obligation': k, 'solver': f.status, 'trace': f.state.frames[-1].fn.name if f.state.frames else 'post'} for k, f in E.ob.fail.items()],
               functions=E.executed, contracts=E.used_contracts, loops=E.loop_info,
               solver={'queries': E.smt.stats.queries, 'cached': E.smt.stats.cached, 'time': round(E.smt.stats.time, 2),
                       'bitvector': E.smt.stats.bv, 'integer': E.smt.stats.lia, 'unknown': E.smt.stats.unknown},
               paths=E.paths, notes=sorted(E.notes) + v.notes, truncated=E.truncated, reached=v.reached)
    return res, E, v
