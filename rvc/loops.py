"""Loop cutting: inductive invariants for the loops of the verified functions.

A loop is entered in a symbolic state; its modified variables and memory are found by
executing the body from a havocked head state until nothing new is modified.  The
invariant is the largest inductive subset (Houdini) of a set of candidates: affine
relations with a ghost iteration counter k, bounds taken from the comparisons the body
makes, plus whatever the contract's loop hints add.  The final pass re-executes the body
under that invariant and records every obligation, including "invariant preserved".

After the loop, facts of the form "iteration w (w < k) took a back edge" are
instantiated at the contract's witness terms: that is how universally quantified
postconditions of searching loops are discharged without quantifiers.
"""
import re
import z3
from .smt import *
from .engine import Ptr, Wild, FnRef, Undecided, PathDead, DefaultBase, Found

NUM = re.compile(r'!(\d+)$')


class Var:
    """one modified location: an SSA phi or a memory cell"""
    __slots__ = ('kind', 'name', 'obj', 'idx', 'off', 'size', 'entry', 'w', 'affine', 'dom', 'key', 'isfp')

    def __init__(self, kind, name, entry):
        self.kind, self.name, self.entry = kind, name, entry
        self.obj = self.idx = self.off = self.size = None
        self.affine = None
        self.dom = []
        self.isfp = False

    def __repr__(self):
        return 'Var(%s)' % self.name


def dom_key(v):
    if isinstance(v, Ptr):
        return ('p', v.obj.oid)
    if isinstance(v, FnRef):
        return ('f', v.name)
    if isinstance(v, Wild):
        return ('w',)
    if isinstance(v, z3.FPRef):
        return ('fp', str(v.sort()))
    if z3.is_bool(v):
        return ('b',)
    return ('i', v.size())


class Loop:
    def __init__(self, E, s, header):
        self.E, self.s, self.header = E, s, header
        self.f = s.frames[-1]
        self.fn = self.f.fn
        self.body = self.fn.loops[header]
        self.depth = len(s.frames)
        self.ordinal = self.fn.loop_order.index(header)
        self.entry = E.phi_values(s, self.f, self.f.block, header)
        self.where = '%s:loop%d' % (self.fn.name, self.ordinal)
        # user hints
        self.regions = []        # (obj, cond(idx,off,k), fn(E,s,idx,off,size,isptr,k)->alts, check(k)->list of (ptr,size) skolem probes)
        self.cands = []          # callable(view) -> formula or list
        self.extra_dom = {}
        self.whole = set()       # objects whose content is havocked entirely
        self.witness = []
        self.ksize = None
        self.custom_head = None
        self.pre_back = None
        self.invs = []           # mandatory invariants callable(view)->formula
        self.no_auto = False

    def const_trip(self, most=8):
        """N+1 when the loop header compares a counter that starts at a constant with a constant bound, N apart"""
        for ins in self.fn.blocks[self.header]:
            if ins.op == 'icmp':
                for x, y in ((ins.a[1], ins.a[2]), (ins.a[2], ins.a[1])):
                    if y[0] == 'int' and x[0] == 'local' and x[1] in self.entry:
                        e = self.entry[x[1]]
                        if z3.is_bv(e) and is_num(simp(e)) and abs(y[1] - num(simp(e))) <= most:
                            return abs(y[1] - num(simp(e))) + 2
        return None

    # --- locating things robustly for hints
    def ptr_phis(self, obj=None):
        return [n for n, v in self.entry.items() if isinstance(v, Ptr) and (obj is None or v.obj is obj)]


class View:
    """values of the loop variables in some state (head, entry, or back edge)"""

    def __init__(self, L, state, vals, k):
        self.L, self.s, self.vals, self.k, self.E = L, state, vals, k, L.E

    def phi(self, name):
        return self.vals[('phi', name)]

    def rd(self, p, size):
        return self.E.rd(self.s, p, size)

    def ints(self, w=None):
        r = []
        for key, v in self.vals.items():
            if isinstance(v, z3.BitVecRef) and (w is None or v.size() == w):
                r.append((key, v))
        return r

    def ptrs(self, obj=None):
        return [(key, v) for key, v in self.vals.items() if isinstance(v, Ptr) and (obj is None or v.obj is obj)]


def _has_ite(t, n=40):
    todo = [t]
    while todo and n:
        x = todo.pop()
        n -= 1
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return True
        todo.extend(x.children())
    return False


def comps(v):
    """integer components of a value -> list of (tag, term)"""
    if isinstance(v, Ptr):
        r = [('off', v.off)]
        if v.idx is not None:
            r.append(('idx', v.idx))
        return r
    if isinstance(v, z3.BitVecRef):
        return [('v', v)]
    if z3.is_bool(v):
        return [('b', v)]
    return []


def analyse_loop(E, s, header):
    L = Loop(E, s, header)
    hint = E.loop_specs.get(L.fn.name) or E.loop_specs.get('*')
    if hint is not None:
        hint(L)
        if getattr(L, 'unroll', None):
            E.unroll_fns[(L.fn.name, header)] = L.unroll
            E.enter_block(s, L.f, L.f.block, header)
            return [s]
        if getattr(L, 'replace', None):
            return L.replace(L)
    saved = (E.record, E.cmp_log, E.write_log)
    marker = fresh_id()
    try:
        res = _analyse(E, L, marker)
    finally:
        E.record, E.cmp_log, E.write_log = saved
    return res


def run_body(E, L, heads):
    """execute the loop body from head states; -> (backs, exits)"""
    backs, exits = [], []

    def stop(s, prev, tgt):
        if len(s.frames) != L.depth or s.frames[-1].fn is not L.fn:
            return False
        if tgt == L.header and prev in L.body:
            backs.append(s)
            return True
        if tgt not in L.body:
            s.pending = tgt
            exits.append(s)
            return True
        return False

    done = E.run(heads, L.depth - 1, stop)
    if done:
        # 'ret' reached inside natural loop body cannot happen
        raise Undecided('return inside loop body')
    return backs, exits


def _analyse(E, L, marker):
    s0 = L.s
    outer_record = E.record
    E.record = False
    vars_ = {}
    for n, v in L.entry.items():
        x = Var('phi', n, v)
        x.key = ('phi', n)
        x.dom = [dom_key(v)]
        vars_[x.key] = x
    samples = {}        # (var key, dom key) -> sample values
    for x in vars_.values():
        samples[(x.key, x.dom[0])] = [x.entry]
    whole = set(L.whole)
    cmp_terms = []
    shapes = [tuple()]
    doms_changed = True
    rounds = 0
    last = None
    affine_ok = {}
    # first try: pointers that walk over a family of records keep their offset within the record
    pinned = {(x.key, 'off'): 0 for x in vars_.values() if isinstance(x.entry, Ptr) and x.entry.idx is not None}
    freed_in_loop = False
    keep_terms = []          # term identifiers stay in use while the terms live
    while True:
        rounds += 1
        if rounds > 12:
            raise Undecided('loop frame does not stabilise in %s' % L.where)
        order = list(vars_.values())
        shp = _shapes(order)
        if len(shp) > 24:
            raise Undecided('too many pointer shapes in %s' % L.where)
        E.cmp_log = []
        allbacks = []
        changed = False
        for sh in shp:
            k = fresh('k')
            h, vals = make_head(E, L, order, sh, k, pinned, whole)
            if h is None:
                continue
            for c in L.cands_assume(h, vals, k) if hasattr(L, 'cands_assume') else []:
                h.assume(c)
            base_mem = dict(h.mem)
            base_freed = dict(h.freed)
            nborn = len(h.born)
            plen = len(h.pc)
            try:
                backs, exits = run_body(E, L, [h])
            except PathDead:
                continue
            for b in backs:
                born = set(o.oid for o in b.born[nborn:])
                for oid, ch in b.mem.items():
                    if oid in born:
                        continue
                    bm = base_mem.get(oid)
                    if ch is bm:
                        continue
                    for upd, obj in _diff(E, b, ch, bm, oid, L):
                        if obj is None:
                            continue
                        if any(r[0] is obj for r in L.regions):
                            if upd[0] == 'st' and _region_covers(L, obj, upd):
                                continue
                            if upd[0] != 'st':
                                continue
                        if obj.oid in whole:
                            continue
                        uo = simp(upd[2]) if upd[0] == 'st' else None
                        cst = uo is not None and is_num(uo)
                        symc = (uo is not None and not cst and getattr(E, 'symcells', False) and _invariant_term(uo, marker)
                                and sum(1 for q in vars_.values() if q.kind == 'mem' and q.obj is obj and not is_num(q.off)) < 6)
                        if upd[0] == 'st' and (cst or symc) and _invariant_term(upd[1], marker):
                            key = ('mem', obj.oid, None if upd[1] is None else simp(upd[1]).get_id(), num(uo) if cst else ('s', uo.get_id()), upd[3])
                            if key not in vars_:
                                keep_terms.append(uo)
                                v = Var('mem', '%s+%s' % (obj.name, num(uo) if cst else 'sym'), None)
                                v.key, v.obj, v.idx, v.off, v.size = key, obj, upd[1], simp(upd[2]), upd[3]
                                isp = isinstance(upd[4], (Ptr, Wild, FnRef))
                                alts = E.read_chain(s0, obj, s0.mem.get(obj.oid), upd[1], v.off, upd[3], isp or upd[3] == 8)
                                if len(alts) != 1:
                                    ent = E.merge_int(alts)
                                else:
                                    ent = alts[0][1]
                                if isinstance(ent, Wild) and not isp:
                                    ent = E.rd(s0, Ptr(obj, v.off, upd[1]), upd[3])
                                v.entry = ent
                                v.dom = [dom_key(ent)]
                                samples[(key, v.dom[0])] = [ent]
                                # drop overlapping smaller cells
                                vars_[key] = v
                                changed = True
                        else:
                            whole.add(obj.oid)
                            changed = True
                for oid, fr in b.freed.items():
                    if oid not in born and base_freed.get(oid) is not fr:
                        freed_in_loop = True
                # values flowing on the back edge
                bv_ = back_values(E, L, b, order)
                for x in order:
                    v = bv_[x.key]
                    dk = dom_key(v)
                    if isinstance(v, Ptr) and v.obj.oid in born:
                        dk = ('p', v.obj.oid)
                        raise Undecided('pointer to an object allocated in the loop is carried around it (%s)' % L.where)
                    if dk not in x.dom:
                        x.dom.append(dk)
                        samples[(x.key, dk)] = [v]
                        changed = True
                    if (x.key, 'off') in pinned and not (isinstance(v, Ptr) and dk == x.dom[0] and z3.is_true(simp(v.off == x.entry.off))):
                        del pinned[(x.key, 'off')]
                        changed = True
                allbacks.append((sh, k, vals, b, bv_, plen))
        cmp_terms = E.cmp_log
        E.cmp_log = None
        if not changed:
            break
    if freed_in_loop and not getattr(L, 'frees_ok', False):
        raise Undecided('objects freed inside %s' % L.where)
    order = list(vars_.values())
    shp = _shapes(order)
    # ---- affine variables
    aff = {}
    for x in order:
        if len(x.dom) != 1:
            continue
        for tag, e0 in comps(x.entry):
            if tag == 'b':
                continue
            step = None
            ok = bool(allbacks)
            for sh, k, vals, b, bv_, plen in allbacks:
                hv = dict(comps(vals[x.key])).get(tag)
                nv = dict(comps(bv_[x.key])).get(tag)
                d = simp(nv - hv)
                if not is_num(d) and _has_ite(d):
                    for c in (1, -1):          # a step hidden behind a case split the path has decided
                        if E.smt.check(b.pc, d != bv(c, d.size()))[0] == 'unsat':
                            d = bv(c, d.size())
                            break
                if not is_num(d) or (step is not None and num(d) != step):
                    ok = False
                    break
                step = num(d)
            if ok and step is not None:
                aff[(x.key, tag)] = step
    # ---- candidate invariants
    E.cmp_log = None
    heads = []
    for sh in shp:
        k = fresh('k')
        h, vals = make_head(E, L, order, sh, k, aff, whole)
        if h is None:
            continue
        heads.append([sh, k, h, vals])
    cands = {}
    entry_vals = {x.key: x.entry for x in order}
    T = cand_terms(E, L, cmp_terms, marker, order)
    for sh, k, h, vals in heads:
        cands[sh] = make_cands(E, L, order, sh, k, h, vals, aff, T)
    # entry filter
    esh = tuple(dom_key(x.entry) for x in order)
    for sh in list(cands):
        if sh == esh:
            k = [z for z in heads if z[0] == sh][0]
            sub = subst_map(order, k[3], entry_vals, k[1], bv(0), aff)
            vw = View(L, s0, entry_vals, bv(0))
            keep = []
            formulas = []
            for c in cands[sh]:
                fo = c['at'](vw) if c.get('at') else z3.substitute(c['f'], *sub)
                formulas.append((c, simp(fo)))
            cands[sh] = houdini_filter(E, s0.pc, [], formulas)
    # inductive filter over weak runs
    strong = getattr(L, 'strong', False)

    def weak_runs():
        weak = []
        for sh, k, h, vals in heads:
            h2 = h.copy()
            for iv in L.invs:
                h2.assume(_conj(iv(View(L, h2, vals, k))))
            h2.assume(k >= bv(0))
            h2.assume(k < bv(1 << 62))
            if strong:
                # the body is executed under the candidates themselves (loops inside need them)
                # and again whenever some candidate goes
                for c in cands[sh]:
                    h2.assume(c['f'])
            plen = len(h2.pc)
            try:
                backs, _ = run_body(E, L, [h2])
            except PathDead:
                backs = []
            for b in backs:
                bvv = back_values(E, L, b, order)
                bsh = tuple(dom_key(bvv[x.key]) for x in order)
                weak.append((sh, k, vals, b, bvv, bsh))
        return weak
    weak = weak_runs()
    hd = {z[0]: z for z in heads}
    while True:
        dropped = False
        for sh, k, vals, b, bvv, bsh in weak:
            if bsh not in cands:
                continue
            tk, tvals = hd[bsh][1], hd[bsh][3]
            sub = subst_map(order, tvals, bvv, tk, k + bv(1), aff)
            vw = View(L, b, bvv, k + bv(1))
            formulas = []
            for c in cands[bsh]:
                fo = c['at'](vw) if c.get('at') else z3.substitute(c['f'], *sub)
                formulas.append((c, simp(fo)))
            extra = [c['f'] for c in cands[sh]]
            kept = houdini_filter(E, b.pc, extra, formulas)
            if len(kept) != len(cands[bsh]):
                cands[bsh] = kept
                dropped = True
        if not dropped:
            break
        if strong:
            weak = weak_runs()
    # ---- loops that sweep over memory: content after k iterations as a function of the offset
    L.sweeps = {}
    if whole and not L.no_auto and len(heads) == 1:
        find_sweeps(E, L, order, heads, cands, aff, whole, marker)
        for oid in L.sweeps:
            whole.discard(oid)
        if L.sweeps:
            heads = []
            for sh in shp:
                # same symbols as the candidates were made with
                h, vals = make_head(E, L, order, sh, hd[sh][1], aff, whole, reuse=hd[sh][3])
                heads.append([sh, hd[sh][1], h, vals])
            hd = {z[0]: z for z in heads}
    # ---- final pass
    E.record = outer_record
    E.prove(s0, TRUE, 'loop-invariant-initially', L.where)
    for iv in L.invs:
        E.prove(s0, _conj(iv(View(L, s0, entry_vals, bv(0)))), 'loop-invariant-initially', L.where)
    check_regions(E, L, s0, bv(0), 'loop-invariant-initially')
    exits_all = []
    backs_all = []
    for sh, k, h, vals in heads:
        plen0 = len(h.pc)
        h.assume(k >= bv(0))
        h.assume(k < bv(1 << 62))
        for c in cands[sh]:
            h.assume(c['f'])
        for iv in L.invs:
            h.assume(_conj(iv(View(L, h, vals, k))))
        if not E.feasible(h, TRUE) if not h.pc else E.smt.check(h.pc, TRUE, full=True)[0] == 'unsat':
            continue
        inv_terms = list(h.pc[plen0:])
        plen = len(h.pc)
        try:
            backs, exits = run_body(E, L, [h])
        except PathDead:
            continue
        for b in backs:
            bvv = back_values(E, L, b, order)
            bsh = tuple(dom_key(bvv[x.key]) for x in order)
            if bsh not in hd:
                E.prove(b, FALSE, 'loop-invariant-preserved:pointer-shape', L.where)
                continue
            tk, tvals = hd[bsh][1], hd[bsh][3]
            sub = subst_map(order, tvals, bvv, tk, k + bv(1), aff)
            goal = []
            for x in order:
                for tag, nv in comps(bvv[x.key]):
                    st = aff.get((x.key, tag))
                    if st is not None:
                        e0 = dict(comps(x.entry))[tag]
                        w = e0.size()
                        kk = k if w == 64 else z3.Extract(w - 1, 0, k)
                        goal.append(nv == e0 + bv(st, w) * (kk + bv(1, w)))
            vw = View(L, b, bvv, k + bv(1))
            for c in cands[bsh]:
                goal.append(c['at'](vw) if c.get('at') else z3.substitute(c['f'], *sub))
            E.prove(b, And(*goal), 'loop-invariant-preserved', L.where, assume=False)
            for iv in L.invs:
                E.prove(b, _conj(iv(vw)), 'loop-invariant-preserved', L.where, assume=False)
            check_regions(E, L, b, k + bv(1), 'loop-invariant-preserved')
            for oid, sw in L.sweeps.items():
                check_sweep(E, L, b, sw, k, order, 'loop-invariant-preserved')
            backs_all.append((k, inv_terms, b.pc[plen:]))
        for x in exits:
            exits_all.append((k, x))
    # ---- witness instantiation
    info = E.loop_info.setdefault(L.where, {'entries': 0, 'invariants': 0, 'exits': 0})
    info['entries'] += 1
    info['invariants'] = max(info['invariants'], sum(len(c) for c in cands.values()) + len(aff) + len(L.invs) + len(L.regions))
    info['exits'] += len(exits_all)
    if not exits_all:
        raise PathDead()
    wit = list(L.witness) + [w for w in E.witnesses]
    if wit and backs_all:
        for k, x in exits_all:
            seen = set()
            inst = []
            for w in wit:
                w64 = w if w.size() == 64 else z3.SignExt(64 - w.size(), w)
                inst.append(w64)
                for (key, tag), st in aff.items():
                    e0 = dict(comps(vars_[key].entry))[tag]
                    if e0.size() < 64:
                        e0 = z3.SignExt(64 - e0.size(), e0)
                    if st == 1:
                        inst.append(simp(w64 - e0))
                    elif st in ((1 << 64) - 1, (1 << 32) - 1):
                        inst.append(simp(e0 - w64))
                    elif 1 < st < 4096 and z3.is_bv(e0) and tag == 'off' and is_num(simp(e0)) and num(simp(e0)) % st == 0:
                        inst.append(simp(w64 - bv(num(simp(e0)) // st)))
            inst.append(simp(k - bv(1)))
            for t in inst:
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                x.assume(Implies(And(z3.ULT(t, k)), _iteration_lemma(backs_all, t, marker)))
    return [x for _, x in exits_all]


def _iteration_lemma(backs, t, marker):
    ds = []
    for k, inv, suffix in backs:
        cs = []
        ren = {}
        ren[k.get_id()] = (k, t)
        for c in list(inv) + list(suffix):
            bad = False
            for sym in _syms(c):
                nm = sym.decl().name()
                mm = NUM.search(nm)
                if mm and int(mm.group(1)) > marker:
                    if sym.num_args() == 0:
                        if sym.get_id() not in ren:
                            ren[sym.get_id()] = (sym, fresh(nm.split('!')[0], sym.size()) if z3.is_bv(sym) else
                                                 z3.FreshConst(sym.sort()))
                    else:
                        bad = True
            if not bad:
                cs.append(c)
        ds.append(And(*[z3.substitute(c, *ren.values()) for c in cs]))
    return Or(*ds)


def _syms(t):
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append(x)
            st.extend(x.children())
    return out


def _conj(f):
    if isinstance(f, (list, tuple)):
        return And(*f)
    return f


def _invariant_term(t, marker):
    if t is None:
        return True
    for nm in vars_of(t):
        m = NUM.search(nm)
        if m and int(m.group(1)) > marker:
            return False
    return True


def _region_covers(L, obj, upd):
    return True


def _diff(E, b, ch, bm, oid, L):
    out = []
    n = 0
    while ch is not bm:
        if ch is None:
            break
        out.append((ch[0], _obj_of(E, b, oid, L)))
        ch = ch[1]
        n += 1
        if n > 10000:
            break
    return out


def _obj_of(E, b, oid, L):
    o = E.obj_index.get(oid)
    return o


def _shapes(order):
    res = [()]
    for x in order:
        res = [r + (d,) for r in res for d in x.dom]
    return res


def make_head(E, L, order, shape, k, aff, whole, reuse=None):
    h = L.s.copy()
    f = h.frames[-1]
    vals = {}
    for oid, sw in getattr(L, 'sweeps', {}).items():
        h.mem[oid] = (('sw', sw, k), L.s.mem.get(oid))
    for x, d in zip(order, shape):
        if d[0] == 'p':
            obj = E.obj_index[d[1]]
            e = x.entry if isinstance(x.entry, Ptr) and x.entry.obj is obj else None
            off = idx = None
            st = aff.get((x.key, 'off'))
            if st is not None and e is not None:
                off = simp(e.off + bv(st) * k)
            else:
                off = fresh('h_' + x.name)
            if obj.indexed:
                st = aff.get((x.key, 'idx'))
                idx = simp(e.idx + bv(st) * k) if st is not None and e is not None else fresh('h_' + x.name + '_i')
            v = Ptr(obj, off, idx)
        elif d[0] == 'i':
            st = aff.get((x.key, 'v'))
            if st is not None:
                w = d[1]
                if w == 64:
                    v = simp(x.entry + bv(st) * k)
                else:
                    sst = st - (1 << w) if st >= 1 << (w - 1) else st
                    wide = z3.SignExt(64 - w, x.entry) + bv(sst % (1 << 64)) * k
                    v = simp(z3.Extract(w - 1, 0, wide))
            elif x.entry is not None and isinstance(x.entry, z3.BitVecRef) and x.entry.size() == d[1]:
                v = fresh('h_' + x.name, d[1])
            else:
                # integer alternative of a pointer variable: null
                v = bv(0, d[1])
        elif d[0] == 'b':
            v = fresh_bool('h_' + x.name)
        elif d[0] == 'f':
            v = FnRef(d[1])
            if isinstance(x.entry, FnRef) and x.entry.name == d[1]:
                v = x.entry
        elif d[0] == 'fp':
            v = z3.FP('h_fp!%d' % fresh_id(), x.entry.sort())
        else:
            v = Wild('loop-carried invalid pointer')
        if reuse is not None:
            v = reuse[x.key]
        vals[x.key] = v
        if x.kind == 'phi':
            f.env[x.name] = v
        else:
            h.mem[x.obj.oid] = (('st', x.idx, x.off, x.size, v), h.mem.get(x.obj.oid))
    for oid in whole:
        o = E.obj_index[oid]
        h.mem[oid] = (('rebase', DefaultBase(o.name + "'", o.indexed)), None)
        for x in order:
            if x.kind == 'mem' and x.obj.oid == oid:
                h.mem[oid] = (('st', x.idx, x.off, x.size, vals[x.key]), h.mem[oid])
    for r in L.regions:
        obj, cond, fn = r[0], r[1], r[2]
        h.mem[obj.oid] = (('fn', (lambda i, o, n, cond=cond: cond(i, o, k)),
                           (lambda E_, s_, i, o, n, p, x, fn=fn: fn(E_, s_, i, o, n, p, k))), h.mem.get(obj.oid))
    if L.custom_head:
        L.custom_head(h, vals, k)
    f.prev = None
    f.block = L.header
    f.ip = len(E.phis(L.fn, L.header))
    f.visits = dict(f.visits)
    return h, vals


def find_sweeps(E, L, order, heads, cands, aff, whole, marker):
    from .sweep import infer, NotSweep
    sh, k, h0, vals = heads[0]
    todo = [o for o in whole if o not in L.whole]
    trial = set(todo)
    while trial:
        L.sweeps = {}
        h, v2 = make_head(E, L, order, sh, k, aff, whole - trial, reuse=vals)
        h.assume(k >= bv(0))
        h.assume(k < bv(1 << 62))
        for c in cands[sh]:
            h.assume(c['f'])
        plen = len(h.pc)
        h_mem = h.copy()
        try:
            backs, _ = run_body(E, L, [h])
        except (PathDead, Undecided):
            L.sweeps = {}
            return
        ok = {}
        for oid in list(trial):
            try:
                ok[oid] = infer(E, L, E.obj_index[oid], [(k, h_mem, backs, plen)], marker)
            except NotSweep as e:
                L.why = getattr(L, 'why', []) + ['%s: %s' % (E.obj_index[oid].name, e)]
        if len(ok) == len(trial):
            # validate the inductive step before relying on it
            L.sweeps = ok
            h, v2 = make_head(E, L, order, sh, k, aff, whole - trial, reuse=vals)
            h.assume(k >= bv(0))
            h.assume(k < bv(1 << 62))
            for c in cands[sh]:
                h.assume(c['f'])
            try:
                backs, _ = run_body(E, L, [h])
                bad = set()
                for b in backs:
                    for oid, sw in ok.items():
                        if not check_sweep(E, L, b, sw, k, order, None):
                            bad.add(oid)
                            L.why = getattr(L, 'why', []) + ['%s: not inductive' % sw.obj.name]
                if not bad:
                    return
                trial -= bad
                continue
            except (PathDead, Undecided):
                L.sweeps = {}
                return
        trial = set(ok)
    L.sweeps = {}


def check_sweep(E, L, b, sw, k, order, kind):
    obj = sw.obj
    k1 = simp(k + bv(1))
    idx = None
    if obj.indexed:
        idx = fresh('probe_i')
    cells = [x for x in order if x.kind == 'mem' and x.obj is obj]
    want_chain = (('sw', sw, k1), L.s.mem.get(obj.oid))
    S = sw.S
    if S <= 64:
        # every offset is lo + S*j + c for some j and one of the S residues c
        chunk = 1
        if not cells:
            for n in (8, 4, 2):
                if S % n == 0 and all(c0 % n == 0 and z % n == 0 for _, ws in sw.paths for c0, z, kd, _p in ws):
                    chunk = n
                    break
        j = fresh('probe_j')
        M = (1 << 63) // S + 1
        lim = z3.ULE(j + bv(M), bv(2 * M)) if S > 1 else TRUE
        probes = [(simp(sw.lo + bv(S) * j + bv(c)), [lim]) for c in range(0, S, chunk)]
    else:
        chunk = 1
        probes = [(fresh('probe'), [])]
    for w, pre in probes:
        t = b.copy()
        for c in pre:
            t.assume(c)
        osz = obj.size(idx) if callable(obj.size) else obj.size
        t.assume(z3.ULT(w, osz) if chunk == 1 else Or(z3.ULT(w, osz), z3.ULT(w + bv(chunk - 1), osz)))
        for x in cells:
            t.assume(z3.UGE(w - x.off, bv(x.size)) if x.idx is None else Or(idx != x.idx, z3.UGE(w - x.off, bv(x.size))))
        got = E.merge_int(E.read_chain(t, obj, t.mem.get(obj.oid), idx, w, chunk, False))
        exp = E.merge_int(E.read_chain(t, obj, want_chain, idx, w, chunk, False))
        goal = simp(got == exp)
        if kind is None:
            E.tick()
            if not z3.is_true(goal) and E.smt.check(t.pc, Not(goal))[0] != 'unsat':
                return False
        else:
            E.prove(t, goal, kind + ':sweep-%s' % obj.name, L.where, assume=False)
    return True


def back_values(E, L, b, order):
    f = b.frames[-1]
    pv = E.phi_values(b, f, f.block, L.header)
    out = {}
    for x in order:
        if x.kind == 'phi':
            out[x.key] = pv[x.name]
        else:
            isp = any(d[0] in 'pfw' for d in x.dom)
            alts = E.read_chain(b, x.obj, b.mem.get(x.obj.oid), x.idx, x.off, x.size, isp or (x.size == 8 and not isinstance(x.entry, z3.FPRef)))
            if len(alts) == 1:
                v = alts[0][1]
                if isinstance(v, Wild) and not isp:
                    v = E.rd(b, Ptr(x.obj, x.off, x.idx), x.size)
            else:
                v = E.merge_int(alts)
            if isinstance(v, z3.FPRef) and not isinstance(x.entry, z3.FPRef):
                v = E.to_bv(v)
            out[x.key] = v
    return out


def subst_map(order, headvals, newvals, k, newk, aff):
    sub = [(k, newk)]
    for x in order:
        hv = dict(comps(headvals[x.key]))
        nv = dict(comps(newvals[x.key]))
        for tag, t in hv.items():
            if (x.key, tag) in aff or is_num(t) if tag != 'b' else False:
                continue
            if tag in nv and nv[tag].sort() == t.sort():
                sub.append((t, nv[tag]))
    return sub


def cand_terms(E, L, cmps, marker, order):
    """loop-invariant terms worth comparing with, by width"""
    T = {}
    pairs = []

    def add(t):
        t = simp(t)
        if z3.is_bv(t) and _invariant_term(t, marker):
            T.setdefault(t.size(), {})[t.get_id()] = t

    for pr, a, b in cmps:
        if isinstance(a, z3.BitVecRef) and isinstance(b, z3.BitVecRef):
            add(a)
            add(b)
            if a.size() == 32:
                pass
    for x in order:
        for tag, t in comps(x.entry):
            if tag != 'b':
                add(t)
                if z3.is_bv(t) and t.size() == 64 and isinstance(x.entry, Ptr):
                    o = x.entry.obj
                    if o.size is not None and not callable(o.size):
                        add(o.size)
    return {w: list(d.values())[:14] for w, d in T.items()}


def make_cands(E, L, order, shape, k, h, vals, aff, T):
    out = []

    def add(f, name='', at=None):
        f = simp(f)
        if z3.is_true(f):
            return
        out.append({'f': f, 'name': name, 'at': at})

    if not L.no_auto:
        ints = []
        for x, d in zip(order, shape):
            v = vals[x.key]
            e = dict(comps(x.entry)) if dom_key(x.entry) == d else {}
            for tag, t in comps(v):
                if tag == 'b':
                    if tag in e:
                        add(t == e[tag])
                    add(t)
                    add(Not(t))
                    continue
                if is_num(t):
                    continue
                e0 = e.get(tag)
                w = t.size()
                ints.append((x, tag, t))
                a = aff.get((x.key, tag))
                if e0 is not None:
                    add(z3.UGE(t, e0)); add(z3.ULE(t, e0)); add(t >= e0); add(t <= e0); add(t == e0)
                if tag in ('off', 'idx'):
                    # fixed field offset inside list elements etc.
                    for dk, smp in ():
                        pass
                for c in (0, 1, -1):
                    add(t != bv(c % (1 << w), w)); add(t == bv(c % (1 << w), w))
                    if e0 is not None and not is_num(e0):
                        add(Or(t == e0, t == bv(c % (1 << w), w)))
                add(t >= bv(0, w))
                for u in T.get(w, ()):
                    add(z3.ULE(t, u)); add(z3.ULT(t, u)); add(z3.UGE(t, u)); add(z3.UGT(t, u))
                    add(t <= u); add(t < u); add(t >= u); add(t > u); add(t != u)
                    if is_num(u):
                        add(t == u)
                    else:
                        add(z3.ULE(t, u + u))
                    if e0 is not None:
                        add(Or(t == e0, z3.ULE(t, u))); add(Or(t == e0, t <= u))
                        add(Or(t == e0, z3.ULT(t, u))); add(Or(t == e0, t < u))
                        if u.get_id() != simp(e0).get_id():
                            add(Or(t == e0, t == u))
                            add(z3.Implies(z3.ULE(e0, u), z3.ULE(t, u)))
                            add(z3.Implies(e0 <= u, t <= u))
                if a is not None and w == 32:
                    # the narrow counter has not wrapped
                    sst = a - (1 << 32) if a >= 1 << 31 else a
                    wide = z3.SignExt(32, e0) + bv(sst % (1 << 64)) * k
                    add(And(wide >= bv((-(1 << 31)) % (1 << 64)), wide < bv(1 << 31)))
                    wide = z3.ZeroExt(32, e0) + bv(sst % (1 << 64)) * k
                    add(And(wide >= bv(0), wide < bv(1 << 32)))
                if a is not None and w == 64:
                    for u in T.get(64, ()):
                        add(z3.ULE(k, simp(u - e0)))
        n = len(ints)
        if n <= 8:
            for i in range(n):
                for j in range(n):
                    if i == j or ints[i][2].size() != ints[j][2].size():
                        continue
                    a, b = ints[i][2], ints[j][2]
                    add(z3.ULE(a, b)); add(a <= b); add(a <= b + 1); add(a < b); add(z3.ULT(a, b))
                    if i < j:
                        ea = dict(comps(ints[i][0].entry)).get(ints[i][1])
                        eb = dict(comps(ints[j][0].entry)).get(ints[j][1])
                        if ea is not None and eb is not None:
                            add(a - b == ea - eb)
    for c in L.cands:
        vw = View(L, h, vals, k)
        try:
            fs = c(vw)
        except Exception:
            continue
        fs = fs if isinstance(fs, (list, tuple)) else [fs]
        for j, f in enumerate(fs):
            def at(v2, c=c, j=j):
                g = c(v2)
                if isinstance(g, (list, tuple)):
                    return g[j] if j < len(g) else FALSE
                return g
            add(f, 'hint', at)
    # de-duplicate
    seen = set()
    res = []
    for c in out:
        if c['f'].get_id() in seen:
            continue
        seen.add(c['f'].get_id())
        res.append(c)
    return res


def houdini_filter(E, pc, extra, formulas):
    """largest subset of formulas each implied by pc /\\ extra (model guided)"""
    keep = [(c, f) for c, f in formulas if not z3.is_false(f)]
    sure = [(c, f) for c, f in keep if z3.is_true(f)]
    rest = [(c, f) for c, f in keep if not z3.is_true(f)]
    base = list(pc) + list(extra)
    for _ in range(200):
        if not rest:
            break
        E.tick()
        r, m = E.smt.check(base, Not(And(*[f for _, f in rest])), full=True, want_model=True, timeout=4 * E.hou_ms)
        if r == 'unsat':
            break
        if r == 'unknown':
            # decide one by one with a short limit
            nr = []
            for c, f in rest:
                if E.smt.check(base, Not(f), full=False, timeout=E.hou_ms)[0] == 'unsat':
                    nr.append((c, f))
            rest = nr
            break
        nr = []
        for c, f in rest:
            if not z3.is_false(m.eval(f, model_completion=True)):
                nr.append((c, f))
        if len(nr) == len(rest):
            nr = []
            for c, f in rest:
                if E.smt.check(base, Not(f), full=False, timeout=E.hou_ms)[0] == 'unsat':
                    nr.append((c, f))
            rest = nr
            break
        rest = nr
    ids = set(id(c) for c, _ in sure + rest)
    return [c for c, _ in formulas if id(c) in ids]


def check_regions(E, L, s, k, kind):
    for r in L.regions:
        obj, cond, fn = r[0], r[1], r[2]
        probes = r[3]
        for mk in probes:
            idx, off, size, isptr = mk()
            t = s.copy()
            t.assume(cond(idx, off, k))
            if not E.feasible(t, TRUE):
                continue
            got = E.read_chain(t, obj, t.mem.get(obj.oid), idx, off, size, isptr)
            want = fn(E, t, idx, off, size, isptr, k)
            E.prove(t, alts_equal(E, got, want), kind + ':region-%s' % obj.name, L.where)


def alts_equal(E, a, b):
    cs = []
    for ca, va in a:
        for cb, vb in b:
            cs.append(Implies(And(ca, cb), val_equal(E, va, vb)))
    return And(*cs)


def val_equal(E, a, b):
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj is not b.obj:
            return FALSE
        return And(a.off == b.off, TRUE if a.idx is None else a.idx == b.idx)
    if isinstance(a, FnRef) and isinstance(b, FnRef):
        return TRUE if a.name == b.name else FALSE
    if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, FnRef) or isinstance(b, FnRef):
        x, y = (a, b) if isinstance(a, (Ptr, FnRef)) else (b, a)
        if isinstance(y, z3.BitVecRef) and is_num(y) and num(y) == 0:
            return FALSE
    a, b = E.to_bv(a), E.to_bv(b)
    if a.get_id() == b.get_id():
        return TRUE
    return a == b
