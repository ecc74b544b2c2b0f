"""Replays a solver model on the real C code, compiled with AddressSanitizer."""
import os
import subprocess
import z3
from .engine import *
from .smt import *
from .harness import ReplayMismatch, Violated
from . import prog as prog_

MAXOBJ = 1 << 16
SAN = '-fsanitize=address,integer-divide-by-zero,shift-exponent'


class ConcreteBase:
    def __init__(self, data, ptrs):
        self.data, self.ptrs = data, ptrs

    def read(self, E, s, obj, idx, off, size, isptr):
        o = num(off)
        if size == 8 and o in self.ptrs:
            return [(TRUE, self.ptrs[o])]
        v = int.from_bytes(self.data[o:o + size].ljust(size, b'\0'), 'little')
        return [(TRUE, bv(v, 8 * size))]


class Native:
    def __init__(self, prog, workdir):
        self.prog, self.dir = prog, workdir
        self.n = 0
        self.log = []

    def libobjs(self, skip):
        """all project objects except `skip`, compiled once with the sanitizer"""
        d = os.path.join(self.dir, 'asan')
        os.makedirs(d, exist_ok=True)
        objs = []
        jobs = []
        for s in prog_.sources():
            o = os.path.join(d, s.replace(prog_.REPO + '/', '').replace('/', '_') + '.o')
            if s == skip:
                continue
            if not os.path.exists(o):
                jobs.append(subprocess.Popen(['clang', '-w', '-g', '-O0', SAN] + prog_.CFLAGS + ['-c', s, '-o', o]))
            objs.append(o)
        for j in jobs:
            j.wait()
        return [o for o in objs if os.path.exists(o)]

    def call(self, v, s, name, args):
        self.n += 1
        m, fn = self.prog.find_function(name)
        src = v.u.sources or self.prog.source_of(name)
        if src is None:
            raise ReplayMismatch('no source for ' + name)
        E = v.E
        slots = []       # (obj, idx or None)
        index = {}

        def slot(o, idx):
            k = (o.oid, None if idx is None else num(simp(idx)))
            if k not in index:
                sz = o.size(idx) if callable(o.size) else o.size
                sz = simp(sz)
                if not is_num(sz) or num(sz) > MAXOBJ:
                    raise ReplayMismatch('object %s too large or of unknown size: %s' % (o.name, sz))
                index[k] = len(slots)
                slots.append((o, None if idx is None else simp(idx), num(sz)))
            return index[k]

        todo = []
        for o in v.objs + list(s.born):
            if o.oid in s.freed and s.freed[o.oid] is True:
                continue
            if o.kind == 'stack' and o not in v.objs:
                continue
            if o.indexed:
                c = o.meta.get('count')
                if c is None:
                    continue
                c = num(simp(c))
                if c > 4096:
                    raise ReplayMismatch('family too large')
                for i in range(c):
                    fr = s.freed.get(o.oid, ())
                    if any(num(simp(x)) == i for x in fr if not callable(x)):
                        continue
                    slot(o, bv(i))
            else:
                slot(o, None)
        body, data, done = [], [], 0
        reloc = []
        fns = set()
        while done < len(slots):
            o, idx, sz = slots[done]
            i = done
            done += 1
            bs = bytearray()
            off = 0
            while off < sz:
                n = min(8, sz - off)
                got = None
                if n == 8:
                    got = self.pick(E, s, o, idx, off, 8, True)
                    if isinstance(got, Ptr):
                        if got.idx is None or got.obj.meta.get('count') is not None:
                            gi = got.idx
                            reloc.append((i, off, slot(got.obj, gi), snum(simp(got.off))))
                            bs += b'\0' * 8
                            off += 8
                            continue
                    if isinstance(got, FnRef):
                        fns.add(got.name)
                        reloc.append((i, off, got.name, 0))
                        bs += b'\0' * 8
                        off += 8
                        continue
                for j in range(n):
                    b = self.pick(E, s, o, idx, off + j, 1, False)
                    b = simp(b) if isinstance(b, z3.BitVecRef) else None
                    bs.append(num(b) if b is not None and is_num(b) else 0)
                off += n
            data.append(bytes(bs))
        C = ['#include "%s"' % src, '#include <stdio.h>', '#include <stdint.h>', '#include <string.h>', '#include <stdlib.h>',
             '#include <unistd.h>',
             'extern int __sanitizer_install_malloc_and_free_hooks(void(*)(const volatile void*,size_t),void(*)(const volatile void*));',
             'static struct {const volatile void*p; size_t n; int live;} RN[65536]; static int rn, ron; static const volatile void* RF[65536]; static int rf;',
             'static void hm(const volatile void*p,size_t n){ if(ron&&rn<65536){RN[rn].p=p;RN[rn].n=n;RN[rn].live=1;rn++;} }',
             'static void hf(const volatile void*p){ if(ron){int i; for(i=rn-1;i>=0;i--) if(RN[i].p==p&&RN[i].live){RN[i].live=0;break;} if(rf<65536) RF[rf++]=p;} }',
             'static char *O[%d];' % max(1, len(slots))]
        if E.allow_assert_fail:
            C += ['#include <setjmp.h>', 'static jmp_buf JB; void __assert_fail(const char*a,const char*b,unsigned c,const char*d){ longjmp(JB,1); }']
        for src_ in v.csrc:
            C.append(src_(v) if callable(src_) else src_)
        for i, d in enumerate(data):
            if d:
                C.append('static const unsigned char D%d[] = {%s};' % (i, ','.join(map(str, d))))
        C.append('static void dump(const char*t,int i,const volatile unsigned char*p,size_t n){size_t j; printf("%s %d %p ",t,i,p); for(j=0;j<n;j++)printf("%02x",p[j]); printf(" .\\n");}')
        C.append('int main(void){ int i;')
        for i, (o, idx, sz) in enumerate(slots):
            if o.meta.get('cname'):
                C.append('O[%d]=(char*)%s;' % (i, o.meta['cname']))
            else:
                C.append('O[%d]=malloc(%d);' % (i, sz))
            if sz:
                C.append('memcpy(O[%d],D%d,%d);' % (i, i, sz))
        for i, off, j, o2 in reloc:
            if isinstance(j, str):
                C.append('*(void**)(O[%d]+%d)=(void*)%s;' % (i, off, j))
            else:
                C.append('*(void**)(O[%d]+%d)=(void*)(O[%d]+(%d));' % (i, off, j, o2))
        al = []
        sret = None
        for (pn, pt, at), a in zip(fn.params, args):
            if isinstance(a, Ptr):
                e = '(void*)(O[%d]+(%d))' % (slot(a.obj, a.idx), snum(simp(a.off)))
                if 'byval' in at:
                    e = '*(%s*)%s' % (at['byval'].name.replace('%struct.', 'struct ').replace('%union.', 'union '), e)
                if 'sret' in at:
                    sret = '*(%s*)%s' % (at['sret'].name.replace('%struct.', 'struct ').replace('%union.', 'union '), e)
                    continue
                al.append(e)
            elif isinstance(a, FnRef):
                al.append('(void*)%s' % a.name)
            elif isinstance(a, z3.FPRef):
                b = simp(z3.fpToIEEEBV(a))
                al.append('({uint64_t b_=0x%xULL; double d_; memcpy(&d_,&b_,8); d_;})' % num(b))
            else:
                a = simp(a)
                if not is_num(a):
                    raise ReplayMismatch('argument not concrete')
                if pt.k == 'ptr':
                    al.append('(void*)0x%xULL' % num(a))
                else:
                    al.append('(%s)0x%xULL' % ({8: 'uint8_t', 16: 'uint16_t', 32: 'uint32_t', 64: 'uint64_t'}.get(pt.w, 'uint64_t'), num(a)))
        if len(slots) > len(data):
            raise ReplayMismatch('late object')
        C.append('__sanitizer_install_malloc_and_free_hooks(hm,hf); alarm(10);')
        C.append('printf("START\\n"); fflush(stdout); ron=1;')
        pre, post = ('if(setjmp(JB)){ron=0; printf("ASSERT\\n");} else { ', ' }') if E.allow_assert_fail else ('', '')
        if E.allow_assert_fail:
            C.append('volatile uint64_t rr_=0;')
        callx = '%s(%s)' % (name, ','.join(al))
        rt = fn.ret
        if sret:
            C.append(pre + '%s = %s; ron=0;' % (sret, callx) + post)
        elif rt.k == 'void':
            C.append(pre + '%s; ron=0;' % callx + post)
        elif rt.k == 'ptr':
            C.append('void *r_ = 0; ' + pre + 'r_ = (void*)%s; ron=0;' % callx + post)
        elif rt.k == 'fp':
            C.append('double r_ = 0; ' + pre + 'r_ = %s; ron=0;' % callx + post)
        elif rt.k == 'int':
            C.append('uint64_t r_ = 0; ' + pre + 'r_ = (uint64_t)%s; ron=0;' % callx + post)
        else:
            raise ReplayMismatch('return type')
        C.append('printf("DONE\\n");')
        if not sret:
            if rt.k == 'ptr':
                C.append('printf("RET %p\\n", r_);')
            elif rt.k == 'int':
                C.append('printf("RET 0x%llx\\n",(unsigned long long)r_);')
            elif rt.k == 'fp':
                C.append('{uint64_t b_; memcpy(&b_,&r_,8); printf("RET 0x%llx\\n",(unsigned long long)b_);}')
        for i, (o, idx, sz) in enumerate(slots):
            C.append('{int fr=0; for(i=0;i<rf;i++) if((void*)RF[i]==(void*)O[%d]) fr=1; if(!fr) dump("OBJ",%d,(void*)O[%d],%d); else printf("FREED %d %%p\\n",O[%d]);}' % (i, i, i, sz, i, i))
        C.append('for(i=0;i<rn;i++) if(RN[i].live) dump("NEW",i,RN[i].p,RN[i].n); fflush(stdout); return 0;}')
        cfile = os.path.join(self.dir, 'replay%d_%d.c' % (os.getpid(), self.n))
        open(cfile, 'w').write('\n'.join(C) + '\n')
        exe = cfile + '.x'
        r = subprocess.run(['clang', '-w', '-g', '-O0', SAN] + prog_.CFLAGS + [cfile] + self.libobjs(src) + ['-o', exe, '-lm', '-lpthread'],
                           capture_output=True, text=True)
        self.log.append({'driver': open(cfile).read()[-6000:], 'call': callx})
        if r.returncode:
            raise ReplayMismatch('driver does not compile: ' + r.stderr[:600])
        try:
            r = subprocess.run([exe], capture_output=True, timeout=30, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:malloc_fill_byte=190:max_malloc_fill_size=1048576', UBSAN_OPTIONS='halt_on_error=1'))
        except subprocess.TimeoutExpired:
            raise Violated('the real code does not return', 'timeout')
        out = r.stdout.decode('latin-1')
        err = r.stderr.decode('latin-1')
        self.log[-1]['stdout'] = out[-1500:]
        self.log[-1]['stderr'] = err[:1500]
        try:
            os.unlink(exe)
        except OSError:
            pass
        if 'START' not in out:
            raise ReplayMismatch('driver failed before the call: ' + err[:300])
        if 'runtime error' in err:
            raise Violated('the real code hits undefined behaviour: ' + err[:200])
        if 'DONE\n' not in out:
            if r.returncode == -14 or 'ALARM' in err:
                raise Violated('the real code does not return')
            raise Violated('the real code crashes: ' + (err[:300] if err else 'signal %d' % -r.returncode))
        # ---- rebuild the state
        t = s.copy()
        spans = []
        news = {}
        objdata = {}
        ret = None
        for l in out[out.index('DONE\n'):].split('\n'):
            p = l.split(' ')
            if p[0] == 'OBJ':
                i = int(p[1])
                base = int(p[2], 16)
                spans.append((base, slots[i][2], slots[i][0], slots[i][1]))
                objdata[i] = bytes.fromhex(p[3]) if len(p) > 3 else b''
            elif p[0] == 'NEW':
                base = int(p[2], 16)
                d = bytes.fromhex(p[3])
                o = Obj('new%s' % p[1], bv(len(d)), 'heap')
                t.born.append(o)
                t.ghost.setdefault('allocs', []).append(o)
                news[o] = d
                spans.append((base, len(d), o, None))
            elif p[0] == 'FREED':
                i = int(p[1])
                o, idx, sz = slots[i]
                if o.indexed:
                    t.freed[o.oid] = tuple(t.freed.get(o.oid, ())) + (idx,)
                else:
                    t.freed[o.oid] = True
                t.ghost.setdefault('freed', []).append(Ptr(o, bv(0), idx))
                spans.append((int(p[2], 16), sz, o, idx))
            elif p[0] == 'RET':
                ret = p[1]

        def resolve(w):
            best = None
            for base, sz, o, idx in spans:
                if base <= w <= base + max(sz, 1):
                    if best is None or w < base + sz:
                        best = Ptr(o, bv(w - base), idx)
                        if w < base + sz:
                            break
            return best

        def cbase(d):
            ptrs = {}
            for off in range(0, len(d) - 7, 8):
                w = int.from_bytes(d[off:off + 8], 'little')
                if w > 4096:
                    p_ = resolve(w)
                    if p_ is not None:
                        ptrs[off] = p_
            return ConcreteBase(d, ptrs)

        fam = {}
        for i, d in objdata.items():
            o, idx, sz = slots[i]
            if o.indexed:
                fam.setdefault(o.oid, (o, {}))[1][num(idx)] = cbase(d)
            else:
                b = cbase(d)
                # function pointers keep their identity when unchanged
                for (ri, off, j, o2) in reloc:
                    if ri == i and isinstance(j, str):
                        old = self.pick(E, s, o, idx, off, 8, True)
                        b.ptrs[off] = old
                t.mem[o.oid] = (('rebase', b), None)
        for oid, (o, mp) in fam.items():
            t.mem[oid] = (('rebase', FamBase(mp)), None)
        for o, d in news.items():
            o.base = cbase(d)
        if ret is not None:
            w = int(ret, 16) if ret != '(nil)' else 0
            if rt.k == 'ptr':
                t.ret = (resolve(w) or (Wild('native address', bv(w)))) if w else bv(0)
            elif rt.k == 'fp':
                t.ret = z3.simplify(z3.fpBVToFP(bv(w), z3.Float64()))
            else:
                if rt.w == 1:
                    t.ret = bv(w, 64) != 0
                else:
                    t.ret = bv(w % (1 << rt.w), rt.w)
                    if rt.w == 64 and w > 4096:
                        p_ = resolve(w)
                        if p_ is not None:
                            t.ret = p_
        if 'ASSERT\n' in out:
            if E.assert_states is not None:
                E.assert_states.append(t)
            return []
        return [t]

    def pick(self, E, s, o, idx, off, size, isptr):
        try:
            alts = E.read_chain(s, o, s.mem.get(o.oid), idx, bv(off), size, isptr)
        except Undecided:
            return None
        for c, v in alts:
            c = simp(c)
            if z3.is_true(c):
                return v
        return alts[0][1] if len(alts) == 1 else None


class FamBase:
    def __init__(self, mp):
        self.mp = mp

    def read(self, E, s, obj, idx, off, size, isptr):
        i = num(simp(idx))
        if i not in self.mp:
            return [(TRUE, Wild('freed element'))] if isptr else [(TRUE, bv(0, 8 * size))]
        return self.mp[i].read(E, s, obj, None, off, size, isptr)
