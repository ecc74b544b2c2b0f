"""Compiles the real sources to LLVM IR and indexes them.  Nothing is cached across runs."""
import glob
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor
from . import ir

REPO = os.environ.get('RVC_REPO', '/repo')
DIRS = ['rlib', 'rvm', 'rex', 'rpa']
CFLAGS = ['-I%s' % REPO, '-I%s/arch/unix' % REPO, '-D_REENTRANT', '-DR_DEBUG_MEMALLOC']


class CompileError(Exception):
    pass


def sources():
    out = []
    for d in DIRS:
        out += sorted(glob.glob('%s/%s/*.c' % (REPO, d)))
    out += ['%s/arch/unix/%s' % (REPO, f) for f in os.listdir('%s/arch/unix' % REPO) if f.endswith('.c')]
    return out


def compile_one(src, outdir, extra=()):
    base = src.replace(REPO + '/', '').replace('/', '_')
    raw = os.path.join(outdir, base + '.raw.ll')
    ll = os.path.join(outdir, base + '.ll')
    cmd = ['clang', '-w', '-S', '-emit-llvm', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
           '-gline-tables-only'] + CFLAGS + list(extra) + [src, '-o', raw]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CompileError(src + ': ' + r.stderr[:500])
    r = subprocess.run(['opt', '-S', '-passes=mem2reg,loop-simplify', raw, '-o', ll], capture_output=True, text=True)
    if r.returncode:
        raise CompileError(src + ': ' + r.stderr[:500])
    os.unlink(raw)
    return ll


def build(outdir):
    os.makedirs(outdir, exist_ok=True)
    srcs = sources()
    res = {}
    with ThreadPoolExecutor(8) as ex:
        jobs = {s: ex.submit(compile_one, s, outdir) for s in srcs}
        for s, j in jobs.items():
            res[s] = j.result()
    # the C JSON parser, with the table header generated from its grammar by rexcc when available
    return res


class Program:
    def __init__(self, outdir):
        self.files = {}
        self.mods = {}
        self.where = {}
        self.gwhere = {}
        for ll in sorted(glob.glob(outdir + '/*.ll')):
            name = os.path.basename(ll)[:-3]
            text = open(ll).read()
            self.files[name] = text
            for m in re.finditer(r'^define (.*?)@([-\w$.]+)\(', text, re.M):
                self.where.setdefault(m.group(2), []).append((name, 'internal' in m.group(1)))
            for m in re.finditer(r'^@([-\w$.]+) = (.*)$', text, re.M):
                if not m.group(2).startswith('external') and ' external ' not in m.group(2)[:40]:
                    self.gwhere.setdefault(m.group(1), []).append((name, 'internal' in m.group(2)[:60] or 'private' in m.group(2)[:60]))

    def module(self, name):
        m = self.mods.get(name)
        if m is None:
            m = ir.parse_module(self.files[name], name)
            self.mods[name] = m
        return m

    def find_function(self, name, module=None):
        if module is not None and name in module.functions:
            return module, module.functions[name]
        ws = self.where.get(name, [])
        for w, internal in ws:
            if not internal:
                m = self.module(w)
                return m, m.functions[name]
        if module is None and ws:
            m = self.module(ws[0][0])
            return m, m.functions[name]
        return None, None

    def find_global(self, name, module=None):
        if module is not None and name in module.globals and module.globals[name]['init'] is not None:
            return module, module.globals[name]
        for w, internal in self.gwhere.get(name, []):
            if not internal or module is None:
                m = self.module(w)
                if name in m.globals and m.globals[name]['init'] is not None:
                    return m, m.globals[name]
        if module is not None and name in module.globals:
            return module, module.globals[name]
        return None, None

    def source_of(self, fname):
        ws = self.where.get(fname)
        if not ws:
            return None
        n = ws[0][0]
        return self.module_source(n)

    def module_source(self, n):
        for s in sources():
            if s.replace(REPO + '/', '').replace('/', '_') == n:
                return s
        return None
