#!/usr/bin/env python3
"""mkseed.py: (re)create the patches of the planted bugs listed in tools/seeds.py from exact text replacements"""
import sys, os, subprocess, json, shutil
sys.path.insert(0, os.path.dirname(__file__))
from seeds import SEEDS
R = '/repo'
DEMO = '''#!/bin/sh
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 0
trap 'rm -rf "$t"' EXIT
B=build/unix/bin
gcc -w -g -O0 %s -I. -Iarch/unix -I"$d" -D_REENTRANT -DR_DEBUG_MEMALLOC "$d/demo.c" -o "$t/demo" $B/librpa.a $B/librex.a $B/librvm.a $B/librlib.a -lm -lpthread || exit 0
cd "$t" && timeout 60 ./demo
'''
for s in SEEDS:
    if len(sys.argv) > 1 and s['id'] not in sys.argv[1:]:
        continue
    d = '/verif/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    tmp = '/tmp/mkseed'
    shutil.rmtree(tmp, ignore_errors=True)
    out = ''
    for f, old, new in s['edits']:
        t = open(R + '/' + f).read()
        if t.count(old) != 1:
            print('BAD', s['id'], f, t.count(old))
            continue
        for side in 'ab':
            p = '%s/%s/%s' % (tmp, side, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            cur = open(p).read() if os.path.exists(p) else t
            open(p, 'w').write(cur.replace(old, new) if side == 'b' else cur)
    out = subprocess.run(['diff', '-ru', 'a', 'b'], cwd=tmp, capture_output=True, text=True).stdout
    out = '\n'.join(l for l in out.split('\n') if not l.startswith('diff '))
    open(d + '/patch.diff', 'w').write(out)
    json.dump({k: s[k] for k in ('property', 'needs', 'what_it_breaks')}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.c', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(DEMO % s.get('cflags', ''))
    os.chmod(d + '/demo.sh', 0o755)
    r = subprocess.run(['git', '-C', R, 'apply', '--check', d + '/patch.diff'], capture_output=True, text=True)
    print(s['id'], 'ok' if r.returncode == 0 else r.stderr)
    shutil.rmtree(tmp, ignore_errors=True)
