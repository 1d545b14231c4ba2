"""Regenerates /verif/seeded from tools/seeds_def.py: one textual change of one original source file each,
with a demonstration program.  Usage: mkseed.py [id ...]"""
import os, sys, json, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from seeds_def import SEEDS
DEMO = '''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it does not
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 9
trap 'rm -rf "$t"' EXIT
gcc -g -O2 -w %s -I include -I _build/include "$d/demo.c" -o "$t/demo" _build/src/libcork.a -lpthread || exit 9
cd "$t" && timeout 60 ./demo
'''
PRE = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <errno.h>
#include <unistd.h>
#include "libcork/core.h"
#include "libcork/ds.h"
#include "libcork/os.h"
#include "libcork/cli.h"
#define CHECK(c) do { if (!(c)) { printf("violated: %s (line %d)\\n", #c, __LINE__); fflush(stdout); _exit(1); } } while (0)
'''
for s in SEEDS:
    if sys.argv[1:] and s['id'] not in sys.argv[1:]: continue
    d = os.path.join(HERE, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    try:
        fs = s['edits'] if 'edits' in s else [(s['file'], s['old'], s['new'])]
        diff = ''
        files = {}
        for f, old, new in fs:
            if f not in files: files[f] = open(os.environ.get('REPO_SRC', '/repo') + '/' + f).read()
            src = files[f]
            assert src.count(old) == 1, (s['id'], f, src.count(old), old)
            files[f] = src.replace(old, new)
        for f, txt in files.items():
            a = os.path.join(t, 'a', f); b = os.path.join(t, 'b', f)
            for p in (a, b): os.makedirs(os.path.dirname(p), exist_ok=True)
            shutil.copy(os.environ.get('REPO_SRC', '/repo') + '/' + f, a); open(b, 'w').write(txt)
            r = subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=t, capture_output=True, text=True).stdout
            lines = r.split('\n')
            lines[0] = '--- a/' + f; lines[1] = '+++ b/' + f
            diff += 'diff --git a/%s b/%s\n' % (f, f) + '\n'.join(lines)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    finally: shutil.rmtree(t)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % s.get('flags', ''))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.c'), 'w').write(PRE + s['demo'])
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
