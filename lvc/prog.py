"""Extraction step: compiles the C sources of /repo's working tree (and the small wrapper files in
/verif/wrappers, which only instantiate header macros and inline functions) to LLVM IR with clang
and opt, on every run.  What the extraction drops: nothing of the behaviour clang gives the code;
`sroa, simplifycfg, loop-simplify, lcssa` are the only passes run (promotion of locals to
registers and canonical loop headers)."""
import os, re, subprocess, tempfile, glob, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor
from . import ir

REPO = os.environ.get('LVC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/lib/llvm-18/bin/clang'
OPT = '/usr/lib/llvm-18/bin/opt'

class BuildError(Exception):
    pass

def scratch():
    global _scratch
    if _scratch is None:
        import atexit
        _scratch = tempfile.mkdtemp(prefix='lvc-')
        atexit.register(shutil.rmtree, _scratch, True)
        d = os.path.join(_scratch, 'inc/libcork/config')
        os.makedirs(d)
        src = os.path.join(REPO, 'include/libcork/config/version.h.in')
        try: t = open(src).read()
        except OSError: t = ''
        t = re.sub(r'@CORK_VERSION_(MAJOR|MINOR|PATCH)@', '0', t)
        t = t.replace('@CORK_VERSION@', '0.0.0').replace('@CORK_GIT_SHA1@', 'none')
        open(os.path.join(d, 'version.h'), 'w').write(t)
    return _scratch
_scratch = None

def cflags(defs=()):
    return ['-I', os.path.join(REPO, 'include'), '-I', os.path.join(scratch(), 'inc'), '-D_GNU_SOURCE_UNUSED'] + list(defs)

class Program:
    def __init__(self, wrappers=(), defs=(), subdirs=('cli', 'core', 'ds', 'posix', 'pthreads')):
        self.mods = {}
        self.text = {}
        self.defs_ = {}       # function -> [source path]
        srcs = []
        for d in subdirs:
            srcs += sorted(glob.glob(os.path.join(REPO, 'src/libcork', d, '*.c')))
        srcs += [os.path.join(VERIF, 'wrappers', w) for w in wrappers]
        self.srcs = srcs
        self.defs = defs
        with ThreadPoolExecutor(8) as ex:
            for s, (ok, t) in zip(srcs, ex.map(self.compile, srcs)):
                if not ok: raise BuildError('%s: %s' % (s, t[:2000]))
                self.text[s] = t
        for s, t in self.text.items():
            for m in re.finditer(r'^define ([^@\n]*)@"?([\w.$]+)"?\(', t, re.M):
                self.defs_.setdefault(m.group(2), []).append((s, 'internal' in m.group(1)))
        self.funcs = self.defs_
    def compile(self, s):
        cmd = [CLANG, '-g', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-w'] + cflags(self.defs) + ['-S', '-emit-llvm', s, '-o', '-']
        p = subprocess.run(cmd, capture_output=True)
        if p.returncode: return False, p.stderr.decode(errors='replace')
        q = subprocess.run([OPT, '-passes=sroa,simplifycfg,loop-simplify,lcssa', '-S'], input=p.stdout, capture_output=True)
        if q.returncode: return False, q.stderr.decode(errors='replace')
        return True, q.stdout.decode('utf-8', 'replace')
    def module(self, s):
        if s not in self.mods:
            m = ir.parse_module(self.text[s])
            m.name = os.path.basename(s)
            self.mods[s] = m
        return self.mods[s]
    def lookup(self, name):
        l = self.defs_.get(name)
        if not l: raise KeyError(name)
        m = self.module(l[0][0])
        return m, m.funcs[name]
    def find(self, mod, name):
        if name in mod.funcs: return mod, mod.funcs[name]
        for s, internal in self.defs_.get(name, ()):
            if not internal:
                m = self.module(s)
                if name in m.funcs: return m, m.funcs[name]
        return None, None
    def off(self, mod, st, field):
        return mod.structs[st][field][0]
