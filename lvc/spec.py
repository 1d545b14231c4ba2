"""Contract vocabulary.  A Spec is the machine-checked contract of one function of /repo:
pre (what the caller must establish), post (what the function guarantees), loop-invariant
candidates (kept only when the solver proves them inductive), and the contracts used for the
functions and callbacks it calls."""
import z3
from .exec import *
from .ops import cval

def FA(vs, body, pats=None):
    if not isinstance(vs, (list, tuple)): vs = [vs]
    if pats is None: return z3.ForAll(vs, body)
    return forall(vs, body, pats)
def EX(vs, body): return z3.Exists(vs if isinstance(vs, (list, tuple)) else [vs], body)
I = z3.IntVal
Imp = z3.Implies
Sel = z3.Select

class Spec:
    mode = 'int'
    def __init__(self, fn, pre=None, post=None, inv=None, calls=None, indirect=None, strides=None, mode='int',
                 unroll=None, unroll_limit=300, globals=(), check_signed=False, bounds=None, name=None, defs=None,
                 wrappers=None, termination=False, max_paths=20000, quick_ms=400, label=None, drop_auto=False, allow_nonconst=False):
        self.fn = fn
        self.pre_, self.post_, self.inv_, self.indirect_, self.strides_ = pre, post, inv, indirect, strides
        self.calls = dict(calls or {})
        self.mode = mode
        self.unroll_ = unroll
        self.unroll_limit = unroll_limit
        self.writable_globals = set('g!' + g for g in globals)
        self.check_signed_overflow = check_signed
        self.check_termination = termination
        self.bounds_ = bounds
        self.label = label or fn
        self.max_paths = max_paths
        self.quick_ms = quick_ms
    def begin(self, ex, st, args):
        self.ctx = Ctx(ex, st, args)
        if self.pre_: self.pre_(self.ctx)
    def end(self, ex, st, rv):
        c = self.ctx.at(st)
        if self.post_: self.post_(c, rv)
    def loop_candidates(self, L):
        out = list(self.inv_(L)) if self.inv_ else []
        if self.bounds_:
            for i, b in enumerate(self.bounds_(L)):
                out.append(('termination bound %d' % i, lambda L, b=b: L.k <= b))
        return out
    def strides(self, L):
        return self.strides_(L) if self.strides_ else []
    def indirect(self, ex, st, fp, args, ins):
        if self.indirect_ is None: return NotImplemented
        return self.indirect_(Ctx.of(self.ctx, st), fp, args, ins)
    def handler(self, name):
        h = self.calls.get(name)
        if h is None: return None
        return lambda ex, st, args, ins: h(Ctx.of(self.ctx, st), args, ins)
    def unroll(self, ex, key, fr, tgt):
        if self.unroll_ is None: return False
        if self.unroll_ is True: return True
        return self.unroll_(ex, key, fr, tgt)

class Lemma:
    """a lemma over the contracts (no code): goals() gives (name, facts, goal)"""
    fn = None
    def __init__(self, label, goals): self.label, self.goals = label, goals

class Ctx:
    """what pre/post/handlers see"""
    def __init__(self, ex, st, args):
        self.ex, self.st, self.args = ex, st, args
        self.g = {}          # shared spec values
    @staticmethod
    def of(c, st): return c.at(st)
    def at(self, st):
        n = Ctx.__new__(Ctx); n.ex, n.st, n.args, n.g = self.ex, st, self.args, self.g
        return n
    @property
    def int(self): return self.ex.mode == 'int'
    # memory
    def H(self, w): return self.st.heap[w]
    def H0(self, w): return self.ex.heap_entry[w]
    def r(self, w, a): return z3.Select(self.st.heap[w], a)
    def r8(self, a): return z3.Select(self.st.heap[8], a)
    def r4(self, a): return z3.Select(self.st.heap[4], a)
    def r2(self, a): return z3.Select(self.st.heap[2], a)
    def r1(self, a): return z3.Select(self.st.heap[1], a)
    def o8(self, a): return z3.Select(self.ex.heap_entry[8], a)
    def o4(self, a): return z3.Select(self.ex.heap_entry[4], a)
    def o1(self, a): return z3.Select(self.ex.heap_entry[1], a)
    def bv(self, a, w, heap=None):
        """little-endian w-byte value (bv mode)"""
        h = heap if heap is not None else self.st.heap[1]
        bs = [z3.Select(h, z3.simplify(a + i)) for i in range(w)]
        return z3.Concat(*reversed(bs)) if w > 1 else bs[0]
    def ov(self, a, w): return self.bv(a, w, self.ex.heap_entry[1])
    # layout
    def mod(self): return self.ex.prog.lookup(self.ex.fnname)[0]
    def struct(self, name):
        for m in [self.mod()] + list(self.ex.prog.mods.values()):
            if name in m.structs: return m.structs[name]
        # parse more modules until found
        for s in self.ex.prog.srcs:
            m = self.ex.prog.module(s)
            if name in m.structs: return m.structs[name]
        raise ToolLimit('structure %s not found' % name)
    def off(self, st, *path):
        return self.struct(st)[path[0]][0]
    def sizeof(self, st): return self.struct(st)['__size']
    def layout(self, st):
        """{offset: width} of the scalar fields of C struct st, from the LLVM type"""
        for m in [self.mod()] + list(self.ex.prog.mods.values()):
            for n in ('struct.' + st, 'union.' + st):
                if n in m.types: return flatten(m, m.types[n])
        for s in self.ex.prog.srcs:
            m = self.ex.prog.module(s)
            if 'struct.' + st in m.types: return flatten(m, m.types['struct.' + st])
        raise ToolLimit('layout of %s' % st)
    def address(self, name):
        """address of a function or global variable of /repo, wherever it is defined"""
        m = self.mod()
        if name not in m.funcs and name not in m.globals:
            for s in self.ex.prog.srcs:
                x = self.ex.prog.module(s)
                if name in x.funcs or name in x.globals: m = x; break
        return self.ex.gaddress(self.st, m, name)
    def n64(self, v): return z3.IntVal(v) if self.int else z3.BitVecVal(v, 64)
    def reckind(self, st, extra=0):
        return ('rec', self.sizeof(st), self.layout(st))
    def region(self, tag, lo, size, kind=('any',), writable=True, heap=False):
        if isinstance(size, int): size = self.n64(size)
        r = Region(tag, lo, size, kind, writable, heap)
        self.ex.add_region(self.st, r)
        return r
    def rec(self, tag, lo, st, writable=True, heap=False):
        return self.region(tag, lo, self.sizeof(st), self.reckind(st) if self.int else ('any',), writable, heap)
    def family(self, tag, base, own, lo, hi, kind, writable=True, link=True):
        f = Family(tag, base, own, lo, hi, kind, writable)
        i, a = z3.Ints('i!f a!f')
        if link:
            self.assume(FA([i], Imp(f.member(i), z3.And(base(i) > 0, base(i) + f.msize <= ADDR_MAX)), [base(i)]))
            self.assume(FA([i, a], Imp(z3.And(f.member(i), base(i) <= a, a < base(i) + f.msize), own(a) == i), [z3.MultiPattern(base(i), own(a))]))
        self.ex.add_region(self.st, f)
        return f
    def assume(self, f): self.ex.assume(self.st, f)
    def fresh(self, name, bits=64):
        v = self.ex.ops.fresh(name, bits)
        self.assume(self.ex.ops.range_fact(v, bits))
        return v
    def ensure(self, name, f, kind='post'): self.ex.check(self.st, name, f, kind)
    def require(self, name, f): self.ex.check(self.st, 'precondition of callee: ' + name, f, 'pre')
    def entails(self, f): return self.ex.entails(self.st, f)
    # ghost state
    def log(self, name, *vals): self.ex.log(self.st, name, *vals)
    def loglen(self, name): return self.st.logs[name][0] if name in self.st.logs else z3.IntVal(0)
    def logat(self, name, i, f=0): return z3.Select(self.st.logs[name][1][f], i) if name in self.st.logs else z3.IntVal(0)
    def init_log(self, name, nf):
        self.st.logs[name] = (z3.IntVal(0), [z3.K(z3.IntSort(), z3.IntVal(0)) for _ in range(nf)])
    def gset(self, name, v): self.ex.set_ghost(self.st, name, v)
    def gget(self, name): return self.st.ghost[name]
    def s32(self, v):
        return z3.If(v < (1 << 31), v, v - (1 << 32))

def flatten(m, t, base=0):
    rt = m.resolve(t)
    if rt[0] == 'struct':
        offs = m.struct_layout(rt)[0]
        d = {}
        for x, o in zip(rt[1], offs): d.update(flatten(m, x, base + o))
        return d
    if rt[0] == 'arr':
        d = {}
        es = m.sizeof(rt[2])
        for i in range(min(rt[1], 4096)): d.update(flatten(m, rt[2], base + i * es))
        return d
    return {base: m.sizeof(rt)}
