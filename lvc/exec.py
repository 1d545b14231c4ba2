"""Symbolic execution of LLVM IR between cut points, generating one proof obligation per safety
condition, contract clause, invariant initialisation/preservation and callee precondition."""
import z3, itertools, re
from .ir import Unsupported, Module
from .ops import IntOps, BVOps, cval
from . import solve

ADDR_MAX = 1 << 63          # C objects never straddle the upper half of the address space

BAD_PAT = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_XOR}
def pat_ok(p):
    if isinstance(p, z3.PatternRef): return all(pat_ok(p.arg(i)) for i in range(p.num_args()))
    todo = [p]; seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if not z3.is_app(x) or x.decl().kind() in BAD_PAT: return False
        todo += x.children()
    return True
def forall(vs, body, pats):
    """ForAll with triggers; a term that cannot be one (it contains a case distinction) is left to the solver's own choice"""
    pats = [p for p in pats if pat_ok(p)]
    return z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)
class ToolLimit(Exception):
    """The verifier cannot handle this code (not a verdict about the code)."""
class Restart(Exception):
    pass

# ------------------------------------------------------------------ regions
class Region:
    """A live memory object or range [lo, lo+size)."""
    def __init__(self, tag, lo, size, kind=('bytes',), writable=True, heap=False, const=None):
        self.tag, self.lo, self.size, self.kind = tag, lo, size, kind
        self.writable, self.heap, self.const = writable, heap, const
    def clone(self, **kw):
        r = Region(self.tag, self.lo, self.size, self.kind, self.writable, self.heap, self.const)
        for k, v in kw.items(): setattr(r, k, v)
        return r
    family = False
    def contains(self, a, w=1):
        return z3.And(self.lo <= a, a + w <= self.lo + self.size)
    def widths(self):
        k = self.kind
        if k[0] == 'bytes': return {1}
        if k[0] == 'words': return {k[1]}
        if k[0] == 'rec': return set(k[2].values())
        return {1, 2, 4, 8}

class Family:
    """Quantified family of disjoint objects: member i (lo_i <= i < hi_i) is the record
    [base(i), base(i)+size).  own(a) is the ghost inverse: own of any byte address of member i is i."""
    family = True
    const = None
    heap = False
    def __init__(self, tag, base, own, lo, hi, kind, writable=True, heap=False, except_=None):
        self.tag, self.base, self.own, self.lo, self.hi, self.kind = tag, base, own, lo, hi, kind
        self.writable, self.heap = writable, heap
    def clone(self, **kw):
        r = Family(self.tag, self.base, self.own, self.lo, self.hi, self.kind, self.writable, self.heap)
        for k, v in kw.items(): setattr(r, k, v)
        return r
    @property
    def msize(self):
        return self.kind[1]
    def member(self, i):
        return z3.And(self.lo <= i, i < self.hi)
    def contains(self, a, w=1):
        i = self.own(a)
        return z3.And(self.lo <= i, i < self.hi, self.base(i) <= a, a + w <= self.base(i) + self.msize)
    def widths(self):
        return set(self.kind[2].values())

class Frame:
    __slots__ = ('mod', 'fn', 'regs', 'block', 'prev', 'pc', 'resreg', 'loops', 'path', 'allocas', 'va', 'on_ret')
    def __init__(self, mod, fn, path):
        self.mod, self.fn, self.path = mod, fn, path
        self.regs = {}
        self.block = fn.order[0]
        self.prev = None
        self.pc = 0
        self.resreg = None
        self.loops = {}
        self.allocas = ()
        self.va = None
        self.on_ret = None
    def clone(self):
        f = Frame.__new__(Frame)
        for s in Frame.__slots__: setattr(f, s, getattr(self, s))
        f.regs = dict(self.regs); f.loops = dict(self.loops)
        return f

class State:
    def __init__(self):
        self.frames = []
        self.heap = {}
        self.facts = []
        self.regions = {}
        self.logs = {}       # name -> (len term, [array terms])
        self.ghost = {}      # free-form ghost values (z3 terms)
        self.trace = []
        self.zstr = []       # [(ptr, len)]
        self.pend = {}       # loop key -> what this path has modified since it entered the loop
    def clone(self):
        s = State.__new__(State)
        s.frames = [f.clone() for f in self.frames]
        s.heap = dict(self.heap); s.facts = list(self.facts); s.regions = dict(self.regions)
        s.logs = dict(self.logs); s.ghost = dict(self.ghost); s.trace = list(self.trace)
        s.zstr = list(self.zstr); s.pend = dict(self.pend)
        return s

class Obl:
    def __init__(self, name, facts, goal, kind, line=None, tag=None, effort='full'):
        self.name, self.facts, self.goal, self.kind, self.line, self.tag, self.effort = name, facts, goal, kind, line, tag, effort
        self.result = None

class Env:
    """what ops needs"""
    def __init__(self, ex): self.ex = ex; self.st = None
    def entails(self, f): return self.ex.quick.entails(self.st.facts, f)
    def assume(self, f): self.st.facts.append(f)

class LoopView:
    """What invariant candidates see.  k: ghost iteration counter."""
    def __init__(self, ex, st, phis, phi0, k, key, heap0, ghost0, logs0, regions0):
        self.ex, self.st, self.phis, self.phi0, self.k, self.key = ex, st, phis, phi0, k, key
        self.heap0, self.ghost0, self.logs0, self.regions0 = heap0, ghost0, logs0, regions0
    @property
    def ctx(self): return self.ex.c.ctx.at(self.st)
    def H(self, w): return self.st.heap[w]
    def H0(self, w): return self.heap0[w]            # heap at loop entry
    def ptrs(self):
        """names of pointer-typed phis"""
        return [n for n, (t, v) in self.phis.items() if t[0] == 'ptr']
    def ints(self, bits=None):
        return [n for n, (t, v) in self.phis.items() if t[0] == 'int' and t[1] > 1 and (bits is None or t[1] == bits)]
    def cells(self, size):
        """name -> address of the local variables of that size that live in memory"""
        return {r.tag.split('#')[0]: r.lo for r in self.st.regions.values() if r.tag.startswith('stack:') and str(r.size) == str(size)}
    def val(self, n): return self.phis[n][1]
    def init(self, n): return self.phi0[n][1]

class Executor:
    def __init__(self, prog, fnname, contract, mode='int', quick_ms=400):
        self.prog = prog                    # Program
        self.fnname = fnname
        self.c = contract
        self.ops = IntOps() if mode == 'int' else BVOps()
        self.mode = mode
        if getattr(contract, 'abstract_mul', False): self.ops.abstract_mul = True
        self.env = Env(self)
        self.ops.env = self.env
        self.quick = solve.Quick(quick_ms); self.quick_ms = quick_ms; self.quick.bv = mode == 'bv'
        self.obls = []
        self.gaddr = {}
        self.prov = {}
        self.gfacts = []
        self.mods = {}          # loop key -> set of modified things
        self.active = {}        # (loop key) -> set of candidate ids still active (None: not yet generated)
        self.dropped = {}       # loop key -> set(ids)
        self.exits = []         # (facts) at each return, for vacuity
        self.uid = itertools.count()
        self.strides = {}
        self.covered = set()
        self.unrolled = {}
        self.max_paths = 20000
        self.inlined = set()
        self.used_contracts = set()
        self.externals = set()

    # -------------------------------------------------- small helpers
    def fresh_addr(self, name): return self.ops.fresh(name, 64)
    def fresh_heap(self, w):
        if self.mode == 'int':
            return self.ops.fconst(z3.ArraySort(z3.IntSort(), z3.IntSort()), 'H%d' % w)
        return self.ops.fconst(z3.ArraySort(z3.BitVecSort(64), z3.BitVecSort(8)), 'H')
    def entails(self, st, f):
        self.env.st = st
        return self.quick.entails(st.facts, f)
    def assume(self, st, f):
        if isinstance(f, bool): f = z3.BoolVal(f)
        if z3.is_and(f):
            for x in f.children(): self.assume(st, x)
            return
        if z3.is_true(f): return
        st.facts.append(f)
    def line(self, st):
        for fr in reversed(st.frames):
            b = fr.fn.blocks[fr.block]
            if fr.pc < len(b) and b[fr.pc].line: return '%s:%s' % (fr.fn.name, b[fr.pc].line)
        return '?'
    def check(self, st, name, goal, kind='safety', effort='full', tag=None):
        """emit an obligation"""
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if z3.is_and(goal):
            for i, x in enumerate(goal.children()):
                self.check(st, name if goal.num_args() == 1 else '%s.%d' % (name, i), x, kind, effort, tag)
            return
        wasq = False
        while z3.is_quantifier(goal) and goal.is_forall():
            wasq = True
            sk = [self.ops.fconst(goal.var_sort(i), 'sk_' + goal.var_name(i)) for i in range(goal.num_vars())]
            goal = z3.substitute_vars(goal.body(), *reversed(sk))
        if not z3.is_quantifier(goal):
            g = z3.simplify(goal)
            if z3.is_true(g):
                o = Obl(name, None, None, kind, self.line(st), tag); o.result = (True, 'simplifier', 0, [])
                self.obls.append(o); return
        if not wasq and not (self.mode == 'bv' and self.quick_ms > 1000 and kind in ('inv', 'post')) and not solve.has_quant(goal) and self.entails(st, goal):
            o = Obl(name, None, None, kind, self.line(st), tag); o.result = (True, 'z3-inproc', 0, [])
            self.obls.append(o); return
        self.obls.append(Obl(name, list(st.facts), goal, kind, self.line(st), tag, effort))

    # -------------------------------------------------- regions
    def disjoint(self, a, b):
        """fact: regions a and b do not overlap"""
        if not a.family and not b.family:
            return z3.Or(a.lo + a.size <= b.lo, b.lo + b.size <= a.lo)
        if a.family and b.family:
            i, j = z3.Ints('i!d j!d')
            f = z3.Implies(z3.And(a.member(i), b.member(j)),
                       z3.Or(a.base(i) + a.msize <= b.base(j), b.base(j) + b.msize <= a.base(i)))
            return forall([i, j], f, pats=[z3.MultiPattern(a.base(i), b.base(j))])
        if b.family: a, b = b, a
        i = z3.Int('i!d')
        return forall([i], z3.Implies(a.member(i), z3.Or(a.base(i) + a.msize <= b.lo, b.lo + b.size <= a.base(i))),
                         pats=[a.base(i)])
    def disjoint_bv(self, a, b):
        return z3.Or(z3.ULE(a.lo + a.size, b.lo), z3.ULE(b.lo + b.size, a.lo))
    def add_region(self, st, r, facts=True):
        if facts:
            if self.mode == 'int':
                if not r.family:
                    self.assume(st, z3.And(r.lo > 0, r.size >= 0, r.lo + r.size <= ADDR_MAX))
                for o in st.regions.values():
                    self.assume(st, self.disjoint(r, o))
            else:
                self.assume(st, z3.And(r.lo != 0, z3.ULT(r.lo, z3.BitVecVal(ADDR_MAX, 64)), z3.ULE(r.size, z3.BitVecVal(ADDR_MAX, 64) - r.lo)))
                for o in st.regions.values():
                    self.assume(st, self.disjoint_bv(r, o))
        st.regions[r.tag] = r
    def new_region(self, st, tag, size, kind=('any',), heap=False, writable=True):
        lo = self.fresh_addr('new')
        tag = '%s#%d' % (tag, next(self.uid))
        r = Region(tag, lo, size, kind, writable, heap)
        self.add_region(st, r)
        return r
    def kind_ok(self, st, r, a, w):
        """condition under which a w-byte access at a is consistent with the region's layout"""
        k = r.kind
        if self.mode == 'bv' or k[0] == 'any': return z3.BoolVal(True)
        if k[0] == 'bytes': return z3.BoolVal(w == 1)
        off = z3.simplify(a - (r.lo if not r.family else r.base(r.own(a))))
        if k[0] == 'words':
            if w != k[1]: return z3.BoolVal(False)
            return off % w == 0
        if k[0] == 'rec':
            stride, fields = k[1], k[2]
            c = cval(off)
            ok = [o for o, ww in fields.items() if ww == w]
            if r.family or not (len(k) > 3 and k[3]):
                if c is not None: return z3.BoolVal(c in ok)
                return z3.Or([off == o for o in ok]) if ok else z3.BoolVal(False)
            return z3.Or([off % stride == o for o in ok]) if ok else z3.BoolVal(False)
        raise ToolLimit('kind %r' % (k,))
    def within(self, r, a, n):
        if self.mode == 'int': return r.contains(a, n)
        return z3.And(z3.ULE(r.lo, a), z3.ULE(n, r.size), z3.ULE(a - r.lo, r.size - n))
    def check_access(self, st, a, w, write, what):
        nm = '%s %d-byte %s inside a valid object' % ('write' if write else 'read', w, what)
        disj = []
        wn = w if self.mode == 'int' else z3.BitVecVal(w, 64)
        regs = list(st.regions.values())
        # syntactic guess first: region whose base occurs in the address
        def score(r):
            if r.family: return 1
            d = z3.simplify(a - r.lo)
            return 0 if cval(d) is not None else (1 if mentions(a, r.lo) else 2)
        for r in sorted(regs, key=score):
            if write and not r.writable: continue
            f = z3.And(self.within(r, a, wn), self.kind_ok(st, r, a, w))
            if (score(r) <= 1 or len(regs) <= 6) and not solve.has_quant(f) and self.entails(st, f):
                o = Obl(nm, None, None, 'memory', self.line(st)); o.result = (True, 'z3-inproc', 0, [])
                self.obls.append(o)
                return r
            disj.append(f)
        self.obls.append(Obl(nm, list(st.facts), z3.Or(disj) if disj else z3.BoolVal(False), 'memory', self.line(st)))
        return None
    def check_range(self, st, a, n, write, what):
        """the n-byte range at a (n symbolic) is inside one valid object; returns the region if known"""
        nm = '%s range inside a valid object (%s)' % ('written' if write else 'read', what)
        disj = [n == 0]
        if self.entails(st, n == 0):
            o = Obl(nm, None, None, 'memory', self.line(st)); o.result = (True, 'z3-inproc', 0, []); self.obls.append(o)
            return None
        for r in sorted(st.regions.values(), key=lambda r: 0 if (not r.family and mentions(a, r.lo)) else 1):
            if write and not r.writable: continue
            f = self.within(r, a, n)
            if self.entails(st, z3.Or(n == 0, f)):
                o = Obl(nm, None, None, 'memory', self.line(st)); o.result = (True, 'z3-inproc', 0, []); self.obls.append(o)
                return r
            disj.append(f)
        self.obls.append(Obl(nm, list(st.facts), z3.Or(disj), 'memory', self.line(st)))
        return None

    # -------------------------------------------------- raw heap access
    def hread(self, st, w, a, reg=None):
        """value of the w-byte cell at a (int mode), walking down the store chain"""
        return self.walk(st, st.heap[w], a, lambda idx: idx == a, w, reg)
    def walk(self, st, h, a, same, w, reg=None):
        """the value of cell a of heap h: walks down store chains and through heap versions whose difference
        provably does not concern a"""
        steps = 0
        while steps < 200:
            steps += 1
            if is_store(h):
                base, idx, val = h.children()
                c = cval(z3.simplify(idx - a))
                if c is not None:
                    if c == 0: return val
                    h = base; continue
                if self.mode == 'int' and steps < 60 and self.entails(st, idx == a): return val
                if steps < 60 and self.entails(st, idx != a):
                    h = base; continue
                break
            pr = self.prov.get(h.get_id())
            if pr is None: break
            _, h0, inside, fn, mod, present = pr
            if reg is not None and mod is not None and reg.tag not in mod and present.get(reg.tag) is reg:
                h = h0; continue        # regions are pairwise disjoint
            c = inside(a)
            if self.entails(st, z3.Not(c)): h = h0; continue
            if fn is not None and self.entails(st, c): return fn(w, a)
            break
        return z3.Select(h, a)
    def hwrite(self, st, w, a, v, reg=None):
        st.heap[w] = z3.Store(st.heap[w], a, v)
        self.touch(st, ('heap', w), reg)
    def touch(self, st, what, reg=None):
        if what[0] == 'heap': self.touch(st, ('hw', what[1], None if reg is None else reg.tag))
        # only paths that come back to the header count: remember now, commit at the back edge
        for fr in st.frames:
            for hdr, inst in fr.loops.items():
                m = st.pend.get(inst.key, frozenset())
                if what not in m: st.pend[inst.key] = m | {what}
    def tysize(self, fr, ty): return fr.mod.sizeof(ty)

    def load(self, st, ty, a, what=''):
        fr = st.frames[-1]
        rt = fr.mod.resolve(ty)
        if rt[0] in ('struct', 'arr'):
            offs = fr.mod.struct_layout(rt)[0] if rt[0] == 'struct' else [i * fr.mod.sizeof(rt[2]) for i in range(rt[1])]
            ts = rt[1] if rt[0] == 'struct' else [rt[2]] * rt[1]
            return [self.load(st, t, self.ops.padd(a, o), what) for t, o in zip(ts, offs)]
        bits = 64 if rt[0] == 'ptr' else rt[1] if rt[0] == 'int' else None
        if bits is None: raise ToolLimit('load of %r' % (rt,))
        w = fr.mod.sizeof(rt)
        reg = self.check_access(st, a, w, False, what)
        if self.mode == 'int':
            if w > 8: raise ToolLimit('wide load')
            v = self.hread(st, w, a, reg)
            if z3.is_select(v):
                for r in list(st.regions.values()):
                    if r.family or not r.const or cval(r.size) is None or cval(r.size) > 64 or cval(z3.simplify(v.arg(1) - r.lo)) is None: continue
                    key = 'cf!%s!%d!%d' % (r.tag, w, v.arg(0).get_id())
                    if key in st.ghost: continue
                    st.ghost[key] = v.arg(0)
                    self.const_facts(st, r.lo, {w: v.arg(0)})
            if cval(v) is None: self.assume(st, self.ops.range_fact(v, bits))
            return v
        bs = [self.bvread(st, self.ops.padd(a, i), reg) for i in range(w)]
        v = z3.simplify(z3.Concat(*reversed(bs))) if w > 1 else bs[0]
        if bits < 8 * w: v = z3.Extract(bits - 1, 0, v)
        return z3.simplify(v)
    def bvread(self, st, a, reg=None):
        return self.walk(st, st.heap[1], a, lambda idx: idx == a, 1, reg)
    def store(self, st, ty, a, v, what=''):
        fr = st.frames[-1]
        rt = fr.mod.resolve(ty)
        if rt[0] in ('struct', 'arr'):
            offs = fr.mod.struct_layout(rt)[0] if rt[0] == 'struct' else [i * fr.mod.sizeof(rt[2]) for i in range(rt[1])]
            ts = rt[1] if rt[0] == 'struct' else [rt[2]] * rt[1]
            for t, o, x in zip(ts, offs, v): self.store(st, t, self.ops.padd(a, o), x, what)
            return
        w = fr.mod.sizeof(rt)
        reg = self.check_access(st, a, w, True, what)
        if self.mode == 'int':
            if w > 8: raise ToolLimit('wide store')
            self.hwrite(st, w, a, v, reg)
        else:
            bits = v.size()
            if bits < 8 * w: v = z3.ZeroExt(8 * w - bits, v)
            for i in range(w):
                st.heap[1] = z3.Store(st.heap[1], self.ops.padd(a, i), z3.simplify(z3.Extract(8 * i + 7, 8 * i, v)))
            self.touch(st, ('heap', 1), reg)

    # range operations (int mode: quantified; bv mode: same with bv terms)
    def range_update(self, st, dst, n, fn, widths=None, reg=None):
        """cells at dst..dst+n become fn(w, addr); everything else unchanged"""
        ws = sorted(widths or ({1, 2, 4, 8} if self.mode == 'int' else {1}))
        cn = cval(z3.simplify(n)) if not isinstance(n, int) else n
        if cn is not None and cn <= 32:
            news = {}
            for w in ws:
                vals = []
                for off in range(0, cn - w + 1):
                    if w > 1 and off % w: continue      # natural alignment of fields
                    a = self.ops.padd(dst, off)
                    vals.append((a, fn(w, a)))
                news[w] = vals
            for w in ws:
                for a, v in news[w]:
                    st.heap[w] = z3.Store(st.heap[w], a, v)
                if news[w]: self.touch(st, ('heap', w), reg)
            return
        rs = cval(z3.simplify(reg.size)) if reg is not None and not reg.family else None
        if self.mode == 'bv' and rs is not None and rs <= 64:
            # small known object: every cell is updated conditionally
            h = st.heap[1]; news = []
            for j in range(rs):
                a = self.ops.padd(reg.lo, j)
                old = self.bvread(st, a, reg)
                d = z3.simplify(a - dst)
                news.append((a, z3.simplify(z3.If(z3.ULT(d, n), fn(1, a), old))))
            for a, v in news: h = z3.Store(h, a, v)
            st.heap[1] = h
            self.touch(st, ('heap', 1), reg)
            return
        for w in ws:
            h0 = st.heap[w]
            h1 = self.fresh_heap(w)
            a = self.ops.fconst(self.ops.addr_sort, 'a')
            if self.mode == 'int':
                inside = z3.And(dst <= a, a < dst + n)
            else:
                inside = z3.And(z3.ULE(dst, a), z3.ULT(a - dst, n))
            st.facts.append(forall([a], z3.Select(h1, a) == z3.If(inside, fn(w, a), z3.Select(h0, a)),
                                      pats=[z3.Select(h1, a)]))
            self.prov[h1.get_id()] = (h1, h0, (lambda x, dst=dst, n=n: z3.And(dst <= x, x < dst + n) if self.mode == 'int' else z3.And(z3.ULE(dst, x), z3.ULT(x - dst, n))), fn, {reg.tag} if reg is not None else None, dict(st.regions))
            st.heap[w] = h1
            self.touch(st, ('heap', w), reg)
    def region_widths(self, r):
        if self.mode == 'bv': return {1}
        if r is None: return {1, 2, 4, 8}
        return r.widths()
    def memcpy(self, st, dst, src, n):
        rs = self.check_range(st, src, n, False, 'copy source')
        rd = self.check_range(st, dst, n, True, 'copy destination')
        self.const_facts(st, src)
        olds = dict(st.heap)
        ws = self.region_widths(rd)
        self.range_update(st, dst, n, lambda w, a: z3.Select(olds[w], z3.simplify(a - dst + src)) if not is_store(olds[w]) else self.sel(st, w, olds, z3.simplify(a - dst + src)), ws, rd)
    def sel(self, st, w, olds, a):
        cur = st.heap[w]
        st.heap[w] = olds[w]
        try:
            if z3.is_app(a) and has_fresh(a): return z3.Select(olds[w], a)
            return self.hread(st, w, a) if self.mode == 'int' else self.bvread(st, a)
        finally:
            st.heap[w] = cur
    def memset(self, st, dst, byte, n):
        rd = self.check_range(st, dst, n, True, 'memset')
        ws = self.region_widths(rd)
        z = lambda w, a: byte if w == 1 else z3.IntVal(0)
        if ws != {1} and cval(byte) != 0 and self.mode == 'int':
            hv = {w: self.fresh_heap(w) for w in ws if w > 1}       # wider views of the filled bytes: unspecified
            z = lambda w, a: byte if w == 1 else z3.Select(hv[w], a)
        self.range_update(st, dst, n, z, ws, rd)
    def havoc_ranges(self, st, ranges, widths):
        for w in widths:
            h0 = st.heap[w]; h1 = self.fresh_heap(w)
            a = self.ops.fconst(self.ops.addr_sort, 'a')
            ins = []
            for r in ranges:
                if isinstance(r, (Region, Family)): ins.append(r.contains(a))
                else:
                    lo, n = r
                    ins.append(z3.And(lo <= a, a < lo + n) if self.mode == 'int' else z3.And(z3.ULE(lo, a), z3.ULT(a - lo, n)))
            st.facts.append(forall([a], z3.Implies(z3.Not(z3.Or(ins)), z3.Select(h1, a) == z3.Select(h0, a)), pats=[z3.Select(h1, a)]))
            self.prov[h1.get_id()] = (h1, h0, (lambda x, a=a, c=z3.Or(ins): z3.substitute(c, (a, x))), None, {r.tag for r in ranges} if all(isinstance(r, (Region, Family)) for r in ranges) else None, dict(st.regions))
            st.heap[w] = h1
            if ranges and all(isinstance(r, (Region, Family)) for r in ranges):
                for r in ranges: self.touch(st, ('heap', w), r)
            else: self.touch(st, ('heap', w))

    # -------------------------------------------------- globals
    def gaddress(self, st, mod, name):
        if name in mod.funcs or name in mod.decls or name in self.prog.funcs:
            key = 'fn!' + name
            if name in mod.funcs and len(self.prog.defs_.get(name, ())) > 1: key = 'fn!%s!%s' % (mod.name, name)     # several file-local functions of that name
        else:
            g = mod.globals.get(name)
            if g is None: raise ToolLimit('unknown global ' + name)
            key = name if not name.startswith('.') and not g.get('priv') else '%s!%s' % (mod.name, name)
            key = 'g!' + key
        if key not in self.gaddr:
            c = z3.Const(key, self.ops.addr_sort)
            self.gaddr[key] = (c, mod, name)
        c = self.gaddr[key][0]
        if key not in st.ghost:
            st.ghost[key] = c
            if key.startswith('fn!'):
                if self.mode == 'int':
                    self.assume(st, z3.And(c > 0, c < ADDR_MAX))
                else:
                    self.assume(st, c != 0)
                for k2 in list(st.ghost):
                    if k2.startswith('fn!') and k2 != key: self.assume(st, st.ghost[k2] != c)
            else:
                g = mod.globals[name]
                size = mod.sizeof(g['ty']) if g['ty'] else 8
                sz = z3.IntVal(size) if self.mode == 'int' else z3.BitVecVal(size, 64)
                kind = ('any',)
                t = mod.resolve(g['ty']) if g['ty'] else None
                if t and t[0] == 'arr' and t[2] == ('int', 8): kind = ('bytes',)
                const = g['const'] or self.never_written(mod, name)
                wr = (not const) and (key in self.c.writable_globals or 'g!*' in self.c.writable_globals)
                r = Region(key, c, sz, kind, wr, False, const=(mod, name) if const else None)
                self.add_region(st, r)
                self.const_facts(st, c)
        return c
    def never_written(self, mod, name):
        """a file-local table of functions that its file only reads or takes the address of keeps its contents"""
        g = mod.globals.get(name)
        if g is None or not g['ty']: return False
        syms = [v[1] for _, _, v in self.const_bytes(mod, g['ty'], g['init']) if isinstance(v, tuple)]
        if not syms or not all(x[0] == 'glob' and x[1] not in mod.globals for x in syms): return False
        t = next((self.prog.text[s] for s, m in self.prog.mods.items() if m is mod), None)
        if t is None: return False
        q = r'@%s(?![\w.$])' % re.escape(name)
        if not re.search(r'^%s = internal ' % q, t, re.M): return False
        uses = [l for l in t.split('\n') if re.search(q, l) and not l.startswith('@')]
        return all(re.match(r'\s*(store ptr %s, |%%[\w.]+ = load [^,]*, ptr %s[,\s]|%%[\w.]+ = load [^,]*, ptr getelementptr|%%[\w.]+ = icmp |%%[\w.]+ = phi ptr |%%[\w.]+ = select )' % (q, q), l) for l in uses)
    def const_bytes(self, mod, ty, init):
        """[(offset, width, value or ('sym', v))] of a constant initialiser"""
        rt = mod.resolve(ty)
        if init is None: return []
        if init[0] == 'str': return [(i, 1, b) for i, b in enumerate(init[1])]
        if init[0] in ('zero', 'null'):
            if rt[0] == 'ptr': return [(0, 8, 0)]
            if rt[0] == 'int': return [(0, mod.sizeof(rt), 0)]
            if rt[0] == 'arr':
                es = mod.sizeof(rt[2])
                return [(i * es + o, w, v) for i in range(rt[1]) for o, w, v in self.const_bytes(mod, rt[2], ('zero',))]
            if rt[0] == 'struct':
                offs = mod.struct_layout(rt)[0]
                return [(oo + o, w, v) for t, oo in zip(rt[1], offs) for o, w, v in self.const_bytes(mod, t, ('zero',))]
        if init[0] == 'const': return [(0, mod.sizeof(rt), init[1] % (1 << (8 * mod.sizeof(rt))))]
        if init[0] == 'agg':
            if rt[0] == 'arr':
                es = mod.sizeof(rt[2])
                return [(i * es + o, w, v) for i, (t, x) in enumerate(init[1]) for o, w, v in self.const_bytes(mod, t, x)]
            offs = mod.struct_layout(rt)[0]
            return [(oo + o, w, v) for (t, x), oo in zip(init[1], offs) for o, w, v in self.const_bytes(mod, t, x)]
        if init[0] in ('glob', 'cexpr'): return [(0, 8, ('sym', init))]
        return []
    def const_facts(self, st, ptr, heaps=None):
        """constant objects keep their initial contents: (re)state them for the current heap"""
        for r in list(st.regions.values()):
            if r.family or not r.const: continue
            d = cval(z3.simplify(ptr - r.lo))
            if d is None: continue
            mod, name = r.const
            g = mod.globals[name]
            for o, w, v in self.const_bytes(mod, g['ty'], g['init'])[:256]:
                if isinstance(v, tuple):
                    v = self.value(st, mod, ('ptr',), v[1])
                    val = v
                else:
                    val = None
                a = self.ops.padd(r.lo, o)
                if heaps is not None and w not in heaps: continue
                if self.mode == 'int':
                    self.assume(st, z3.Select(heaps[w] if heaps else base_heap(st.heap[w]), a) == (val if val is not None else z3.IntVal(v)))
                    if is_store(st.heap[w]):
                        pass
                else:
                    for i in range(w):
                        b = z3.Extract(8 * i + 7, 8 * i, val) if val is not None else z3.BitVecVal((v >> (8 * i)) & 255, 8)
                        self.assume(st, z3.Select(base_heap(st.heap[1]), self.ops.padd(a, i)) == b)

    def cstring_at(self, st, ptr):
        """the bytes (without the terminator) of the constant string ptr points to, or None"""
        for r in list(st.regions.values()):
            if r.family or not r.const: continue
            d = cval(z3.simplify(ptr - r.lo))
            if d is None: continue
            mod, name = r.const
            g = mod.globals[name]
            bs = {o: v for o, w, v in self.const_bytes(mod, g['ty'], g['init']) if w == 1 and not isinstance(v, tuple)}
            out = bytearray()
            while d in bs and bs[d] != 0: out.append(bs[d] & 255); d += 1
            if d in bs: return bytes(out)
        return None
    # -------------------------------------------------- values
    def value(self, st, mod, ty, v, regs=None):
        k = v[0]
        if k == 'loc':
            if regs is None or v[1] not in regs: raise ToolLimit('undefined register %' + v[1])
            return regs[v[1]]
        rt = mod.resolve(ty) if ty[0] == 'named' else ty
        bits = 64 if rt[0] == 'ptr' else rt[1] if rt[0] == 'int' else None
        if k == 'const': return self.ops.const(v[1], bits)
        if k == 'null': return self.ops.const(0, 64)
        if k == 'glob': return self.gaddress(st, mod, v[1])
        if k == 'undef':
            if rt[0] in ('struct', 'arr'):
                ts = rt[1] if rt[0] == 'struct' else [rt[2]] * rt[1]
                return [self.value(st, mod, t, v) for t in ts]
            if bits is None: return None
            x = self.ops.fresh('undef', bits); self.assume(st, self.ops.range_fact(x, bits)); return x
        if k == 'zero':
            if rt[0] in ('struct', 'arr'):
                ts = rt[1] if rt[0] == 'struct' else [rt[2]] * rt[1]
                return [self.value(st, mod, t, v) for t in ts]
            return self.ops.const(0, bits)
        if k == 'agg':
            return [self.value(st, mod, t, x) for t, x in v[1]]
        if k == 'cexpr':
            if v[1] == 'gep':
                return self.gep(st, mod, v[2], v[3], None)
            if v[1] in ('ptrtoint', 'inttoptr', 'bitcast'):
                return self.value(st, mod, v[2], v[3])
        if k == 'fpconst': return None
        raise ToolLimit('value %r' % (v,))
    def gep(self, st, mod, t, ops, regs):
        base = self.value(st, mod, ops[0][0], ops[0][1], regs)
        off_c = 0
        cur = t
        a = base
        for n, (ity, iv) in enumerate(ops[1:]):
            if n == 0:
                size = mod.sizeof(cur)
            else:
                rc = mod.resolve(cur)
                if rc[0] == 'struct':
                    offs = mod.struct_layout(rc)[0]
                    idx = iv[1]
                    off_c += offs[idx]
                    cur = rc[1][idx]
                    continue
                elif rc[0] == 'arr':
                    cur = rc[2]
                    size = mod.sizeof(cur)
                else:
                    raise ToolLimit('gep into %r' % (rc,))
            if iv[0] == 'const':
                off_c += iv[1] * size
                continue
            x = self.value(st, mod, ity, iv, regs)
            a = self.ops.padd(a, self.ops.pmul(x, ity[1], size))
        if off_c: a = self.ops.padd(a, off_c)
        return a

    # -------------------------------------------------- running
    def run_once(self):
        """one symbolic execution of the whole function with the current candidate sets"""
        while True:
            self.obls = []
            self.exits = []
            self.need_restart = False
            self.paths = 0
            self.live_pts = 0
            self.ops.n_fresh = 0
            self.loopkeys = []
            self.uid = itertools.count()
            st = State()
            self.env.st = st
            try:
                self.setup(st)
                work = [st]
                while work:
                    s = work.pop()
                    work += self.step_path(s)
                    if len(work) + self.paths > self.max_paths: raise ToolLimit('too many paths')
            except Restart:
                continue
            if self.need_restart: continue
            return
    def setup(self, st):
        for w in ((8, 4, 2, 1) if self.mode == 'int' else (1,)):
            st.heap[w] = z3.Const('H%d_0' % w, z3.ArraySort(self.ops.addr_sort, z3.IntSort() if self.mode == 'int' else z3.BitVecSort(8)))
        mod, fn = self.prog.lookup(self.fnname)
        fr = Frame(mod, fn, fn.name)
        args = {}
        pos = []
        for ty, name, attrs in fn.args:
            rt = mod.resolve(ty) if ty[0] == 'named' else ty
            bits = 64 if rt[0] == 'ptr' else rt[1] if rt[0] == 'int' else None
            if bits is None: raise ToolLimit('argument type %r' % (rt,))
            v = z3.Const('arg!%d' % len(pos), self.ops.sort(bits) if self.mode == 'bv' else z3.IntSort())
            self.assume(st, self.ops.range_fact(v, bits))
            fr.regs[name] = v
            pos.append(v)
        st.frames = [fr]
        self.args = pos
        self.heap_entry = dict(st.heap)
        self.c.begin(self, st, pos)
        self.heap_entry = dict(st.heap)
        self.st_entry = st.clone()
        # vacuity of the precondition
        if self.quick.entails(st.facts, z3.BoolVal(False)):
            raise ToolLimit('contradictory precondition for ' + self.fnname)
        # loops starting at the entry block never happen in LLVM IR
    def step_path(self, st):
        """run until the path ends or forks"""
        while True:
            self.env.st = st
            fr = st.frames[-1]
            blk = fr.fn.blocks[fr.block]
            ins = blk[fr.pc]
            self.covered.add((fr.fn.name, fr.block))
            op = ins.op
            V = lambda ty, v: self.value(st, fr.mod, ty, v, fr.regs)
            if op == 'unsupported': raise ToolLimit('unsupported instruction in %s: %s' % (fr.fn.name, ins.a))
            if op == 'phi':
                # all phis of the block were evaluated on block entry
                fr.pc += 1; continue
            if op == 'bin':
                fr.regs[ins.res] = self.binop(st, ins, V)
                fr.pc += 1; continue
            if op == 'icmp':
                t = ins.a['oty']
                rt = fr.mod.resolve(t)
                bits = 64 if rt[0] == 'ptr' else rt[1]
                c = self.ops.cmp(ins.a['pred'], V(t, ins.a['x']), V(t, ins.a['y']), bits)
                fr.regs[ins.res] = self.b2v(c)
                fr.pc += 1; continue
            if op == 'cast':
                fty, tty = fr.mod.resolve(ins.a['fty']), fr.mod.resolve(ins.ty)
                fb = 64 if fty[0] == 'ptr' else fty[1]; tb = 64 if tty[0] == 'ptr' else tty[1]
                x = V(ins.a['fty'], ins.a['x'])
                if fb == 1 and self.mode == 'int' and ins.a['op'] == 'zext': r = x
                else: r = self.ops.cast(ins.a['op'], x, fb, tb)
                fr.regs[ins.res] = r
                fr.pc += 1; continue
            if op == 'gep':
                fr.regs[ins.res] = self.gep(st, fr.mod, ins.a['t'], ins.a['ops'], fr.regs)
                fr.pc += 1; continue
            if op == 'load':
                a = V(('ptr',), ins.a['p'])
                if ins.ty[0] == 'fp': fr.regs[ins.res] = None
                else: fr.regs[ins.res] = self.load(st, ins.ty, a, 'load')
                fr.pc += 1; continue
            if op == 'store':
                a = V(('ptr',), ins.a['p'])
                self.store(st, ins.ty, a, V(ins.ty, ins.a['v']), 'store')
                fr.pc += 1; continue
            if op == 'alloca':
                n = fr.mod.sizeof(ins.a['t'])
                t = fr.mod.resolve(ins.a['t'])
                size = self.ops.const(n, 64)
                kind = ('any',)
                tt = t
                while tt[0] == 'arr': tt = fr.mod.resolve(tt[2])
                if tt == ('int', 8): kind = ('bytes',)
                if ins.a['n'] is not None:
                    cnt = V(*ins.a['n'])
                    size = z3.simplify(cnt * size) if self.mode == 'int' else z3.simplify(self.ops.cast('zext', cnt, ins.a['n'][0][1], 64) * size)
                r = self.new_region(st, 'stack:' + (ins.res or ''), size, kind)
                fr.allocas += (r.tag,)
                fr.regs[ins.res] = r.lo
                fr.pc += 1; continue
            if op == 'select':
                c = self.v2b(V(('int', 1), ins.a['c']))
                x, y = V(ins.ty, ins.a['x']), V(ins.ty, ins.a['y'])
                fr.regs[ins.res] = self.ops.ite(c, x, y)
                fr.pc += 1; continue
            if op == 'freeze':
                fr.regs[ins.res] = V(ins.ty, ins.a['x']); fr.pc += 1; continue
            if op == 'extractvalue':
                x = V(ins.a['ty'], ins.a['x'])
                for i in ins.a['idx']: x = x[i]
                fr.regs[ins.res] = x; fr.pc += 1; continue
            if op == 'insertvalue':
                x = V(ins.ty, ins.a['x']); v = V(None, ins.a['v']) if ins.a['v'][0] == 'loc' else V(self.elem_ty(fr.mod, ins.ty, ins.a['idx']), ins.a['v'])
                fr.regs[ins.res] = set_idx(x, ins.a['idx'], v); fr.pc += 1; continue
            if op == 'cmpxchg':      # sequential semantics (no other thread is modelled)
                a = V(('ptr',), ins.a['p']); c = V(ins.ty, ins.a['c']); n = V(ins.ty, ins.a['n'])
                old = self.load(st, ins.ty, a, 'cmpxchg')
                self.store(st, ins.ty, a, self.ops.ite(old == c, n, old), 'cmpxchg')
                fr.regs[ins.res] = [old, self.b2v(old == c)]; fr.pc += 1; continue
            if op == 'atomicrmw':
                a = V(('ptr',), ins.a['p']); v = V(ins.ty, ins.a['v'])
                old = self.load(st, ins.ty, a, 'atomicrmw')
                o = ins.a['op']
                if o == 'xchg': nv = v
                elif o in ('add', 'sub', 'and', 'or', 'xor'): nv = self.ops.bin(o, old, v, ins.ty[1])
                else: raise ToolLimit('atomicrmw ' + o)
                self.store(st, ins.ty, a, nv, 'atomicrmw')
                fr.regs[ins.res] = old; fr.pc += 1; continue
            if op == 'nop': fr.pc += 1; continue
            if op == 'call':
                out = self.call(st, fr, ins)
                if out is None: continue            # proceeded in place
                return out                          # forked or ended
            if op == 'br':
                if ins.a['c'] is None:
                    if self.goto(st, ins.a['targets'][0]): continue
                    return []
                c = z3.simplify(self.v2b(V(('int', 1), ins.a['c'])))
                return self.branch(st, [(c, ins.a['targets'][0]), (z3.Not(c), ins.a['targets'][1])])
            if op == 'switch':
                v = V(ins.ty, ins.a['v'])
                br = []
                neg = []
                bytgt = {}
                for cv, tgt in ins.a['cases']:
                    cc = v == self.ops.const(cv, ins.ty[1])
                    bytgt.setdefault(tgt, []).append(cc); neg.append(cc)
                for tgt, ccs in bytgt.items(): br.append((z3.Or(ccs), tgt))
                br.append((z3.Not(z3.Or(neg)) if neg else z3.BoolVal(True), ins.a['default']))
                return self.branch(st, br)
            if op == 'ret':
                rv = V(ins.ty, ins.a['v']) if ins.a['v'] is not None else None
                for t in fr.allocas: st.regions.pop(t, None)
                if len(st.frames) == 1:
                    self.finish(st, rv)
                    return []
                st.frames.pop()
                up = st.frames[-1]
                if fr.on_ret is not None: rv = fr.on_ret(st, rv)
                if fr.resreg is not None: up.regs[fr.resreg] = rv
                up.pc += 1
                continue
            if op == 'unreachable':
                self.obls.append(self.mk(st, 'unreachable code is never reached', z3.BoolVal(False), 'safety'))
                return []
            raise ToolLimit('op ' + op)
    def mk(self, st, name, goal, kind):
        return Obl(name, list(st.facts), goal, kind, self.line(st))
    def elem_ty(self, mod, ty, idx):
        for i in idx:
            rt = mod.resolve(ty); ty = rt[1][i] if rt[0] == 'struct' else rt[2]
        return ty
    def b2v(self, c):
        if self.mode == 'int': return z3.If(c, z3.IntVal(1), z3.IntVal(0))
        return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
    def v2b(self, v):
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = v.children()
            ca, cb = cval(a), cval(b)
            if ca == 1 and cb == 0: return c
            if ca == 0 and cb == 1: return z3.Not(c)
        return v == self.ops.const(1, 1)
    def binop(self, st, ins, V):
        x, y = V(ins.ty, ins.a['x']), V(ins.ty, ins.a['y'])
        bits = ins.ty[1]
        op = ins.a['op']
        if bits == 1:
            bx, by = self.v2b(x), self.v2b(y)
            r = {'and': z3.And(bx, by), 'or': z3.Or(bx, by), 'xor': z3.Xor(bx, by), 'add': z3.Xor(bx, by)}.get(op)
            if r is not None:
                if op == 'xor' and cval(y) == 1: r = z3.Not(bx)
                return self.b2v(z3.simplify(r))
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.check(st, 'division by zero', y != self.ops.const(0, bits), 'safety')
        if 'nsw' in ins.a['flags'] and self.c.check_signed_overflow and self.mode == 'int' and op in ('add', 'sub', 'mul'):
            sx, sy = self.ops.signed(x, bits), self.ops.signed(y, bits)
            s = sx + sy if op == 'add' else sx - sy if op == 'sub' else sx * sy
            self.check(st, 'signed %s does not overflow' % op, z3.And(s >= -(1 << (bits - 1)), s < (1 << (bits - 1))), 'safety')
        return self.ops.bin(op, x, y, bits, ins.a['flags'])
    def branch(self, st, alts):
        out = []
        for c, tgt in alts:
            c = z3.simplify(c)
            if z3.is_false(c): continue
            if not z3.is_true(c):
                if self.entails(st, z3.Not(c)): continue
            s = st.clone()
            self.env.st = s
            if not z3.is_true(c): self.assume(s, c)
            if self.goto(s, tgt): out.append(s)
        return out

    # -------------------------------------------------- block entry, loops
    def goto(self, st, tgt):
        """enter block tgt of the current frame; False when the path ends here"""
        fr = st.frames[-1]
        src = fr.block
        loops = fr.fn.loops()
        for h in list(fr.loops):
            if tgt not in loops[h]: del fr.loops[h]        # leaving the loop
        if tgt in loops:
            if tgt in fr.loops:
                inst = fr.loops[tgt]
                if inst.unroll is not None:
                    inst = inst.next(); fr.loops[tgt] = inst
                    if inst.unroll > self.c.unroll_limit:
                        # complete only if this point is unreachable
                        self.obls.append(self.mk(st, 'unwinding of the loop at %s is complete (bound %d)' % (inst.key, self.c.unroll_limit), z3.BoolVal(False), 'unwind'))
                        return False
                    self.enter_phis(st, fr, src, tgt)
                    return True
                self.back_edge(st, fr, src, tgt, inst)
                return False
            self.enter_loop(st, fr, src, tgt)
            return True
        self.enter_phis(st, fr, src, tgt)
        return True
    def phi_vals(self, st, fr, src, tgt):
        vals = {}
        for ins in fr.fn.blocks[tgt]:
            if ins.op != 'phi': break
            for v, l in ins.a['inc']:
                if l == src:
                    vals[ins.res] = (ins.ty, self.value(st, fr.mod, ins.ty, v, fr.regs) if ins.ty[0] != 'fp' else None)
                    break
            else: raise ToolLimit('phi without edge')
        return vals
    def enter_phis(self, st, fr, src, tgt):
        vals = self.phi_vals(st, fr, src, tgt)
        for n, (t, v) in vals.items(): fr.regs[n] = v
        fr.prev = src; fr.block = tgt; fr.pc = 0
    def enter_loop(self, st, fr, src, tgt):
        vals = self.phi_vals(st, fr, src, tgt)
        key = '%s:%s' % (fr.path, tgt)
        depth = sum(len(f.loops) for f in st.frames)
        if self.c.unroll(self, key, fr, tgt):
            inst = LoopInst(key, unroll=0)
            fr.loops[tgt] = inst
            for n, (t, v) in vals.items(): fr.regs[n] = v
            fr.prev = src; fr.block = tgt; fr.pc = 0
            return
        self.loopkeys.append(key)
        heap0 = dict(st.heap); ghost0 = dict(st.ghost); logs0 = dict(st.logs); regions0 = dict(st.regions)
        inst = LoopInst(key)
        inst.heap0, inst.ghost0, inst.logs0, inst.regions0, inst.phi0 = heap0, ghost0, logs0, regions0, vals
        inst.regs0 = dict(fr.regs)
        k0 = z3.IntVal(0)
        L0 = LoopView(self, st, vals, vals, k0, key, heap0, ghost0, logs0, regions0)
        L0.fr = fr; L0.header = tgt; L0.outer = [i for f in st.frames for i in f.loops.values()]
        cands = self.candidates(L0, fr, tgt, key)
        self.emit_inv(st, L0, cands, key, 'init')
        # arbitrary iteration
        mods = self.mods.get(key, set())
        for f in st.frames:
            for o in f.loops.values(): st.pend[o.key] = st.pend.get(o.key, frozenset()) | frozenset(mods)
        st.pend[key] = frozenset()
        for what in sorted(mods, key=str):
            if what[0] == 'heap':
                w = what[1]
                written = {x[2] for x in mods if x[0] == 'hw' and x[1] == w}
                targets = [r for r in st.regions.values() if r.writable and (self.mode == 'bv' or w in r.widths()) and (None in written or r.tag in written)]
                h0 = st.heap[w]; h1 = self.fresh_heap(w)
                a = self.ops.fconst(self.ops.addr_sort, 'a')
                ins_ = [r.contains(a) if self.mode == 'int' else self.within(r, a, z3.BitVecVal(1, 64)) for r in targets]
                if ('anyheap', ) not in mods:
                    f = z3.Implies(z3.Not(z3.Or(ins_)) if ins_ else z3.BoolVal(True), z3.Select(h1, a) == z3.Select(h0, a))
                    st.facts.append(forall([a], f, pats=[z3.Select(h1, a)]))
                    self.prov[h1.get_id()] = (h1, h0, (lambda x, a=a, c=z3.Or(ins_) if ins_ else z3.BoolVal(False): z3.substitute(c, (a, x))), None,
                                                 {r.tag for r in targets}, dict(st.regions))
                st.heap[w] = h1
            elif what[0] == 'log':
                ln, arrs = st.logs[what[1]]
                nl = self.ops.fconst(z3.IntSort(), 'loglen')
                st.logs[what[1]] = (nl, [self.ops.fconst(x.sort(), 'log') for x in arrs])
                self.assume(st, nl >= 0)
            elif what[0] == 'ghost':
                if what[1] in st.ghost:
                    st.ghost[what[1]] = self.ops.fconst(st.ghost[what[1]].sort(), 'gh')
            elif what[0] == 'region':
                r = st.regions.get(what[1])
                if r is not None:
                    if r.family:
                        nr = r.clone(lo=self.ops.fconst(z3.IntSort(), 'flo'), hi=self.ops.fconst(z3.IntSort(), 'fhi'))
                        st.regions[r.tag] = nr
                    else:
                        nr = r.clone(lo=self.fresh_addr('rlo'), size=self.fresh_addr('rsz'))
                        del st.regions[r.tag]
                        self.add_region(st, nr)
        # regions that may have been freed by the loop body are gone
        for what in mods:
            if what[0] == 'freed': st.regions.pop(what[1], None)
        k = self.ops.fconst(z3.IntSort(), 'k')
        self.assume(st, k >= 0)
        newv = {}
        for n, (t, v) in vals.items():
            if t[0] == 'fp': newv[n] = (t, None); continue
            bits = 64 if t[0] == 'ptr' else t[1]
            x = self.ops.fresh('phi_' + n.replace('.', '_'), bits)
            self.assume(st, self.ops.range_fact(x, bits))
            newv[n] = (t, x)
            fr.regs[n] = x
        inst.k = k
        L = LoopView(self, st, newv, vals, k, key, heap0, ghost0, logs0, regions0)
        L.fr = fr; L.header = tgt; L.outer = L0.outer
        for cid, f in cands:
            if cid in self.dropped.get(key, ()): continue
            g = f(L)
            if g is None: continue
            self.assume(st, g)
        fr.loops[tgt] = inst
        fr.prev = src; fr.block = tgt; fr.pc = 0
    def back_edge(self, st, fr, src, tgt, inst):
        vals = self.phi_vals(st, fr, src, tgt)
        key = inst.key
        # detect ghost / region changes that need havoc at the header
        m = self.mods.setdefault(key, set())
        new = st.pend.get(key, frozenset()) - m
        if new: m |= new; self.need_restart = True
        # regions created inside the body die here (permission is dropped)
        for t, r0 in inst.regions0.items():
            if t not in st.regions and ('freed', t) not in m and ('region', t) not in m:
                m.add(('freed', t)); self.need_restart = True
        k1 = inst.k + 1
        L = LoopView(self, st, vals, inst.phi0, k1, key, inst.heap0, inst.ghost0, inst.logs0, inst.regions0)
        L.fr = fr; L.header = tgt; L.outer = [i for f in st.frames for i in f.loops.values() if i is not inst]
        cands = self.candidates(L, fr, tgt, key)
        self.emit_inv(st, L, cands, key, 'step')
        if self.c.check_termination:
            pass
    def emit_inv(self, st, L, cands, key, phase):
        for cid, f in cands:
            if cid in self.dropped.get(key, ()): continue
            g = f(L)
            if g is None: g = z3.BoolVal(True)
            self.check(st, 'loop %s invariant [%s] %s' % (key, cid, 'holds on entry' if phase == 'init' else 'is preserved'), g,
                       'inv', effort='light' if cid.startswith('auto') else 'medium', tag=(key, cid))
    def candidates(self, L, fr, tgt, key):
        c = list(self.auto_candidates(L, fr, tgt, key))
        c += list(self.c.loop_candidates(L))
        return c
    def auto_candidates(self, L, fr, tgt, key):
        out = []
        # outer-loop-invariant heap regions
        for n, (t, v) in L.phis.items():
            if t[0] == 'fp' or v is None or isinstance(v, list): continue
            out.append(('auto:%s unchanged' % n, lambda L, n=n: L.val(n) == L.init(n)))
            for s, sv in self.phi_strides(L, fr, tgt, n):
                if self.mode == 'int':
                    out.append(('auto:%s = init + k*%s' % (n, s), lambda L, n=n, sv=sv: L.val(n) == L.init(n) + L.k * sv(L)))
                    out.append(('auto:%s = init - k*%s' % (n, s), lambda L, n=n, sv=sv: L.val(n) == L.init(n) - L.k * sv(L)))
        names = [n for n, (t, v) in L.phis.items() if t[0] != 'fp' and v is not None and not isinstance(v, list)]
        for i, n1 in enumerate(names):
            for n2 in names[i + 1:]:
                t1, t2 = L.phis[n1][0], L.phis[n2][0]
                if t1 != t2 or (t1[0] == 'int' and t1[1] == 1): continue
                out.append(('auto:%s - %s constant' % (n1, n2), lambda L, n1=n1, n2=n2: L.val(n1) - L.val(n2) == L.init(n1) - L.init(n2)))
        # comparisons occurring in the loop
        for nm, f in self.loop_cmps(L, fr, tgt):
            out.append((nm, f))
        if self.c.check_termination and self.mode == 'int':
            for nm, f in self.bound_terms(L, fr, tgt):
                out.append(('autobound:' + nm, lambda L, f=f: L.k <= f(L)))
        # regions untouched by the loop
        mods = self.mods.get(key, set())
        for w in (8, 4, 2, 1):
            if ('heap', w) not in mods: continue
            for tag, r in sorted(L.regions0.items()):
                if not r.writable or (self.mode == 'int' and w not in r.widths()): continue
                if self.mode == 'bv' and w != 1: continue
                def f(L, r=r, w=w):
                    a = z3.Const('a!fr', self.ops.addr_sort)
                    cont = r.contains(a) if self.mode == 'int' else self.within(r, a, z3.BitVecVal(1, 64))
                    return forall([a], z3.Implies(cont, z3.Select(L.H(w), a) == z3.Select(L.H0(w), a)), pats=[z3.Select(L.H(w), a)])
                out.append(('auto:frame %s/%d' % (tag, w), f))
                if self.mode == 'int' and r.kind[0] == 'rec' and not r.family and len(r.kind) < 4:
                    for o, ww in r.kind[2].items():
                        if ww == w:
                            out.append(('auto:field %s+%d' % (tag, o), lambda L, r=r, o=o, w=w: z3.Select(L.H(w), r.lo + o) == z3.Select(L.H0(w), r.lo + o)))
        return out
    def phi_strides(self, L, fr, tgt, n):
        """syntactic increments of a phi around the loop: [(name, fn(L) -> term)]"""
        body = fr.fn.loops()[tgt]
        defs = {}
        for b in body:
            for ins in fr.fn.blocks[b]:
                if ins.res: defs[ins.res] = ins
        res = {}
        for ins in fr.fn.blocks[tgt]:
            if ins.op == 'phi' and ins.res == n:
                for v, l in ins.a['inc']:
                    if l in body: self.walk_stride(L, fr, defs, n, v, 0, [], res, 0)
        return sorted(res.items(), key=lambda x: x[0])
    def walk_stride(self, L, fr, defs, n, v, const, syms, res, depth):
        if depth > 12: return
        if v == ('loc', n):
            if const == 0 and not syms: return
            if syms:
                name = '+'.join(s[0] for s in syms) + '+%d' % const
                res[name] = lambda L, syms=tuple(syms), const=const: sum([s[1](L) for s in syms], z3.IntVal(const))
            else:
                res[str(abs(const))] = lambda L, const=abs(const): z3.IntVal(const)
            return
        if v[0] != 'loc' or v[1] not in defs: return
        d = defs[v[1]]
        if d.op == 'bin' and d.a['op'] in ('add', 'sub'):
            x, y = d.a['x'], d.a['y']
            sg = 1 if d.a['op'] == 'add' else -1
            if y[0] == 'const':
                self.walk_stride(L, fr, defs, n, x, const + sg * y[1], syms, res, depth + 1)
            elif y[0] == 'loc' and y[1] not in defs and sg == 1:
                self.walk_stride(L, fr, defs, n, x, const, syms + [(y[1], lambda L, r=y[1]: L.fr.regs[r])], res, depth + 1)
            if x[0] == 'const' and sg == 1:
                self.walk_stride(L, fr, defs, n, y, const + x[1], syms, res, depth + 1)
        elif d.op == 'gep' and len(d.a['ops']) == 2:
            base = d.a['ops'][0][1]; ity, iv = d.a['ops'][1]
            sz = fr.mod.sizeof(d.a['t'])
            if iv[0] == 'const':
                self.walk_stride(L, fr, defs, n, base, const + iv[1] * sz, syms, res, depth + 1)
            elif iv[0] == 'loc' and iv[1] not in defs:
                self.walk_stride(L, fr, defs, n, base, const, syms + [('%s*%d' % (iv[1], sz), lambda L, r=iv[1], sz=sz: L.fr.regs[r] * sz)], res, depth + 1)
            elif iv[0] == 'loc' and iv[1] in defs and defs[iv[1]].op == 'load':
                # stride loaded from memory inside the loop (e.g. an element size field): use spec strides
                for nm, f in self.c.strides(L):
                    self.walk_stride(L, fr, defs, n, base, const, syms + [(nm, f)], res, depth + 1)
        elif d.op == 'phi' and depth < 6:
            for vv, l in d.a['inc']:
                self.walk_stride(L, fr, defs, n, vv, const, syms, res, depth + 1)
        elif d.op == 'select' and depth < 6:
            for vv in (d.a['x'], d.a['y']):
                self.walk_stride(L, fr, defs, n, vv, const, syms, res, depth + 1)
    def loop_cmps(self, L, fr, tgt):
        body = fr.fn.loops()[tgt]
        phis = set(L.phis)
        defs = {}
        for b in body:
            for ins in fr.fn.blocks[b]:
                if ins.res and ins.op != 'phi': defs[ins.res] = ins
        out = []
        seen = set()
        ops = self.ops
        def term(v, t):
            """fn(L) for a loop-invariant or phi value, or a field loaded in the loop from an invariant address"""
            if v[0] == 'loc':
                if v[1] in phis: return lambda L, n=v[1]: L.val(n)
                if v[1] in defs:
                    d = defs[v[1]]
                    if d.op == 'load':
                        return None
                    return None
                if v[1] in fr.regs: return lambda L, r=v[1]: L.fr.regs[r] if r not in L.phis else L.val(r)
                return None
            if v[0] == 'const':
                bits = t[1]
                return lambda L, c=v[1], bits=bits: ops.const(c, bits)
            return None
        for b in body:
            for ins in fr.fn.blocks[b]:
                if ins.op != 'icmp': continue
                x, y, t = ins.a['x'], ins.a['y'], ins.a['oty']
                for p, q in ((x, y), (y, x)):
                    if p[0] == 'loc' and p[1] in defs and defs[p[1]].op == 'bin' and defs[p[1]].a['x'][0] == 'loc' and defs[p[1]].a['x'][1] in phis:
                        p = defs[p[1]].a['x']
                    if p[0] == 'loc' and p[1] in phis:
                        g = term(q, t)
                        if g is None or q == p: continue
                        sid = (p[1], str(q))
                        if sid in seen: continue
                        seen.add(sid)
                        n = p[1]
                        if t[0] == 'int' and t[1] == 1: continue
                        if self.mode == 'int':
                            out.append(('auto:%s <= %s' % sid, lambda L, n=n, g=g: L.val(n) <= g(L)))
                            out.append(('auto:%s < %s' % sid, lambda L, n=n, g=g: L.val(n) < g(L)))
                            out.append(('auto:%s >= %s' % sid, lambda L, n=n, g=g: L.val(n) >= g(L)))
                        else:
                            out.append(('auto:%s <= %s' % sid, lambda L, n=n, g=g: z3.ULE(L.val(n), g(L))))
        return out

    def bound_terms(self, L, fr, tgt):
        body = fr.fn.loops()[tgt]
        defs = {i.res for b in body for i in fr.fn.blocks[b] if i.res}
        out = []; seen = set()
        for b in body:
            for ins in fr.fn.blocks[b]:
                if ins.op != 'icmp' or ins.a['oty'][0] != 'int': continue
                for v in (ins.a['x'], ins.a['y']):
                    if v[0] == 'loc' and v[1] not in defs and v[1] in fr.regs and v[1] not in seen:
                        seen.add(v[1]); out.append((v[1], lambda L, r=v[1]: L.fr.regs[r]))
                    if v[0] == 'const' and v[1] > 0 and v[1] not in seen:
                        seen.add(v[1]); out.append((str(v[1]), lambda L, c=v[1]: z3.IntVal(c)))
        for n, (t, v) in L.phis.items():
            if t[0] == 'int': out.append(('init ' + n, lambda L, n=n: L.init(n)))
        return out

    # -------------------------------------------------- calls
    def call(self, st, fr, ins):
        cal = ins.a['callee']
        name = None; home = fr.mod
        if cal[0] == 'glob': name = cal[1]
        args = []
        for ty, v, attrs in ins.a['args']:
            if ty[0] in ('metadata', 'fp'): args.append(None); continue
            x = self.value(st, fr.mod, ty, v, fr.regs)
            if 'byval' in attrs:
                n = fr.mod.sizeof(attrs['byval'])
                r = self.new_region(st, 'byval', self.ops.const(n, 64))
                fr.allocas += (r.tag,)
                olds = dict(st.heap)
                src = x
                self.range_update(st, r.lo, self.ops.const(n, 64), lambda w, a: z3.Select(olds[w], z3.simplify(a - r.lo + src)))
                x = r.lo
            args.append(x)
        if name is None:
            fp = self.value(st, fr.mod, ('ptr',), cal, fr.regs)
            # resolve a function address
            for key, (c, m, n) in self.gaddr.items():
                if key.startswith('fn!') and (fp.eq(c) or self.entails(st, fp == c)):
                    name = n; home = m; break
            if name is None:
                r = self.c.indirect(self, st, fp, args, ins)
                if r is NotImplemented: raise ToolLimit('indirect call in %s' % fr.fn.name)
                return self.after_call(st, fr, ins, r)
        # intrinsics and libc
        if name.startswith('llvm.'):
            r = self.intrinsic(st, name, args, ins)
            return self.after_call(st, fr, ins, r)
        h = self.c.handler(name)
        if h is not None:
            self.used_contracts.add(name)
            r = h(self, st, args, ins)
            if r is not NotImplemented:
                return self.after_call(st, fr, ins, r)
        m2, f2 = self.prog.find(home, name)
        if f2 is not None:
            if len(st.frames) > 16 or sum(1 for x in st.frames if x.fn is f2) > 1:
                raise ToolLimit('recursion in ' + name)
            self.inlined.add(name)
            nf = Frame(m2, f2, fr.path + '>' + name + '@%s' % (self.callsite(fr, ins)))
            fixed = len(f2.args)
            for (ty, an, attrs), v in zip(f2.args, args): nf.regs[an] = v
            nf.va = list(zip([t for t, _, _ in ins.a['args']][fixed:], args[fixed:]))
            nf.resreg = ins.res
            st.frames.append(nf)
            return None
        from . import libc
        h = libc.HANDLERS.get(name)
        if h is None: raise ToolLimit('no contract for external function ' + name)
        self.externals.add(name)
        r = h(self, st, args, ins)
        return self.after_call(st, fr, ins, r)
    def callsite(self, fr, ins):
        n = 0
        for b in fr.fn.order:
            for x in fr.fn.blocks[b]:
                if x is ins: return n
                if x.op == 'call': n += 1
        return 0
    def after_call(self, st, fr, ins, r):
        if isinstance(r, End): return []
        if isinstance(r, Fork):
            out = []
            for s, v in r.alts:
                f2 = s.frames[-1]
                if ins.res is not None: f2.regs[ins.res] = v
                f2.pc += 1
                out.append(s)
            return out
        if ins.res is not None:
            if r is None:
                rt = fr.mod.resolve(ins.ty)
                if rt[0] == 'fp': fr.regs[ins.res] = None
                else:
                    bits = 64 if rt[0] == 'ptr' else rt[1]
                    r = self.ops.fresh('ret', bits); self.assume(st, self.ops.range_fact(r, bits))
            fr.regs[ins.res] = r
        fr.pc += 1
        return None
    def intrinsic(self, st, name, a, ins):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            if name.startswith('llvm.memcpy'):
                # overlap is undefined behaviour
                d, s, n = a[0], a[1], a[2]
                if self.mode == 'int':
                    self.check(st, 'memcpy operands do not overlap', z3.Or(n == 0, d == s, d + n <= s, s + n <= d), 'safety')
            self.memcpy(st, a[0], a[1], a[2]); return None
        if name.startswith('llvm.memset'):
            self.memset(st, a[0], a[1], a[2]); return None
        if name.startswith(('llvm.lifetime', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.assume', 'llvm.va_end', 'llvm.va_start', 'llvm.va_copy', 'llvm.prefetch')):
            if name.startswith('llvm.stacksave'): return self.ops.const(0, 64)
            return None
        if name.startswith('llvm.threadlocal.address'): return a[0]      # the calling thread's copy
        if name.startswith('llvm.expect'): return a[0]
        if name.startswith('llvm.bswap') and self.mode == 'bv':
            v = a[0]; n = v.size() // 8
            return z3.simplify(z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, v) for i in range(n)]))
        if name.startswith('llvm.bswap'):
            bits = ins.ty[1]; v = a[0]; n = bits // 8
            return sum(((v / (1 << (8 * i))) % 256) * (1 << (8 * (n - 1 - i))) for i in range(n))
        if name.startswith('llvm.fshl') and self.mode == 'bv':
            x, y, s = a; n = x.size()
            return z3.simplify(z3.Extract(2 * n - 1, n, z3.Concat(x, y) << z3.ZeroExt(n, z3.URem(s, z3.BitVecVal(n, n)))))
        if name.startswith(('llvm.umin', 'llvm.umax')):
            lt = self.ops.cmp('ult', a[0], a[1], ins.ty[1])
            return self.ops.ite(lt, a[0], a[1]) if 'umin' in name else self.ops.ite(lt, a[1], a[0])
        if name.startswith('llvm.is.constant'): return self.ops.const(0, 1)
        if name.startswith('llvm.objectsize'): return self.ops.const(-1, 64)
        if name == 'llvm.trap': return self.noreturn(st, 'trap')
        raise ToolLimit('intrinsic ' + name)
    def noreturn(self, st, what):
        self.obls.append(self.mk(st, '%s is never reached' % what, z3.BoolVal(False), 'safety'))
        return End()
    # -------------------------------------------------- ghost logs
    def log(self, st, name, *vals):
        if name not in st.logs:
            st.logs[name] = (z3.IntVal(0), [z3.K(z3.IntSort(), z3.IntVal(0)) for _ in vals])
        ln, arrs = st.logs[name]
        st.logs[name] = (z3.simplify(ln + 1), [z3.Store(a, ln, v) for a, v in zip(arrs, vals)])
        self.touch(st, ('log', name))
    def set_ghost(self, st, name, v):
        st.ghost[name] = v
        self.touch(st, ('ghost', name))
    def set_region(self, st, tag, **kw):
        st.regions[tag] = st.regions[tag].clone(**kw)
        self.touch(st, ('region', tag))
    # -------------------------------------------------- exit
    def finish(self, st, rv):
        self.paths += 1
        self.exits.append(list(st.facts))
        self.c.end(self, st, rv)

class End:
    pass
class Fork:
    def __init__(self, alts): self.alts = alts

class LoopInst:
    def __init__(self, key, unroll=None):
        self.key = key; self.unroll = unroll
        self.k = None
    def next(self):
        i = LoopInst(self.key, self.unroll + 1)
        return i

def mentions(t, x):
    if t.eq(x): return True
    xid = x.get_id()
    st = [t]; seen = set()
    while st:
        y = st.pop()
        i = y.get_id()
        if i == xid: return True
        if i in seen: continue
        seen.add(i); st += y.children()
    return False
def is_store(h): return z3.is_app(h) and h.decl().kind() == z3.Z3_OP_STORE
def base_heap(h):
    while is_store(h): h = h.arg(0)
    return h
def has_fresh(a):
    return True
def set_idx(x, idx, v):
    x = list(x) if x is not None else []
    if len(idx) == 1: x[idx[0]] = v
    else: x[idx[0]] = set_idx(x[idx[0]], idx[1:], v)
    return x
