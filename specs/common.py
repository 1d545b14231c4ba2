"""Contracts of the allocation layer used by every other module (the functions themselves are the
subject of C22): a fresh block of exactly the requested size, and every block handed back with
exactly the size it was allocated with."""
from lvc.spec import *
from lvc import libc

def mulsize(P, c, s):
    if P.int:
        v = z3.simplify(c * s); P.assume(v < ADDR_MAX); return v
    P.assume(z3.ULT(z3.ZeroExt(64, c) * z3.ZeroExt(64, s), z3.BitVecVal(ADDR_MAX, 128)))
    return z3.simplify(c * s)
def block(P, n, tag='heap'):
    P.assume(n < ADDR_MAX if P.int else z3.ULT(n, ADDR_MAX))       # otherwise the process is aborted
    r = P.ex.new_region(P.st, tag, n, ('any',), heap=True)
    P.st.ghost['last_block'] = r.lo
    return r
def fork_null(P, mk):
    """recoverable allocation: either succeeds or returns NULL leaving everything as it was"""
    s2 = P.st.clone()
    v = mk(P)
    return Fork([(P.st, v), (s2, P.ex.ops.const(0, 64))])
def zero_fill(P, r):
    P.ex.range_update(P.st, r.lo, r.size, lambda w, a: z3.IntVal(0) if P.int else z3.BitVecVal(0, 8))
def malloc(P, n): return block(P, n).lo
def calloc(P, c, s):
    r = block(P, mulsize(P, c, s)); zero_fill(P, r); return r.lo
def realloc(P, p, old, new):
    """contents up to the smaller size are kept, the old block is released with its size"""
    ex, st = P.ex, P.st
    if P.entails(p == 0): return block(P, new).lo
    t = libc.find_block(ex, st, p)
    if t is None:
        ex.check(st, 'reallocated pointer is a live heap block', z3.BoolVal(False), 'safety'); return block(P, new).lo
    r0 = st.regions[t]
    ex.check(st, 'block is reallocated with the size it was allocated with', old == r0.size, 'safety')
    r = block(P, new)
    olds = dict(st.heap)
    n = z3.If(old < new, old, new) if P.int else z3.If(z3.ULT(old, new), old, new)
    if P.entails(old <= new if P.int else z3.ULE(old, new)): n = old
    elif P.entails(new <= old if P.int else z3.ULE(new, old)): n = new
    ws = ex.region_widths(r0)
    if r0.kind[0] != 'any': r.kind = ('bytes',) if r0.kind[0] == 'bytes' else r.kind
    ex.range_update(st, r.lo, n, lambda w, a: z3.Select(olds[w], z3.simplify(a - r.lo + r0.lo)), ws)
    st.regions.pop(t)
    st.regions.pop(r.tag)
    st.regions[t] = r.clone(tag=t, kind=r0.kind)      # the tag follows the block
    ex.touch(st, ('region', t))
    return r.lo
def h_malloc(P, a, ins): return malloc(P, a[1])
def h_calloc(P, a, ins): return calloc(P, a[1], a[2])
def h_realloc(P, a, ins): return realloc(P, a[1], a[2], a[3])
def h_xmalloc(P, a, ins): return fork_null(P, lambda P: malloc(P, a[1]))
def h_xcalloc(P, a, ins): return fork_null(P, lambda P: calloc(P, a[1], a[2]))
def h_xrealloc(P, a, ins): return fork_null(P, lambda P: realloc(P, a[1], a[2], a[3]))
def h_xreallocf(P, a, ins):
    s2 = P.st.clone()
    v = realloc(P, a[1], a[2], a[3])
    libc.release(P.ex, s2, a[1], a[2], True)
    return Fork([(P.st, v), (s2, P.ex.ops.const(0, 64))])
def h_free(P, a, ins): libc.release(P.ex, P.st, a[1], a[2], False)
def h_cfree(P, a, ins):
    libc.release(P.ex, P.st, a[1], z3.simplify(a[2] * a[3]), False)

def strblock(P, src, n):
    """duplicate of the n bytes at src, NUL terminated, in a block released by strfree"""
    ex, st = P.ex, P.st
    P.assume(n + 9 < ADDR_MAX)
    r = P.ex.new_region(st, 'str', n + 9, ('bytes',), heap=True)
    # the string proper starts after the length word
    p = z3.simplify(r.lo + 8)
    ex.check_range(st, src, n, False, 'string to duplicate')
    olds = dict(st.heap)
    ex.range_update(st, p, n, lambda w, a: z3.Select(olds[1], z3.simplify(a - p + src)), {1})
    ex.hwrite(st, 1, z3.simplify(p + n), I(0))
    P.st.ghost['str:' + r.tag] = p
    st.zstr = st.zstr + [(p, n)]
    return p
def h_strdup(P, a, ins):
    n = libc.HANDLERS['strlen'](P.ex, P.st, [a[1]], ins)
    return strblock(P, a[1], n)
def h_strndup(P, a, ins): return strblock(P, a[1], a[2])
def h_strfree(P, a, ins):
    p = a[1]
    for t, r in list(P.st.regions.items()):
        if not r.family and r.heap and (t.startswith('str')) and P.entails(r.lo + 8 == p):
            del P.st.regions[t]; P.ex.touch(P.st, ('region', t)); return
    P.ex.check(P.st, 'strfree is given a live duplicated string', z3.BoolVal(False), 'safety')

ALLOC = {'cork_alloc_malloc': h_malloc, 'cork_alloc_calloc': h_calloc, 'cork_alloc_realloc': h_realloc,
         'cork_alloc_xmalloc': h_xmalloc, 'cork_alloc_xcalloc': h_xcalloc, 'cork_alloc_xrealloc': h_xrealloc,
         'cork_alloc_xreallocf': h_xreallocf, 'cork_alloc_free': h_free, 'cork_alloc_cfree': h_cfree,
         'cork_alloc_strdup': h_strdup, 'cork_alloc_strndup': h_strndup, 'cork_alloc_strfree': h_strfree}

def live(P, tag): return tag in P.st.regions
def frame(P, inside, what='nothing else is changed'):
    """every pre-existing cell outside `inside` keeps its value (freshly allocated blocks excepted)"""
    a = z3.Int('a!u') if P.int else z3.BitVec('a!u', 64)
    fresh = [r for t, r in P.st.regions.items() if t not in P.ex.st_entry.regions and not r.family]
    for w in ((8, 4, 2, 1) if P.int else (1,)):
        if P.H(w).eq(P.H0(w)): continue
        ok = [inside(a)] + [P.ex.within(r, a, I(1) if P.int else z3.BitVecVal(1, 64)) for r in fresh]
        # only cells of objects the function may know about count
        known = [r.contains(a) if P.int else P.ex.within(r, a, z3.BitVecVal(1, 64)) for r in P.ex.st_entry.regions.values()]
        P.ensure(what, FA([a], Imp(z3.And(z3.Or(known), z3.Not(z3.Or(ok))), Sel(P.H(w), a) == Sel(P.H0(w), a))))
def owned(P, ptr, size, name='the storage is a live heap block of the recorded size'):
    rs = [r for r in P.st.regions.values() if not r.family and r.heap]
    P.ensure(name, z3.Or([z3.And(r.lo == ptr, r.size == size) for r in rs]) if rs else z3.BoolVal(False))
