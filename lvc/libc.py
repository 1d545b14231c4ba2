"""Assumed contracts of the C library functions that libcork calls (trusted base)."""
import z3
from .ops import cval
from .exec import End, Fork, Region, ToolLimit, forall

HANDLERS = {}
def libc(*names):
    def d(f):
        for n in names: HANDLERS[n] = f
        return f
    return d

@libc('abort', '__assert_fail', 'cork_abort_')
def _abort(ex, st, a, ins):
    """an assertion or abort on a path that satisfies the precondition is a violation"""
    return ex.noreturn(st, 'abort / failed assertion')
@libc('exit', '_exit')
def _exit(ex, st, a, ins): return End()

def new_block(ex, st, size, tag='heap', kind=('any',)):
    return ex.new_region(st, tag, size, kind, heap=True)
def havoc_new(ex, st): pass

@libc('malloc')
def _malloc(ex, st, a, ins):
    s2 = st.clone()
    r = new_block(ex, st, a[0])
    return Fork([(st, r.lo), (s2, ex.ops.const(0, 64))])
@libc('free')
def _free(ex, st, a, ins):
    release(ex, st, a[0], None, True)
    return None
def find_block(ex, st, p):
    for t, r in sorted(st.regions.items(), key=lambda x: 0 if (not x[1].family and x[1].lo.eq(p)) else 1):
        if r.family or not r.heap: continue
        if ex.entails(st, r.lo == p): return t
    return None
def release(ex, st, p, size, null_ok):
    """p is handed back: it must be a live heap block, and (when size is given) of exactly that size"""
    if null_ok and ex.entails(st, p == 0): return
    t = find_block(ex, st, p)
    if t is None:
        ex.check(st, 'released pointer is a live heap block', z3.BoolVal(False) if not null_ok else p == 0, 'safety')
        return
    r = st.regions[t]
    if size is not None:
        ex.check(st, 'block is released with the size it was allocated with', size == r.size, 'safety')
    del st.regions[t]
    st.ghost['freed:' + t] = z3.BoolVal(True)

@libc('strlen')
def _strlen(ex, st, a, ins):
    p = a[0]
    for q, n in st.zstr:
        if q.eq(p) or ex.entails(st, q == p):
            i = ex.ops.fconst(ex.ops.addr_sort, 'i')
            h = st.heap[1]
            if ex.mode == 'int':
                ex.check(st, 'strlen argument is NUL terminated', z3.And(z3.Select(h, p + n) == 0), 'safety')
                ex.check(st, 'strlen argument has no earlier NUL', forall([i], z3.Implies(z3.And(p <= i, i < p + n), z3.Select(h, i) != 0), pats=[z3.Select(h, i)]), 'safety')
            else:
                pass
            return n
    raise ToolLimit('strlen of an unknown string')

def eq_range(ex, h, p, q, n, i):
    return z3.Select(h, p + i) == z3.Select(h, q + i)

@libc('memcmp', 'bcmp')
def _memcmp(ex, st, a, ins):
    p, q, n = a
    ex.check_range(st, p, n, False, 'memcmp')
    ex.check_range(st, q, n, False, 'memcmp')
    return compare(ex, st, p, q, n)
def compare(ex, st, p, q, n):
    """result r of a byte comparison of n bytes: r == 0 iff all equal; otherwise the sign of the first difference"""
    h = st.heap[1]
    r = ex.ops.fresh('memcmp', 32)
    ex.assume(st, ex.ops.range_fact(r, 32))
    if ex.mode != 'int': raise ToolLimit('memcmp in bv mode')
    i = ex.ops.fconst(z3.IntSort(), 'i'); d = ex.ops.fconst(z3.IntSort(), 'd')
    eqs = lambda hi, pat: forall([i], z3.Implies(z3.And(p <= i, i < hi), z3.Select(h, i) == z3.Select(h, i - p + q)), pats=[z3.Select(h, i)])
    i2 = ex.ops.fconst(z3.IntSort(), 'i')
    ex.assume(st, z3.Implies(r == 0, eqs(p + n, 0)))
    ex.assume(st, z3.Implies(r == 0, forall([i2], z3.Implies(z3.And(q <= i2, i2 < q + n), z3.Select(h, i2) == z3.Select(h, i2 - q + p)), pats=[z3.Select(h, i2)])))
    ex.assume(st, z3.Implies(r != 0, z3.And(0 <= d, d < n, z3.Select(h, p + d) != z3.Select(h, q + d), eqs(p + d, 0))))
    ex.assume(st, z3.Implies(r != 0, (r >= (1 << 31)) == (z3.Select(h, p + d) < z3.Select(h, q + d))))
    for x in (p + d, q + d): ex.assume(st, ex.ops.range_fact(z3.Select(h, x), 8))
    return r
