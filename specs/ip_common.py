"""Reference grammar of IPv4 text as a left-to-right recursive specification over string positions:
  val(p)  number denoted by the decimal digits since the last dot      seen(p) whether there is one
  oct(p)  dots before p           R_k(p) value of the k-th octet        ok(p)   every character before p is acceptable
All are definitions (ok(p) := every q < p is acceptable); the loop invariants tie the code's variables to them."""
from lvc.spec import *
S64 = z3.BitVecSort(64)
def BV(n, w): return z3.BitVecVal(n, w)
def Fn(name, w): return z3.Function(name, S64, z3.BitVecSort(w) if w else z3.BoolSort())
val, octs, seen, ok4 = Fn('val4', 32), Fn('oct4', 32), Fn('seen4', 0), Fn('ok4', 0)
R = [Fn('R%d' % k, 32) for k in range(3)]
def ch(P, p): return Sel(P.H0(1), z3.simplify(p))
def digit(c): return z3.And(z3.ULE(BV(48, 8), c), z3.ULE(c, BV(57, 8)))
def good4(P, p):
    c = ch(P, p); v = val(p) * 10 + z3.ZeroExt(24, c) - 48
    return z3.Or(z3.And(digit(c), z3.ULE(v, BV(255, 32))), z3.And(c == 46, seen(p), z3.ULT(octs(p), BV(3, 32))))
def start4(P, s):
    P.assume(z3.And(val(s) == 0, z3.Not(seen(s)), octs(s) == 0, ok4(s)))
def unfold4(P, s, end, p):
    """the definitions at position p of the string [s, end)"""
    p = z3.simplify(p); q = z3.simplify(p + 1)
    inside = z3.And(z3.ULE(s, p), z3.ULT(p, end))
    c = ch(P, p)
    v = val(p) * 10 + z3.ZeroExt(24, c) - 48
    f = [val(q) == z3.If(digit(c), v, BV(0, 32)), seen(q) == digit(c), octs(q) == z3.If(c == 46, octs(p) + 1, octs(p)), ok4(q) == z3.And(ok4(p), good4(P, p))]
    f += [R[k](q) == z3.If(z3.And(c == 46, octs(p) == k), val(p), R[k](p)) for k in range(3)]
    for x in f: P.assume(Imp(inside, x))
    P.assume(Imp(z3.And(z3.ULE(s, p), z3.ULE(p, end), ok4(end)), ok4(p)))
    P.assume(Imp(z3.And(inside, ok4(end)), ok4(q)))
def accepted4(end): return z3.And(ok4(end), seen(end), octs(end) == 3)
def octets(end): return [z3.Extract(7, 0, f(end)) for f in R] + [z3.Extract(7, 0, val(end))]

def cstring(P, s):
    """a NUL-terminated string of arbitrary length at s; returns the address of its terminator"""
    n = P.fresh('strlen', 64)
    P.assume(z3.ULT(n, BV(1 << 62, 64)))
    P.region('str', s, z3.simplify(n + 1), writable=False)
    return z3.simplify(s + n)
def text_at(P, s, end, p):
    P.assume(Imp(z3.And(z3.ULE(s, p), z3.ULT(p, end)), ch(P, p) != 0))
    P.assume(ch(P, end) == 0)
def h_error(P, a, ins):
    P.gset('err', z3.BoolVal(True)); P.gset('errcode', a[0])
ERR = {'cork_error_set_printf': h_error}
def no_error(P): P.gset('err', z3.BoolVal(False)); P.gset('errcode', BV(0, 32))
def positions(L, s):
    out = []
    for n in L.ptrs():
        if z3.simplify(L.init(n) - s).eq(BV(0, 64)): out.append((n, lambda L, n=n: L.val(n)))
    for n in L.ints():
        b = L.phis[n][0][1]
        if b in (32, 64) and cval(L.init(n)) == 0:
            if b == 64: out.append((n, lambda L, n=n: s + L.val(n)))
            elif not out: out.append((n, lambda L, n=n: s + z3.ZeroExt(32, L.val(n))))
    return out
def b2i(f, w): return z3.If(f, BV(1, w), BV(0, w))
def stack_regions(L, size): return [r for t, r in L.st.regions.items() if t.startswith('stack:') and cval(r.size) == size]
def inv4(L, s, end):
    out = []
    for nm, f in positions(L, s):
        def rng(L, f=f):
            P = L.ctx; p = z3.simplify(f(L))
            unfold4(P, s, end, p); text_at(P, s, end, p)
            return z3.And(z3.ULE(s, p), z3.ULE(p, end))
        out.append(('%s within the string' % nm, rng))
        out.append(('everything before %s is acceptable' % nm, lambda L, f=f: z3.And(ok4(z3.simplify(f(L))), z3.ULE(octs(z3.simplify(f(L))), BV(3, 32)))))
        for h in L.ints(32):
            out.append(('%s is the octet value at %s' % (h, nm), lambda L, h=h, f=f: z3.And(L.val(h) == val(z3.simplify(f(L))), z3.ULE(L.val(h), BV(255, 32)))))
            out.append(('%s is the octet count at %s' % (h, nm), lambda L, h=h, f=f: L.val(h) == octs(z3.simplify(f(L)))))
        for h in L.ints(64): out.append(('%s counts digits at %s' % (h, nm), lambda L, h=h, f=f: z3.And(z3.ULE(L.val(h), z3.simplify(f(L)) - s), (L.val(h) != BV(0, 64)) == seen(z3.simplify(f(L))))))
        for h in L.ints(8): out.append(('%s: digit seen at %s' % (h, nm), lambda L, h=h, f=f: L.val(h) == b2i(seen(z3.simplify(f(L))), 8)))
        for r in stack_regions(L, 4):
            for k in range(3):
                out.append(('octet %d is stored (%s)' % (k, nm), lambda L, r=r, k=k, f=f: Imp(z3.UGT(octs(z3.simplify(f(L))), BV(k, 32)), Sel(L.H(1), z3.simplify(r.lo + k)) == z3.Extract(7, 0, R[k](z3.simplify(f(L)))))))
    return out
def unchanged(P, lo, n): return z3.And([Sel(P.H(1), z3.simplify(lo + i)) == Sel(P.H0(1), z3.simplify(lo + i)) for i in range(n)])
