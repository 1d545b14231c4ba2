"""C18: IPv6 text.  Reference grammar as an automaton over string positions; state before position p:
  n(p) completed groups, d(p)/v(p) digits and value of the current group, sep(p) what precedes it (0 start of the text,
  1 a first colon, 2 a single colon, 3 a double colon), dc(p) a double colon was seen, b(p) groups before it, g_k(p) k-th group.
fd is the position of the first dot (or the end); the dotted part starts with the current group's digits and is judged by C17's contract."""
from .ip_common import *
from lvc.exec import ToolLimit
N, D, B_ = Fn('n6', 32), Fn('d6', 32), Fn('b6', 32)
V, SEP, DC, OK = Fn('v6', 16), Fn('sep6', 8), Fn('dc6', 0), Fn('ok6', 0)
G = [Fn('g6_%d' % k, 16) for k in range(8)]
V4 = Fn('V4', 0); W = [Fn('W4_%d' % k, 8) for k in range(4)]
S = z3.simplify
CONTENTS = False        # the stored groups: too expensive for the back ends within a check's time; bounded instead (see BOUNDED)
def rng8(c, lo, hi): return z3.And(z3.ULE(BV(ord(lo), 8), c), z3.ULE(c, BV(ord(hi), 8)))
def hexv(c):
    x = z3.ZeroExt(8, c)
    return z3.If(rng8(c, '0', '9'), x - 48, z3.If(rng8(c, 'a', 'f'), x - 87, x - 55))
def is_hex(c): return z3.Or(rng8(c, '0', '9'), rng8(c, 'a', 'f'), rng8(c, 'A', 'F'))
def start6(P, s):
    P.assume(z3.And(N(s) == 0, D(s) == 0, B_(s) == 0, V(s) == 0, SEP(s) == 0, z3.Not(DC(s)), OK(s)))
def good6(P, p):
    c = ch(P, p)
    colon = z3.Or(z3.And(D(p) != 0, z3.ULT(N(p), BV(8, 32))), z3.And(D(p) == 0, z3.Or(SEP(p) == 0, SEP(p) == 1, z3.And(SEP(p) == 2, z3.Not(DC(p))))))
    return z3.Or(z3.And(is_hex(c), z3.ULT(D(p), BV(4, 32)), SEP(p) != 1), z3.And(c == 58, colon))
def unfold6(P, s, end, fd, p):
    p = S(p); q = S(p + 1); c = ch(P, p)
    inside = z3.And(z3.ULE(s, p), z3.ULT(p, fd))
    h = is_hex(c); close = z3.And(c == 58, D(p) != 0); dbl = z3.And(c == 58, D(p) == 0, z3.Or(SEP(p) == 1, SEP(p) == 2)); lead = z3.And(c == 58, D(p) == 0, SEP(p) == 0)
    f = [N(q) == z3.If(close, N(p) + 1, N(p)), D(q) == z3.If(h, D(p) + 1, BV(0, 32)), V(q) == z3.If(h, (V(p) << 4) | hexv(c), BV(0, 16)),
         SEP(q) == z3.If(h, SEP(p), z3.If(close, BV(2, 8), z3.If(dbl, BV(3, 8), z3.If(lead, BV(1, 8), BV(4, 8))))),
         DC(q) == z3.Or(DC(p), dbl), B_(q) == z3.If(dbl, N(p), B_(p)), OK(q) == z3.And(OK(p), good6(P, p))]
    f += [G[k](q) == z3.If(z3.And(close, N(p) == k), V(p), G[k](p)) for k in range(8)]
    for x in f: P.assume(Imp(inside, x))
    for r in (p, q): P.assume(Imp(z3.And(z3.ULE(s, r), z3.ULE(r, fd), OK(fd)), OK(r)))
    P.assume(Imp(z3.And(z3.ULE(s, p), z3.ULT(p, end)), z3.And(c != 0, Imp(z3.ULT(p, fd), c != 46))))
    P.assume(Imp(p == fd, z3.Or(p == end, c == 46)))
    P.assume(ch(P, end) == 0)
def final(end, fd):
    """(accepted, groups) for the whole text"""
    tail = fd != end
    n, d, b, dc = N(fd), D(fd), B_(fd), DC(fd)
    dig = z3.And(z3.Not(tail), d != 0)
    gs = S(fd - z3.ZeroExt(32, d))
    total = n + z3.If(tail, BV(2, 32), z3.If(d != 0, BV(1, 32), BV(0, 32)))
    acc = z3.And(OK(fd), z3.Implies(tail, V4(gs)), z3.If(tail, z3.ULE(n, BV(6, 32)), z3.Or(d != 0, SEP(fd) == 3)), z3.If(dc, z3.ULE(total, BV(7, 32)), total == 8))
    seq = []
    for k in range(8):
        w0 = z3.Concat(W[0](gs), W[1](gs)); w1 = z3.Concat(W[2](gs), W[3](gs))
        seq.append(z3.If(z3.ULT(BV(k, 32), n), G[k](fd), z3.If(n == k, z3.If(tail, w0, V(fd)), w1)))
    out = []
    for j in range(8):
        r = BV(0, 16)
        for m in range(8):        # j-th group is the m-th written one, counting the part after the double colon from the end
            r = z3.If(z3.And(z3.UGE(BV(m, 32), b), z3.ULT(BV(m, 32), total), BV(j, 32) == BV(8 + m, 32) - total), seq[m], r)
        out.append(z3.If(z3.Or(z3.Not(dc), z3.ULT(BV(j, 32), b)), seq[j], r))
    return acc, out, total
def pre6(P):
    addr, s = P.args
    P.region('addr', addr, 16)
    end = cstring(P, s); P.g['end'] = end
    fd = P.fresh('first_dot', 64); P.g['fd'] = fd
    P.assume(z3.And(z3.ULE(s, fd), z3.ULE(fd, end)))
    start6(P, s); no_error(P)
    P.gset('tail', z3.BoolVal(False))
    unfold6(P, s, end, fd, s)
def h_parse4(P, a, ins):
    """C17: cork_ipv4_parse(dest, text) returns the end of the text and stores the four octets, or NULL with a parse error"""
    dest, t = a; end = P.g['end']; s = P.args[1]
    P.require('the text lies in the string', z3.And(z3.ULE(s, t), z3.ULE(t, end)))
    reg = P.ex.check_range(P.st, dest, BV(4, 64), True, 'IPv4 target')
    s2 = P.st.clone(); P2 = P.at(s2)
    P.assume(V4(t)); P2.assume(z3.Not(V4(t)))
    P.assume(ch(P, t) != 46); P.assume(t != end)
    for k in range(4): P.ex.hwrite(P.st, 1, S(dest + k), W[k](t), reg)
    P.gset('tail', z3.BoolVal(True))
    P2.gset('err', z3.BoolVal(True)); P2.gset('errcode', BV(0x95dfd3c8, 32))
    return Fork([(P.st, end), (s2, BV(0, 64))])
def inv6(L):
    P0 = L.ctx; s = P0.args[1]; end = P0.g['end']; fd = P0.g['fd']
    out = []
    tl = lambda L: L.ctx.gget('tail')
    if 'tail' not in P0.st.ghost: return out
    out.append(('no error so far', lambda L: z3.Not(L.ctx.gget('err'))))
    stacks = stack_regions(L, 16)
    for i in range(16): out.append(('byte %d of the target is unchanged' % i, lambda L, i=i: Sel(L.H(1), S(P0.args[0] + i)) == Sel(L.H0(1), S(P0.args[0] + i))))
    for nm, f in positions(L, s):
        def cur(L, f=f): return z3.If(tl(L), fd, S(f(L)))
        def rng(L, f=f):
            P = L.ctx; p = S(f(L))
            unfold6(P, s, end, fd, p); unfold6(P, s, end, fd, fd)
            return z3.And(z3.ULE(s, p), z3.If(tl(L), z3.And(p == end, fd != end), z3.ULE(p, fd)))
        out.append(('%s within the string' % nm, rng))
        # state at the current position c = cur
        st = lambda L, F, cur=cur: z3.If(tl(L), F(fd), F(S(f(L)))) if True else None
        def at(F, f=f): return lambda L: z3.If(tl(L), F(fd), F(S(f(L))))
        n, d, v, sep, dc, b, ok = [at(F) for F in (N, D, V, SEP, DC, B_, OK)]
        out.append(('text before %s is acceptable' % nm, ok))
        out.append(('state ranges (%s)' % nm, lambda L: z3.And(z3.ULE(n(L), BV(8, 32)), z3.ULE(d(L), BV(4, 32)), z3.ULE(sep(L), BV(3, 8)), z3.ULE(b(L), n(L)), Imp(sep(L) == 3, dc(L)),
                    Imp(z3.Not(dc(L)), b(L) == 0), Imp(z3.ULE(sep(L), BV(1, 8)), z3.And(n(L) == 0, z3.Not(dc(L)))), Imp(sep(L) == 2, n(L) != 0), Imp(sep(L) == 3, n(L) == b(L)), Imp(d(L) == 0, v(L) == 0), Imp(sep(L) == 1, d(L) == 0))))
        out.append(('digits lie in the text (%s)' % nm, lambda L, f=f: z3.ULE(z3.ZeroExt(32, d(L)), z3.If(tl(L), fd, S(f(L))) - s)))
        out.append(('dotted part accepted (%s)' % nm, lambda L: Imp(tl(L), z3.And(V4(S(fd - z3.ZeroExt(32, D(fd)))), z3.ULE(N(fd), BV(6, 32))))))
        for h in L.ints(32):
            out.append(('%s counts groups at %s' % (h, nm), lambda L, h=h: L.val(h) == n(L) + z3.If(tl(L), BV(2, 32), BV(0, 32))))
            out.append(('%s counts digits at %s' % (h, nm), lambda L, h=h: L.val(h) == z3.If(tl(L), BV(0, 32), d(L))))
            out.append(('%s: groups before the double colon at %s' % (h, nm), lambda L, h=h: Imp(dc(L), L.val(h) == b(L))))
        for h in L.ints(16): out.append(('%s is the group value at %s' % (h, nm), lambda L, h=h: Imp(z3.Not(tl(L)), L.val(h) == v(L))))
        for h in L.ints(8):
            for what, f8 in (('another required', lambda L: z3.And(sep(L) != 3, z3.Not(tl(L)))), ('digit allowed', lambda L: Imp(z3.Not(tl(L)), sep(L) != 1) if False else sep(L) != 1),
                             ('colon allowed', lambda L: z3.Or(d(L) != 0, sep(L) == 0, sep(L) == 1, z3.And(sep(L) == 2, z3.Not(dc(L))))), ('double colon allowed', lambda L: z3.Not(dc(L))),
                             ('just saw a colon', lambda L: z3.And(d(L) == 0, sep(L) != 0))):
                out.append(('%s: %s at %s' % (h, what, nm), lambda L, h=h, f8=f8: L.val(h) == b2i(f8(L), 8)))
        for ptr in L.ptrs():
            for A in stacks:
                if not S(L.init(ptr) - A.lo).eq(BV(0, 64)): continue
                for C in stacks:
                    if C is A: continue
                    x2 = lambda e: z3.ZeroExt(32, e) * 2
                    out.append(('%s is where the next group goes (%s)' % (ptr, nm), lambda L, ptr=ptr, A=A, C=C: L.val(ptr) == z3.If(dc(L), C.lo + x2(n(L) - b(L)), A.lo + x2(n(L)))))
                    for k in range(8 if CONTENTS else 0):
                        def grp(L, k=k, A=A, C=C, f=f):
                            g = z3.If(tl(L), G[k](fd), G[k](S(f(L)))); H = L.H(1)
                            wrd = lambda r, i: z3.Concat(Sel(H, S(r.lo + 2 * i)), Sel(H, S(r.lo + 2 * i + 1)))
                            inA = Imp(z3.And(z3.ULT(BV(k, 32), n(L)), z3.Or(z3.Not(dc(L)), z3.ULT(BV(k, 32), b(L)))), wrd(A, k) == g)
                            inC = [Imp(z3.And(z3.ULT(BV(k, 32), n(L)), dc(L), b(L) == k - i), wrd(C, i) == g) for i in range(k + 1)]
                            return z3.And(inA, *inC)
                        out.append(('group %d is stored (%s)' % (k, nm), grp))
                    for i in range(7 if CONTENTS else 0):
                        def quadA(L, A=A, i=i):
                            H = L.H(1); gs = S(fd - z3.ZeroExt(32, D(fd)))
                            return z3.And([Imp(z3.And(tl(L), z3.Not(DC(fd)), N(fd) == i), Sel(H, S(A.lo + 2 * i + j)) == W[j](gs)) for j in range(4)])
                        def quadC(L, C=C, i=i):
                            H = L.H(1); gs = S(fd - z3.ZeroExt(32, D(fd)))
                            return z3.And([Imp(z3.And(tl(L), DC(fd), N(fd) == B_(fd) + i), Sel(H, S(C.lo + 2 * i + j)) == W[j](gs)) for j in range(4)])
                        out.append(('dotted part after group %d is stored (%s)' % (i, nm), quadA))
                        out.append(('dotted part after group %d of the second half is stored (%s)' % (i, nm), quadC))
    return out
def post6(P, rv):
    addr, s = P.args; end, fd = P.g['end'], P.g['fd']
    unfold6(P, s, end, fd, fd)
    acc, groups, total = final(end, fd)
    ok = rv == BV(0, 32)
    P.ensure('returns 0 or -1', z3.Or(ok, rv == BV(0xffffffff, 32)))
    P.ensure('accepts only standard IPv6 text', Imp(ok, acc))
    P.ensure('accepts all of it', Imp(z3.Not(ok), z3.Not(acc)))
    if P.entails(ok):
        n, b = N(fd), B_(fd)
        for j in range(8 if CONTENTS else 0):
            goal = z3.Concat(Sel(P.H(1), S(addr + 2 * j)), Sel(P.H(1), S(addr + 2 * j + 1))) == groups[j]
            P.ensure('group %d is stored (no double colon)' % j, Imp(z3.Not(DC(fd)), goal))
            for i in range(8):
                P.ensure('group %d is stored (%d groups before the double colon)' % (j, i), Imp(z3.And(DC(fd), b == i), goal))
    else: P.ensure('failure is -1', rv == BV(0xffffffff, 32))
    P.ensure('the target is unchanged on failure', Imp(z3.Not(ok), unchanged(P, addr, 16)))
    P.ensure('failure sets a parse error, success does not', z3.And(P.gget('err') == z3.Not(ok), Imp(z3.Not(ok), P.gget('errcode') == BV(0x95dfd3c8, 32))))

def be(P, a, n): return [Sel(P.H0(1), S(a + i)) for i in range(n)]
def two(P): P.region('a', P.args[0], 16); P.region('b', P.args[1], 16, writable=False)
def eqb(P, a, b, n): return z3.And([x == y for x, y in zip(be(P, a, n), be(P, b, n))])
def post_eq(P, rv): P.ensure('equal exactly when every byte is', (rv == 1) == eqb(P, P.args[0], P.args[1], 16))
def now_is(P, a, bs): return z3.And([Sel(P.H(1), S(a + i)) == b for i, b in enumerate(bs)])
def post_copy(P, rv): P.ensure('a copy of the bytes', now_is(P, P.args[0], be(P, P.args[1], 16)))
def two_ip(P):
    n = P.sizeof('cork_ip')
    P.region('a', P.args[0], n, writable=False); P.region('b', P.args[1], n, writable=False)
    P.g['v'] = [P.ov(x + P.off('cork_ip', 'version'), 4) for x in P.args]
    for v in P.g['v']: P.assume(z3.Or(v == 4, v == 6))
def post_ip_eq(P, rv):
    a, b = [S(x + P.off('cork_ip', 'ip')) for x in P.args]; v, w = P.g['v']
    P.ensure('equal exactly when family and address are', (rv == 1) == z3.And(v == w, z3.If(v == 4, eqb(P, a, b, 4), eqb(P, a, b, 16))))
def pre_from(n):
    def pre(P): P.region('addr', P.args[0], P.sizeof('cork_ip')); P.region('src', P.args[1], n, writable=False)
    return pre
def post_from(v, n):
    def post(P, rv):
        P.ensure('holds the family', P.bv(P.args[0] + P.off('cork_ip', 'version'), 4) == v)
        P.ensure('holds the address', now_is(P, S(P.args[0] + P.off('cork_ip', 'ip')), be(P, P.args[1], n)))
    return post
# the generic parser, over the contracts of the two parsers (C17's and the one above)
IS4, IS6 = z3.Bool('is_ipv4_text'), z3.Bool('is_ipv6_text')
T4, T6 = [[z3.BitVec('text%d_%d' % (v, i), 8) for i in range(n)] for v, n in ((4, 4), (6, 16))]
def h_sub(isv, bs):
    def h(P, a, ins):
        P.require('the same text is parsed', a[1] == P.args[1])
        reg = P.ex.check_range(P.st, a[0], BV(len(bs), 64), True, 'parsed address')
        s2 = P.st.clone(); P2 = P.at(s2)
        P.assume(isv); P2.assume(z3.Not(isv))
        for i, b in enumerate(bs): P.ex.hwrite(P.st, 1, S(a[0] + i), b, reg)
        P2.gset('err', z3.BoolVal(True)); P2.gset('errcode', BV(0x95dfd3c8, 32))
        return Fork([(P.st, BV(0, 32)), (s2, BV(0xffffffff, 32))])
    return h
def h_clear(P, a, ins): P.gset('err', z3.BoolVal(False)); P.gset('errcode', BV(0, 32))
def pre_ip(P):
    P.region('addr', P.args[0], P.sizeof('cork_ip')); cstring(P, P.args[1]); no_error(P)
def post_ip(P, rv):
    a = S(P.args[0] + P.off('cork_ip', 'ip')); v = P.bv(P.args[0] + P.off('cork_ip', 'version'), 4)
    ok = rv == BV(0, 32)
    P.ensure('accepts exactly the text of either family', z3.And(z3.Or(ok, rv == BV(0xffffffff, 32)), ok == z3.Or(IS4, IS6)))
    P.ensure('IPv4 text gives the IPv4 address', Imp(IS4, z3.And(v == 4, now_is(P, a, T4))))
    P.ensure('IPv6 text gives the IPv6 address', Imp(z3.And(z3.Not(IS4), IS6), z3.And(v == 6, now_is(P, a, T6))))
    P.ensure('failure sets a parse error, success does not', z3.And(P.gget('err') == z3.Not(ok), Imp(z3.Not(ok), P.gget('errcode') == BV(0x95dfd3c8, 32))))
    P.ensure('the target is unchanged on failure', Imp(z3.Not(ok), z3.And([Sel(P.H(1), S(P.args[0] + i)) == Sel(P.H0(1), S(P.args[0] + i)) for i in range(P.sizeof('cork_ip'))])))
SPECS = [Spec('cork_ipv6_init', pre6, post6, inv6, mode='bv', calls=dict(ERR, cork_ipv4_parse=h_parse4), quick_ms=4000)]
SPECS += [Spec(f, two, post_eq, mode='bv') for f in ('cork_ipv6_equal_', 'cork_ipv6_equal')] + [Spec('cork_ipv6_copy', two, post_copy, mode='bv')]
SPECS += [Spec(f, two_ip, post_ip_eq, mode='bv') for f in ('cork_ip_equal_', 'cork_ip_equal')]
SPECS += [Spec(f + s, pre_from(n), post_from(v, n), mode='bv') for f, v, n in (('cork_ip_from_ipv4', 4, 4), ('cork_ip_from_ipv6', 6, 16)) for s in ('', '_')]
SPECS += [Spec('cork_ip_init', pre_ip, post_ip, mode='bv', calls=dict(ERR, cork_ipv4_init=h_sub(IS4, T4), cork_ipv6_init=h_sub(IS6, T6), cork_error_clear=h_clear))]
BOUNDED = ['cork_ipv6_init: the values of the eight stored groups (the acceptance of the text, the error reporting, memory safety and the unchanged target on failure are proved)',
           'cork_ipv6_to_raw_string, cork_ip_to_raw_string']
