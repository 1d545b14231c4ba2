"""C15: 128-bit integers print exactly.
dig(T, i): the i-th digit (weight 10^(42-i)) of T; car(T, i): what doubling carries out of position i when T is
2 * (T div 2) + (T mod 2).  The loops are proved to keep exactly these digits; the digit-by-digit doubling law
they rely on is proved as a lemma over the integers for every position."""
from lvc.spec import *
from lvc.exec import ToolLimit
from . import fmt
from .C14 import CONFIGS
BV = z3.BitVecVal
S = z3.simplify
U128, U64 = z3.BitVecSort(128), z3.BitVecSort(64)
ND = 43                                   # digits that fit CORK_U128_DECIMAL_LENGTH
dig = z3.Function('dig', U128, U64, z3.BitVecSort(8)); car = z3.Function('car', U128, U64, z3.BitVecSort(8))
def law(P, T2, i):
    """doubling law at position i < ND: T2 is the doubled number"""
    T = z3.LShR(T2, 1)
    t = 2 * dig(T, i) + car(T2, S(i + 1))
    P.assume(Imp(z3.ULT(i, BV(ND, 64)), z3.And(dig(T2, i) == z3.If(z3.UGT(t, 9), t - 10, t), car(T2, i) == z3.If(z3.UGT(t, 9), BV(1, 8), BV(0, 8)),
             z3.ULE(dig(T, i), 9), z3.ULE(car(T2, S(i + 1)), 1))))
    P.assume(car(T2, BV(ND, 64)) == z3.Extract(7, 0, T2) & 1)
def lemma():
    out = []
    a, b, r, c, q = z3.Ints('a b r c q')
    for e in range(ND):
        p, p1 = 10 ** e, 10 ** (e + 1)
        # T = a 10^(e+1) + b 10^e + r with its digit b at e;  T2 = 2T + c
        T = a * p1 + b * p + r
        facts = [a >= 0, b >= 0, b <= 9, r >= 0, r < p, c >= 0, c <= 1]
        low = 2 * r + c
        cin = z3.If(low >= p, 1, 0)                     # car(T2, below e)
        t = 2 * b + cin
        d2 = z3.If(t > 9, t - 10, t); cout = z3.If(t > 9, 1, 0)
        # decomposition of T2 at e: T2 = A 10^(e+1) + d2 10^e + R with R < 10^e
        A = 2 * a + cout; R = low - cin * p
        out.append(('digit %d of the doubled number' % e, facts, z3.And(2 * T + c == A * p1 + d2 * p + R, 0 <= R, R < p, 0 <= d2, d2 <= 9)))
        out.append(('carry out of digit %d' % e, facts, cout == z3.If(2 * (b * p + r) + c >= p1, 1, 0)))
    out.append(('the carry into the units is the new low bit', [c >= 0, c <= 1], z3.If(c >= 1, 1, 0) == c))
    i = z3.BitVec('v', 128)
    out.append(('every 128-bit number has at most %d digits' % ND, [], z3.BoolVal(2 ** 128 < 10 ** ND)))
    return out
def val(P): return P.g['v']
def pre_dec(P):
    dest, lo, hi = P.args
    P.region('dest', dest, ND + 1)
    P.g['v'] = z3.Concat(hi, lo)
    for i in range(ND): P.assume(dig(BV(0, 128), BV(i, 64)) == 0)
def zx(x): return z3.ZeroExt(96, x)
def words(L):
    out = []
    for t, r in L.st.regions.items():
        if t.startswith('stack:') and cval(r.size) == 16: out.append(r)
    return out
def inv_dec(L):
    P = L.ctx; v = val(P); dest = P.args[0]
    out = []
    ch = lambda L, i: Sel(L.H(1), S(dest + i))
    outer = L.outer[-1] if L.outer else None
    if outer is None:
        for h in L.ints(32):
            if cval(L.init(h)) != 0: continue
            # h counts doublings done
            T = lambda L, h=h: z3.LShR(v, 128 - zx(L.val(h)))
            out.append(('%s is at most 128' % h, lambda L, h=h: z3.ULE(L.val(h), BV(128, 32))))
            for n in L.ints(32):
                if n == h: continue
                for w in range(4): out.append(('%s: %s holds word %d of the bits not consumed yet' % (h, n, w), lambda L, h=h, n=n, w=w: L.val(n) == z3.Extract(32 * w + 31, 32 * w, v << zx(L.val(h)))))
            for r in words(L):
                for w in range(4):
                    out.append(('%s: word %d of %s holds the bits not consumed yet' % (h, w, r.tag), lambda L, h=h, r=r, w=w: L.ctx.bv(r.lo + 4 * w, 4) == z3.Extract(32 * w + 31, 32 * w, v << zx(L.val(h)))))
            for i in range(ND):
                out.append(('%s: digit %d' % (h, i), lambda L, h=h, i=i: z3.And(ch(L, i) == 48 + dig(T(L), BV(i, 64)), z3.ULE(ch(L, i), BV(57, 8)))))
        out.append(('terminator', lambda L: ch(L, ND) == 0))
        for p in L.ptrs():
            if not z3.simplify(L.init(p) - dest).eq(BV(0, 64)): continue
            out.append(('%s stays in the digits' % p, lambda L, p=p: z3.And(z3.ULE(dest, L.val(p)), z3.ULE(L.val(p), S(dest + ND - 1)))))
            for i in range(ND):
                out.append(('digit %d before %s is zero' % (i, p), lambda L, p=p, i=i: Imp(z3.ULT(S(dest + i), L.val(p)), ch(L, i) == 48)))
    else:
        for o, (t, _) in outer.phi0.items():
            if t != ('int', 32) or cval(_) != 0: continue
            n = lambda L, o=o: zx(L.fr.regs[o])
            T2 = lambda L, n=n: z3.LShR(v, 127 - n(L))
            T = lambda L, n=n: z3.LShR(T2(L), 1)
            for h in L.ints(32):
                if cval(L.init(h)) != ND: continue
                at = lambda L, h=h: z3.ZeroExt(32, L.val(h))
                def bound(L, h=h, at=at, T2=T2):
                    law(L.ctx, T2(L), S(at(L) - 1)); law(L.ctx, T2(L), S(at(L)))
                    return z3.ULE(at(L), BV(ND, 64))
                out.append(('%s at most the number of digits (%s)' % (h, o), bound))
                for g in L.ints(32):
                    if g == h: continue
                    for i in range(ND + 1): out.append(('%s is the carry into the digits below %s=%d (%s)' % (g, h, i, o), lambda L, g=g, at=at, T2=T2, i=i: Imp(at(L) == i, L.val(g) == z3.ZeroExt(24, car(T2(L), BV(i, 64))))))
                for i in range(ND):
                    def digit(L, i=i, at=at, T=T, T2=T2):
                        return z3.And(ch(L, i) == 48 + z3.If(z3.ULE(at(L), BV(i, 64)), dig(T2(L), BV(i, 64)), dig(T(L), BV(i, 64))), z3.ULE(ch(L, i), BV(57, 8)))
                    out.append(('digit %d, doubled from %s on (%s)' % (i, h, o), digit))
        out.append(('terminator', lambda L: ch(L, ND) == 0))
    return out
def post_dec(P, rv):
    dest, v = P.args[0], val(P)
    ch = lambda i: Sel(P.H(1), S(dest + i))
    P.ensure('the text starts inside the buffer', z3.And(z3.ULE(dest, rv), z3.ULE(rv, S(dest + ND - 1))))
    for i in range(ND):
        P.ensure('digit %d is the decimal digit of the value' % i, ch(i) == 48 + dig(v, BV(i, 64)))
        P.ensure('digit %d is skipped only if zero' % i, Imp(z3.ULT(S(dest + i), rv), ch(i) == 48))
        if i < ND - 1: P.ensure('no superfluous zero at digit %d' % i, Imp(rv == S(dest + i), ch(i) != 48))
    P.ensure('NUL terminated', ch(ND) == 0)
def pre_hex(P):
    dest, lo, hi = P.args
    P.region('dest', dest, 33)
    P.g['v'] = z3.Concat(hi, lo)
    P.st.ghost['printed'] = ()
def h_printf(limit):
    def h(P, a, ins):
        dest, rest = a[0], (a[2:] if limit else a[1:])
        segs = fmt.merge(fmt.segments(P, rest[0], rest[1:]))
        n = 0; parts = []
        for s in segs:
            if s[0] == 'lit': parts.append(s); n += len(s[1]); continue
            c, x, fl, w, p, l = s
            if c != 'x' or fl not in ('', '0') or p is not None or (w and fl != '0'): raise ToolLimit('conversion %r' % (s,))
            bits = {'': 32, 'l': 64, 'll': 64, 'j': 64, 'z': 64, 'h': 16, 'hh': 8}[l]
            x = z3.ZeroExt(128 - bits, z3.Extract(bits - 1, 0, x) if x.size() > bits else x)
            w = int(w or 0); parts.append((x, w, bits // 4)); n += max(w, bits // 4)
        if limit: P.require('the whole text fits the given size', z3.ULE(BV(n + 1, 64), a[1]))
        P.ex.check_range(P.st, dest, BV(n + 1, 64), True, 'printed text')
        P.st.ghost['printed'] = P.st.ghost['printed'] + ((dest, tuple(parts)),)
        P.ex.havoc_ranges(P.st, [(dest, BV(n + 1, 64))], [1])
        return P.fresh('printf', 32)
    return h
def post_hex(padded):
    def post(P, rv):
        pr = P.st.ghost['printed']
        if len(pr) != 1: raise ToolLimit('text assembled from several pieces')
        d, parts = pr[0]
        P.ensure('the text is returned', rv == d)
        P.ensure('within the buffer', d == P.args[0])
        if any(len(p) == 2 for p in parts): raise ToolLimit('literal text')
        x = BV(0, 128); w = 0
        for i, (y, wid, mx) in enumerate(parts):
            if i or padded: P.ensure('part %d has exactly its digits' % i, z3.And(z3.BoolVal(wid > 0), z3.ULT(y, BV(1 << (4 * wid), 128)) if wid < 32 else z3.BoolVal(True)))
            else: P.ensure('no superfluous leading zero', z3.And(z3.BoolVal(wid <= 1), z3.Or(z3.BoolVal(len(parts) == 1), y != 0)))
            x = (x << (4 * wid if i or padded else 0)) | y; w += wid
        P.ensure('the text denotes the value', x == val(P))
        if padded: P.ensure('32 digits', z3.BoolVal(w == 32))
    return post
PR = {'snprintf': h_printf(True), 'sprintf': h_printf(False)}
SPECS = [Spec('cork_u128_to_decimal', pre_dec, post_dec, inv_dec, mode='bv', quick_ms=1500), Lemma('lemma: doubling a number digit by digit', lemma),
         Spec('cork_u128_to_hex', pre_hex, post_hex(False), mode='bv', calls=PR), Spec('cork_u128_to_padded_hex', pre_hex, post_hex(True), mode='bv', calls=PR)]
ASSUME = ['snprintf/sprintf with %x and %0<n>x write the hexadecimal digits of their arguments (ISO C)']
