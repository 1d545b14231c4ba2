"""Abstract view of a hash table.  Entries E(1) … E(N) in insertion order; entry i has hsh(i), key(i), val(i); it is element
pos(i) of bin(i) = hsh(i) & mask, and at(b, 1) … at(b, len(b)) are the entries of bin b in list order.  EQ and HASH are the
client's comparison and hash functions (any equivalence relation, and any hash that respects it)."""
from lvc.spec import *
from lvc import libc
from .common import ALLOC, frame
Z = z3.IntSort(); S = z3.simplify
fn = lambda n, *s: z3.Function(n, *([Z] * (len(s) or 1) + [Z]))
E, oE, key, val, hsh = [fn(n) for n in ('E', 'oE', 'key', 'val', 'hsh')]
HASH = fn('HASH'); EQ = z3.Function('EQ', Z, Z, z3.BoolSort())
i, j, b, k, m, a, x, y = z3.Ints('i!h j!h b!h k!h m!h a!h x!h y!h')
FIELDS = ('bins', 'bin_count', 'bin_mask', 'entry_count', 'user_data', 'free_user_data', 'hash', 'equals', 'free_key', 'free_value')
BIG = 1 << 58
class View:
    """one arrangement of the entries in bins"""
    def __init__(self, sfx=''):
        self.bin, self.pos, self.len = [fn(n + sfx) for n in ('bin', 'pos', 'len')]
        self.at = z3.Function('at' + sfx, Z, Z, Z); self.HD, self.oH = fn('HD' + sfx), fn('oH' + sfx)
    def nd(self, P, b, k): return z3.If(z3.Or(k == 0, k == self.len(b) + 1), self.HD(b), E(self.at(b, k)) + IB(P))
V0, V1 = View(), View('2')
def off(P, f): return P.off('cork_hash_table', f)
def T(P): return P.g['T']
def fld(P, f, old=True): q = T(P) + off(P, f); return P.o8(q) if old else P.r8(q)
def IB(P): return P.off('cork_hash_table_entry_priv', 'in_bucket')
def IO(P): return P.off('cork_hash_table_entry_priv', 'insertion_order')
def NX(P): return P.off('cork_dllist_item', 'next')
def PV(P): return P.off('cork_dllist_item', 'prev')
def KEY(P): return P.off('cork_hash_table_entry', 'key')
def VAL(P): return P.off('cork_hash_table_entry', 'value')
def HSH(P): return P.off('cork_hash_table_entry', 'hash')
def OI(P): return T(P) + off(P, 'insertion_order')
def N(P): return P.g['N']
def io(P, q): return z3.If(z3.Or(q == 0, q == N(P) + 1), OI(P), E(q) + IO(P))
def band(P, h, mask): return P.ex.ops.F('band', h, mask)
def ent(P, q): return z3.And(1 <= q, q <= N(P))
def equivalence(P):
    P.assume(FA([x], EQ(x, x), [EQ(x, x)])); P.assume(FA([x, y], EQ(x, y) == EQ(y, x), [EQ(x, y)]))
    P.assume(FA([x, y, m], Imp(z3.And(EQ(x, y), EQ(y, m)), EQ(x, m)), [z3.MultiPattern(EQ(x, y), EQ(y, m))]))
    P.assume(FA([x, y], Imp(EQ(x, y), HASH(x) == HASH(y)), [EQ(x, y)]))
    P.assume(FA([x], z3.And(0 <= HASH(x), HASH(x) < (1 << 32)), [HASH(x)]))
def arrange(P, V, bins, B, mask):
    """facts about an arrangement (no memory)"""
    n = N(P)
    P.assume(z3.And(1 <= B, B < BIG, mask == B - 1))
    P.assume(FA([i], Imp(ent(P, i), z3.And(V.bin(i) == band(P, hsh(i), mask), 0 <= V.bin(i), V.bin(i) < B, 1 <= V.pos(i), V.pos(i) <= V.len(V.bin(i)), V.at(V.bin(i), V.pos(i)) == i)), [V.bin(i)]))
    P.assume(FA([b, k], Imp(z3.And(0 <= b, b < B, 1 <= k, k <= V.len(b)), z3.And(ent(P, V.at(b, k)), V.bin(V.at(b, k)) == b, V.pos(V.at(b, k)) == k)), [V.at(b, k)]))
    P.assume(FA([b], z3.And(V.len(b) >= 0, V.len(b) < BIG), [V.len(b)]))
    P.assume(FA([b], Imp(z3.And(0 <= b, b < B), z3.And(V.HD(b) == bins + 16 * b, V.oH(V.HD(b)) == b, V.oH(V.HD(b) + NX(P)) == b, V.oH(V.HD(b) + PV(P)) == b)), [V.HD(b)]))
def bucket_facts(P, V, B, h):
    """the links of the bins spell the arrangement; quantified over addresses"""
    q = oE(a); w = V.oH(a)
    return [FA([a], Imp(z3.And(ent(P, q), a == E(q) + IB(P) + NX(P)), Sel(h, a) == V.nd(P, V.bin(q), V.pos(q) + 1)), [Sel(h, a)]),
            FA([a], Imp(z3.And(ent(P, q), a == E(q) + IB(P) + PV(P)), Sel(h, a) == V.nd(P, V.bin(q), V.pos(q) - 1)), [Sel(h, a)]),
            FA([a], Imp(z3.And(0 <= w, w < B, a == V.HD(w) + NX(P)), Sel(h, a) == V.nd(P, w, I(1))), [Sel(h, a)]),
            FA([a], Imp(z3.And(0 <= w, w < B, a == V.HD(w) + PV(P)), Sel(h, a) == V.nd(P, w, V.len(w))), [Sel(h, a)])]
def order_facts(P, h):
    """insertion order, keys and values"""
    q = oE(a)
    return [FA([a], Imp(z3.And(ent(P, q), a == E(q) + IO(P) + NX(P)), Sel(h, a) == io(P, q + 1)), [Sel(h, a)]),
            FA([a], Imp(z3.And(ent(P, q), a == E(q) + IO(P) + PV(P)), Sel(h, a) == io(P, q - 1)), [Sel(h, a)]),
            z3.And(Sel(h, OI(P) + NX(P)) == io(P, I(1)), Sel(h, OI(P) + PV(P)) == io(P, N(P))),
            FA([a], Imp(z3.And(ent(P, q), a == E(q) + KEY(P)), Sel(h, a) == key(q)), [Sel(h, a)]),
            FA([a], Imp(z3.And(ent(P, q), a == E(q) + VAL(P)), Sel(h, a) == val(q)), [Sel(h, a)])]
def focus(P, V, h):
    """names the bin of hash h"""
    mask, bins = (P.g['mask'], P.g['bins']) if V is V0 else (P.g['mask2'], P.g['bins2'])
    w = band(P, h, mask); q = bins + 16 * w
    P.assume(z3.And(0 <= w, w <= mask, V.HD(w) == q, V.len(w) >= 0, V.oH(q) == w, V.oH(q + NX(P)) == w, V.oH(q + PV(P)) == w))
    pos_facts(P, V, w, V.len(w)); entry_facts(P, N(P))
    return w
def entry_facts(P, q):
    """instances of the assumptions about entry q"""
    P.assume(Imp(ent(P, q), z3.And(E(q) > 0, oE(E(q)) == q, *[oE(E(q) + o) == q for o in P.layout('cork_hash_table_entry_priv')])))
def bin_facts(P, V, q):
    mask, B = (P.g['mask'], P.g['B']) if V is V0 else (P.g['mask2'], P.g['B2'])
    P.assume(Imp(ent(P, q), z3.And(V.bin(q) == band(P, hsh(q), mask), 0 <= V.bin(q), V.bin(q) < B, 1 <= V.pos(q), V.pos(q) <= V.len(V.bin(q)), V.at(V.bin(q), V.pos(q)) == q)))
def pos_facts(P, V, w, k):
    B = P.g['B'] if V is V0 else P.g['B2']; q = V.at(w, k)
    P.assume(Imp(z3.And(0 <= w, w < B, 1 <= k, k <= V.len(w)), z3.And(ent(P, q), V.bin(q) == w, V.pos(q) == k)))
    entry_facts(P, q)
def table(P, t, distinct=True, free=None):
    P.g['T'] = t; P.rec('table', t, 'cork_hash_table', heap=True)
    n = fld(P, 'entry_count'); P.g['N'] = n; P.g['B'] = B = fld(P, 'bin_count'); P.g['mask'] = mask = fld(P, 'bin_mask'); bins = fld(P, 'bins'); P.g['bins'] = bins
    P.assume(z3.And(0 <= n, n < BIG))
    P.family('entries', E, oE, I(1), n + 1, P.reckind('cork_hash_table_entry_priv'))
    e = lambda o: oE(E(i) + o) == i
    P.assume(FA([i], Imp(ent(P, i), z3.And(e(0), *[e(o) for o in P.layout('cork_hash_table_entry_priv')])), [E(i)]))
    arrange(P, V0, bins, B, mask)
    P.region('bins', bins, 16 * B, ('words', 8), heap=True)
    h, h4 = P.H(8), P.H(4); q = oE(a)
    for f in bucket_facts(P, V0, B, h): P.assume(f)
    for f in order_facts(P, h): P.assume(f)
    P.assume(FA([a], Imp(z3.And(ent(P, q), a == E(q) + HSH(P)), Sel(h4, a) == hsh(q)), [Sel(h4, a)]))
    P.assume(FA([i], z3.And(0 <= hsh(i), hsh(i) < (1 << 32)), [hsh(i)]))
    if distinct:
        equivalence(P)
        P.assume(FA([i], Imp(ent(P, i), hsh(i) == HASH(key(i))), [key(i)]))
        P.assume(FA([i, j], Imp(z3.And(ent(P, i), ent(P, j), EQ(key(i), key(j))), i == j), [EQ(key(i), key(j))]))
    if free is not None:
        for f in ('free_key', 'free_value'): P.assume(fld(P, f) > 0 if free else fld(P, f) == 0)
    P.init_log('free', 2); P.init_log('release', 1)
def reads(v, a):
    """v is a load from address a"""
    return z3.is_app(v) and v.num_args() == 2 and v.decl().name() in ('select', Sel(z3.Array('h!x', Z, Z), I(0)).decl().name()) and z3.is_int(v.arg(1)) and S(v.arg(1) - a).eq(I(0))
def ind(P, fp, ar, ins):
    if P.entails(fp == fld(P, 'equals')):
        P.require('the user data is passed on', ar[0] == fld(P, 'user_data'))
        r = P.fresh('eq', 8); P.assume(r == z3.If(EQ(ar[1], ar[2]), 1, 0)); P.assume(EQ(ar[1], ar[2]) == EQ(ar[2], ar[1])); return r
    if P.entails(fp == fld(P, 'hash')):
        P.require('the user data is passed on', ar[0] == fld(P, 'user_data')); v = HASH(ar[1]); P.assume(z3.And(0 <= v, v < (1 << 32))); return v
    for n, f in ((1, 'free_key'), (2, 'free_value')):
        if reads(fp, T(P) + off(P, f)):
            P.require('%s is not NULL when it is called' % f, z3.And(fp == fld(P, f), fp != 0)); P.log('free', I(n), ar[0]); return None
    return NotImplemented
def other(P, h, h0, inside):
    return FA([a], Imp(z3.Not(inside(a)), Sel(h, a) == Sel(h0, a)), [Sel(h, a)])
def in_links(P, q): return z3.And(ent(P, oE(q)), E(oE(q)) + IB(P) <= q, q < E(oE(q)) + IB(P) + 16)
def regrow(P, want):
    """contract of a growing cork_hash_table_ensure_size: another arrangement of the same entries in more bins"""
    ex, st = P.ex, P.st
    if 'bins' not in st.regions: raise ToolLimit('second growth')
    st.regions.pop('bins'); ex.touch(st, ('region', 'bins'))
    B2 = P.fresh('B2'); P.assume(z3.And(B2 >= want, B2 < BIG)); mask2 = S(B2 - 1); P.g['B2'], P.g['mask2'] = B2, mask2
    r = ex.new_region(st, 'bins2', 16 * B2, ('words', 8), heap=True)
    P.g['bins2'] = r.lo
    arrange(P, V1, r.lo, B2, mask2)
    h0 = st.heap[8]; h1 = ex.fresh_heap(8); t = T(P)
    inside = lambda q: z3.Or(in_links(P, q), z3.And(r.lo <= q, q < r.lo + 16 * B2), *[q == t + off(P, f) for f in ('bins', 'bin_count', 'bin_mask')])
    st.facts.append(other(P, h1, h0, inside))
    st.heap[8] = h1; ex.touch(st, ('heap', 8)); ex.touch(st, ('anyheap',))
    for f in bucket_facts(P, V1, B2, h1): P.assume(f)
    P.assume(z3.And(P.r8(t + off(P, 'bins')) == r.lo, P.r8(t + off(P, 'bin_count')) == B2, P.r8(t + off(P, 'bin_mask')) == mask2))
    for f in FIELDS:
        if f not in ('bins', 'bin_count', 'bin_mask'): P.assume(P.r8(t + off(P, f)) == Sel(h0, t + off(P, f)))
    for f in order_facts(P, h1): P.assume(f)
    st.ghost['grown'] = True
    if 'h' in P.g: focus(P, V1, P.g['h'])
def regrown(P, want):
    """the states after growing, by cases: an empty table, an empty bin for the hash, or not"""
    regrow(P, want)
    if 'h' not in P.g: return [(P.st, None)]
    V, h1 = V1, P.H(8); w = focus(P, V, P.g['h']); n = N(P); q = P.g['bins2'] + 16 * w + PV(P); l = V.len(w); out = []
    for c, facts in ((n == 0, [Sel(h1, OI(P) + PV(P)) == OI(P)]), (z3.And(n > 0, l == 0), [Sel(h1, OI(P) + PV(P)) == E(n) + IO(P), Sel(h1, q) == P.g['bins2'] + 16 * w]),
                     (z3.And(n > 0, l > 0), [Sel(h1, OI(P) + PV(P)) == E(n) + IO(P), Sel(h1, q) == E(V.at(w, l)) + IB(P)])):
        s2 = P.st.clone(); Q = P.at(s2); Q.assume(c)
        for f in facts: Q.assume(f)
        out.append((s2, None))
    return out
def h_ensure(P, ar, ins):
    P.require('this table', ar[0] == T(P))
    if P.entails(ar[1] > P.g['B']): return Fork(regrown(P, ar[1]))
    if P.entails(ar[1] <= P.g['B']): return None
    s2 = P.st.clone(); P.assume(ar[1] <= P.g['B']); P2 = P.at(s2); P2.assume(ar[1] > P.g['B'])
    return Fork([(P.st, None)] + regrown(P2, ar[1]))
def grown(P): return P.st.ghost.get('grown', False)
def find_inv(L):
    """walking along the bin of the hash, no match so far"""
    P = L.ctx; g = P.g; w = g['w']; out = []
    for p in L.ptrs():
        out.append(('%s = next element of the bin' % p, lambda L, p=p: z3.And(L.k <= V0.len(w), L.val(p) == V0.nd(L.ctx, w, L.k + 1))))
    out.append(('no element so far has an equal key', lambda L: FA([j], Imp(z3.And(1 <= j, j <= L.k), z3.Not(EQ(g['key'], key(V0.at(w, j))))), [V0.at(w, j)])))
    return out
