"""C13: MurmurHash3.  M(p) is the ghost state of the reference algorithm after the blocks in [src, p):
M(src) = seed, M(p + block) = step(M(p), block at p); the code's state is proved equal to M at every
block boundary, then tail and finalization are compared with the reference formulas."""
from lvc.spec import *
from lvc.ops import umul
BV = z3.BitVecVal
def B(n, w): return BV(n, w)
def rotl(x, r): return (x << r) | z3.LShR(x, x.size() - r)
def fmix32(h):
    h = h ^ z3.LShR(h, 16); h = umul(h, 0x85ebca6b); h = h ^ z3.LShR(h, 13); h = umul(h, 0xc2b2ae35); return h ^ z3.LShR(h, 16)
def fmix64(k):
    k = k ^ z3.LShR(k, 33); k = umul(k, 0xff51afd7ed558ccd); k = k ^ z3.LShR(k, 33); k = umul(k, 0xc4ceb9fe1a85ec53); return k ^ z3.LShR(k, 33)
# --- x86_32
def mix32(k): return umul(rotl(umul(k, 0xcc9e2d51), 15), 0x1b873593)
def step32(hs, P, p): return [umul(rotl(hs[0] ^ mix32(P.bv(p, 4)), 13), 5) + B(0xe6546b64, 32)]
def tailword(P, t, n, w):
    """the n tail bytes as a little-endian w-bit number"""
    k = B(0, w)
    for i in range(n - 1, -1, -1): k = k ^ (z3.ZeroExt(w - 8, Sel(P.H(1), t + i)) << (8 * i))
    return k
def fin32(hs, P, t, ln):
    h = hs[0]
    r = h
    for n in range(4):      # a path that has decided the tail length: no case split needed
        if P.entails((ln & 3) == n): return [fmix32((h ^ mix32(tailword(P, t, n, 32)) if n else h) ^ z3.Extract(31, 0, ln))]
    for n in (1, 2, 3): r = z3.If((ln & 3) == n, h ^ mix32(tailword(P, t, n, 32)), r)
    return [fmix32(r ^ z3.Extract(31, 0, ln))]
# --- x64_128
C1, C2 = 0x87c37b91114253d5, 0x4cf5ad432745937f
def mk1(k): return umul(rotl(umul(k, C1), 31), C2)
def mk2(k): return umul(rotl(umul(k, C2), 33), C1)
def step128(hs, P, p):
    h1, h2 = hs
    k1, k2 = P.bv(p, 8), P.bv(p + 8, 8)
    h1 = rotl(h1 ^ mk1(k1), 27); h1 = h1 + h2; h1 = umul(h1, 5) + B(0x52dce729, 64)
    h2 = rotl(h2 ^ mk2(k2), 31); h2 = h2 + h1; h2 = umul(h2, 5) + B(0x38495ab5, 64)
    return [h1, h2]
def fin128(hs, P, t, ln):
    h1, h2 = hs
    r1, r2 = h1, h2
    known = [n for n in range(16) if P.entails((ln & 15) == n)]
    for n in range(1, 16):
        if known and n != known[0]: continue
        c = z3.BoolVal(True) if known else (ln & 15) == n
        r1 = z3.If(c, h1 ^ mk1(tailword(P, t, min(n, 8), 64)), r1)
        if n > 8: r2 = z3.If(c, h2 ^ mk2(tailword(P, t + 8, n - 8, 64)), r2)
    l = z3.ZeroExt(32, z3.Extract(31, 0, ln))
    h1, h2 = r1 ^ l, r2 ^ l
    h1 = h1 + h2; h2 = h2 + h1
    h1, h2 = fmix64(h1), fmix64(h2)
    h1 = h1 + h2; h2 = h2 + h1
    return [h1, h2]

def has_mul(f):
    todo = [f]; seen = set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id()); todo += t.children()
        if z3.is_app(t) and t.decl().name().startswith('mul'): return True
    return False
def mk(fn, bs, w, step, fin, seed, result, argpos, label=None):
    S = z3.BitVecSort(64)
    def Ms(P): return [z3.Function('M%d_%d' % (j, w), S, z3.BitVecSort(w)) for j in range(len(seed(P)))]
    def src(P): return P.args[argpos]
    def ln(P): return P.args[argpos + 1]
    def pre(P):
        P.assume(z3.ULT(ln(P), BV(1 << 31, 64)))
        P.region('input', src(P), ln(P), writable=False)
        for M, s in zip(Ms(P), seed(P)): P.assume(M(src(P)) == s)
    def unfold(P, p):
        """the defining equation of M at a block boundary inside the input"""
        hs = [M(p) for M in Ms(P)]
        inside = z3.And(z3.ULT(p - src(P), ln(P)), z3.ULE(B(bs, 64), ln(P) - (p - src(P))))
        for M, v in zip(Ms(P), step(hs, P, p)): P.assume(Imp(inside, M(z3.simplify(p + bs)) == z3.simplify(v)))
    def positions(L):
        out = []
        for n in L.ptrs(): out.append((n, lambda L, n=n: L.val(n)))
        for n in L.ints():
            b = L.phis[n][0][1]
            if cval(L.init(n)) != 0: continue
            ext = (lambda v, b=b: z3.ZeroExt(64 - b, v) if b < 64 else v)
            out.append((n + '*bs', lambda L, n=n, ext=ext: src(L.ctx) + bs * ext(L.val(n))))
            out.append((n + '*1', lambda L, n=n, ext=ext: src(L.ctx) + ext(L.val(n))))
        return out
    def inv(L):
        out = []
        P = L.ctx
        total = z3.LShR(ln(P), {4: 2, 16: 4}[bs]) * bs
        for nm, f in positions(L):
            def whole(L, f=f):
                unfold(L.ctx, z3.simplify(f(L)))
                return z3.And(((f(L) - src(L.ctx)) & (bs - 1)) == 0, z3.ULE(f(L) - src(L.ctx), total))
            out.append(('%s is a block boundary' % nm, whole))
            for h in L.ints(w):
                for j, M in enumerate(Ms(P)):
                    out.append(('%s == M%d(%s)' % (h, j, nm), lambda L, h=h, M=M, f=f: L.val(h) == M(z3.simplify(f(L)))))
        return out
    def normal(P, rv, end):
        """rewrites the result with equalities the path condition entails: loop variables at the exit to M(end),
        tail bytes to bytes at end + i"""
        sub = []
        names = [M(src(P)).decl().name() for M in Ms(P)]
        for f in P.st.facts:
            if z3.is_eq(f):
                for a, b in (f.children(), f.children()[::-1]):
                    if z3.is_app(b) and b.decl().name() in names and z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and P.entails(b.arg(0) == end): sub.append((a, b.decl()(end)))
        todo = [rv] if not isinstance(rv, list) else list(rv)
        seen = set()
        while todo:
            t = todo.pop()
            if t.get_id() in seen: continue
            seen.add(t.get_id()); todo += t.children()
            if z3.is_select(t):
                for i in range(bs):
                    if P.entails(t.arg(1) == end + i): sub.append((t, Sel(P.H(1), z3.simplify(end + i)))); break
        rw = lambda t: z3.simplify(z3.substitute(t, *sub)) if sub else t
        # hypotheses that only serve the loop are dropped (a weakening)
        P.st.facts = [f for f in P.st.facts if not has_mul(f)]
        return [rw(t) for t in rv] if isinstance(rv, list) else rw(rv)
    def post(P, rv):
        end = src(P) + z3.LShR(ln(P), {4: 2, 16: 4}[bs]) * bs
        exp = fin([M(end) for M in Ms(P)], P, end, ln(P))
        P.ensure('only reads', P.H(1) == P.H0(1))
        result(P, normal(P, rv, end), exp)
    s = Spec(fn, pre, post, inv, mode='bv', label=label or fn)
    s.abstract_mul = True
    return s
def res32(P, rv, e): P.ensure('the value is MurmurHash3_x86_32', rv == e[0])
def res128(P, rv, e):
    P.ensure('the value is MurmurHash3_x64_128 (first half)', rv[1] == e[0])
    P.ensure('the value is MurmurHash3_x64_128 (second half)', rv[0] == e[1])
def resfast(P, rv, e): P.ensure('the value is the first word of MurmurHash3_x64_128', rv == z3.Extract(63, 32, e[0]))
# --- x86_128
CC = [0x239b961b, 0xab0e9789, 0x38b34ae5, 0xa1e38b93]
def mk32(k, j): return umul(rotl(umul(k, CC[j]), 15 + j), CC[(j + 1) % 4])
def step128_32(hs, P, p):
    h = list(hs)
    for j, (r, c) in enumerate([(19, 0x561ccd1b), (17, 0x0bcaa747), (15, 0x96cd1c35), (13, 0x32ac3b17)]):
        h[j] = umul(rotl(h[j] ^ mk32(P.bv(p + 4 * j, 4), j), r) + h[(j + 1) % 4], 5) + B(c, 32)
    return h
def fin128_32(hs, P, t, ln):
    h = list(hs)
    known = [n for n in range(16) if P.entails((ln & 15) == n)]
    for n in range(1, 16):
        if known and n != known[0]: continue
        c = z3.BoolVal(True) if known else (ln & 15) == n
        for j in range(4):
            if n > 4 * j: h[j] = z3.If(c, hs[j] ^ mk32(tailword(P, t + 4 * j, min(n - 4 * j, 4), 32), j), h[j])
    l = z3.Extract(31, 0, ln)
    h = [x ^ l for x in h]
    def mix(h):
        h1 = h[0] + h[1]; h1 = h1 + h[2]; h1 = h1 + h[3]
        return [h1, h[1] + h1, h[2] + h1, h[3] + h1]
    return mix([fmix32(x) for x in mix(h)])
def res128_32(P, rv, e):
    P.ensure('the value is MurmurHash3_x86_128 (first half)', rv[1] == z3.Concat(e[0], e[1]))
    P.ensure('the value is MurmurHash3_x86_128 (second half)', rv[0] == z3.Concat(e[2], e[3]))
WRAPPERS = ['hash.c']
def x32(v, i): return z3.Extract(32 * i + 31, 32 * i, v)
def post_eq(P, rv): P.ensure('equal exactly when all 128 bits are', (rv == 1) == z3.And(P.args[0] == P.args[2], P.args[1] == P.args[3]))
SPECS = [
    Spec('cork_big_hash_equal', None, post_eq, mode='bv'),
    mk('w_hash_32', 4, 32, step32, fin32, lambda P: [P.args[0]], res32, 1),
    mk('w_big_hash_32', 16, 32, step128_32, fin128_32, lambda P: [x32(P.args[1], 1), x32(P.args[1], 0), x32(P.args[0], 1), x32(P.args[0], 0)], res128_32, 2),
    mk('cork_stable_hash_buffer', 4, 32, step32, fin32, lambda P: [P.args[0]], res32, 1),
    mk('cork_hash_buffer', 16, 64, step128, fin128, lambda P: [z3.Concat(P.args[0], P.args[0])] * 2, resfast, 1),
    mk('cork_big_hash_buffer', 16, 64, step128, fin128, lambda P: [P.args[1], P.args[0]], res128, 2),
]
ASSUME = ['lengths below 2^31 (MurmurHash3 takes an int length)', '64-bit little-endian build of the working tree (the platform of this sandbox)']
