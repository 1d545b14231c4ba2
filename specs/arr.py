"""Contracts of growable arrays, shared by C03 (contents) and C04 (callbacks)."""
from lvc.spec import *
from .common import ALLOC, frame, owned
from lvc.exec import End
BIG = 1 << 60
S = z3.simplify
CBS = ('init', 'done', 'reuse', 'remove')
def A(P, me, f, old=False): return (P.o8 if old else P.r8)(S(me + P.off('cork_raw_array', f)))
def V(P, pv, f, old=False): return (P.o8 if old else P.r8)(S(pv + P.off('cork_array_priv', f)))
class Arr: pass
def array(P, me, null, cbs=(), tag='arr', writable=True, es=None, free_ud=False):
    """a well-formed array: `size` elements in use, `initialized_count` slots already initialized, room for
    `allocated_count`; items is NULL or a heap block of allocated_count * element_size bytes"""
    P.rec(tag, me, 'cork_raw_array', writable=writable)
    a = Arr(); a.me = me
    a.items, a.size, a.priv = [A(P, me, f, True) for f in ('items', 'size', 'priv')]
    P.rec(tag + '.priv', a.priv, 'cork_array_priv', heap=True, writable=writable)
    a.cnt, a.bytes, a.es, a.ninit, a.ud = [V(P, a.priv, f, True) for f in ('allocated_count', 'allocated_size', 'element_size', 'initialized_count', 'user_data')]
    P.assume(z3.And(a.es >= 1, a.es < (1 << 40)))
    if es is not None: P.assume(a.es == es)
    a.used = S(a.size * a.es)
    if null: P.assume(z3.And(a.items == 0, a.size == 0, a.ninit == 0, a.cnt == 0, a.bytes == 0))
    else:
        P.assume(z3.And(0 <= a.size, a.size <= a.ninit, a.ninit <= a.cnt, a.cnt >= 1, a.bytes == a.cnt * a.es, a.bytes < BIG, a.used >= 0))
        mono(P, a.es, a.size, a.ninit, a.cnt)
        P.region(tag + '.items', a.items, a.bytes, ('bytes',), heap=True, writable=writable)
    a.cb = {}
    for c in CBS:
        f = V(P, a.priv, c, True)
        P.assume(f != 0 if c in cbs else f == 0)
        if c in cbs: a.cb[c] = f
    fu = V(P, a.priv, 'free_user_data', True)
    P.assume(fu != 0 if free_ud else fu == 0); a.free_ud = fu
    # the four callbacks are different functions (each is identified by the field it is called through)
    fs = list(a.cb.values()) + ([fu] if free_ud else [])
    for i in range(len(fs)):
        for j in range(i): P.assume(fs[i] != fs[j])
    for c in CBS + ('free',): P.init_log(c, 2)
    P.g[tag] = a
    return a
def mono(P, es, *xs):
    """multiplication by a positive number is monotone (instances of a valid arithmetic lemma)"""
    for x in xs:
        P.assume(Imp(x >= 0, x * es >= x)); P.assume((x + 1) * es == x * es + es)
        for y in xs:
            if not x.eq(y): P.assume(Imp(x <= y, x * es <= y * es)); P.assume(Imp(x < y, x * es + es <= y * es))
def callbacks(tag='arr'):
    """an element callback is given the user data and one slot, and changes nothing but that slot"""
    def h(P, fp, args, ins):
        a = P.g[tag]
        if P.entails(fp == a.free_ud):
            P.log('free', args[0], I(0)); return None
        for c, f in a.cb.items():
            if P.entails(fp == f):
                P.log(c, args[0], args[1])
                P.ex.check_range(P.st, args[1], a.es, True, '%s callback slot' % c)
                P.ex.havoc_ranges(P.st, [(args[1], a.es)], [1])
                return None
        P.ensure('only installed callbacks are called', z3.BoolVal(False))
        return None
    return h
def calls_exactly(P, a, c, n, slot, name):
    """the log of callback c holds exactly n calls, the j-th on slot(j), each with the user data"""
    j = z3.Int('j!c')
    P.ensure('%s: as many calls' % name, P.loglen(c) == n)
    P.ensure('%s: on those slots, in order' % name, FA([j], Imp(z3.And(0 <= j, j < n), z3.And(P.logat(c, j, 0) == a.ud, P.logat(c, j, 1) == slot(j))), [P.logat(c, j, 1)]))
def no_calls(P, *but):
    for c in CBS + ('free',):
        if c not in but: P.ensure('no %s callback' % c, P.loglen(c) == 0)
def same_settings(P, a):
    for f in ('element_size', 'user_data', 'free_user_data') + CBS:
        P.ensure('%s is unchanged' % f, V(P, a.priv, f) == V(P, a.priv, f, True))
def wf_post(P, a, es=None):
    items, size = A(P, a.me, 'items'), A(P, a.me, 'size'); pv = A(P, a.me, 'priv')
    P.ensure('the same private part', pv == a.priv)
    cnt, by, ninit = [V(P, pv, f) for f in ('allocated_count', 'allocated_size', 'initialized_count')]
    empty = z3.And(items == 0, size == 0, cnt == 0, by == 0, ninit == 0)
    P.ensure('room for all slots', z3.Or(empty, z3.And(0 <= size, size <= ninit, ninit <= cnt)))
    P.ensure('allocated bytes match the allocated slots', z3.Or(empty, by == cnt * a.es))
    rs = [r for r in P.st.regions.values() if not r.family and r.heap]
    P.ensure('the storage is a live heap block of the recorded size', z3.Or([empty] + [z3.And(r.lo == items, r.size == by) for r in rs]))
def bytes_kept(P, dst, src, n, name):
    x = z3.Int('a!p')
    P.ensure(name, FA([x], Imp(z3.And(dst <= x, x < dst + n), P.r1(x) == P.o1(S(x - dst + src))), [P.r1(x)]))
def fr(P, *arrs):
    def inside(x):
        out = []
        for a in arrs:
            out += [z3.And(a.me <= x, x < a.me + P.sizeof('cork_raw_array')), z3.And(a.priv <= x, x < a.priv + P.sizeof('cork_array_priv')), z3.And(a.items <= x, x < a.items + a.bytes)]
        return z3.Or(out)
    frame(P, inside)
def loop_log(c, tag='arr', first=lambda P, a: I(0), count=lambda P, a: a.ninit):
    """invariant of a loop that calls c on `count` consecutive slots"""
    def inv(L):
        j = z3.Int('j!c')
        def base(L):
            P = L.ctx; a = P.g[tag]; mono(P, a.es, L.k, a.ninit, a.cnt, S(L.k + first(P, a)), *P.g.get('counts', []))
            return P.loglen(c) >= 0
        out = [('facts', base), ('one %s call per iteration' % c, lambda L: L.ctx.loglen(c) == L.k),
               ('%s calls so far' % c, lambda L: FA([j], Imp(z3.And(0 <= j, j < L.k), z3.And(L.ctx.logat(c, j, 0) == L.ctx.g[tag].ud, L.ctx.logat(c, j, 1) == slot_of(L.ctx, tag, j + first(L.ctx, L.ctx.g[tag])))), [L.ctx.logat(c, j, 1)]))]
        out.append(('%s: within the slots' % c, lambda L: L.k <= count(L.ctx, L.ctx.g[tag])))
        for p in L.ptrs(): out.append(('%s %s: current slot' % (c, p), lambda L, p=p: L.val(p) == slot_of(L.ctx, tag, L.k + first(L.ctx, L.ctx.g[tag]))))
        return out
    return inv
def slot_of(P, tag, j):
    a = P.g[tag]
    it = P.g.get(tag + '.base', None)
    return S((a.items if it is None else it(P)) + j * a.es)
def abort_ok(P, a, ins): return End()
ARRAY_CALLS = dict(ALLOC)
