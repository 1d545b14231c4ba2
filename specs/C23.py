"""C23: memory pools.  The free list is an arbitrary chain fl(0) … fl(nf-1) of object headers, the blocks an arbitrary chain
blk(0) … blk(nb-1).  Giving out takes exactly the first free object; giving back adds exactly that object; a new block is cut
into objects at increasing offsets ofs(0) < ofs(1) < …, each inside the block and clear of the next."""
from lvc.spec import *
from lvc import libc
from .common import ALLOC, frame, block
WRAPPERS = ['ds.c']
S = z3.simplify
F = lambda P, f: P.off('cork_mempool', f)
FIELDS = ('element_size', 'block_size', 'free_list', 'allocated_count', 'blocks', 'user_data', 'free_user_data', 'init_object', 'done_object')
fl, blk = z3.Function('fl', z3.IntSort(), z3.IntSort()), z3.Function('blk', z3.IntSort(), z3.IntSort())
ofl, oblk = z3.Function('ofl', z3.IntSort(), z3.IntSort()), z3.Function('oblk', z3.IntSort(), z3.IntSort())
ofs, oofs = z3.Function('ofs', z3.IntSort(), z3.IntSort()), z3.Function('oofs', z3.IntSort(), z3.IntSort())
i, j, x = z3.Int('i!p'), z3.Int('j!p'), z3.Int('x!p')
LIM = 1 << 47
def f(P, name, old=True): a = P.args[0] + F(P, name); return P.o8(a) if old else P.r8(a)
def es(P): return f(P, 'element_size')
def pool(P, init=None, done=None, fud=None):
    P.rec('pool', P.args[0], 'cork_mempool', heap=True)
    e, b = f(P, 'element_size'), f(P, 'block_size')
    P.assume(z3.And(0 <= e, e < LIM, b >= e + 16, b < LIM))
    for n, v in (('init_object', init), ('done_object', done), ('free_user_data', fud)):
        if v is not None: P.assume(f(P, n) > 0 if v else f(P, n) == 0)
    c = f(P, 'allocated_count'); P.assume(z3.And(0 <= c, c < (1 << 63)))
    P.init_log('init', 2); P.init_log('done', 2); P.init_log('free', 1)
def chain(P, n, at, own, field, tag):
    """at(0) … at(n-1) is a chain of 8-byte headers starting at `field`"""
    P.assume(z3.And(n >= 0, n < (1 << 60))); P.assume(Imp(n > 0, at(0) > 0))
    P.family(tag, at, own, I(0), n, ('rec', 8, {0: 8}))
    P.assume(f(P, field) == z3.If(n == 0, 0, at(0)))
    P.assume(FA([i], Imp(z3.And(0 <= i, i < n), P.o8(at(i)) == z3.If(i == n - 1, 0, at(i + 1))), [at(i)]))
def clear(P, n):
    """objects: the bytes of an element hold no header"""
    e = es(P)
    P.assume(FA([i, j], Imp(z3.And(0 <= i, i < n, 0 <= j, j < n, i != j), z3.Or(fl(i) + 8 + e <= fl(j), fl(j) + 8 + e <= fl(i))), [z3.MultiPattern(fl(i), fl(j))]))
    P.assume(FA([i], Imp(z3.And(0 <= i, i < n), z3.And(fl(i) > 0, fl(i) + 8 + e < ADDR_MAX)), [fl(i)]))
def kept(P, *but):
    for n in FIELDS:
        if n not in but: P.ensure('%s is unchanged' % n, f(P, n, False) == f(P, n))
def mine(P): return lambda a: z3.And(P.args[0] <= a, a < P.args[0] + P.sizeof('cork_mempool'))
SPECS = []
def add(fn, pre, post, label, **kw): SPECS.append(Spec(fn, pre, post, label='%s (%s)' % (fn, label) if label else fn, **kw))

# giving out and giving back
def pre_first(P):
    pool(P); P.g['n'] = n = z3.Int('nf'); P.assume(n > 0); chain(P, n, fl, ofl, 'free_list', 'objects')
def post_first(P, rv):
    n = P.g['n']
    P.ensure('the first free object is given out', rv == fl(0) + 8)
    P.ensure('and is no longer free', f(P, 'free_list', False) == z3.If(n == 1, 0, fl(1)))
    P.ensure('one more in use', f(P, 'allocated_count', False) == f(P, 'allocated_count') + 1)
    kept(P, 'free_list', 'allocated_count'); frame(P, mine(P), 'the other free objects and the objects in use are untouched')
    P.ensure('no callback', P.loglen('init') + P.loglen('done') + P.loglen('free') == 0)
add('cork_mempool_new_object', pre_first, post_first, 'some object is free', calls=ALLOC)
def pre_back(P):
    pool(P); P.assume(f(P, 'allocated_count') > 0); P.g['n'] = n = z3.Int('nf'); chain(P, n, fl, ofl, 'free_list', 'objects')
    P.region('object', P.args[1] - 8, es(P) + 8, ('any',))
def post_back(P, rv):
    h = P.args[1] - 8
    P.ensure('the object is the first free one', f(P, 'free_list', False) == h)
    P.ensure('followed by those free before', P.r8(h) == f(P, 'free_list'))
    P.ensure('one less in use', f(P, 'allocated_count', False) == f(P, 'allocated_count') - 1)
    kept(P, 'free_list', 'allocated_count'); frame(P, lambda a: z3.Or(mine(P)(a), z3.And(h <= a, a < h + 8)), 'contents of all objects are untouched')
    P.ensure('no callback', P.loglen('init') + P.loglen('done') + P.loglen('free') == 0)
add('cork_mempool_free_object', pre_back, post_back, None, calls=ALLOC)

# a new block
def newblk(P):
    rs = [r for t, r in P.st.regions.items() if not r.family and r.heap and t not in P.ex.st_entry.regions]
    return rs[0] if len(rs) == 1 else None
def pre_block(init):
    def pre(P):
        pool(P, init=init); P.assume(f(P, 'free_list') == 0)
        e, b = es(P), f(P, 'block_size')
        # ofs(k) = 8 + k * (8 + e)
        P.assume(ofs(0) == 8)
        P.assume(FA([i], Imp(i >= 0, z3.And(ofs(i + 1) == ofs(i) + 8 + e, oofs(ofs(i)) == i, ofs(i) >= 8)), [ofs(i)]))
        P.assume(FA([i, j], Imp(z3.And(0 <= i, i < j), ofs(i) + 8 + e <= ofs(j)), [z3.MultiPattern(ofs(i), ofs(j))]))
        P.g['init'] = init
    return pre
def ind_block(P, fp, a, ins):
    if P.g['init'] and P.entails(fp == f(P, 'init_object')):
        r = newblk(P)
        P.require('the user data is passed on', a[0] == f(P, 'user_data'))
        P.ex.check_range(P.st, a[1], es(P), True, 'object to initialize')
        P.log('init', a[0], a[1]); P.ex.havoc_ranges(P.st, [(a[1], es(P))], [1, 2, 4, 8]); return None
    return NotImplemented
def list_at(P, k, head, heap, base):
    """the objects of the block cut so far form the free list, last one first"""
    q = lambda a: oofs(a - base)
    return z3.And(head == z3.If(k == 0, 0, base + ofs(k - 1)),
                  FA([x], Imp(z3.And(0 <= q(x), q(x) < k, x == base + ofs(q(x))), Sel(heap, x) == z3.If(q(x) == 0, 0, base + ofs(q(x) - 1))), [Sel(heap, x)]))
def inv_block(L):
    P = L.ctx
    B = lambda L: newblk(L.ctx).lo
    out = [('offset', lambda L, v=v: L.val(v) == ofs(L.k)) for v in L.ints()]
    out += [('%s: offset' % v, lambda L, v=v: L.val(v) == B(L) + ofs(L.k)) for v in L.ptrs()]
    out.append(('within the block', lambda L: z3.And(ofs(L.k) <= f(L.ctx, 'block_size'), L.k >= 0)))
    out.append(('the free list so far', lambda L: list_at(L.ctx, L.k, f(L.ctx, 'free_list', False), L.H(8), B(L))))
    out.append(('block list', lambda L: z3.And(f(L.ctx, 'blocks', False) == B(L), L.ctx.r8(B(L)) == f(L.ctx, 'blocks'))))
    out.append(('settings', lambda L: z3.And([f(L.ctx, n, False) == f(L.ctx, n) for n in FIELDS if n not in ('free_list', 'blocks')])))
    if P.g['init']:
        out.append(('one initialize call per object', lambda L: L.ctx.loglen('init') == L.k))
        out.append(('initialized so far', lambda L: FA([j], Imp(z3.And(0 <= j, j < L.k), z3.And(L.ctx.logat('init', j, 0) == f(L.ctx, 'user_data'), L.ctx.logat('init', j, 1) == B(L) + ofs(j) + 8)), [L.ctx.logat('init', j, 1)])))
    return out
def post_block(P, rv):
    r = newblk(P); e = es(P); h = S(rv - 8); b = r.lo
    m = z3.Int('m!objects'); P.assume(m == oofs(h - b) + 1)
    P.ensure('a block of the block size is allocated', r.size == f(P, 'block_size'))
    P.ensure('the object given out is one of the block', z3.And(m >= 1, h == b + ofs(m - 1)))
    P.ensure('it lies inside the block, after the header of the block', z3.And(rv >= b + 16, rv + e <= b + r.size))
    P.ensure('no other object fits', ofs(m) + 8 + e > r.size)
    P.ensure('exactly the other objects of the block are free, each once', list_at(P, m - 1, f(P, 'free_list', False), P.H(8), b))
    P.ensure('they lie inside the block', FA([j], Imp(z3.And(0 <= j, j < m), ofs(j) + 8 + e <= r.size), [ofs(j)]))
    P.ensure('the block is remembered', z3.And(f(P, 'blocks', False) == b, P.r8(b) == f(P, 'blocks')))
    P.ensure('one more in use', f(P, 'allocated_count', False) == f(P, 'allocated_count') + 1)
    kept(P, 'free_list', 'allocated_count', 'blocks'); frame(P, mine(P))
    if P.g['init']:
        P.ensure('every object of the block is initialized once', P.loglen('init') == m)
        P.ensure('and nothing else', FA([j], Imp(z3.And(0 <= j, j < m), z3.And(P.logat('init', j, 0) == f(P, 'user_data'), P.logat('init', j, 1) == b + ofs(j) + 8)), [P.logat('init', j, 1)]))
    P.ensure('nothing is finalized', P.loglen('done') + P.loglen('free') == 0)
for n in (False, True):
    add('cork_mempool_new_object', pre_block(n), post_block, 'no object is free, %s initialize callback' % ('with' if n else 'no'), calls=ALLOC, inv=inv_block, indirect=ind_block)

# pools
def pre_new(P): P.assume(z3.And(P.args[0] < LIM - 64, (P.args[1] if len(P.args) > 1 else I(0)) < LIM))
def post_new(P, rv):
    g = lambda n: P.r8(rv + F(P, n)); bs = P.args[1] if len(P.args) > 1 else I(4096); e, b = g('element_size'), g('block_size')
    P.ensure('room for the element', e >= P.args[0]); P.ensure('blocks hold at least one object', b >= e + 16)
    P.ensure('blocks of the size asked for, unless too small', z3.Or(b == bs, z3.And(bs < P.args[0] + 32, b <= P.args[0] + 32)))
    P.ensure('objects are aligned', e % 8 == 0); P.ensure('not padded more than that', e < P.args[0] + 8)
    P.ensure('empty, no callbacks', z3.And([g(n) == 0 for n in FIELDS[2:]]))
    rs = [r for t, r in P.st.regions.items() if r.heap]
    P.ensure('a live pool', z3.Or([z3.And(r.lo == rv, r.size == P.sizeof('cork_mempool')) for r in rs] + [z3.BoolVal(False)])); frame(P, lambda a: z3.BoolVal(False))
for fn in ('cork_mempool_new_size_ex', 'cork_mempool_new_size'): add(fn, pre_new, post_new, None, calls=ALLOC)
def ind_free(P, fp, a, ins):
    if P.entails(fp == f(P, 'free_user_data')): P.log('free', a[0]); return None
    return NotImplemented
def post_set(vals):
    def post(P, rv):
        for n, k in vals: P.ensure('%s is set' % n, f(P, n, False) == P.args[k])
        kept(P, *[n for n, k in vals]); frame(P, mine(P))
        if any(n == 'user_data' for n, k in vals):
            has = f(P, 'free_user_data') != 0
            P.ensure('the previous user data is released once', P.loglen('free') == z3.If(has, 1, 0)); P.ensure('with itself', Imp(has, P.logat('free', I(0), 0) == f(P, 'user_data')))
        else: P.ensure('nothing is released', P.loglen('free') == 0)
    return post
UD = [('user_data', 1), ('free_user_data', 2)]
for fud in (False, True):
    w = 'previous user data %s' % ('owned' if fud else 'not owned')
    add('cork_mempool_set_user_data', lambda P, fud=fud: pool(P, fud=fud), post_set(UD), w, calls=ALLOC, indirect=ind_free)
    add('cork_mempool_set_callbacks', lambda P, fud=fud: pool(P, fud=fud), post_set(UD + [('init_object', 3), ('done_object', 4)]), w, calls=ALLOC, indirect=ind_free)
for n in ('init_object', 'done_object'): add('cork_mempool_set_' + n, lambda P: pool(P), post_set([(n, 1)]), None, calls=ALLOC)

# the end of a pool
def pre_end(done, fud):
    def pre(P):
        pool(P, done=done, fud=fud); P.g['done'] = done; P.g['fud'] = fud
        P.g['n'] = n = z3.Int('nf'); chain(P, n, fl, ofl, 'free_list', 'objects'); clear(P, n)
        P.g['nb'] = nb = z3.Int('nb'); chain(P, nb, blk, oblk, 'blocks', 'blocks')
        # the elements hold no header of a block and do not overlap the pool
        e = es(P)
        P.assume(FA([i, j], Imp(z3.And(0 <= i, i < n, 0 <= j, j < nb), z3.Or(fl(i) + 8 + e <= blk(j), blk(j) + 8 <= fl(i))), [z3.MultiPattern(fl(i), blk(j))]))
        P.assume(FA([i], Imp(z3.And(0 <= i, i < n), z3.Or(fl(i) + 8 + e <= P.args[0], P.args[0] + P.sizeof('cork_mempool') <= fl(i))), [fl(i)]))
        if not (done): P.st.ghost['visited'] = I(0)
    return pre
def ind_end(P, fp, a, ins):
    if P.g['fud'] and P.entails(fp == f(P, 'free_user_data')):
        P.log('free', a[0]); return None
    if P.g['done'] and P.entails(fp == f(P, 'done_object')):
        k = P.loglen('done')
        P.require('objects are finalized before the blocks are released', z3.BoolVal('objects' in P.st.regions))
        P.require('the user data has not been released', P.loglen('free') == 0)
        P.require('the next object is finalized', z3.And(k < P.g['n'], a[1] == fl(k) + 8)); P.require('the user data is passed on', a[0] == f(P, 'user_data'))
        P.log('done', a[0], a[1]); P.ex.havoc_ranges(P.st, [(a[1], es(P))], [1, 2, 4, 8]); return None
    return NotImplemented
def end_free(P, a, ins):
    if 'blocks' in P.st.regions and not P.entails(a[1] == P.args[0]):
        fam = P.st.regions['blocks']; k = fam.lo
        P.st.regions.pop('objects', None)
        P.require('the next block is released', z3.And(k < P.g['nb'], a[1] == blk(k))); P.require('with its size', a[2] == f(P, 'block_size'))
        P.ex.set_region(P.st, 'blocks', lo=S(k + 1)); return None
    return ALLOC['cork_alloc_free'](P, a, ins)
def links(at, own, lo, n): return lambda L: FA([x], Imp(z3.And(lo(L) <= own(x), own(x) < n, x == at(own(x))), Sel(L.H(8), x) == z3.If(own(x) == n - 1, 0, at(own(x) + 1))), [Sel(L.H(8), x)])
def inv_end(L):
    P = L.ctx; n, nb = P.g['n'], P.g['nb']; out = []
    for p in L.ptrs():
        out.append(('%s is the current object' % p, lambda L, p=p: z3.And(0 <= L.k, L.k <= n, L.val(p) == z3.If(L.k == n, 0, fl(L.k)))))
        out.append(('%s is the current block' % p, lambda L, p=p: z3.And(0 <= L.k, L.k <= nb, L.val(p) == z3.If(L.k == nb, 0, blk(L.k)))))
    out.append(('finalize calls', lambda L: L.ctx.loglen('done') == L.k))
    out.append(('all finalize calls', lambda L: L.ctx.loglen('done') == n))
    out.append(('finalized so far', lambda L: FA([j], Imp(z3.And(0 <= j, j < L.ctx.loglen('done')), z3.And(L.ctx.logat('done', j, 0) == f(L.ctx, 'user_data'), L.ctx.logat('done', j, 1) == fl(j) + 8)), [L.ctx.logat('done', j, 1)])))
    out.append(('blocks released', lambda L: L.st.regions['blocks'].lo == L.k if 'blocks' in L.st.regions else z3.BoolVal(False)))
    out.append(('extent of the blocks', lambda L: L.st.regions['blocks'].hi == nb if 'blocks' in L.st.regions else z3.BoolVal(False)))
    out.append(('no block is released', lambda L: L.st.regions['blocks'].lo == 0 if 'blocks' in L.st.regions else z3.BoolVal(False)))
    out.append(('the user data is kept', lambda L: L.ctx.loglen('free') == 0))
    out.append(('the pool is as it was', lambda L: z3.And([f(L.ctx, m, False) == f(L.ctx, m) for m in FIELDS])))
    out.append(('the pool but its blocks is as it was', lambda L: z3.And([f(L.ctx, m, False) == f(L.ctx, m) for m in FIELDS if m != 'blocks'])))
    out.append(('the pool holds the blocks not released', lambda L: z3.And(0 <= L.k, L.k <= nb, f(L.ctx, 'blocks', False) == z3.If(L.k == nb, 0, blk(L.k)))))
    out.append(('the free list is as it was', links(fl, ofl, lambda L: 0, n))); out.append(('the blocks are as they were', links(blk, oblk, lambda L: 0, nb)))
    return out
def post_end(P, rv):
    P.ensure('all objects have been given back', f(P, 'allocated_count') == 0)
    n, nb = P.g['n'], P.g['nb']
    if P.g['done']:
        P.ensure('every object is finalized once', P.loglen('done') == n)
        P.ensure('and nothing else', FA([j], Imp(z3.And(0 <= j, j < n), z3.And(P.logat('done', j, 0) == f(P, 'user_data'), P.logat('done', j, 1) == fl(j) + 8)), [P.logat('done', j, 1)]))
    P.ensure('every block is released', P.st.regions['blocks'].lo == nb); P.ensure('the pool is released', z3.BoolVal('pool' not in P.st.regions))
    if P.g['fud']: P.ensure('the user data is released once', z3.And(P.loglen('free') == 1, P.logat('free', I(0), 0) == f(P, 'user_data')))
    else: P.ensure('nothing else is released', P.loglen('free') == 0)
def ab(P, a, ins): P.ensure('gives up only when objects are in use', f(P, 'allocated_count') != 0); return End()
for d in (False, True):
    for u in (False, True):
        add('cork_mempool_free', pre_end(d, u), post_end, '%s finalize callback, user data %s' % ('with' if d else 'no', 'owned' if u else 'not owned'), calls=dict(ALLOC, cork_alloc_free=end_free, __assert_fail=ab, abort=ab, cork_abort_=ab), inv=inv_end, indirect=ind_end)
LEAKS = True
DRIVER_LIBS = []
TRUSTED = ['allocation contracts of specs/common.py (proved for the allocators of libcork by C22)', 'initialize and finalize callbacks touch only the object they are given and the client\'s own memory']
ASSUME = ['element and block sizes below 2^47', 'the in-use counter does not wrap (2^63 objects)', 'objects given back were obtained from the same pool and are in use']
EXPLANATION = 'Composition: the free objects and the objects in use partition the objects cut from the blocks; each contract moves exactly one object between the two (or adds the objects of one new block, pairwise disjoint by the ofs facts), so objects in use stay pairwise disjoint.'
