"""C04: element callbacks.  Each callback invocation is recorded in a ghost log; the contracts say exactly which
slots each log holds, in which order, and with which user data."""
from .arr import *
from .C03 import pre_append, post_append, post_clear, pre_range, post_range, post_ensure, pre_ensure, K as K3, get, post_copy
from lvc import libc
def sub(P, cbs): return tuple(c for c in CBS if c in cbs)
def post_done(tag='arr'):
    def post(P, rv):
        a = P.g['arr']
        if 'done' in a.cb: calls_exactly(P, a, 'done', a.ninit, lambda j: a.items + j * a.es, 'done')
        if P.g['fud']:
            P.ensure('the user data is freed once', z3.And(P.loglen('free') == 1, P.logat('free', I(0), 0) == a.ud))
        no_calls(P, *([c for c in ('done',) if c in a.cb] + (['free'] if P.g['fud'] else [])))
        P.ensure('the private part is released', z3.BoolVal('arr.priv' not in P.st.regions))
        P.ensure('the storage is released', z3.BoolVal('arr.items' not in P.st.regions))
    return post
def pre(null, cbs, fud=False):
    def f(P): array(P, P.args[0], null, cbs, free_ud=fud); P.g['fud'] = fud
    return f
def post_clear_cb(P, rv):
    a = P.g['arr']; post_clear(P, rv)
    calls_exactly(P, a, 'remove', a.ninit, lambda j: a.items + j * a.es, 'remove'); no_calls(P, 'remove')
def setter(f, arg=1):
    def post(P, rv):
        a = P.g['arr']
        for g in ('allocated_count', 'allocated_size', 'element_size', 'initialized_count', 'user_data', 'free_user_data') + CBS:
            w = {f: P.args[1]}.get(g, V(P, a.priv, g, True))
            if f == 'user_data' and g == 'free_user_data': w = P.args[2]
            P.ensure('%s' % g, V(P, a.priv, g) == w)
        for g in ('items', 'size', 'priv'): P.ensure(g, A(P, a.me, g) == A(P, a.me, g, True))
    return post
# remove_range with callbacks: win(x) = offset (within the removed range) of the byte found at offset x from the start of the range
win = z3.Function('win', z3.IntSort(), z3.IntSort())
def inv_range(L):
    j, x = z3.Int('j!c'), z3.Int('a!w')
    P = L.ctx; a = P.g['arr']; ptrs = L.ptrs()
    def facts(L):
        P = L.ctx; a, i, c = P.g['arr'], P.g['i'], P.g['c']
        rem = S(a.size - i - c)
        for k in (L.k, S(L.k + 1)): mono(P, a.es, k, rem, c, a.size)
        n2 = S(c * a.es)
        P.assume(FA([x], z3.And(Imp(z3.And(0 <= x, x < n2), win(x) == x), Imp(x >= n2, z3.And(win(x) == win(x - n2), 0 <= win(x), Imp(n2 > 0, win(x) < n2)))), [win(x)]))
        return z3.BoolVal(True)
    out = [('facts', facts)]
    def off(L, p): return S(L.val(p) - L.init(p))
    if len(ptrs) == 2:         # the swapping loop
        base = lambda L: S(L.ctx.g['arr'].items + L.ctx.g['i'] * L.ctx.g['arr'].es)
        n2 = lambda L: S(L.ctx.g['c'] * L.ctx.g['arr'].es)
        d = lambda L: S(L.k * L.ctx.g['arr'].es)
        for p in ptrs: out.append(('%s advances by an element' % p, lambda L, p=p: L.val(p) == L.init(p) + d(L)))
        out.append(('within the array', lambda L: z3.And(L.k >= 0, L.k <= L.ctx.g['arr'].size - L.ctx.g['i'] - L.ctx.g['c'])))
        out.append(('elements before the range are kept', lambda L: FA([x], Imp(z3.And(L.ctx.g['arr'].items <= x, x < base(L)), Sel(L.H(1), x) == L.ctx.o1(x)), [Sel(L.H(1), x)])))
        out.append(('moved elements', lambda L: FA([x], Imp(z3.And(base(L) <= x, x < base(L) + d(L)), Sel(L.H(1), x) == L.ctx.o1(S(x + n2(L)))), [Sel(L.H(1), x)])))
        out.append(('removed elements', lambda L: FA([x], Imp(z3.And(base(L) + d(L) <= x, x < base(L) + d(L) + n2(L)), Sel(L.H(1), x) == L.ctx.o1(S(base(L) + win(S(x - base(L)))))), [Sel(L.H(1), x)])))
        out.append(('the rest is untouched', lambda L: FA([x], Imp(z3.And(base(L) + d(L) + n2(L) <= x, x < L.ctx.g['arr'].items + L.ctx.g['arr'].bytes), Sel(L.H(1), x) == L.ctx.o1(x)), [Sel(L.H(1), x)])))
    else:
        first = lambda P: S(P.g['arr'].size - P.g['c'])
        for p in ptrs: out.append(('%s is the current slot' % p, lambda L, p=p: L.val(p) == L.ctx.g['arr'].items + first(L.ctx) * L.ctx.g['arr'].es + L.k * L.ctx.g['arr'].es))
        out.append(('within the range', lambda L: L.k <= L.ctx.g['c']))
        out.append(('one call per iteration', lambda L: L.ctx.loglen('remove') == L.k))
        out.append(('calls so far', lambda L: FA([j], Imp(z3.And(0 <= j, j < L.k), z3.And(L.ctx.logat('remove', j, 0) == L.ctx.g['arr'].ud, L.ctx.logat('remove', j, 1) == L.ctx.g['arr'].items + first(L.ctx) * L.ctx.g['arr'].es + j * L.ctx.g['arr'].es)), [L.ctx.logat('remove', j, 1)])))
        lo = lambda L: S(L.ctx.g['arr'].items + first(L.ctx) * L.ctx.g['arr'].es)
        hi = lambda L: S(lo(L) + L.ctx.g['c'] * L.ctx.g['arr'].es)
        out.append(('other slots are not touched by the callback', lambda L: FA([x], Imp(z3.Or(x < lo(L), x >= hi(L)), Sel(L.H(1), x) == Sel(L.H0(1), x)), [Sel(L.H(1), x)])))
        out.append(('slots not yet reached are as they were', lambda L: FA([x], Imp(x >= lo(L) + L.k * L.ctx.g['arr'].es, Sel(L.H(1), x) == Sel(L.H0(1), x)), [Sel(L.H(1), x)])))
    return out
def post_range_cb(P, rv):
    a = P.g['arr']; post_range(P, rv); c = P.g['c']; first = S(a.size - c)
    if 'remove' in a.cb: calls_exactly(P, a, 'remove', c, lambda j: a.items + first * a.es + j * a.es, 'remove'); no_calls(P, 'remove')
    else:
        no_calls(P)
        x = z3.Int('a!w'); b = S(a.items + P.g['i'] * a.es); d = S((a.size - P.g['i'] - c) * a.es)
        P.ensure('the slots given up hold the removed elements (each once)', FA([x], Imp(z3.And(b + d <= x, x < b + d + c * a.es), P.r1(x) == P.o1(S(b + win(S(x - b))))), [P.r1(x)]))
# copying with callbacks: remove on every initialized slot, reuse on the first ones, init on the rest, then copy on each
def rc(P): return z3.If(P.g['src'].size < P.g['arr'].ninit, P.g['src'].size, P.g['arr'].ninit)
def pre_copy(null, snull, cbs, fn):
    def f(P):
        a = array(P, P.args[0], null, cbs); b = array(P, P.args[1], snull, tag='src', writable=False)
        P.assume(b.es == a.es); P.init_log('copy', 3)
        if fn:
            P.assume(P.args[2] != 0)
            for g in a.cb.values(): P.assume(P.args[2] != g)
        else: P.assume(P.args[2] == 0)
        r = P.fresh('rc'); P.assume(r == rc(P)); P.g['rc'] = r
        P.g['counts'] = [b.size, r]; P.st.ghost['copyrc'] = I(0)
        mono(P, a.es, b.size, a.size, a.cnt, a.ninit, b.cnt, b.ninit, r)
        P.g['arr.base'] = lambda P: A(P, P.args[0], 'items')
        P.g['fn'] = fn
    return f
def copy_ind(P, fp, args, ins):
    if P.g['fn'] and P.entails(fp == P.args[2]):
        P.log('copy', *args); a = P.g['arr']
        P.ex.check_range(P.st, args[1], a.es, True, 'copy destination slot'); P.ex.check_range(P.st, args[2], a.es, False, 'copy source')
        P.ex.havoc_ranges(P.st, [(args[1], a.es)], [1])
        r = P.fresh('copied', 32); P.gset('copyrc', r); return r
    return callbacks()(P, fp, args, ins)
def inv_copy(L):
    j = z3.Int('j!k')
    P = L.ctx; b = P.g['src']; a = P.g['arr']
    out = loop_log('remove')(L)
    if A(P, a.me, 'items').eq(P.o8(a.me)): pass
    out = out + loop_log('reuse', count=lambda P, a: P.g['rc'])(L) + loop_log('init', first=lambda P, a: P.g['rc'], count=lambda P, a: P.g['src'].size - P.g['rc'])(L)
    out.append(('copy calls', lambda L: L.ctx.loglen('copy') == L.k))
    out.append(('copy count', lambda L: L.k <= L.ctx.g['src'].size))
    out.append(('no copy has failed', lambda L: L.ctx.gget('copyrc') == 0))
    for f in (0, 1, 2):
        want = lambda L, f=f: [L.ctx.args[3], slot_of(L.ctx, 'arr', j), slot_src(L.ctx, j)][f]
        out.append(('copy calls so far, argument %d' % f, lambda L, f=f, want=want: FA([j], Imp(z3.And(0 <= j, j < L.k), L.ctx.logat('copy', j, f) == want(L)), [L.ctx.logat('copy', j, f)])))
    for p in L.ptrs():
        out.append(('%s is the current source element' % p, lambda L, p=p: L.val(p) == slot_src(L.ctx, L.k)))
    return out
def slot_src(P, j): b = P.g['src']; return S(b.items + j * b.es)
def post_copy_cb(P, rv):
    a, b = P.g['arr'], P.g['src']; j = z3.Int('j!k'); fn = P.g['fn']; items = A(P, a.me, 'items')
    ok = P.gget('copyrc') == 0
    cnt, ni = V(P, a.priv, 'allocated_count'), V(P, a.priv, 'initialized_count'); r = P.g['rc']
    mono(P, a.es, cnt, b.size, ni, a.cnt, r)
    P.ensure('fails exactly when a copy fails', (rv == 0) == ok)
    P.ensure('as many elements', A(P, a.me, 'size') == z3.If(ok, b.size, 0))
    if not fn and not P.entails(b.size == 0): bytes_kept(P, items, b.items, b.used, 'the same elements')
    P.ensure('initialized slots', ni == z3.If(b.size > a.ninit, b.size, a.ninit))
    for c, n, slot in (('remove', a.ninit, lambda j: a.items + j * a.es), ('reuse', r, lambda j: items + j * a.es), ('init', S(b.size - r), lambda j: items + (r + j) * a.es)):
        if c in a.cb: calls_exactly(P, a, c, n, slot, c)
    if fn:
        n = P.loglen('copy')
        P.ensure('every element is copied unless one fails', z3.And(n <= b.size, Imp(ok, n == b.size)))
        for f, want in enumerate([lambda j: P.args[3], lambda j: items + j * a.es, lambda j: b.items + j * a.es]):
            P.ensure('copies in order, argument %d' % f, FA([j], Imp(z3.And(0 <= j, j < n), P.logat('copy', j, f) == want(j)), [P.logat('copy', j, f)]))
    no_calls(P, *[c for c in ('remove', 'reuse', 'init') if c in a.cb])
    wf_post(P, a); same_settings(P, a); fr(P, a)
K = K3
SPECS = []
def add(fn, pre, post, label, **kw): SPECS.append(Spec(fn, pre, post, label='%s (%s)' % (fn, label), **dict(K, **kw)))
for null in (True, False):
    w = 'no storage' if null else 'storage'
    for cbs in (CBS, ('init',), ('reuse',)): add('cork_raw_array_append', pre_append(null, cbs), post_append, w + ', ' + '+'.join(cbs))
    add('cork_raw_array_ensure_size', pre_ensure(null, CBS), post_ensure, w + ', callbacks')
    add('cork_raw_array_clear', pre(null, CBS), post_clear_cb, w + ', callbacks', inv=loop_log('remove'))
    for fud in (True, False):
        for cbs in (CBS, ()): add('cork_raw_array_done', pre(null, cbs, fud), post_done(), w + (', callbacks' if cbs else '') + (', user data' if fud else ''), inv=loop_log('done'))
for c in (True, False): add('cork_raw_array_remove_range', pre_range(False, CBS if c else ('done',)), post_range_cb, 'callbacks' if c else 'done callback only', inv=inv_range)
add('cork_raw_array_remove', pre_range(True, CBS), post_range_cb, 'callbacks', inv=inv_range)
for f in CBS: add('cork_raw_array_set_' + f, pre(False, CBS), setter(f), 'storage')
add('cork_raw_array_set_callback_data', pre(False, CBS), setter('user_data'), 'storage')
for null in (True, False):
    for sn in (True, False):
        for cbs in (CBS, ()):
            for fn in (True, False):
                if fn or cbs:
                    add('cork_raw_array_copy', pre_copy(null, sn, cbs, fn), post_copy_cb, '%s, source %s%s%s' % ('no storage' if null else 'storage', 'empty' if sn else 'with storage', ', callbacks' if cbs else '', ', copy function' if fn else ''), inv=inv_copy, indirect=copy_ind)
ASSUME = []
# pointer and string arrays
def fnaddr(P, name): return P.ex.gaddress(P.st, P.mod(), name)
def pre_ptr(null):
    def f(P):
        ud, v = P.args
        P.rec('ud', ud, 'cork_pointer_array', writable=False); P.region('slot', v, 8, ('words', 8))
        P.init_log('freed', 1); x = P.o8(v); P.assume(x == 0 if null else x > 0)
        P.g['value'] = x; P.g['free'] = P.o8(ud)
    return f
def ptr_ind(P, fp, args, ins):
    P.require('the registered free function is called', fp == P.g['free'])
    P.log('freed', args[0])
def post_ptr(null, clear):
    def post(P, rv):
        v = P.args[1]
        P.ensure('a stored pointer is freed once, NULL is not freed', P.loglen('freed') == (0 if null else 1))
        if not null: P.ensure('the stored pointer is the one freed', P.logat('freed', I(0)) == P.g['value'])
        if clear: P.ensure('the slot is emptied, so that it is not freed again', P.r8(v) == 0)
        frame(P, lambda a: z3.And(v <= a, a < v + 8), 'nothing but the slot changes')
    return post
def pre_pinit(P): P.region('slot', P.args[1], 8, ('words', 8))
def post_pinit(P, rv): P.ensure('a new slot holds NULL', P.r8(P.args[1]) == 0)
def pre_pfree(P): P.rec('ud', P.args[0], 'cork_pointer_array', heap=True)
def post_pfree(P, rv): P.ensure('the callback data is released', z3.BoolVal('ud' not in P.st.regions))
def pre_pai(P): P.rec('arr', P.args[0], 'cork_raw_array')
def post_pai(free):
    def post(P, rv):
        me = P.args[0]; pv = A(P, me, 'priv'); ud = V(P, pv, 'user_data')
        P.ensure('empty array of pointers', z3.And(A(P, me, 'items') == 0, A(P, me, 'size') == 0, V(P, pv, 'element_size') == 8, V(P, pv, 'initialized_count') == 0, V(P, pv, 'allocated_count') == 0, V(P, pv, 'allocated_size') == 0))
        for c, fn in (('init', 'pointer__init'), ('done', 'pointer__done'), ('remove', 'pointer__remove'), ('free_user_data', 'pointer__free')):
            P.ensure('%s callback' % c, V(P, pv, c) == fnaddr(P, fn))
        P.ensure('no reuse callback', V(P, pv, 'reuse') == 0)
        P.ensure('the free function is recorded', P.r8(ud) == free(P))
        owned(P, ud, I(8), 'callback data is a live block'); owned(P, pv, I(P.sizeof('cork_array_priv')), 'private part is a live block')
    return post
# appending a string: over the contract of cork_raw_array_append (proved above) on pointer slots
def h_append8(P, a, ins):
    """one element more: the old ones are kept; the new slot is initialized"""
    me = a[0]; P.require('appends to the given array', me == P.args[0])
    n = A(P, me, 'size'); items = A(P, me, 'items'); H = P.H(8)
    r = P.ex.new_region(P.st, 'items', P.fresh('cap'), ('any',), heap=True)
    P.assume(r.size >= n * 8 + 8)
    P.ex.range_update(P.st, r.lo, S(n * 8), lambda w, x: Sel(H, S(x - r.lo + items)), {8})
    P.st.regions.pop('arr.items', None); P.ex.touch(P.st, ('region', 'arr.items'))
    P.ex.hwrite(P.st, 8, S(me + P.off('cork_raw_array', 'items')), r.lo); P.ex.hwrite(P.st, 8, S(me + P.off('cork_raw_array', 'size')), S(n + 1))
    return S(r.lo + n * 8)
def pre_sapp(P):
    me, s = P.args
    P.rec('arr', me, 'cork_raw_array'); n = A(P, me, 'size', True); it = A(P, me, 'items', True)
    P.assume(z3.And(0 <= n, n < (1 << 40))); P.region("arr.items", it, S(n * 8 + 8), ('words', 8), heap=True)
    l = P.fresh('len'); P.assume(l < BIG); P.region('str', s, S(l + 1), ('bytes',), writable=False)
    i = z3.Int('i!z'); P.assume(z3.And(P.o1(S(s + l)) == 0, FA([i], Imp(z3.And(s <= i, i < s + l), P.o1(i) != 0), [P.o1(i)])))
    P.st.zstr = P.st.zstr + [(s, l)]; P.g['len'] = l
def copied(P, p, s, l):
    x = z3.Int('a!s')
    P.ensure('a copy of the string', z3.And(P.r1(S(p + l)) == 0, FA([x], Imp(z3.And(p <= x, x < p + l), P.r1(x) == P.o1(S(x - p + s))), [P.r1(x)])))
    P.ensure('an allocated copy, not the string itself', z3.Or([S(r.lo + 8) == p for t, r in P.st.regions.items() if t.startswith('str#')] or [z3.BoolVal(False)]))
def post_sapp(P, rv):
    me, s = P.args; n = A(P, me, 'size', True); x = z3.Int('a!s')
    P.ensure('one string more', A(P, me, 'size') == n + 1)
    it, it0 = A(P, me, 'items'), A(P, me, 'items', True)
    P.ensure('the strings already there are kept', FA([x], Imp(z3.And(it <= x, x < it + n * 8), P.r8(x) == P.o8(S(x - it + it0))), [P.r8(x)]))
    copied(P, P.r8(S(it + n * 8)), s, P.g['len'])
def pre_scopy(P):
    ud, d, sp = P.args
    P.region('dst', d, 8, ('words', 8)); P.region('src', sp, 8, ('words', 8), writable=False); s = P.o8(sp)
    l = P.fresh('len'); P.assume(l < BIG); P.region('str', s, S(l + 1), ('bytes',), writable=False)
    i = z3.Int('i!z'); P.assume(z3.And(P.o1(S(s + l)) == 0, FA([i], Imp(z3.And(s <= i, i < s + l), P.o1(i) != 0), [P.o1(i)])))
    P.st.zstr = P.st.zstr + [(s, l)]; P.g['len'] = l; P.g['s'] = s
def post_scopy(P, rv): P.ensure('never fails', rv == 0); copied(P, P.r8(P.args[1]), P.g['s'], P.g['len'])
def h_rcopy(P, a, ins):
    P.require('copies these arrays with the string copier', z3.And(a[0] == P.args[0], a[1] == P.args[1], a[2] == fnaddr(P, 'string__copy')))
    P.gset('copies', P.gget('copies') + 1); return I(0)
def pre_sacopy(P): P.st.ghost['copies'] = I(0)
SPECS += [Spec('pointer__init', pre_pinit, post_pinit, **K), Spec('pointer__free', pre_pfree, post_pfree, **K),
          Spec('cork_raw_pointer_array_init', pre_pai, post_pai(lambda P: P.args[1]), **K),
          Spec('cork_string_array_init', pre_pai, post_pai(lambda P: fnaddr(P, 'cork_strfree')), **K),
          Spec('cork_string_array_append', pre_sapp, post_sapp, **dict(K, calls=dict(K['calls'], cork_raw_array_append=h_append8))),
          Spec('string__copy', pre_scopy, post_scopy, **K),
          Spec('cork_string_array_copy', pre_sacopy, lambda P, rv: P.ensure('the arrays are copied once', P.gget('copies') == 1), **dict(K, calls=dict(K['calls'], cork_raw_array_copy=h_rcopy)))]
for null in (True, False):
    for fn, clear in (('pointer__done', False), ('pointer__remove', True)):
        SPECS.append(Spec(fn, pre_ptr(null), post_ptr(null, clear), indirect=ptr_ind, label='%s (%s)' % (fn, 'NULL' if null else 'pointer'), calls=K['calls']))
ASSUME = []
