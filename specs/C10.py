"""C10: managed buffers.  The reference count is the number of references held (by clients and by live slices);
each contract says exactly how one operation changes it and that the free action runs exactly when it reaches zero."""
from .sl import *
from .buf import buffer, F
WRAPPERS = ['slice.c', 'buffer.c']
SPECS = []
def indirect(P, fp, args, ins): return (m_free if len(args) != 1 or P.g.get('mine', True) else methods)(P, fp, args, ins)
def add(fn, pre, post, label=None, **kw):
    def p(P): start(P); P.init_log('freed', 2); P.init_log('freer', 3); pre(P)
    SPECS.append(Spec(fn, p, post, label=(fn + ' (%s)' % label) if label else fn, calls=CALLS, indirect=m_free, **kw))
def pre_m(i=0, slots=(), refs=1):
    def f(P):
        for k in slots: slot(P, P.args[k], 's%d' % k)
        P.g['m'] = managed(P, P.args[i], refs=refs); P.g['at'] = P.args[i]
    return f
def intact(P, refs, frees=False):
    """the buffer's description is untouched, it has `refs` references, and it is freed exactly when that is none"""
    m = P.g['at']; buf, n, rc = P.g['m']
    P.ensure('the buffer still describes the same bytes', z3.And(*[mf(P, m, f) == mf(P, m, f, True) for f in ('buf', 'size', 'iface')]))
    P.ensure('references held', mf(P, m, 'ref_count') == refs)
    P.ensure('freed once when the last reference goes, and not before', P.loglen('freed') == (z3.If(refs == 0, 1, 0) if frees else 0))
    if frees: P.ensure('by its own free action', Imp(refs == 0, z3.And(P.logat('freed', I(0), 0) == P.g['m.free'], P.logat('freed', I(0), 1) == m)))
def rest(P, *slots):
    m = P.g['at']; ok = [(m, P.sizeof('cork_managed_buffer'))] + [(p, 32) for p in slots]
    frame(P, lambda a: z3.Or([z3.And(p <= a, a < p + n) for p, n in ok]))
def rc0(P): return P.g['m'][2]
add('cork_managed_buffer_ref', pre_m(), lambda P, rv: (intact(P, rc0(P) + 1), P.ensure('the same buffer', rv == P.args[0]), rest(P)))
add('cork_managed_buffer_unref', pre_m(), lambda P, rv: (intact(P, rc0(P) - 1, True), rest(P)))
# slicing
def sl(fn, oo, null):
    def pre(P):
        slot(P, P.args[0], 'd')
        if null: P.assume(P.args[1] == 0); P.g['at'] = P.args[1]
        else: P.g['m'] = managed(P, P.args[1]); P.g['at'] = P.args[1]
    def post(P, rv):
        if null: cleared(P, P.args[0], 'nothing to give back'); P.ensure('nothing freed', P.loglen('freed') == 0); return
        buf, n, rc = P.g['m']; o = P.args[2]; l = S(n - o) if oo else P.args[3]
        def yes(P): P.ensure('succeeds', rv == 0); intact(P, rc + 1); P.ensure('the slice refers to the buffer', sf(P, P.args[0], 'user_data') == P.args[1])
        def no(P): P.ensure('fails', rv == FAILED); intact(P, rc); cleared(P, P.args[0], 'nothing to give back')
        branch(P, inside(o, l, n), yes, no); rest(P, P.args[0])
    add(fn, pre, post, 'no buffer' if null else None)
for nl in (False, True): sl('cork_managed_buffer_slice', False, nl); sl('cork_managed_buffer_slice_offset', True, nl)
# slices of slices: every copy holds a reference of its own
def chain(op):
    two = op != 'narrow'
    def A(P): return tuple(P.args) if two else (None,) + tuple(P.args)
    def pre(P):
        d, s, m = A(P)[:3]
        if two: slot(P, d, 'd')
        slot(P, s, 's'); P.g['m'] = managed(P, m); P.g['at'] = m
    def post(P, rv):
        d, s, m, o, l, o2, l2 = A(P); buf, n, rc = P.g['m']
        ok1, ok2 = inside(o, l, n), inside(o2, l2, l)
        def yes(P):
            intact(P, rc + (2 if two else 1))
            for p in ([d, s] if two else [s]): P.ensure('the slice refers to the buffer', sf(P, p, 'user_data') == m)
        def bad2(P):
            intact(P, rc + 1); P.ensure('the slice refers to the buffer', sf(P, s, 'user_data') == m)
            if two: cleared(P, d, 'nothing to give back')
        def no(P): intact(P, rc); cleared(P, s, 'nothing to give back')
        branch(P, ok1, lambda P: branch(P, ok2, yes, bad2), no)
    add('w_managed_' + op, pre, post)
for op in ('copy', 'light_copy', 'narrow'): chain(op)
def pre_f(P):
    slot(P, P.args[0], 's'); P.g['m'] = managed(P, P.args[1]); P.g['at'] = P.args[1]
add('w_managed_finish', pre_f, lambda P, rv: (intact(P, rc0(P)), cleared(P, P.args[0]), rest(P, P.args[0])))
def pre_h(P): pre_f(P); P.assume(inside(P.args[2], P.args[3], P.g['m'][1]))
add('w_managed_hand_over', pre_h, lambda P, rv: (intact(P, rc0(P) - 1, True), cleared(P, P.args[0]), rest(P, P.args[0])))
# creation and the library's own free actions
def nothing_left(P, but=()):
    left = [t for t, r in P.st.regions.items() if not r.family and r.heap and t not in but]
    P.ensure('everything allocated is released', z3.BoolVal(not left))
def fresh_m(P, rv, buf, n):
    P.ensure('describes the bytes', z3.And(mf(P, rv, 'buf') == buf, mf(P, rv, 'size') == n))
    P.ensure('one reference', mf(P, rv, 'ref_count') == 1)
    P.ensure('nothing freed', z3.And(P.loglen('freed') == 0, P.loglen('freer') == 0))
    frame(P, lambda a: z3.BoolVal(False))
def pre_new(P): P.assume(z3.And(P.args[0] > 0, P.args[2] > 0)); data(P, P.args[0], P.args[1])
add('cork_managed_buffer_new', pre_new, lambda P, rv: fresh_m(P, rv, P.args[0], P.args[1]))
def pre_cp(P): P.assume(P.args[0] > 0); data(P, P.args[0], P.args[1])
def post_cp(P, rv):
    x = z3.Int('a!c'); nb = mf(P, rv, 'buf'); n = P.args[1]
    blocks = [r for t, r in P.st.regions.items() if not r.family and r.heap]
    P.ensure('a live heap block holds the bytes', z3.Or([z3.And(r.lo <= nb, nb + n <= r.lo + r.size) for r in blocks] + [z3.BoolVal(False)]))
    P.ensure('the same bytes', FA([x], Imp(z3.And(nb <= x, x < nb + n), P.r1(x) == P.o1(x - nb + P.args[0])), [P.r1(x)]))
    fresh_m(P, rv, nb, n)
add('cork_managed_buffer_new_copy', pre_cp, post_cp)
def post_life(P, rv):
    P.ensure('the freer runs exactly once', P.loglen('freer') == 1)
    P.ensure('on those bytes', z3.And(*[P.logat('freer', I(0), i) == v for i, v in enumerate([P.args[2], P.args[0], P.args[1]])]))
    nothing_left(P); frame(P, lambda a: z3.BoolVal(False))
add('w_new_life', pre_new, post_life)
add('w_copied_life', pre_cp, lambda P, rv: (nothing_left(P), frame(P, lambda a: z3.BoolVal(False))))
def pre_b(null):
    def f(P):
        P.g['b'] = buffer(P, P.args[0], null)
        if len(P.args) > 1: slot(P, P.args[1], 's')
    return f
def post_bm(P, rv):
    fresh_m(P, rv, P.g['b'][0], P.g['b'][1]); P.ensure('the buffer lives on', z3.BoolVal('b' in P.st.regions))
for null in (True, False):
    w = 'empty' if null else 'with storage'
    add('cork_buffer_to_managed_buffer', pre_b(null), post_bm, w)
    add('w_buffer_managed_life', pre_b(null), lambda P, rv: nothing_left(P), w)
    def post_bs(P, rv, null=null):
        buf, n, _ = P.g['b']; ud = sf(P, P.args[1], 'user_data')
        P.ensure('succeeds', rv == 0); denotes(P, P.args[1], buf, n, 'the whole content')
        ms = [r for t, r in P.st.regions.items() if not r.family and r.heap and t not in ('b', 'b.buf')]
        P.ensure('one managed buffer is created', z3.And(z3.BoolVal(len(ms) == 1), *[r.lo == ud for r in ms]))
        P.ensure('the slice holds its only reference', mf(P, ud, 'ref_count') == 1)
        P.ensure('the buffer lives on', z3.BoolVal('b' in P.st.regions and (null or 'b.buf' in P.st.regions)))
    add('cork_buffer_to_slice', pre_b(null), post_bs, w)
    add('w_buffer_slice_life', pre_b(null), lambda P, rv: (nothing_left(P), cleared(P, P.args[1])), w)
# copy-once slices become managed on their first copy
def pre_o(k):
    def f(P):
        for i in range(k): slot(P, P.args[i], 's%d' % i)
        P.assume(P.args[k] > 0); data(P, P.args[k], P.args[k + 1]); P.assume(inside(P.args[k + 2], P.args[k + 3], P.args[k + 1]))
    return f
def post_o(k):
    def f(P, rv):
        P.ensure('succeeds', rv == 0); ud = sf(P, P.args[0], 'user_data')
        ms = [r for t, r in P.st.regions.items() if not r.family and r.heap]
        P.ensure('one managed buffer is created', z3.And(z3.BoolVal(len(ms) == 1), *[r.lo == ud for r in ms]))
        P.ensure('shared by all slices', z3.And(*[sf(P, P.args[i], 'user_data') == ud for i in range(k)]))
        P.ensure('each holds one reference', mf(P, ud, 'ref_count') == k)
    return f
add('w_once_copy', pre_o(2), post_o(2)); add('w_once_copy_twice', pre_o(3), post_o(3))
add('w_once_life', pre_o(2), lambda P, rv: (nothing_left(P), cleared(P, P.args[0]), cleared(P, P.args[1])))
ASSUME = ['a reference is only dropped by someone who holds one (ref_count >= 1), and fewer than 2^30 references exist (the count is an int)',
          'the count is updated without synchronisation: one thread at a time', 'a client-supplied free action does not touch the slices or other buffers',
          'method tables (file-local objects that their file never writes to) keep their initial contents']
EXPLANATION = 'Induction over histories: the count equals the references held after each operation because every contract changes both by the same amount; the free action is reached only through unref at zero.'
DRIVER = 'slices.c'
LEAKS = True
