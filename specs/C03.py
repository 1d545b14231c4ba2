"""C03: growable arrays keep their elements.  Bytes of element i: items[i*element_size ..]."""
from .arr import *
def pre(null, cbs=(), **kw):
    def f(P): array(P, P.args[0], null, cbs, **kw)
    return f
def post_init(P, rv):
    me = P.args[0]; pv = A(P, me, 'priv')
    P.ensure('empty', z3.And(A(P, me, 'items') == 0, A(P, me, 'size') == 0))
    P.ensure('no slots', z3.And([V(P, pv, f) == 0 for f in ('allocated_count', 'allocated_size', 'initialized_count')]))
    P.ensure('element size is recorded', V(P, pv, 'element_size') == P.args[1])
    P.ensure('no callbacks and no user data', z3.And([V(P, pv, f) == 0 for f in CBS + ('user_data', 'free_user_data')]))
    owned(P, pv, I(P.sizeof('cork_array_priv')), 'private part is a live block')
def pre_ensure(null, cbs=()):
    def f(P):
        a = array(P, P.args[0], null, cbs); d = P.args[1]
        mono(P, a.es, d, a.cnt, a.size, a.ninit)
    return f
def post_ensure(P, rv):
    a = P.g['arr']; d = P.args[1]
    items, cnt, by = A(P, a.me, 'items'), V(P, a.priv, 'allocated_count'), V(P, a.priv, 'allocated_size')
    mono(P, a.es, d, cnt, a.cnt, V(P, a.priv, 'initialized_count'))
    P.ensure('the request is never beyond what can be represented', d * a.es < (1 << 64))
    P.ensure('as many slots as requested', cnt >= d)
    P.ensure('slots never go away', cnt >= a.cnt)
    P.ensure('size and initialized slots are unchanged', z3.And(A(P, a.me, 'size') == a.size, V(P, a.priv, 'initialized_count') == a.ninit))
    if not P.entails(a.items == 0): bytes_kept(P, items, a.items, a.bytes, 'all elements are kept in place')
    wf_post(P, a); same_settings(P, a); no_calls(P); fr(P, a)
def pre_append(null, cbs=()):
    def f(P):
        a = array(P, P.args[0], null, cbs)
        mono(P, a.es, a.size, S(a.size + 1), a.cnt, a.ninit, I(0), I(1))
    return f
def post_append(P, rv):
    a = P.g['arr']; items = A(P, a.me, 'items'); cnt = V(P, a.priv, 'allocated_count'); ni = V(P, a.priv, 'initialized_count')
    mono(P, a.es, cnt, S(a.size + 1), a.size, ni, a.cnt)
    P.ensure('one element more', A(P, a.me, 'size') == a.size + 1)
    P.ensure('returns the new last element', rv == items + a.used)
    bytes_kept(P, items, a.items, a.used, 'the existing elements keep their bytes and positions')
    P.ensure('the new element fits', items + a.used + a.es <= items + V(P, a.priv, 'allocated_size'))
    fresh = a.size == a.ninit
    P.ensure('initialized slots', ni == z3.If(fresh, a.ninit + 1, a.ninit))
    for c, cond in (('init', fresh), ('reuse', z3.Not(fresh))):
        if c in a.cb:
            P.ensure('%s is called exactly when it should' % c, P.loglen(c) == z3.If(cond, 1, 0))
            P.ensure('%s is given the new slot and the user data' % c, Imp(cond, z3.And(P.logat(c, I(0), 0) == a.ud, P.logat(c, I(0), 1) == rv)))
    no_calls(P, *[c for c in ('init', 'reuse') if c in a.cb])
    wf_post(P, a); same_settings(P, a); fr(P, a)
def pre_range(one, cbs=()):
    def f(P):
        a = array(P, P.args[0], False, cbs)
        i = P.args[1]; c = I(1) if one else P.args[2]
        P.assume(i + c <= a.size)
        mono(P, a.es, i, c, S(i + c), a.size, a.ninit, a.cnt, S(a.size - i - c), S(a.size - c))
        P.g['i'], P.g['c'] = i, c
    return f
def post_range(P, rv):
    a = P.g['arr']; i, c = P.g['i'], P.g['c']; es = a.es
    P.ensure('that many elements fewer', A(P, a.me, 'size') == a.size - c)
    P.ensure('storage and slots are kept', z3.And(A(P, a.me, 'items') == a.items, V(P, a.priv, 'allocated_count') == a.cnt, V(P, a.priv, 'initialized_count') == a.ninit))
    it = a.items
    bytes_kept(P, it, it, S(i * es), 'the elements before the range are kept')
    bytes_kept(P, S(it + i * es), S(it + (i + c) * es), S((a.size - i - c) * es), 'the elements after the range follow them, in order')
    x = z3.Int('a!q')
    P.ensure('slots beyond the array are untouched', FA([x], Imp(z3.And(it + a.used <= x, x < it + a.bytes), P.r1(x) == P.o1(x)), [P.r1(x)]))
    wf_post(P, a); same_settings(P, a); fr(P, a)
    if not a.cb: no_calls(P)
def post_clear(P, rv):
    a = P.g['arr']
    P.ensure('empty', A(P, a.me, 'size') == 0)
    P.ensure('storage and slots are kept', z3.And(A(P, a.me, 'items') == a.items, V(P, a.priv, 'allocated_count') == a.cnt, V(P, a.priv, 'initialized_count') == a.ninit))
    wf_post(P, a); same_settings(P, a); fr(P, a)
    if not a.cb: no_calls(P)
def get(f):
    def post(P, rv):
        P.ensure('the value asked for', rv == f(P)); frame(P, lambda x: z3.BoolVal(False), 'looking changes nothing')
    return post
def pre_at(P): a = array(P, P.args[0], False); P.assume(P.args[1] < a.size); mono(P, a.es, P.args[1], a.size, a.cnt)
def pre_copy(null, snull, cbs=()):
    def f(P):
        a = array(P, P.args[0], null, cbs); b = array(P, P.args[1], snull, tag='src', writable=False)
        P.assume(z3.And(b.es == a.es, P.args[2] == 0)); P.ex.quick
        mono(P, a.es, b.size, a.size, a.cnt, a.ninit, b.cnt, b.ninit)
        P.g['counts'] = [b.size]
    return f
def post_copy(P, rv):
    a, b = P.g['arr'], P.g['src']
    cnt, ni = V(P, a.priv, 'allocated_count'), V(P, a.priv, 'initialized_count')
    mono(P, a.es, cnt, b.size, ni, a.cnt)
    P.ensure('succeeds', rv == 0)
    P.ensure('as many elements', A(P, a.me, 'size') == b.size)
    if not P.entails(b.size == 0): bytes_kept(P, A(P, a.me, 'items'), b.items, b.used, 'the same elements')
    P.ensure('initialized slots', ni == z3.If(b.size > a.ninit, b.size, a.ninit))
    wf_post(P, a); same_settings(P, a); fr(P, a)
    if not a.cb: no_calls(P)
def h_fprintf(P, a, ins): return P.fresh('printed', 32)
K = dict(calls=dict(ALLOC, fprintf=h_fprintf, abort=abort_ok), indirect=callbacks())
SPECS = [Spec('cork_raw_array_init', lambda P: P.rec('arr', P.args[0], 'cork_raw_array'), post_init, **K)]
def add(fn, pre, post, label, **kw): SPECS.append(Spec(fn, pre, post, label='%s (%s)' % (fn, label), **dict(K, **kw)))
for null in (True, False):
    w = 'no storage' if null else 'storage'
    add('cork_raw_array_ensure_size', pre_ensure(null), post_ensure, w)
    add('cork_raw_array_append', pre_append(null), post_append, w)
    add('cork_raw_array_clear', pre(null), post_clear, w)
    for s in (True, False): add('cork_raw_array_copy', pre_copy(null, s), post_copy, w + ', source ' + ('empty' if s else 'with storage'))
    add('cork_raw_array_size', pre(null), get(lambda P: P.g['arr'].size), w)
    add('cork_raw_array_is_empty', pre(null), get(lambda P: z3.If(P.g['arr'].size == 0, I(1), I(0))), w)
    add('cork_raw_array_elements', pre(null), get(lambda P: P.g['arr'].items), w)
    add('cork_raw_array_element_size', pre(null), get(lambda P: P.g['arr'].es), w)
add('cork_raw_array_at', pre_at, get(lambda P: P.g['arr'].items + P.args[1] * P.g['arr'].es), 'storage')
add('cork_raw_array_remove_range', pre_range(False), post_range, 'no callbacks')
add('cork_raw_array_remove', pre_range(True), post_range, 'no callbacks')
ASSUME = []
