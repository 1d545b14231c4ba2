"""C07: ring buffers are bounded FIFO queues.  Abstract view: item(i) = elements[(read + i) mod n], i < size."""
from lvc.spec import *
from .common import ALLOC, frame
WRAPPERS = ['ds.c']
def fld(P, f, old=False):
    a = P.args[0] + P.off('cork_ring_buffer', f)
    return P.o8(a) if old else P.r8(a)
def wf(n, size, r, w):
    s = r + size
    return z3.And(0 <= size, size <= n, 0 <= r, 0 <= w, z3.If(n == 0, z3.And(r == 0, w == 0), z3.And(r < n, w == z3.If(s >= n, s - n, s))))
def state(P, old):
    return [fld(P, f, old) for f in ('elements', 'allocated_size', 'size', 'read_index', 'write_index')]
def item(P, i, old, heap_old=None):
    e, n, size, r, w = state(P, old)
    x = r + i
    a = e + 8 * z3.If(x >= n, x - n, x)
    return P.o8(a) if old else P.r8(a)
def pre(P):
    P.rec('self', P.args[0], 'cork_ring_buffer', heap=True)
    e, n, size, r, w = state(P, True)
    P.assume(z3.And(n >= 0, n < (1 << 58)))
    P.assume(wf(n, size, r, w))
    P.region('elements', e, 8 * n, ('words', 8), heap=True)
def inv_post(P):
    e0, n0, s0, r0, w0 = state(P, True); e, n, s, r, w = state(P, False)
    P.ensure('capacity and storage are kept', z3.And(e == e0, n == n0))
    P.ensure('representation invariant is kept', wf(n, s, r, w))
    return n0, s0, s
def inside(P):
    me = P.args[0]
    e0, n0 = state(P, True)[:2]
    return lambda a: z3.Or(z3.And(me <= a, a < me + P.sizeof('cork_ring_buffer')), z3.And(e0 <= a, a < e0 + 8 * n0))
def post_add(P, rv):
    n, s0, s = inv_post(P)
    i = z3.Int('i!q')
    P.ensure('accepted exactly when not full', z3.And((rv == 0) == (s0 < n), z3.Or(rv == 0, rv == (1 << 32) - 1)))
    P.ensure('size after add', s == z3.If(s0 < n, s0 + 1, s0))
    P.ensure('earlier elements keep their place', FA([i], Imp(z3.And(0 <= i, i < s0), item(P, i, False) == item(P, i, True))))
    P.ensure('the new element is last', Imp(rv == 0, item(P, s0, False) == P.args[1]))
    frame(P, inside(P))
def post_pop(P, rv):
    n, s0, s = inv_post(P)
    i = z3.Int('i!q')
    P.ensure('pop yields the oldest element, or NULL when empty', rv == z3.If(s0 == 0, 0, item(P, I(0), True)))
    P.ensure('size after pop', s == z3.If(s0 == 0, 0, s0 - 1))
    P.ensure('the others move up by one', FA([i], Imp(z3.And(0 <= i, i < s0 - 1), item(P, i, False) == item(P, i + 1, True))))
    frame(P, inside(P))
def post_peek(P, rv):
    e0, n0, s0, r0, w0 = state(P, True)
    P.ensure('peek yields the oldest element, or NULL when empty', rv == z3.If(s0 == 0, 0, item(P, I(0), True)))
    frame(P, lambda a: z3.BoolVal(False), 'peek changes nothing')
def post_q(f):
    def post(P, rv):
        e0, n0, s0, r0, w0 = state(P, True)
        P.ensure('result', (rv != 0) == f(n0, s0))
        frame(P, lambda a: z3.BoolVal(False), 'a query changes nothing')
    return post
def pre_init(P):
    P.rec('self', P.args[0], 'cork_ring_buffer')
    P.assume(P.args[1] < (1 << 58))
def owned(P, me, n):
    e = P.r8(me + P.off('cork_ring_buffer', 'elements'))
    rs = [r for r in P.st.regions.values() if not r.family and r.heap and P.entails(r.lo == e)]
    P.ensure('the storage is a live block of capacity pointers', z3.BoolVal(False) if not rs else rs[0].size == 8 * n)
def post_init(P, rv):
    e, n, s, r, w = state(P, False)
    P.ensure('returns 0', rv == 0)
    P.ensure('empty, with the requested capacity', z3.And(n == P.args[1], s == 0))
    P.ensure('representation invariant', wf(n, s, r, w))
    owned(P, P.args[0], P.args[1])
def post_new(P, rv):
    f = lambda x: P.r8(rv + P.off('cork_ring_buffer', x))
    P.ensure('empty, with the requested capacity', z3.And(f('allocated_size') == P.args[0], f('size') == 0))
    P.ensure('representation invariant', wf(f('allocated_size'), f('size'), f('read_index'), f('write_index')))
    owned(P, rv, P.args[0])
def post_done(P, rv): P.ensure('the storage is released', z3.BoolVal('elements' not in P.st.regions))
def post_free(P, rv): P.ensure('everything is released', z3.BoolVal('elements' not in P.st.regions and 'self' not in P.st.regions))
SPECS = [
    Spec('cork_ring_buffer_add', pre, post_add, calls=ALLOC),
    Spec('cork_ring_buffer_pop', pre, post_pop, calls=ALLOC),
    Spec('cork_ring_buffer_peek', pre, post_peek, calls=ALLOC),
    Spec('w_rb_is_empty', pre, post_q(lambda n, s: s == 0), calls=ALLOC),
    Spec('w_rb_is_full', pre, post_q(lambda n, s: s == n), calls=ALLOC),
    Spec('cork_ring_buffer_init', pre_init, post_init, calls=ALLOC),
    Spec('cork_ring_buffer_new', lambda P: P.assume(P.args[0] < (1 << 58)), post_new, calls=ALLOC),
    Spec('cork_ring_buffer_done', pre, post_done, calls=ALLOC),
    Spec('cork_ring_buffer_free', pre, post_free, calls=ALLOC),
]
