"""C01: doubly-linked lists are sequences.  Abstract view of a list: the ghost sequence
base(0) = sentinel, base(1..n) = elements, with next/prev links closing the ring."""
from lvc.spec import *

WRAPPERS = ['dllist.c']
NEXT, PREV = 0, 8
_n = [0]

def ring(P, name, n=None):
    """precondition: a well-formed list; returns (base, own, n)"""
    base = z3.Function('base_' + name, z3.IntSort(), z3.IntSort())
    own = z3.Function('own_' + name, z3.IntSort(), z3.IntSort())
    n = z3.Int('n_' + name) if n is None else n
    NX, PV = P.off('cork_dllist_item', 'next'), P.off('cork_dllist_item', 'prev')
    P.assume(z3.And(n >= 0, n < (1 << 60)))
    kind = P.reckind('cork_dllist_item')
    fam = P.family('list_' + name, base, own, I(0), n + 1, kind)
    i = z3.Int('i!r')
    P.assume(FA([i], Imp(z3.And(0 <= i, i <= n), z3.And(own(base(i)) == i, own(base(i) + NX) == i, own(base(i) + PV) == i)), [base(i)]))
    a = z3.Int('a!r')
    h = P.H(8)
    for off, f in ((NX, lambda j: z3.If(j == n, 0, j + 1)), (PV, lambda j: z3.If(j == 0, n, j - 1))):
        j = own(a)
        P.assume(FA([a], Imp(z3.And(0 <= j, j <= n, a == base(j) + off), Sel(h, a) == base(f(j))), [Sel(h, a)]))
    return base, own, n

def is_ring(P, base, n, what):
    """postcondition: the list at base(0) is exactly base(1..n), forwards and backwards"""
    NX, PV = P.off('cork_dllist_item', 'next'), P.off('cork_dllist_item', 'prev')
    i = z3.Int('i!p')
    P.ensure(what + ': forward links spell the sequence', FA([i], Imp(z3.And(0 <= i, i <= n), P.r8(base(i) + NX) == base(z3.If(i == n, I(0), i + 1)))))
    P.ensure(what + ': backward links spell the sequence', FA([i], Imp(z3.And(0 <= i, i <= n), P.r8(base(i) + PV) == base(z3.If(i == 0, n, i - 1)))))

def untouched(P, inside, what='nothing outside the lists and the element is touched'):
    a = z3.Int('a!u')
    for w in (8, 4, 2, 1):
        if P.H(w).eq(P.H0(w)): continue
        P.ensure(what, FA([a], Imp(z3.Not(inside(a)), Sel(P.H(w), a) == Sel(P.H0(w), a))))

def item(P, tag, a):
    return P.region(tag, a, P.sizeof('cork_dllist_item'), P.reckind('cork_dllist_item'))

def spec_insert(fn, pos_of, with_list):
    """pos_of(n, p): index after which the element goes"""
    def pre(P):
        base, own, n = ring(P, 'l')
        P.g.update(base=base, own=own, n=n)
        p = z3.Int('p')
        if with_list:
            P.assume(P.args[0] == base(0))
        else:
            P.assume(z3.And(0 <= p, p <= n, P.args[0] == base(p)))
        P.g['p'] = p
        item(P, 'elem', P.args[1])
    def post(P, rv):
        base, own, n = P.g['base'], P.g['own'], P.g['n']
        q = pos_of(n, P.g['p'])
        e = P.args[1]
        # q is the index of the element's predecessor
        nb = lambda i: z3.If(i <= q, base(i), z3.If(i == q + 1, e, base(i - 1)))
        is_ring(P, nb, n + 1, 'after the insertion')
        untouched(P, lambda a: z3.Or(z3.And(0 <= own(a), own(a) <= n, base(own(a)) <= a, a < base(own(a)) + 16), z3.And(e <= a, a < e + 16)))
    return Spec(fn, pre, post)

def pre_remove(P):
    base, own, n = ring(P, 'l')
    p = z3.Int('p')
    P.assume(z3.And(1 <= p, p <= n, P.args[0] == base(p)))
    P.g.update(base=base, own=own, n=n, p=p)
def post_remove(P, rv):
    base, own, n, p = [P.g[k] for k in ('base', 'own', 'n', 'p')]
    is_ring(P, lambda i: z3.If(i < p, base(i), base(i + 1)), n - 1, 'after the removal')
    untouched(P, lambda a: z3.And(0 <= own(a), own(a) <= n, base(own(a)) <= a, a < base(own(a)) + 16))

def spec_splice(fn, head):
    def pre(P):
        b1, o1, n1 = ring(P, 'd')
        b2, o2, n2 = ring(P, 's')
        P.assume(z3.And(P.args[0] == b1(0), P.args[1] == b2(0)))
        P.g.update(b1=b1, o1=o1, n1=n1, b2=b2, o2=o2, n2=n2)
    def post(P, rv):
        b1, o1, n1, b2, o2, n2 = [P.g[k] for k in ('b1', 'o1', 'n1', 'b2', 'o2', 'n2')]
        if head: nb = lambda i: z3.If(i == 0, b1(0), z3.If(i <= n2, b2(i), b1(i - n2)))
        else: nb = lambda i: z3.If(i <= n1, b1(i), b2(i - n1))
        is_ring(P, nb, n1 + n2, 'destination')
        is_ring(P, lambda i: b2(0), I(0), 'source is left empty')
        untouched(P, lambda a: z3.Or(z3.And(0 <= o1(a), o1(a) <= n1, b1(o1(a)) <= a, a < b1(o1(a)) + 16), z3.And(0 <= o2(a), o2(a) <= n2, b2(o2(a)) <= a, a < b2(o2(a)) + 16)))
    return Spec(fn, pre, post)

def pre_init(P):
    P.rec('list', P.args[0], 'cork_dllist')
def post_init(P, rv):
    is_ring(P, lambda i: P.args[0], I(0), 'initialised list is empty')
    untouched(P, lambda a: z3.And(P.args[0] <= a, a < P.args[0] + 16))

def spec_query(fn, f, elem=False):
    def pre(P):
        base, own, n = ring(P, 'l')
        P.assume(P.args[0] == base(0))
        P.g.update(base=base, own=own, n=n)
        if elem:
            p = z3.Int('p')
            P.assume(z3.And(0 <= p, p <= n, P.args[1] == base(p)))
            P.g['p'] = p
    def post(P, rv):
        P.ensure('result agrees with the sequence', f(P, rv, P.g['base'], P.g['n']))
        untouched(P, lambda a: z3.BoolVal(False), 'a query changes nothing')
    return Spec(fn, pre, post)

def pre_size(P):
    base, own, n = ring(P, 'l')
    P.assume(P.args[0] == base(0))
    P.g.update(base=base, own=own, n=n)
def cursor_inv(L, base, n):
    """candidates: some pointer variable is base(k + c), some counter is k"""
    out = []
    def nx(j, c):
        for _ in range(c): j = z3.If(j == n, 0, j + 1)
        return j
    def pv(j, c):
        for _ in range(c): j = z3.If(j == 0, n, j - 1)
        return j
    for v in L.ptrs():
        for c in (0, 1, 2):
            out.append(('%s = element k+%d' % (v, c), lambda L, v=v, c=c: L.val(v) == base(nx(L.k, c))))
            out.append(('%s = element k+%d while k<n' % (v, c), lambda L, v=v, c=c: Imp(L.k < n, L.val(v) == base(nx(L.k, c)))))
            out.append(('%s = element -k-%d' % (v, c), lambda L, v=v, c=c: L.val(v) == base(pv(z3.If(L.k == 0, 0, n + 1 - L.k), c))))
    for v in L.ints(64):
        out.append(('%s = k' % v, lambda L, v=v: L.val(v) == L.k))
        out.append(('%s = n-k' % v, lambda L, v=v: L.val(v) == n - L.k))
    out.append(('k <= n', lambda L: L.k <= n))
    return out

SPECS = [
    Spec('w_init', pre_init, post_init), Spec('cork_dllist_init', pre_init, post_init),
    spec_insert('w_add_after', lambda n, p: p, False),
    spec_insert('w_add_before', lambda n, p: z3.If(p == 0, n, p - 1), False),
    spec_insert('w_add_to_head', lambda n, p: I(0), True),
    spec_insert('w_add_to_tail', lambda n, p: n, True),
    spec_insert('w_add', lambda n, p: n, True),
    Spec('w_remove', pre_remove, post_remove),
    spec_splice('w_add_list_to_head', True), spec_splice('w_add_list_to_tail', False),
    spec_query('w_is_empty', lambda P, rv, base, n: (rv != 0) == (n == 0)),
    spec_query('w_head', lambda P, rv, base, n: rv == z3.If(n == 0, 0, base(1))),
    spec_query('w_tail', lambda P, rv, base, n: rv == z3.If(n == 0, 0, base(n))),
    spec_query('w_start', lambda P, rv, base, n: rv == z3.If(n == 0, base(0), base(1))),
    spec_query('w_end', lambda P, rv, base, n: rv == base(n)),
    spec_query('w_is_start', lambda P, rv, base, n: (rv != 0) == (P.g['p'] == 0), True),
    spec_query('w_is_end', lambda P, rv, base, n: (rv != 0) == (P.g['p'] == 0), True),
    Spec('cork_dllist_size', pre_size,
         lambda P, rv: (P.ensure('size is the length of the sequence', rv == P.g['n']), untouched(P, lambda a: z3.BoolVal(False), 'size changes nothing')),
         inv=lambda L: cursor_inv(L, L.ctx.g['base'], L.ctx.g['n']), bounds=lambda L: [L.ctx.g['n'] + 1], termination=True),
]
