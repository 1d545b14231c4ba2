"""C02: traversal calls the callback once per element, in order; the callback may unlink and destroy
the element it is given (its memory is gone afterwards, and every other link field except the `next`
links of the elements still to come may have been rewritten)."""
from lvc.spec import *
from .C01 import cursor_inv, WRAPPERS

def ring2(P):
    base = z3.Function('base', z3.IntSort(), z3.IntSort())
    own = z3.Function('own', z3.IntSort(), z3.IntSort())
    n = z3.Int('n')
    NX, PV = P.off('cork_dllist_item', 'next'), P.off('cork_dllist_item', 'prev')
    P.assume(z3.And(n >= 0, n < (1 << 60)))
    kind = P.reckind('cork_dllist_item')
    P.region('sentinel', base(0), 16, kind)
    P.family('elements', base, own, I(1), n + 1, kind)
    i = z3.Int('i!r')
    P.assume(FA([i], Imp(z3.And(0 <= i, i <= n), z3.And(own(base(i)) == i, own(base(i) + NX) == i, own(base(i) + PV) == i)), [base(i)]))
    P.g.update(base=base, own=own, n=n, NX=NX, PV=PV)
    links(P, z3.IntVal(0))
    a = z3.Int('a!r'); j = own(a)
    P.assume(FA([a], Imp(z3.And(0 <= j, j <= n, a == base(j) + PV), Sel(P.H(8), a) == base(z3.If(j == 0, n, j - 1))), [Sel(P.H(8), a)]))
    P.init_log('calls', 3)

def links(P, lo):
    base, own, n, NX = [P.g[k] for k in ('base', 'own', 'n', 'NX')]
    a = z3.Int('a!r'); j = own(a)
    P.assume(FA([a], Imp(z3.And(lo <= j, j <= n, a == base(j) + NX), Sel(P.H(8), a) == base(z3.If(j == n, 0, j + 1))), [Sel(P.H(8), a)]))

def links_f(L, lo):
    P = L.ctx
    base, own, n, NX = [P.g[k] for k in ('base', 'own', 'n', 'NX')]
    a = z3.Int('a!r'); j = own(a)
    return FA([a], Imp(z3.And(lo <= j, j <= n, a == base(j) + NX), Sel(L.H(8), a) == base(z3.If(j == n, 0, j + 1))), [Sel(L.H(8), a)])

def callback(P, elem, ud, ret):
    """contract of the client callback"""
    base, own, n, NX = [P.g[k] for k in ('base', 'own', 'n', 'NX')]
    r = P.fresh('rc', 32) if ret else I(0)
    i = own(elem)
    fam = P.st.regions['elements']
    # the argument must be a live element that has not been visited yet
    P.require('the callback is given a live element of the list', z3.And(fam.lo <= i, i < fam.hi, elem == base(i)))
    P.log('calls', elem, ud, r)
    # havoc: everything but the next links of later elements
    h0 = P.st.heap[8]; h1 = P.ex.fresh_heap(8)
    a = P.ex.ops.fconst(z3.IntSort(), 'a')
    j = own(a)
    P.st.facts.append(FA([a], Imp(z3.And(i < j, j <= n, a == base(j) + NX), Sel(h1, a) == Sel(h0, a)), [Sel(h1, a)]))
    P.st.heap[8] = h1
    P.ex.touch(P.st, ('heap', 8)); P.ex.touch(P.st, ('anyheap',))
    for w in (1, 2, 4):
        P.st.heap[w] = P.ex.fresh_heap(w); P.ex.touch(P.st, ('heap', w))
    P.ex.set_region(P.st, 'elements', lo=i + 1)
    return r

def inv(L):
    P = L.ctx; g = P.g
    base, n = g['base'], g['n']
    out = cursor_inv(L, base, n)
    out.append(('calls made = k', lambda L: P_log(L, 0) == L.k))
    def calls(L, f, rhs):
        i = z3.Int('i!l')
        arr = L.st.logs['calls'][1][f]
        return FA([i], Imp(z3.And(0 <= i, i < L.k), Sel(arr, i) == rhs(i)), [Sel(arr, i)])
    out.append(('call j was given element j', lambda L: calls(L, 0, lambda i: base(i + 1) + g['shift'])))
    out.append(('call j was given the user data', lambda L: calls(L, 1, lambda i: g['ud'])))
    out.append(('call j returned 0', lambda L: calls(L, 2, lambda i: I(0))))
    out.append(('elements before k are gone', lambda L: L.st.regions['elements'].lo == L.k + 1))
    out.append(('end of the family', lambda L: L.st.regions['elements'].hi == n + 1))
    out.append(('links of the remaining elements', lambda L: links_f(L, L.k + 1)))
    return out
def P_log(L, _): return L.st.logs['calls'][0]

def mk(fn, ret, cb_list, cb_elem, ud_arg, shift=False, via=None, ret_post=None):
    def pre(P):
        ring2(P)
        P.assume(P.args[0] == P.g['base'](0))
        P.g['ud'] = P.args[ud_arg]
        P.g['shift'] = I(0)
    def ind(P, fp, args, ins):
        if 'fpval' in P.g: pass
        P.require('the callback called is the one passed in', fp == P.args[cb_list])
        return callback(P, args[cb_elem], args[1 - cb_elem], ret)
    def ext(P, args, ins):
        # w_visit(ud, container): the container begins 8 bytes before its item
        off = P.off('w_elem', 'item')
        return callback(P, z3.simplify(args[1] + off), args[0], False)
    def post(P, rv):
        g = P.g; base, n = g['base'], g['n']
        m = P.loglen('calls')
        i = z3.Int('i!q')
        P.ensure('call j is given element j (in order, each once)', FA([i], Imp(z3.And(0 <= i, i < m), P.logat('calls', i, 0) == base(i + 1))))
        P.ensure('every call is given the user data', FA([i], Imp(z3.And(0 <= i, i < m), P.logat('calls', i, 1) == g['ud'])))
        if ret:
            last = P.logat('calls', m - 1, 2)
            P.ensure('stops exactly at the first non-zero result and returns it',
                     z3.And(z3.Or(z3.And(rv == 0, m == n), z3.And(rv != 0, 1 <= m, m <= n, rv == last))))
            P.ensure('no earlier call returned non-zero', FA([i], Imp(z3.And(0 <= i, i < m - 1), P.logat('calls', i, 2) == 0)))
            P.ensure('last result is zero when everything was visited', z3.Or(m == 0, rv != 0, last == 0))
        else:
            P.ensure('every element is visited', m == n)
    return Spec(fn, pre, post, inv=inv, indirect=ind, calls={'w_visit': ext}, bounds=lambda L: [L.ctx.g['n'] + 1], termination=True)

SPECS = [
    mk('cork_dllist_map', False, 1, 0, 2),
    mk('cork_dllist_visit', True, 2, 1, 1),
    mk('w_foreach_void', False, None, 0, 1),
    mk('w_foreach', False, None, 0, 1),
]
