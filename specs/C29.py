"""C29: cleanup functions run at exit, each once, in priority order.  The registered functions are the ring
base(1..n) behind the sentinel `cleanup_entries`; PR(k), NM(k), FN(k) are the k-th priority, name and function."""
from lvc.spec import *
from lvc import libc
from .common import *
Z = z3.IntSort(); S = z3.simplify
fn = lambda n: z3.Function(n, Z, Z)
base, own, PR, NM, NL, FN = [fn(x) for x in ('base', 'own', 'PR', 'NM', 'NL', 'FN')]
i, a = z3.Ints('i!c a!c'); n = z3.Int('n')
REC = 'cork_cleanup_entry'
def o(P, f): return P.off(REC, f)
def NX(P): return P.off('cork_dllist_item', 'next')
def PV(P): return P.off('cork_dllist_item', 'prev')
def s32(v): return z3.If(v >= 1 << 31, v - (1 << 32), v)
def at(k): return z3.If(z3.Or(k == 0, k == n + 1), base(0), base(k))
def ent(k): return z3.And(1 <= k, k <= n)
def registered(P):
    s = P.address('cleanup_entries'); P.assume(z3.And(n >= 0, n < (1 << 58), s == base(0), own(s) == 0, own(s + 8) == 0))
    P.family('entries', base, own, I(1), n + 1, P.reckind(REC))
    P.assume(FA([i], Imp(ent(i), z3.And([own(base(i) + x) == i for x in range(0, P.sizeof(REC), 4)])), [base(i)]))
    facts(P, lambda k: ent(k))
    P.assume(P.r8(s + NX(P)) == at(I(1))); P.assume(P.r8(s + PV(P)) == at(n))
def facts_l(P, live):
    q = own(a); h = P.H(8)
    return [FA([a], Imp(z3.And(live(q), a == base(q) + NX(P)), Sel(h, a) == at(q + 1)), [Sel(h, a)]),
            FA([a], Imp(z3.And(live(q), a == base(q) + o(P, 'function')), Sel(h, a) == FN(q)), [Sel(h, a)]),
            FA([a], Imp(z3.And(live(q), a == base(q) + o(P, 'name')), Sel(h, a) == NM(q)), [Sel(h, a)])]
def facts(P, live):
    for f in facts_l(P, live): P.assume(f)
    q = own(a); h = P.H(8)
    P.assume(FA([a], Imp(z3.And(live(q), a == base(q) + PV(P)), Sel(h, a) == at(q - 1)), [Sel(h, a)]))
    h4 = P.H(4)
    P.assume(FA([a], Imp(z3.And(live(q), a == base(q) + o(P, 'priority')), s32(Sel(h4, a)) == PR(q)), [Sel(h4, a)]))
    P.assume(FA([i], Imp(z3.And(1 <= i, i < n), PR(i) <= PR(i + 1)), [PR(i)]))
    P.assume(FA([i], Imp(ent(i), FN(i) > 0), [FN(i)]))
# registration
def pre_reg(P):
    nm, pr, f = P.args; registered(P)
    l = z3.Int('namelen'); P.assume(z3.And(0 <= l, l < 1 << 31)); P.region('name', nm, l + 1, ('bytes',), False); P.st.zstr = P.st.zstr + [(nm, l)]; P.assume(P.r1(nm + l) == 0); P.assume(FA([a], Imp(z3.And(nm <= a, a < nm + l), Sel(P.H(1), a) != 0), [Sel(P.H(1), a)]))
    P.g['l'] = l; P.assume(f > 0); P.init_log('atexit', 1)
    P.g['was'] = P.r1(P.address('cleanup_registered')); P.assume(z3.And(0 <= P.g['was'], P.g['was'] <= 1))
def h_atexit(P, args, ins): P.log('atexit', args[0]); return I(0)
def inv_reg(L):
    out = []
    P = L.ctx; pr = P.s32(P.args[1])
    for p in L.ptrs(): out.append(('%s = the k-th entry' % p, lambda L, p=p: z3.And(0 <= L.k, L.k <= n, L.val(p) == at(L.k + 1))))
    out.append(('all before it have no higher priority', lambda L: FA([i], Imp(z3.And(1 <= i, i <= L.k), PR(i) <= pr), [PR(i)])))
    return out
def post_reg(P, rv):
    nm, pr, f = P.args; pr = P.s32(pr); was = P.g['was']; s = base(0)
    e = [r for t, r in P.st.regions.items() if t.startswith('heap') and not r.family]; st = [r for t, r in P.st.regions.items() if t.startswith('str')]
    P.ensure('one entry and one name are allocated', z3.BoolVal(len(e) == 1 and len(st) == 1)); e = e[0].lo; c = st[0].lo + 8
    P.ensure('the function', P.r8(e + o(P, 'function')) == f); P.ensure('its priority', P.s32(P.r4(e + o(P, 'priority'))) == pr); P.ensure('a copy of the name', P.r8(e + o(P, 'name')) == c)
    j = z3.Int('j!n'); P.ensure('the copy has the same characters', Imp(z3.And(0 <= j, j <= P.g['l']), P.r1(c + j) == P.o1(nm + j)))
    d = z3.Int('d!'); nx = P.r8(e + NX(P)); P.assume(d == z3.If(nx == s, n + 1, own(nx)))
    P.ensure('inserted before an entry or the end', z3.And(1 <= d, d <= n + 1, nx == at(d)))
    P.ensure('after those with a priority no higher', Imp(z3.And(1 <= j, j < d, j <= n), PR(j) <= pr)); 
    for k in (d,): P.assume(Imp(ent(k), z3.And(PR(k) == PR(k))))
    P.ensure('before the first one with a higher priority', Imp(d <= n, PR(d) > pr))
    P.ensure('its predecessor', P.r8(e + PV(P)) == at(d - 1)); P.ensure('the predecessor leads to it', P.r8(at(d - 1) + NX(P)) == e); P.ensure('the successor leads back', P.r8(at(d) + PV(P)) == e)
    cr = P.address('cleanup_registered')
    frame(P, lambda q: z3.Or(q == at(d - 1) + NX(P), q == at(d) + PV(P), q == cr), 'the other entries keep their place, priority, name and function')
    P.ensure('the exit handler is installed exactly once', z3.And(P.r1(cr) == 1, P.loglen('atexit') == 1 - was)); P.ensure('and is the one that calls them', Imp(was == 0, P.logat('atexit', I(0), 0) == P.address('cork_cleanup_call_all')))
CALLS = dict(ALLOC, atexit=h_atexit)
GL = ('cleanup_entries', 'cleanup_registered')
SPECS = [Spec('cork_cleanup_at_exit_named', pre_reg, post_reg, calls=CALLS, globals=GL, inv=inv_reg, bounds=lambda L: [n + 1], termination=True)]
# running them
def pre_call(P):
    registered(P); P.init_log('called', 1); P.st.ghost['pending'] = I(0); P.st.ghost['freed_name'] = I(0)
    P.assume(FA([i], Imp(ent(i), NM(i) > 0), [NM(i)])); near(P, I(1))
def near(P, k):
    s = base(0); h = P.H(8)
    for q in (k, k + 1):
        P.assume(Imp(ent(q), z3.And([own(base(q) + x) == q for x in range(0, P.sizeof(REC), 4)] + [base(q) > 0])))
def first(P): return P.st.regions['entries'].lo
def h_strfree(P, args, ins):
    k = first(P); P.require('the name of the first entry is released, once', z3.And(ent(k), args[0 if len(args) == 1 else 1] == NM(k), P.gget('freed_name') == k - 1)); P.gset('freed_name', k); return None
def h_free(P, args, ins):
    k = first(P); P.require('the first entry is released', z3.And(ent(k), args[1] == base(k))); P.require('with its size', args[2] == P.sizeof(REC)); P.require('after its name', P.gget('freed_name') == k)
    P.require('it is not in the list any more', z3.And(P.r8(base(0) + NX(P)) == at(k + 1), P.r8(at(k + 1) + PV(P)) == base(0)))
    P.ex.set_region(P.st, 'entries', lo=S(k + 1)); P.gset('pending', S(P.gget('pending') + 1)); near(P, k + 1); return None
def ind_call(P, fp, args, ins):
    k = P.loglen('called') + 1
    P.require('the function with the lowest priority not called yet, after its entry was released', z3.And(ent(k), fp == FN(k), first(P) == k + 1, P.gget('pending') == k)); P.log('called', fp)
    return None
def inv_call(L):
    out = [('a call per entry', lambda L: L.ctx.loglen('called') == L.k), ('k', lambda L: z3.And(0 <= L.k, L.k <= n)), ('entries before k are gone', lambda L: first(L.ctx) == L.k + 1), ('end', lambda L: L.st.regions['entries'].hi == n + 1),
           ('released', lambda L: z3.And(L.ctx.gget('pending') == L.k, L.ctx.gget('freed_name') == L.k)),
           ('the list starts at the next entry', lambda L: Sel(L.H(8), base(0) + NX(L.ctx)) == at(L.k + 1)),
           ('which leads back to the sentinel', lambda L: Sel(L.H(8), at(L.k + 1) + PV(L.ctx)) == base(0)),
           ('the next entry', lambda L: Imp(ent(L.k + 1), z3.And([own(base(L.k + 1) + x) == L.k + 1 for x in range(0, L.ctx.sizeof(REC), 4)]))),
           ('the one after it', lambda L: Imp(ent(L.k + 2), z3.And([own(base(L.k + 2) + x) == L.k + 2 for x in range(0, L.ctx.sizeof(REC), 4)]))),
           ('the calls', lambda L: FA([i], Imp(z3.And(0 <= i, i < L.k), L.ctx.logat('called', i, 0) == FN(i + 1)), [L.ctx.logat('called', i, 0)]))]
    P = L.ctx
    class H:
        pass
    for nm, ff in (('next', lambda L, q: (NX(P), at(q + 1))), ('function', lambda L, q: (o(P, 'function'), FN(q))), ('name', lambda L, q: (o(P, 'name'), NM(q)))):
        out.append(('%s of the remaining entries' % nm, lambda L, ff=ff: FA([i], Imp(z3.And(L.k + 1 <= i, i <= n), Sel(L.H(8), base(i) + ff(L, i)[0]) == ff(L, i)[1]), [base(i)])))
    return out
def post_call(P, rv):
    j = z3.Int('j!'); P.ensure('every function is called once', P.loglen('called') == n); P.ensure('in order of priority', Imp(z3.And(0 <= j, j < n), P.logat('called', j, 0) == FN(j + 1)))
    P.ensure('the list is empty', P.r8(base(0) + NX(P)) == base(0)); P.ensure('every entry is released', first(P) == n + 1)
SPECS.append(Spec('cork_cleanup_call_all', pre_call, post_call, calls=dict(ALLOC, cork_alloc_strfree=h_strfree, cork_alloc_free=h_free), indirect=ind_call, globals=GL, inv=inv_call, bounds=lambda L: [n + 1], termination=True))
LEAKS = True
TRUSTED = ['allocation contracts of specs/common.py (proved for the allocators of libcork by C22)', 'atexit: the C library calls the handler once, at exit, and the call succeeds',
           'cork_cleanup_call_all is proved for cleanup functions that register nothing; one that registers another is checked on concrete runs']
ASSUME = ['fewer than 2^58 functions are registered', 'the process exits through exit() or a return from main']
BOUNDED = ['cleanup functions that register other cleanup functions']
