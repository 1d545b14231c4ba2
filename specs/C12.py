"""C12: hash tables iterate in insertion order and free what they own, on the abstract view of specs/ht.py."""
from lvc.spec import *
from lvc import libc
from .ht import *
LEAKS = True
DRIVER = 'C11.c'
SPECS = []
def it(P, f, p, old=True): q = p + P.off('cork_hash_table_iterator', f); return P.o8(q) if old else P.r8(q)
def kept(P, *but):
    for f in FIELDS:
        if f not in but: P.ensure('%s is unchanged' % f, fld(P, f, False) == fld(P, f))
# iterators
def pre_init(P):
    table(P, P.args[0], distinct=False); P.rec('iterator', P.args[1], 'cork_hash_table_iterator'); entry_facts(P, I(1))
def inside_it(P, p): return lambda a: z3.And(p <= a, a < p + P.sizeof('cork_hash_table_iterator'))
def post_init(P, rv):
    p = P.args[1]
    P.ensure('for this table', it(P, 'table', p, False) == T(P)); P.ensure('at the oldest entry', it(P, 'priv', p, False) == io(P, I(1)))
    frame(P, inside_it(P, p), 'the table is not changed')
SPECS.append(Spec('cork_hash_table_iterator_init', pre_init, post_init, calls=ALLOC))
def pre_next(P):
    p = P.args[0]; P.rec('iterator', p, 'cork_hash_table_iterator'); table(P, it(P, 'table', p), distinct=False)
    P.g['q'] = q = z3.Int('q!at'); P.assume(z3.And(1 <= q, q <= N(P) + 1, it(P, 'priv', p) == io(P, q))); entry_facts(P, q); entry_facts(P, q + 1)
def post_next(P, rv):
    p, q, n = P.args[0], P.g['q'], N(P)
    P.ensure('the entry at the iterator, or NULL at the end', rv == z3.If(q <= n, E(q), 0))
    P.ensure('the iterator moves to the entry inserted next', it(P, 'priv', p, False) == z3.If(q <= n, io(P, q + 1), io(P, q)))
    P.ensure('same table', it(P, 'table', p, False) == T(P)); frame(P, inside_it(P, p), 'the table is not changed')
SPECS.append(Spec('cork_hash_table_iterator_next', pre_next, post_next, calls=ALLOC))

# map
def pre_map(P):
    table(P, P.args[0], distinct=False); P.init_log('map', 2); P.st.ghost['stop'] = I(0); entry_facts(P, I(1))
def ind_map(P, fp, a, ins):
    if P.entails(fp == P.args[2]):
        k = P.loglen('map'); P.require('no call after an abort', P.gget('stop') == 0)
        P.require('the next entry in insertion order', z3.And(k < N(P), a[1] == E(k + 1))); P.require('the user data is passed on', a[0] == P.args[1])
        P.log('map', a[0], a[1]); r = P.fresh('result', 4); P.assume(z3.And(0 <= r, r <= 1)); P.gset('stop', S(z3.If(r == 0, 1, 0))); return r
    return NotImplemented
def inv_map(L):
    out = []
    for p in L.ptrs(): out.append(('%s = next entry' % p, lambda L, p=p: z3.And(0 <= L.k, L.k <= N(L.ctx), L.val(p) == io(L.ctx, L.k + 1))))
    return out + [('a call per entry', lambda L: L.ctx.loglen('map') == L.k), ('not aborted', lambda L: L.ctx.gget('stop') == 0),
                  ('the calls', lambda L: FA([j], Imp(z3.And(0 <= j, j < L.k), z3.And(L.ctx.logat('map', j, 0) == L.ctx.args[1], L.ctx.logat('map', j, 1) == E(j + 1))), [L.ctx.logat('map', j, 1)]))]
def post_map(P, rv):
    n = P.loglen('map'); j_ = z3.Int('j!')
    P.ensure('every entry is visited unless the callback aborts', z3.Or(n == N(P), z3.And(P.gget('stop') == 1, n >= 1, n <= N(P))))
    P.ensure('in insertion order', Imp(z3.And(0 <= j_, j_ < n), P.logat('map', j_, 1) == E(j_ + 1)))
    frame(P, lambda a: z3.BoolVal(False), 'the table is not changed')
SPECS.append(Spec('cork_hash_table_map', pre_map, post_map, label='cork_hash_table_map (callback deletes nothing)', calls=ALLOC, indirect=ind_map, inv=inv_map, bounds=lambda L: [N(L.ctx) + 1], termination=True))

# clearing and freeing
def pre_clear(fk, fv, fu=None):
    def pre(P):
        table(P, P.args[0], distinct=False); P.g['own'] = (fk, fv)
        for f, v in (('free_key', fk), ('free_value', fv), ('free_user_data', fu)):
            if v is not None: P.assume(fld(P, f) > 0 if v else fld(P, f) == 0)
        P.init_log('key', 1); P.init_log('value', 1); P.init_log('ud', 1); entry_facts(P, I(1)); P.g['fu'] = fu
    return pre
def ind_clear(P, fp, a, ins):
    for f, lg, what in (('free_key', 'key', KEY), ('free_value', 'value', VAL)):
        if reads(fp, T(P) + off(P, f)):
            k = P.loglen(lg); P.require('%s is called' % f, z3.And(fp == fld(P, f), fp != 0)); P.require('for the next entry', z3.And(k < N(P), a[0] == (key if lg == 'key' else val)(k + 1)))
            P.log(lg, a[0]); return None
    if reads(fp, T(P) + off(P, 'free_user_data')):
        P.require('free_user_data is called', z3.And(fp == fld(P, 'free_user_data'), fp != 0)); P.log('ud', a[0]); return None
    return NotImplemented
def release(P, a, ins):
    fam = P.st.regions.get('entries')
    if fam is None or P.entails(a[1] == T(P)): return ALLOC['cork_alloc_free'](P, a, ins)
    k = fam.lo; P.require('the next entry is released', z3.And(k <= N(P), a[1] == E(k))); P.require('with the size it was allocated with', a[2] == P.sizeof('cork_hash_table_entry_priv'))
    fk, fv = P.g['own']
    if fk: P.require('after its key was freed', P.loglen('key') == k)
    if fv: P.require('after its value was freed', P.loglen('value') == k)
    P.ex.set_region(P.st, 'entries', lo=S(k + 1)); entry_facts(P, S(k + 1)); return None
def inv_clear(L):
    P = L.ctx; n, B = N(P), P.g['B']; fk, fv = P.g['own']; out = []
    lo = lambda L: L.st.regions['entries'].lo
    for p in L.ptrs(): out.append(('%s = next entry' % p, lambda L, p=p: z3.And(0 <= L.k, L.k <= n, L.val(p) == io(L.ctx, L.k + 1))))
    for p in L.ints(): out.append(('%s = bin number' % p, lambda L, p=p: z3.And(0 <= L.k, L.k <= B, L.val(p) == L.k)))
    out.append(('entries released', lambda L: z3.And(lo(L) == L.k + 1, L.st.regions['entries'].hi == n + 1)))
    out.append(('all entries released', lambda L: z3.And(lo(L) == n + 1, L.st.regions['entries'].hi == n + 1)))
    for on, lg, v in ((fk, 'key', key), (fv, 'value', val)):
        if on:
            out.append(('%ss freed' % lg, lambda L, lg=lg: L.ctx.loglen(lg) == L.k)); out.append(('all %ss freed' % lg, lambda L, lg=lg: L.ctx.loglen(lg) == n))
            out.append(('%ss freed so far' % lg, lambda L, lg=lg, v=v: FA([j], Imp(z3.And(0 <= j, j < L.ctx.loglen(lg)), L.ctx.logat(lg, j, 0) == v(j + 1)), [L.ctx.logat(lg, j, 0)])))
        else: out.append(('no %s is freed' % lg, lambda L, lg=lg: L.ctx.loglen(lg) == 0))
    out.append(('user data is not freed', lambda L: L.ctx.loglen('ud') == 0))
    out.append(('settings', lambda L: z3.And([fld(L.ctx, f, False) == fld(L.ctx, f) for f in FIELDS])))
    def rest(o, rhs): return lambda L: FA([i], Imp(z3.And(L.k < i, i <= n), Sel(L.H(8), E(i) + o) == rhs(L, i)), [E(i)])
    for nm, o, rhs in (('successors', IO(P) + NX(P), lambda L, q: io(P, q + 1)), ('predecessors', IO(P) + PV(P), lambda L, q: z3.If(q == L.k + 1, OI(P), io(P, q - 1))), ('keys', KEY(P), lambda L, q: key(q)), ('values', VAL(P), lambda L, q: val(q))):
        out.append(('the %s of the remaining entries' % nm, rest(o, rhs)))
    out.append(('the insertion order starts with the next entry', lambda L: z3.And(L.ctx.r8(OI(P) + NX(P)) == io(P, L.k + 1), L.ctx.r8(OI(P) + PV(P)) == z3.If(L.k == n, OI(P), io(P, n)))))
    out.append(('the insertion order is empty', lambda L: z3.And(L.ctx.r8(OI(P) + NX(P)) == OI(P), L.ctx.r8(OI(P) + PV(P)) == OI(P))))
    def bins(L):
        h = L.H(8); return FA([b], Imp(z3.And(0 <= b, b < L.k), z3.And(Sel(h, V0.HD(b) + NX(P)) == V0.HD(b), Sel(h, V0.HD(b) + PV(P)) == V0.HD(b))), [V0.HD(b)])
    out.append(('bins emptied so far', bins))
    def first(L):
        P = L.ctx; h = P.H(8); e = E(L.k + 1)
        return Imp(L.k < n, z3.And(Sel(h, e + IO(P) + NX(P)) == io(P, L.k + 2), Sel(h, e + IO(P) + PV(P)) == OI(P), Sel(h, e + KEY(P)) == key(L.k + 1), Sel(h, e + VAL(P)) == val(L.k + 1)))
    out.append(('the next entry', first))
    for o in (1, 2): out.append(('the entry after that' if o == 2 else 'entry', lambda L, o=o: Imp(ent(P, L.k + o), z3.And(E(L.k + o) > 0, *[oE(E(L.k + o) + x) == L.k + o for x in P.layout('cork_hash_table_entry_priv')]))))
    def bin_(L):
        q = P.g['bins'] + 16 * L.k
        return Imp(z3.And(0 <= L.k, L.k < B), z3.And(V0.HD(L.k) == q, V0.oH(q) == L.k, V0.oH(q + NX(P)) == L.k, V0.oH(q + PV(P)) == L.k))
    out.append(('the next bin', bin_))
    return out
def freed(P):
    n = N(P); jj = z3.Int('j!'); fk, fv = P.g['own']
    for on, lg, v in ((fk, 'key', key), (fv, 'value', val)):
        if on: P.ensure('every %s is freed' % lg, P.loglen(lg) == n); P.ensure('once, and nothing else (%ss)' % lg, Imp(z3.And(0 <= jj, jj < n), P.logat(lg, jj, 0) == v(jj + 1)))
        else: P.ensure('no %s is freed' % lg, P.loglen(lg) == 0)
    P.ensure('every entry is released', P.st.regions['entries'].lo == n + 1)
def mine(P): return lambda q: z3.Or(z3.And(T(P) <= q, q < T(P) + P.sizeof('cork_hash_table')), z3.And(ent(P, oE(q)), E(oE(q)) <= q, q < E(oE(q)) + P.sizeof('cork_hash_table_entry_priv')), z3.And(P.g['bins'] <= q, q < P.g['bins'] + 16 * P.g['B']))
def post_clear(P, rv):
    freed(P); w = z3.Int('w!r'); h = P.H(8); wb = z3.And(0 <= w, w < P.g['B'])
    P.ensure('no entry is left', fld(P, 'entry_count', False) == 0); kept(P, 'entry_count')
    P.ensure('the insertion order is empty', z3.And(P.r8(OI(P) + NX(P)) == OI(P), P.r8(OI(P) + PV(P)) == OI(P)))
    P.assume(Imp(wb, z3.And(V0.HD(w) == P.g['bins'] + 16 * w, V0.oH(V0.HD(w)) == w, V0.oH(V0.HD(w) + NX(P)) == w, V0.oH(V0.HD(w) + PV(P)) == w)))
    P.ensure('every bin is empty', Imp(wb, z3.And(P.r8(V0.HD(w) + NX(P)) == V0.HD(w), P.r8(V0.HD(w) + PV(P)) == V0.HD(w))))
    P.ensure('the user data is kept', P.loglen('ud') == 0); frame(P, mine(P))
def post_free(P, rv):
    freed(P)
    for t in ('table', 'bins'): P.ensure('the %s is released' % t, z3.BoolVal(t not in P.st.regions))
    if P.g['fu']: P.ensure('the user data is released once', z3.And(P.loglen('ud') == 1, P.logat('ud', I(0), 0) == fld(P, 'user_data')))
    else: P.ensure('the user data is not released', P.loglen('ud') == 0)
CALLS = dict(ALLOC, cork_alloc_free=release)
for fk, fv in ((True, True), (False, False), (True, False), (False, True)):
    w = ', '.join('%s %sowned' % (x, '' if y else 'not ') for x, y in (('keys', fk), ('values', fv)))
    SPECS.append(Spec('cork_hash_table_clear', pre_clear(fk, fv), post_clear, label='cork_hash_table_clear (%s)' % w, calls=CALLS, indirect=ind_clear, inv=inv_clear))
    fu = fk
    SPECS.append(Spec('cork_hash_table_free', pre_clear(fk, fv, fu), post_free, label='cork_hash_table_free (%s, user data %sowned)' % (w, '' if fu else 'not '), calls=CALLS, indirect=ind_clear, inv=inv_clear))
# user data
def post_ud(P, rv):
    P.ensure('user_data is set', fld(P, 'user_data', False) == P.args[1]); P.ensure('free_user_data is set', fld(P, 'free_user_data', False) == P.args[2]); kept(P, 'user_data', 'free_user_data')
    if P.g['fu']: P.ensure('the previous user data is released once', z3.And(P.loglen('ud') == 1, P.logat('ud', I(0), 0) == fld(P, 'user_data')))
    else: P.ensure('nothing is released', P.loglen('ud') == 0)
    frame(P, mine(P))
for fu in (True, False):
    SPECS.append(Spec('cork_hash_table_set_user_data', pre_clear(False, False, fu), post_ud, label='cork_hash_table_set_user_data (previous %sowned)' % ('' if fu else 'not '), calls=ALLOC, indirect=ind_clear))
def post_setf(f):
    def post(P, rv): P.ensure('%s is set' % f, fld(P, f, False) == P.args[1]); kept(P, f); frame(P, mine(P))
    return post
for f in ('hash', 'equals', 'free_key', 'free_value'):
    SPECS.append(Spec('cork_hash_table_set_' + f, lambda P: table(P, P.args[0], distinct=False), post_setf(f), calls=ALLOC))
BOUNDED = ['cork_hash_table_map when the callback asks for deletions']
TRUSTED = ['allocation contracts of specs/common.py (proved for the allocators of libcork by C22)', 'callbacks touch only what they are given and the client\'s own memory']
ASSUME = ['fewer than 2^58 entries and bins', 'a map callback does not change the table', 'the table is not changed while an iterator is in use']
