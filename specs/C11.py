"""C11: hash tables are maps.  Every operation is specified on the abstract view of specs/ht.py, for every table, every client
hash and comparison function, every key."""
from lvc.spec import *
from .ht import *
from .common import owned
LEAKS = True
DRIVER = 'C11.c'
SPECS = []
def add(f, pre, post, label=None, **kw):
    SPECS.append(Spec(f, pre, post, label='%s (%s)' % (f, label) if label else f, calls=dict(ALLOC, cork_hash_table_ensure_size=h_ensure), indirect=ind, **kw))
def kept(P, *but):
    for f in FIELDS:
        if f not in but: P.ensure('%s is unchanged' % f, fld(P, f, False) == fld(P, f))
def lookup(hashed):
    def pre(P):
        table(P, P.args[0]); k = P.args[2 if hashed else 1]; P.g['key'] = k
        h = P.args[1] if hashed else HASH(k)
        P.assume(h == HASH(k)); P.g['w'] = focus(P, V0, h)
        P.st.ghost['freed'] = 0
    return pre
def found(P, q): return z3.And(ent(P, q), EQ(P.g['key'], key(q)))
def none(P):
    """no entry has an equal key"""
    q = z3.Int('q!none'); w = P.g['w']
    entry_facts(P, q); bin_facts(P, V0, q); P.assume(Imp(ent(P, q), hsh(q) == HASH(key(q))))
    return z3.Implies(ent(P, q), z3.Not(EQ(P.g['key'], key(q))))
def post_get(value):
    def post(P, rv):
        q = oE(rv) if not value else None
        if not value:
            P.ensure('the entry returned has an equal key', Imp(rv != 0, z3.And(found(P, q), rv == E(q))))
            P.ensure('NULL is returned only when no entry has an equal key', Imp(rv == 0, none(P)))
        else:
            q = z3.Int('q!'); P.ensure('the value of the entry with an equal key', Imp(found(P, q), rv == val(q)))
            P.ensure('NULL when there is none', Imp(FA([i], Imp(ent(P, i), z3.Not(EQ(P.g['key'], key(i)))), [key(i)]), rv == 0))
        frame(P, lambda a: z3.BoolVal(False), 'looking up changes nothing')
    return post
for f, hd, v in (('cork_hash_table_get_entry_hash', True, False), ('cork_hash_table_get_entry', False, False), ('cork_hash_table_get_hash', True, True), ('cork_hash_table_get', False, True)):
    add(f, lookup(hd), post_get(v), inv=find_inv, bounds=lambda L: [V0.len(L.ctx.g['w']) + 1], termination=True)

# adding
def view(P): return (V1, P.g['B2'], P.g['mask2']) if grown(P) else (V0, P.g['B'], P.g['mask'])
def newent(P):
    rs = [r for t, r in P.st.regions.items() if not r.family and r.heap and t not in P.ex.st_entry.regions and not t.startswith('bins2')]
    return rs[0] if len(rs) == 1 else None
def goal(P, name, f, *inst):
    """obligation with instances of the assumptions that only it needs"""
    Q = P.at(P.st.clone())
    for g in inst: g(Q)
    Q.ensure(name, f)
def intact(P, skip=None):
    """keys, values and hashes of all entries (but one)"""
    q = z3.Int('q!i'); c = ent(P, q) if skip is None else z3.And(ent(P, q), q != skip)
    goal(P, 'the other entries keep their keys', Imp(c, P.r8(E(q) + KEY(P)) == key(q)), lambda P: entry_facts(P, q))
    goal(P, 'the other entries keep their values', Imp(c, P.r8(E(q) + VAL(P)) == val(q)), lambda P: entry_facts(P, q))
    goal(P, 'the other entries keep their hashes', Imp(c, P.r4(E(q) + HSH(P)) == hsh(q)), lambda P: entry_facts(P, q))
def rings(P, V, B, succ, pred, osucc, opred, skip=None, what='afterwards'):
    """every link of every bin and of the insertion order"""
    q, w = z3.Int('q!r'), z3.Int('w!r'); bins = P.g['bins'] if V is V0 else P.g['bins2']; c = ent(P, q) if skip is None else z3.And(ent(P, q), q != skip)
    e, bf = (lambda P: entry_facts(P, q)), (lambda P: bin_facts(P, V, q))
    goal(P, '%s every entry is followed by the next one of its bin' % what, Imp(c, P.r8(E(q) + IB(P) + NX(P)) == succ(V.bin(q), V.pos(q))), e, bf, lambda P: pos_facts(P, V, V.bin(q), V.pos(q) + 1))
    goal(P, '%s every entry is preceded by the one before in its bin' % what, Imp(c, P.r8(E(q) + IB(P) + PV(P)) == pred(V.bin(q), V.pos(q))), e, bf, lambda P: pos_facts(P, V, V.bin(q), V.pos(q) - 1))
    wb = z3.And(0 <= w, w < B)
    hd = lambda P: P.assume(Imp(wb, z3.And(V.HD(w) == bins + 16 * w, V.oH(V.HD(w)) == w, V.oH(V.HD(w) + NX(P)) == w, V.oH(V.HD(w) + PV(P)) == w, V.len(w) >= 0)))
    goal(P, '%s every bin starts with its first entry' % what, Imp(wb, P.r8(V.HD(w) + NX(P)) == succ(w, I(0))), hd, lambda P: pos_facts(P, V, w, I(1)))
    goal(P, '%s every bin ends with its last entry' % what, Imp(wb, P.r8(V.HD(w) + PV(P)) == pred(w, V.len(w) + 1)), hd, lambda P: pos_facts(P, V, w, V.len(w)))
    goal(P, '%s every entry is followed by the one inserted next' % what, Imp(c, P.r8(E(q) + IO(P) + NX(P)) == osucc(q)), e, lambda P: entry_facts(P, q + 1))
    goal(P, '%s every entry is preceded by the one inserted before' % what, Imp(c, P.r8(E(q) + IO(P) + PV(P)) == opred(q)), e, lambda P: entry_facts(P, q - 1))
    P.ensure('%s the insertion order starts and ends there' % what, z3.And(P.r8(OI(P) + NX(P)) == osucc(I(0)), P.r8(OI(P) + PV(P)) == opred(N(P) + 1)))
OUTS = {'put': ('is_new', 'old_key', 'old_value'), 'create': ('is_new',), 'delete': ('deleted_key', 'deleted_value')}
def pre_add(op, hashed, outs):
    def pre(P):
        lookup(hashed)(P); g = P.g; n = 3 if hashed else 2
        g['h'] = P.args[1] if hashed else HASH(g['key']); P.assume(z3.And(0 <= g['h'], g['h'] < (1 << 32)))
        g['value'] = P.args[n] if op == 'put' else I(0)
        if op == 'put': n += 1
        g['outs'] = {}
        for o in OUTS[op]:
            if outs: P.region(o, P.args[n], 1 if o == 'is_new' else 8, ('any',)); g['outs'][o] = P.args[n]
            else: P.assume(P.args[n] == 0)
            n += 1
    return pre
def outs_frame(P): return lambda q: z3.Or([z3.BoolVal(False)] + [z3.And(p <= q, q < p + (1 if o == 'is_new' else 8)) for o, p in P.g['outs'].items()])
def mine(P): return lambda q: z3.Or(outs_frame(P)(q), z3.And(T(P) <= q, q < T(P) + P.sizeof('cork_hash_table')), z3.And(ent(P, oE(q)), E(oE(q)) <= q, q < E(oE(q)) + P.sizeof('cork_hash_table_entry_priv')), z3.And(P.g['bins'] <= q, q < P.g['bins'] + 16 * P.g['B']))
def post_add(op):
    def post(P, rv):
        g = P.g; out = lambda o: P.r8(g['outs'][o]); e = newent(P)
        same = lambda: (rings(P, V0, g['B'], lambda b, k: V0.nd(P, b, k + 1), lambda b, k: V0.nd(P, b, k - 1), lambda q: io(P, q + 1), lambda q: io(P, q - 1)), kept(P))
        if e is None:                 # an entry with an equal key exists
            q = z3.Int('q!match')
            P.ensure('nothing is added only if an entry has an equal key', z3.Not(FA([i], Imp(ent(P, i), z3.Not(EQ(g['key'], key(i)))), [key(i)])))
            P.assume(found(P, q))     # that entry
            if op == 'put':
                P.ensure('it gets the new key and value', z3.And(P.r8(E(q) + KEY(P)) == g['key'], P.r8(E(q) + VAL(P)) == g['value'], P.r4(E(q) + HSH(P)) == hsh(q))); intact(P, q)
                if 'old_key' in g['outs']: P.ensure('the previous key is reported', out('old_key') == key(q))
                if 'old_value' in g['outs']: P.ensure('the previous value is reported', out('old_value') == val(q))
            else: P.ensure('it is returned', rv == E(q)); intact(P)
            if 'is_new' in g['outs']: P.ensure('reported as not new', P.r1(g['outs']['is_new']) == 0)
            same(); frame(P, mine(P)); return
        P.ensure('an entry is added only if none has an equal key', none(P))
        V, B, mask = view(P); w = focus(P, V, g['h']); n = N(P)
        P.ensure('the new entry', z3.And(P.r8(e.lo + KEY(P)) == g['key'], P.r8(e.lo + VAL(P)) == g['value'], P.r4(e.lo + HSH(P)) == g['h']))
        intact(P)
        P.ensure('one more entry', fld(P, 'entry_count', False) == n + 1); kept(P, 'entry_count', *(('bins', 'bin_count', 'bin_mask') if grown(P) else ()))
        last = V.len(w)
        rings(P, V, B, lambda b, k: z3.If(z3.And(b == w, k == last), e.lo + IB(P), V.nd(P, b, k + 1)), lambda b, k: z3.If(z3.And(b == w, k == last + 1), e.lo + IB(P), V.nd(P, b, k - 1)),
              lambda q: z3.If(q == n, e.lo + IO(P), io(P, q + 1)), lambda q: z3.If(q == n + 1, e.lo + IO(P), io(P, q - 1)))
        P.ensure('it is the last of its bin', z3.And(P.r8(e.lo + IB(P) + NX(P)) == V.HD(w), P.r8(e.lo + IB(P) + PV(P)) == V.nd(P, w, last)))
        P.ensure('it is the last in insertion order', z3.And(P.r8(e.lo + IO(P) + NX(P)) == OI(P), P.r8(e.lo + IO(P) + PV(P)) == io(P, n)))
        if op == 'create': P.ensure('it is returned', rv == e.lo)
        P.ensure('entries have the size they are released with', e.size == P.sizeof('cork_hash_table_entry_priv'))
        if 'is_new' in g['outs']: P.ensure('reported as new', P.r1(g['outs']['is_new']) == 1)
        for o in ('old_key', 'old_value'):
            if o in g['outs']: P.ensure('no %s' % o, out(o) == 0)
        frame(P, mine(P))
    return post
for f, op, hd in (('cork_hash_table_put_hash', 'put', True), ('cork_hash_table_put', 'put', False), ('cork_hash_table_get_or_create_hash', 'create', True), ('cork_hash_table_get_or_create', 'create', False)):
    for o in ((True, False) if op == 'put' else (True,)):
        if f == 'cork_hash_table_put' and not o: continue
        add(f, pre_add(op, hd, o), post_add(op), label=None if o else 'nothing reported', inv=find_inv, bounds=lambda L: [V0.len(L.ctx.g['w']) + 1], termination=True)

# removing
def release(P, ar, ins):
    """an entry is handed back to the allocator; its contents are unknown afterwards"""
    q = P.g['victim'](P)
    P.require('the entry that is removed is released', ar[1] == E(q)); P.require('with the size it was allocated with', ar[2] == P.sizeof('cork_hash_table_entry_priv'))
    P.require('once', P.loglen('release') == 0); P.log('release', ar[1])
    P.ex.havoc_ranges(P.st, [(ar[1], P.sizeof('cork_hash_table_entry_priv'))], [4, 8])
def adddel(f, pre, post, label=None, **kw):
    SPECS.append(Spec(f, pre, post, label='%s (%s)' % (f, label) if label else f, calls=dict(ALLOC, cork_alloc_free=release), indirect=ind, **kw))
def pre_del(how, free, outs):
    def pre(P):
        if how == 'entry':
            table(P, P.args[0], free=free); d = oE(P.args[1]); P.assume(z3.And(ent(P, d), P.args[1] == E(d))); P.g['outs'] = {}; P.g['free'] = free
            P.st.ghost['freed'] = 0; bin_facts(P, V0, d); entry_facts(P, d); P.g['victim'] = lambda P: d; P.g['w'] = V0.bin(d); P.g['d'] = d; neighbours(P, d); return
        lookup(how == 'hash')(P); g = P.g; n = 3 if how == 'hash' else 2; g['outs'] = {}; g['free'] = free; g['d'] = None
        for f in ('free_key', 'free_value'): P.assume(fld(P, f) > 0 if free else fld(P, f) == 0)
        for o in OUTS['delete']:
            if outs: P.region(o, P.args[n], 8, ('any',)); g['outs'][o] = P.args[n]
            else: P.assume(P.args[n] == 0)
            n += 1
        g['victim'] = lambda P: found_at(P)
    return pre
def neighbours(P, d):
    w, p = V0.bin(d), V0.pos(d)
    for q in (p - 1, p + 1): pos_facts(P, V0, w, q)
    entry_facts(P, d - 1); entry_facts(P, d + 1)
    b = P.g['bins'] + 16 * w; P.assume(Imp(ent(P, d), z3.And(V0.HD(w) == b, V0.oH(b) == w, V0.oH(b + NX(P)) == w, V0.oH(b + PV(P)) == w)))
def found_at(P):
    """the entry with an equal key"""
    q = z3.Int('q!match'); P.assume(Imp(EX([i], z3.And(ent(P, i), EQ(P.g['key'], key(i)))), found(P, q))); return q
def post_del(how):
    def post(P, rv):
        g = P.g; n = N(P); w = g['w']
        if how != 'entry' and P.loglen('release').eq(I(0)):
            P.ensure('nothing is removed only if no entry has an equal key', none(P)); P.ensure('reports that there was none', rv == 0)
            frame(P, lambda a: z3.BoolVal(False), 'nothing changes'); P.ensure('nothing is freed', P.loglen('free') == 0); return
        d = g['d'] if how == 'entry' else oE(P.logat('release', I(0), 0)); P.ensure('exactly one entry is released', P.loglen('release') == 1)
        P.ensure('an entry of the table', z3.And(ent(P, d), P.logat('release', I(0), 0) == E(d)))
        if how != 'entry': P.ensure('with an equal key', found(P, d)); P.ensure('reports that there was one', rv != 0)
        for o, v in (('deleted_key', key(d)), ('deleted_value', val(d))):
            if o in g['outs']: P.ensure('%s is reported' % o, P.r8(g['outs'][o]) == v)
        P.ensure('the key and the value are freed if the table owns them, each once', z3.And(P.loglen('free') == 2, P.logat('free', I(0), 0) == 1, P.logat('free', I(0), 1) == key(d), P.logat('free', I(1), 0) == 2, P.logat('free', I(1), 1) == val(d)) if g['free'] else P.loglen('free') == 0)
        intact(P, d); P.ensure('one entry less', fld(P, 'entry_count', False) == n - 1); kept(P, 'entry_count')
        p = V0.pos(d); w = V0.bin(d); f1 = lambda k: z3.If(k == n + 1, I(0), k)
        rings(P, V0, g['B'], lambda b, k: V0.nd(P, b, z3.If(z3.And(b == w, k + 1 == p), p + 1, k + 1)), lambda b, k: V0.nd(P, b, z3.If(z3.And(b == w, k - 1 == p), p - 1, k - 1)),
              lambda q: io(P, z3.If(q + 1 == d, d + 1, q + 1)), lambda q: io(P, z3.If(q - 1 == d, d - 1, q - 1)), skip=d)
        frame(P, mine(P))
    return post
for f, how in (('cork_hash_table_delete_hash', 'hash'), ('cork_hash_table_delete', 'key'), ('cork_hash_table_delete_entry', 'entry')):
    for fr, o in ((True, True), (False, False)):
        if how == 'key' and not fr: continue
        adddel(f, pre_del(how, fr, o), post_del(how), label='keys and values %sowned%s' % ('' if fr else 'not ', ', nothing reported' if not o else ''), inv=find_inv if how != 'entry' else None,
               **({} if how == 'entry' else dict(bounds=lambda L: [V0.len(L.ctx.g['w']) + 1], termination=True)))
def post_size(P, rv): P.ensure('the number of entries', rv == N(P)); frame(P, lambda a: z3.BoolVal(False), 'nothing changes')
add('cork_hash_table_size', lambda P: (table(P, P.args[0]), P.st.ghost.update(freed=0)), post_size)
# new tables
def BV(v): return z3.BitVecVal(v, 64)
def inv_size(L):
    d = L.ctx.args[0]; out = []
    for p in L.ints(64):
        for q in L.ints(64):
            if p != q: out.append(('%s is the request shifted as often as %s' % (p, q), lambda L, p=p, q=q: z3.And(z3.If(d == 0, L.val(q) == 1, L.val(p) != 0), z3.Or([z3.And(L.val(q) == BV(1 << t), L.val(p) == z3.LShR(d, t)) for t in range(64)]))))
    return out
def post_size2(P, rv):
    d = P.args[0]; P.ensure('at least as many bins as asked for', z3.UGE(rv, d)); P.ensure('at least one', rv != 0); P.ensure('a power of two', rv & (rv - 1) == 0); P.ensure('the smallest one', z3.Or(z3.ULE(rv, BV(2)), z3.ULT(z3.LShR(rv, 1), d)))
SPECS.append(Spec('cork_hash_table_new_size', lambda P: P.assume(z3.ULE(P.args[0], BV(1 << 58))), post_size2, inv=inv_size, mode='bv', calls={}))
def h_newsize(P, a, ins):
    c = P.fresh('bins', 64); P.require('not too many bins', a[0] <= BIG); P.assume(z3.And(c >= 1, c >= a[0], z3.Or(c < 2 * a[0], c <= 2))); P.g['B'] = c; P.log('newsize', a[0]); return c
def h_bins(P, a, ins):
    lo = ALLOC['cork_alloc_calloc'](P, a, ins); P.require('room for the bins', z3.And(a[1] * a[2] == 16 * P.g['B'])); P.st.ghost['bins'] = lo; B = P.g['B']
    P.assume(FA([b], Imp(z3.And(0 <= b, b < B), z3.And(V0.HD(b) == lo + 16 * b, V0.oH(V0.HD(b)) == b, V0.oH(V0.HD(b) + 8) == b)), [V0.HD(b)])); return lo
def inv_new(L):
    P = L.ctx; B = P.g['B']; lo = L.st.ghost['bins']
    def bins(L): h = L.H(8); return FA([b], Imp(z3.And(0 <= b, b < L.k), z3.And(Sel(h, V0.HD(b) + NX(P)) == V0.HD(b), Sel(h, V0.HD(b) + PV(P)) == V0.HD(b))), [V0.HD(b)])
    out = [('bins emptied so far', bins), ('the next bin', lambda L: z3.And(0 <= L.k, L.k <= B, Imp(L.k < B, V0.HD(L.k) == lo + 16 * L.k)))]
    for p in L.ints(): out.append(('%s = bin number' % p, lambda L, p=p: z3.And(0 <= L.k, L.k <= B, L.val(p) == L.k)))
    for p in L.ptrs(): out.append(('%s = bin' % p, lambda L, p=p: z3.And(0 <= L.k, L.k <= B, L.val(p) == lo + 16 * L.k)))
    return out
def post_new(kind):
    def post(P, rv):
        f = lambda n: P.r8(rv + off(P, n)); P.g['T'] = rv; oi = OI(P); w = z3.Int('w!r'); B = f('bin_count'); lo = f('bins'); wb = z3.And(0 <= w, w < B); n0 = P.args[0]
        owned(P, rv, P.sizeof('cork_hash_table'), 'a new table is returned'); owned(P, lo, 16 * B, 'it has its bins'); P.ensure('room for what was asked for', z3.And(B >= n0, B >= 8, f('bin_mask') == B - 1))
        P.ensure('no entry', f('entry_count') == 0); P.ensure('the insertion order is empty', z3.And(P.r8(oi + NX(P)) == oi, P.r8(oi + PV(P)) == oi))
        P.assume(Imp(z3.And(wb, B == P.g['B']), z3.And(V0.HD(w) == P.st.ghost['bins'] + 16 * w, V0.oH(V0.HD(w)) == w, V0.oH(V0.HD(w) + 8) == w)))
        P.ensure('every bin is empty', Imp(wb, z3.And(P.r8(lo + 16 * w + NX(P)) == lo + 16 * w, P.r8(lo + 16 * w + PV(P)) == lo + 16 * w)))
        P.ensure('nothing is owned', z3.And([f(x) == 0 for x in ('user_data', 'free_user_data', 'free_key', 'free_value')]))
        for x, (t, d) in dict(hash=('string_hash', 'cork_hash_table__default_hash'), equals=('string_equals', 'cork_hash_table__default_equals')).items(): P.ensure('%s' % x, f(x) == P.address(t if kind == 'string' else d))
        frame(P, lambda a: z3.BoolVal(False))
    return post
def pre_new(P): P.assume(P.args[0] < BIG); P.init_log('newsize', 1)
for f_, kind in (('cork_hash_table_new', ''), ('cork_string_hash_table_new', 'string'), ('cork_pointer_hash_table_new', '')):
    SPECS.append(Spec(f_, pre_new, post_new(kind), calls=dict(ALLOC, cork_hash_table_new_size=h_newsize, cork_alloc_calloc=h_bins), inv=inv_new, bounds=lambda L: [L.ctx.g['B'] + 1], termination=True))
# the keys of string and pointer tables
def h_hb(P, a, ins): P.require('the whole text is hashed', z3.And(a[0] == 0, a[1] == P.args[1], a[2] == P.g['l'])); r = P.fresh('hash', 32); P.g['h'] = r; return r
def text(P, q, nm):
    l = z3.Int('len_' + nm); P.assume(z3.And(0 <= l, l < 1 << 60)); P.region(nm, q, S(l + 1), ('bytes',), False); P.st.zstr = P.st.zstr + [(q, l)]; P.assume(P.o1(q + l) == 0); P.assume(FA([a], Imp(z3.And(q <= a, a < q + l), P.o1(a) != 0), [P.o1(a)])); return l
def pre_sh(P): P.g['l'] = text(P, P.args[1], 'key')
SPECS.append(Spec('string_hash', pre_sh, lambda P, rv: (P.ensure('the hash of the text', rv == P.g['h']), frame(P, lambda a: z3.BoolVal(False))), calls=dict(cork_hash_buffer=h_hb)))
def h_cmp(P, a, ins): P.require('the two keys are compared', z3.Or(z3.And(a[0] == P.args[1], a[1] == P.args[2]), z3.And(a[1] == P.args[1], a[0] == P.args[2]))); r = P.fresh('strcmp', 32); P.g['c'] = r; return r
SPECS.append(Spec('string_equals', None, lambda P, rv: (P.ensure('equal texts', (rv != 0) == (P.g['c'] == 0)), frame(P, lambda a: z3.BoolVal(False))), calls=dict(strcmp=h_cmp)))
SPECS.append(Spec('cork_hash_table__default_hash', None, lambda P, rv: (P.ensure('the low half of the pointer', rv == P.args[1] % (1 << 32)), frame(P, lambda a: z3.BoolVal(False))), calls={}))
SPECS.append(Spec('cork_hash_table__default_equals', None, lambda P, rv: (P.ensure('the same pointer', (rv != 0) == (P.args[1] == P.args[2])), frame(P, lambda a: z3.BoolVal(False))), calls={}))
BOUNDED = ['cork_hash_table_ensure_size (growth: its callers are checked against its contract)']
TRUSTED = ['allocation contracts of specs/common.py (proved for the allocators of libcork by C22)', 'the contract of cork_hash_table_ensure_size (bounded: concrete runs against a reference map)',
           'hash, equals and free callbacks touch only what they are given and the client\'s own memory']
ASSUME = ['fewer than 2^58 entries and bins', 'the equals callback is an equivalence and equal keys have equal hashes', 'the entry given to cork_hash_table_delete_entry belongs to the table']
EXPLANATION = 'The contents of a table are a finite map held three times over: bins (rings), insertion order (ring) and the count. Each contract says how one operation changes that map and that all three agree afterwards; histories follow by induction.'
