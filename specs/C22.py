"""C22: allocator wrappers."""
from lvc.spec import *
from lvc import libc
from .common import block, zero_fill, frame
WRAPPERS = ['alloc.c']
S = z3.simplify
MAX = (1 << 64) - 1
SPECS = []
FIELDS = ('calloc', 'malloc', 'realloc', 'xcalloc', 'xmalloc', 'xrealloc', 'free')
def fo(P, f): return P.off('cork_alloc', f)
def product(P, c, n):
    """c * n as a number, with instances of valid monotonicity lemmas for the division used as an overflow check"""
    for m in (MAX,):
        q = P.ex.ops.F('udiv64', I(m), n)
        P.assume(Imp(c <= q, c * n <= q * n)); P.assume(Imp(c > q, c * n >= q * n + n))
    P.assume(Imp(z3.And(n > 0), c * n >= c)); P.assume(Imp(n == 0, c * n == 0)); P.assume(c * n >= 0)
    P.assume(Imp(n > 0, z3.And(q0(P, n) * n <= MAX, MAX < q0(P, n) * n + n)))
    return c * n
def q0(P, n): return P.ex.ops.F('udiv64', I(MAX), n)
def parent(P, p):
    P.rec('parent', p, 'cork_alloc', writable=False)
    for f in FIELDS: P.assume(P.o8(S(p + fo(P, f))) > 0)
def give(P, n):
    """a client's allocation function: a fresh block of n bytes, or NULL leaving everything as it was"""
    s2 = P.st.clone(); P2 = P.at(s2)
    P2.gset('failed', z3.BoolVal(True))
    r = block(P, n, 'client')
    P.st.ghost['got'] = r.lo
    return P, r, P2
def alloc_is(P, a): P.require('the allocator itself is passed on', a == P.st.ghost.get('self', a)) if 'self' in P.st.ghost else None
def m_xmalloc(P, a):
    alloc_is(P, a[0]); P.require('exactly the size needed is asked for', a[1] == P.g['want'](P)); P.gset('asked', P.gget('asked') + 1)
    P1, r, P2 = give(P, P.g['want'](P))
    return Fork([(P1.st, r.lo), (P2.st, I(0))])
def m_xcalloc(P, a):
    alloc_is(P, a[0]); P.require('count and size are passed on', z3.And(a[1] == P.g['c'](P), a[2] == P.g['n'](P))); P.gset('asked', P.gget('asked') + 1)
    P2 = P.at(P.st.clone()); P2.gset('failed', z3.BoolVal(True))
    P.assume(P.g['want'](P) <= MAX)
    r = block(P, P.g['want'](P), 'client'); zero_fill(P, r)
    return Fork([(P.st, r.lo), (P2.st, I(0))])
def m_xrealloc(P, a):
    alloc_is(P, a[0]); P.require('block and sizes are passed on', z3.And(a[1] == P.g['p'](P), a[2] == P.g['old'](P), a[3] == P.g['new'](P))); P.gset('asked', P.gget('asked') + 1)
    P2 = P.at(P.st.clone()); P2.gset('failed', z3.BoolVal(True))
    return Fork([(P.st, moved(P, a[1], a[2], a[3])), (P2.st, I(0))])
def moved(P, p, old, new):
    olds = P.H(1); r = block(P, new, 'client')
    if not P.entails(p == 0):
        P.ex.range_update(P.st, r.lo, z3.If(old < new, old, new), lambda w, x: z3.Select(olds, S(x - r.lo + p)), {1})
        libc.release(P.ex, P.st, p, old, False)
    return r.lo
def m_free(P, a):
    alloc_is(P, a[0]); libc.release(P.ex, P.st, a[1], a[2], False); P.gset('gave', P.gget('gave') + 1)
METHODS = {'xm': m_xmalloc, 'xc': m_xcalloc, 'xr': m_xrealloc, 'fr': m_free}
def indirect(P, fp, args, ins):
    for k, v in P.g.get('fns', {}).items():
        if P.entails(fp == v): return METHODS[k](P, args)
    for f in FIELDS:
        if 'parent' in P.g and P.entails(fp == P.o8(S(P.g['parent'] + fo(P, f)))):
            P.require('the parent allocator is passed on', args[0] == P.g['parent'])
            return P.g['pm'](P, f, args)
    return NotImplemented
def pm_new(P, f, a):
    """the parent gives the memory for the allocator object (guaranteed allocation)"""
    if f == 'malloc': r = block(P, a[1], 'allocator'); P.st.ghost['self'] = r.lo; return r.lo
    raise ToolLimit('parent method ' + f)
def h_atexit(P, a, ins): return I(0)
def h_abort(P, a, ins):
    P.ensure('gives up only when memory cannot be had', P.gget('failed')); return End()
def h_quiet(P, a, ins): return None
CALLS = {'atexit': h_atexit, 'abort': h_abort, 'fprintf': h_quiet}
GL = ('*',)
def start(P):
    P.st.ghost['failed'] = z3.BoolVal(False); P.st.ghost['asked'] = I(0); P.st.ghost['gave'] = I(0)
class GAny:
    """every global of allocator.c may be written"""
def setup(P, fns, rest):
    """wrapper w_def_*(parent, xm, fr, ...)"""
    start(P); parent(P, P.args[0]); P.g['parent'] = P.args[0]; P.g['pm'] = pm_new
    P.g['fns'] = {k: P.args[i] for k, i in fns.items()}
    vs = list(P.g['fns'].values())
    for v in vs: P.assume(v > 0)
    for i, v in enumerate(vs):
        for w in vs[:i]: P.assume(v != w)
    for v in vs:
        for f in FIELDS: P.assume(v != P.o8(S(P.args[0] + fo(P, f))))
    P.st.ghost['self'] = I(0)
    rest(P)
def fresh_block(P, rv, n, name='a live block of exactly the size asked for'):
    rs = [r for t, r in P.st.regions.items() if not r.family and r.heap]
    P.ensure(name, z3.Or([z3.And(r.lo == rv, r.size == n) for r in rs] + [z3.BoolVal(False)]))
def guaranteed(P, rv): P.ensure('never NULL', rv != 0)
def recoverable(P, rv): P.ensure('NULL exactly when memory cannot be had', (rv == 0) == P.gget('failed'))
def zeroed(P, rv, n):
    x = z3.Int('a!z'); P.ensure('every byte is zero', FA([x], Imp(z3.And(rv <= x, x < rv + n), P.r1(x) == 0), [P.r1(x)]))
def add(fn, pre, post, label=None, calls=CALLS, ind=indirect, **kw):
    SPECS.append(Spec(fn, pre, post, label=fn + (' (%s)' % label if label else ''), calls=calls, indirect=ind, globals=GL, **kw))
def same_heap(P, keep=()):
    """what existed before and was not handed back still has its bytes"""
    frame(P, lambda a: z3.Or([z3.And(P.ex.gaddr[k][0] <= a, a < P.ex.gaddr[k][0] + 8) for k in P.ex.gaddr if k.startswith('g!')] + [z3.BoolVal(False)]))
XF = {'xm': 1, 'fr': 2}
def do_malloc(fn, i, x):
    def rest(P): P.g['want'] = lambda P: P.args[i]
    def post(P, rv):
        (recoverable if x else guaranteed)(P, rv)
        if not P.entails(rv == 0): fresh_block(P, rv, P.args[i])
        P.ensure('asked once', P.gget('asked') == 1); same_heap(P)
    add(fn, lambda P: setup(P, XF, rest), post)
do_malloc('w_def_malloc', 3, False); do_malloc('w_def_xmalloc', 3, True)
def do_calloc(fn, i, x, fns=XF):
    def rest(P):
        product(P, P.args[i], P.args[i + 1]); P.g['want'] = lambda P: P.args[i] * P.args[i + 1]; P.g['c'] = lambda P: P.args[i]; P.g['n'] = lambda P: P.args[i + 1]
    def post(P, rv):
        n = P.args[i] * P.args[i + 1]
        if x: P.ensure('NULL exactly when memory cannot be had', (rv == 0) == z3.Or(P.gget('failed'), n > MAX))
        else: guaranteed(P, rv)
        if not P.entails(rv == 0): fresh_block(P, rv, n); zeroed(P, rv, n)
        P.ensure('nothing is handed back', P.gget('gave') == 0); same_heap(P)
    def ab(P, a, ins): P.ensure('gives up only when memory cannot be had', z3.Or(P.gget('failed'), P.args[i] * P.args[i + 1] > MAX)); return End()
    add(fn, lambda P: setup(P, fns, rest), post, calls=dict(CALLS, abort=ab))
do_calloc('w_def_calloc', 3, False); do_calloc('w_def_xcalloc', 3, True); do_calloc('w_over_calloc', 2, False, {'xc': 1})
def do_realloc(fn, i, kind, null, fns=XF):
    """kind: guaranteed, recoverable, or recoverable that frees the old block on failure"""
    def rest(P):
        p, old, new = P.args[i:i + 3]
        if null: P.assume(z3.And(p == 0, old == 0))
        else: P.assume(p > 0); P.region('old', p, old, ('bytes',), heap=True)
        P.g['want'] = P.g['new'] = lambda P: P.args[i + 2]; P.g['p'] = lambda P: P.args[i]; P.g['old'] = lambda P: P.args[i + 1]
    def post(P, rv):
        p, old, new = P.args[i:i + 3]; x = z3.Int('a!r')
        (guaranteed if kind == 'g' else recoverable)(P, rv)
        if P.entails(rv == 0):
            P.ensure('on failure the old block is %s' % ('released' if kind == 'f' else 'kept'), z3.BoolVal(null or ('old' in P.st.regions) == (kind != 'f')))
            same_heap(P)
        else:
            fresh_block(P, rv, new)
            if not null:
                n = z3.If(old < new, old, new)
                P.ensure('the common prefix is preserved', FA([x], Imp(z3.And(rv <= x, x < rv + n), P.r1(x) == P.o1(S(x - rv + p))), [P.r1(x)]))
                P.ensure('the old block is released', z3.BoolVal('old' not in P.st.regions))
    # freeing a NULL block after a failed reallocation is the client's free method given NULL
    def ind(P, fp, args, ins):
        if null and 'fr' in P.g['fns'] and P.entails(fp == P.g['fns']['fr']) and P.entails(args[1] == 0): P.gset('gave', P.gget('gave') + 1); return None
        return indirect(P, fp, args, ins)
    add(fn, lambda P: setup(P, fns, rest), post, 'new block' if null else 'existing block', ind=ind)
for null in (True, False):
    do_realloc('w_def_realloc', 3, 'g', null); do_realloc('w_def_xrealloc', 3, 'r', null); do_realloc('w_def_xreallocf', 3, 'f', null)
    do_realloc('w_over_realloc', 2, 'g', null, {'xr': 1}); do_realloc('w_over_xreallocf', 3, 'f', null, {'xr': 1, 'fr': 2})
def rest_free(P): P.assume(P.args[3] > 0); P.region('old', P.args[3], P.args[4], ('bytes',), heap=True)
def post_free(P, rv): P.ensure('the block is handed back', z3.BoolVal('old' not in P.st.regions)); same_heap(P)
add('w_def_free', lambda P: setup(P, XF, rest_free), post_free)
def rest_cfree(P):
    n = product(P, P.args[4], P.args[5]); P.assume(z3.And(P.args[3] > 0, n <= MAX)); P.region('old', P.args[3], n, ('bytes',), heap=True)
add('w_def_cfree', lambda P: setup(P, XF, rest_cfree), post_free)
# strings
def rest_str(counted):
    def f(P):
        s = P.args[3]; P.assume(s > 0)
        if counted: n = P.args[4]; P.assume(n < (1 << 62)); P.region('str', s, n, ('bytes',), writable=False)
        else:
            n = P.fresh('len'); P.assume(n < (1 << 62)); P.region('str', s, S(n + 1), ('bytes',), writable=False)
            i = z3.Int('i!z'); P.assume(z3.And(P.o1(S(s + n)) == 0, FA([i], Imp(z3.And(s <= i, i < s + n), P.o1(i) != 0), [P.o1(i)])))
            P.st.zstr = P.st.zstr + [(s, n)]
        P.g['len'] = n; P.g['want'] = lambda P: S(P.g['len'] + 9)
    return f
def post_str(x):
    def f(P, rv):
        s, n = P.args[3], P.g['len']; a = z3.Int('a!s')
        (recoverable if x else guaranteed)(P, rv)
        if P.entails(rv == 0): same_heap(P); return
        fresh_block(P, S(rv - 8), S(n + 9), 'held in a live block')
        P.ensure('the same bytes', FA([a], Imp(z3.And(rv <= a, a < rv + n), P.r1(a) == P.o1(S(a - rv + s))), [P.r1(a)]))
        P.ensure('NUL terminated', P.r1(S(rv + n)) == 0)
        P.ensure('its length is recorded', P.r8(S(rv - 8)) == n); same_heap(P)
    return f
for x in ('', 'x'):
    for c in (False, True): add('w_def_%sstr%sdup' % (x, 'n' if c else ''), lambda P, c=c: setup(P, XF, rest_str(c)), post_str(bool(x)))
def post_life(P, rv):
    P.ensure('its length', rv == P.g['len'])
    P.ensure('the block is handed back with its size', z3.And(P.gget('gave') == 1, z3.BoolVal(not [t for t in P.st.regions if t.startswith('client')]))); same_heap(P)
add('w_def_strlife', lambda P: setup(P, XF, rest_str(True)), post_life)
# every public function goes to the method of the allocator it is given, or of the current one
def h_log(P, fp, args, ins):
    P.log('call', fp, *(list(args) + [I(0)] * (4 - len(args)))); P.gset('calls', P.gget('calls') + 1)
    if ins.res is None: return None
    r = P.fresh('result'); P.st.ghost['result'] = r; return r
def passes(fn, field, args, cur):
    def pre(P):
        start(P); P.init_log('call', 5); P.st.ghost['calls'] = I(0)
        if cur:
            g = P.address('cork_allocator'); a = P.o8(g)
        else: a = P.args[0]
        P.g['a'] = a; parent(P, a)
    def post(P, rv):
        n = 0 if cur else 1; A = [P.g['a']] + list(P.args[n:]); A += [I(0)] * (4 - len(A))
        P.ensure('the allocator is asked once', P.gget('calls') == 1)
        P.ensure('its own method, with the same arguments', z3.And(P.logat('call', I(0), 0) == P.o8(S(P.g['a'] + fo(P, field))), *[P.logat('call', I(0), i + 1) == A[i] for i in range(4)]))
        if rv is not None: P.ensure('its answer is returned', rv == P.st.ghost.get('result', I(-1)))
        same_heap(P)
    add(fn, pre, post, ind=h_log)
for f in FIELDS:
    passes('cork_alloc_' + f, f, 0, False); passes('cork_' + f, f, 0, True)
# the initial allocator: the C library
def std(P):
    start(P); g = P.address('cork_allocator'); m, name = [(m, n) for k, (c, m, n) in P.ex.gaddr.items() if c.eq(g)][0]
    init = m.globals[name]['init']
    P.assume(P.o8(g) == P.ex.value(P.st, m, ('ptr',), init))
    P.st.ghost['failed'] = z3.BoolVal(False)
def l_malloc(P, a, ins):
    P.g['want']; P.require('exactly the size needed is asked for', a[0] == P.g['want'](P))
    P1, r, P2 = give(P, a[0]); return Fork([(P1.st, r.lo), (P2.st, I(0))])
def l_calloc(P, a, ins):
    n = P.g['want'](P); P.require('count and size are passed on', z3.And(a[0] * a[1] == n))
    P2 = P.at(P.st.clone()); P2.gset('failed', z3.BoolVal(True)); P.assume(n <= MAX)
    r = block(P, n, 'client'); zero_fill(P, r); return Fork([(P.st, r.lo), (P2.st, I(0))])
def l_realloc(P, a, ins):
    """ISO C: size zero may release the block and return NULL"""
    P.ensure('the C library is not asked to reallocate to nothing', a[1] > 0)
    P.require('the block is passed on', a[0] == P.g['p'](P))
    new = P.g['new'](P); P.require('exactly the size needed is asked for', z3.Or(a[1] == new, z3.And(new == 0, a[1] >= 1)))
    P2 = P.at(P.st.clone()); P2.gset('failed', z3.BoolVal(True))
    return Fork([(P.st, moved(P, a[0], P.g['old'](P), a[1])), (P2.st, I(0))])
def l_free(P, a, ins): libc.release(P.ex, P.st, a[0], None, True)
LIBC = dict(CALLS, malloc=l_malloc, calloc=l_calloc, realloc=l_realloc, reallocf=None, free=l_free); del LIBC['reallocf']
def big(P, rv, n): 
    rs = [r for t, r in P.st.regions.items() if not r.family and r.heap]
    P.ensure('a live block of at least the size asked for', z3.Or([z3.And(r.lo == rv, r.size >= n) for r in rs] + [z3.BoolVal(False)]))
for x in ('', 'x'):
    ok = recoverable if x else guaranteed
    def pre_m(P): std(P); P.g['want'] = lambda P: P.args[0]
    def post_m(P, rv, ok=ok):
        ok(P, rv)
        if not P.entails(rv == 0): fresh_block(P, rv, P.args[0])
        same_heap(P)
    add('cork_%smalloc' % x, pre_m, post_m, 'C library', calls=LIBC, ind=None)
    def pre_c(P): std(P); product(P, P.args[0], P.args[1]); P.g['want'] = lambda P: P.args[0] * P.args[1]
    def post_c(P, rv, ok=ok):
        ok(P, rv); n = P.args[0] * P.args[1]
        if not P.entails(rv == 0): fresh_block(P, rv, n); zeroed(P, rv, n)
        same_heap(P)
    add('cork_%scalloc' % x, pre_c, post_c, 'C library', calls=LIBC, ind=None)
for null in (True, False):
    for fn, kind in (('cork_realloc', 'g'), ('cork_xrealloc', 'r'), ('cork_xreallocf', 'f')):
        def pre_r(P, null=null):
            std(P); p, old, new = P.args
            if null: P.assume(z3.And(p == 0, old == 0))
            else: P.assume(p > 0); P.region('old', p, old, ('bytes',), heap=True)
            P.g['new'] = lambda P: P.args[2]; P.g['p'] = lambda P: P.args[0]; P.g['old'] = lambda P: P.args[1]
        def post_r(P, rv, null=null, kind=kind):
            p, old, new = P.args; x = z3.Int('a!r')
            (guaranteed if kind == 'g' else recoverable)(P, rv)
            if P.entails(rv == 0):
                P.ensure('on failure the old block is %s' % ('released' if kind == 'f' else 'kept'), z3.BoolVal(null or ('old' in P.st.regions) == (kind != 'f'))); same_heap(P)
            else:
                big(P, rv, new)
                if not null:
                    n = z3.If(old < new, old, new)
                    P.ensure('the common prefix is preserved', FA([x], Imp(z3.And(rv <= x, x < rv + n), P.r1(x) == P.o1(S(x - rv + p))), [P.r1(x)]))
                    P.ensure('the old block is released', z3.BoolVal('old' not in P.st.regions))
        add(fn, pre_r, post_r, 'C library, ' + ('new block' if null else 'existing block'), calls=LIBC, ind=None)
def pre_lf(P): std(P); P.assume(P.args[0] > 0); P.region('old', P.args[0], P.args[1], ('bytes',), heap=True)
add('cork_free', pre_lf, post_free, 'C library', calls=LIBC, ind=None)
def pre_lcf(P):
    std(P); n = product(P, P.args[1], P.args[2]); P.assume(z3.And(P.args[0] > 0, n <= MAX)); P.region('old', P.args[0], n, ('bytes',), heap=True)
add('cork_cfree', pre_lcf, post_free, 'C library', calls=LIBC, ind=None)
# the debugging allocator
def pm_debug(P, f, a):
    if f == 'malloc' and 'first' not in P.st.ghost:
        P.st.ghost['first'] = I(1); r = block(P, a[1], 'allocator'); P.st.ghost['self'] = r.lo; return r.lo
    if f in ('xmalloc', 'malloc'):
        P.require('enough is asked for', a[1] >= P.g['n'](P)); P.gset('asked', P.gget('asked') + 1)
        P2 = P.at(P.st.clone()); P2.gset('failed', z3.BoolVal(True)); r = block(P, a[1], 'client')
        return Fork([(P.st, r.lo)] + ([(P2.st, I(0))] if f == 'xmalloc' else []))
    if f == 'free': libc.release(P.ex, P.st, a[1], a[2], False); P.gset('gave', P.gget('gave') + 1); return None
    raise ToolLimit('parent method ' + f)
def pre_dbg(P):
    start(P); parent(P, P.args[0]); P.g['parent'] = P.args[0]; P.g['pm'] = pm_debug; P.g['n'] = lambda P: P.args[1]
def post_dbg(P, rv):
    P.ensure('NULL exactly when memory cannot be had', (rv == 0) == z3.Or(P.gget('failed'), P.args[1] + 8 > MAX))
    if not P.entails(rv == 0):
        rs = [r for t, r in P.st.regions.items() if not r.family and r.heap and t.startswith('client')]
        P.ensure('that many bytes of one live block', z3.Or([z3.And(r.lo <= rv, rv + P.args[1] <= r.lo + r.size) for r in rs] + [z3.BoolVal(False)]))
    same_heap(P)
add('w_debug_xmalloc', pre_dbg, post_dbg)
def ab_dbg(P, a, ins):
    P.ensure('gives up only when memory cannot be had or the size is wrong', z3.Or(P.gget('failed'), P.args[1] + 8 > MAX, P.args[1] != P.args[2])); return End()
def post_dlife(P, rv):
    P.ensure('a wrong size is never accepted', P.args[1] == P.args[2])
    P.ensure('the block is handed back once, with its size', z3.And(P.gget('gave') == 1, z3.BoolVal(not [t for t in P.st.regions if t.startswith('client')])))
add('w_debug_life', pre_dbg, post_dlife, calls=dict(CALLS, abort=ab_dbg))
# choosing methods changes that method only
for f in FIELDS:
    def pre_s(P): start(P); P.rec('a', P.args[0], 'cork_alloc')
    def post_s(P, rv, f=f):
        for g in ('parent', 'user_data', 'free_user_data') + FIELDS: P.ensure(g, P.r8(S(P.args[0] + fo(P, g))) == (P.args[1] if g == f else P.o8(S(P.args[0] + fo(P, g)))))
    add('cork_alloc_set_' + f, pre_s, post_s)
ASSUME = ['client methods do what the documentation of struct cork_alloc asks of them: a fresh block of the size asked for or NULL; the guaranteed methods of a parent allocator never return NULL',
          'malloc, calloc, realloc, free: ISO C; realloc to size zero may release the block and return NULL', 'a reallocated block is not larger than the address space; strings are below 2^62 bytes',
          'abort and a failed assertion end the process']
LEAKS = True
