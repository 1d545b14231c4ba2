"""C24: the reference-counting collector.  A header's word is 8*count + 4*buffered + colour.  Every step of the collector is under
contract: what it does to the counts, the colours and the list of possible roots, whom it releases, when, and how it goes on to
the children.  That these steps together free exactly the unreachable objects is the theorem of Bacon and Rajan; here the whole
is checked on bounded random graphs against reachability."""
from lvc.spec import *
from lvc import libc
from .common import *
import re
S = z3.simplify; HDR, GC = 'cork_gc_header', 'cork_gc'; BLACK, GRAY, WHITE, PURPLE = range(4)
FN = lambda P, n: P.address('cork_gc_' + n)
def ho(P, f): return P.off(HDR, f)
def go(P, f): return P.off(GC, f)
def HS(P): return P.sizeof(HDR)
nothing = lambda q: z3.BoolVal(False)
LOGS = (('recurse', 2), ('freecb', 1), ('free', 2), ('release', 1), ('root', 1), ('collect', 0), ('gray', 1), ('black', 1), ('phase', 1), ('scan', 1))
def start(P):
    for l, n in LOGS: P.init_log(l, max(n, 1))
def header(P, h, rec=True):
    """a live object; its word is split into count, buffered bit and colour"""
    P.rec('hdr', h, HDR, heap=True); w = P.o4(h + ho(P, 'ref_count_color')); c, b, k = z3.Ints('count buffered colour'); P.assume(z3.And(w == 8 * c + 4 * b + k, 0 <= c, c < 1 << 27, 0 <= b, b <= 1, 0 <= k, k <= 3))
    i = P.o8(h + ho(P, 'iface')); P.assume(i > 0); P.rec('iface', i, 'cork_gc_obj_iface', False); P.g.update(h=h, c=c, b=b, k=k, iface=i, rfn=P.o8(i + P.off('cork_gc_obj_iface', 'recurse')), ffn=P.o8(i + P.off('cork_gc_obj_iface', 'free')))
    P.g['size'] = P.o8(h + ho(P, 'allocated_size'))
def word(P): return P.r4(P.g['h'] + ho(P, 'ref_count_color'))
def W(c, b, k): return 8 * c + 4 * b + k
def ind(P, fp, a, ins):
    if len(a) == 4:
        P.require('the recursion function of the object', z3.And(fp == P.g['rfn'], fp != 0)); P.require('with the collector, the object and no data', z3.And(a[0] == P.g['gc'], a[1] == P.g['h'] + HS(P), a[3] == 0)); P.require('while the object lives', P.loglen('free') == 0)
        P.log('recurse', a[2], word(P))
        if P.g.get('during'): P.g['during'](P)
        return None
    P.require('the cleanup function of the object', z3.And(fp == P.g['ffn'], fp != 0, a[0] == P.g['h'] + HS(P))); P.require('while the object lives', P.loglen('free') == 0); P.log('freecb', a[0]); return None
def h_free(P, a, ins): P.log('free', a[1], a[2]); return None
def lg(name):
    def h(P, a, ins):
        x = a[1]; P.require('on the object', x == (P.g['h'])); P.require('in this collector', a[0] == P.g['gc']); P.log(name, word(P)); return None
    return h
def h_collect(P, a, ins): P.require('this collector', a[0] == P.g['gc']); P.log('collect', I(0)); return None
CALLS = dict(ALLOC, cork_alloc_free=h_free, cork_gc_release=lg('release'), cork_gc_possible_root=lg('root'), cork_gc_mark_gray=lg('gray'), cork_gc_scan_black=lg('black'), cork_gc_collect_cycles=h_collect)
def without(*n): return {k: v for k, v in CALLS.items() if k not in n}
def tls(P):
    m = P.mod(); s = [s for s in P.ex.prog.srcs if s in P.ex.prog.mods and P.ex.prog.mods[s] is m][0]; l = [g for g in m.globals if re.search(r'^@%s = [^\n]*thread_local' % re.escape(g), P.ex.prog.text[s], re.M)]
    if len(l) != 1: raise ToolLimit('the thread-local collector')
    return P.address(l[0])
SPECS = []
def add(fn, pre, post, label=None, calls=None, **kw):
    def p(P): start(P); pre(P)
    SPECS.append(Spec(fn, p, post, label=(fn + ' (%s)' % label) if label else fn, calls=calls or CALLS, indirect=ind, globals=('*',), **kw))
def only(P, *names):
    """of everything that can be done to the object, only these"""
    for l in ('recurse', 'freecb', 'free', 'release', 'root', 'gray', 'black', 'collect'):
        if l not in names: P.ensure('no %s' % l, P.loglen(l) == 0)
def hdr_only(P, *more):
    h = P.g['h']; frame(P, lambda q: z3.Or([z3.And(h <= q, q < h + HS(P))] + [z3.And(p <= q, q < p + n) for p, n in more])); P.ensure('size and interface are kept', z3.And([P.r8(h + ho(P, f)) == P.o8(h + ho(P, f)) for f in ('allocated_size', 'iface')]))
# allocation
def pre_alloc(P): P.assume(P.args[0] < 1 << 40)
def post_alloc(P, rv):
    h = S(rv - HS(P)); P.ensure('a live block with room for the object', z3.Or([z3.And(r.lo == h, r.size == P.args[0] + HS(P)) for r in P.st.regions.values() if r.heap and not r.family] + [z3.BoolVal(False)])); P.ensure('one reference, in use', P.r4(h + ho(P, 'ref_count_color')) == W(1, 0, BLACK))
    P.ensure('its size and interface are recorded', z3.And(P.r8(h + ho(P, 'allocated_size')) == P.args[0] + HS(P), P.r8(h + ho(P, 'iface')) == P.args[1])); only(P); frame(P, nothing)
add('cork_gc_alloc', pre_alloc, post_alloc)
# taking a reference
def obj(i, gc=None):
    def pre(P):
        P.assume(P.args[i] > HS(P)); header(P, S(P.args[i] - HS(P)))
        if gc is not None: collector(P, P.args[gc])
        else: P.g['gc'] = tls(P)
    return pre
def collector(P, g): P.g['gc'] = g; P.rec('gc', g, GC)
def null(i, gc=None):
    def pre(P): P.assume(P.args[i] == 0); P.g['gc'] = P.args[gc] if gc is not None else tls(P); P.g['h'] = I(0)
    return pre
def unchanged(ret=False):
    def post(P, rv):
        only(P); frame(P, nothing)
        if ret: P.ensure('returned', rv == P.args[0])
    return post
add('cork_gc_incref', obj(0), lambda P, rv: (P.ensure('one reference more, in use', word(P) == W(P.g['c'] + 1, P.g['b'], BLACK)), P.ensure('the same object', rv == P.args[0]), only(P), hdr_only(P)))
add('cork_gc_incref', null(0), unchanged(True), 'NULL')
# dropping a reference
def pre_dec(i, gc=None):
    def pre(P): obj(i, gc)(P); P.assume(P.g['c'] >= 1)
    return pre
def post_dec(public):
    def post(P, rv):
        c, b, k = P.g['c'], P.g['b'], P.g['k']; w = W(c - 1, b, k); P.ensure('one reference less', word(P) == w); P.ensure('released exactly when it was the last one', P.loglen('release') == z3.If(c == 1, 1, 0)); P.ensure('otherwise it may be part of a garbage cycle', P.loglen('root') == z3.If(c == 1, 0, 1))
        P.ensure('after the count was lowered', z3.And(Imp(c == 1, P.logat('release', I(0), 0) == w), Imp(c != 1, P.logat('root', I(0), 0) == w)))
        P.ensure('cycles are looked for at most once', P.loglen('collect') <= (1 if public else 0)); only(P, 'release', 'root', 'collect'); hdr_only(P)
    return post
def after(name):
    def h(P, a, ins): lg(name)(P, a, ins); P.require('before looking for cycles', P.loglen('collect') == 0); return None
    return h
DEC = dict(CALLS, cork_gc_release=after('release'), cork_gc_possible_root=after('root'))
add('cork_gc_decref', pre_dec(0), post_dec(True), calls=DEC); add('cork_gc_decref', null(0), unchanged(), 'NULL', calls=DEC)
add('cork_gc_decref_step', pre_dec(1, 0), post_dec(False), calls=DEC); add('cork_gc_decref_step', null(1, 0), unchanged(), 'NULL', calls=DEC)
# the last reference is gone
def hp(P): collector(P, P.args[0]); header(P, P.args[1])
def pre_rel(P): hp(P); P.assume(P.g['c'] == 0)
def went_on(P, fn, w):
    """the children are visited once, with fn, when the object's word is w"""
    r = P.g['rfn'] != 0; P.ensure('its children are visited once', P.loglen('recurse') == z3.If(r, 1, 0)); P.ensure('by the right step', Imp(r, P.logat('recurse', I(0), 0) == FN(P, fn)))
    if w is not None: P.ensure('after the object was marked', Imp(r, P.logat('recurse', I(0), 1) == w))
def freed(P, cond):
    P.ensure('freed exactly when nothing else refers to it', P.loglen('free') == z3.If(cond, 1, 0)); P.ensure('its cleanup runs first, once', P.loglen('freecb') == z3.If(z3.And(cond, P.g['ffn'] != 0), 1, 0)); P.ensure('the whole block', Imp(cond, z3.And(P.logat('free', I(0), 0) == P.g['h'], P.logat('free', I(0), 1) == P.g['size'])))
def post_rel(P, rv):
    b = P.g['b']; went_on(P, 'decref_step', None); freed(P, b == 0); P.ensure('kept for the collector otherwise, in black', Imp(b == 1, word(P) == W(0, 1, BLACK))); only(P, 'recurse', 'free', 'freecb'); hdr_only(P)
add('cork_gc_release', pre_rel, post_rel, calls=without('cork_gc_release'))
# possible roots
def pre_root(nul):
    def pre(P):
        hp(P); P.assume(P.g['c'] >= 1); g = P.args[0]; n, al, r = [P.o8(g + go(P, f)) for f in ('root_count', 'allocated_count', 'roots')]; P.assume(z3.And(n >= 0, n <= al, al < 1 << 40)); P.assume(Imp(P.g['k'] == PURPLE, P.g['b'] == 1))
        if nul: P.assume(z3.And(r == 0, al == 0))
        else: P.assume(al > 0); P.region('roots', r, S(8 * al), ('words', 8), heap=True)
        P.g.update(n=n, al=al, roots=r)
    return pre
def post_root(nul):
    def post(P, rv):
        g = P.args[0]; c, b = P.g['c'], P.g['b']; n, al, r = [P.r8(g + go(P, f)) for f in ('root_count', 'allocated_count', 'roots')]; n0 = P.g['n']; j = z3.Int('j!r'); P.ensure('purple and buffered', word(P) == W(c, 1, PURPLE)); P.ensure('one entry more exactly when it had none', n == z3.If(b == 1, n0, n0 + 1)); P.ensure('its own', Imp(b == 0, P.r8(S(r + 8 * n0)) == P.g['h']))
        P.ensure('the other entries are kept', Imp(z3.And(0 <= j, j < n0), P.r8(S(r + 8 * j)) == P.o8(S(P.g['roots'] + 8 * j)))); P.ensure('room for all entries', z3.And(0 <= n, n <= al))
        if P.entails(r == 0): P.ensure('no storage', al == 0)
        else: owned(P, r, S(8 * al))
        only(P); hdr_only(P, (g, P.sizeof(GC)), (P.g['roots'], 8 * P.g['al']))
    return post
ROOT = dict(without('cork_gc_possible_root')); ROOT['cork_alloc_free'] = ALLOC['cork_alloc_free']
for nul, w in ((True, 'the first one'), (False, 'others before')): add('cork_gc_possible_root', pre_root(nul), post_root(nul), w, calls=ROOT)
# looking for cycles
def post_gray(P, rv):
    c, b, k = P.g['c'], P.g['b'], P.g['k']; w = W(c, b, GRAY); r = P.g['rfn'] != 0; go_ = k != GRAY; P.ensure('marked gray', word(P) == w)
    P.ensure('its children are visited once, unless it was gray before', P.loglen('recurse') == z3.If(z3.And(go_, r), 1, 0)); P.ensure('by the gray step, after it was marked', Imp(z3.And(go_, r), z3.And(P.logat('recurse', I(0), 0) == FN(P, 'mark_gray_step'), P.logat('recurse', I(0), 1) == w))); only(P, 'recurse'); hdr_only(P)
add('cork_gc_mark_gray', hp, post_gray, calls=without('cork_gc_mark_gray'))
def post_gstep(P, rv):
    w = W(P.g['c'] - 1, P.g['b'], P.g['k']); P.ensure('one counted reference less', word(P) == w); P.ensure('then marked, once', z3.And(P.loglen('gray') == 1, P.logat('gray', I(0), 0) == w)); only(P, 'gray'); hdr_only(P)
add('cork_gc_mark_gray_step', pre_dec(1, 0), post_gstep); add('cork_gc_mark_gray_step', null(1, 0), unchanged(), 'NULL')
def post_black(P, rv): w = W(P.g['c'], P.g['b'], BLACK); P.ensure('in use again', word(P) == w); went_on(P, 'scan_black_step', w); only(P, 'recurse'); hdr_only(P)
add('cork_gc_scan_black', hp, post_black, calls=without('cork_gc_scan_black'))
def post_bstep(P, rv):
    c, b, k = P.g['c'], P.g['b'], P.g['k']; w = W(c + 1, b, k); P.ensure('the counted reference is given back', word(P) == w); P.ensure('and it is in use, once', z3.And(P.loglen('black') == z3.If(k == BLACK, 0, 1), Imp(k != BLACK, P.logat('black', I(0), 0) == w))); only(P, 'black'); hdr_only(P)
add('cork_gc_scan_black_step', obj(1, 0), post_bstep); add('cork_gc_scan_black_step', null(1, 0), unchanged(), 'NULL')
def post_scan(P, rv):
    c, b, k = P.g['c'], P.g['b'], P.g['k']; live = z3.And(k == GRAY, c > 0); dead = z3.And(k == GRAY, c == 0); r = P.g['rfn'] != 0; P.ensure('white exactly when nothing outside the candidates refers to it', word(P) == W(c, b, z3.If(dead, WHITE, k))); P.ensure('in use when something does', P.loglen('black') == z3.If(live, 1, 0))
    P.ensure('the children of a white object are scanned', P.loglen('recurse') == z3.If(z3.And(dead, r), 1, 0)); P.ensure('after it was marked', Imp(z3.And(dead, r), z3.And(P.logat('recurse', I(0), 0) == FN(P, 'scan'), P.logat('recurse', I(0), 1) == W(c, b, WHITE)))); only(P, 'black', 'recurse'); hdr_only(P)
add('cork_gc_scan', obj(1, 0), post_scan); add('cork_gc_scan', null(1, 0), unchanged(), 'NULL')
# collecting white objects: they are put on the list of garbage, and not freed before all are on it
def listed(P): g = P.g['gc']; return z3.And(P.r8(g + go(P, 'garbage')) == P.g['h'], P.r8(P.g['h'] + ho(P, 'next_garbage')) == P.o8(g + go(P, 'garbage')))
def pre_white(P): obj(1, 0)(P); P.g['during'] = lambda P: P.require('it is on the list of garbage', listed(P))
def post_white(P, rv):
    c, b, k = P.g['c'], P.g['b'], P.g['k']; y = z3.And(k == WHITE, b == 0); r = P.g['rfn'] != 0; g = P.g['gc']; P.ensure('only white objects that are no candidates themselves', word(P) == W(c, b, z3.If(y, BLACK, k))); P.ensure('put on the list of garbage', z3.If(y, listed(P), P.r8(g + go(P, 'garbage')) == P.o8(g + go(P, 'garbage'))))
    P.ensure('its children are collected too', P.loglen('recurse') == z3.If(z3.And(y, r), 1, 0)); P.ensure('after it was marked', Imp(z3.And(y, r), z3.And(P.logat('recurse', I(0), 0) == FN(P, 'collect_white'), P.logat('recurse', I(0), 1) == W(c, b, BLACK)))); only(P, 'recurse'); P.ensure('the roots are kept', z3.And([P.r8(g + go(P, f)) == P.o8(g + go(P, f)) for f in ('root_count', 'allocated_count', 'roots')])); hdr_only(P, (g, P.sizeof(GC)))
add('cork_gc_collect_white', pre_white, post_white); add('cork_gc_collect_white', null(1, 0), unchanged(), 'NULL')
# the three phases, in order
def phase(n):
    def h(P, a, ins): P.require('this collector', a[0] == P.g['gc']); P.require('in order', P.loglen('phase') == n); P.log('phase', I(n)); return None
    return h
add('cork_gc_collect_cycles', lambda P: collector(P, P.args[0]), lambda P, rv: (P.ensure('mark, scan, collect', P.loglen('phase') == 3), frame(P, nothing)), calls=dict(without('cork_gc_collect_cycles'), cork_gc_mark_roots=phase(0), cork_gc_scan_roots=phase(1), cork_gc_collect_roots=phase(2)))
# the roots are scanned in order: NN(i) of the first i entries are in use, IDX(j) is the j-th of them
NN, IDX = [z3.Function(n, z3.IntSort(), z3.IntSort()) for n in ('NN', 'IDX')]; i_ = z3.Int('i!n')
def pre_sroots(P):
    g = P.args[0]; collector(P, g); n, al, r = [P.o8(g + go(P, f)) for f in ('root_count', 'allocated_count', 'roots')]; P.g.update(n=n, roots=r); P.assume(z3.And(n >= 0, n <= al, al < 1 << 40, NN(0) == 0)); P.region('roots', r, S(8 * al), ('words', 8), heap=True)
    P.assume(FA([i_], Imp(z3.And(0 <= i_, i_ < n), z3.And(NN(i_) >= 0, NN(i_ + 1) == NN(i_) + z3.If(P.o8(r + 8 * i_) == 0, 0, 1), Imp(P.o8(r + 8 * i_) != 0, z3.And(IDX(NN(i_)) == i_, P.o8(r + 8 * i_) < 1 << 60)))), [NN(i_)]))
def h_scan(P, a, ins):
    P.require('the next root in use', z3.And(a[0] == P.g['gc'], a[1] == P.o8(P.g['roots'] + 8 * IDX(P.loglen('scan'))) + HS(P), a[2] == 0)); P.log('scan', a[1]); return None
def inv_sroots(L):
    P = L.ctx; out = [('scanned so far', lambda L: z3.And(L.ctx.loglen('scan') == NN(L.k), 0 <= L.k, L.k <= P.g['n']))]
    for v in L.ints(): out.append(('%s = k' % v, lambda L, v=v: L.val(v) == L.k))
    for p in L.ptrs(): out.append(('%s = k-th root' % p, lambda L, p=p: L.val(p) == P.g['roots'] + 8 * L.k))
    return out
add('cork_gc_scan_roots', pre_sroots, lambda P, rv: (P.ensure('every root in use is scanned once, in order', P.loglen('scan') == NN(P.g['n'])), frame(P, nothing)), inv=inv_sroots, calls=dict(CALLS, cork_gc_scan=h_scan))
# finishing
def pre_done(P): P.g['gc'] = tls(P); P.assume(P.r8(P.g['gc'] + go(P, 'roots')) == 0)
add('cork_gc_done', pre_done, lambda P, rv: P.ensure('cycles are collected', P.loglen('collect') == 1), 'nothing buffered')
def pre_done2(P):
    g = tls(P); P.g['gc'] = g; r, al = P.r8(g + go(P, 'roots')), P.r8(g + go(P, 'allocated_count')); P.assume(z3.And(r > 0, al > 0, al < 1 << 40)); P.region('roots', r, S(8 * al), ('words', 8), heap=True)
add('cork_gc_done', pre_done2, lambda P, rv: (P.ensure('cycles are collected', P.loglen('collect') == 1), P.ensure('the list of roots is released', z3.And(z3.BoolVal('roots' not in P.st.regions), P.r8(P.g['gc'] + go(P, 'roots')) == 0, P.r8(P.g['gc'] + go(P, 'allocated_count')) == 0))), 'a list of roots', calls=dict(CALLS, cork_alloc_free=ALLOC['cork_alloc_free']))
LEVEL = 'other'; LEAKS = False
BOUNDED = ['cork_gc_mark_roots and cork_gc_collect_roots (the loops over the list of roots that drop and free objects)', 'the global statement over all object graphs: that the steps under contract free exactly the unreachable objects']
TRUSTED = ['the allocation layer (C22)', 'recursion functions visit exactly the references an object holds; cleanup functions do not call the collector']
ASSUME = ['fewer than 2^27 references to one object', 'a visited child\'s step does not change the word of an object whose count is zero']
EXPLANATION = 'Every step of the collector is proved against its contract for every header word; the composition of the steps over object graphs is checked on bounded random graphs, cyclic, shared and with more candidates than the list of roots first holds, against reachability.'
