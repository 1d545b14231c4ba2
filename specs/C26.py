"""C26: paths.  A path holds a string (n bytes, none of them NUL, then a NUL).  LAST is the position of its last slash or -1.
The buffer operations are executed, not assumed; a search list is a sequence of owned paths and the text that names it."""
from lvc.spec import *
from lvc import libc
from .common import *
S = z3.simplify; PATH, LIST = 'cork_path', 'cork_path_list'; BIG = 1 << 60; x = z3.Int('a!x')
def G(P, p, f, old=False): return (P.o8 if old else P.r8)(p + P.off(PATH, 'given') + P.off('cork_buffer', f))
def string(P, p, n):
    """n bytes at p, none NUL, then a NUL"""
    P.assume(z3.And(P.o1(S(p + n)) == 0, FA([x], Imp(z3.And(p <= x, x < p + n), P.o1(x) != 0), [P.o1(x)]))); P.st.zstr = P.st.zstr + [(p, n)]
def path(P, p, tag='path', writable=True):
    P.rec(tag, p, PATH, heap=True, writable=writable); b, n, al = [G(P, p, f, True) for f in ('buf', 'size', 'allocated_size')]
    P.assume(z3.And(n >= 0, n < al, al < BIG)); P.region(tag + '.buf', b, al, ('bytes',), heap=True, writable=writable); string(P, b, n); P.g[tag] = (b, n); P.g['own_' + tag] = (p, b, al)
def text(P, p, tag='text'):
    """a constant string that is not part of a path that changes"""
    n = z3.Int('len_' + tag); P.assume(z3.And(0 <= n, n < BIG)); P.region(tag, p, S(n + 1), ('bytes',), False); string(P, p, n); P.g[tag] = (p, n)
def last_slash(P, tag='path'):
    b, n = P.g[tag]; d = z3.Int('last_slash'); P.assume(z3.And(-1 <= d, d < n, Imp(d >= 0, P.o1(S(b + d)) == 47), FA([x], Imp(z3.And(b + d < x, x < b + n), P.o1(x) != 47), [P.o1(x)]))); P.g['last'] = d
def h_strrchr(P, a, ins):
    b, n = P.g['path']; d = P.g['last']; P.require('looks for a slash', a[1] == 47); H, H0 = P.H(1), P.H0(1); q = P.fresh('str', 62); P.assume(q == a[0])
    for t, r in P.st.regions.items():
        if not r.family and P.entails(r.lo == a[0]): P.require('in the whole path', FA([x], Imp(z3.And(q <= x, x <= q + n), Sel(H, x) == Sel(H0, x - q + b)), [Sel(H, x)])); return S(z3.If(d < 0, 0, a[0] + d))
    raise ToolLimit('strrchr')
def h_strlen(P, a, ins):
    """of a string we know, or of a buffer whose text is a copy of one we know"""
    for q, n in P.st.zstr:
        if q.eq(a[0]) or P.entails(q == a[0]): return libc._strlen(P.ex, P.st, a, ins) if hasattr(libc, '_strlen') else n
    H, H0 = P.H(1), P.H0(1)
    for q, n in P.st.zstr:
        f = FA([x], Imp(z3.And(a[0] <= x, x <= a[0] + n), Sel(H, x) == Sel(H0, x - a[0] + q)), [Sel(H, x)])
        if P.entails(f): return n
    raise ToolLimit('strlen of an unknown string')
CALLS = dict(ALLOC, strrchr=h_strrchr, strlen=h_strlen)
SPECS = []
def add(fn, pre, post, label=None, **kw): SPECS.append(Spec(fn, pre, post, label=(fn + ' (%s)' % label) if label else fn, calls=kw.pop('calls', CALLS), **kw))
def holds(P, p, parts):
    """the path at p is live, well-formed and holds the concatenation of parts [(address in the entry heap, length) or a character]"""
    b, n, al = [G(P, p, f) for f in ('buf', 'size', 'allocated_size')]; pos = I(0); H, H0 = P.H(1), P.H0(1)
    P.ensure('a live path', z3.Or([z3.And(r.lo == p, r.size == P.sizeof(PATH)) for r in P.st.regions.values() if r.heap and not r.family])); owned(P, b, al)
    for k, q in enumerate(parts):
        if isinstance(q, int): P.ensure('part %d: %r' % (k + 1, chr(q)), P.r1(S(b + pos)) == q); pos = S(pos + 1); continue
        a0, l = q
        if cval(l) == 0: continue
        y = z3.Int('a!h%d' % k); P.ensure('part %d of the text' % (k + 1), FA([y], Imp(z3.And(b + pos <= y, y < b + pos + l), Sel(H, y) == Sel(H0, S(y - b - pos + a0))), [Sel(H, y)])); pos = S(pos + l)
    P.ensure('the length', n == pos); P.ensure('a NUL ends it', P.r1(S(b + n)) == 0); P.ensure('room for the text and its NUL', z3.And(n >= 0, n < al))
def own(P, tag='path'):
    p, b, al = P.g['own_' + tag]; return lambda q: z3.Or(z3.And(p <= q, q < p + P.sizeof(PATH)), z3.And(b <= q, q < b + al))
nothing = lambda q: z3.BoolVal(False)
# creating
add('cork_path_new', lambda P: text(P, P.args[0]), lambda P, rv: (holds(P, rv, [P.g['text']]), frame(P, nothing)), 'a string')
add('cork_path_new', lambda P: P.assume(P.args[0] == 0), lambda P, rv: (holds(P, rv, []), frame(P, nothing)), 'NULL')
add('cork_path_clone', lambda P: path(P, P.args[0], writable=False), lambda P, rv: (holds(P, rv, [P.g['path']]), frame(P, nothing)))
def pre_part(P):
    n = P.args[1]; P.assume(n < BIG); P.region('text', P.args[0], n, ('bytes',), False)
add('cork_path_new_internal', pre_part, lambda P, rv: (holds(P, rv, [(P.args[0], P.args[1])]), frame(P, nothing)))
add('cork_path_free', lambda P: path(P, P.args[0]), lambda P, rv: (P.ensure('the path and its text are released', z3.BoolVal(not any(t in P.st.regions for t in ('path', 'path.buf')))), frame(P, own(P))))
add('cork_path_get', lambda P: path(P, P.args[0], writable=False), lambda P, rv: (P.ensure('its text', rv == P.g['path'][0]), frame(P, nothing)))
def pre_set(P): path(P, P.args[0]); text(P, P.args[1])
add('cork_path_set', pre_set, lambda P, rv: (holds(P, P.args[0], [P.g['text']]), frame(P, own(P))), 'a string')
def pre_setn(P): path(P, P.args[0]); P.assume(P.args[1] == 0)
add('cork_path_set', pre_setn, lambda P, rv: (holds(P, P.args[0], []), frame(P, own(P))), 'NULL')
# joining: cases over what is joined
CASES = (('nothing', 'NULL'), ('empty', 'an empty string'), ('abs', 'an absolute path'), ('first', 'a relative path to an empty one'), ('slash', 'a relative path to one that ends in a slash'), ('plain', 'a relative path'))
def more(P, kind, m, p):
    """the case, over what is appended (m) and the path it is appended to (p)"""
    b, n = p
    if kind != 'nothing':
        a0, l = m; c = P.o1(a0)
        if kind == 'empty': P.assume(l == 0)
        else: P.assume(l > 0); P.assume(c == 47 if kind == 'abs' else c != 47); P.assume(c != 0)
    if kind in ('first',): P.assume(n == 0)
    if kind in ('slash', 'plain'): P.assume(n > 0); e = P.o1(S(b + n - 1)); P.assume(e == 47 if kind == 'slash' else e != 47)
def parts(kind, m, p): return {'nothing': [p], 'empty': [p], 'abs': [m], 'first': [m], 'slash': [p, m], 'plain': [p, 47, m]}[kind]
def pre_app(kind, other, second):
    def pre(P):
        path(P, P.args[0], writable=not other)
        if second: path(P, P.args[1], 'more', writable=False); P.g['m'] = P.g['more']
        elif kind == 'nothing': P.assume(P.args[1] == 0); P.g['m'] = None
        else: text(P, P.args[1]); P.g['m'] = P.g['text']
        more(P, kind, P.g['m'], P.g['path'])
    return pre
def post_app(kind, other):
    def post(P, rv): holds(P, rv if other else P.args[0], parts(kind, P.g['m'], P.g['path'])); frame(P, nothing if other else own(P))
    return post
for fn, other, second in (('cork_path_append', False, False), ('cork_path_join', True, False), ('cork_path_append_path', False, True), ('cork_path_join_path', True, True)):
    for k, w in CASES:
        if not (second and k == 'nothing'): add(fn, pre_app(k, other, second), post_app(k, other), w)
# taking apart
def pre_cut(kind, other):
    def pre(P): path(P, P.args[0], writable=not other); last_slash(P); d = P.g['last']; P.assume({'none': d == -1, 'root': d == 0, 'some': d > 0, 'any': d >= 0}[kind])
    return pre
def post_base(kind, other):
    def post(P, rv):
        b, n = P.g['path']; d = P.g['last']; holds(P, rv if other else P.args[0], [(b, n)] if kind == 'none' else [(S(b + d + 1), S(n - d - 1))]); frame(P, nothing if other else own(P))
    return post
def post_dir(kind, other):
    def post(P, rv):
        b, n = P.g['path']; d = P.g['last']; holds(P, rv if other else P.args[0], {'none': [], 'root': [47], 'some': [(b, d)]}[kind]); frame(P, nothing if other else own(P))
    return post
W = dict(none='no slash', root='the only slash comes first', some='the last slash comes later', any='with a slash')
for other, b, d in ((False, 'cork_path_set_basename', 'cork_path_set_dirname'), (True, 'cork_path_basename', 'cork_path_dirname')):
    for k in ('none', 'any'): add(b, pre_cut(k, other), post_base(k, other), W[k])
    for k in ('none', 'root', 'some'): add(d, pre_cut(k, other), post_dir(k, other), W[k])
# the pieces put back together: dirname and basename joined give the original text, up to the last slashes
def lemma():
    """over the cases of the contracts above: D, B the pieces; joining D and B"""
    n, d = z3.Ints('n d'); TXT = z3.Function('T', z3.IntSort(), z3.IntSort()); i = z3.Int('i'); res = z3.Function('R', z3.IntSort(), z3.IntSort()); rn = z3.Int('rn'); goals = []
    text_ok = z3.And(n >= 1, -1 <= d, d < n - 1, z3.ForAll([i], z3.Implies(z3.And(d < i, i < n), TXT(i) != 47)))
    # none: D empty, B = text: joining to an empty path gives B
    goals.append(('no slash: the base name alone is the original', [], z3.Implies(z3.And(text_ok, d == -1, rn == n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < rn), res(i) == TXT(i)))), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), res(i) == TXT(i))))))
    # root: D = "/", B = rest: D ends in a slash, so nothing is added
    goals.append(('a path in the root directory', [], z3.Implies(z3.And(text_ok, d == 0, TXT(0) == 47, rn == 1 + (n - 1), res(0) == 47, z3.ForAll([i], z3.Implies(z3.And(1 <= i, i < rn), res(i) == TXT(i - 1 + d + 1)))), z3.And(rn == n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), res(i) == TXT(i)))))))
    # plain: D = prefix that does not end in a slash
    goals.append(('a path in a directory', [], z3.Implies(z3.And(text_ok, d > 0, TXT(d) == 47, TXT(d - 1) != 47, rn == d + 1 + (n - d - 1), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < d), res(i) == TXT(i))), res(d) == 47, z3.ForAll([i], z3.Implies(z3.And(d < i, i < rn), res(i) == TXT(i - (d + 1) + d + 1)))), z3.And(rn == n, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), res(i) == TXT(i)))))))
    # several slashes in a row: D ends in a slash, nothing is added: one of them is dropped
    goals.append(('a path after several slashes loses only the last of them', [], z3.Implies(z3.And(text_ok, d > 0, TXT(d) == 47, TXT(d - 1) == 47, rn == d + (n - d - 1), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < d), res(i) == TXT(i))), z3.ForAll([i], z3.Implies(z3.And(d <= i, i < rn), res(i) == TXT(i - d + d + 1)))), z3.And(rn == n - 1, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < rn), res(i) == TXT(z3.If(i < d, i, i + 1))))))))
    return goals
SPECS.append(Lemma('the pieces put back together', lemma))
# lists
def lo(P, f, sub=None): return P.off(LIST, f) + (P.off('cork_raw_array' if f == 'array' else 'cork_buffer', sub) if sub else 0)
def plist(P, l, empty, writable=True):
    P.rec('list', l, LIST, heap=True, writable=writable); it, n = P.o8(l + lo(P, 'array', 'items')), P.o8(l + lo(P, 'array', 'size')); P.assume(z3.And(n >= 0, n < BIG)); P.g.update(items=it, n=n)
    b, z, al = [P.o8(l + lo(P, 'string', f)) for f in ('buf', 'size', 'allocated_size')]
    if empty: P.assume(z3.And(n == 0, b == 0, z == 0, al == 0))
    else:
        P.assume(n > 0); P.assume(z3.And(z >= 0, z < al, al < BIG)); P.region('string', b, al, ('bytes',), heap=True, writable=writable); string(P, b, z)
        P.region('items', it, 8 * n, ('words', 8), writable=writable)
    P.g['string'] = (b, z, al)
def h_append(P, a, ins):
    """contract of cork_raw_array_append (C03): one slot more, the old elements kept"""
    l = P.args[0]; P.require('the array of the list', a[0] == l + lo(P, 'array')); P.require('one path is added', P.loglen('slot') == 0); n = P.r8(a[0] + P.off('cork_raw_array', 'size')); old = P.r8(a[0] + P.off('cork_raw_array', 'items')); H = P.H(8)
    P.log('slot', n); r = P.ex.new_region(P.st, 'items', S(8 * (n + 1)), ('words', 8)); P.assume(r.size < BIG)
    P.ex.range_update(P.st, r.lo, S(8 * n), lambda w, q: Sel(H, S(q - r.lo + old)), {8}); P.st.regions.pop('items', None); P.ex.hwrite(P.st, 8, S(a[0] + P.off('cork_raw_array', 'items')), r.lo); P.ex.hwrite(P.st, 8, S(a[0] + P.off('cork_raw_array', 'size')), S(n + 1)); return S(r.lo + 8 * n)
def pre_ladd(empty):
    def pre(P): plist(P, P.args[0], empty); path(P, P.args[1], writable=False); P.init_log('slot', 1)
    return pre
def post_ladd(empty):
    def post(P, rv):
        l = P.args[0]; it, n = P.r8(l + lo(P, 'array', 'items')), P.r8(l + lo(P, 'array', 'size')); P.ensure('one path more', n == P.g['n'] + 1); P.ensure('the path is last', P.r8(S(it + 8 * P.g['n'])) == P.args[1])
        if not empty: j = z3.Int('j!l'); P.ensure('the other paths are kept, in order', Imp(z3.And(0 <= j, j < P.g['n']), P.r8(S(it + 8 * j)) == P.o8(S(P.g['items'] + 8 * j))))
        b, z, al = [P.r8(l + lo(P, 'string', f)) for f in ('buf', 'size', 'allocated_size')]; b0, z0, al0 = P.g['string']; pb, pn = P.g['path']; H, H0 = P.H(1), P.H0(1); pos = I(0)
        if not empty:
            P.ensure('the text so far is kept', FA([x], Imp(z3.And(b <= x, x < b + z0), Sel(H, x) == Sel(H0, x - b + b0)), [Sel(H, x)])); P.ensure('then a colon', P.r1(S(b + z0)) == 58); pos = S(z0 + 1)
        P.ensure('then the path', FA([x], Imp(z3.And(b + pos <= x, x < b + pos + pn), Sel(H, x) == Sel(H0, S(x - b - pos + pb))), [Sel(H, x)])); P.ensure('and nothing else', z3.And(z == pos + pn, P.r1(S(b + z)) == 0, z < al)); owned(P, b, al)
        frame(P, lambda q: z3.Or(z3.And(l <= q, q < l + P.sizeof(LIST)), z3.And(b0 <= q, q < b0 + al0), z3.And(not empty, P.g['items'] <= q, q < P.g['items'] + 8 * P.g['n'])))
    return post
for e, w in ((True, 'to an empty list'), (False, 'to a list')): add('cork_path_list_add', pre_ladd(e), post_ladd(e), w, calls=dict(CALLS, cork_raw_array_append=h_append))
def look(val, pre=None): return lambda P, rv: (P.ensure('the value asked for', rv == val(P)), frame(P, nothing))
add('cork_path_list_size', lambda P: plist(P, P.args[0], False, False), look(lambda P: P.g['n']))
add('cork_path_list_to_string', lambda P: plist(P, P.args[0], False, False), look(lambda P: P.g['string'][0]))
def pre_get(P): plist(P, P.args[0], False, False); P.assume(P.args[1] < P.g['n'])
add('cork_path_list_get', pre_get, look(lambda P: P.o8(S(P.g['items'] + 8 * P.args[1]))))
def h_ainit(P, a, ins):
    P.ex.check_range(P.st, a[0], I(P.sizeof('cork_raw_array')), True, 'array'); P.require('an array of pointers', a[1] == 8); P.log('ainit', a[0]); P.ex.hwrite(P.st, 8, S(a[0] + P.off('cork_raw_array', 'size')), I(0)); return None
def post_lnew(P, rv):
    P.ensure('a live list', z3.Or([z3.And(r.lo == rv, r.size == P.sizeof(LIST)) for r in P.st.regions.values() if r.heap and not r.family])); P.ensure('its array is initialized once', z3.And(P.loglen('ainit') == 1, P.logat('ainit', I(0), 0) == rv + lo(P, 'array')))
    P.ensure('no text', z3.And([P.r8(S(rv + lo(P, 'string', f))) == 0 for f in ('buf', 'size', 'allocated_size')])); frame(P, nothing)
add('cork_path_list_new_empty', lambda P: P.init_log('ainit', 1), post_lnew, calls=dict(CALLS, cork_raw_array_init=h_ainit))
# splitting: COLON(k) is the position of the k-th of the cm colons
COLON = z3.Function('COLON', z3.IntSort(), z3.IntSort()); cm = z3.Int('colons')
def begin(k): return z3.If(k <= 0, I(0), COLON(k - 1) + 1)
def pre_split(P):
    for lg, n in (('new', 2), ('add', 1)): P.init_log(lg, n)
    P.st.ghost.update(seen=I(0), pending=I(0)); text(P, P.args[1]); p, n = P.g['text']; k = z3.Int('k!c'); P.assume(z3.And(0 <= cm, cm <= n))
    P.assume(FA([k], Imp(z3.And(0 <= k, k < cm), z3.And(COLON(k) >= begin(k), COLON(k) < n, P.o1(p + COLON(k)) == 58)), [COLON(k)]))
def h_strchr(P, a, ins):
    p, n = P.g['text']; k = P.gget('seen'); P.require('the rest of the string, after the previous component', a[0] == S(p + begin(k))); P.require('a colon', a[1] == 58); P.require('the previous component was added', z3.And(P.loglen('add') == k, P.gget('pending') == 0))
    P.gset('seen', S(k + 1)); P.assume(z3.And(COLON(k) >= begin(k), Imp(k < cm, COLON(k) < n), Imp(k >= 1, z3.And(COLON(k - 1) >= 0, Imp(k <= cm, COLON(k - 1) < n))))); return S(z3.If(k < cm, p + COLON(k), 0))
def component(P, s, l):
    p, n = P.g['text']; k = P.loglen('add'); P.require('no other component is waiting', P.gget('pending') == 0); P.require('starts after the previous colon', s == p + begin(k)); P.require('ends before the next colon, or with the string', l == z3.If(k < cm, COLON(k), n) - begin(k)); P.require('the components were counted', k <= cm)
    v = P.fresh('path', 47); P.assume(v > 0); P.gset('pending', v); return v
def h_newi(P, a, ins): return component(P, a[0], a[1])
def h_new(P, a, ins): p, n = P.g['text']; return component(P, a[0], S(n - (a[0] - p)))
def h_ladd(P, a, ins): P.require('to the list', a[0] == P.args[0]); P.require('the component just made', z3.And(a[1] == P.gget('pending'), a[1] != 0)); P.log('add', a[1]); P.gset('pending', I(0)); return None
def inv_split(L):
    P = L.ctx; out = [('added', lambda L: z3.And(L.ctx.loglen('add') == L.k, L.ctx.gget('seen') == L.k, L.ctx.gget('pending') == 0, L.k >= 0))]
    out.append(('not past the end', lambda L: z3.And(L.k <= cm, Imp(L.k > 0, z3.And(COLON(L.k - 1) >= 0, COLON(L.k - 1) < P.g['text'][1])))))
    for p in L.ptrs(): out.append(('%s = k-th component' % p, lambda L, p=p: L.val(p) == P.g['text'][0] + begin(L.k)))
    return out + [('added, the next one found', lambda L: z3.And(L.ctx.loglen('add') == L.k, L.ctx.gget('seen') == L.k + 1, L.ctx.gget('pending') == 0, L.k >= 0, L.k <= cm))] + [('%s = next colon' % p, lambda L, p=p: L.val(p) == z3.If(L.k < cm, P.g['text'][0] + COLON(L.k), 0)) for p in L.ptrs()]
def post_split(P, rv):
    P.ensure('every component is added, once each and in order', z3.And(P.loglen('add') == cm + 1, P.gget('pending') == 0)); frame(P, nothing)
add('cork_path_list_append_string', pre_split, post_split, inv=inv_split, calls=dict(CALLS, strchr=h_strchr, cork_path_new_internal=h_newi, cork_path_new=h_new, cork_path_list_add=h_ladd))
# a new list: empty, then the components
def h_lempty(P, a, ins): v = P.fresh('list', 47); P.assume(v > 0); P.log('lnew', v); return v
def h_lsplit(P, a, ins): P.require('the new list', z3.And(P.loglen('lnew') == 1, a[0] == P.logat('lnew', I(0), 0))); P.log('split', a[0], a[1]); return None
def pre_lnew(P): P.init_log('lnew', 1); P.init_log('split', 2)
add('cork_path_list_new', pre_lnew, lambda P, rv: (P.ensure('a new list', z3.And(P.loglen('lnew') == 1, rv == P.logat('lnew', I(0), 0))), P.ensure('with the components of the string, once', z3.And(P.loglen('split') == 1, P.logat('split', I(0), 1) == P.args[0])), frame(P, nothing)), calls=dict(CALLS, cork_path_list_new_empty=h_lempty, cork_path_list_append_string=h_lsplit))
# releasing a list
def h_pfree(P, a, ins):
    k = P.loglen('pfree'); P.require('the next path of the list', z3.And(k < P.g['n'], a[0] == P.o8(S(P.g['items'] + 8 * k)))); P.require('while the array lives', P.loglen('adone') == 0); P.log('pfree', a[0]); return None
def h_adone(P, a, ins): P.require('the array of the list', a[0] == P.args[0] + lo(P, 'array')); P.log('adone', a[0]); P.ex.havoc_ranges(P.st, [(a[0], I(P.sizeof('cork_raw_array')))], [8]); return None
def pre_lfree(empty):
    def pre(P):
        plist(P, P.args[0], empty)
        for lg in ('pfree', 'adone'): P.init_log(lg, 1)
    return pre
def inv_lfree(L):
    P = L.ctx; out = [('released', lambda L: z3.And(L.ctx.loglen('pfree') == L.k, L.k >= 0, L.k <= P.g['n'], L.ctx.loglen('adone') == 0))]
    for i in L.ints(): out.append(('%s = k' % i, lambda L, i=i: L.val(i) == L.k))
    for p in L.ptrs(): out.append(('%s = k-th slot' % p, lambda L, p=p: L.val(p) == P.g['items'] + 8 * L.k))
    return out
def post_lfree(P, rv):
    P.ensure('every path is released once', P.loglen('pfree') == P.g['n']); P.ensure('so is the array', P.loglen('adone') == 1); P.ensure('and the list with its text', z3.BoolVal(not any(t in P.st.regions for t in ('list', 'string'))))
for e, w in ((True, 'empty'), (False, 'with paths')): add('cork_path_list_free', pre_lfree(e), post_lfree, w, inv=inv_lfree, bounds=lambda L: [L.ctx.g['n'] + 1], calls=dict(CALLS, cork_path_free=h_pfree, cork_raw_array_done=h_adone))
TRUSTED = ['strrchr and strchr of the C library', 'the allocation layer (C22) and the array of a search list (C03, C04) at the level of their contracts; buffer operations are executed']
ASSUME = ['strings given to a path operation are not the text of the very path it changes', 'texts are shorter than 2^60 bytes']
EXPLANATION = 'Each contract gives the exact bytes of the resulting path in terms of the bytes given, in every case of the definition; a lemma over these contracts shows that directory name and base name joined denote the original.'
