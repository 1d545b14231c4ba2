"""C28: environment overlays.  The variables of an environment are a hash table (its operations at the level of their
contracts, C11 and C12) whose values own a name and a value string; without an environment the process's own is used."""
from lvc.spec import *
from lvc import libc
from .common import *
S = z3.simplify
ENV, VAR = 'cork_env', 'cork_env_var'
def eo(P, f): return P.off(ENV, f)
def vo(P, f): return P.off(VAR, f)
def BUF(P): return P.args[0] + eo(P, 'buffer')
def text(P, tag, p):
    """a constant string of unknown length"""
    l = z3.Int('len_' + tag); P.assume(z3.And(0 <= l, l < 1 << 31)); P.region(tag, p, l + 1, ('bytes',), False)
    P.st.zstr = P.st.zstr + [(p, l)]; P.assume(P.r1(p + l) == 0); a = z3.Int('a!z')
    P.assume(FA([a], Imp(z3.And(p <= a, a < p + l), Sel(P.H(1), a) != 0), [Sel(P.H(1), a)])); P.g['len_' + tag] = l
def env(P, p):
    P.rec('env', p, ENV, heap=True); P.g['tbl'] = P.o8(p + eo(P, 'variables')); P.assume(P.g['tbl'] > 0)
    for lg, n in (('put', 1), ('setenv', 3), ('unsetenv', 1), ('delete', 1), ('tfree', 1), ('done', 1), ('clear', 0), ('map', 1), ('setfv', 2), ('vprintf', 3)): P.init_log(lg, max(n, 1))
def process(P):
    P.assume(P.args[0] == 0)
    for lg, n in (('put', 1), ('setenv', 3), ('unsetenv', 1), ('delete', 1), ('done', 1), ('vprintf', 3)): P.init_log(lg, n)
def variable(P, tag):
    """a live variable with its two strings"""
    v = z3.Int(tag); P.assume(v > 0); P.rec(tag, v, VAR, heap=True)
    ps = []
    for f in ('name', 'value'):
        r = P.ex.new_region(P.st, 'str', P.fresh('size', 40), ('bytes',), heap=True); P.assume(r.size >= 9); p = S(r.lo + 8)
        if tag == 'oldvar': P.ex.hwrite(P.st, 8, v + vo(P, f), p)
        else: P.assume(P.r8(v + vo(P, f)) == p)
        ps.append((r.tag, p))
    P.g.setdefault('old', {})[tag] = [t for t, _ in ps] + [tag]
    return v, ps
def same(P, what, c, s, l):
    j = z3.Int('j!' + what); P.require('the %s is a copy' % what, Imp(z3.And(0 <= j, j <= l), P.r1(c + j) == (P.r1 if 'value' in P.g and s is P.g['value'] else P.o1)(s + j)))
def is_new(P, v, nm, l1, val, l2):
    P.require('the variable is a live block', P.ex.in_some(P.st, v) if hasattr(P.ex, 'in_some') else z3.Or([r.lo == v for r in P.st.regions.values() if r.heap and not r.family]))
    n, x = P.r8(v + vo(P, 'name')), P.r8(v + vo(P, 'value'))
    for w, p, s, l in (('name', n, nm, l1), ('value', x, val, l2)):
        P.require('the %s is a live copied string' % w, z3.Or([r.lo + 8 == p for t, r in P.st.regions.items() if t.startswith('str') and t not in P.g.get('known', ())] or [z3.BoolVal(False)])); same(P, w, p, s, l)
    P.require('name and value are two strings', n != x)
def h_put(P, a, ins):
    P.require('in the table of the environment', a[0] == P.g['tbl']); v = a[2]
    is_new(P, v, P.args[1], P.g['len_name'], P.g.get('value', P.args[2]), P.g['len_value']); P.require('under its own name', a[1] == P.r8(v + vo(P, 'name')))
    P.log('put', v); s2 = P.st.clone(); P2 = P.at(s2)
    def out(Q, q, val):
        if Q.entails(q == 0): return
        Q.ex.check_range(Q.st, q, I(8), True, 'out parameter'); Q.ex.hwrite(Q.st, 8, q, val)
    out(P, a[4], I(0)); out(P, a[5], I(0)); P.st.ghost['had'] = I(0)
    ov, ps = variable(P2, 'oldvar'); out(P2, a[4], ps[0][1]); out(P2, a[5], ov); P2.st.ghost['had'] = I(1)
    for Q, b in ((P, 1), (P2, 0)):
        if not Q.entails(a[3] == 0): Q.ex.check_range(Q.st, a[3], I(1), True, 'out parameter'); Q.ex.hwrite(Q.st, 1, a[3], I(b))
    return Fork([(P.st, None), (s2, None)])
def h_get(P, a, ins):
    P.require('in the table of the environment', a[0] == P.g['tbl']); P.require('the name', a[1] == P.args[1])
    s2 = P.st.clone(); v, ps = variable(P, 'var'); P.st.ghost['found'] = ps[1][1]; s2.ghost['found'] = I(0)
    return Fork([(P.st, v), (s2, I(0))])
def h_delete(P, a, ins):
    """the table frees the variable itself (free_value), and may report what it was: pointers to released memory"""
    P.require('from the table of the environment', a[0] == P.g['tbl']); P.require('the name', a[1] == P.args[1]); P.log('delete', a[1])
    s2 = P.st.clone(); P2 = P.at(s2)
    for q in (a[2], a[3]):
        if P.entails(q == 0): continue
        P.ex.check_range(P.st, q, I(8), True, 'out parameter'); P.ex.hwrite(P.st, 8, q, P.fresh('released', 47))
    return Fork([(P.st, I(1)), (s2, I(0))])
def pick(*n): return lambda P, a, ins: None
def h_setenv(P, a, ins): P.log('setenv', a[0], a[1], a[2]); return P.fresh('r', 1)
def h_unsetenv(P, a, ins): P.log('unsetenv', a[0]); return I(0)
def h_getenv(P, a, ins): P.require('the name', a[0] == P.args[1]); P.st.ghost['found'] = v = P.fresh('env', 47); return v
def h_vprintf(P, a, ins):
    b = a[0]; n = P.sizeof('cork_buffer'); P.ex.check_range(P.st, b, I(n), True, 'buffer'); P.log('vprintf', b, a[1], a[2])
    P.ex.havoc_ranges(P.st, [(b, I(n))], [8]); p = z3.Int('formatted'); l = z3.Int('len_value')
    P.assume(z3.And(0 <= l, l < 1 << 31)); r = P.ex.new_region(P.st, 'text', l + 1, ('bytes',), heap=False); P.assume(p == r.lo); P.st.zstr = P.st.zstr + [(p, l)]
    P.assume(P.r1(p + l) == 0); q = z3.Int('a!z'); P.assume(FA([q], Imp(z3.And(p <= q, q < p + l), Sel(P.H(1), q) != 0), [Sel(P.H(1), q)]))
    P.ex.hwrite(P.st, 8, b + P.off('cork_buffer', 'buf'), p); P.st.ghost['text'] = p; return None
def h_done(P, a, ins): P.log('done', a[0]); P.ex.check_range(P.st, a[0], I(P.sizeof('cork_buffer')), True, 'buffer'); return None
def h_init(P, a, ins):
    n = P.sizeof('cork_buffer'); P.ex.check_range(P.st, a[0], I(n), True, 'buffer'); P.ex.havoc_ranges(P.st, [(a[0], I(n))], [8]); P.st.ghost['init'] = a[0]; return None
CALLS = dict(ALLOC, cork_hash_table_put=h_put, cork_hash_table_get=h_get, cork_hash_table_delete=h_delete, setenv=h_setenv, unsetenv=h_unsetenv, getenv=h_getenv,
             cork_buffer_vprintf=h_vprintf, cork_buffer_done=h_done, cork_buffer_init=h_init)
SPECS = []
def add(fn, pre, post, label=None, **kw): SPECS.append(Spec(fn, pre, post, label=(fn + ' (%s)' % label) if label else fn, calls=kw.pop('calls', CALLS), **kw))
nothing = lambda a: z3.BoolVal(False)
def heap_is(P, *tags):
    """the heap blocks that exist now, besides those of the client"""
    l = [t for t, r in P.st.regions.items() if r.heap and not r.family and t not in P.ex.st_entry.regions]
    return l
# add
def pre_add(kind):
    def pre(P):
        (env if kind == 'env' else process)(P, *([P.args[0]] if kind == 'env' else [])); text(P, 'name', P.args[1]); text(P, 'value', P.args[2]); P.g['known'] = set(P.st.regions)
    return pre
def stored(P):
    P.ensure('stored once', P.loglen('put') == 1); v = P.logat('put', I(0), 0); new = heap_is(P)
    had = P.entails(P.gget('had') == 1)
    P.ensure('the variable it replaces is released with both of its strings', z3.BoolVal(not any(t in P.st.regions for t in P.g.get('old', {}).get('oldvar', ())) if had else True))
    P.ensure('the new variable is kept, and nothing else', z3.And(z3.BoolVal(len(new) == 3), z3.Or([P.st.regions[t].lo == v for t in new if not t.startswith('str')] or [z3.BoolVal(False)])))
    P.ensure('the process environment is left alone', P.loglen('setenv') == 0)
def post_add(kind):
    def post(P, rv):
        if kind == 'env': stored(P)
        else: P.ensure('setenv, overwriting', z3.And(P.loglen('setenv') == 1, P.logat('setenv', I(0), 0) == P.args[1], P.logat('setenv', I(0), 1) == P.args[2], P.logat('setenv', I(0), 2) != 0)); P.ensure('nothing is left allocated', z3.BoolVal(not heap_is(P)))
        frame(P, nothing)
    return post
for k, w in (('env', 'an overlay'), ('none', 'the process')): add('cork_env_add', pre_add(k), post_add(k), w)
# formatted
def pre_vp(kind):
    def pre(P):
        (env if kind == 'env' else process)(P, *([P.args[0]] if kind == 'env' else [])); text(P, 'name', P.args[1]); P.g['known'] = set(P.st.regions)
        P.g['len_value'] = z3.Int('len_value'); P.g['value'] = z3.Int('formatted')
    return pre
def post_vp(kind):
    def post(P, rv):
        P.ensure('formatted once', z3.And(P.loglen('vprintf') == 1, P.logat('vprintf', I(0), 1) == P.args[2], P.logat('vprintf', I(0), 2) == P.args[3]))
        if kind == 'env':
            stored(P); P.ensure('in the buffer of the environment', P.logat('vprintf', I(0), 0) == BUF(P)); frame(P, lambda a: z3.And(BUF(P) <= a, a < BUF(P) + P.sizeof('cork_buffer')))
        else:
            P.ensure('setenv, overwriting', z3.And(P.loglen('setenv') == 1, P.logat('setenv', I(0), 0) == P.args[1], P.logat('setenv', I(0), 1) == P.gget('text'), P.logat('setenv', I(0), 2) != 0))
            P.ensure('the text is released', z3.And(P.loglen('done') == 1, P.logat('done', I(0), 0) == P.logat('vprintf', I(0), 0))); frame(P, nothing)
    return post
for k, w in (('env', 'an overlay'), ('none', 'the process')): add('cork_env_add_vprintf', pre_vp(k), post_vp(k), w)
# get
def pre_get(kind):
    def pre(P): (env if kind == 'env' else process)(P, *([P.args[0]] if kind == 'env' else []))
    return pre
for k, w in (('env', 'an overlay'), ('none', 'the process')):
    add('cork_env_get', pre_get(k), lambda P, rv: (P.ensure('the value of the variable, or NULL', rv == P.gget('found')), frame(P, nothing)), w)
# remove
def post_rm(kind):
    def post(P, rv):
        l = ('delete' if kind == 'env' else 'unsetenv'); P.ensure('removed once', z3.And(P.loglen(l) == 1, P.logat(l, I(0), 0) == P.args[1])); frame(P, nothing)
    return post
for k, w in (('env', 'an overlay'), ('none', 'the process')): add('cork_env_remove', pre_get(k), post_rm(k), w)
# releasing
def pre_vf(P): v, ps = variable(P, 'var'); P.assume(v == P.args[0])
add('cork_env_var_free', pre_vf, lambda P, rv: P.ensure('the variable and both strings are released', z3.BoolVal(not [t for t, r in P.st.regions.items() if r.heap])))
def h_tfree(P, a, ins): P.log('tfree', a[0]); return None
def post_free(P, rv):
    P.ensure('the table is released once', z3.And(P.loglen('tfree') == 1, P.logat('tfree', I(0), 0) == P.g['tbl'])); P.ensure('the buffer is released once', z3.And(P.loglen('done') == 1, P.logat('done', I(0), 0) == BUF(P)))
    P.ensure('the environment is released', z3.BoolVal('env' not in P.st.regions))
add('cork_env_free', lambda P: env(P, P.args[0]), post_free, calls=dict(CALLS, cork_hash_table_free=h_tfree))
def h_new(P, a, ins): v = z3.Int('newtable'); P.assume(v > 0); P.st.ghost['new'] = v; return v
def h_sfv(P, a, ins): P.require('the table', a[0] == P.gget('new')); P.log('setfv', a[0], a[1]); return None
def post_new(P, rv):
    P.ensure('a live block', z3.Or([z3.And(r.lo == rv, r.size == P.sizeof(ENV)) for r in P.st.regions.values() if r.heap])); P.ensure('holding a new string table', P.r8(rv + eo(P, 'variables')) == P.gget('new'))
    P.ensure('that releases its variables', z3.And(P.loglen('setfv') == 1, P.logat('setfv', I(0), 1) == P.address('cork_env_var_free'))); P.ensure('and an empty buffer', P.gget('init') == rv + eo(P, 'buffer'))
add('cork_env_new', lambda P: P.init_log('setfv', 2), post_new, calls=dict(CALLS, cork_string_hash_table_new=h_new, cork_hash_table_set_free_value=h_sfv))
# replacing the process's environment
def h_clear(P, a, ins): P.log('clear', I(0)); return I(0)
def h_map(P, a, ins): P.require('after the environment was cleared', P.loglen('clear') == 1); P.require('the variables', z3.And(a[0] == P.g['tbl'], a[2] == P.address('cork_env_set_vars'))); P.log('map', a[0]); return None
add('cork_env_replace_current', lambda P: env(P, P.args[0]), lambda P, rv: (P.ensure('cleared once', P.loglen('clear') == 1), P.ensure('every variable is visited', P.loglen('map') == 1), frame(P, nothing)), calls=dict(CALLS, clearenv=h_clear, cork_hash_table_map=h_map))
def pre_sv(P):
    P.rec('entry', P.args[1], 'cork_hash_table_entry'); v, ps = variable(P, 'var'); P.assume(P.r8(P.args[1] + P.off('cork_hash_table_entry', 'value')) == v); P.g['ps'] = ps; P.init_log('setenv', 3)
def post_sv(P, rv):
    n, x = P.g['ps'][0][1], P.g['ps'][1][1]; P.ensure('set once', z3.And(P.loglen('setenv') == 1, P.logat('setenv', I(0), 0) == n, P.logat('setenv', I(0), 1) == x)); P.ensure('goes on', rv == 1); frame(P, nothing)
add('cork_env_set_vars', pre_sv, post_sv)
# cloning: TXT(k) is the k-th string of the process's environment, EQL(k) the offset of its first '=' or -1
TXT, EQL = [z3.Function(x, z3.IntSort(), z3.IntSort()) for x in ('TXT', 'EQL')]; ii = z3.Int('i!e'); av = z3.Int('a!e'); cnt = z3.Int('environ_count')
def pre_clone(null):
    def pre(P):
        g = P.address('environ'); A = P.r8(g); P.g['A'] = A
        for l in ('add', 'new'): P.init_log(l, 1)
        P.st.ghost.update(seen=I(0), pending=I(0), setlen=I(-1))
        if null: P.assume(A == 0); P.assume(cnt == 0); return
        P.assume(z3.And(A > 0, cnt >= 0, cnt < 1 << 40)); P.region('environ[]', A, 8 * (cnt + 1), ('words', 8), False); P.assume(P.r8(A + 8 * cnt) == 0)
        P.assume(FA([av], Imp(z3.And(A <= av, av < A + 8 * cnt, (av - A) % 8 == 0), z3.And(Sel(P.H(8), av) == TXT((av - A) / 8), Sel(P.H(8), av) > 0)), [Sel(P.H(8), av)]))
        P.assume(FA([ii], z3.And(EQL(ii) >= -1, EQL(ii) < 1 << 31, Imp(EQL(ii) >= 0, TXT(ii) + EQL(ii) < 1 << 62)), [EQL(ii)]))
    return pre
def h_strchr(P, a, ins):
    k = P.gget('seen'); P.require('the next string', z3.And(k < cnt, a[0] == TXT(k), a[1] == ord('='))); P.require('the previous one was added if it has a name', P.gget('pending') == 0)
    P.gset('seen', S(k + 1)); P.gset('pending', S(z3.If(EQL(k) >= 0, 1, 0))); P.assume(z3.And(EQL(k) >= -1, TXT(k) > 0)); return S(z3.If(EQL(k) >= 0, TXT(k) + EQL(k), 0))
def h_bset(P, a, ins):
    k = P.gget('seen') - 1; e = P.g['envp'] if 'envp' in P.g else P.gget('env'); b = e + eo(P, 'buffer'); P.require('the buffer of the environment', a[0] == b); P.require('the part before the equals sign', z3.And(a[1] == TXT(k), a[2] == EQL(k)))
    P.gset('setlen', S(k)); n = P.sizeof('cork_buffer'); P.ex.havoc_ranges(P.st, [(a[0], I(n))], [8]); P.assume(P.r8(b + P.off('cork_buffer', 'buf')) > 0); return None
def h_add(P, a, ins):
    k = P.gget('seen') - 1; e = P.gget('env'); P.require('to the new environment', a[0] == e); P.require('the name just copied', z3.And(P.gget('setlen') == k, a[1] == P.r8(e + eo(P, 'buffer') + P.off('cork_buffer', 'buf'))))
    P.require('the value after the equals sign', a[2] == TXT(k) + EQL(k) + 1); P.require('once', P.gget('pending') == 1); P.gset('pending', I(0)); return None
def h_envnew(P, a, ins):
    r = P.ex.new_region(P.st, 'env', I(P.sizeof(ENV)), ('any',), heap=True); P.gset('env', r.lo); P.assume(r.lo > 0); P.log('new', r.lo); return r.lo
def inv_clone(L):
    P = L.ctx; out = []
    for p in L.ptrs(): out.append(('%s = k-th string' % p, lambda L, p=p: z3.And(0 <= L.k, L.k <= cnt, Imp(P.g['A'] > 0, L.val(p) == P.g['A'] + 8 * L.k))))
    for h in L.ints(): out.append(('%s = k' % h, lambda L, h=h: z3.And(0 <= L.k, L.k <= cnt, L.val(h) == L.k)))
    return out + [('seen', lambda L: L.ctx.gget('seen') == L.k), ('none pending', lambda L: L.ctx.gget('pending') == 0)]
def post_clone(P, rv):
    P.ensure('one environment, returned', z3.And(P.loglen('new') == 1, rv == P.gget('env'))); P.ensure('every string with an equals sign is added, in order', z3.And(P.gget('seen') == cnt, P.gget('pending') == 0)); frame(P, nothing)
for null, w in ((False, 'a process with an environment'), (True, 'a process without one')):
    add('cork_env_clone_current', pre_clone(null), post_clone, w, calls=dict(CALLS, strchr=h_strchr, cork_buffer_set=h_bset, cork_env_add_internal=h_add, cork_env_new=h_envnew), inv=inv_clone, globals=(), bounds=lambda L: [cnt + 1], termination=True)
LEAKS = True
TRUSTED = ['hash tables, buffers and the allocation layer at the level of their contracts (C11, C12, C05, C22)', 'setenv, unsetenv, getenv, clearenv, strchr of the C library']
ASSUME = ['strings are shorter than 2^31', 'no other thread changes the process environment']
BOUNDED = ['cork_env_add_printf (variadic; its va_list part is proved)']
EXPLANATION = 'The overlay is the map of C11 from names to variables; each contract says which map operation happens, with which strings, and that exactly the variables in the map stay allocated.'
