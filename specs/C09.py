"""C09: slices."""
from .sl import *
WRAPPERS = ['slice.c', 'buffer.c']
SPECS = []
def add(fn, pre, post, label=None, **kw):
    def p(P): start(P); pre(P)
    SPECS.append(Spec(fn, p, post, label=(fn + ' (%s)' % label) if label else fn, calls=CALLS, indirect=methods, **kw))
# ---- dispatch: any implementation
def dispatch(fn, method, checked, offset_only):
    """copy/light_copy(dest, slice, o[, l])"""
    def args(P):
        o = P.args[2]; return o, (S(P.g['n'] - o) if offset_only else P.args[3])
    def pre(P):
        slot(P, P.args[0], 'd'); P.g['buf'], P.g['n'] = a_slice(P, P.args[1])
        if not checked: P.assume(inside(P.args[2], S(P.g['n'] - P.args[2]) if offset_only else P.args[3], P.g['n']))
    def yes(P):
        o, l = args(P); no_error(P)
        P.ensure('the implementation is asked once', P.loglen('call') == 1)
        P.ensure('with that range', z3.And(*[P.logat('call', I(0), i) == v for i, v in enumerate([P.g['s.' + method], P.args[0], P.args[1], o, l])]))
        P.ensure('its result is returned', P.g['rv'] == P.st.ghost.get('rc', I(-1)))
        as_left(P, P.args[0], 0); as_left(P, P.args[1], 1)
    def no(P):
        error(P, P.g['rv'], FAILED); cleared(P, P.args[0], 'the new slice is cleared'); kept(P, P.args[1], 'the source is unchanged')
        P.ensure('the implementation is not asked', P.loglen('call') == 0)
    def post(P, rv):
        P.g['rv'] = rv; o, l = args(P)
        branch(P, inside(o, l, P.g['n']), yes, no)
        frame(P, lambda a: z3.Or(z3.And(P.args[0] <= a, a < P.args[0] + 32), z3.And(P.args[1] <= a, a < P.args[1] + 32)))
    add(fn, pre, post, 'any implementation')
    if not checked: return
    def pre0(P): slot(P, P.args[0], 'd'); P.assume(P.args[1] == 0); P.init_log('call', 5)
    def post0(P, rv): error(P, rv, FAILED); cleared(P, P.args[0], 'the new slice is cleared'); frame(P, lambda a: z3.And(P.args[0] <= a, a < P.args[0] + 32))
    add(fn, pre0, post0, 'no slice')
    def prec(P):
        slot(P, P.args[0], 'd'); P.rec('s', P.args[1], 'cork_slice', writable=False); P.init_log('call', 5)
        for f in SF: P.assume(sf(P, P.args[1], f, True) == 0)
        P.assume(P.args[2] > 0 if offset_only else P.args[2] + P.args[3] > 0)
    add(fn, prec, post0, 'cleared slice')
for m in ('copy', 'light_copy'):
    for c in (True, False):
        for oo in (False, True): dispatch('cork_slice_' + m + ('_offset' if oo else '') + ('' if c else '_fast'), m, c, oo)
def narrow(fn, checked, offset_only, advance, native):
    def args(P):
        o = P.args[1]; return o, (S(P.g['n'] - o) if offset_only else P.args[2])
    bad = I(0) if advance else I(FAILED)
    def pre(P):
        P.g['buf'], P.g['n'] = a_slice(P, P.args[0])
        P.assume(P.g['s.slice'] == 0 if native else P.g['s.slice'] > 0)
        if not checked: P.assume(inside(P.args[1], S(P.g['n'] - P.args[1]) if offset_only else P.args[2], P.g['n']))
    def yes(P):
        o, l = args(P); no_error(P); rv = P.g['rv']; me = P.args[0]
        if native:
            denotes(P, me, P.g['buf'] + o, l)
            P.ensure('same implementation', z3.And(*[sf(P, me, f) == sf(P, me, f, True) for f in ('iface', 'user_data')]))
            P.ensure('result', rv == (P.g['buf'] if advance else 0))
            P.ensure('the implementation is not asked', P.loglen('call') == 0)
        else:
            P.ensure('the implementation is asked once', P.loglen('call') == 1)
            P.ensure('with that range', z3.And(*[P.logat('call', I(0), i) == v for i, v in enumerate([P.g['s.slice'], me, o, l])]))
            rc = P.st.ghost.get('rc', I(-1))
            P.ensure('its result is returned', rv == (z3.If(rc == 0, P.g['buf'], 0) if advance else rc))
            as_left(P, me, 0)
    def no(P):
        error(P, P.g['rv'], bad); kept(P, P.args[0]); P.ensure('the implementation is not asked', P.loglen('call') == 0)
    def post(P, rv):
        P.g['rv'] = rv; o, l = args(P)
        branch(P, inside(o, l, P.g['n']), yes, no)
        frame(P, lambda a: z3.And(P.args[0] <= a, a < P.args[0] + 32))
    add(fn, pre, post, 'fields updated' if native else 'method of the implementation')
    if not checked or not native: return
    def pre0(P): P.assume(P.args[0] == 0); P.init_log('call', 5)
    add(fn, pre0, lambda P, rv: (error(P, rv, bad), frame(P, lambda a: z3.BoolVal(False))), 'no slice')
    def prec(P):
        P.rec('s', P.args[0], 'cork_slice', writable=False); P.init_log('call', 5)
        for f in SF: P.assume(sf(P, P.args[0], f, True) == 0)
        P.assume(P.args[1] > 0 if offset_only else P.args[1] + P.args[2] > 0)
    add(fn, prec, lambda P, rv: (error(P, rv, bad), kept(P, P.args[0])), 'cleared slice')
for nat in (True, False):
    for c in (True, False):
        for oo in (False, True): narrow('cork_slice_slice' + ('_offset' if oo else '') + ('' if c else '_fast'), c, oo, False, nat)
    narrow('cork_slice_advance_checked', True, True, True, nat)
    narrow('cork_slice_advance', False, True, True, nat)
# ---- finishing, clearing, looking
def pre_fin(has):
    def f(P): a_slice(P, P.args[0]); P.assume(P.g['s.free'] > 0 if has else P.g['s.free'] == 0)
    return f
def post_fin(has):
    def f(P, rv):
        cleared(P, P.args[0]); no_error(P)
        P.ensure('the implementation frees it %s' % ('once' if has else 'only if it wants to'), P.loglen('call') == (1 if has else 0))
        if has: P.ensure('that very slice', z3.And(P.logat('call', I(0), 0) == P.g['s.free'], P.logat('call', I(0), 1) == P.args[0]))
        frame(P, lambda a: z3.And(P.args[0] <= a, a < P.args[0] + 32))
    return f
add('cork_slice_finish', pre_fin(True), post_fin(True), 'with a free method'); add('cork_slice_finish', pre_fin(False), post_fin(False), 'without a free method')
def pre_cl(P):
    P.rec('s', P.args[0], 'cork_slice'); P.init_log('call', 5)
    for f in SF: P.assume(sf(P, P.args[0], f, True) == 0)
add('cork_slice_finish', pre_cl, post_fin(False), 'cleared slice')
add('cork_slice_clear', lambda P: slot(P, P.args[0], 's'), lambda P, rv: cleared(P, P.args[0]))
add('cork_slice_is_empty', lambda P: slot(P, P.args[0], 's'), lambda P, rv: P.ensure('empty exactly when it denotes nothing', rv == z3.If(sf(P, P.args[0], 'buf', True) == 0, 1, 0)))
def pre_eq(same):
    def f(P):
        P.g['a'] = a_slice(P, P.args[0], 's')
        if same: P.assume(P.args[0] == P.args[1]); P.g['b'] = P.g['a']
        else: P.g['b'] = a_slice(P, P.args[1], 't')
    return f
def post_eq(P, rv):
    (b, n), (c, m) = P.g['a'], P.g['b']; i = z3.Int('i!e')
    P.ensure('a truth value', z3.Or(rv == 0, rv == 1))
    P.ensure('equal slices agree in size and bytes', Imp(rv == 1, z3.And(n == m, FA([i], Imp(z3.And(0 <= i, i < n), P.o1(b + i) == P.o1(c + i))))))
    P.ensure('slices that agree are equal', Imp(z3.And(n == m, FA([i], Imp(z3.And(b <= i, i < b + n), P.o1(i) == P.o1(i - b + c)), [P.o1(i)])), rv == 1))
    frame(P, lambda a: z3.BoolVal(False), 'comparing changes nothing')
add('cork_slice_equal', pre_eq(False), post_eq, 'two slices'); add('cork_slice_equal', pre_eq(True), post_eq, 'itself')
# ---- the implementations: static, copy-once and managed slices
def impl(name, op):
    """w_<name>_<op>(d, s, buf, n, o, l)"""
    two = op != 'slice'
    def A(P): return (P.args[0] if two else None,) + tuple(P.args[1 if two else 0:])
    def pre(P):
        d, s, buf, n, o, l = A(P)
        if two: slot(P, d, 'd')
        slot(P, s, 's'); P.assume(buf > 0); data(P, buf, n)
    def post(P, rv):
        d, s, buf, n, o, l = A(P)
        def yes(P):
            P.ensure('succeeds', rv == 0); no_error(P)
            if op == 'slice': denotes(P, s, buf + o, l)
            elif name == 'once' and op == 'copy':
                nb = sf(P, s, 'buf'); x = z3.Int('a!c')
                denotes(P, d, nb + o, l); P.ensure('the source still has the same size', sf(P, s, 'size') == n)
                P.ensure('the new slice has the same bytes', FA([x], Imp(z3.And(nb + o <= x, x < nb + o + l), P.r1(x) == P.o1(x - nb + buf)), [P.r1(x)]))
                P.ensure('the source still has the same bytes', FA([x], Imp(z3.And(nb <= x, x < nb + n), P.r1(x) == P.o1(x - nb + buf)), [P.r1(x)]))
                P.ensure('both now share a managed copy', z3.And(*[sf(P, d, f) == sf(P, s, f) for f in ('iface', 'user_data')]))
            else:
                denotes(P, d, buf + o, l); denotes(P, s, buf, n, 'the source is as it was')
                P.ensure('a slice of the same kind', z3.And(*[sf(P, d, f) == sf(P, s, f) for f in ('iface', 'user_data')]))
        def no(P):
            error(P, rv, FAILED); denotes(P, s, buf, n, 'the source is as it was')
            if two: cleared(P, d, 'the new slice is cleared')
        branch(P, inside(o, l, n), yes, no)
        frame(P, lambda a: z3.Or([z3.And(p <= a, a < p + 32) for p in ([d] if two else []) + [s]]))
    add('w_%s_%s' % (name, op), pre, post)
for nm in ('static', 'once'):
    for op in ('copy', 'light_copy', 'slice'): impl(nm, op)
    def pre(P): slot(P, P.args[0], 's'); P.assume(P.args[1] > 0); data(P, P.args[1], P.args[2])
    add('w_%s_finish' % nm, pre, lambda P, rv: (cleared(P, P.args[0]), no_error(P)))
for nm in ('static', 'copy_once'):
    def pre(P): slot(P, P.args[0], 's'); P.assume(P.args[1] > 0)
    def post(P, rv):
        denotes(P, P.args[0], P.args[1], P.args[2], 'the whole buffer'); no_error(P); frame(P, lambda a: z3.And(P.args[0] <= a, a < P.args[0] + 32))
    add('cork_slice_init_%s' % nm, pre, post)
def m_slice(offset_only, null):
    def pre(P):
        slot(P, P.args[0], 'd')
        if null: P.assume(P.args[1] == 0)
        else: P.g['m'] = managed(P, P.args[1])
    def post(P, rv):
        def no(P): error(P, rv, FAILED); cleared(P, P.args[0], 'the new slice is cleared')
        if null: no(P); return
        buf, n, rc = P.g['m']; o = P.args[2]; l = S(n - o) if offset_only else P.args[3]
        def yes(P): P.ensure('succeeds', rv == 0); no_error(P); denotes(P, P.args[0], buf + o, l)
        branch(P, inside(o, l, n), yes, no)
        frame(P, lambda a: z3.Or(z3.And(P.args[0] <= a, a < P.args[0] + 32), z3.And(P.args[1] <= a, a < P.args[1] + 32)))
    add('cork_managed_buffer_slice' + ('_offset' if offset_only else ''), pre, post, 'no buffer' if null else None)
for oo in (False, True):
    for nl in (False, True): m_slice(oo, nl)
def m_chain(op):
    two = op != 'narrow'
    def A(P): return (P.args[0] if two else None,) + tuple(P.args[1 if two else 0:])
    def pre(P):
        d, s, m = A(P)[:3]
        if two: slot(P, d, 'd')
        slot(P, s, 's'); P.g['m'] = managed(P, m)
        P.assume(z3.And(inside(A(P)[3], A(P)[4], P.g['m'][1])))
    def post(P, rv):
        d, s, m, o, l, o2, l2 = A(P); buf, n, rc = P.g['m']
        def yes(P):
            P.ensure('succeeds', rv == 0); no_error(P); denotes(P, d if two else s, buf + o + o2, l2)
            if two: denotes(P, s, buf + o, l, 'the source is as it was'); P.ensure('a slice of the same kind', z3.And(*[sf(P, d, f) == sf(P, s, f) for f in ('iface', 'user_data')]))
        def no(P):
            error(P, rv, FAILED); denotes(P, s, buf + o, l, 'the source is as it was')
            if two: cleared(P, d, 'the new slice is cleared')
        branch(P, inside(o2, l2, l), yes, no)
    add('w_managed_' + op, pre, post)
for op in ('copy', 'light_copy', 'narrow'): m_chain(op)
ASSUME = ['a cleared slice is not copied or narrowed with offset and length 0 (the documentation forbids calling any slice method on it)',
          'slice implementations supplied by the client: any function; only the slices passed to it may be modified by it',
          'method tables (file-local objects that their file never writes to) keep their initial contents; sizes are below 2^60; source and destination slices are different objects']
DRIVER = 'slices.c'
LEAKS = True
