"""C05: growable buffers.  Abstract view: content(i) = byte i of buf, i < size."""
from .buf import *
WRAPPERS = ['buffer.c']
def pre(null, src=False):
    def f(P):
        P.g['b'] = buffer(P, P.args[0], null)
        if src:
            P.assume(P.args[2] < BIG); P.region('src', P.args[1], P.args[2], ('bytes',), writable=False)
            P.g['src'] = (P.args[1], P.args[2])
    return f
def pre_other(null, null2):
    def f(P):
        P.g['b'] = buffer(P, P.args[0], null)
        b = buffer(P, P.args[1], null2, 'other', writable=False); P.g['src'] = (b[0], b[1])
    return f
def pre_str(null):
    def f(P):
        P.g['b'] = buffer(P, P.args[0], null)
        n = P.fresh('len'); P.assume(z3.And(n >= 0, n < BIG)); s = P.args[1]
        P.region('src', s, z3.simplify(n + 1), ('bytes',), writable=False)
        i = z3.Int('i!z')
        P.assume(z3.And(P.o1(z3.simplify(s + n)) == 0, FA([i], Imp(z3.And(s <= i, i < s + n), P.o1(i) != 0), [P.o1(i)])))
        P.st.zstr = P.st.zstr + [(s, n)]
        P.g['src'] = (s, n)
    return f
def result(P, parts, what):
    """content is the concatenation of parts [(address in the entry heap, length)], NUL terminated"""
    me = P.args[0]; buf, size = F(P, me, 'buf'), F(P, me, 'size')
    n = I(0)
    for k, (a, l) in enumerate(parts):
        if not (cval(l) == 0): bytes_at(P, z3.simplify(buf + n), a, l, what[k])
        n = z3.simplify(n + l)
    P.ensure('size is the content length', size == n)
    P.ensure('a NUL follows the content', P.r1(z3.simplify(buf + size)) == 0)
    wf_post(P, me)
    fr(P)
def fr(P):
    me = P.args[0]; buf0, al0 = P.g['b'][0], P.g['b'][2]
    frame(P, lambda a: z3.Or(z3.And(me <= a, a < me + P.sizeof('cork_buffer')), z3.And(buf0 <= a, a < buf0 + al0)))
def post_set(P, rv): result(P, [P.g['src']], ['the content is the given bytes'])
def post_append(P, rv): result(P, [P.g['b'][:2], P.g['src']], ['the old content is kept', 'followed by the given bytes'])
LIT = b'lit\0eral'
def post_lit(append):
    def post(P, rv):
        me = P.args[0]; b = P.g['b']
        n0 = b[1] if append else I(0)
        buf, size = F(P, me, 'buf'), F(P, me, 'size')
        if append: bytes_at(P, buf, b[0], b[1], 'the old content is kept')
        for k, c in enumerate(LIT): P.ensure('literal byte %d' % k, P.r1(z3.simplify(buf + n0 + k)) == c)
        P.ensure('size is the content length', size == n0 + len(LIT))
        P.ensure('a NUL follows the content', P.r1(z3.simplify(buf + size)) == 0)
        wf_post(P, me); fr(P)
    return post
def post_indent(P, rv):
    me = P.args[0]; b = P.g['b']; buf, size = F(P, me, 'buf'), F(P, me, 'size'); n = P.args[1]
    bytes_at(P, buf, b[0], b[1], 'the old content is kept')
    a = z3.Int('a!i')
    P.ensure('followed by that many spaces', FA([a], Imp(z3.And(buf + b[1] <= a, a < buf + b[1] + n), P.r1(a) == 32), [P.r1(a)]))
    P.ensure('size is the content length', size == b[1] + n)
    P.ensure('a NUL follows the content', P.r1(z3.simplify(buf + size)) == 0)
    wf_post(P, me); fr(P)
def post_reserve(P, rv):
    me = P.args[0]; b0, s0, a0 = P.g['b']; buf, size, al = [F(P, me, f) for f in ('buf', 'size', 'allocated_size')]
    P.ensure('the size is unchanged', size == s0)
    P.ensure('the space is there', al >= P.args[1])
    P.ensure('space never shrinks', al >= a0)
    if not P.entails(b0 == 0): bytes_at(P, buf, b0, s0 + 1, 'content and terminator are kept')
    if P.entails(buf == 0): P.ensure('an empty buffer owns nothing', z3.And(size == 0, al == 0))
    else: owned(P, buf, al)
    fr(P)
def post_shrink(n):
    def post(P, rv):
        me = P.args[0]; b0, s0, a0 = P.g['b']; buf, size, al = [F(P, me, f) for f in ('buf', 'size', 'allocated_size')]
        want = n(P, s0)
        P.ensure('exactly the prefix asked for remains', size == want)
        P.ensure('the storage is kept', z3.And(buf == b0, al == a0))
        if not P.entails(b0 == 0):
            bytes_at(P, buf, b0, want, 'the prefix is kept')
            P.ensure('a NUL follows the content', Imp(z3.Or(want < s0, n is CLEAR), P.r1(z3.simplify(buf + want)) == 0))
            P.ensure('an existing terminator is kept', Imp(P.o1(z3.simplify(buf + s0)) == 0, P.r1(z3.simplify(buf + want)) == 0))
        wf_post(P, me, True); fr(P)
    return post
CLEAR = lambda P, s0: I(0)
TRUNC = lambda P, s0: z3.If(P.args[1] < s0, P.args[1], s0)
def post_init(P, rv):
    P.ensure('empty', z3.And(*[F(P, P.args[0], f) == 0 for f in ('buf', 'size', 'allocated_size')]))
def post_new(P, rv):
    P.ensure('empty', z3.And(*[F(P, rv, f) == 0 for f in ('buf', 'size', 'allocated_size')]))
    owned(P, rv, I(P.sizeof('cork_buffer')), 'a live buffer object')
def post_done(P, rv):
    P.ensure('the storage is released', z3.BoolVal('b.buf' not in P.st.regions))
    P.ensure('empty again', z3.And(*[F(P, P.args[0], f) == 0 for f in ('buf', 'size', 'allocated_size')]))
def post_free(P, rv): P.ensure('everything is released', z3.BoolVal('b.buf' not in P.st.regions and 'b' not in P.st.regions))
def pre_eq(n1, n2):
    def f(P):
        P.g['b'] = buffer(P, P.args[0], n1)
        P.g['c'] = P.g['b'] if n2 == 'same' else buffer(P, P.args[1], n2, 'other')
        if n2 == 'same': P.assume(P.args[0] == P.args[1])
    return f
def post_eq(P, rv):
    (b, n, _), (c, m, _) = P.g['b'], P.g['c']
    i = z3.Int('i!e')
    P.ensure('a truth value', z3.Or(rv == 0, rv == 1))
    P.ensure('equal buffers agree in size and bytes', Imp(rv == 1, z3.And(n == m, FA([i], Imp(z3.And(0 <= i, i < n), P.o1(b + i) == P.o1(c + i))))))
    P.ensure('buffers that agree are equal', Imp(z3.And(n == m, FA([i], Imp(z3.And(b <= i, i < b + n), P.o1(i) == P.o1(i - b + c)), [P.o1(i)])), rv == 1))
    frame(P, lambda a: z3.BoolVal(False), 'comparing changes nothing')
def post_byte(P, rv): P.ensure('the byte at that position', rv == P.o1(P.g['b'][0] + P.args[1]))
def pre_byte(P):
    pre(False)(P); P.assume(P.args[1] < P.g['b'][1])
    i = z3.Int('i!b'); P.assume(FA([i], z3.And(0 <= P.o1(i), P.o1(i) < 256), [P.o1(i)]))
# printf family: the text is a function of the format and its arguments, or the conversion fails
TXT = z3.Function('text', z3.IntSort(), z3.IntSort()); TLEN = z3.Int('textlen'); FAILS = z3.Bool('conversion_fails')
def pre_fmt(null):
    def f(P):
        P.g['b'] = buffer(P, P.args[0], null); P.assume(z3.And(0 <= TLEN, TLEN < (1 << 31) - 1))
    return f
def h_vsnprintf(P, a, ins):
    dst, size, f = a[:3]; ex = P.ex
    P.require('the format is passed on', f == P.args[1])
    ex.check_range(P.st, dst, size, True, 'formatted text')
    out = []
    s2 = P.st.clone(); P2 = P.at(s2)
    P2.assume(FAILS); P.assume(z3.Not(FAILS))
    ex.havoc_ranges(s2, [(dst, size)], [1])
    s3 = P.st.clone(); P3 = P.at(s3)
    P3.assume(size == 0); P.assume(size > 0)
    s4 = P.st.clone(); P4 = P.at(s4)
    P.assume(TLEN < size); P4.assume(TLEN >= size)
    for Q, n in ((P, TLEN), (P4, z3.simplify(size - 1))):
        ex.range_update(Q.st, dst, n, lambda w, x: TXT(z3.simplify(x - dst)), {1})
        ex.hwrite(Q.st, 1, z3.simplify(dst + n), I(0))
    return Fork([(P.st, TLEN), (s2, I((1 << 32) - 1)), (s3, TLEN), (s4, TLEN)])
def post_fmt(append):
    def post(P, rv):
        me = P.args[0]; b0, s0, a0 = P.g['b']; buf, size, al = [F(P, me, f) for f in ('buf', 'size', 'allocated_size')]
        n0 = s0 if append else I(0)
        if P.entails(FAILS):
            P.ensure('nothing is added when the conversion fails', size == n0)
            if not P.entails(b0 == 0):
                bytes_at(P, buf, b0, n0, 'the old content is kept')
                P.ensure('a NUL follows the content', P.r1(z3.simplify(buf + size)) == 0)
            wf_post(P, me, True)
        else:
            a = z3.Int('a!t')
            bytes_at(P, buf, b0, n0, 'the old content is kept')
            P.ensure('followed by the formatted text', FA([a], Imp(z3.And(buf + n0 <= a, a < buf + n0 + TLEN), P.r1(a) == TXT(a - buf - n0)), [P.r1(a)]))
            P.ensure('size is the content length', size == n0 + TLEN)
            P.ensure('a NUL follows the content', P.r1(z3.simplify(buf + size)) == 0)
            wf_post(P, me)
        fr(P)
    return post
K = dict(calls=ALLOC)
KF = dict(calls=dict(ALLOC, vsnprintf=h_vsnprintf))
SPECS = []
def add(fn, pre, post, label, **kw): SPECS.append(Spec(fn, pre, post, label='%s (%s)' % (fn, label), **(kw or K)))
for null in (True, False):
    w = 'no storage' if null else 'storage'
    add('cork_buffer_set', pre(null, True), post_set, w)
    add('cork_buffer_append', pre(null, True), post_append, w)
    add('cork_buffer_set_string', pre_str(null), post_set, w)
    add('cork_buffer_append_string', pre_str(null), post_append, w)
    for null2 in (True, False):
        w2 = w + ', source ' + ('empty' if null2 else 'with storage')
        add('w_buffer_copy', pre_other(null, null2), post_set, w2)
        add('w_buffer_append_copy', pre_other(null, null2), post_append, w2)
        add('cork_buffer_equal', pre_eq(null, null2), post_eq, w2.replace('source', 'other'))
    add('cork_buffer_equal', pre_eq(null, 'same'), post_eq, w + ', itself')
    add('w_buffer_set_literal', pre(null), post_lit(False), w)
    add('w_buffer_append_literal', pre(null), post_lit(True), w)
    def pre_n(P, null=null): pre(null)(P); P.assume(P.args[1] < BIG)
    add('cork_buffer_append_indent', pre_n, post_indent, w)
    add('cork_buffer_ensure_size', pre_n, post_reserve, w)
    add('cork_buffer_clear', pre(null), post_shrink(CLEAR), w)
    add('cork_buffer_truncate', pre(null), post_shrink(TRUNC), w)
    add('cork_buffer_done', pre(null), post_done, w)
    add('cork_buffer_free', pre(null), post_free, w)
    for f, ap in (('cork_buffer_append_vprintf', True), ('cork_buffer_vprintf', False), ('cork_buffer_append_printf', True), ('cork_buffer_printf', False)):
        add(f, pre_fmt(null), post_fmt(ap), w, **KF)
add('w_buffer_byte', pre_byte, post_byte, 'storage'); add('w_buffer_char', pre_byte, post_byte, 'storage')
SPECS += [Spec('cork_buffer_init', lambda P: P.rec('b', P.args[0], 'cork_buffer'), post_init, **K), Spec('cork_buffer_new', None, post_new, **K)]
ASSUME = ['vsnprintf: returns the length of the text, writes as much of it as fits followed by a NUL, or returns a negative number on failure (ISO C); the same arguments give the same text',
          'source bytes do not lie in the buffer being changed; sizes are below 2^60']
