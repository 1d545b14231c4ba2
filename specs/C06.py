"""C06: pretty printers, over the contracts of the buffer appends (proved in C05).
out/n: the bytes appended so far and their number (ghost).  pos(j): where the j-th input byte's rendering starts."""
from .buf import *
from . import fmt
from lvc.exec import ToolLimit
OUT = z3.ArraySort(z3.IntSort(), z3.IntSort())
pos = z3.Function('pos', z3.IntSort(), z3.IntSort())
S = z3.simplify
def emit(P, vals):
    o, n = P.gget('out'), P.gget('n')
    for v in vals: o = z3.Store(o, n, v); n = S(n + 1)
    P.gset('out', o); P.gset('n', n)
def emit_range(P, n, f):
    """n bytes, the t-th being f(t)"""
    o, m = P.gget('out'), P.gget('n')
    o2 = P.ex.ops.fconst(OUT, 'out'); a = P.ex.ops.fconst(z3.IntSort(), 'a')
    P.assume(FA([a], Sel(o2, a) == z3.If(z3.And(m <= a, a < m + n), f(S(a - m)), Sel(o, a)), [Sel(o2, a)]))
    P.gset('out', o2); P.gset('n', S(m + n))
def h_append(P, a, ins):
    dest, p, n = a
    P.require('appends to the given buffer', dest == P.args[0])
    P.ex.check_range(P.st, p, n, False, 'appended bytes')
    c = cval(n)
    if c is not None and c <= 24:
        bs = P.ex.cstring_at(P.st, p)
        emit(P, [I(bs[i]) if bs is not None and i < len(bs) else P.r1(S(p + i)) for i in range(c)])
    else:
        h = P.H(1); emit_range(P, n, lambda t: Sel(h, S(p + t)))
def h_indent(P, a, ins):
    P.require('appends to the given buffer', a[0] == P.args[0])
    emit_range(P, a[1], lambda t: I(32))
def hexd(x): return z3.If(x < 10, 48 + x, 87 + x)
def h_printf(P, a, ins):
    P.require('appends to the given buffer', a[0] == P.args[0])
    for s in fmt.segments(P, a[1], a[2:]):
        if s[0] == 'lit': emit(P, [I(c) for c in s[1]])
        elif s[0] in 'xX' and s[2] == '0' and s[3] == '2' and s[4] is None:
            v = s[1] % 256 if s[5] == 'hh' else s[1]
            P.require('fits two hexadecimal digits', z3.And(0 <= v, v < 256))
            d = hexd if s[0] == 'x' else lambda x: z3.If(x < 10, 48 + x, 55 + x)
            emit(P, [d(v / 16), d(v % 16)])
        elif s[0] == 's' and s[2] == '-' and str(s[3]).isdigit() and s[4] is not None and not isinstance(s[4], str):
            # at most s[4] bytes of the string, padded with spaces on the right
            w, prec, p = int(s[3]), s[4], s[1]
            P.ex.check_range(P.st, p, prec, False, 'printed string')
            a = z3.Int('a!n'); h = P.H(1)
            P.require('precision is not negative', prec < (1 << 31))
            P.require('no NUL in the printed bytes', FA([a], Imp(z3.And(p <= a, a < p + prec), Sel(h, a) != 0), [Sel(h, a)]))
            emit_range(P, S(z3.If(prec > w, prec, I(w))), lambda t: z3.If(t < prec, Sel(h, S(p + t)), 32))
        else: raise ToolLimit('conversion %r' % (s,))
OUTH = {'cork_buffer_append': h_append, 'cork_buffer_append_printf': h_printf, 'cork_buffer_append_indent': h_indent}
ESC = {34: 34, 92: 92, 12: ord('f'), 10: ord('n'), 13: ord('r'), 9: ord('t'), 11: ord('v')}
def sprint(c): return z3.And(c >= 32, c <= 126)
def is_esc(c): return z3.Or([c == k for k in ESC])
def clen(c): return z3.If(is_esc(c), 2, z3.If(sprint(c), 1, 4))
def esc2(c):
    r = I(34)
    for k, v in ESC.items(): r = z3.If(c == k, I(v), r)
    return r
def cenc(o, q, c):
    """the standard rendering of byte c at position q"""
    return z3.If(is_esc(c), z3.And(Sel(o, q) == 92, Sel(o, q + 1) == esc2(c)),
           z3.If(sprint(c), Sel(o, q) == c, z3.And(Sel(o, q) == 92, Sel(o, q + 1) == 120, Sel(o, q + 2) == hexd(c / 16), Sel(o, q + 3) == hexd(c % 16))))
def source(P, p, n):
    P.assume(n < (1 << 58)); P.region('src', p, n, ('bytes',), writable=False)
    i = z3.Int('i!s'); P.assume(FA([i], z3.And(0 <= P.o1(i), P.o1(i) < 256), [P.o1(i)]))
    P.g['src'], P.g['len'] = p, n
    P.rec('dest', P.args[0], 'cork_buffer')
    P.st.ghost['out'] = z3.Const('out0', OUT); P.st.ghost['n'] = I(0)
def src(P, j): return Sel(P.H0(1), S(P.g['src'] + j))
def counters(L):
    """expressions for the number of input bytes consumed"""
    P = L.ctx; out = [('iterations', lambda L: L.k)]
    return out
def inv_render(width, enc, first):
    """out is the rendering of the first k bytes"""
    def inv(L):
        P0 = L.ctx; j = z3.Int('j!r')
        def unfold(L):
            P = L.ctx; k = L.k
            for x in (k, S(k - 1)): P.assume(Imp(x >= 0, pos(S(x + 1)) == pos(x) + width(P, src(P, x))))
            P.assume(pos(I(0)) == first)
            return z3.And(L.ctx.gget('n') == pos(k), k <= P.g['len'], pos(k) >= first)
        def done(L):
            P = L.ctx; o = P.gget('out')
            return FA([j], Imp(z3.And(0 <= j, j < L.k), z3.And(pos(j) >= first, pos(j) + width(P, src(P, j)) <= pos(L.k), enc(P, o, pos(j), src(P, j)))), [pos(j)])
        return [('output length', unfold), ('output so far', done)] + ([('opening quote', lambda L: Sel(L.ctx.gget('out'), I(0)) == 34)] if first else [])
    return inv
def pre_c(P): source(P, P.args[1], P.args[2])
cw = lambda P, c: clen(c); ce = lambda P, o, q, c: cenc(o, q, c)
def post_render(width, enc, quote):
    def post(P, rv):
        j = z3.Int('j!r'); o, n, ln = P.gget('out'), P.gget('n'), P.g['len']
        P.ensure('the whole input is rendered, nothing else', n == pos(ln) + (1 if quote else 0))
        if quote: P.ensure('quotes', z3.And(Sel(o, I(0)) == 34, Sel(o, pos(ln)) == 34))
        P.ensure('every byte has its standard rendering, in order', FA([j], Imp(z3.And(0 <= j, j < ln), enc(P, o, pos(j), src(P, j))), [pos(j)]))
        frame(P, lambda a: z3.BoolVal(False), 'only the buffer changes')
    return post
def pre_m(P): source(P, P.args[2], P.args[3]); P.assume(P.args[1] < (1 << 58))
mw = lambda P, c: z3.If(c == 10, 1 + P.args[1], 1)
def me(P, o, q, c):
    t = z3.Int('t!m')
    return z3.And(Sel(o, q) == c, Imp(c == 10, FA([t], Imp(z3.And(q < t, t <= q + P.args[1]), Sel(o, t) == 32), [Sel(o, t)])))
# binary: a choice between three renderings, each emitted by a function under its own contract
def ev(P, *e):
    P.st.ghost['ev'] = P.st.ghost['ev'] + (e,); P.gset('nev', S(P.gget('nev') + 1))
def b_append(P, a, ins):
    P.require('appends to the given buffer', a[0] == P.args[0])
    bs = P.ex.cstring_at(P.st, a[1]); c = cval(a[2])
    if bs is not None and c is not None: ev(P, 'lit', bs[:c])
    else: ev(P, 'raw', a[1], a[2])
def b_call(kind):
    def h(P, a, ins):
        P.require('appends to the given buffer', a[0] == P.args[0]); ev(P, kind, *a[1:])
    return h
def pre_b(P): pre_m(P); P.st.ghost['ev'] = (); P.st.ghost['nev'] = I(0)
def plain(c): return z3.Or(z3.And(c > 32, c <= 126), c == 32, z3.And(9 <= c, c <= 13))
def every(P, n, f):
    a = z3.Int('a!b'); s = P.g['src']
    return FA([a], Imp(z3.And(s <= a, a < s + n), f(P.o1(a))), [P.o1(a)])
def post_b(P, rv):
    e = P.st.ghost['ev']; ln = P.g['len']; ind, s = P.args[1], P.args[2]
    all_plain = every(P, ln, plain)
    no_nl = every(P, ln, lambda c: c != 10)
    P.ensure('each part is emitted once', P.gget('nev') == len(e))
    kinds = [x[0] for x in e]
    if kinds == ['lit', 'indent', 'hex'] and e[0][1] == b'(hex)\n':
        P.ensure('hex dump only if some byte is neither printable nor space', z3.Not(all_plain))
    elif kinds == ['lit', 'indent', 'multi'] and e[0][1] == b'(multiline)\n':
        P.ensure('multiline only if all bytes are printable or space', all_plain)
        P.ensure('multiline only if there is a newline', z3.Not(no_nl))
    elif kinds == ['raw']:
        P.ensure('raw text only if all bytes are printable or space', all_plain)
        P.ensure('raw text only if there is no newline', no_nl)
        P.ensure('the whole text', z3.And(e[0][1] == s, e[0][2] == ln))
    else: P.ensure('one of the three documented forms', z3.BoolVal(False))
    if len(kinds) == 3: P.ensure('same text and indent', z3.And(e[1][1] == ind, e[2][1] == ind, e[2][2] == s, e[2][3] == ln))
def inv_b(L):
    def unf(L): return L.k <= L.ctx.g['len']
    out = [('within the text', unf), ('all plain so far', lambda L: every(L.ctx, L.k, plain))]
    for h in L.ints(8):
        out.append(('%s: newline seen' % h, lambda L, h=h: Imp(L.val(h) != 0, z3.Not(every(L.ctx, L.k, lambda c: c != 10)))))
        out.append(('%s: no newline seen' % h, lambda L, h=h: Imp(L.val(h) == 0, every(L.ctx, L.k, lambda c: c != 10))))
        out.append(('%s is a truth value' % h, lambda L, h=h: z3.Or(L.val(h) == 0, L.val(h) == 1)))
    return out
# hex dump: row r starts at row(r); 48 columns of hexadecimal, " |", the printable rendering, "|"; rows are separated by a newline and the indent
row = z3.Function('row', z3.IntSort(), z3.IntSort())
def rows_def(P, *rs):
    P.assume(row(I(0)) == 0)
    for r in rs: P.assume(Imp(r >= 0, row(S(r + 1)) == row(r) + 68 + P.args[1]))
def dot(c): return z3.If(sprint(c), c, 46)
def row_facts(P, o, r):
    """(name, formula) of a complete row r"""
    b = row(r); out = []
    for t in range(16):
        c = src(P, S(16 * r + t))
        out.append(('hexadecimal of byte %d' % t, z3.And(Sel(o, b + 3 * t) == hexd(c / 16), Sel(o, b + 3 * t + 1) == hexd(c % 16), Sel(o, b + 3 * t + 2) == 32)))
        out.append(('rendering of byte %d' % t, Sel(o, b + 50 + t) == dot(c)))
    out.append(('bars', z3.And(Sel(o, b + 48) == 32, Sel(o, b + 49) == 124, Sel(o, b + 66) == 124)))
    return out
def gap(P, o, r):
    a = z3.Int('a!g')
    return z3.And(Sel(o, row(r) - 1 - P.args[1]) == 10, FA([a], Imp(z3.And(row(r) - P.args[1] <= a, a < row(r)), Sel(o, a) == 32), [Sel(o, a)]))
NROW = 16 * 2 + 1
def pre_h(P):
    pre_m(P); P.st.ghost['rows'] = I(0)
def h_row(P, a, ins):
    h_printf(P, a, ins); P.gset('rows', S(P.gget('rows') + 1))
def colof(L):
    return L.k - 16 * L.ctx.gget('rows')
def inv_h(L):
    q = z3.Int('r!h')
    def base(L):
        P = L.ctx; k = L.k; r = P.gget('rows'); c = colof(L)
        rows_def(P, r, S(r - 1), S(r + 1))
        return z3.And(k <= P.g['len'], 0 <= r, 0 <= c, c < 16, row(r) >= 0,
                      P.gget('n') == z3.If(k == 0, 0, z3.If(c == 0, row(r) - 1 - P.args[1], row(r))))
    out = [('output length', base)]
    out.append(('rows are laid out in order', lambda L: FA([q], Imp(z3.And(0 <= q, q < L.ctx.gget('rows')), z3.And(row(q) >= 0, row(q) + 68 + L.ctx.args[1] <= row(L.ctx.gget('rows')))), [row(q)])))
    for i in range(NROW):
        out.append(('rows so far: ' + str(i), lambda L, i=i: FA([q], Imp(z3.And(0 <= q, q < L.ctx.gget('rows')), row_facts(L.ctx, L.ctx.gget('out'), q)[i][1]), [row(q)])))
    out.append(('separators so far', lambda L: FA([q], Imp(z3.And(0 < q, 16 * q < L.k), gap(L.ctx, L.ctx.gget('out'), q)), [row(q)])))
    for h in L.ints(): out.append(('%s is the column' % h, lambda L, h=h: L.val(h) == colof(L)))
    for p in L.ptrs():
        for m in (3, 1): out.append(('%s advances by %d per column' % (p, m), lambda L, p=p, m=m: L.val(p) == L.init(p) + m * colof(L)))
    for t_, r_ in L.st.regions.items():
        if not t_.startswith('stack:'): continue
        for t in range(16):
            c = lambda L, t=t: src(L.ctx, S(16 * L.ctx.gget('rows') + t))
            if cval(r_.size) == 48:
                out.append(('column %d of %s' % (t, t_), lambda L, t=t, r_=r_, c=c: Imp(t < colof(L), z3.And(Sel(L.H(1), S(r_.lo + 3 * t)) == hexd(c(L) / 16), Sel(L.H(1), S(r_.lo + 3 * t + 1)) == hexd(c(L) % 16), Sel(L.H(1), S(r_.lo + 3 * t + 2)) == 32))))
            if cval(r_.size) == 16:
                out.append(('column %d of %s' % (t, t_), lambda L, t=t, r_=r_, c=c: Imp(t < colof(L), Sel(L.H(1), S(r_.lo + t)) == dot(c(L)))))
    return out
def post_h(P, rv):
    o, n, ln = P.gget('out'), P.gget('n'), P.g['len']; q = z3.Int('r!h')
    R, c = P.fresh('R'), P.fresh('c')
    P.assume(z3.And(R >= 0, 0 <= c, c < 16, ln == 16 * R + c))
    rows_def(P, R, S(R - 1)); g = P.gget('rows'); rows_def(P, g, S(g - 1), S(g - 2))
    P.assume(z3.And([row(x) >= 0 for x in (R, g)]))
    P.ensure('rows printed', g == z3.If(c == 0, R, R + 1))
    P.assume(g == z3.If(c == 0, R, R + 1))
    P.ensure('length of the dump', n == z3.If(ln == 0, 0, z3.If(c == 0, row(R) - 1 - P.args[1], row(R) + 51 + c)))
    for i, (nm, _) in enumerate(row_facts(P, o, I(0))):
        P.ensure('every full row: ' + nm, FA([q], Imp(z3.And(0 <= q, q < R), row_facts(P, o, q)[i][1]), [row(q)]))
    P.ensure('rows are separated by a newline and the indent', FA([q], Imp(z3.And(0 < q, 16 * q < ln), gap(P, o, q)), [row(q)]))
    b = row(R)
    for t in range(16):
        x = src(P, S(16 * R + t))
        P.ensure('last row: byte %d' % t, Imp(t < c, z3.And(Sel(o, b + 3 * t) == hexd(x / 16), Sel(o, b + 3 * t + 1) == hexd(x % 16), Sel(o, b + 3 * t + 2) == 32, Sel(o, b + 50 + t) == dot(x))))
        P.ensure('last row: column %d is blank' % t, Imp(z3.And(c > 0, t >= c), z3.And([Sel(o, b + 3 * t + i) == 32 for i in range(3)])))
    P.ensure('last row: bars', Imp(c > 0, z3.And(Sel(o, b + 48) == 32, Sel(o, b + 49) == 124, Sel(o, b + 50 + c) == 124)))
    frame(P, lambda a: z3.BoolVal(False), 'only the buffer changes')
SPECS = [
    Spec('cork_buffer_append_hex_dump', pre_h, post_h, inv_h, calls=dict(OUTH, cork_buffer_append_printf=h_row), quick_ms=2000),
    Spec('cork_buffer_append_c_string', pre_c, post_render(cw, ce, True), inv_render(cw, ce, 1), calls=OUTH),
    Spec('cork_buffer_append_multiline', pre_m, post_render(mw, me, False), inv_render(mw, me, 0), calls=OUTH),
    Spec('cork_buffer_append_binary', pre_b, post_b, inv_b, calls={'cork_buffer_append': b_append, 'cork_buffer_append_indent': b_call('indent'), 'cork_buffer_append_hex_dump': b_call('hex'), 'cork_buffer_append_multiline': b_call('multi')}),
]
ASSUME = ['printf with %02x writes two lowercase hexadecimal digits (ISO C)', 'the input bytes do not lie in the buffer being changed']
