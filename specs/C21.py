"""C21: timestamp formatting.  The format text determines its conversions: PCT(k) is the position of the k-th percent sign (the
first one at or after the end of the previous conversion), END(k) that of the first non-digit after it, VAL(k, j) the number
that its first j digits denote.  Every piece of output must be the next one the format asks for."""
from lvc.spec import *
from lvc import libc
from .common import *
import re
S = z3.simplify; Z = z3.IntSort(); PCT, END = [z3.Function(n, Z, Z) for n in ('PCT', 'END')]; VAL = z3.Function('VAL', Z, Z, Z); cm = z3.Int('conversions'); k_, j_ = z3.Ints('k!f j!f')
nothing = lambda q: z3.BoolVal(False); EINVAL = 22
FIELDS = {'Y': ('tm_year', 1900, 4), 'm': ('tm_mon', 1, 2), 'd': ('tm_mday', 0, 2), 'H': ('tm_hour', 0, 2), 'M': ('tm_min', 0, 2), 'S': ('tm_sec', 0, 2)}
RANGE = dict(tm_year=(-100, 300), tm_mon=(0, 11), tm_mday=(1, 31), tm_hour=(0, 23), tm_min=(0, 59), tm_sec=(0, 60))
def begin(k): return z3.If(k <= 0, I(0), END(k - 1) + 1)
def letter(P, k): return P.o1(P.g['f'] + END(k))
def num(k): return VAL(k, END(k) - PCT(k) - 1)
def good(P, k):
    c = letter(P, k); return z3.Or([c == ord(x) for x in 'YmdHMSs%'] + [z3.And(c == ord('f'), num(k) >= 1, num(k) <= 9)])
def facts(P, k, n):
    """what holds of the k-th conversion"""
    f = P.g['f']; d = P.o1(f + END(k))
    return z3.And(begin(k) >= 0, Imp(k < cm, z3.And(PCT(k) >= begin(k), PCT(k) < n, P.o1(f + PCT(k)) == 37, END(k) > PCT(k), END(k) <= n, z3.Or(d < 48, d > 57), d >= 0, d < 256, VAL(k, 0) == 0)), Imp(k >= 1, begin(k) <= n + 1))
def pre(P):
    ts, tm, f, dest = P.args; n = z3.Int('len_format'); P.g.update(f=f, n=n); P.assume(z3.And(0 <= n, n < 1 << 60)); P.region('format', f, S(n + 1), ('bytes',), False); a = z3.Int('a!z')
    P.assume(z3.And(P.o1(S(f + n)) == 0, FA([a], Imp(z3.And(f <= a, a < f + n), P.o1(a) != 0), [P.o1(a)]))); P.rec('tm', tm, 'tm', False)
    for fld, (lo, hi) in RANGE.items(): v = P.r4(tm + P.off('tm', fld)); s = z3.If(v >= 1 << 31, v - (1 << 32), v); P.assume(z3.And(s >= lo, s <= hi, v >= 0, v < 1 << 32))
    P.assume(cm >= 0); P.assume(FA([k_], Imp(z3.And(0 <= k_, k_ < cm), z3.And(facts(P, k_, n))), [PCT(k_)]))
    P.assume(FA([k_, j_], Imp(z3.And(0 <= k_, k_ < cm, 0 <= j_, j_ < END(k_) - PCT(k_) - 1), z3.And(P.o1(f + PCT(k_) + 1 + j_) >= 48, P.o1(f + PCT(k_) + 1 + j_) <= 57, VAL(k_, j_ + 1) == 10 * VAL(k_, j_) + P.o1(f + PCT(k_) + 1 + j_) - 48)), [VAL(k_, j_)]))
    P.st.ghost.update(k=I(0), lit=I(0), tail=I(0), err=I(0))
def here(P):
    k = P.gget('k'); P.assume(facts(P, k, P.g['n'])); return k
def h_strchr(P, a, ins):
    k = here(P); P.require('the rest of the format', z3.And(a[0] == P.g['f'] + begin(k), begin(k) <= P.g['n'])); P.require('a percent sign', a[1] == 37); P.require('nothing is pending', P.gget('lit') == 0); return S(z3.If(k < cm, P.g['f'] + PCT(k), 0))
def out(P, d): P.require('to the destination', d == P.args[3]); P.require('no error so far', P.gget('err') == 0); P.require('before the end', P.gget('tail') == 0)
def conversion(P, k): P.require('the text before it was copied', z3.And(k < cm, z3.Or(P.gget('lit') == 1, PCT(k) == begin(k)))); P.gset('k', S(k + 1)); P.gset('lit', I(0))
def h_append(P, a, ins):
    out(P, a[0]); k = here(P); t = P.ex.cstring_at(P.st, a[1])
    if t is not None:
        P.require('one percent sign for a doubled one', z3.And(z3.BoolVal(bytes(t)[:1] == b'%'), a[2] == 1, k < cm, letter(P, k) == 37)); conversion(P, k); return None
    P.require('the text before the next conversion', z3.And(k < cm, P.gget('lit') == 0, a[1] == P.g['f'] + begin(k), a[2] == PCT(k) - begin(k))); P.gset('lit', I(1)); return None
def h_tail(P, a, ins):
    out(P, a[0]); k = here(P); P.require('the text after the last conversion', z3.And(k == cm, P.gget('lit') == 0, a[1] == P.g['f'] + begin(k), begin(k) <= P.g['n'])); P.gset('tail', I(1)); return None
def parse(t):
    m = re.fullmatch(rb'%(0?)(\*|\d*)(?:\.(\d+))?(l|ll|j|z|)([dui])', bytes(t))
    if not m: raise ToolLimit('output format')
    return m
def h_printf(P, a, ins):
    out(P, a[0]); k = here(P); t = P.ex.cstring_at(P.st, a[1])
    if t is None: raise ToolLimit('output format')
    m = parse(t.rstrip(b'\0') if isinstance(t, bytes) else bytes(t).rstrip(b'\0')); z, w, p, ln, ty = m.groups(); tm = P.args[1]; c = letter(P, k)
    if w == b'*': raise ToolLimit('output format')
    width = int(p) if p else int(w) if w and z else 0; v = a[2] if ln else S(a[2] % (1 << 32)); ok = []
    for L, (fld, add, wd) in FIELDS.items():
        if wd == width: x = P.o4(tm + P.off('tm', fld)); ok.append(z3.And(c == ord(L), v == (x + add) % (1 << 32)))
    if width == 0: ok.append(z3.And(c == ord('s'), v == P.args[0] / (1 << 32), z3.BoolVal(ty == b'u') if not ln else z3.BoolVal(True)))
    P.require('the value and the digits the conversion asks for', z3.And(k < cm, z3.Or(ok + [z3.BoolVal(False)]))); conversion(P, k); return None
def h_frac(P, a, ins):
    k = here(P); P.require('the timestamp', a[0] == P.args[0]); P.require('the width of the conversion', z3.And(k < cm, letter(P, k) == ord('f'), Imp(z3.Or(a[1] <= 9, num(k) <= 9), a[1] == num(k)))); out(P, a[2]); s2 = P.st.clone(); P2 = P.at(s2)
    conversion(P, k); P.assume(z3.And(num(k) >= 1, num(k) <= 9)); P2.assume(z3.Not(z3.And(a[1] >= 1, a[1] <= 9))); P2.gset('err', I(1)); return Fork([(P.st, I(0)), (s2, I((1 << 32) - 1))])
def h_err(P, a, ins): k = here(P); P.require('only for a conversion that is not supported', z3.And(k < cm, z3.Not(good(P, k)))); P.require('an invalid argument', a[0] == EINVAL); P.require('reported once', P.gget('err') == 0); P.gset('err', I(1)); return None
CALLS = dict(ALLOC, strchr=h_strchr, cork_buffer_append=h_append, cork_buffer_append_string=h_tail, cork_buffer_append_printf=h_printf, append_fractional=h_frac, cork_error_set_string=h_err, cork_error_set_printf=h_err)
def inv(L):
    P = L.ctx; g = lambda L, n: L.ctx.gget(n); f = P.g['f']
    o = [('between conversions', lambda L: z3.And(g(L, 'lit') == 0, g(L, 'tail') == 0, g(L, 'err') == 0, g(L, 'k') == L.k, L.k >= 0, L.k <= cm, begin(L.k) >= 0, Imp(L.k >= 1, z3.And(begin(L.k) <= P.g['n'], good(P, L.k - 1)))) ),
         ('all conversions so far were supported', lambda L: FA([k_], Imp(z3.And(0 <= k_, k_ < g(L, 'k')), good(P, k_)), [END(k_)]))]
    for p in L.ptrs(): o.append(('%s = k-th start' % p, lambda L, p=p: L.val(p) == f + begin(L.k)))
    for p in L.ptrs():
        o.append(('%s = k-th percent sign' % p, lambda L, p=p: L.val(p) == z3.If(g(L, 'k') < cm, f + PCT(g(L, 'k')), 0)))
    # the digits of a conversion
    o.append(('in a conversion', lambda L: z3.And(g(L, 'tail') == 0, g(L, 'err') == 0, g(L, 'k') >= 0, g(L, 'k') < cm, L.k >= 0, L.k <= END(g(L, 'k')) - PCT(g(L, 'k')) - 1, facts(P, g(L, 'k'), P.g['n']))))
    o.append(('the text before is copied', lambda L: g(L, 'lit') == 1)); o.append(('a number so far', lambda L: z3.And(VAL(g(L, 'k'), L.k) >= 0, L.k >= 0)))
    for p in L.ptrs():
        o.append(('%s = j-th digit' % p, lambda L, p=p: z3.And(L.val(p) == f + PCT(g(L, 'k')) + 1 + L.k, VAL(g(L, 'k'), L.k) >= 0)))
    for w in L.ints(): o.append(('%s = the number so far' % w, lambda L, w=w: Imp(z3.Or(L.val(w) <= 9, VAL(g(L, 'k'), L.k) <= 9), L.val(w) == VAL(g(L, 'k'), L.k))))
    def cell(L, nm): a = L.cells(4).get(nm); x = P.at(L.st).r4(a) if a is not None else L.ctx.ex.ops.fresh('cell', 64); return Imp(z3.Or(x <= 9, VAL(g(L, 'k'), L.k) <= 9), x == VAL(g(L, 'k'), L.k))
    for nm in L.cells(4): o.append(('*%s = the number so far' % nm, lambda L, nm=nm: cell(L, nm)))
    return o
def post(P, rv):
    k = P.gget('k'); P.assume(facts(P, k, P.g['n'])); P.ensure('fails exactly when an error is set', (rv != 0) == (P.gget('err') == 1)); P.ensure('a failure is at the first conversion that is not supported', Imp(rv != 0, z3.And(k < cm, z3.Not(good(P, k)))))
    P.ensure('otherwise everything was written', Imp(rv == 0, z3.And(k == cm, P.gget('tail') == 1))); x = z3.Int('x!p'); P.ensure('every conversion written is supported', FA([x], Imp(z3.And(0 <= x, x < k), good(P, x)), [END(x)])); frame(P, nothing)
SPECS = [Spec('cork_timestamp_format_parts', pre, post, inv=inv, calls=CALLS)]
# the fraction, for every width
def h_fprintf(P, a, ins):
    P.require('to the destination', a[0] == P.args[2]); t = P.ex.cstring_at(P.st, a[1])
    if t is None: raise ToolLimit('output format')
    m = parse(bytes(t).rstrip(b'\0')); z, w, p, ln, ty = m.groups()
    if w != b'*' or p or not ln: raise ToolLimit('output format')
    P.require('padded with zeros', z3.BoolVal(z == b'0')); P.log('digits', a[2], a[3]); return None
def h_ferr(P, a, ins): P.require('an invalid argument', a[0] == EINVAL); P.log('error', a[0]); return None
def pre_frac(w):
    def f(P):
        P.init_log('digits', 2); P.init_log('error', 1); P.assume(P.args[1] == w if w is not None else z3.Or(P.args[1] == 0, P.args[1] > 9))
    return f
def post_frac(w):
    def f(P, rv):
        if w is None: P.ensure('rejected', z3.And(rv != 0, P.loglen('error') == 1, P.loglen('digits') == 0)); return
        d = 10 ** w; g = P.args[0] % (1 << 32); v = P.logat('digits', I(0), 1); P.ensure('succeeds', z3.And(rv == 0, P.loglen('error') == 0)); P.ensure('written once, in that many digits', z3.And(P.loglen('digits') == 1, P.logat('digits', I(0), 0) % (1 << 32) == w))
        P.ensure('they are enough', z3.And(v >= 0, v < d)); P.ensure('the fraction, rounded to that many digits', z3.And(v * (1 << 32) - g * d <= 1 << 31, z3.Or(v * (1 << 32) - g * d > -(1 << 31) - d, v == d - 1)))
    return f
for w in list(range(1, 10)) + [None]: SPECS.append(Spec('append_fractional', pre_frac(w), post_frac(w), label='append_fractional (%s)' % ('any other width' if w is None else 'width %d' % w), unroll=True, calls=dict(ALLOC, cork_buffer_append_printf=h_fprintf, cork_error_set_printf=h_ferr, cork_error_set_string=h_ferr)))
# the calendar
def h_time(local):
    def h(P, a, ins):
        P.require('the seconds of the timestamp', P.r8(a[0]) == P.args[0] / (1 << 32)); n = P.sizeof('tm'); P.ex.check_range(P.st, a[1], I(n), True, 'calendar fields'); P.ex.havoc_ranges(P.st, [(a[1], I(n))], [4, 8]); P.log('calendar', a[1], I(1 if local else 0)); return a[1]
    return h
def h_parts(P, a, ins):
    P.require('the fields just computed', z3.And(P.loglen('calendar') == 1, P.logat('calendar', I(0), 0) == a[1])); P.require('the timestamp, the format and the destination', z3.And(a[0] == P.args[0], a[2] == P.args[1], a[3] == P.args[2])); r = P.fresh('rc', 32); P.log('parts', r); return r
def pre_cal(P): P.init_log('calendar', 2); P.init_log('parts', 1)
def post_cal(local):
    def f(P, rv): P.ensure('formatted once, with the calendar asked for', z3.And(P.loglen('parts') == 1, P.logat('calendar', I(0), 1) == (1 if local else 0))); P.ensure('and its result returned', rv == P.logat('parts', I(0), 0))
    return f
for fn, local in (('cork_timestamp_format_utc', False), ('cork_timestamp_format_local', True)):
    SPECS.append(Spec(fn, pre_cal, post_cal(local), calls=dict(ALLOC, gmtime_r=h_time(False), localtime_r=h_time(True), cork_timestamp_format_parts=h_parts)))
TRUSTED = ['gmtime_r, localtime_r, strchr and printf of integers (C library)', 'buffers and error state at the level of their contracts (C05, C25)']
ASSUME = ['calendar fields are in the ranges of the C library', 'the format is not the text of the destination']
DRIVER_LIBS = []
