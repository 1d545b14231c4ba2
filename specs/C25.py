"""C25: the error state of a thread is a code and a message.  Buffers follow their contracts (C05): a ghost map gives the
content of each buffer as a term over the texts it was built from.  The state is either not created yet, or an arbitrary
code with the message in either of the two buffers."""
from lvc.spec import *
from lvc import libc
import re
from .common import ALLOC, frame
S = z3.simplify
IA = z3.ArraySort(z3.IntSort(), z3.IntSort())
STR, MEM, FMT, CAT = [z3.Function(n, *([z3.IntSort()] * k)) for n, k in (('str_text', 2), ('mem_text', 3), ('fmt_text', 3), ('cat', 3))]
EMPTY = I(0)
O = lambda P, f: P.off('cork_error', f)
BUFS = ('buf1', 'buf2')
def cat(a, b): return z3.If(a == EMPTY, b, z3.If(b == EMPTY, a, CAT(a, b)))
def content(P, b): return Sel(P.gget('content'), b)
def put(P, b, v): P.gset('content', z3.Store(P.gget('content'), b, v))
def buf(P, b):
    P.ex.check_range(P.st, b, I(P.sizeof('cork_buffer')), True, 'buffer')
    # what the buffer structure holds may change
    P.ex.havoc_ranges(P.st, [(b, I(P.sizeof('cork_buffer')))], [8])
def vtext(P, fmt, args):
    """the text of a format and an argument list; the list of a variadic function is its own, that of a v-function the one given"""
    va = P.g.get('va')
    if va is not None: P.require('the argument list is passed on', args == va)
    return FMT(fmt, I(0))
def h_set(mk):
    def h(P, a, ins): v = mk(P, a); buf(P, a[0]); put(P, a[0], v)
    return h
def h_app(mk):
    def h(P, a, ins): v = mk(P, a); v = cat(content(P, a[0]), v); buf(P, a[0]); put(P, a[0], v)
    return h
str_ = lambda P, a: STR(a[1]); mem = lambda P, a: MEM(a[1], a[2]); fmt = lambda P, a: vtext(P, a[1], a[2]); other = lambda P, a: content(P, a[1])
def printf(P, a): return FMT(a[1], I(1))
BUFFER = dict(cork_buffer_init=h_set(lambda P, a: EMPTY), cork_buffer_clear=h_set(lambda P, a: EMPTY), cork_buffer_done=h_set(lambda P, a: I(-1)),
              cork_buffer_set_string=h_set(str_), cork_buffer_set=h_set(mem), cork_buffer_vprintf=h_set(fmt), cork_buffer_copy=h_set(other), cork_buffer_append_string=h_app(str_), cork_buffer_append=h_app(mem), cork_buffer_append_vprintf=h_app(fmt), cork_buffer_append_copy=h_app(other))
def h_strerror(P, a, ins):
    P.log('strerror', a[0]); P.gset('strerror', a[0]); return STRERR(a[0])
STRERR = z3.Function('strerror_text', z3.IntSort(), z3.IntSort())
def h_errno(P, a, ins): return P.g['errno']
def h_cleanup(P, a, ins): return None
CALLS = dict(ALLOC, strerror=h_strerror, __errno_location=h_errno, cork_cleanup_at_exit=h_cleanup, cork_cleanup_at_exit_named=h_cleanup, **BUFFER)
def tls(P):
    m = P.mod(); l = [g for g in m.globals if 'thread_local' in P.ex.prog.text[src(P, m)].split('\n@"%s" = ' % g)[-1].split('\n')[0] or re.search(r'^@%s = [^\n]*thread_local' % re.escape(g), P.ex.prog.text[src(P, m)], re.M)]
    if len(l) != 1: raise ToolLimit('the thread-local error slot')
    return P.address(l[0])

def src(P, m): return [s for s in P.ex.prog.srcs if s in P.ex.prog.mods and P.ex.prog.mods[s] is m][0]
def pre(kind, va=None):
    def f(P):
        P.st.ghost['content'] = z3.Const('content', IA); P.st.ghost['strerror'] = I(0); P.g['kind'] = kind
        P.g['va'] = P.args[va] if va is not None else None
        slot = tls(P); P.g['slot'] = slot
        e = P.o8(slot); P.g['errno'] = z3.Int('errno_location'); P.assume(P.g['errno'] > 0); P.region('errno', P.g['errno'], 4, ('words', 4))
        P.init_log('strerror', 1)
        if kind == 'none': P.assume(e == 0); return
        P.rec('error', e, 'cork_error', heap=True)
        m, o = (e + O(P, 'buf1'), e + O(P, 'buf2'))
        if kind == 'swapped': m, o = o, m
        P.assume(P.o8(e + O(P, 'message')) == m); P.assume(P.o8(e + O(P, 'other')) == o)
        P.g.update(e=e)
    return f
def now(P, old=False):
    """(code, message text, address of the state)"""
    rd8, rd4 = (P.o8, P.o4) if old else (P.r8, P.r4)
    e = rd8(P.g['slot'])
    c = z3.Const('content', IA) if old else P.gget('content')
    return rd4(e + O(P, 'code')), Sel(c, rd8(e + O(P, 'message'))), e
def before(P): return (I(0), EMPTY) if P.g['kind'] == 'none' else now(P, True)[:2]
def state(P, code, msg):
    c, m, e = now(P); b = [e + O(P, x) for x in BUFS]; ms, ot = P.r8(e + O(P, 'message')), P.r8(e + O(P, 'other'))
    P.ensure('the error code', c == code)
    if msg is not None: P.ensure('the error message', m == msg)
    P.ensure('the message and the spare text are in different buffers of the error state', z3.Or(z3.And(ms == b[0], ot == b[1]), z3.And(ms == b[1], ot == b[0])))
    if P.g['kind'] != 'none':
        P.ensure('the same error state', e == P.g['e'])
        P.ensure('the link to the next state is kept', P.r8(e + O(P, 'next')) == P.o8(e + O(P, 'next')))
        frame(P, lambda a: z3.And(e <= a, a < e + P.sizeof('cork_error')))
    else:
        rs = [r for t, r in P.st.regions.items() if not r.family and r.heap]
        P.ensure('a live error state', z3.Or([z3.And(r.lo == e, r.size == P.sizeof('cork_error')) for r in rs] + [z3.BoolVal(False)]))
GL = ('*',)
SPECS = []
KINDS = (('none', 'first use in the thread'), ('plain', 'message in the first buffer'), ('swapped', 'message in the second buffer'))
def add(fn, post, va=None, kinds=KINDS, **kw):
    for k, w in kinds: SPECS.append(Spec(fn, pre(k, va), post, label='%s (%s)' % (fn, w), calls=CALLS, globals=GL, **kw))
def query(val):
    def post(P, rv):
        c, m = before(P); val(P, rv, c); state(P, c, m)
        if P.g['kind'] != 'none': frame(P, lambda a: z3.BoolVal(False), 'asking changes nothing')
    return post
add('cork_error_occurred', query(lambda P, rv, c: P.ensure('an error occurred exactly when there is a code', (rv != 0) == (c != 0))))
add('cork_error_code', query(lambda P, rv, c: P.ensure('the code last given', rv == c)))
add('cork_error_message', query(lambda P, rv, c: P.ensure('the text of the message buffer', rv == P.r8(P.r8(now(P)[2] + O(P, 'message')) + P.off('cork_buffer', 'buf')))))
add('cork_error_clear', lambda P, rv: state(P, I(0), EMPTY))
add('cork_error_set_string', lambda P, rv: state(P, P.args[0], STR(P.args[1])))
add('cork_error_set_printf', lambda P, rv: state(P, P.args[0], FMT(P.args[1], I(0))))
add('cork_error_set_vprintf', lambda P, rv: state(P, P.args[0], FMT(P.args[1], I(0))), va=2)
def pfx(k):
    def post(P, rv): c, m = before(P); state(P, c, cat(STR(P.args[0]) if k == 's' else FMT(P.args[0], I(0)), m))
    return post
add('cork_error_prefix_string', pfx('s')); add('cork_error_prefix_printf', pfx('f')); add('cork_error_prefix', pfx('f')); add('cork_error_prefix_vprintf', pfx('f'), va=1)
add('cork_error_set', lambda P, rv: state(P, (P.args[0] + P.args[1]) % (1 << 32), FMT(P.args[2], I(0))))
add('cork_system_error_set_explicit', lambda P, rv: state(P, P.args[0], STR(STRERR(P.args[0]))))
def post_sys(P, rv): n = P.o4(P.g['errno']); state(P, n, STR(STRERR(n)))
add('cork_system_error_set', post_sys)
def post_unknown(P, rv):
    c, m, e = now(P); P.ensure('the message names the location', z3.And(P.gget('fmtargs') == P.args[0])) if 'fmtargs' in P.st.ghost else None; state(P, I(0x8cb0880d), None)
add('cork_unknown_error_set_', post_unknown)
LEAKS = False
TRUSTED = ['buffer contracts (proved by C05): set, append, copy, clear and the printf family leave exactly the text given', 'strerror returns the text of the error number', 'cork_cleanup_at_exit only registers (C29)']
ASSUME = ['strings given are not part of the error state itself', 'thread-local storage gives each thread its own slot (compiler and C library)', 'the list of all error states is only walked at exit; its concurrent updates are not modelled (C31)']
