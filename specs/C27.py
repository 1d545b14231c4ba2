"""C27: stream producers and consumers.  STREAM(i) is the i-th byte the descriptor or file gives; `pos` of them have been
read and `delivered` of them were given to the consumer."""
from lvc.spec import *
from lvc import libc
from .common import *
S = z3.simplify; Z = z3.IntSort(); STREAM = z3.Function('STREAM', Z, Z); EINTR = 4
def so(P, f): return P.off('cork_stream_consumer', f)
nothing = lambda q: z3.BoolVal(False)
def start(P):
    P.st.ghost.update(pos=I(0), delivered=I(0), ateof=I(0), failed=I(0), eofs=I(0), errset=I(0), last=I(0), rc=I(0), open=I(0), closed=I(0), written=I(0))
    e = z3.Int('errno_location'); P.g['errno'] = e; P.assume(e > 0); P.region('errno', e, 4, ('words', 4))
def h_errno(P, a, ins): return P.g['errno']
def seterr(P, v): P.ex.hwrite(P.st, 4, P.g['errno'], v)
def fails(P, ws=32):
    """-1 with some errno: one state each for an interruption and any other error"""
    s1, s2 = P.st.clone(), P.st.clone(); P1, P2 = P.at(s1), P.at(s2); seterr(P1, I(EINTR)); v = P2.fresh('errno', 31); P2.assume(v != EINTR); seterr(P2, v); P2.gset('failed', I(1)); m1 = I((1 << ws) - 1)
    return [(s1, m1), (s2, m1)]
def give(P, buf, r):
    pos = P.gget('pos'); P.ex.range_update(P.st, buf, r, lambda w, q: STREAM(q - buf + pos), {1}); P.gset('pos', S(pos + r)); P.gset('last', r)
def h_read(P, a, ins):
    P.require('from the descriptor', a[0] == P.args[1]); P.require('nothing failed before', z3.And(P.gget('failed') == 0, P.gget('ateof') == 0)); P.require('all bytes read so far were delivered', P.gget('delivered') == P.gget('pos'))
    P.ex.check_range(P.st, a[1], a[2], True, 'read buffer'); P.require('room for a byte', a[2] >= 1)
    out = fails(P, 64); s0 = P.st.clone(); P0 = P.at(s0); P0.gset('ateof', I(1)); out.append((s0, I(0)))
    r = P.fresh('read', 62); P.assume(z3.And(1 <= r, r <= a[2])); give(P, a[1], r); out.append((P.st, r)); return Fork(out)
def h_fread(P, a, ins):
    P.require('from the file', a[3] == P.args[1]); P.require('nothing failed before', z3.And(P.gget('failed') == 0, P.gget('ateof') == 0)); P.require('all bytes read so far were delivered', P.gget('delivered') == P.gget('pos'))
    n = S(a[1] * a[2]); P.ex.check_range(P.st, a[0], n, True, 'read buffer'); P.require('bytes are counted', a[1] == 1); P.require('room for a byte', n >= 1)
    out = [(s, I(0)) for s, _ in fails(P, 64)]; s0 = P.st.clone(); P0 = P.at(s0); P0.gset('ateof', I(1)); seterr(P0, P0.fresh('errno', 31)); out.append((s0, I(0)))
    r = P.fresh('read', 62); P.assume(z3.And(1 <= r, r <= n)); give(P, a[0], r); out.append((P.st, r)); return Fork(out)
def h_feof(P, a, ins): P.require('the file', a[0] == P.args[1]); return P.gget('ateof')
def h_syserr(P, a, ins): P.require('after a failure', P.gget('failed') == 1); P.gset('errset', I(1)); return None
def ind(P, fp, a, ins):
    c = P.args[0]; d, e = P.o8(c + so(P, 'data')), P.o8(c + so(P, 'eof'))
    if len(a) == 4:
        P.require('the consumer\'s data method', z3.And(fp == d, a[0] == c)); dl = P.gget('delivered'); P.require('nothing failed, and the stream has not ended', z3.And(P.gget('failed') == 0, P.gget('ateof') == 0))
        P.require('every byte read and not delivered yet', z3.And(a[2] == P.gget('last'), dl + a[2] == P.gget('pos'), a[2] >= 1)); j = z3.Int('j!d')
        P.require('in order, unchanged', Imp(z3.And(0 <= j, j < a[2]), P.r1(a[1] + j) == STREAM(dl + j))); P.require('flagged as the first chunk exactly when it is', a[3] == z3.If(dl == 0, 1, 0))
        r = P.fresh('rc', 32); P.gset('delivered', S(dl + a[2])); P.gset('failed', S(z3.If(r == 0, 0, 1))); P.gset('rc', r); return r
    P.require('the consumer\'s end-of-file method', z3.And(fp == e, a[0] == c)); P.require('at the end of the stream, everything delivered', z3.And(P.gget('ateof') == 1, P.gget('delivered') == P.gget('pos'), P.gget('failed') == 0)); P.gset('eofs', S(P.gget('eofs') + 1))
    r = P.fresh('rc', 32); P.gset('rc', r); return r
def pre_consume(P):
    start(P); P.rec('consumer', P.args[0], 'cork_stream_consumer', False)
def inv_consume(L):
    g = lambda L, x: L.ctx.gget(x)
    out = [('all delivered', lambda L: z3.And(g(L, 'delivered') == g(L, 'pos'), g(L, 'pos') >= 0)), ('not failed', lambda L: z3.And(g(L, 'failed') == 0, g(L, 'ateof') == 0, g(L, 'eofs') == 0, g(L, 'errset') == 0))]
    for p in L.ints(): out.append(('%s = first' % p, lambda L, p=p: L.val(p) == z3.If(g(L, 'pos') == 0, 1, 0)))
    return out
def post_consume(P, rv):
    P.ensure('ends with one end-of-file notification, or a failure', z3.Or(z3.And(P.gget('eofs') == 1, P.gget('failed') == 0), z3.And(P.gget('eofs') == 0, P.gget('failed') == 1)))
    P.ensure('everything read was delivered', P.gget('delivered') == P.gget('pos')); P.ensure('the result of the end-of-file method is returned', Imp(P.gget('eofs') == 1, rv == P.gget('rc'))); P.ensure('a failure is reported', Imp(P.gget('failed') == 1, rv != 0))
    P.ensure('a read error sets the error', Imp(z3.And(P.gget('failed') == 1, P.gget('rc') == 0), P.gget('errset') == 1)); frame(P, lambda q: z3.And(P.g['errno'] <= q, q < P.g['errno'] + 4))
CALLS = dict(ALLOC, __errno_location=h_errno, read=h_read, fread=h_fread, fread_unlocked=h_fread, feof=h_feof, cork_system_error_set=h_syserr)
SPECS = [Spec('cork_consume_fd', pre_consume, post_consume, calls=CALLS, indirect=ind, inv=inv_consume), Spec('cork_consume_file', pre_consume, post_consume, calls=CALLS, indirect=ind, inv=inv_consume)]
# opening and closing
def h_open(P, a, ins):
    P.require('the path and the flags', z3.And(a[0] == P.args[P.g['path']], a[1] == P.args[P.g['path'] + 1])); P.require('not open yet', P.gget('open') == 0); out = fails(P); r = P.fresh('fd', 31); P.gset('open', I(1)); P.g['fd'] = r; P.gset('fdv', r); return Fork(out + [(P.st, r)])
def h_close(P, a, ins):
    P.require('the descriptor that was opened', z3.And(P.gget('open') == 1, a[0] == P.gget('fdv'))); P.require('closed once', P.gget('closed') == 0); out = fails(P)
    P.at(out[1][0]).gset('closed', I(1)); P.gset('closed', I(1)); return Fork(out + [(P.st, I(0))])
def h_cfd(P, a, ins):
    P.require('the consumer', a[0] == P.args[0]); P.require('the open descriptor', z3.And(P.gget('open') == 1, P.gget('closed') == 0, a[1] == P.gget('fdv'))); P.require('consumed once', P.gget('eofs') == 0); P.gset('eofs', I(1))
    r = P.fresh('rc', 32); P.gset('rc', r); P.gset('failed', S(z3.If(r == 0, 0, 1))); return r
def pre_path(P): start(P); P.g['path'] = 1; P.st.ghost['fdv'] = I(0)
def inv_path(L):
    g = lambda L, x: L.ctx.gget(x)
    return [('not opened', lambda L: g(L, 'open') == 0), ('opened', lambda L: g(L, 'open') == 1), ('not closed', lambda L: g(L, 'closed') == 0), ('not consumed', lambda L: g(L, 'eofs') == 0), ('consumed', lambda L: g(L, 'eofs') == 1), ('no failure', lambda L: g(L, 'failed') == 0), ('failure', lambda L: g(L, 'failed') == 1), ('no error', lambda L: g(L, 'errset') == 0)] + \
           [('%s = the descriptor' % p, lambda L, p=p: L.val(p) == g(L, 'fdv')) for p in L.ints()]
def post_path(P, rv):
    P.ensure('what was opened is closed, once', P.gget('closed') == P.gget('open')); P.ensure('what was opened is consumed', P.gget('eofs') == P.gget('open')); P.ensure('succeeds exactly when nothing failed', (rv == 0) == (P.gget('failed') == 0)); frame(P, lambda q: z3.And(P.g['errno'] <= q, q < P.g['errno'] + 4))
SPECS.append(Spec('cork_consume_file_from_path', pre_path, post_path, calls=dict(CALLS, open=h_open, close=h_close, cork_consume_fd=h_cfd), inv=inv_path))
# consumers
def pre_fdd(P): start(P); P.rec('self', P.args[0], 'cork_fd_consumer', False); P.region('buf', P.args[1], P.args[2], ('bytes',), False); P.assume(P.args[2] < 1 << 62)
def h_write(P, a, ins):
    b, n = P.args[1], P.args[2]; w = P.gget('written'); P.require('to the descriptor of the consumer', a[0] == P.r4(P.args[0] + P.off('cork_fd_consumer', 'fd'))); P.require('the bytes not written yet, in order', z3.And(a[1] == b + w, w + a[2] <= n, a[2] >= 1, P.gget('failed') == 0))
    P.ex.check_range(P.st, a[1], a[2], False, 'write buffer'); out = fails(P, 64); r = P.fresh('written', 62); P.assume(r <= a[2]); P.gset('written', S(w + r)); return Fork(out + [(P.st, r)])
def inv_write(L):
    P = L.ctx; g = lambda L, x: L.ctx.gget(x); out = [('written', lambda L: z3.And(0 <= g(L, 'written'), g(L, 'written') <= P.args[2])), ('no failure', lambda L: z3.And(g(L, 'failed') == 0, g(L, 'errset') == 0))]
    for p in L.ptrs(): out.append(('%s = rest' % p, lambda L, p=p: L.val(p) == P.args[1] + g(L, 'written')))
    for p in L.ints(): out += [('%s = left' % p, lambda L, p=p: L.val(p) == P.args[2] - g(L, 'written')), ('%s = done' % p, lambda L, p=p: L.val(p) == g(L, 'written'))]
    return out
def post_write(P, rv):
    f = P.gget('failed'); P.ensure('everything is written, or a failure is reported', z3.If(f == 0, z3.And(rv == 0, P.gget('written') == P.args[2]), rv != 0)); P.ensure('a failure sets the error', Imp(f == 1, P.gget('errset') == 1)); frame(P, lambda q: z3.And(P.g['errno'] <= q, q < P.g['errno'] + 4))
SPECS.append(Spec('cork_fd_consumer__data', pre_fdd, post_write, calls=dict(CALLS, write=h_write), inv=inv_write))
def pre_fd(P): start(P); P.rec('self', P.args[0], 'cork_file_consumer', False); P.region('buf', P.args[1], P.args[2], ('bytes',), False); P.assume(P.args[2] < 1 << 62)
def h_fwrite(P, a, ins):
    P.require('to the file of the consumer', a[3] == P.r8(P.args[0] + P.off('cork_file_consumer', 'fp'))); P.require('all bytes, once', z3.And(a[0] == P.args[1], a[1] * a[2] == P.args[2], a[1] == 1, P.gget('written') == 0)); P.ex.check_range(P.st, a[0], S(a[1] * a[2]), False, 'write buffer')
    r = P.fresh('written', 62); P.assume(r <= a[2]); P.gset('written', r); P.gset('failed', S(z3.If(r == a[2], 0, 1))); return r
SPECS.append(Spec('cork_file_consumer__data', pre_fd, post_write, calls=dict(CALLS, fwrite=h_fwrite)))
def pre_eofc(P): start(P); P.rec('self', P.args[0], 'cork_fd_consumer', False); P.st.ghost['open'] = I(1); P.st.ghost['fdv'] = P.r4(P.args[0] + P.off('cork_fd_consumer', 'fd'))
def post_eofc(P, rv): P.ensure('the descriptor is closed once', P.gget('closed') == 1); P.ensure('reports a failure to close', (rv == 0) == (P.gget('failed') == 0)); frame(P, lambda q: z3.And(P.g['errno'] <= q, q < P.g['errno'] + 4))
SPECS.append(Spec('cork_fd_consumer__eof_close', pre_eofc, post_eofc, calls=dict(CALLS, close=h_close), inv=inv_path))
SPECS.append(Spec('cork_file_consumer__eof', lambda P: start(P), lambda P, rv: (P.ensure('nothing to do', rv == 0), frame(P, nothing)), calls=CALLS))
def freer(fn, rec): SPECS.append(Spec(fn, lambda P: (start(P), P.rec('self', P.args[0], rec, heap=True)), lambda P, rv: P.ensure('the consumer is released', z3.BoolVal(not [t for t, r in P.st.regions.items() if r.heap])), calls=CALLS))
freer('cork_file_consumer__free', 'cork_file_consumer'); freer('cork_fd_consumer__free', 'cork_fd_consumer'); freer('cork_buffer_stream_consumer_free', 'cork_buffer__stream_consumer')
def made(P, rv, rec, ms, extra):
    P.ensure('a live consumer', z3.Or([z3.And(r.lo == rv, r.size == P.sizeof(rec)) for r in P.st.regions.values() if r.heap] or [z3.BoolVal(False)]))
    for m, f in zip(('data', 'eof', 'free'), ms): P.ensure('its %s method' % m, P.r8(rv + so(P, m)) == P.address(f))
    f, w, v = extra; q = rv + P.off(rec, f); P.ensure('its %s' % f, (P.r8(q) if w == 8 else P.r4(q)) == v); frame(P, lambda q: z3.And(P.g['errno'] <= q, q < P.g['errno'] + 4))
def maker(fn, rec, ms, f, w): SPECS.append(Spec(fn, start, lambda P, rv: made(P, rv, rec, ms, (f, w, P.args[0])), calls=CALLS))
maker('cork_file_consumer_new', 'cork_file_consumer', ('cork_file_consumer__data', 'cork_file_consumer__eof', 'cork_file_consumer__free'), 'fp', 8)
maker('cork_fd_consumer_new', 'cork_fd_consumer', ('cork_fd_consumer__data', 'cork_file_consumer__eof', 'cork_fd_consumer__free'), 'fd', 4)
maker('cork_buffer_to_stream_consumer', 'cork_buffer__stream_consumer', ('cork_buffer_stream_consumer_data', 'cork_buffer_stream_consumer_eof', 'cork_buffer_stream_consumer_free'), 'buffer', 8)
def pre_fp(P): start(P); P.g['path'] = 0; P.st.ghost['fdv'] = I(0)
def post_fp(P, rv):
    P.ensure('NULL exactly when the file cannot be opened', (rv == 0) == (P.gget('failed') == 1)); P.ensure('an error is set then', P.gget('errset') == P.gget('failed'))
    if P.entails(P.gget('failed') == 1): P.ensure('nothing is left allocated', z3.BoolVal(not [t for t, r in P.st.regions.items() if r.heap])); return
    made(P, rv, 'cork_fd_consumer', ('cork_fd_consumer__data', 'cork_fd_consumer__eof_close', 'cork_fd_consumer__free'), ('fd', 4, P.gget('fdv'))); P.ensure('the descriptor stays open', P.gget('closed') == 0)
SPECS.append(Spec('cork_file_from_path_consumer_new', pre_fp, post_fp, calls=dict(CALLS, open=h_open), inv=inv_path))
# into a buffer
def pre_bd(P): start(P); P.rec('self', P.args[0], 'cork_buffer__stream_consumer', False); P.init_log('append', 3)
def h_append(P, a, ins): P.log('append', *a); return None
def post_bd(P, rv):
    P.ensure('succeeds', rv == 0); P.ensure('the bytes are appended once, to its buffer', z3.And(P.loglen('append') == 1, P.logat('append', I(0), 0) == P.o8(P.args[0] + P.off('cork_buffer__stream_consumer', 'buffer')), P.logat('append', I(0), 1) == P.args[1], P.logat('append', I(0), 2) == P.args[2])); frame(P, nothing)
SPECS.append(Spec('cork_buffer_stream_consumer_data', pre_bd, post_bd, calls=dict(CALLS, cork_buffer_append=h_append)))
SPECS.append(Spec('cork_buffer_stream_consumer_eof', lambda P: start(P), lambda P, rv: (P.ensure('nothing to do', rv == 0), frame(P, nothing)), calls=CALLS))
LEAKS = True
TRUSTED = ['read, write, open, close, fread, feof, fwrite as POSIX describes them: any short count, interruption or error', 'cork_buffer_append at the level of its contract (C05)', 'cork_system_error_set (C25)', 'allocation contracts of specs/common.py (C22)']
ASSUME = ['a client-supplied consumer does not touch the bytes it is given', 'a close interrupted by a signal can be repeated', 'interruptions end at some point (the loops have no bound of their own)']
EXPLANATION = 'Every sequence of short, interrupted and failing calls is covered: the handlers for read and write return any of them at every call.'
