"""Slices and managed buffers: vocabulary shared by C09 and C10."""
from lvc.spec import *
from .common import ALLOC, frame, owned
BIG = 1 << 60
S = z3.simplify
SERR, INVALID = 0x960ca750, 0
FAILED = (1 << 32) - 1
SF = ('buf', 'size', 'iface', 'user_data')
MF = ('buf', 'size', 'ref_count', 'iface')
def sf(P, me, f, old=False): return (P.o8 if old else P.r8)(me + P.off('cork_slice', f))
def mf(P, m, f, old=False):
    w = 4 if f == 'ref_count' else 8
    return {4: P.o4 if old else P.r4, 8: P.o8 if old else P.r8}[w](m + P.off('cork_managed_buffer', f))
def h_error(P, a, ins):
    P.require('no error is pending', P.gget('err') == 0)
    P.gset('err', a[0]); P.gset('errcode', a[1])
    P.g.setdefault('heap_at_error', None)
CALLS = dict(ALLOC, cork_error_set=h_error)
def start(P): P.st.ghost['err'] = I(0); P.st.ghost['errcode'] = I(0)
def slot(P, p, tag):
    """an uninitialised slice"""
    P.rec(tag, p, 'cork_slice')
def data(P, buf, n, tag='data', ro=True):
    P.assume(z3.And(n >= 0, n < BIG)); P.region(tag, buf, n, ('bytes',), writable=not ro)
def a_slice(P, p, tag='s'):
    """a slice over n bytes, of an arbitrary implementation"""
    P.rec(tag, p, 'cork_slice')
    buf, n, ifc, ud = [sf(P, p, f, True) for f in SF]
    P.assume(buf > 0)
    data(P, buf, n, tag + '.data')
    P.rec(tag + '.iface', ifc, 'cork_slice_iface', writable=False)
    for f in ('free', 'copy', 'light_copy', 'slice'): P.g[tag + '.' + f] = P.o8(S(ifc + P.off('cork_slice_iface', f)))
    for f in ('copy', 'light_copy'): P.assume(P.g[tag + '.' + f] > 0)
    P.init_log('call', 5); P.g['writes'] = []
    return buf, n
def methods(P, fp, args, ins):
    """any slice method: may rewrite the slices it is given, returns any code"""
    a = list(args) + [I(0)] * (4 - len(args))
    P.log('call', fp, *a)
    ws = {4: args[:2], 3: args[:1], 1: args[:1]}[len(args)]
    for p in ws: P.ex.check_range(P.st, p, I(P.sizeof('cork_slice')), True, 'slice')
    P.ex.havoc_ranges(P.st, [(p, I(P.sizeof('cork_slice'))) for p in ws], [8])
    for i, p in enumerate(ws):
        for f in SF: P.st.ghost['after:%d:%s' % (i, f)] = sf(P, p, f)
    if len(args) == 1: return None
    rc = P.fresh('rc', 32); P.st.ghost['rc'] = rc; return rc
def as_left(P, p, i):
    P.ensure('what the implementation did to the slice is kept', z3.And(*[sf(P, p, f) == P.st.ghost['after:%d:%s' % (i, f)] for f in SF]))
def kept(P, p, name='the slice is unchanged'): P.ensure(name, z3.And(*[sf(P, p, f) == sf(P, p, f, True) for f in SF]))
def cleared(P, p, name='the slice is cleared'): P.ensure(name, z3.And(*[sf(P, p, f) == 0 for f in SF]))
def error(P, rv, what):
    P.ensure('fails', rv == what)
    P.ensure('an error is reported', z3.And(P.gget('err') == SERR, P.gget('errcode') == INVALID))
def no_error(P): P.ensure('no error is reported', P.gget('err') == 0)
def inside(o, l, n): return z3.And(0 <= o, 0 <= l, o <= n, l <= n - o)
def denotes(P, p, buf, n, name='exactly the bytes asked for'): P.ensure(name, z3.And(sf(P, p, 'buf') == buf, sf(P, p, 'size') == n))
def branch(P, cond, yes, no):
    """case split on the entry state"""
    if P.entails(cond): yes(P)
    elif P.entails(z3.Not(cond)): no(P)
    else:
        a, b = P.at(P.st.clone()), P.at(P.st.clone())
        a.assume(cond); yes(a); b.assume(z3.Not(cond)); no(b)
def managed(P, m, tag='m', refs=1):
    """a managed buffer with at least `refs` references, of an arbitrary implementation"""
    P.rec(tag, m, 'cork_managed_buffer')
    buf, n, rc, ifc = [mf(P, m, f, True) for f in MF]
    P.assume(z3.And(buf > 0, rc >= refs, rc < (1 << 30)))
    data(P, buf, n, tag + '.data')
    P.rec(tag + '.iface', ifc, 'cork_managed_buffer_iface', writable=False)
    P.g[tag + '.free'] = P.o8(S(ifc + P.off('cork_managed_buffer_iface', 'free')))
    P.init_log('freed', 2); P.init_log('freer', 3)
    return buf, n, rc
def m_free(P, fp, args, ins):
    """the implementation's free action, or the freer given to cork_managed_buffer_new"""
    if len(args) == 1: P.log('freed', fp, args[0])
    else: P.log('freer', fp, *args)
