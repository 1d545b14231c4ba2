"""Contracts of growable buffers, shared by C05 (their proof), C06, C26, C27, C28 (their use)."""
from lvc.spec import *
from .common import ALLOC, frame, owned
BIG = 1 << 60
def F(P, me, f, old=False): return (P.o8 if old else P.r8)(me + P.off('cork_buffer', f))
def buffer(P, me, null, tag='b', writable=True):
    """a well-formed buffer at me: NULL and empty, or a heap block of allocated_size bytes with room for the terminator"""
    P.rec(tag, me, 'cork_buffer', heap=True, writable=writable)
    buf, size, al = [F(P, me, f, True) for f in ('buf', 'size', 'allocated_size')]
    if null: P.assume(z3.And(buf == 0, size == 0, al == 0))
    else:
        P.assume(z3.And(size >= 0, size < al, al < BIG))
        P.region(tag + '.buf', buf, al, ('bytes',), heap=True, writable=writable)
    return buf, size, al
def bytes_at(P, addr, src, n, name, old=True):
    """the n bytes now at addr are those of src (in the entry heap)"""
    a = z3.Int('a!p'); h = P.H0(1) if old else P.H(1)
    P.ensure(name, FA([a], Imp(z3.And(addr <= a, a < addr + n), Sel(P.H(1), a) == Sel(h, z3.simplify(a - addr + src))), [Sel(P.H(1), a)]))
def wf_post(P, me, null_ok=False):
    buf, size, al = [F(P, me, f) for f in ('buf', 'size', 'allocated_size')]
    if null_ok and P.entails(buf == 0):
        P.ensure('an empty buffer owns nothing', z3.And(size == 0, al == 0)); return
    owned(P, buf, al)
    P.ensure('room for the content and its terminator', z3.And(size >= 0, size < al))
