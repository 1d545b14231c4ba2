"""C16: byte-order conversions.  The in-memory bytes of a value in big-endian order are its bytes,
most significant first."""
from lvc.spec import *
from .C14 import only
WRAPPERS = ['u128.c']
CONFIGS = [(), ('-DCORK_CONFIG_HAVE_GCC_INT128=0', '-DCORK_CONFIG_HAVE_GCC_MODE_ATTRIBUTE=0')]
def rev(x):
    n = x.size() // 8
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, x) for i in range(n)])
ident = lambda x: x
def val(fn, f):
    return Spec(fn, None, lambda P, rv: P.ensure('the value is %s' % ('byte-reversed' if f is rev else 'unchanged'), rv == f(P.args[0])), mode='bv')
def expr(fn, n):
    return Spec(fn, None, lambda P, rv: P.ensure('any expression may be swapped', rv == rev(z3.Extract(n - 1, 0, z3.LShR(P.args[0], 3)))), mode='bv')
def inpl(fn, n, f):
    def pre(P): P.region('x', P.args[0], n // 8)
    def post(P, rv):
        P.ensure('in place: %s' % ('byte-reversed' if f is rev else 'unchanged'), P.bv(P.args[0], n // 8) == f(P.ov(P.args[0], n // 8)))
        only(P, P.args[0], n // 8)
    return Spec(fn, pre, post, mode='bv')
def val128(fn, f):
    def pre(P): P.region('r', P.args[0], 16); P.region('x', P.args[1], 16)
    def post(P, rv):
        P.ensure('the value is %s' % ('byte-reversed' if f is rev else 'unchanged'), P.bv(P.args[0], 16) == f(P.ov(P.args[1], 16)))
        only(P, P.args[0], 16)
    return Spec(fn, pre, post, mode='bv')
def byts(fn, n):
    def pre(P): P.region('o', P.args[0], n // 8)
    def post(P, rv):
        P.ensure('big-endian bytes in memory are most significant first', rev(P.bv(P.args[0], n // 8)) == P.args[1])
    return Spec(fn, pre, post, mode='bv')
SPECS = []
for n in (16, 32, 64):
    SPECS += [val('w_swap%d' % n, rev), expr('w_swap_expr%d' % n, n), val('w_b2h%d' % n, rev), val('w_h2b%d' % n, rev), val('w_l2h%d' % n, ident), val('w_h2l%d' % n, ident),
              inpl('w_swapip%d' % n, n, rev), inpl('w_b2hip%d' % n, n, rev), inpl('w_h2bip%d' % n, n, rev), inpl('w_l2hip%d' % n, n, ident), inpl('w_h2lip%d' % n, n, ident),
              byts('w_bytes%d' % n, n)]
SPECS += [val128('w_swap128', rev), val128('w_b2h128', rev), val128('w_h2b128', rev), val128('w_l2h128', ident), val128('w_h2l128', ident),
          inpl('w_swapip128', 128, rev), inpl('w_b2hip128', 128, rev), inpl('w_h2bip128', 128, rev), inpl('w_l2hip128', 128, ident), inpl('w_h2lip128', 128, ident)]
ASSUME = ['little-endian x86-64 target: to/from big-endian is the reversal and to/from little-endian the identity (the big-endian branches cannot be compiled for here)']
