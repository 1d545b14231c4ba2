"""C14: 128-bit integers are integers modulo 2^128, in the native and in the portable configuration.
All functions are loop free: each contract is decided for every operand by bit-vector reasoning."""
from lvc.spec import *
WRAPPERS = ['u128.c']
CONFIGS = [(), ('-DCORK_CONFIG_HAVE_GCC_INT128=0', '-DCORK_CONFIG_HAVE_GCC_MODE_ATTRIBUTE=0')]

def only(P, lo, n):
    a = z3.BitVec('a!o', 64)
    if P.H(1).eq(P.H0(1)): return
    P.ensure('nothing but the result is written', FA([a], z3.Or(z3.And(z3.ULE(lo, a), z3.ULT(a - lo, n)), Sel(P.H(1), a) == Sel(P.H0(1), a))))
def pre_bin(P):
    P.region('r', P.args[0], 16); P.region('a', P.args[1], 16); 
    if len(P.args) > 2 and P.args[2].size() == 64: P.region('b', P.args[2], 16)
def bin_(fn, f, alias=None):
    def pre(P):
        r, a, b = P.args
        P.region('a', a, 16)
        if alias == 'all': P.assume(z3.And(r == a, b == a))
        elif alias == 'ra': P.assume(r == a); P.region('b', b, 16)
        else: P.region('r', r, 16); P.region('b', b, 16)
    def post(P, rv):
        r, a, b = P.args
        P.ensure('result is the 128-bit operation', P.bv(r, 16) == f(P.ov(a, 16), P.ov(b, 16)))
        only(P, r, 16)
    return Spec(fn, pre, post, mode='bv', label=fn + (' (aliased %s)' % alias if alias else ''))
def cmp_(fn, f):
    def pre(P): P.region('a', P.args[0], 16); P.region('b', P.args[1], 16)
    def post(P, rv):
        P.ensure('result is 0 or 1', z3.Or(rv == 0, rv == 1))
        P.ensure('result is the comparison of the 128-bit values', (rv != 0) == f(P.ov(P.args[0], 16), P.ov(P.args[1], 16)))
        only(P, P.args[0], 0)
    return Spec(fn, pre, post, mode='bv')
def sh_(fn, f):
    def pre(P):
        P.region('r', P.args[0], 16); P.region('a', P.args[1], 16)
        P.assume(z3.ULT(P.args[2], 128))
    def post(P, rv):
        P.ensure('result is the 128-bit shift', P.bv(P.args[0], 16) == f(P.ov(P.args[1], 16), z3.ZeroExt(96, P.args[2])))
        only(P, P.args[0], 16)
    return Spec(fn, pre, post, mode='bv')
def from_(fn, n):
    def pre(P): P.region('r', P.args[0], 16)
    def post(P, rv):
        want = z3.Concat(*P.args[1:]) if n else z3.BitVecVal(0, 128)
        P.ensure('the value is composed of the parts, most significant first', P.bv(P.args[0], 16) == want)
        only(P, P.args[0], 16)
    return Spec(fn, pre, post, mode='bv')
def part(v, w, i):
    """part i (0 most significant) of w bits"""
    k = 128 // w
    return z3.Extract(w - 1, 0, z3.LShR(v, z3.ZeroExt(96, (k - 1 - i) * w)))
def get_(fn, w):
    def pre(P): P.region('a', P.args[0], 16); P.assume(z3.ULT(P.args[1], 128 // w))
    def post(P, rv):
        P.ensure('part i counted from the most significant', rv == part(P.ov(P.args[0], 16), w, P.args[1]))
        only(P, P.args[0], 0)
    return Spec(fn, pre, post, mode='bv')
def set_(fn, w):
    def pre(P): P.region('a', P.args[0], 16); P.assume(z3.ULT(P.args[1], 128 // w))
    def post(P, rv):
        k = 128 // w
        for j in range(k):
            J = z3.BitVecVal(j, 32)
            P.ensure('part %d after setting part i' % j, part(P.bv(P.args[0], 16), w, J) == z3.If(P.args[1] == j, P.args[2], part(P.ov(P.args[0], 16), w, J)))
        only(P, P.args[0], 16)
    return Spec(fn, pre, post, mode='bv')

SPECS = [
    bin_('w_add', lambda a, b: a + b), bin_('w_sub', lambda a, b: a - b),
    bin_('w_add', lambda a, b: a + b, 'ra'), bin_('w_sub', lambda a, b: a - b, 'all'),
    cmp_('w_eq', lambda a, b: a == b), cmp_('w_ne', lambda a, b: a != b),
    cmp_('w_lt', z3.ULT), cmp_('w_le', z3.ULE), cmp_('w_gt', z3.UGT), cmp_('w_ge', z3.UGE),
    sh_('w_shl', lambda a, n: a << n), sh_('w_shr', lambda a, n: z3.LShR(a, n)),
    from_('w_from_32', 4), from_('w_from_64', 2), from_('w_zero', 0),
    get_('w_be8', 8), get_('w_be16', 16), get_('w_be32', 32), get_('w_be64', 64),
    set_('w_set8', 8), set_('w_set16', 16), set_('w_set32', 32), set_('w_set64', 64),
]
ASSUME = ['little-endian x86-64 target (the big-endian branches of u128.h cannot be compiled for here)']
