"""C19: a CIDR network is valid exactly when no host bit is set."""
from lvc.spec import *
BV = z3.BitVecVal
def be(P, a, n): return z3.Concat(*[Sel(P.H0(1), z3.simplify(a + i)) for i in range(n)])
def valid(x, prefix, w):
    """prefix <= w and the low w - prefix bits of x are zero"""
    p = z3.ZeroExt(w - 32, prefix) if w > 32 else prefix
    return z3.And(z3.ULE(prefix, BV(w, 32)), (x << p) == 0)
def bits(rv): return rv == BV(1, rv.size())
def mk(fn, w):
    def pre(P): P.region('addr', P.args[0], w // 8, writable=False)
    def post(P, rv):
        P.ensure('valid exactly when the prefix is in range and no host bit is set', bits(rv) == valid(be(P, P.args[0], w // 8), P.args[1], w))
        P.ensure('only reads', P.H(1) == P.H0(1))
    return Spec(fn, pre, post, mode='bv')
def pre_ip(P):
    P.region('addr', P.args[0], P.sizeof('cork_ip'), writable=False)
def post_ip(P, rv):
    a = P.args[0]; v = P.ov(a + P.off('cork_ip', 'version'), 4); x = a + P.off('cork_ip', 'ip')
    P.ensure('follows the rule of the family it holds', bits(rv) == z3.If(v == 4, valid(be(P, x, 4), P.args[1], 32), z3.If(v == 6, valid(be(P, x, 16), P.args[1], 128), z3.BoolVal(False))))
    P.ensure('only reads', P.H(1) == P.H0(1))
SPECS = [mk('cork_ipv4_is_valid_network', 32), mk('cork_ipv6_is_valid_network', 128), Spec('cork_ip_is_valid_network', pre_ip, post_ip, mode='bv')]
ASSUME = ['little-endian build of the working tree (the platform of this sandbox)']
