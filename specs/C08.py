"""C08: bit sets.  Abstract view: bit(j) = bit 7 - j%8 of byte j/8 of the storage."""
from lvc.spec import *
from .common import ALLOC, frame, owned
WRAPPERS = ['ds.c']
def F(P, me, f, old): return P.o8(me + P.off('cork_bitset', f)) if old else P.r8(me + P.off('cork_bitset', f))
def bit(P, bits, j, old):
    b = P.o1(bits + j / 8) if old else P.r1(bits + j / 8)
    r = b % 2
    for k in range(6, -1, -1): r = z3.If(j % 8 == k, (b / (1 << (7 - k))) % 2, r)
    return r == 1
def bytes_ok(P): P.assume(FA([z3.Int('a!b')], z3.And(0 <= P.o1(z3.Int('a!b')), P.o1(z3.Int('a!b')) < 256)))
def enough(nbits, nbytes): return nbits <= 8 * nbytes
def pre(P):
    me = P.args[0]
    P.rec('set', me, 'cork_bitset', heap=True)
    bits, nb, by = [F(P, me, f, True) for f in ('bits', 'bit_count', 'byte_count')]
    P.assume(z3.And(by < (1 << 61), by >= 0, nb >= 0))
    P.assume(enough(nb, by))
    P.region('bits', bits, by, ('bytes',), heap=True)
    bytes_ok(P)
    P.g.update(bits=bits, nb=nb, by=by)
def pre_i(P):
    pre(P); P.assume(P.args[1] < P.g['nb'])
def same(P):
    me = P.args[0]
    P.ensure('the set keeps its storage', z3.And(*[F(P, me, f, False) == F(P, me, f, True) for f in ('bits', 'bit_count', 'byte_count')]))
def post_get(P, rv):
    P.ensure('reads the bit', z3.And(z3.Or(rv == 0, rv == 1), (rv == 1) == bit(P, P.g['bits'], P.args[1], True)))
    frame(P, lambda a: z3.BoolVal(False), 'reading changes nothing')
def post_set(P, rv):
    j = z3.Int('j!q'); i = P.args[1]
    P.ensure('the bit reads back as written', bit(P, P.g['bits'], i, False) == (P.args[2] != 0))
    at = P.g['bits'] + i / 8
    for m in range(8):          # bit 8*(i/8)+m, one obligation each
        for n in range(8):
            if m != n: P.ensure('writing bit %d of a byte leaves its bit %d unchanged' % (n, m), Imp(i % 8 == n, (P.r1(at) / (1 << (7 - m))) % 2 == (P.o1(at) / (1 << (7 - m))) % 2))
    P.ensure('every bit of the other bytes is unchanged', FA([j], Imp(z3.And(0 <= j, j < P.g['nb'], j / 8 != i / 8), bit(P, P.g['bits'], j, False) == bit(P, P.g['bits'], j, True))))
    same(P)
    frame(P, lambda a: z3.And(P.g['bits'] <= a, a < P.g['bits'] + P.g['by']))
def post_clear(P, rv):
    j = z3.Int('j!q')
    P.ensure('all bits are clear', FA([j], Imp(z3.And(0 <= j, j < P.g['nb']), z3.Not(bit(P, P.g['bits'], j, False)))))
    same(P)
    frame(P, lambda a: z3.And(P.g['bits'] <= a, a < P.g['bits'] + P.g['by']))
def created(P, me, n):
    bits, nb, by = [F(P, me, f, False) for f in ('bits', 'bit_count', 'byte_count')]
    P.ensure('has the requested number of bits', nb == n)
    P.ensure('byte count covers all bits', enough(nb, by))
    owned(P, bits, by, 'storage is a live block of byte_count bytes')
    j = z3.Int('j!q')
    P.ensure('all bits are clear', FA([j], Imp(z3.And(0 <= j, j < nb), z3.Not(bit(P, bits, j, False)))))
def pre_init(P): P.rec('set', P.args[0], 'cork_bitset')
def gone(*tags): return lambda P, rv: P.ensure('everything allocated is released', z3.BoolVal(not any(t in P.st.regions for t in tags)))
K = dict(calls=ALLOC)
SPECS = [
    Spec('w_bitset_get', pre_i, post_get, **K), Spec('w_bitset_set', pre_i, post_set, **K),
    Spec('cork_bitset_clear', pre, post_clear, **K),
    Spec('cork_bitset_init', pre_init, lambda P, rv: created(P, P.args[0], P.args[1]), **K),
    Spec('cork_bitset_new', None, lambda P, rv: created(P, rv, P.args[0]), **K),
    Spec('cork_bitset_done', pre, gone('bits'), **K),
    Spec('cork_bitset_free', pre, gone('bits', 'set'), **K),
]
