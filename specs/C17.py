"""C17: IPv4 text."""
from .ip_common import *
def ptr_or_rc(fn, kind):
    def pre(P):
        addr, s = P.args
        P.region('addr', addr, 4)
        end = cstring(P, s); P.g['end'] = end
        start4(P, s); no_error(P)
    def inv(L): return inv4(L, L.ctx.args[1], L.ctx.g['end'])
    def post(P, rv):
        addr, s = P.args; end = P.g['end']
        unfold4(P, s, end, end)
        okv = (rv == end) if kind == 'ptr' else (rv == BV(0, 32))
        bad = (rv == BV(0, 64)) if kind == 'ptr' else (rv == BV(0xffffffff, 32))
        P.ensure('succeeds or fails', z3.Or(okv, bad))
        P.ensure('accepts only four dot-separated decimal octets', Imp(okv, accepted4(end)))
        P.ensure('accepts all of them', Imp(bad, z3.Not(accepted4(end))))
        for k, o in enumerate(octets(end)): P.ensure('octet %d is stored' % k, Imp(okv, Sel(P.H(1), z3.simplify(addr + k)) == o))
        P.ensure('the target is unchanged on failure', Imp(bad, unchanged(P, addr, 4)))
        P.ensure('failure sets a parse error, success does not', z3.And(P.gget('err') == bad, Imp(bad, P.gget('errcode') == BV(0x95dfd3c8, 32))))
    return Spec(fn, pre, post, inv, mode='bv', calls=ERR, quick_ms=4000)
def two(P): P.region('a', P.args[0], 4); P.region('b', P.args[1], 4, writable=False)
def be(P, a, n): return [Sel(P.H0(1), z3.simplify(a + i)) for i in range(n)]
def post_eq(n):
    def post(P, rv): P.ensure('equal exactly when every byte is', (rv == 1) == z3.And([x == y for x, y in zip(be(P, P.args[0], n), be(P, P.args[1], n))]))
    return post
def post_copy(n):
    def post(P, rv): P.ensure('a copy of the bytes', z3.And([Sel(P.H(1), z3.simplify(P.args[0] + i)) == b for i, b in enumerate(be(P, P.args[1], n))]))
    return post
SPECS = [
    ptr_or_rc('cork_ipv4_parse', 'ptr'), ptr_or_rc('cork_ipv4_init', 'rc'),
    Spec('cork_ipv4_equal_', two, post_eq(4), mode='bv'), Spec('cork_ipv4_equal', two, post_eq(4), mode='bv'), Spec('cork_ipv4_copy', two, post_copy(4), mode='bv'),
]
# printing
from . import fmt
def pre_print(P):
    addr, dest = P.args
    P.region('addr', addr, 4, writable=False); P.region('dest', dest, 16)
    P.st.ghost['printed'] = ()
def h_snprintf(limit):
    def h(P, a, ins):
        dest, rest = a[0], (a[2:] if limit else a[1:])
        segs = fmt.merge(fmt.segments(P, rest[0], rest[1:]))
        n = 1
        for s in segs:
            if s[0] == 'lit': n += len(s[1]); continue
            if s[0] not in 'ud' or s[2:5] != ('', '', None): raise ToolLimit('conversion %r' % (s,))
            v = s[1]
            if s[5] == 'hh': v = v & 255
            n += 3 if P.entails(z3.ULE(v, BV(255, 32))) else 11
        size = z3.ZeroExt(0, a[1]) if limit else BV(n, 64)
        P.require('the text fits the given size', z3.ULE(BV(n, 64), size))
        P.ex.check_range(P.st, dest, BV(n, 64), True, 'printed text')
        P.st.ghost['printed'] = P.st.ghost['printed'] + ((dest, segs),)
        P.ex.havoc_ranges(P.st, [(dest, BV(n, 64))], [1])
        return P.fresh('snprintf', 32)
    return h
def post_print(P, rv):
    addr, dest = P.args; pr = P.st.ghost['printed']
    if len(pr) != 1: raise ToolLimit('text assembled from several pieces')
    d, segs = pr[0]
    o = be(P, addr, 4)
    P.ensure('the text starts at the given buffer', d == dest)
    P.ensure('four numbers separated by dots', z3.BoolVal([s[1] if s[0] == 'lit' else 0 for s in segs] == [0, b'.', 0, b'.', 0, b'.', 0]))
    vs = [s[1] for s in segs if s[0] != 'lit']
    for k in range(min(4, len(vs))): P.ensure('number %d is octet %d' % (k, k), vs[k] == z3.ZeroExt(24, o[k]))
    P.ensure('the address is unchanged', unchanged(P, addr, 4))
def roundtrip():
    """the canonical text of any four octets is accepted and denotes those octets: the recursive specification, evaluated over each of the 81 length patterns"""
    out = []
    import itertools
    for ls in itertools.product((1, 2, 3), repeat=4):
        o = [z3.BitVec('o%d' % k, 8) for k in range(4)]
        facts = []; text = []
        for k, l in enumerate(ls):
            lo, hi = {1: (0, 9), 2: (10, 99), 3: (100, 255)}[l]
            facts += [z3.ULE(BV(lo, 8), o[k]), z3.ULE(o[k], BV(hi, 8))]
            x = o[k]
            ds = [z3.URem(z3.UDiv(x, BV(10 ** (l - 1 - i), 8)), BV(10, 8)) + 48 for i in range(l)]
            if k: text.append(BV(46, 8))
            text += ds
        v, oc, sn, ok, rs = BV(0, 32), BV(0, 32), z3.BoolVal(False), z3.BoolVal(True), [BV(0, 32)] * 3
        for c in text:          # same definitions as unfold4
            nv = v * 10 + z3.ZeroExt(24, c) - 48
            ok = z3.And(ok, z3.Or(z3.And(digit(c), z3.ULE(nv, BV(255, 32))), z3.And(c == 46, sn, z3.ULT(oc, BV(3, 32)))))
            rs = [z3.If(z3.And(c == 46, oc == k), v, rs[k]) for k in range(3)]
            v, sn, oc = z3.simplify(z3.If(digit(c), nv, BV(0, 32))), z3.simplify(digit(c)), z3.simplify(z3.If(c == 46, oc + 1, oc))
        res = [z3.Extract(7, 0, r) for r in rs] + [z3.Extract(7, 0, v)]
        out.append(('lengths %d.%d.%d.%d' % ls, facts, z3.And(ok, sn, oc == 3, *[res[k] == o[k] for k in range(4)])))
    return out
SPECS += [Spec('cork_ipv4_to_raw_string', pre_print, post_print, mode='bv', calls={'snprintf': h_snprintf(True), 'sprintf': h_snprintf(False)}),
          Lemma('lemma: printed text parses back', roundtrip)]
ASSUME = ['snprintf/sprintf with %u write the decimal digits of their arguments (ISO C)']
