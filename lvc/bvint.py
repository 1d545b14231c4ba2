"""Integer abstraction of bit-vector facts, used only to answer the symbolic executor's quick queries: every
bit-vector term becomes an integer in [0, 2^w); sums are exact modulo 2^w; any term outside linear arithmetic
becomes an unconstrained integer.  The abstraction is an over-approximation, so an unsat answer carries over."""
import z3
K = z3
class Abs:
    def __init__(self):
        self.memo = {}; self.n = 0; self.fmemo = {}
    def fresh(self, w, side):
        self.n += 1
        v = z3.Int('bi!%d' % self.n)
        side.append(z3.And(v >= 0, v < (1 << w)))
        return v
    def term(self, t):
        """(int term, side facts)"""
        i = t.get_id()
        if i in self.memo: return self.memo[i][:2]
        side = []
        w = t.size(); k = t.decl().kind() if z3.is_app(t) else None
        r = None
        if z3.is_bv_value(t): r = z3.IntVal(t.as_long())
        elif k == z3.Z3_OP_BADD or (k == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0))) or k in (z3.Z3_OP_BSUB, z3.Z3_OP_BNEG):
            lin = self.lin(t, side)
            v = self.fresh(w, side); self.n += 1; q = z3.Int('bq!%d' % self.n)
            side.append(v == lin - q * (1 << w)); r = v
        elif k == z3.Z3_OP_ZERO_EXT:
            r, s = self.term(t.arg(0)); side += s
        elif k == z3.Z3_OP_ITE:
            c, s0 = self.form(t.arg(0)); a, s1 = self.term(t.arg(1)); b, s2 = self.term(t.arg(2))
            r = z3.If(c, a, b); side += s0 + s1 + s2
        elif k == z3.Z3_OP_CONCAT and z3.is_bv_value(t.arg(0)) and t.arg(0).as_long() == 0 and t.num_args() == 2:
            r, s = self.term(t.arg(1)); side += s
        elif k == z3.Z3_OP_BAND and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
            v = self.fresh(w, side); a, s = self.term(t.arg(1)); side += s + [v <= t.arg(0).as_long(), v <= a]; r = v
        else: r = self.fresh(w, side)
        self.memo[i] = (r, side, t)
        return r, side
    def lin(self, t, side):
        w = t.size(); k = t.decl().kind()
        if k == z3.Z3_OP_BADD: return sum([self.lin(c, side) for c in t.children()], z3.IntVal(0))
        if k == z3.Z3_OP_BSUB: return self.lin(t.arg(0), side) - sum([self.lin(c, side) for c in t.children()[1:]], z3.IntVal(0))
        if k == z3.Z3_OP_BNEG: return -self.lin(t.arg(0), side)
        if k == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
            c = t.arg(0).as_signed_long()
            return c * self.lin(t.arg(1), side)
        if z3.is_bv_value(t): return z3.IntVal(t.as_signed_long())
        r, s = self.term(t); side += s
        return r
    def form(self, f):
        """(formula, side facts); an opaque formula becomes a fresh boolean"""
        i = f.get_id()
        if i in self.fmemo: return self.fmemo[i][:2]
        side = []
        k = f.decl().kind() if z3.is_app(f) else None
        r = None
        ops = {z3.Z3_OP_ULEQ: lambda a, b: a <= b, z3.Z3_OP_ULT: lambda a, b: a < b, z3.Z3_OP_UGEQ: lambda a, b: a >= b, z3.Z3_OP_UGT: lambda a, b: a > b}
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR) or (k == z3.Z3_OP_ITE):
            cs = []
            for c in f.children():
                x, s = self.form(c); cs.append(x); side += s
            r = {z3.Z3_OP_AND: lambda: z3.And(cs), z3.Z3_OP_OR: lambda: z3.Or(cs), z3.Z3_OP_NOT: lambda: z3.Not(cs[0]), z3.Z3_OP_IMPLIES: lambda: z3.Implies(*cs), z3.Z3_OP_XOR: lambda: z3.Xor(*cs), z3.Z3_OP_ITE: lambda: z3.If(*cs)}[k]()
        elif k in ops:
            a, s1 = self.term(f.arg(0)); b, s2 = self.term(f.arg(1)); r = ops[k](a, b); side += s1 + s2
        elif k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_bv(f.arg(0)) and f.num_args() == 2:
            a, s1 = self.term(f.arg(0)); b, s2 = self.term(f.arg(1)); r = a == b if k == z3.Z3_OP_EQ else a != b; side += s1 + s2
        elif k == z3.Z3_OP_EQ and z3.is_bool(f.arg(0)):
            a, s1 = self.form(f.arg(0)); b, s2 = self.form(f.arg(1)); r = a == b; side += s1 + s2
        elif z3.is_true(f) or z3.is_false(f): r = f
        else:
            self.n += 1; r = z3.Bool('bb!%d' % self.n)
        self.fmemo[i] = (r, side, f)
        return r, side
