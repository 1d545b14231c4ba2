"""Value semantics.  IntOps: iN values are mathematical integers in [0, 2^N) and every wrap-around
is explicit (If), unless the path condition proves that it cannot happen.  BVOps: bit vectors."""
import z3

def cval(t):
    if z3.is_int_value(t): return t.as_long()
    if z3.is_bv_value(t): return t.as_long()
    return None

def is_ite(t): return z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE
def ctree(t, d=0):
    if cval(t) is not None: return True
    return d < 70 and is_ite(t) and ctree(t.arg(1), d + 1) and ctree(t.arg(2), d + 1)

class IntOps:
    mode = 'int'
    addr_sort = z3.IntSort()
    def __init__(self):
        self.uf = {}
        self.env = None            # set by the executor: object with .entails(f)
    def sort(self, bits): return z3.IntSort()
    def const(self, n, bits): return z3.IntVal(n % (1 << bits))
    def fconst(self, sort, name):
        self.n_fresh = getattr(self, 'n_fresh', 0) + 1
        return z3.Const('%s!%d' % (name, self.n_fresh), sort)
    def fresh(self, name, bits): return self.fconst(z3.IntSort(), name)
    def range_fact(self, v, bits): return z3.And(v >= 0, v < (1 << bits))
    def _known(self, c):
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if self.env is not None:
            if self.env.entails(c): return True
            if self.env.entails(z3.Not(c)): return False
        return None
    def ite(self, c, a, b):
        k = self._known(c)
        if k is True: return a
        if k is False: return b
        return z3.If(c, a, b)
    def signed(self, x, bits):
        c = cval(x)
        if c is not None:
            return z3.IntVal(c - (1 << bits) if c >= (1 << (bits - 1)) else c)
        return self.ite(x < (1 << (bits - 1)), x, x - (1 << bits))
    def unsign(self, x, bits):
        """signed mathematical value -> canonical"""
        c = cval(x)
        if c is not None: return z3.IntVal(c % (1 << bits))
        return self.ite(x >= 0, x, x + (1 << bits))
    def F(self, name, *args):
        key = (name, len(args))
        if key not in self.uf:
            self.uf[key] = z3.Function(name, *([z3.IntSort()] * (len(args) + 1)))
        return self.uf[key](*args)
    def bin(self, op, x, y, bits, flags=()):
        M = 1 << bits
        cx, cy = cval(x), cval(y)
        if cx is not None and cy is not None:
            return self._cbin(op, cx, cy, bits)
        if op == 'ashr' and self._known(x < M // 2) is True: op = 'lshr'
        if op == 'ashr' and cy is not None:
            return self.unsign(self.signed(x, bits) / (1 << cy), bits)
        if bits > 1 and op in ('and', 'or', 'xor', 'sub', 'add', 'shl', 'lshr'):
            tx, ty = ctree(x), ctree(y)
            if ty and is_ite(y):        # y is a decision tree with constant leaves
                if is_ite(x) and x.arg(0).eq(y.arg(0)): return z3.If(y.arg(0), self.bin(op, x.arg(1), y.arg(1), bits), self.bin(op, x.arg(2), y.arg(2), bits))
                if op in ('and', 'or', 'xor') or tx: return z3.If(y.arg(0), self.bin(op, x, y.arg(1), bits), self.bin(op, x, y.arg(2), bits))
            if tx and is_ite(x) and (cy is not None or op in ('and', 'or', 'xor')):
                return z3.If(x.arg(0), self.bin(op, x.arg(1), y, bits), self.bin(op, x.arg(2), y, bits))
            if op in ('shl', 'lshr') and cy is None:
                for lim in (8, 16, 32, 64):
                    if lim <= bits and self._known(y < lim) is True:
                        r = self.bin(op, x, z3.IntVal(lim - 1), bits)
                        for k in range(lim - 2, -1, -1): r = z3.If(y == k, self.bin(op, x, z3.IntVal(k), bits), r)
                        return r
        if op == 'add':
            if cy is not None and cy >= M // 2:      # adding a negative constant
                s = x - (M - cy)
                return z3.simplify(self.ite(s >= 0, s, s + M))
            s = x + y
            return z3.simplify(self.ite(s < M, s, s - M))
        if op == 'sub':
            s = x - y
            return z3.simplify(self.ite(s >= 0, s, s + M))
        if op == 'mul':
            s = z3.simplify(x * y)
            k = self._known(s < M) if (cx is not None or cy is not None or True) else None
            if k is True: return s
            return s % M
        if op == 'udiv':
            if cy is not None and cy > 0: return x / y
            q = self.F('udiv%d' % bits, x, y)
            self.env.assume(z3.Implies(y > 0, z3.And(q >= 0, q <= x, (q == 0) == (x < y), q * y <= x, x < q * y + y)))
            self.env.assume(self.range_fact(q, bits))
            return q
        if op == 'urem':
            if cy is not None and cy > 0: return x % y
            r = self.F('urem%d' % bits, x, y)
            self.env.assume(z3.Implies(y > 0, z3.And(r >= 0, r < y, r <= x)))
            self.env.assume(z3.Implies(z3.And(y > 0, x < y), r == x))
            self.env.assume(z3.Implies(z3.And(y > 0, y <= x, x < y + y), r == x - y))
            return r
        if op == 'sdiv' and cy is not None and 0 < cy < M // 2:
            sx = self.signed(x, bits)
            return self.unsign(self.ite(sx >= 0, sx / y, -((-sx) / y)), bits)
        if op == 'srem' and cy is not None and 0 < cy < M // 2:
            sx = self.signed(x, bits)
            return self.unsign(self.ite(sx >= 0, sx % y, -((-sx) % y)), bits)
        if op == 'shl' and cy is not None:
            s = x * (1 << cy)
            if self._known(s < M) is True: return s
            return s % M
        if op == 'lshr' and cy is not None:
            return x / (1 << cy)
        if op == 'and':
            if cx is not None: x, y, cx, cy = y, x, cy, cx
            if cy is not None:
                if cy & (cy + 1) == 0: return x % (cy + 1)
                inv = (M - 1) ^ cy
                if inv & (inv + 1) == 0: return x - x % (inv + 1)
                return self.masked(x, cy, bits)
            r = self.F('band', x, y)
            self.env.assume(z3.And(r >= 0, r <= x, r <= y))
            return r
        if op == 'or':
            if bits == 1: return z3.If(z3.Or(x == 1, y == 1), z3.IntVal(1), z3.IntVal(0))
            if cx is not None: x, y, cx, cy = y, x, cy, cx
            if cy == 0: return x
            if cy is not None: return x - self.masked(x, cy, bits) + cy
            for k in (32, 16, 8, 24, 48, 4, 1, 2, 40, 56):
                for u, v in ((x, y), (y, x)):
                    if self._known(v < (1 << k)) is True and self._known(u % (1 << k) == 0) is True: return u + v
            r = self.F('bor', x, y)
            self.env.assume(z3.And(r >= x, r >= y, r <= x + y, r < M))
            return r
        if op == 'xor':
            if bits == 1 and cy == 1: return z3.simplify(1 - x)
            if cx is not None: x, y, cx, cy = y, x, cy, cx
            if cy == M - 1: return (M - 1) - x
            if cy == 0: return x
            if cy is not None: return x + cy - 2 * self.masked(x, cy, bits)
            r = self.F('bxor', x, y)
            self.env.assume(z3.And(r >= 0, r < M, r <= x + y, (r == 0) == (x == y)))
            return r
        r = self.F('%s%d' % (op, bits), x, y)
        self.env.assume(self.range_fact(r, bits))
        return r
    def masked(self, x, c, bits):
        """x & c for a constant c: the sum of the selected runs of bits"""
        if c == 0: return z3.IntVal(0)
        r = None; lo = 0
        while lo < bits:
            if not (c >> lo) & 1: lo += 1; continue
            hi = lo
            while hi < bits and (c >> hi) & 1: hi += 1
            v = x / (1 << lo) if lo else x
            if hi < bits: v = v % (1 << (hi - lo))
            if lo: v = v * (1 << lo)
            r = v if r is None else r + v
            lo = hi
        return r
    def _cbin(self, op, a, b, bits):
        M = 1 << bits
        sg = lambda v: v - M if v >= M // 2 else v
        if op == 'add': r = a + b
        elif op == 'sub': r = a - b
        elif op == 'mul': r = a * b
        elif op == 'udiv': r = a // b if b else 0
        elif op == 'urem': r = a % b if b else 0
        elif op == 'and': r = a & b
        elif op == 'or': r = a | b
        elif op == 'xor': r = a ^ b
        elif op == 'shl': r = a << b if b < bits else 0
        elif op == 'lshr': r = a >> b if b < bits else 0
        elif op == 'ashr': r = sg(a) >> min(b, bits - 1)
        elif op == 'sdiv':
            p, q = sg(a), sg(b); r = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1) if q else 0
        elif op == 'srem':
            p, q = sg(a), sg(b); r = abs(p) % abs(q) * (1 if p >= 0 else -1) if q else 0
        return z3.IntVal(r % M)
    def cmp(self, pred, x, y, bits):
        if pred == 'eq': return x == y
        if pred == 'ne': return x != y
        if pred[0] == 's':
            x, y = self.signed(x, bits), self.signed(y, bits)
        p = pred[1:]
        return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p]
    def cast(self, op, x, fb, tb):
        if op in ('zext', 'ptrtoint', 'inttoptr', 'bitcast'):
            if tb < fb: op = 'trunc'
            else: return x
        if op == 'trunc':
            if cval(x) is not None: return z3.IntVal(cval(x) % (1 << tb))
            if self._known(x < (1 << tb)) is True: return x
            return x % (1 << tb)
        if op == 'sext':
            if fb == 1:
                return z3.If(x == 1, z3.IntVal((1 << tb) - 1), z3.IntVal(0))
            c = cval(x)
            if c is not None:
                return z3.IntVal((c - (1 << fb) if c >= 1 << (fb - 1) else c) % (1 << tb))
            return self.ite(x < (1 << (fb - 1)), x, x + (1 << tb) - (1 << fb))
        raise ValueError(op)
    def padd(self, p, n): return z3.simplify(p + n)
    def pmul(self, idx, bits, size):
        return self.signed(idx, bits) * size

def umul(x, c):
    """multiplication by a constant as an uninterpreted function of its operand (a sound weakening)"""
    n = x.size()
    return z3.Function('mul%d_%x' % (n, c % (1 << n)), x.sort(), x.sort())(x)

class BVOps:
    mode = 'bv'
    abstract_mul = False
    addr_sort = z3.BitVecSort(64)
    def __init__(self):
        self.env = None
    def sort(self, bits): return z3.BitVecSort(bits)
    def const(self, n, bits): return z3.BitVecVal(n, bits)
    def fconst(self, sort, name):
        self.n_fresh = getattr(self, 'n_fresh', 0) + 1
        return z3.Const('%s!%d' % (name, self.n_fresh), sort)
    def fresh(self, name, bits): return self.fconst(z3.BitVecSort(bits), name)
    def range_fact(self, v, bits): return z3.BoolVal(True)
    def ite(self, c, a, b):
        c = z3.simplify(c)
        if z3.is_true(c): return a
        if z3.is_false(c): return b
        return z3.If(c, a, b)
    def bin(self, op, x, y, bits, flags=()):
        c = cval(y)
        if op == 'mul' and self.abstract_mul:
            if c is None and cval(x) is not None: x, y, c = y, x, cval(x)
            if c is not None and c & (c - 1) and cval(x) is None: return umul(x, c)
        if op in ('udiv', 'urem') and c and c & (c - 1) == 0:
            n = c.bit_length() - 1
            return z3.simplify(z3.LShR(x, n) if op == 'udiv' else x & (c - 1))
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y,
             'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
             'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y),
             'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
             'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y), 'ashr': lambda: x >> y}[op]()
        return z3.simplify(r)
    def cmp(self, pred, x, y, bits):
        return {'eq': lambda: x == y, 'ne': lambda: x != y,
                'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y),
                'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
    def cast(self, op, x, fb, tb):
        if tb == fb: return x
        if tb < fb: return z3.simplify(z3.Extract(tb - 1, 0, x))
        if op == 'sext': return z3.simplify(z3.SignExt(tb - fb, x))
        return z3.simplify(z3.ZeroExt(tb - fb, x))
    def padd(self, p, n): return z3.simplify(p + n)
    def pmul(self, idx, bits, size):
        if bits < 64: idx = z3.SignExt(64 - bits, idx)
        return z3.simplify(idx * size)
    def signed(self, x, bits): return x
