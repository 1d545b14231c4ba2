"""Discharging obligations: in-process nothing, everything goes to external solver processes
(z3-new 5.x with and without model-based quantifier instantiation, cvc5), eight at a time."""
import subprocess, hashlib, time, os, threading
from concurrent.futures import ThreadPoolExecutor
import z3

NPROC = int(os.environ.get('LVC_JOBS', '8'))
_pool = ThreadPoolExecutor(NPROC)
_cache = {}
stats = {'z3-ematch': [0, 0.0], 'z3-4.8': [0, 0.0], 'z3': [0, 0.0], 'cvc5': [0, 0.0], 'simplifier': [0, 0.0], 'undischarged': [0, 0.0], 'z3-inproc': [0, 0.0]}
_lock = threading.Lock()

def to_smt2(facts, goal):
    s = z3.Solver()
    for f in facts: s.add(f)
    s.add(z3.Not(goal))
    return s.to_smt2()

DEADLINE = time.time() + float(os.environ.get('LVC_BUDGET', '560'))
BUDGET = 'not attempted: time budget of the check used up'
def run_z3(txt, tmo, mbqi, exe='z3-new', more=()):
    opts = (['smt.auto_config=false', 'smt.mbqi=false'] if not mbqi else []) + list(more)
    t = time.time()
    try:
        p = subprocess.run([exe, '-in', '-T:%d' % max(1, int(tmo))] + opts + ['-memory:3000'], input=txt,
                           capture_output=True, text=True, timeout=tmo + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'error ' + p.stderr[:200]
    except subprocess.TimeoutExpired:
        out = 'timeout'
    return out, time.time() - t

def run_cvc5(txt, tmo, extra=()):
    t = time.time()
    txt2 = '(set-logic ALL)\n' + txt
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % int(tmo * 1000)] + list(extra), input=txt2,
                           capture_output=True, text=True, timeout=tmo + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'error ' + p.stderr[:200]
    except subprocess.TimeoutExpired:
        out = 'timeout'
    return out, time.time() - t

def _solve(txt, effort, qf=None):
    """effort: 'light' or 'full'. returns (discharged, backend, seconds, log)
    qf: the same problem without its quantified hypotheses (tried first)"""
    log = []
    quant = 'forall' in txt or 'exists' in txt
    plan = []
    if quant and qf is not None:
        plan.append(('z3', lambda t: weak(run_z3(qf, t, True)), {'light': 4, 'medium': 15, 'full': 40}[effort]))
    if quant:
        plan.append(('z3-ematch', lambda t: run_z3(txt, t, False), {'light': 4, 'medium': 8, 'full': 8}[effort]))
        if effort == 'full':
            plan.append(('z3-4.8', lambda t: run_z3(txt, t, False, 'z3'), 25))
        if effort != 'light' and (qf is None or effort == 'full'):
            plan.append(('cvc5', lambda t: run_cvc5(txt, t), 5 if effort == 'medium' else 15))
        if effort == 'full':
            plan.append(('z3', lambda t: run_z3(txt, t, True), 10))
            plan.append(('z3-ematch', lambda t: run_z3(txt, t, False) if 'timeout' in log[0] or 'timeout' in log[-4:][0] else ('skipped', 0), 20))
    else:
        plan.append(('z3', lambda t: run_z3(txt, t, True), {'light': 4, 'medium': 15, 'full': 60}[effort]))
        if effort == 'full':
            plan.append(('cvc5', lambda t: run_cvc5(txt, t), 40))
    tot = 0
    for name, f, tmo in plan:
        if time.time() > DEADLINE: log.append(BUDGET); break
        r, dt = f(tmo)
        tot += dt
        log.append('%s: %s (%.2fs)' % (name, r, dt))
        if r == 'unsat':
            with _lock:
                stats[name][0] += 1; stats[name][1] += dt
            return True, name, tot, log
        if r == 'sat':
            break
    with _lock:
        stats['undischarged'][0] += 1; stats['undischarged'][1] += tot
    return False, None, tot, log

def weak(r): return ('unknown (without quantified hypotheses)', r[1]) if r[0] != 'unsat' else r

def submit(txt, effort='full', qf=None):
    h = hashlib.sha1(txt.encode()).hexdigest()
    key = (h, effort)
    if key in _cache: return _cache[key]
    if effort == 'light' and (h, 'full') in _cache: return _cache[(h, 'full')]
    fu = _pool.submit(_solve, txt, effort, qf)
    _cache[key] = fu
    return fu

class Quick:
    """In-process incremental solver for the symbolic executor (quantifier-free facts only).
    Used to prune infeasible paths, to simplify wrap-around and to find the region an access
    belongs to; each positive answer is itself an unsat proof by z3."""
    def __init__(self, timeout_ms=400):
        self.s = z3.Solver()
        self.s.set('timeout', timeout_ms)
        self.stack = []
        self.cache = {}
        self.n = 0; self.npure = 0; self.bv = False
        self.si = z3.Solver(); self.si.set('timeout', 500); self.istack = []
        from .bvint import Abs
        self.abs = Abs()
        self.t = 0.0
    def sync(self, facts):
        i = 0
        st = self.stack
        while i < len(st) and i < len(facts) and st[i] is facts[i]: i += 1
        if i < len(st):
            self.s.pop(len(st) - i)
            del st[i:]
        for f in facts[i:]:
            self.s.push()
            if not has_quant(f):
                self.s.add(f)
            st.append(f)
    def intabs(self, facts, g):
        """the query under the integer abstraction of bvint (unsat there is unsat here)"""
        st = self.istack; i = 0
        while i < len(st) and i < len(facts) and st[i] is facts[i]: i += 1
        if i < len(st):
            self.si.pop(len(st) - i)
            del st[i:]
        for f in facts[i:]:
            self.si.push()
            if not has_quant(f):
                x, side = self.abs.form(f)
                for y in side: self.si.add(y)
                self.si.add(x)
            st.append(f)
        x, side = self.abs.form(g)
        self.si.push()
        for y in side: self.si.add(y)
        self.si.add(z3.Not(x))
        r = self.si.check()
        self.si.pop()
        return r == z3.unsat
    def entails(self, facts, goal):
        g = z3.simplify(goal)
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        key = (tuple([f.get_id() for f in facts]), g.get_id())
        c = self.cache.get(key)
        if c is not None: return c[0]
        t = time.time()
        self.n += 1
        if self.bv and self.intabs(facts, g):
            self.t += time.time() - t; self.npure += 1
            self.cache[key] = (True, g, list(facts))
            return True
        self.sync(facts)
        self.s.push()
        self.s.add(z3.Not(g))
        r = self.s.check()
        self.s.pop()
        self.t += time.time() - t
        res = (r == z3.unsat)
        self.cache[key] = (res, g, list(facts))     # keeps the terms alive, so ids stay unique
        return res

_pure = {}
def is_pure(f):
    """bit-vector and boolean constants only (no memory, no functions, no quantifiers)"""
    i = f.get_id()
    if i in _pure: return _pure[i][0]
    seen = set(); st = [f]; r = True
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or z3.is_array(x) or (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0) or z3.is_int(x):
            r = False; break
        st += x.children()
    _pure[i] = (r, f)
    return r
_hq = {}
def has_quant(f):
    i = f.get_id()
    if i in _hq: return _hq[i][0]
    seen = set(); st = [f]; r = False
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True; break
        st += x.children()
    _hq[i] = (r, f)
    return r
