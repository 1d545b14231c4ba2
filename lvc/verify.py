"""The verifier: Houdini over the loop-invariant candidates, then every remaining obligation of the
function is sent to the solvers."""
import time, z3, traceback
from concurrent.futures import CancelledError
from . import exec as E, solve
from .ir import Unsupported

class Result:
    def __init__(self, label):
        self.label = label
        self.status = None        # 'proved' | 'failed' | 'limit'
        self.failed = []          # [(name, line, log)]
        self.n = 0; self.ok = 0
        self.backends = {}
        self.secs = 0.0
        self.limit = None
        self.rounds = 0
        self.paths = 0
        self.invs = {}
        self.inlined = []; self.contracts = []; self.externals = []
        self.names = []
        self.vacuity = None

def verify(prog, spec, verbose=False, dump=None):
    res = Result(spec.label)
    t0 = time.time()
    try:
        if spec.fn is None:
            gs = spec.goals()
            fu = [(n, solve.submit(solve.to_smt2(f, g), 'full')) for n, f, g in gs]
            for n, f in fu:
                ok, be, dt, log = f.result()
                res.n += 1
                res.names.append((n, 'lemma', 'lemma', be, round(dt, 3)))
                if ok:
                    res.ok += 1; b = res.backends.setdefault(be, [0, 0.0]); b[0] += 1; b[1] += dt
                else: res.failed.append((n, 'lemma', log))
            res.status = 'failed' if res.failed else 'proved'
            res.secs = time.time() - t0
            return res
        _verify(prog, spec, res, verbose, dump)
    except E.ToolLimit as e:
        res.status = 'limit'; res.limit = str(e)
    except Unsupported as e:
        res.status = 'limit'; res.limit = 'unsupported: ' + str(e)
    except KeyError as e:
        res.status = 'limit'; res.limit = 'name not found: %s' % e
        if verbose: traceback.print_exc()
    except (AttributeError, IndexError, TypeError, ValueError, z3.Z3Exception, RecursionError) as e:
        res.status = 'limit'; res.limit = 'internal: %s: %s' % (type(e).__name__, e)
        if verbose: traceback.print_exc()
    res.secs = time.time() - t0
    return res

SKIPPED = 'not attempted: other obligations of this contract already failed'
def solve_all(obls, effort_override=None, bv=False, stop_after=None):
    futs = []
    for o in obls:
        if o.result is None:
            txt = solve.to_smt2(o.facts, o.goal)
            qf = None
            if bv and any(solve.has_quant(f) for f in o.facts) and not solve.has_quant(o.goal): qf = solve.to_smt2([f for f in o.facts if not solve.has_quant(f)], o.goal)
            futs.append((o, solve.submit(txt, effort_override or o.effort, qf)))
            o.txt = txt; o.txt2 = qf
    nbad = 0
    for o, f in futs:
        if stop_after is not None and nbad >= stop_after and f.cancel():
            for k in [k for k, v in solve._cache.items() if v is f]: del solve._cache[k]
            o.result = (False, None, 0, [SKIPPED]); continue
        try: o.result = f.result()
        except CancelledError: o.result = (False, None, 0, [SKIPPED]); continue
        if not o.result[0]: nbad += 1

def _verify(prog, spec, res, verbose, dump):
    ex = E.Executor(prog, spec.fn, spec, spec.mode, spec.quick_ms)
    ex.max_paths = spec.max_paths
    rnd = 0
    while True:
        rnd += 1
        t = time.time()
        ex.run_once()
        inv = [o for o in ex.obls if o.kind == 'inv']
        t1 = time.time()
        solve_all(inv, bv=spec.mode == 'bv')
        bad = [o for o in inv if not o.result[0]]
        if verbose:
            print('  round %d: %d obls, %d inv, %d dropped, exec %.1fs solve %.1fs' % (rnd, len(ex.obls), len(inv), len(bad), t1 - t, time.time() - t1), flush=True)
            if dump is not None:
                for bi, o in enumerate(bad): open('/tmp/inv_%d_%d.smt2' % (rnd, bi), 'w').write('; %s %s\n' % (o.tag, o.name) + (o.txt2 or o.txt))
            for o in bad: print('     drop', o.tag, 'line', o.line, o.name.split(']')[-1], o.result[3])
        if not bad: break
        for o in bad: ex.dropped.setdefault(o.tag[0], set()).add(o.tag[1])
        if time.time() > solve.DEADLINE: raise E.ToolLimit('time budget used up')
        if rnd > 40: raise E.ToolLimit('invariant inference does not converge')
    # termination: some bound candidate must survive for each cut loop
    if spec.check_termination:
        keys = set(o.tag[0] for o in inv)
        for k in set(ex.loopkeys):
            surv = [o for o in inv if o.tag[0] == k and o.tag[1].startswith(('termination', 'autobound'))]
            o = E.Obl('loop %s terminates (a bound on the iteration count is invariant)' % k, None, None, 'termination')
            o.result = (bool(surv), 'houdini', 0, ['no bound candidate is inductive'])
            ex.obls.append(o)
    rest = [o for o in ex.obls if o.kind != 'inv']
    solve_all(rest, bv=spec.mode == 'bv', stop_after=8)
    und = [o for o in rest if not o.result[0]]
    if und and all(o.result[3] and o.result[3][-1] == solve.BUDGET for o in und): raise E.ToolLimit('time budget used up with %d obligations open' % len(und))
    # vacuity: at least one exit is reachable as far as the solver can tell
    if not ex.exits and not getattr(spec, 'noreturn', False):
        raise E.ToolLimit('no path reaches the end of the function')
    fs = [solve.submit(solve.to_smt2(f, z3.BoolVal(False)), 'light') for f in ex.exits[:24]]
    dead = [f.result()[0] for f in fs]
    if fs and all(dead): raise E.ToolLimit('vacuous: every path condition is contradictory')
    for o in ex.obls:
        res.n += 1
        ok, be, dt, log = o.result
        if ok:
            res.ok += 1
            b = res.backends.setdefault(be, [0, 0.0]); b[0] += 1; b[1] += dt
        else:
            res.failed.append((o.name, o.line, log))
            if dump is not None: dump.append(o)
    res.names = [(o.name, o.line, o.kind, o.result[1], round(o.result[2], 3)) for o in ex.obls]
    res.rounds = rnd; res.paths = ex.paths
    for o in inv:
        res.invs.setdefault(o.tag[0], set()).add(o.tag[1])
    res.inlined = sorted(ex.inlined); res.contracts = sorted(ex.used_contracts); res.externals = sorted(ex.externals)
    res.status = 'failed' if res.failed else 'proved'
    if verbose:
        for n, l, log in res.failed: print('  FAILED', n, 'at', l, log)
        print('  %s: %s %d/%d obligations, %d rounds, %d paths, quick n=%d %.1fs' % (spec.label, res.status, res.ok, res.n, rnd, ex.paths, ex.quick.n, ex.quick.t))
