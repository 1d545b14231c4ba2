"""check.py <property> [--tier quick|thorough]
Verifies every contract of the property against the current working tree of /repo."""
import sys, os, json, time, importlib, subprocess, glob, traceback
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
os.environ.setdefault('LVC_JOBS', '3')
from lvc import prog as PR, verify as VF, solve, fingerprint as FP

GEN_TRUST = [
    'clang 18 front end and opt passes sroa, simplifycfg, loop-simplify, lcssa (C to LLVM IR), and the IR semantics implemented in /verif/lvc',
    'z3 5.x and cvc5 1.1 as provers of the generated obligations',
    'memory model: objects named in a contract are pairwise disjoint, do not wrap the address space (below 2^63) and are accessed with their declared scalar widths (C effective types)',
    'contracts assumed for C library functions (lvc/libc.py) and for client callbacks (in specs/)',
    'machine integers are exact (wrap-around is modelled); a loop marked with a termination obligation has a proved bound on its iterations, other loops are partially correct only',
]
_P = {}

def work(job):
    pid, ci, si = job
    m = importlib.import_module('specs.' + pid)
    p = _P[ci]
    return job, VF.verify(p, m.SPECS[si])

def work_again(job):
    """a second attempt, with the machine to itself"""
    pid, ci, si = job
    solve._pool = ThreadPoolExecutor(4); solve._cache.clear()
    m = importlib.import_module('specs.' + pid)
    return job, VF.verify(_P[ci], m.SPECS[si])

SAME = 'not re-proved within the solver limits; its code is identical to the code for which all these obligations were discharged (lvc/proved.json)'
def reconsider(pid, m, results, t0, tier):
    """tells obligations that fail from solvers that ran out of time"""
    rec = FP.load(); out = {}; again = []
    for j, r in results:
        if r.status != 'failed' or j[2] < 0: continue
        k = '%s|%d|%s' % (pid, j[1], m.SPECS[j[2]].label)
        if FP.same(_P[j[1]], rec.get(k)): r.status = 'limit'; r.limit = SAME
        else: again.append(j)
    if again and len(again) <= 12 and (tier == 'thorough' or time.time() - t0 < 500):
        import multiprocessing as mp
        solve.DEADLINE = t0 + (720 if tier == 'quick' else 3000)
        with ProcessPoolExecutor(2, mp_context=mp.get_context('fork')) as ex: new = dict(ex.map(work_again, again))
        results = [(j, new[j] if j in new and new[j].status == 'proved' else r) for j, r in results]
    return results

def build_lib(defs, san=True):
    """real code compiled natively (sanitized) from the working tree"""
    d = os.path.join(PR.scratch(), 'nat' + str(abs(hash((defs, san))) % 10**8))
    lib = os.path.join(d, 'libcork.a')
    flags = ['-g', '-O1', '-w', '-fno-omit-frame-pointer'] + (['-fsanitize=address,undefined', '-fno-sanitize=alignment,shift-base,nonnull-attribute,pointer-overflow', '-fno-sanitize-recover=undefined'] if san else []) + PR.cflags(defs)
    if os.path.exists(lib): return lib, flags
    os.makedirs(d)
    srcs = sorted(glob.glob(os.path.join(PR.REPO, 'src/libcork/*/*.c')))
    def one(s):
        o = os.path.join(d, os.path.basename(s) + '.o')
        r = subprocess.run(['gcc', '-c', s, '-o', o] + flags, capture_output=True, text=True)
        return o, r.returncode, r.stderr
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, srcs))
    for o, rc, err in rs:
        if rc: raise PR.BuildError(err[:2000])
    subprocess.run(['ar', 'rcs', lib] + [o for o, _, _ in rs], check=True)
    return lib, flags

def run_driver(pid, m, tier, secs, seed):
    """returns (found, text, cases)"""
    out_all = []
    cases = 0; distinct = 0
    drv = os.path.join(HERE, 'drivers', getattr(m, 'DRIVER', pid + '.c'))
    if not os.path.exists(drv): return None, 'no driver', 0, 0
    cfgs = getattr(m, 'CONFIGS', [()])
    for ci, defs in enumerate(cfgs):
        lib, flags = build_lib(tuple(defs))
        exe = os.path.join(PR.scratch(), 'drv_%s_%d' % (pid, ci))
        r = subprocess.run(['gcc', drv, '-o', exe, '-I', os.path.join(HERE, 'drivers')] + flags + [lib, '-lpthread'] + list(getattr(m, 'DRIVER_LIBS', [])), capture_output=True, text=True)
        if r.returncode:
            return None, 'driver does not build: ' + r.stderr[:1500], 0, 0
        n = 8
        def one(i):
            wd = os.path.join(PR.scratch(), 'wd_%s_%d_%d' % (pid, ci, i)); os.makedirs(wd, exist_ok=True)
            cmd = [exe, str(seed * 1000 + i), str(secs)]
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4096' % getattr(m, 'LEAKS', 0), UBSAN_OPTIONS='print_stacktrace=1', DRV_INDEX=str(i), DRV_TIER=tier)
            try:
                q = subprocess.run(cmd, capture_output=True, timeout=secs + 90, env=env, cwd=wd, stdin=subprocess.DEVNULL)
                return q.returncode, q.stdout.decode(errors='replace'), q.stderr.decode(errors='replace'), cmd
            except subprocess.TimeoutExpired as e:
                return -99, (e.stdout or b'').decode(errors='replace'), 'driver timed out', cmd
        with ThreadPoolExecutor(n) as ex: rs = list(ex.map(one, range(n)))
        for rc, so, se, cmd in rs:
            if rc not in (0, -99):
                return True, 'configuration %s\nseed %s\nexit %d\n%s\n%s' % (' '.join(defs) or 'default', cmd[1], rc, so[-6000:], se[:6000]), cases, distinct
            for w in so.split():
                if w.startswith('cases='): cases += int(w[6:])
                if w.startswith('distinct='): distinct += int(w[9:])
    return False, 'no failing input in %d cases' % cases, cases, distinct

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier == 'thorough': solve.DEADLINE = time.time() + 1800     # inherited by the forked workers
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    m = importlib.import_module('specs.' + pid)
    cfgs = getattr(m, 'CONFIGS', [()])
    jobs = []
    results = []
    build_err = None
    try:
        for ci, defs in enumerate(cfgs):
            _P[ci] = PR.Program(getattr(m, 'WRAPPERS', ()), tuple(defs))
            for s in m.SPECS:
                try: s.fn and _P[ci].lookup(s.fn)
                except KeyError: pass
            for si in range(len(m.SPECS)):
                if getattr(m.SPECS[si], 'configs', None) is None or ci in m.SPECS[si].configs: jobs.append((pid, ci, si))
    except PR.BuildError as e:
        build_err = str(e)
    wrapper_err = build_err and build_err.startswith(os.path.join(HERE, 'wrappers'))
    if build_err and not wrapper_err:
        print('cannot build /repo: ' + build_err)
        sys.exit(2)
    if wrapper_err: jobs = []
    weights = {si: getattr(s, 'weight', 1) for si, s in enumerate(m.SPECS)}
    jobs.sort(key=lambda j: -weights[j[2]])
    if jobs:
        import multiprocessing as mp
        with ProcessPoolExecutor(int(os.environ.get('LVC_PROCS', '6')), mp_context=mp.get_context('fork')) as ex:
            results = list(ex.map(work, jobs))
    if wrapper_err:      # an instantiation of a header macro no longer compiles: nothing is decided, the driver still runs
        for si, sp in enumerate(m.SPECS):
            r = VF.Result(sp.label); r.status = 'limit'; r.limit = 'extraction: ' + build_err[:400]
            results.append(((pid, 0, si), r))
    failed = [(j, r) for j, r in results if r.status == 'failed']
    limits = [(j, r) for j, r in results if r.status == 'limit']
    total = sum(r.n for j, r in results); ok = sum(r.ok for j, r in results)
    bounded = list(getattr(m, 'BOUNDED', []))
    found = None; dtext = ''; cases = distinct = 0
    need = True
    if need:      # on a fully proved tree the driver is a short cross-check of the trusted base on the compiled code
        secs = getattr(m, 'DRIVER_SECS', 20)
        if not (failed or limits): secs = (getattr(m, 'BOUNDED_SECS', 10) if bounded else 3) if tier == 'quick' else 120
        elif tier == 'thorough': secs = 180
        found, dtext, cases, distinct = run_driver(pid, m, tier, secs, seed)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    rc = 0
    cfgname = lambda ci: ' '.join(cfgs[ci]) or 'default'
    rp = os.path.join(HERE, 'replays', pid + '.txt')
    def replay(extra):
        with open(rp, 'w') as f:
            f.write('property %s\n' % pid)
            for j, r in failed:
                f.write('\ncontract %s [%s]: failed obligations:\n' % (r.label, cfgname(j[1])))
                for n, l, log in r.failed: f.write('  %s\n    at %s\n    solver: %s\n' % (n, l, '; '.join(log)))
            for j, r in limits: f.write('\nundecided %s: %s\n' % (r.label, r.limit))
            f.write('\n' + extra + '\n')
    viol = 0
    if failed and not found:
        results = reconsider(pid, m, results, t0, tier)
        failed = [(j, r) for j, r in results if r.status == 'failed']; limits = [(j, r) for j, r in results if r.status == 'limit']
        ok = sum(r.ok for j, r in results); total = sum(r.n for j, r in results)
    for j, r in failed:
        print('FAILED CONTRACT %s [%s]: %d of %d obligations not discharged' % (r.label, cfgname(j[1]), len(r.failed), r.n))
        for n, l, log in r.failed[:8]: print('   obligation: %s (at %s) %s' % (n, l, '; '.join(log)))
    for j, r in limits: print('NOT DECIDED %s [%s]: %s' % (r.label, cfgname(j[1]), r.limit))
    if found:
        viol = 1; rc = 1
        replay('concrete failing execution of the real code (driver %s):\n%s' % (getattr(m, 'DRIVER', pid + '.c'), dtext))
        print(dtext[:1500])
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    elif failed:
        viol = 1; rc = 1
        replay('no failing input found: ' + dtext)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    kf = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(kf):
        for ln in open(kf):
            if ln.startswith('finding: property=%s ' % pid): print('KNOWN-FINDING: property=%s %s' % (pid, ln.split(' ', 2)[2].strip()))
    back = {}
    for j, r in results:
        for b, (n, s) in r.backends.items():
            x = back.setdefault(b, [0, 0.0]); x[0] += n; x[1] += s
    fns = []
    for j, r in results:
        fns.append({'function': r.label, 'config': cfgname(j[1]), 'status': r.status, 'obligations': r.n, 'discharged': r.ok, 'limit': r.limit,
                    'inlined': r.inlined, 'callee_contracts': r.contracts, 'library_contracts': r.externals, 'paths': r.paths, 'seconds': round(r.secs, 2),
                    'loop_invariants': {k: sorted(v) for k, v in r.invs.items()}})
    level = getattr(m, 'LEVEL', 'proof')
    cov = {'obligations': total, 'discharged': ok, 'checker_cmd': 'python3-vt lvc/check.py %s --tier %s' % (pid, tier),
           'trusted_base': GEN_TRUST + list(getattr(m, 'TRUSTED', [])),
           'functions_under_contract': fns, 'backends': {k: {'obligations': v[0], 'solver_seconds': round(v[1], 2)} for k, v in back.items()},
           'bounded_stand_ins': [{'function': b, 'note': 'bounded, not proved'} for b in bounded] + [{'function': r.label, 'note': 'contract not decided on this tree (%s); bounded driver only' % r.limit} for j, r in limits],
           'sample_obligations': [dict(function=r.label, obligation=n, at=l, kind=k, backend=b, seconds=s) for j, r in results for n, l, k, b, s in r.names[:3]][:40]}
    if need:
        cov['driver'] = {'cases': cases, 'result': dtext[:300]}
        cov['evaluations'] = cases
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': GEN_TRUST[2:] + list(getattr(m, 'ASSUME', [])), 'wall_s': round(time.time() - t0, 2), 'violations': viol}
    if level == 'other':
        cov['explanation'] = getattr(m, 'EXPLANATION', '')
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d contracts, %d proved, %d failed, %d undecided; %d/%d obligations discharged; %.1fs' % (pid, len(results), sum(r.status == 'proved' for j, r in results), len(failed), len(limits), ok, total, time.time() - t0))
    sys.exit(rc)

if __name__ == '__main__':
    main()
