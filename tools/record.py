"""record.py C01 …: verifies the contracts of each property and, when all are discharged, records what code they are about"""
import sys, os, importlib, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lvc import prog, verify, solve, fingerprint as FP, check
os.environ['LVC_BUDGET'] = '3000'; solve.DEADLINE = 1e18
from concurrent.futures import ProcessPoolExecutor
import multiprocessing as mp
def main():
    bad = 0
    for pid in sys.argv[1:]:
        m = importlib.import_module('specs.' + pid); cfgs = getattr(m, 'CONFIGS', [()])
        jobs = []; check._P.clear()
        for ci, defs in enumerate(cfgs):
            check._P[ci] = prog.Program(getattr(m, 'WRAPPERS', ()), tuple(defs))
            for s in m.SPECS:
                try: s.fn and check._P[ci].lookup(s.fn)
                except KeyError: pass
            jobs += [(pid, ci, si) for si, s in enumerate(m.SPECS) if getattr(s, 'configs', None) is None or ci in s.configs]
        new = os.environ.get('LVC_NEW')            # only contracts without a record
        if new: d = FP.load(); jobs = [x for x in jobs if '%s|%d|%s' % (pid, x[1], m.SPECS[x[2]].label) not in d]
        with ProcessPoolExecutor(4, mp_context=mp.get_context('fork')) as ex: rs = list(ex.map(check.work, jobs))
        out = {}
        for (p_, ci, si), r in rs:
            s = m.SPECS[si]; k = '%s|%d|%s' % (pid, ci, s.label)
            if r.status != 'proved': bad = 1; print('NOT PROVED', k, r.limit, r.failed[:2]); continue
            if s.fn is None: continue
            names = sorted(set([s.fn] + list(r.inlined))); fp = FP.fingerprint(check._P[ci], names)
            if fp: out[k] = {'functions': names, 'code': fp}
            else: print('no text', k, names)
        d = FP.load(); d = {k: v for k, v in d.items() if new or not k.startswith(pid + '|')}; d.update(out)
        json.dump(d, open(FP.FILE, 'w'), indent=0, sort_keys=True)
        print(pid, len(out), 'of', len(rs), 'recorded', '%.0fs' % sum(r.secs for j, r in rs), 'longest %.0fs' % max([r.secs for j, r in rs] or [0]), flush=True)
    sys.exit(bad)
main()
