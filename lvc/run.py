"""development: verify the specs of one property, verbosely"""
import sys, importlib, time, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lvc import prog, verify, solve
def main():
    pid = sys.argv[1]; only = sys.argv[2:] 
    m = importlib.import_module('specs.' + pid)
    cfgs = getattr(m, 'CONFIGS', [()])
    for defs in cfgs:
        p = prog.Program(getattr(m, 'WRAPPERS', ()), defs)
        for s in m.SPECS:
            if only and s.label not in only: continue
            t = time.time()
            dump = []
            r = verify.verify(p, s, bool(only), dump)
            print('%-40s %s %d/%d %.1fs %s' % (s.label, r.status, r.ok, r.n, time.time() - t, r.limit or ''), flush=True)
            for f in r.failed[:5]: print("     ", f[0], f[1], "; ".join(f[2])[:120])
            if only and dump:
                for i, o in enumerate(dump[:6]):
                    open('/tmp/obl%d.smt2' % i, 'w').write(getattr(o,'txt',''))
    print(solve.stats)
main()
