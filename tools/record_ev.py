"""record_ev.py C15 …: like record.py, for contracts that evidence/<id>.json (a run on the current tree) reports as proved"""
import sys, os, importlib, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lvc import prog, fingerprint as FP, check
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for pid in sys.argv[1:]:
    m = importlib.import_module('specs.' + pid); cfgs = getattr(m, 'CONFIGS', [()]); out = {}; n = 0
    ev = json.load(open(os.path.join(HERE, 'evidence', pid + '.json'))); fns = []
    def walk(x):
        if isinstance(x, dict):
            if 'function' in x and 'config' in x: fns.append(x)
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    walk(ev); check._P.clear()
    for ci, defs in enumerate(cfgs):
        defs = cfgs[ci]
        P = check._P[ci] = prog.Program(getattr(m, 'WRAPPERS', ()), tuple(defs))
        for s in m.SPECS:
            try: s.fn and P.lookup(s.fn)
            except KeyError: pass
        cname = ' '.join(cfgs[ci]) or 'default'
        for si, s in enumerate(m.SPECS):
            if s.fn is None or (getattr(s, 'configs', None) is not None and ci not in s.configs): continue
            n += 1; f = [x for x in fns if x['function'] == s.label and x['config'] == cname]
            if len(f) != 1 or f[0]['status'] != 'proved': print('not proved', pid, s.label, ci, [x['status'] for x in f]); continue
            names = sorted(set([s.fn] + list(f[0]['inlined']))); fp = FP.fingerprint(P, names)
            if fp: out['%s|%d|%s' % (pid, ci, s.label)] = {'functions': names, 'code': fp}
    d = FP.load(); d = {k: v for k, v in d.items() if not k.startswith(pid + '|')}; d.update(out)
    json.dump(d, open(FP.FILE, 'w'), indent=0, sort_keys=True); print(pid, len(out), 'of', n)
