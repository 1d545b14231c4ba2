"""Regenerates MANIFEST.json: a property is claimed when specs/<id>.py exists and is not listed in NA."""
import json, os, importlib.util, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(HERE, 'tools'))
from na import NA, NOTES
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []; na = []
for p in props:
    i = p['id']
    sp = os.path.join(HERE, 'specs', i + '.py')
    if i in NA: na.append({'property': i, 'reason': NA[i]}); continue
    if not os.path.exists(sp):
        na.append({'property': i, 'reason': 'contracts not written yet'}); continue
    m = importlib.import_module('specs.' + i)
    level = getattr(m, 'LEVEL', 'proof')
    bounded = getattr(m, 'BOUNDED', [])
    note = NOTES.get(i, '')
    base = ('Every obligation of %d function contracts is discharged from the LLVM IR clang produces for /repo on each run (no bound). ' % len(m.SPECS)) if m.SPECS else ''
    if bounded: base += 'Bounded stand-ins (not proved): ' + '; '.join(bounded) + '. '
    base += 'Trusts clang 18 (C to IR), the IR semantics of /verif/lvc, z3/cvc5, the memory model (disjoint, typed objects) and the library/callback contracts listed in the evidence. '
    checks.append({'property': i, 'quick_cmd': 'python3-vt lvc/check.py %s' % i, 'thorough_cmd': 'python3-vt lvc/check.py %s --tier thorough' % i,
                   'evidence_file': 'evidence/%s.json' % i,
                   'technique': 'contract-based deductive verification of the real code: function contracts and loop invariants over LLVM IR of /repo, obligations discharged by z3/cvc5; failed obligations replayed on the sanitized real code',
                   'level': level, 'level_note': (base + note).strip()})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3" && z3-new --version && cvc5 --version >/dev/null && mkdir -p evidence replays',
     'checks': checks, 'not_applicable': na,
     'notes': 'The verifier is /verif/lvc (see DESIGN.md); contracts are in specs/, drivers for counterexample replay and bounded stand-ins in drivers/. No hooks are needed in /repo.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
