"""What a proof was about: the LLVM IR of a set of functions, with everything that does not influence behaviour (debug
information, numbering of metadata, attributes and string constants) removed, and the types and globals it mentions.
lvc/proved.json (committed, written by tools/record.py) holds the fingerprint of each contract's code when all its obligations
were last discharged.  A check never uses it to skip a proof; it only tells a solver that ran out of time on that very same code
apart from an obligation that fails because the code changed."""
import re, hashlib, json, os
FILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'proved.json')
_idx = {}
def index(p):
    if id(p) in _idx: return _idx[id(p)][0]
    fns, types, globs = {}, {}, {}
    for s, t in p.text.items():
        for m in re.finditer(r'^define [^\n]*?@"?([\w.$]+)"?\(.*?^}', t, re.M | re.S): fns.setdefault(m.group(1), []).append((s, m.group(0)))
        types[s] = dict(re.findall(r'^(%[\w.]+) = (type .*)$', t, re.M))
        globs[s] = dict(re.findall(r'^(@[\w.$]+) = (.*)$', t, re.M))
    _idx[id(p)] = ((fns, types, globs), p)
    return _idx[id(p)][0]
def norm(p, s, text):
    _, types, globs = index(p)
    out = []; seen = set()
    def strip(l):
        l = re.sub(r'(?<=\s);.*$', '', l); l = re.sub(r',? ?![\w.]+ !\d+', '', l); l = re.sub(r' #\d+', '', l)
        return l.rstrip()
    for l in text.split('\n'):
        if 'llvm.dbg.' in l or not l.strip(): continue
        out.append(strip(l))
    body = '\n'.join(out); extra = []
    st = re.findall(r'%struct[\w.]+|%union[\w.]+|@[\w.$]+', body)
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        d = types[s].get(n) or globs[s].get(n)
        if d is None: continue
        d = strip(d); st += re.findall(r'%struct[\w.]+|%union[\w.]+|@[\w.$]+', d); extra.append((n, d))
    con = {n: d for n, d in extra if re.match(r'@\.str|@__PRETTY|@__func__', n)}
    lit = lambda x: re.sub(r'@[\w.$]+', lambda m: '<%s>' % con[m.group(0)] if m.group(0) in con else m.group(0), x)
    return lit(body) + '\n' + '\n'.join(sorted('%s = %s' % (n, lit(d)) for n, d in extra if n not in con))
def fingerprint(p, names):
    fns = index(p)[0]; h = hashlib.sha1()
    for n in sorted(set(names)):
        ds = sorted(norm(p, s, t) for s, t in fns.get(n, []))
        if not ds: return None
        for d in ds: h.update(d.encode())
    return h.hexdigest()
def load():
    try: return json.load(open(FILE))
    except (OSError, ValueError): return {}
def same(p, rec):
    return bool(rec) and fingerprint(p, rec['functions']) == rec['code']
