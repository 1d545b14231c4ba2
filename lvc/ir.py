"""Parser for the textual LLVM IR (LLVM 18, opaque pointers) that clang produces from
/repo's C sources.  Only the subset that C code without floating point uses is handled;
anything else is kept as an instruction with op 'unsupported', which the executor reports
(it never silently skips one)."""
import re

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- types
# ('int', n) ('ptr',) ('void',) ('arr', n, T) ('struct', [T], packed) ('named', name) ('fp',) ('func',)

TOK = re.compile(r'''
    \s+ |
    (?P<str>c?"(?:[^"\\]|\\.)*") |
    (?P<loc>%(?:"[^"]*"|[-$._A-Za-z0-9]+)) |
    (?P<glob>@(?:"[^"]*"|[-$._A-Za-z0-9]+)) |
    (?P<meta>![-$._A-Za-z0-9]*) |
    (?P<attr>\#[0-9]+) |
    (?P<ell>\.\.\.) |
    (?P<num>-?[0-9]+(?:\.[0-9]+(?:e[+-]?[0-9]+)?)?) |
    (?P<hex>0x[0-9A-Fa-f]+) |
    (?P<id>[A-Za-z_][A-Za-z0-9_.]*) |
    (?P<p>[\[\](){}<>,=*:|])
''', re.X)

def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            raise Unsupported('token at: ' + s[pos:pos+40])
        pos = m.end()
        k = m.lastgroup
        if k is None:
            continue
        if k == 'num' and s.startswith('0x', m.start()):
            pass
        out.append((k, m.group(k)))
    return out

ATTR_WORDS = set('''noundef zeroext signext inreg noalias nonnull nocapture readonly readnone writeonly
 returned immarg dso_local local_unnamed_addr unnamed_addr private internal external constant global
 inbounds nuw nsw exact volatile tail musttail notail fastcc ccc nest noreturn nounwind writable
 nofpclass dead_on_unwind disjoint nneg samesign'''.split())

class TS:
    """token stream"""
    def __init__(self, toks):
        self.t = toks
        self.i = 0
    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)
    def next(self):
        x = self.peek()
        self.i += 1
        return x
    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False
    def expect(self, v):
        if not self.accept(v):
            raise Unsupported('expected %s at %s' % (v, self.t[self.i:self.i+6]))
    def eof(self):
        return self.i >= len(self.t)

def parse_type(ts):
    k, v = ts.next()
    if k == 'id':
        if v == 'ptr':
            if ts.accept('addrspace'):
                ts.expect('('); ts.next(); ts.expect(')')
            t = ('ptr',)
        elif v == 'void':
            t = ('void',)
        elif v in ('double', 'float', 'half', 'x86_fp80', 'fp128'):
            t = ('fp', v)
        elif v in ('label', 'metadata', 'token'):
            t = (v,)
        elif v[0] == 'i' and v[1:].isdigit():
            t = ('int', int(v[1:]))
        else:
            raise Unsupported('type ' + v)
    elif k == 'loc':
        t = ('named', v[1:].strip('"'))
    elif v == '[':
        n = int(ts.next()[1])
        ts.expect('x')
        e = parse_type(ts)
        ts.expect(']')
        t = ('arr', n, e)
    elif v == '{':
        t = ('struct', parse_tlist(ts, '}'), False)
    elif v == '<':
        if ts.accept('{'):
            l = parse_tlist(ts, '}')
            ts.expect('>')
            t = ('struct', l, True)
        else:
            n = int(ts.next()[1]); ts.expect('x'); e = parse_type(ts); ts.expect('>')
            t = ('vec', n, e)
    else:
        raise Unsupported('type tok %r' % (v,))
    while ts.peek()[1] == '(' and t[0] in ('void', 'int', 'ptr', 'named', 'struct', 'fp'):
        # function type: T (args)
        depth = 0
        while True:
            _, x = ts.next()
            if x == '(': depth += 1
            if x == ')':
                depth -= 1
                if depth == 0: break
        t = ('func', t)
    return t

def parse_tlist(ts, end):
    l = []
    if ts.accept(end):
        return l
    while True:
        l.append(parse_type(ts))
        if ts.accept(end):
            return l
        ts.expect(',')

# ---------------------------------------------------------------- values
# ('loc', name) ('glob', name) ('const', n) ('null',) ('undef',) ('zero',) ('str', bytes)
# ('agg', [(T, v)]) ('cexpr', op, ...) ('fpconst', text)

def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\':
                out.append(0x5c); i += 2
            else:
                out.append(int(s[i+1:i+3], 16)); i += 3
        else:
            out += s[i].encode('latin-1', 'replace'); i += 1
    return bytes(out)

def skip_attrs(ts):
    while True:
        k, v = ts.peek()
        if k == 'id' and v in ATTR_WORDS:
            ts.next()
        elif k == 'id' and v in ('align', ) :
            ts.next()
            if ts.peek()[1] == '(':
                skip_parens(ts)
            else:
                ts.next()
        elif k == 'id' and v in ('dereferenceable', 'dereferenceable_or_null', 'allocsize', 'memory', 'captures', 'range', 'initializes'):
            ts.next(); skip_parens(ts)
        else:
            return

def skip_parens(ts):
    if ts.peek()[1] != '(':
        return
    d = 0
    while True:
        _, v = ts.next()
        if v == '(': d += 1
        elif v == ')':
            d -= 1
            if d == 0: return

def parse_value(ts, ty):
    k, v = ts.next()
    if k == 'loc': return ('loc', v[1:].strip('"'))
    if k == 'glob': return ('glob', v[1:].strip('"'))
    if k == 'num':
        if ty and ty[0] == 'fp': return ('fpconst', v)
        return ('const', int(v))
    if k == 'hex': return ('fpconst', v)
    if k == 'str':
        if v.startswith('c'): return ('str', unescape(v[2:-1]))
        return ('str', unescape(v[1:-1]))
    if k == 'id':
        if v == 'true': return ('const', 1)
        if v == 'false': return ('const', 0)
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'zeroinitializer': return ('zero',)
        if v == 'none': return ('zero',)
        if v == 'getelementptr':
            skip_attrs(ts)
            if ts.peek()[1] == 'inrange':
                ts.next(); skip_parens(ts)
            ts.expect('(')
            t = parse_type(ts); ts.expect(',')
            ops = []
            while True:
                tt = parse_type(ts); skip_attrs(ts)
                ops.append((tt, parse_value(ts, tt)))
                if ts.accept(')'): break
                ts.expect(',')
            return ('cexpr', 'gep', t, ops)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext'):
            ts.expect('(')
            tt = parse_type(ts); x = parse_value(ts, tt)
            ts.expect('to'); t2 = parse_type(ts); ts.expect(')')
            return ('cexpr', v, tt, x, t2)
        if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'icmp'):
            raise Unsupported('constant expression ' + v)
        raise Unsupported('value ' + v)
    if v == '{' or v == '[':
        end = '}' if v == '{' else ']'
        l = []
        if ts.accept(end): return ('agg', l)
        while True:
            tt = parse_type(ts); x = parse_value(ts, tt)
            l.append((tt, x))
            if ts.accept(end): return ('agg', l)
            ts.expect(',')
    if v == '<':
        ts.expect('{')
        l = []
        while True:
            tt = parse_type(ts); x = parse_value(ts, tt)
            l.append((tt, x))
            if ts.accept('}'): break
            ts.expect(',')
        ts.expect('>')
        return ('agg', l)
    raise Unsupported('value token %r' % (v,))

class Instr:
    __slots__ = ('op', 'res', 'ty', 'a', 'line', 'text')
    def __init__(self, op, res=None, ty=None, a=None, line=None, text=''):
        self.op, self.res, self.ty, self.a, self.line, self.text = op, res, ty, a, line, text
    def __repr__(self):
        return '%s=%s %s %s' % (self.res, self.op, self.ty, self.a)

class Function:
    def __init__(self, name):
        self.name = name
        self.args = []       # [(ty, name, attrs)]
        self.ret = None
        self.blocks = {}     # label -> [Instr]
        self.order = []
        self.varargs = False
        self.linkage = ''
        self._loops = None
    # natural loops: header -> set(labels)
    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br': return list(t.a['targets'])
        if t.op == 'switch': return [t.a['default']] + [l for _, l in t.a['cases']]
        return []
    def loops(self):
        if self._loops is not None: return self._loops
        order = self.order
        preds = {b: [] for b in order}
        for b in order:
            for s in self.succs(b):
                preds[s].append(b)
        entry = order[0]
        # reachable
        reach = set(); st = [entry]
        while st:
            b = st.pop()
            if b in reach: continue
            reach.add(b); st += self.succs(b)
        dom = {b: set(reach) for b in reach}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == entry or b not in reach: continue
                ps = [p for p in preds[b] if p in reach]
                nd = set.intersection(*[dom[p] for p in ps]) | {b}
                if nd != dom[b]:
                    dom[b] = nd; ch = True
        loops = {}
        for b in order:
            if b not in reach: continue
            for s in self.succs(b):
                if s in dom[b]:
                    body = {s}; st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st += [p for p in preds[x] if p in reach]
                    loops.setdefault(s, set()).update(body)
        # irreducible check: every cycle must go through a header
        self._loops = loops
        return loops

class Module:
    def __init__(self):
        self.types = {}     # name -> type
        self.globals = {}   # name -> dict(ty, init, const, tls)
        self.funcs = {}     # name -> Function
        self.decls = {}     # name -> (ret type, argtypes)
        self.lines = {}     # dbg id -> (line)
        self.structs = {}   # C struct name -> {field: (off, size)} , '__size'
    # layout (x86-64)
    def sizeof(self, t):
        k = t[0]
        if k == 'int':
            n = (t[1] + 7) // 8
            p = 1
            while p < n: p *= 2
            return p
        if k == 'ptr': return 8
        if k == 'arr': return t[1] * self.sizeof(t[2])
        if k == 'named': return self.sizeof(self.types[t[1]])
        if k == 'struct': return self.struct_layout(t)[1]
        if k == 'fp': return {'double': 8, 'float': 4, 'x86_fp80': 16, 'half': 2, 'fp128': 16}[t[1]]
        if k == 'vec': return t[1] * self.sizeof(t[2])
        raise Unsupported('sizeof %r' % (t,))
    def alignof(self, t):
        k = t[0]
        if k == 'arr': return self.alignof(t[2])
        if k == 'named': return self.alignof(self.types[t[1]])
        if k == 'struct':
            if t[2]: return 1
            return max([self.alignof(x) for x in t[1]] or [1])
        return self.sizeof(t)
    def struct_layout(self, t):
        off = 0; offs = []
        for x in t[1]:
            if not t[2]:
                a = self.alignof(x)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += self.sizeof(x)
        if not t[2]:
            a = self.alignof(t)
            off = (off + a - 1) // a * a
        return offs, off
    def resolve(self, t):
        while t[0] == 'named': t = self.types[t[1]]
        return t

DBG = re.compile(r',? *!dbg (![0-9]+)')
META = re.compile(r',? *![a-zA-Z_.]+ ![0-9]+')

def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    cur = None
    label = None
    meta = {}
    while i < len(lines):
        ln = lines[i]; i += 1
        if cur is None:
            if ln.startswith('%') and ' = type ' in ln:
                name, rest = ln.split(' = type ', 1)
                name = name.strip()[1:].strip('"')
                if rest.strip() == 'opaque':
                    m.types[name] = ('struct', [], False)
                else:
                    m.types[name] = parse_type(TS(tokenize(rest)))
            elif ln.startswith('@'):
                parse_global(m, ln)
            elif ln.startswith('declare'):
                parse_decl(m, ln)
            elif ln.startswith('define'):
                cur = parse_define(ln)
                label = None
            elif ln.startswith('!') and ' = ' in ln:
                k, rest = ln.split(' = ', 1)
                meta[k.strip()] = rest
        else:
            if ln.startswith('}'):
                m.funcs[cur.name] = cur
                cur = None
                continue
            s = ln.strip()
            if not s or s.startswith(';') or s.startswith('#dbg'): continue
            mm = re.match(r'^("[^"]*"|[-$._A-Za-z0-9]+):', ln)
            if mm:
                label = mm.group(1).strip('"')
                cur.blocks[label] = []; cur.order.append(label)
                continue
            if label is None:
                label = 'entry0' if True else label
                # first block without explicit label: numbered; cannot be a branch target
                cur.blocks[label] = []; cur.order.append(label)
            # join multi-line switch
            if s.startswith('switch') and s.endswith('['):
                while True:
                    n = lines[i].strip(); i += 1
                    s += ' ' + n
                    if n.startswith(']'): break
            dbg = DBG.search(s)
            dbgid = dbg.group(1) if dbg else None
            s2 = META.sub('', DBG.sub('', s))
            if s2.startswith('call void @llvm.dbg.') or s2.startswith('tail call void @llvm.dbg.'):
                continue
            try:
                ins = parse_instr(s2)
            except Unsupported as e:
                ins = Instr('unsupported', a=str(e))
            ins.line = dbgid
            ins.text = s2
            cur.blocks[label].append(ins)
    # debug info
    loc = {}
    for k, r in meta.items():
        if 'DILocation(' in r:
            mm = re.search(r'line: (\d+)', r)
            if mm: loc[k] = int(mm.group(1))
    m.lines = loc
    for f in m.funcs.values():
        for b in f.blocks.values():
            for ins in b:
                ins.line = loc.get(ins.line)
    # struct layouts from debug info
    def field(r, name):
        mm = re.search(r'\b%s: ("[^"]*"|[^,)]+)' % name, r)
        return mm.group(1).strip('"') if mm else None
    for k, r in meta.items():
        if 'DW_TAG_structure_type' in r or 'DW_TAG_union_type' in r:
            n = field(r, 'name'); el = field(r, 'elements'); sz = field(r, 'size')
            if n is None or el is None or el not in meta: continue
            d = {'__size': int(sz) // 8 if sz else 0}
            def walk(elid, base):
                ids = re.findall(r'![0-9]+', meta[elid])
                for mid in ids:
                    mr = meta.get(mid, '')
                    fn = field(mr, 'name'); off = field(mr, 'offset'); fs = field(mr, 'size'); bt = field(mr, 'baseType')
                    o = base + (int(off) // 8 if off else 0)
                    if fn:
                        d[fn] = (o, int(fs) // 8 if fs else 0)
                    else:
                        # anonymous member: flatten
                        br = meta.get(bt, '')
                        e2 = field(br, 'elements')
                        if e2 in meta: walk(e2, o)
            walk(el, 0)
            m.structs[n] = d
    for k, r in meta.items():
        if 'DW_TAG_typedef' in r:
            n = field(r, 'name'); bt = field(r, 'baseType')
            br = meta.get(bt, '')
            if n and n not in m.structs and ('structure_type' in br or 'union_type' in br) :
                el = field(br, 'elements'); sz = field(br, 'size')
                if el in meta:
                    d = {'__size': int(sz) // 8 if sz else 0}
                    for mid in re.findall(r'![0-9]+', meta[el]):
                        mr = meta.get(mid, '')
                        fn = field(mr, 'name'); off = field(mr, 'offset'); fs = field(mr, 'size')
                        if fn: d[fn] = ((int(off) // 8 if off else 0), int(fs) // 8 if fs else 0)
                    m.structs[n] = d
        if 'DW_TAG_enumeration_type' in r:
            pass
    return m

def parse_global(m, ln):
    ln = META.sub('', DBG.sub('', ln))
    name, rest = ln.split(' = ', 1)
    name = name.strip()[1:].strip('"')
    tls = 'thread_local' in rest.split('"')[0]
    try:
        ts = TS(tokenize(rest))
        const = None
        ext = False
        while True:
            k, v = ts.peek()
            if v in ('constant', 'global'):
                const = (v == 'constant'); ts.next(); break
            if v == 'external': ext = True
            if v == 'alias':
                m.globals[name] = dict(alias=True, ty=None, init=None, const=False, tls=False)
                return
            ts.next()
            if ts.eof(): return
            if v == 'thread_local' and ts.peek()[1] == '(':
                skip_parens(ts)
        ty = parse_type(ts)
        init = None
        if not ts.eof() and ts.peek()[1] != ',':
            init = parse_value(ts, ty)
        m.globals[name] = dict(ty=ty, init=init, const=const, tls=tls, ext=ext)
    except Unsupported as e:
        m.globals[name] = dict(ty=None, init=None, const=False, tls=tls, err=str(e))

def parse_decl(m, ln):
    mm = re.search(r'@("[^"]*"|[-$._A-Za-z0-9]+)\(', ln)
    if mm:
        m.decls[mm.group(1).strip('"')] = True

def parse_define(ln):
    mm = re.search(r'@("[^"]*"|[-$._A-Za-z0-9]+)\(', ln)
    name = mm.group(1).strip('"')
    f = Function(name)
    f.linkage = 'internal' if re.match(r'define\s+(internal|linkonce_odr|linkonce|available_externally)', ln) else ''
    head = ln[len('define'):mm.start()]
    toks = tokenize(head)
    ts = TS(toks)
    # last type in head is the return type
    while not ts.eof():
        k, v = ts.peek()
        if k == 'id' and (v in ATTR_WORDS or v in ('hidden', 'linkonce_odr', 'linkonce', 'available_externally', 'protected', 'weak', 'common')):
            ts.next(); continue
        if k == 'id' and v in ('range', 'dereferenceable', 'align'):
            ts.next()
            if ts.peek()[1] == '(':
                skip_parens(ts)
            else: ts.next()
            continue
        break
    f.ret = parse_type(ts)
    # args
    rest = ln[mm.end():]
    depth = 1; j = 0
    while depth:
        if rest[j] == '(': depth += 1
        elif rest[j] == ')': depth -= 1
        j += 1
    ts = TS(tokenize(rest[:j-1]))
    while not ts.eof():
        if ts.accept('...'):
            f.varargs = True
        else:
            ty = parse_type(ts)
            attrs = {}
            while True:
                k, v = ts.peek()
                if k == 'id' and v in ('sret', 'byval'):
                    ts.next(); ts.expect('('); attrs[v] = parse_type(ts); ts.expect(')')
                elif k == 'id':
                    before = ts.i
                    skip_attrs(ts)
                    if ts.i == before:
                        raise Unsupported('arg attr %s in %s' % (v, name))
                else:
                    break
            k, v = ts.next()
            assert k == 'loc', (k, v, ln)
            f.args.append((ty, v[1:].strip('"'), attrs))
        if not ts.eof(): ts.expect(',')
    return f

BIN = set('add sub mul udiv sdiv urem srem and or xor shl lshr ashr'.split())
CAST = set('zext sext trunc ptrtoint inttoptr bitcast'.split())

def parse_instr(s):
    ts = TS(tokenize(s))
    res = None
    if ts.peek()[0] == 'loc' and ts.peek(1)[1] == '=':
        res = ts.next()[1][1:].strip('"'); ts.next()
    k, op = ts.next()
    if op in BIN:
        flags = set()
        while ts.peek()[0] == 'id' and ts.peek()[1] in ATTR_WORDS:
            flags.add(ts.next()[1])
        ty = parse_type(ts); a = parse_value(ts, ty); ts.expect(','); b = parse_value(ts, ty)
        return Instr('bin', res, ty, dict(op=op, x=a, y=b, flags=flags))
    if op in CAST:
        while ts.peek()[1] in ATTR_WORDS: ts.next()
        ty = parse_type(ts); a = parse_value(ts, ty); ts.expect('to'); t2 = parse_type(ts)
        return Instr('cast', res, t2, dict(op=op, x=a, fty=ty))
    if op == 'icmp':
        while ts.peek()[1] in ATTR_WORDS: ts.next()
        pred = ts.next()[1]
        ty = parse_type(ts); a = parse_value(ts, ty); ts.expect(','); b = parse_value(ts, ty)
        return Instr('icmp', res, ('int', 1), dict(pred=pred, x=a, y=b, oty=ty))
    if op == 'load':
        ts.accept('atomic'); ts.accept('volatile')
        ty = parse_type(ts); ts.expect(','); pt = parse_type(ts); p = parse_value(ts, pt)
        return Instr('load', res, ty, dict(p=p))
    if op == 'store':
        ts.accept('atomic'); ts.accept('volatile')
        ty = parse_type(ts); v = parse_value(ts, ty); ts.expect(','); pt = parse_type(ts); p = parse_value(ts, pt)
        return Instr('store', None, ty, dict(v=v, p=p))
    if op == 'getelementptr':
        skip_attrs(ts)
        t = parse_type(ts); ts.expect(',')
        ops = []
        while True:
            tt = parse_type(ts); ops.append((tt, parse_value(ts, tt)))
            if not ts.accept(','): break
        return Instr('gep', res, ('ptr',), dict(t=t, ops=ops))
    if op == 'alloca':
        ts.accept('inalloca')
        t = parse_type(ts); cnt = None
        while ts.accept(','):
            if ts.peek()[1] == 'align': ts.next(); ts.next(); continue
            tt = parse_type(ts); cnt = (tt, parse_value(ts, tt))
        return Instr('alloca', res, ('ptr',), dict(t=t, n=cnt))
    if op == 'br':
        if ts.peek()[1] == 'label':
            ts.next(); return Instr('br', a=dict(c=None, targets=[ts.next()[1][1:].strip('"')]))
        ty = parse_type(ts); c = parse_value(ts, ty); ts.expect(','); ts.expect('label')
        t1 = ts.next()[1][1:].strip('"'); ts.expect(','); ts.expect('label'); t2 = ts.next()[1][1:].strip('"')
        return Instr('br', a=dict(c=c, targets=[t1, t2]))
    if op == 'switch':
        ty = parse_type(ts); v = parse_value(ts, ty); ts.expect(','); ts.expect('label')
        d = ts.next()[1][1:].strip('"'); ts.expect('[')
        cases = []
        while not ts.accept(']'):
            tt = parse_type(ts); c = parse_value(ts, tt); ts.expect(','); ts.expect('label')
            cases.append((c[1], ts.next()[1][1:].strip('"')))
        return Instr('switch', ty=ty, a=dict(v=v, default=d, cases=cases))
    if op == 'ret':
        ty = parse_type(ts)
        v = None if ty[0] == 'void' else parse_value(ts, ty)
        return Instr('ret', ty=ty, a=dict(v=v))
    if op == 'unreachable':
        return Instr('unreachable')
    if op == 'phi':
        ty = parse_type(ts); inc = []
        while True:
            ts.expect('['); v = parse_value(ts, ty); ts.expect(','); l = ts.next()[1][1:].strip('"'); ts.expect(']')
            inc.append((v, l))
            if not ts.accept(','): break
        return Instr('phi', res, ty, dict(inc=inc))
    if op == 'select':
        tc = parse_type(ts); c = parse_value(ts, tc); ts.expect(',')
        t1 = parse_type(ts); a = parse_value(ts, t1); ts.expect(',')
        t2 = parse_type(ts); b = parse_value(ts, t2)
        return Instr('select', res, t1, dict(c=c, x=a, y=b))
    if op == 'freeze':
        ty = parse_type(ts); return Instr('freeze', res, ty, dict(x=parse_value(ts, ty)))
    if op == 'extractvalue':
        ty = parse_type(ts); a = parse_value(ts, ty); idx = []
        while ts.accept(','): idx.append(int(ts.next()[1]))
        return Instr('extractvalue', res, None, dict(x=a, idx=idx, ty=ty))
    if op == 'insertvalue':
        ty = parse_type(ts); a = parse_value(ts, ty); ts.expect(',')
        t2 = parse_type(ts); b = parse_value(ts, t2); idx = []
        while ts.accept(','): idx.append(int(ts.next()[1]))
        return Instr('insertvalue', res, ty, dict(x=a, v=b, idx=idx))
    if op in ('tail', 'musttail', 'notail'):
        k, op = ts.next()
    if op == 'call':
        skip_attrs(ts)
        ty = parse_type(ts)
        if ty[0] == 'func': ty = ty[1]
        if ts.peek()[1] == 'asm':
            while ts.peek()[1] in ('asm', 'sideeffect'): ts.next()
            if ts.next()[1].strip('"') == 'pause': return Instr('nop', None, ty, {})
            raise Unsupported('inline assembly')
        callee = parse_value(ts, None)
        ts.expect('(')
        args = []
        while not ts.accept(')'):
            tt = parse_type(ts)
            attrs = {}
            while True:
                k, v = ts.peek()
                if k == 'id' and v in ('sret', 'byval'):
                    ts.next(); ts.expect('('); attrs[v] = parse_type(ts); ts.expect(')')
                elif k == 'id':
                    before = ts.i
                    skip_attrs(ts)
                    if ts.i == before: break
                else: break
            if tt[0] == 'metadata':
                # skip to next comma/paren at depth 0
                d = 0
                while True:
                    _, v = ts.peek()
                    if d == 0 and v in (',', ')'): break
                    if v == '(': d += 1
                    if v == ')': d -= 1
                    ts.next()
                args.append((tt, ('undef',), attrs))
            else:
                args.append((tt, parse_value(ts, tt), attrs))
            ts.accept(',')
        return Instr('call', res, ty, dict(callee=callee, args=args))
    if op == 'cmpxchg':
        ts.accept('weak'); ts.accept('volatile')
        pt = parse_type(ts); p = parse_value(ts, pt); ts.expect(',')
        t1 = parse_type(ts); c = parse_value(ts, t1); ts.expect(',')
        t2 = parse_type(ts); n = parse_value(ts, t2)
        return Instr('cmpxchg', res, t1, dict(p=p, c=c, n=n))
    if op == 'atomicrmw':
        ts.accept('volatile')
        o = ts.next()[1]
        pt = parse_type(ts); p = parse_value(ts, pt); ts.expect(',')
        t1 = parse_type(ts); v = parse_value(ts, t1)
        return Instr('atomicrmw', res, t1, dict(p=p, v=v, op=o))
    raise Unsupported('instruction ' + op)
