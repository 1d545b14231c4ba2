"""Contract of the printf family for constant format strings: the text is the concatenation of the
format's literal parts and its conversions, in order (ISO C).  What is recorded is the exact list of
segments; the number of bytes is bounded by what the conversions can produce."""
import re, z3
from lvc.spec import *
from lvc.exec import ToolLimit
SPEC = re.compile(rb'%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*)?)?(hh|h|ll|l|j|z|t)?([diouxXcspfeg%])')
def parse(fmt):
    out = []; i = 0
    for m in SPEC.finditer(fmt):
        if m.start() > i: out.append(('lit', fmt[i:m.start()]))
        f, w, p, l, c = m.groups()
        if c == b'%': out.append(('lit', b'%'))
        else: out.append((c.decode(), (f or b'').decode(), (w or b'').decode(), None if p is None else p.decode(), (l or b'').decode()))
        i = m.end()
    if i < len(fmt): out.append(('lit', fmt[i:]))
    if any(b'%' in s[1] and s[1] != b'%' for s in out if s[0] == 'lit'): raise ToolLimit('format string %r' % fmt)
    return out
def segments(P, fmtptr, args):
    """[('lit', bytes) | (conversion, value, flags, width, precision, length-modifier)]"""
    fmt = P.ex.cstring_at(P.st, fmtptr)
    if fmt is None: raise ToolLimit('format is not a constant string')
    out = []; args = list(args)
    for s in parse(fmt):
        if s[0] == 'lit': out.append(s); continue
        s = list(s)
        for i in (2, 3):           # '*': the argument itself takes the place of the width or precision
            if s[i] == '*': s[i] = args.pop(0)
        out.append((s[0], args.pop(0)) + tuple(s[1:]))
    return out
def merge(segs):
    out = []
    for s in segs:
        if s[0] == 'lit' and out and out[-1][0] == 'lit': out[-1] = ('lit', out[-1][1] + s[1])
        else: out.append(s)
    return out
