"""C30: command dispatch.  Texts are compared through ID (the identity of a text): strcmp(p, q) == 0 iff ID(p) == ID(q).
A command set holds SUB(0) … SUB(m-1)."""
from lvc.spec import *
from lvc import libc
from .common import *
S = z3.simplify; Z = z3.IntSort()
fn = lambda n, k=1: z3.Function(n, *([Z] * (k + 1)))
ID, SUB, oS, NAME = fn('ID'), fn('SUB'), fn('oSUB'), fn('NAME')
m = z3.Int('m'); i, a = z3.Ints('i!d a!d'); CMD = 'cork_command'
TEXTS = {b'--help': 1, b'-h': 2, b'help': 3}
def o(P, f): return P.off(CMD, f)
def ident(P, p):
    t = P.ex.cstring_at(P.st, p)
    if t is None: return ID(p)
    return I(TEXTS.setdefault(bytes(t), len(TEXTS) + 1))
def h_strcmp(P, args, ins):
    r = P.fresh('strcmp', 32); x, y = ident(P, args[0]), ident(P, args[1]); P.require('texts are compared', z3.And(args[0] > 0, args[1] > 0)); P.assume((r == 0) == (x == y)); return r
def quiet(P, args, ins): return P.fresh('printed', 31)
def command(P, p, what):
    P.rec('command', p, CMD, False); ty = P.r4(p + o(P, 'type')); P.assume(ty == (0 if what == 'set' else 1))
    if what == 'set':
        A = P.r8(p + o(P, 'set')); P.g['A'] = A; P.assume(z3.And(A > 0, m >= 0, m < 1 << 40)); P.region('set[]', A, 8 * (m + 1), ('words', 8), False); P.assume(P.r8(A + 8 * m) == 0)
        P.assume(FA([a], Imp(z3.And(A <= a, a < A + 8 * m, (a - A) % 8 == 0), z3.And(Sel(P.H(8), a) == SUB((a - A) / 8), SUB((a - A) / 8) > 0)), [Sel(P.H(8), a)]))
        P.family('subcommands', SUB, oS, I(0), m, P.reckind(CMD))
        P.assume(FA([i], Imp(z3.And(0 <= i, i < m), z3.And(oS(SUB(i)) == i, SUB(i) > 0, oS(SUB(i) + o(P, 'name')) == i, oS(SUB(i) + o(P, 'short_desc')) == i, Sel(P.H(8), SUB(i) + o(P, 'name')) == NAME(i), NAME(i) > 0)), [SUB(i)]))
def arguments(P, c, v):
    P.assume(z3.And(c >= 0, c < 1 << 31)); P.region('argv', v, 8 * (c + 1), ('words', 8), False)
    P.assume(FA([a], Imp(z3.And(v <= a, a < v + 8 * c, (a - v) % 8 == 0), Sel(P.H(8), a) > 0), [Sel(P.H(8), a)])); P.assume(ID(I(0)) == -1)
    P.assume(FA([i], Imp(z3.And(1 <= i), ID(i) >= 0), [ID(i)]))
nothing = lambda q: z3.BoolVal(False)
PRINT = dict(printf=quiet, puts=quiet, putchar=quiet)
SPECS = []
# look-up
def pre_sub(P): command(P, P.args[0], 'set'); P.assume(P.args[1] > 0)
def inv_sub(L):
    P = L.ctx; out = []
    for p in L.ptrs(): out.append(('%s = k-th' % p, lambda L, p=p: z3.And(0 <= L.k, L.k <= m, L.val(p) == P.g['A'] + 8 * L.k)))
    return out + [('none before it matches', lambda L: FA([i], Imp(z3.And(0 <= i, i < L.k), ID(NAME(i)) != ID(P.args[1])), [NAME(i)])), ('a candidate', lambda L: Imp(L.k < m, z3.And(SUB(L.k) > 0, NAME(L.k) > 0)))]
def found(P, rv, name, pre='', ens=None):
    j, d = z3.Ints('j!f d!f'); P.assume(d == oS(rv))
    P.ensure('a command of the set, or NULL', z3.Or(rv == 0, z3.And(0 <= d, d < m, rv == SUB(d)))); P.ensure('with that name', Imp(rv != 0, ID(NAME(d)) == ID(name)))
    P.ensure('the first one', Imp(z3.And(0 <= j, j < z3.If(rv == 0, m, d)), ID(NAME(j)) != ID(name)))
SPECS.append(Spec('cork_command_set_get_subcommand', pre_sub, lambda P, rv: (found(P, rv, P.args[1]), frame(P, nothing)), calls=dict(ALLOC, strcmp=h_strcmp), inv=inv_sub, bounds=lambda L: [m + 1], termination=True))
def h_sub(P, args, ins):
    P.require('in the commands of this set', args[0] == P.args[0]); P.require('a name', args[1] > 0); d = P.fresh('which', 40); s2 = P.st.clone(); nm = ident(P, args[1]); j = z3.Int('j!s')
    P.assume(z3.And(d < m, ID(NAME(d)) == nm, SUB(d) > 0, oS(SUB(d)) == d)); P.log('find', args[1], SUB(d)); P2 = P.at(s2); P2.log('find', args[1], I(0)); return Fork([(P.st, SUB(d)), (s2, I(0))])
# running a command
def pre_run(kind, opts):
    def pre(P):
        cmd, c, v = P.args; command(P, cmd, kind); arguments(P, c, v); P.assume(c >= 1)
        for l, n in (('crumb', 2), ('help', 2), ('parse', 3), ('run', 3), ('sub', 3), ('helpcmd', 3), ('find', 2)): P.init_log(l, n)
        po, rn = P.r8(cmd + o(P, 'parse_options')), P.r8(cmd + o(P, 'run')); P.assume(po > 0 if opts else po == 0); P.assume(rn > 0)
        P.st.ghost['left'] = c; P.st.ghost['at'] = v
        if not opts: P.st.ghost['left'] = S(c - 1); P.st.ghost['at'] = S(v + 8)
    return pre
def asked(P): cmd, c, v = P.args; x = ID(P.o8(v + 8)); return z3.And(c >= 2, z3.Or(x == 1, x == 2))
def ind_run(P, fp, args, ins):
    cmd, c, v = P.args; po, rn = P.o8(cmd + o(P, 'parse_options')), P.o8(cmd + o(P, 'run'))
    if len(args) == 2 and P.entails(fp == po) and P.entails(po != 0) and not P.g.get('norun'):
        if P.entails(P.loglen('parse') == 0) and P.entails(z3.And(args[0] == c, args[1] == v)):
            P.require('options are parsed once, from all arguments, before anything runs', z3.And(P.loglen('parse') == 0, P.loglen('run') == 0, z3.Not(asked(P)), args[0] == c, args[1] == v))
            r = P.fresh('options', 31); P.assume(z3.And(0 <= r, r <= c)); P.log('parse', args[0], args[1], r); P.gset('left', S(c - r)); P.gset('at', S(v + 8 * r)); return r
    P.require('the function of the command is called', fp == rn); P.log('run', fp, args[0], args[1]); return I(0)
def h_crumb(P, args, ins): P.log('crumb', args[0], args[-1]); return None
def h_help(P, args, ins): P.log('help', args[0], args[1]); return None
def h_helpcmd(P, args, ins): P.log('helpcmd', args[0], args[1], args[2]); return None
def h_run(P, args, ins): P.log('sub', args[0], args[1], args[2]); return None
def logs(P): return {k: P.loglen(k) for k in ('help', 'run', 'sub', 'helpcmd')}
def h_exit(P, args, ins):
    P.require('with a failure status', args[0] == 1); z = P.gget('left'); fl = P.loglen('find')
    P.require('only when no command, or an unknown one, is given', z3.And(z3.Not(asked(P)), z3.Or(z == 0, z3.And(fl == 1, P.logat('find', I(0), 1) == 0, P.logat('find', I(0), 0) == P.r8(P.gget('at')), ID(P.r8(P.gget('at'))) != 3))))
    P.require('nothing was run', z3.And(P.loglen('run') == 0, P.loglen('sub') == 0)); return End()
def post_run(kind):
    def post(P, rv):
        cmd, c, v = P.args; left, at = P.gget('left'), P.gget('at'); h = asked(P); first = ID(P.r8(at)); lg = logs(P); one = lambda k, cond: P.loglen(k) == z3.If(cond, 1, 0)
        P.ensure('its name is added to the usage line', z3.And(P.loglen('crumb') == 1, P.logat('crumb', I(0), 1) == P.o8(cmd + o(P, 'name'))))
        if kind == 'leaf':
            P.ensure('help is shown when asked for', one('help', h)); P.ensure('the command runs exactly once otherwise', one('run', z3.Not(h))); P.ensure('nothing else runs', z3.And(P.loglen('sub') == 0, P.loglen('helpcmd') == 0))
            P.ensure('with the arguments after its options', Imp(z3.Not(h), z3.And(P.logat('run', I(0), 1) == left, P.logat('run', I(0), 2) == at)))
        else:
            hc = z3.And(z3.Not(h), left > 0, first == 3); sub = z3.And(z3.Not(h), left > 0, first != 3)
            P.ensure('a command is given', z3.Or(h, left > 0)); P.ensure('help is shown when asked for', one('help', h)); P.ensure('the help command', one('helpcmd', hc)); P.ensure('a subcommand runs exactly once otherwise', one('sub', sub)); P.ensure('nothing else runs', P.loglen('run') == 0)
            P.ensure('the help command gets the remaining arguments', Imp(hc, z3.And(P.logat('helpcmd', I(0), 0) == cmd, P.logat('helpcmd', I(0), 1) == left, P.logat('helpcmd', I(0), 2) == at)))
            P.ensure('the subcommand named by the first remaining argument', Imp(sub, z3.And(P.loglen('find') == 1, P.logat('find', I(0), 0) == P.r8(at), P.logat('find', I(0), 1) != 0, P.logat('sub', I(0), 0) == P.logat('find', I(0), 1))))
            P.ensure('with the remaining arguments', Imp(sub, z3.And(P.logat('sub', I(0), 1) == left, P.logat('sub', I(0), 2) == at)))
        P.ensure('the help is about this command', Imp(h, P.logat('help', I(0), 0) == cmd)); frame(P, nothing)
    return post
RUN = dict(ALLOC, **PRINT, strcmp=h_strcmp, cork_buffer_append_printf=h_crumb, cork_command_show_help=h_help, cork_command_set_show_help=quiet, cork_command_set_run_help=h_helpcmd, cork_command_run=h_run, cork_command_set_get_subcommand=h_sub, exit=h_exit)
for k in ('leaf', 'set'):
    for opts in (True, False): SPECS.append(Spec('cork_command_run', pre_run(k, opts), post_run(k), label='cork_command_run (%s, %s)' % (k, 'with options' if opts else 'no options'), calls=RUN, indirect=ind_run, globals=('breadcrumbs_buf',)))
# main
def pre_main(P):
    P.init_log('top', 3); P.init_log('atexit', 1)
def h_top(P, args, ins): P.log('top', *args); return None
def h_atexit(P, args, ins): P.log('atexit', args[0]); return I(0)
def post_main(P, rv):
    P.ensure('succeeds', rv == 0); P.ensure('the root command is run once with all arguments', z3.And(P.loglen('top') == 1, *[P.logat('top', I(0), k) == P.args[k] for k in range(3)]))
SPECS.append(Spec('cork_command_main', pre_main, post_main, calls=dict(ALLOC, cork_command_run=h_top, atexit=h_atexit)))
# the help command: PATH(0) is the set, PATH(j+1) the subcommand of PATH(j) named by the j-th argument
CM, oC, TY, NM = fn('CM'), fn('oC'), fn('TY'), fn('NM'); FIND, PATH = fn('FIND', 2), fn('PATH'); nc = z3.Int('nc')
def pre_hc(P):
    cmd, c, v = P.args; arguments(P, c, v); P.assume(z3.And(c >= 1, nc >= 1)); P.family('commands', CM, oC, I(0), nc, P.reckind(CMD))
    P.assume(FA([i], Imp(z3.And(0 <= i, i < nc), z3.And([oC(CM(i) + x) == i for x in (0, o(P, 'name'), o(P, 'type'))] + [CM(i) > 0, z3.Or(TY(i) == 0, TY(i) == 1), Sel(P.H(4), CM(i) + o(P, 'type')) == TY(i), Sel(P.H(8), CM(i) + o(P, 'name')) == NM(i)])), [CM(i)]))
    P.assume(z3.And(PATH(I(0)) == 0, cmd == CM(I(0)), TY(I(0)) == 0)); P.init_log('help', 2); P.init_log('crumb', 2); P.st.ghost['step'] = I(0); P.assume(CM(I(0)) > 0)
    P.assume(z3.And([oC(CM(I(0)) + x) == 0 for x in (0, o(P, 'name'), o(P, 'type'))]))
def h_step(P, args, ins):
    k = P.gget('step'); cmd, c, v = P.args; P.require('the next argument names a subcommand of the command reached', z3.And(k < c - 1, args[0] == CM(PATH(k)), TY(PATH(k)) == 0, args[1] == P.o8(v + 8 + 8 * k)))
    nx = PATH(k + 1); s2 = P.st.clone(); P.assume(z3.And(0 <= nx, nx < nc, CM(nx) > 0)); P.assume(z3.And([oC(CM(nx) + x) == nx for x in (0, o(P, 'name'), o(P, 'type'))] + [z3.Or(TY(nx) == 0, TY(nx) == 1), Sel(P.H(4), CM(nx) + o(P, 'type')) == TY(nx)])); P.gset('step', S(k + 1))
    P.at(s2).gset('missing', I(1)); return Fork([(P.st, CM(nx)), (s2, I(0))])
def h_exit2(P, args, ins): P.require('with a failure status', args[0] == 1); P.require('only for an unknown command', P.gget('missing') == 1); P.require('no help was shown', P.loglen('help') == 0); return End()
def inv_hc(L):
    P = L.ctx; cmd, c, v = P.args; out = []
    for p in L.ptrs(): out += [('%s = command reached' % p, lambda L, p=p: L.val(p) == CM(PATH(L.k))), ('%s = remaining arguments' % p, lambda L, p=p: L.val(p) == v + 8 + 8 * L.k)]
    for p in L.ints(): out += [('%s = how many' % p, lambda L, p=p: L.val(p) == c - 1 - L.k)]
    return out + [('k', lambda L: z3.And(0 <= L.k, L.k <= c - 1)), ('steps', lambda L: L.ctx.gget('step') == L.k), ('nothing shown', lambda L: L.ctx.loglen('help') == 0), ('crumbs', lambda L: L.ctx.loglen('crumb') == L.k), ('known', lambda L: L.ctx.gget('missing') == 0),
                  ('the command reached', lambda L: z3.And([0 <= PATH(L.k), PATH(L.k) < nc, CM(PATH(L.k)) > 0, z3.Or(TY(PATH(L.k)) == 0, TY(PATH(L.k)) == 1), Sel(L.H(4), CM(PATH(L.k)) + o(P, 'type')) == TY(PATH(L.k))] + [oC(CM(PATH(L.k)) + x) == PATH(L.k) for x in (0, o(P, 'name'), o(P, 'type'))]))]
def post_hc(P, rv):
    k = P.gget('step'); P.ensure('one help text is shown', P.loglen('help') == 1); P.ensure('of the command the arguments lead to', P.logat('help', I(0), 0) == CM(PATH(k))); P.ensure('which is the last one, or a command without subcommands', z3.Or(k == P.args[1] - 1, TY(PATH(k)) == 1)); P.ensure('the usage line has each of them', P.loglen('crumb') == k); frame(P, nothing)
def pre_hc2(P): pre_hc(P); P.st.ghost['missing'] = I(0)
SPECS.append(Spec('cork_command_set_run_help', pre_hc2, post_hc, calls=dict(ALLOC, **PRINT, strcmp=h_strcmp, cork_buffer_append_printf=h_crumb, cork_command_show_help=h_help, cork_command_set_get_subcommand=h_step, exit=h_exit2), inv=inv_hc, globals=('breadcrumbs_buf',), bounds=lambda L: [L.ctx.args[1]], termination=True))
LEAKS = True
BOUNDED = ['the text of the help messages (cork_command_show_help): every subcommand of a set is listed']
TRUSTED = ['strcmp, exit, atexit, printf of the C library', 'buffers at the level of their contract (C05)', 'parse_options reports between 0 and argc consumed arguments and leaves the arguments alone']
ASSUME = ['argc >= 1, and argv holds argc strings', 'the commands of a set form a tree, ended by NULL']
EXPLANATION = 'The recursive call of cork_command_run is checked against the same contract: dispatch to any depth follows by induction on the depth of the tree.'
