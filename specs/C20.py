"""C20: timestamp unit conversions (32.32 fixed point)."""
from lvc.spec import *
WRAPPERS = ['ds.c']
D = {'msec': 1000, 'usec': 10**6, 'nsec': 10**9, 'gsec': 1 << 32}
def mk(u):
    d = D[u]
    def pre_rt(P): P.assume(z3.And(P.args[0] < (1 << 32), P.args[1] < d))
    def pre_init(P):
        P.region('ts', P.args[0], 8, ('words', 8)); P.assume(z3.And(P.args[1] < (1 << 32), P.args[2] < d))
    return [
        Spec('w_rt_' + u, pre_rt, lambda P, rv: P.ensure('the sub-second amount survives the round trip', rv == P.args[1])),
        Spec('w_init_' + u, pre_init, lambda P, rv: P.ensure('the seconds part is preserved', P.r8(P.args[0]) / (1 << 32) == P.args[1])),
        Spec('w_get_' + u, None, lambda P, rv: P.ensure('less than one second', rv < d)),
        Spec('w_mono_' + u, lambda P: P.assume(P.args[0] % (1 << 32) <= P.args[1] % (1 << 32)), lambda P, rv: P.ensure('conversion is monotonic', rv != 0)),
    ]
SPECS = mk('msec') + mk('usec') + mk('nsec') + mk('gsec') + [
    Spec('w_init_sec', lambda P: (P.region('ts', P.args[0], 8, ('words', 8)), P.assume(P.args[1] < (1 << 32))),
         lambda P, rv: P.ensure('seconds and no fraction', P.r8(P.args[0]) == P.args[1] * (1 << 32))),
    Spec('w_get_sec', None, lambda P, rv: P.ensure('seconds', rv == P.args[0] / (1 << 32))),
]
ASSUME = ['in-range inputs: seconds below 2^32 and a sub-second amount below one second']
