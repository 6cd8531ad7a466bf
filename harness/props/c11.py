"""C11: deferred updating gives the same readings as immediate updating."""
from ..core import Sub
from .. import gs as st
from .. import twin

ID = 'C11'
RULE = 'distinct executed histories with at least two operations besides reads'


def run(case, ctx):
    cfg = case['cfg']
    A = twin.make(cfg, mode='deferred')
    B = twin.make(cfg, mode='immediate')
    mu = twin.mu_of(B)
    if case.get('init'):
        twin.initialise(A, case['init'], mu)
        twin.initialise(B, case['init'], mu)
    key = []
    twin.run_twin(A, B, case['ops'], ctx, f'{cfg}, deferred against immediate', key)
    acts = [k for k in key if not k.startswith('read')]
    ctx.count(max(len(key), 1), [repr(case)] if len(acts) >= 2 else ())


BASE = [twin.op_set(twin.SETTERS)]*6 + [twin.op_update]*3 + [twin.op_update_m] + [twin.op_read]*3
OTHER = [twin.op_prop, twin.op_type, twin.op_copy, twin.op_index, twin.op_add, twin.op_delete, twin.op_mass, twin.op_iter, twin.op_mode, twin.op_calc]


def cases(ops, lo, hi):
    return st.fixed_dictionaries(dict(cfg=twin.cfg_st, init=twin.init_st, ops=st.lists(st.one_of(*ops), min_size=lo, max_size=hi)))


SUBS = [
    # writes and reads only: every interleaving of the two views
    Sub('writes', run, cases(BASE, 2, 8), (200, 6000), shards=(8, 8), random_n=(2000, 80000)),
    Sub('history', run, cases(BASE + OTHER*2, 3, 12), (300, 10000), shards=(8, 8), random_n=(3000, 120000)),
]
