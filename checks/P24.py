from vlib import *
import os
PROP = 'P24'
def mods(d): return [f'{EX}/{d}/modules', f'{EX}/{d}'] + SIMINC
TEL = [SIM + '/radsim_telemetry.cpp', SIM + '/radsim_utils.cpp', SIM + '/radsim_config.cpp', SIM + '/radsim_module.cpp']
def D(n, kind, srcs, q, t=None, design='dlrm', reach=('end', 'out'), **kw):
    d = dict(DL_KIND=kind, DL_RAD=0, DL_DRAD=0, DL_STALL=0, DL_HOLD=0, DL_NSYM=2, DL_N=3, DL_TIME=40, DL_CTRLS=2, DL_CH=1, DL_VEC=2, DL_DEPTH=16, DL_PULSE=0, DL_SAME=0, DL_OUT=2, DL_NI=4, DL_SYMI=0, DL_NOPOP=0, DL_MAXOUT=400, DL_LATE=0, DL_HELD=0, DL_MAYFULL=0, DL_EL=16, DL_ZERO=0); d.update(kw)
    def root(ctx, w): os.makedirs(w + '/design/compiler', exist_ok=True)
    return H(n, 'dlrm.cpp', [f'{EX}/{design}/modules/{s}.cpp' for s in srcs] + TEL, mods(design), gen=gen_for(design), flags=['-DMINISC_EXACT_EVENTS'], systemc=True, quick=[{**d, **v} for v in q], thorough=[{**d, **v} for v in (t or q)], cwd_setup=root, reach=list(reach), time=120)
HARNESSES = [
 D('elu', 0, ['embedding_lookup', 'sim_utils'], [{'DL_STALL': 4}, {'DL_STALL': 3, 'DL_CTRLS': 1, 'DL_CH': 2, 'DL_NSYM': 4}, {'DL_N': 20, 'DL_SAME': 1, 'DL_HOLD': 30, 'DL_TIME': 100}, {'DL_PULSE': 2, 'DL_STALL': 2, 'DL_TIME': 60}]),
 D('fi', 1, ['feature_interaction', 'sim_utils'], [{'DL_N': 2, 'DL_TIME': 70}, {'DL_STALL': 4, 'DL_N': 2, 'DL_TIME': 80}, {'DL_SYMI': 2, 'DL_N': 2, 'DL_TIME': 90, 'DL_MAYFULL': 1, 'DL_DEPTH': 64}, {'DL_NOPOP': 1, 'DL_LATE': 12, 'DL_N': 2, 'DL_TIME': 90}, {'DL_N': 12, 'DL_HOLD': 150, 'DL_TIME': 300, 'DL_DEPTH': 16}], DL_NI=8),
 D('cfi', 2, ['custom_feature_interaction', 'sim_utils'], [{'DL_N': 3, 'DL_SYMI': 1, 'DL_NI': 2, 'DL_MAYFULL': 1, 'DL_NSYM': 6}, {'DL_STALL': 5, 'DL_N': 3, 'DL_NI': 3}, {'DL_NOPOP': 1, 'DL_LATE': 9, 'DL_NI': 3}, {'DL_N': 40, 'DL_HOLD': 60, 'DL_TIME': 160, 'DL_DEPTH': 8, 'DL_NI': 3}],
   [{'DL_N': 3, 'DL_SYMI': 2, 'DL_NI': 3, 'DL_MAYFULL': 1}, {'DL_STALL': 8, 'DL_N': 3, 'DL_NI': 3}, {'DL_NOPOP': 1, 'DL_LATE': 9, 'DL_NI': 3}, {'DL_N': 40, 'DL_HOLD': 60, 'DL_TIME': 160, 'DL_DEPTH': 8, 'DL_NI': 3}]),
 D('held', 2, ['custom_feature_interaction', 'sim_utils'], [{'DL_HELD': 1, 'DL_N': 3, 'DL_NI': 3, 'DL_STALL': 4}, {'DL_HELD': 1, 'DL_N': 20, 'DL_HOLD': 30, 'DL_TIME': 100, 'DL_DEPTH': 16, 'DL_NI': 3}]),
 D('heldfull', 2, ['custom_feature_interaction', 'sim_utils'], [{'DL_HELD': 1, 'DL_N': 40, 'DL_HOLD': 60, 'DL_TIME': 160, 'DL_DEPTH': 8, 'DL_NI': 3}], reach=()),
 D('fiheldfull', 1, ['feature_interaction', 'sim_utils'], [{'DL_HELD': 1, 'DL_N': 12, 'DL_HOLD': 150, 'DL_TIME': 300, 'DL_DEPTH': 16, 'DL_NI': 8}], reach=()),
 D('elu2', 0, ['embedding_lookup', 'sim_utils'], [{'DL_STALL': 4}], design='dlrm_two_rad'),
 D('cfi2', 2, ['custom_feature_interaction', 'sim_utils'], [{'DL_STALL': 3, 'DL_N': 3, 'DL_NI': 3}], design='dlrm_two_rad', DL_DRAD=1),
 D('col', 3, ['collector', 'fifo', 'sim_utils'], [{'DL_STALL': 5}, {'DL_N': 530, 'DL_HOLD': 540, 'DL_TIME': 1200, 'DL_NSYM': 1}, {'DL_ZERO': 1}]),
 D('colmlp', 3, ['collector', 'fifo', 'sim_utils'], [{'DL_STALL': 5}, {'DL_N': 1040, 'DL_HOLD': 1050, 'DL_TIME': 2300, 'DL_NSYM': 1}], design='mlp', DL_EL=32),
 D('col8', 3, ['collector', 'fifo', 'instructions', 'sim_utils'], [{'DL_STALL': 5}, {'DL_N': 530, 'DL_HOLD': 540, 'DL_TIME': 1200, 'DL_NSYM': 1}], design='mlp_int8', DL_EL=8),
 D('col2', 3, ['collector', 'fifo', 'sim_utils'], [{'DL_STALL': 3}], design='dlrm_two_rad', DL_RAD=1),
 D('dis', 4, ['dispatcher', 'fifo', 'sim_utils'], [{'DL_STALL': 5}, {'DL_N': 1040, 'DL_HOLD': 1050, 'DL_TIME': 2300, 'DL_NSYM': 1}, {'DL_ZERO': 1}], design='mlp', DL_EL=32),
 D('dis8', 4, ['dispatcher', 'fifo', 'instructions', 'sim_utils'], [{'DL_STALL': 5}, {'DL_N': 530, 'DL_HOLD': 540, 'DL_TIME': 1200, 'DL_NSYM': 1}, {'DL_ZERO': 1}], design='mlp_int8', DL_EL=8),
]
