from vlib import *
import os
PROP = 'P23'
def mods(d): return [f'{EX}/{d}/modules', f'{EX}/{d}'] + SIMINC
TEL = [SIM + '/radsim_telemetry.cpp', SIM + '/radsim_utils.cpp', SIM + '/radsim_config.cpp', SIM + '/radsim_module.cpp']
def mem(zero, lanes, folder, ext, layer):
    def f(ctx, d): # the matrix memories' initialisation files
        os.makedirs(f'{d}/design/compiler/{folder}')
        for r in range(lanes):
            open(f'{d}/design/compiler/{folder}/layer{layer}_mvm0_dot{r}.{ext}', 'w').write(''.join(' '.join(str(0 if zero else (a * 7 + r * 3 + l * 5 + 1) % 11 - 4) for l in range(lanes)) + '\n' for a in range(2)))
    return f
def M(n, q, t=None, zero=0, layer=1, design='mlp', **kw):
    k = {'mlp': 0, 'mlp_int8': 2}.get(design, 1); d = dict(MV_KIND=k, MV_ZERO=zero, MV_LAYER=layer, MV_RAD=int(design == 'dlrm_two_rad'), MV_NI=2, MV_SYMI=1, MV_REDUCE=1, MV_DEST=1, MV_LOAD=0, MV_NX=2, MV_RFIRST=0, MV_LATE=0, MV_STALL=0, MV_HOLD=0, MV_GAP=0, MV_BITS=4, MV_NSYM=99, MV_EACH=0, MV_TIME=70)
    return H(n, 'mvm.cpp', [f'{EX}/{design}/modules/{s}' for s in ['sysc_mvm.cpp' if k == 2 else 'mvm.cpp', 'fifo.cpp', 'register_file.cpp', 'instructions.cpp', 'sim_utils.cpp'] + (['pipeline.cpp', 'datapath.cpp'] if k == 2 else [])] + TEL, mods(design), gen=gen_for(design), flags=['-DMINISC_EXACT_EVENTS'], systemc=True, quick=[{**d, **v} for v in q], thorough=[{**d, **v} for v in (t or q)], cwd_setup=mem(zero, 32 if k else 16, 'mvm_weights' if k else 'weight_mifs', 'dat' if k else 'mif', layer), reach=['end', 'out', 'all'], time=120)
F = dict(MV_NI=12, MV_EACH=1, MV_SYMI=0, MV_REDUCE=0, MV_NSYM=1, MV_DEST=0)
HARNESSES = [M('mlp', [{}, {'MV_SYMI': 0, 'MV_STALL': 3, 'MV_NX': 3, 'MV_RFIRST': 1}, {'MV_SYMI': 0, 'MV_LOAD': 3}, {'MV_SYMI': 0, 'MV_GAP': 6, 'MV_LATE': 0}]),
 M('zero', [{'MV_SYMI': 0, 'MV_DEST': 0, 'MV_REDUCE': 0}], zero=1),
 M('late', [{'MV_SYMI': 0, 'MV_LATE': 1}]),
 M('dlrm', [{}, {'MV_SYMI': 0, 'MV_STALL': 3, 'MV_NX': 3, 'MV_RFIRST': 1}, {'MV_SYMI': 0, 'MV_LOAD': 3}], design='dlrm'), M('int8', [{'MV_TIME': 200, 'MV_NSYM': 1, 'MV_SYMI': 2, 'MV_NX': 1}, {'MV_TIME': 200, 'MV_NSYM': 1, 'MV_SYMI': 0, 'MV_STALL': 2, 'MV_NX': 3, 'MV_RFIRST': 1}, {'MV_TIME': 200, 'MV_SYMI': 0, 'MV_LOAD': 2}], [{'MV_TIME': 200, **v} for v in ({}, {'MV_SYMI': 0, 'MV_STALL': 3, 'MV_NX': 3, 'MV_RFIRST': 1}, {'MV_SYMI': 0, 'MV_LOAD': 3})], design='mlp_int8'), M('two', [{'MV_SYMI': 2}], design='dlrm_two_rad'),
 M('fullint8', [{**F, 'MV_NX': 160, 'MV_HOLD': 380, 'MV_TIME': 900}], design='mlp_int8'), M('fullmlp', [{**F, 'MV_NX': 1030, 'MV_HOLD': 1100, 'MV_TIME': 2300}]), M('fulldlrm', [{**F, 'MV_NX': 1060, 'MV_HOLD': 1100, 'MV_TIME': 2300}], design='dlrm')]
