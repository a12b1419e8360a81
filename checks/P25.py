from vlib import *
PROP = 'P25'
TEL = [SIM + '/radsim_telemetry.cpp', SIM + '/radsim_utils.cpp', SIM + '/radsim_config.cpp', SIM + '/radsim_module.cpp']
def A(n, kind, srcs, q, t=None, design='add'):
    d = dict(AD_KIND=kind, AD_RAD=0, AD_STALL=3, AD_HOLD=0, AD_NSYM=3, AD_N=3, AD_TIME=20, AD_BITS=64, AD_RUNS=1)
    return H(n, 'add.cpp', [f'{EX}/{design}/modules/{s}.cpp' for s in srcs] + TEL, [f'{EX}/{design}/modules', f'{EX}/{design}'] + SIMINC, gen=gen_for(design), flags=[] if kind else ['-DMINISC_EXACT_EVENTS'], systemc=True, quick=[{**d, **v} for v in q], thorough=[{**d, **v} for v in (t or q)], reach=['end', 'out'], time=120)
C = [{'AD_STALL': 5, 'AD_NSYM': 2}, {'AD_N': 20, 'AD_HOLD': 24, 'AD_TIME': 60, 'AD_NSYM': 3, 'AD_STALL': 0}, {'AD_N': 20, 'AD_TIME': 50, 'AD_NSYM': 2, 'AD_STALL': 2, 'AD_HOLD': 18}]
U = [{}, {'AD_RUNS': 2, 'AD_STALL': 1, 'AD_TIME': 12}]
HARNESSES = [A('client', 0, ['client', 'fifo'], C), A('clientm', 0, ['client', 'fifo'], C, design='mult'), A('add', 1, ['adder'], U), A('mult', 2, ['mult'], U, design='mult')]
