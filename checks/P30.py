from vlib import *
import os, re
PROP = 'P30'
M = f'{EX}/npu/modules'
TEL = [SIM + '/radsim_telemetry.cpp', SIM + '/radsim_utils.cpp', SIM + '/radsim_config.cpp']
def params(**kw): # the design's parameters with some sizes made smaller
    def g(ctx):
        s = open(M + '/params.hpp').read()
        for k, v in kw.items():
            s, n = re.subn(rf'(#define\s+{k}\s+)[0-9]+', rf'\g<1>{v}', s)
            if n != 1: print(f'  note: {k} is no plain number any more, left as it is')
        d = f'{ctx.work}/npu_' + '_'.join(f'{k}{v}' for k, v in sorted(kw.items())); os.makedirs(d, exist_ok=True); open(d + '/params.hpp', 'w').write(s); return [d] + gen_for('npu')(ctx)
    g.__name__ = 'npu_' + '_'.join(f'{k}{v}' for k, v in sorted(kw.items())); return g
SMALL = params(SECTORS=1, LANES=20); TIGHT = params(SECTORS=1, LANES=20, MOP_FIFO_DEPTH=16)
def U(n, kind, q, t=None, gen=SMALL, reach=('end', 'uop'), **kw):
    d = dict(DC_KIND=kind, DC_N=2, DC_SYM=1, DC_MAX=2, DC_NOP=1, DC_GAP=0, DC_STALL=0, DC_PRE=0, DC_HOLD=0, DC_TIME=70, DC_RUNS=1); d.update(kw)
    return H(n, 'npudec.cpp', [f'{M}/{s}.cpp' for s in ['decoders', 'instruction_fifo', 'instructions', 'sim_utils']] + TEL, [M, f'{EX}/npu'] + SIMINC, gen=gen, systemc=True, quick=[{**d, **v} for v in q], thorough=[{**d, **v} for v in t or q], reach=list(reach))
Q = [{'DC_SYM': 2}, {'DC_STALL': 6, 'DC_NOP': 0, 'DC_SYM': 0}, {'DC_GAP': 9, 'DC_SYM': 0, 'DC_N': 3}, {'DC_PRE': 14, 'DC_SYM': 1, 'DC_N': 1, 'DC_MAX': 1, 'DC_NOP': 0}]
T = [{'DC_SYM': 2, 'DC_MAX': 3}, {'DC_STALL': 20, 'DC_SYM': 1}, {'DC_GAP': 15, 'DC_SYM': 1, 'DC_N': 3}, {'DC_PRE': 40, 'DC_SYM': 1, 'DC_N': 2}]
HARNESSES = [
 U('mvudec', 0, Q, T, DC_TIME=170), U('evrfdec', 1, Q, T), U('mfudec', 2, Q, T), U('lddec', 3, Q, T),
 U('decmany', 1, [{'DC_N': 20, 'DC_SYM': 0, 'DC_HOLD': 30}], gen=TIGHT, DC_TIME=250), U('mopbits', 4, [{}], reach=['end', 'trip']),
 U('dispatch', 5, [{'DC_N': 3, 'DC_SYM': 1, 'DC_MAX': 2, 'DC_RUNS': 2}, {'DC_N': 16, 'DC_SYM': 0, 'DC_MAX': 0, 'DC_HOLD': 30, 'DC_STALL': 2, 'DC_TIME': 120}, {'DC_N': 3, 'DC_SYM': 0, 'DC_PRE': 7}], [{'DC_N': 3, 'DC_SYM': 2, 'DC_MAX': 2, 'DC_RUNS': 3, 'DC_GAP': 3}, {'DC_N': 30, 'DC_SYM': 1, 'DC_MAX': 0, 'DC_HOLD': 40, 'DC_STALL': 3, 'DC_TIME': 180}, {'DC_N': 4, 'DC_SYM': 1, 'DC_PRE': 14}], gen=TIGHT, reach=['end', 'run'], DC_TIME=30),
]
