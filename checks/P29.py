from vlib import *
import os, re
PROP = 'P29'
M = f'{EX}/npu/modules'
TEL = [SIM + '/radsim_telemetry.cpp', SIM + '/radsim_utils.cpp', SIM + '/radsim_config.cpp']
def params(**kw): # the design's parameters with some sizes made smaller
    def g(ctx):
        s = open(M + '/params.hpp').read()
        for k, v in kw.items():
            s, n = re.subn(rf'(#define\s+{k}\s+)[0-9]+', rf'\g<1>{v}', s)
            if n != 1: print(f'  note: {k} is no plain number any more, left as it is')
        d = f'{ctx.work}/npu_' + '_'.join(f'{k}{v}' for k, v in sorted(kw.items())); os.makedirs(d, exist_ok=True); open(d + '/params.hpp', 'w').write(s); return [d] + gen_for('npu')(ctx)
    g.__name__ = 'npu_' + '_'.join(f'{k}{v}' for k, v in sorted(kw.items())); return g
SMALL = params(SECTORS=2, LANES=8); TIGHT = params(SECTORS=2, LANES=8, DATA_FIFO_DEPTH=32, UOP_FIFO_DEPTH=16)
def U(n, kind, srcs, q, t=None, gen=SMALL, reach=('end', 'out', 'all'), **kw):
    d = dict(NP_KIND=kind, NP_ID=0, NP_N=3, NP_WB=2, NP_WSYM=2, NP_USYM=2, NP_TAGS=1, NP_EXTRA=1, NP_NSYM=4, NP_BITS=32, NP_STALL=0, NP_GAP=0, NP_LATE=0, NP_HOLD=0, NP_WAIT=0, NP_EXACT=0, NP_TIME=60, NP_SLOW=0, NP_SKEW=0, NP_MUL=0, NP_PRE=0, NP_PREN=0, NP_ADDS=4); d.update(kw)
    return H(n, 'npu.cpp', [f'{M}/{s}.cpp' for s in srcs + ['fifo', 'instruction_fifo', 'register_file', 'instructions', 'sim_utils']] + TEL, [M, f'{EX}/npu'] + SIMINC, gen=gen, systemc=True, quick=[{**d, **v} for v in q], thorough=[{**d, **v} for v in t or q], reach=list(reach))
ONE = {'NP_N': 2, 'NP_USYM': 1, 'NP_WSYM': 0, 'NP_TAGS': 0}
LONG = {'NP_N': 60, 'NP_USYM': 0, 'NP_WB': 50, 'NP_WSYM': 0, 'NP_HOLD': 90, 'NP_TIME': 240, 'NP_NSYM': 3}
LAST = {'NP_N': 2, 'NP_USYM': 1, 'NP_WSYM': 2, 'NP_WAIT': 12, 'NP_TAGS': 2}
HARNESSES = [
 U('evrf', 0, ['evrf'], [{'NP_WSYM': 1, 'NP_N': 2, 'NP_USYM': 1}, {**ONE, 'NP_STALL': 2}, {**ONE, 'NP_GAP': 6}, {**ONE, 'NP_LATE': 9}, {**ONE, 'NP_PRE': 5, 'NP_PREN': 12, 'NP_N': 1, 'NP_WB': 1, 'NP_TAGS': 1, 'NP_EXTRA': 0}, {**LAST, 'NP_WB': 2, 'NP_WSYM': 1}], [{'NP_WB': 3, 'NP_WSYM': 2, 'NP_TAGS': 2}, {**ONE, 'NP_STALL': 4}, {**ONE, 'NP_GAP': 9, 'NP_WSYM': 1}, LAST]),
 U('evrflong', 0, ['evrf'], [LONG, {**LONG, 'NP_LATE': 3}], [LONG, {**LONG, 'NP_STALL': 2, 'NP_LATE': 3}], gen=TIGHT),
 U('mfu', 1, ['mfu'], [{**ONE, 'NP_WSYM': 1, 'NP_TAGS': 0}, {**ONE, 'NP_STALL': 1, 'NP_ID': 1, 'NP_MUL': 1, 'NP_BITS': 8}, {**ONE, 'NP_GAP': 4, 'NP_MUL': 1, 'NP_BITS': 8}, {**ONE, 'NP_LATE': 5, 'NP_ID': 1}, {**ONE, 'NP_PRE': 7, 'NP_PREN': 28, 'NP_ADDS': 0, 'NP_N': 1, 'NP_WB': 1, 'NP_TAGS': 1, 'NP_EXTRA': 0}, {**LAST, 'NP_ADDS': 0, 'NP_WSYM': 1, 'NP_MUL': 1, 'NP_BITS': 4, 'NP_ID': 1}], [{'NP_USYM': 1, 'NP_N': 2}, {**ONE, 'NP_STALL': 4, 'NP_MUL': 1, 'NP_BITS': 8, 'NP_WSYM': 1}, {**LAST, 'NP_ID': 1}], NP_TIME=66),
 U('mfulong', 1, ['mfu'], [{**LONG, 'NP_ID': 1, 'NP_MUL': 1, 'NP_BITS': 8}], [LONG, {**LONG, 'NP_ID': 1, 'NP_STALL': 1, 'NP_LATE': 3, 'NP_MUL': 1, 'NP_BITS': 8}], gen=TIGHT),
 U('loader', 2, ['loader'], [{'NP_USYM': 1, 'NP_N': 2}, {**ONE, 'NP_SKEW': 5, 'NP_N': 3}, {**ONE, 'NP_SLOW': 8}, {**ONE, 'NP_PRE': 5, 'NP_PREN': 11, 'NP_N': 1, 'NP_EXTRA': 0}, {**ONE, 'NP_LATE': 3, 'NP_SKEW': 2}], [{'NP_N': 2}, {**ONE, 'NP_STALL': 3, 'NP_SKEW': 5}, {**ONE, 'NP_GAP': 4, 'NP_SLOW': 8}], reach=['end', 'out', 'all', 'wb0', 'wb1']),
 U('loaderlong', 2, ['loader'], [{**LONG, 'NP_SLOW': 20}, {**LONG, 'NP_LATE': 2, 'NP_SKEW': 9}], [{**LONG, 'NP_SLOW': 20}, {**LONG, 'NP_STALL': 2, 'NP_LATE': 2, 'NP_SKEW': 9}], gen=TIGHT, reach=['end', 'out', 'all', 'wb0', 'wb1']),
]
