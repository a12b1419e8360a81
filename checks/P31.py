from vlib import *
import os, re
PROP = 'P31'
M = f'{EX}/npu/modules'
TEL = [SIM + '/radsim_telemetry.cpp', SIM + '/radsim_utils.cpp', SIM + '/radsim_config.cpp']
UNITS = ['mvu_sector', 'dpe', 'accum', 'decoders', 'fifo', 'asymmetric_fifo', 'instruction_fifo', 'register_file', 'piso_register_file', 'instructions', 'sim_utils']
def quoted(u): return re.search(r'^\s*#\s*include\s*"', open(f'{M}/{u}.cpp').read(), re.M)
def params(**kw): # the design's parameters with some sizes made smaller
    def g(ctx):
        s = open(M + '/params.hpp').read()
        for k, v in kw.items():
            s, n = re.subn(rf'(#define\s+{k}\s+)[0-9]+', rf'\g<1>{v}', s)
            if n != 1: print(f'  note: {k} is no plain number any more, left as it is')
        d = f'{ctx.work}/npu_' + '_'.join(f'{k}{v}' for k, v in sorted(kw.items())).replace('_PER_', ''); os.makedirs(d, exist_ok=True); open(d + '/params.hpp', 'w').write(s)
        for f in os.listdir(M): # headers that take the params.hpp beside them
            if f.endswith('.hpp') and '"params.hpp"' in open(f'{M}/{f}').read(): open(f'{d}/{f}', 'w').write(open(f'{M}/{f}').read())
        open(d + '/se_units.inc', 'w').write(''.join(f'#include "{u}.copy.cpp"\n' for u in UNITS if quoted(u))) # and the units that take such a header
        for u in UNITS:
            if quoted(u): open(f'{d}/{u}.copy.cpp', 'w').write(f'#line 1 "{M}/{u}.cpp"\n' + open(f'{M}/{u}.cpp').read())
        return [d] + gen_for('npu')(ctx)
    g.cwd = mems(kw); g.__name__ = 'npu_' + '_'.join(f'{k}{v}' for k, v in sorted(kw.items())); return g
def mems(kw): # the matrix memories' initial contents: one line of small numbers each, in the run's own directory
    def f(ctx, cwd):
        os.makedirs(cwd + '/register_files', exist_ok=True)
        for t in range(kw['TILES']):
            for e in range(kw['DPES_PER_SECTOR'] * kw['SECTORS']): open(f'{cwd}/register_files/mrf_tile_{t}_dpe_{e}.txt', 'w').write(' '.join(str(3 + l) for l in range(kw['LANES'])) + '\n')
    return f
S1 = dict(CORES=1, TILES=2, SECTORS=2, DPES_PER_SECTOR=2, LANES=2, TB_LANES=2, THREADS=1, DATA_FIFO_DEPTH=128)
ONE = params(**S1); TWO = params(**{**S1, 'THREADS': 2, 'DPES_PER_SECTOR': 1}); WIDE = params(**{**S1, 'LANES': 4, 'TILES': 1, 'CORES': 2}); TIGHT = params(**{**S1, 'CORES': 2, 'DATA_FIFO_DEPTH': 40, 'TILES': 1, 'DPES_PER_SECTOR': 1, 'UOP_FIFO_DEPTH': 20})
def U(n, q, t=None, gen=ONE, reach=('end', 'out'), **kw):
    d = dict(SE_ID=0, SE_N=1, SE_SYM=0, SE_ROWS=3, SE_COLS=2, SE_NSYM=2, SE_LATE=0, SE_STALL=0, SE_GAP=0, SE_PRE=0, SE_PREN=0, SE_HOLD=0, SE_EXTRA=0, SE_ONE=0, SE_PREW=0, SE_TIME=110); d.update(kw)
    return H(n, 'npusec.cpp', [f'{M}/{s}.cpp' for s in UNITS if not quoted(s)] + TEL, [M, f'{EX}/npu'] + SIMINC, gen=gen, cwd_setup=gen.cwd, systemc=True, quick=[{**d, **v} for v in q], thorough=[{**d, **v} for v in t or q], reach=list(reach))
HARNESSES = [
 U('sector', [{'SE_SYM': 1}, {'SE_N': 2, 'SE_LATE': 48, 'SE_ID': 1, 'SE_TIME': 160}, {'SE_N': 1, 'SE_LATE': 40, 'SE_PRE': 1, 'SE_PREN': 14, 'SE_PREW': 1, 'SE_TIME': 140}, {'SE_STALL': 12, 'SE_N': 2}, {'SE_PRE': 3, 'SE_PREN': 30, 'SE_NSYM': 1}]),
 U('wide', [{'SE_N': 2, 'SE_GAP': 3}, {'SE_PRE': 3, 'SE_PREN': 30, 'SE_NSYM': 1}], gen=WIDE), U('threads', [{'SE_N': 2, 'SE_GAP': 6, 'SE_TIME': 200}], gen=TWO),
 U('tight', [{'SE_N': 6, 'SE_HOLD': 180, 'SE_TIME': 460, 'SE_NSYM': 1, 'SE_EXTRA': 90, 'SE_ONE': 1}], gen=TIGHT),
]
