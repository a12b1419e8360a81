from vlib import *
PROP = 'P21'
def mods(d): return [f'{EX}/{d}/modules', f'{EX}/{d}'] + SIMINC
TEL = [SIM + '/radsim_telemetry.cpp', SIM + '/radsim_utils.cpp', SIM + '/radsim_config.cpp']
def F(d, k, var, srcs, **kw): return H(f'fifo{k}_' + d, 'fifo.cpp', [f'{EX}/{d}/modules/{s}' for s in srcs] + TEL, mods(d), gen=gen_for(d), systemc=True, quick=[{'FIFO_KIND': k, **v} for v in var[0]], thorough=[{'FIFO_KIND': k, **v} for v in var[1]], reach=['end', 'data'], **kw)
Q = ([{'STEPS': 6, 'CAP': 3, 'NORST': ''}, {'STEPS': 4, 'CAP': 2}], [{'STEPS': 8, 'CAP': 3, 'NORST': ''}, {'STEPS': 6, 'CAP': 2}])
A = ([{'IW': 4, 'OW': 2, 'STEPS': 4, 'CAP': 4}, {'IW': 1, 'OW': 3, 'STEPS': 5, 'CAP': 2}], [{'IW': 4, 'OW': 2, 'STEPS': 6, 'CAP': 4}, {'IW': 1, 'OW': 3, 'STEPS': 7, 'CAP': 2}, {'IW': 2, 'OW': 2, 'STEPS': 6, 'CAP': 3}])
NA = ([{'IW': 4, 'OW': 2, 'STEPS': 5, 'CAP': 4}, {'IW': 3, 'OW': 1, 'STEPS': 4, 'CAP': 4}], [{'IW': 4, 'OW': 2, 'STEPS': 6, 'CAP': 4}, {'IW': 3, 'OW': 1, 'STEPS': 6, 'CAP': 5}, {'IW': 2, 'OW': 2, 'STEPS': 6, 'CAP': 3}])
HARNESSES = [F('dlrm', 4, A, ['afifo.cpp', 'sim_utils.cpp']),F('add', 1, Q, ['fifo.cpp']), F('mult', 1, Q, ['fifo.cpp']), F('mlp', 2, Q, ['fifo.cpp', 'sim_utils.cpp']), F('dlrm', 2, Q, ['fifo.cpp', 'sim_utils.cpp']), F('npu', 5, Q, ['fifo.cpp', 'sim_utils.cpp', 'instructions.cpp']), F('npu', 6, NA, ['asymmetric_fifo.cpp', 'sim_utils.cpp', 'instructions.cpp']), F('npu', 7, Q, ['instruction_fifo.cpp', 'sim_utils.cpp', 'instructions.cpp']), F('mlp_int8', 3, Q, ['fifo.cpp', 'sim_utils.cpp', 'instructions.cpp'])]
