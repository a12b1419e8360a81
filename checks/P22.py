from vlib import *
PROP = 'P22'
def mods(d): return [f'{EX}/{d}/modules', f'{EX}/{d}'] + SIMINC
TEL = [SIM + '/radsim_telemetry.cpp', SIM + '/radsim_utils.cpp', SIM + '/radsim_config.cpp']
EL = {'mlp': 'sc_int<32>', 'dlrm': 'int16_t', 'mlp_int8': 'sc_int<IPRECISION>', 'npu': 'tb_input_precision'}
SU = {'npu': ['sim_utils.cpp','instructions.cpp'], 'mlp_int8': ['sim_utils.cpp', 'instructions.cpp']}
def R(d): return [H('rf_' + d, 'regfile.cpp', [f'{EX}/{d}/modules/{s}' for s in ['register_file.cpp'] + SU.get(d, ['sim_utils.cpp'])] + TEL, mods(d), gen=gen_for(d), systemc=True, quick=[{'EL': EL[d], 'STEPS': 4}, {'EL': EL[d], 'STEPS': 4, 'STALLAT': -1, 'RSTAT': 2}], thorough=[{'EL': EL[d], 'STEPS': 5, 'STALLAT': k} for k in (1, 2, 3)] + [{'EL': EL[d], 'STEPS': 4, 'DEPTH': 3}], reach=['end']),
  H('rfread_' + d, 'regfile.cpp', [f'{EX}/{d}/modules/{s}' for s in ['register_file.cpp'] + SU.get(d, ['sim_utils.cpp'])] + TEL, mods(d), gen=gen_for(d), flags=['-DMINISC_EXACT_EVENTS'], systemc=True, quick=[{'EL': EL[d], 'STEPS': 5, 'STALLAT': 3, 'ONLYREADS': ''}], reach=['end']),
  H('rfheld_' + d, 'regfile.cpp', [f'{EX}/{d}/modules/{s}' for s in ['register_file.cpp'] + SU.get(d, ['sim_utils.cpp'])] + TEL, mods(d), gen=gen_for(d), flags=['-DMINISC_EXACT_EVENTS'], systemc=True, quick=[{'EL': EL[d], 'STEPS': 5, 'SUSTAINED': ''}], reach=[])]
HARNESSES = sum((R(d) for d in EL), [])

HARNESSES.append(H('piso_npu', 'piso.cpp', [f'{EX}/npu/modules/{s}' for s in ['piso_register_file.cpp', 'register_file.cpp', 'sim_utils.cpp', 'instructions.cpp']] + TEL, mods('npu'), gen=gen_for('npu'), systemc=True, quick=[{'DEPTH': 2, 'EPW': 1, 'STEPS': 3, 'STALLAT': 2, 'RSTAT': -1}, {'DEPTH': 1, 'EPW': 2, 'STEPS': 4, 'STALLAT': -1, 'RSTAT': 1}], thorough=[{'DEPTH': 2, 'EPW': 1, 'STEPS': 4, 'STALLAT': k, 'RSTAT': -1} for k in (1, 2)], reach=['end', 'read']))
