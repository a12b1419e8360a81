from vlib import *
PROP = 'P03'
TEL = [SIM + '/radsim_telemetry.cpp', SIM + '/radsim_utils.cpp', SIM + '/radsim_config.cpp']
HARNESSES = [H('portal', 'portal.cpp', [SIM + '/portal.cpp', SIM + '/radsim_module.cpp'] + TEL, SIMINC, gen=gen_for('dlrm_two_rad'), systemc=True, quick=[{'DIR': 0, 'STEPS': 6}, {'DIR': 1, 'STEPS': 6}, {'DIR': 2, 'STEPS': 3}], thorough=[{'DIR': 0, 'STEPS': 9}, {'DIR': 1, 'STEPS': 9}, {'DIR': 2, 'STEPS': 5}], reach=['end', 'beat', 'queued'])]
