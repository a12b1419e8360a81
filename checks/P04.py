from vlib import *
PROP = 'P04'
TEL = [SIM + '/radsim_telemetry.cpp', SIM + '/radsim_utils.cpp', SIM + '/radsim_config.cpp']
HARNESSES = [H('interrad', 'interrad.cpp', [SIM + '/radsim_inter_rad.cpp'] + TEL, SIMINC, gen=gen_for('dlrm_two_rad'), systemc=True, quick=[{'NR': 2, 'STEPS': 3, 'LAT': 3}, {'NR': 2, 'STEPS': 4, 'LAT': 1, 'BWA': 1, 'BWT': 3}, {'NR': 3, 'STEPS': 2, 'LAT': 2}, {'NR': 1, 'STEPS': 9, 'BWA': 2, 'BWT': 3, 'LAT': 5}], thorough=[{'NR': 2, 'STEPS': 5, 'LAT': 4}], reach=['end', 'arrived'])]
