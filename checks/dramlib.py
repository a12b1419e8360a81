import os
from vlib import *
SRCS = lambda *n: [f'{DS}/src/{x}.cc' for x in n]
INI = '''[dram_structure]
protocol = {protocol}
bankgroups = {bg}
banks_per_group = {ba}
rows = {rows}
columns = 1024
device_width = 8
BL = {BL}
[timing]
tCK = 1.0
AL = {AL}
CL = {CL}
CWL = {CWL}
tRCD = {tRCD}
tRP = {tRP}
tRAS = {tRAS}
tRFC = {tRFC}
tREFI = {tREFI}
tFAW = {tFAW}
tRRD_S = {tRRD_S}
tRRD_L = {tRRD_L}
tWTR_S = {tWTR_S}
tWTR_L = {tWTR_L}
tWR = {tWR}
tRTP = {tRTP}
tCCD_S = {tCCD_S}
tCCD_L = {tCCD_L}
tXS = {tXS}
tCKESR = {tCKESR}
tRFCb = {tRFCb}
tREFIb = {tREFIb}
tRTRS = {tRTRS}
tPPD = {tPPD}
tRCDRD = {tRCDRD}
tRCDWR = {tRCDWR}
t32AW = {t32AW}
[system]
channel_size = {chsize}
channels = {ch}
bus_width = 64
address_mapping = {map}
queue_structure = {qs}
refresh_policy = {ref}
row_buf_policy = {rbp}
cmd_queue_size = {cq}
trans_queue_size = {tq}
unified_queue = {uq}
enable_self_refresh = {sref}
sref_threshold = {sth}
[other]
epoch_period = 100000000
output_level = 0
'''
DEF = dict(protocol='DDR4', bg=2, ba=2, rows=1024, BL=4, CL=3, CWL=2, tRCD=2, tRP=2, tRAS=4, tRFC=4, tREFI=400, tFAW=9, tRRD_S=1, tRRD_L=2, tWTR_S=1, tWTR_L=2, tWR=2, tRTP=2, tCCD_S=2, tCCD_L=3, tXS=5, tCKESR=3, tRFCb=3, tREFIb=100, chsize=64, ch=1, map='rochrababgco', qs='PER_BANK', ref='RANK_LEVEL_STAGGERED', rbp='OPEN_PAGE', cq=4, tq=4, uq='False', sref='False', sth=5, AL=0, tRTRS=1, tPPD=1, tRCDRD=2, tRCDWR=2, t32AW=60)
SPREAD = dict(BL=4, AL=1, CL=8, CWL=5, tCCD_S=3, tCCD_L=4, tRTRS=3, tRTP=5, tWTR_S=4, tWTR_L=8, tWR=11, tRP=9, tRRD_S=3, tRRD_L=6, tRAS=23, tRCD=10, tRFC=50, tXS=70, tCKESR=13, tRFCb=31, tFAW=29, tPPD=2, tRCDRD=12, tRCDWR=7, tREFI=900, tREFIb=150)
def ini(**kw):
    t = INI.format(**{**DEF, **kw})
    def f(ctx, d): open(d + '/dram.ini', 'w').write(t)
    return f
def T(n, q, t, reach=('end',), **kw): return H('ctrl_' + n, 'dram_ctrl.cpp', SRCS('bankstate', 'timing', 'configuration', 'common', 'controller', 'command_queue', 'refresh', 'dram_system', 'memory_system') + [(DS + '/src/channel_state.cc', ['-DUpdateTimingAndStates=real_UpdateTimingAndStates'])], DSINC, quick=[{'GSTEP': 1, **v} for v in q], thorough=[{'GSTEP': 1, **v} for v in t], cwd_setup=ini(**kw), reach=list(reach), flags=['-DFMT_HEADER_ONLY=1'], time=200)
MC = [SIM + '/dram/mem_controller.cpp'] + [SIM + '/' + x for x in ('radsim_config.cpp', 'radsim_module.cpp', 'radsim_telemetry.cpp', 'radsim_utils.cpp')] + SRCS('bankstate', 'timing', 'configuration', 'common', 'controller', 'command_queue', 'refresh', 'dram_system', 'memory_system', 'channel_state', 'simple_stats', 'hmc')
