import sys; sys.path.insert(0, __file__.rsplit('/', 1)[0])
from dramlib import *
PROP = 'P16'
def C(n, q, t, **kw): return H('cmd_' + n, 'dram_cmd.cpp', SRCS('bankstate', 'channel_state', 'timing', 'configuration', 'common'), DSINC, quick=q, thorough=t, cwd_setup=ini(**{**SPREAD, **kw}), reach=['end'], flags=['-DFMT_HEADER_ONLY=1'], time=120)
P2 = ([{'LEN': 4, 'PRE2': ''}], [{'LEN': 5, 'PRE2': ''}])
B8 = '0,1,2,3,4,5,6,7'; BB8 = '0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7'
HARNESSES = [C('refb', [{'LEN': 3, 'REFB':''}], [{'LEN': 4,'REFB':''}]),
 C('ddr4', *P2), C('ddr4bl16', *P2, BL=20), C('hbm', *P2, protocol='HBM2'), C('lpddr4', *P2, protocol='LPDDR4', bg=1, ba=4), C('gddr5', *P2, protocol='GDDR5', BL=8),
 C('faw', [{'SEQ': '4', 'BKS': B8, 'FROM': 3, 'LEN': 6}], [{'SEQ': '4', 'BKS': B8, 'FROM': 3, 'LEN': 8}], ba=4, tFAW=60),
 C('aw32', [{'SEQ': '4,5', 'BKS': BB8, 'FROM': 64, 'LEN': 66}], [{'SEQ': '4,5', 'BKS': BB8, 'FROM': 63, 'LEN': 68}], protocol='GDDR5', t32AW=400, ba=4),
 C('anyparam', [], [{'SYMP': '', 'LEN': 3}, {'SYMP': '', 'LEN': 4, 'PRE2': ''}])]
