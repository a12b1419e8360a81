import sys; sys.path.insert(0, __file__.rsplit('/', 1)[0])
from dramlib import *
PROP = 'P20'
def rootd(**kw):
    t = INI.format(**{**DEF, **kw})
    def f(ctx, d):
        os.makedirs(d + '/root/sim/dram/DRAMsim3/configs'); os.makedirs(d + '/root/logs'); open(d + '/root/sim/dram/DRAMsim3/configs/dram.ini', 'w').write(t)
    return f
def T(n, q, t=None, reach=('end', 'r', 'b'), **kw):
    d = {'PERIOD': 2.0, 'NCH': kw.get('ch', 1), 'USED': 1, 'QSIZE': 64, 'NADDR': 3, 'LENS': 1, 'LEN0': 0, 'XSIZE': 0, 'NRD': 1, 'NWR': 1, 'BURST': 0, 'HELD': 0, 'WAFTER': 1, 'AWGATE': 0, 'WGATE': 0, 'STALL': 0, 'GATES': 0, 'HOLD': 0, 'HOLDV': 0, 'RSTART': 0, 'RGAPS': 0, 'STEPS': 4, 'DRAIN': 70}
    return H(n, 'memctl.cpp', MC, SIMINC + DSINC, gen=gen_sys('memctl', noc_yml('memctl', adw=256, auw=64, pw=72), {'memctl.place': '', 'memctl.clks': ''}), systemc=True, quick=[{**d, **v} for v in q], thorough=[{**d, **v} for v in (t or q)], cwd_setup=rootd(**kw), reach=list(reach), flags=['-DFMT_HEADER_ONLY=1'], time=200)
HARNESSES = [
 T('rw', [{}, {'NADDR': 1, 'NRD': 2, 'NWR': 2}, {'NADDR': 4, 'NRD': 3, 'NWR': 0}, {'NADDR': 3, 'NRD': 0, 'NWR': 3}, {'NADDR': 2, 'NRD': 5, 'NWR': 0, 'BURST': 5, 'STEPS': 8}], reach=('end',)),
 T('burst', [{'LENS': 3, 'NADDR': 2}, {'XSIZE': 1, 'LENS': 2, 'NADDR': 2}]),
 T('stall', [{'STALL': 4, 'NADDR': 1, 'NRD': 2, 'NWR': 2, 'BURST': 2, 'STEPS': 3, 'LENS': 1, 'LEN0': 1}]),
 T('gates', [{'AWGATE': 1, 'WGATE': 1, 'NRD': 0, 'NWR': 2, 'BURST': 2, 'NADDR': 1, 'STEPS': 1, 'GATES': 7}], reach=('end', 'b')),
 T('wfree', [{'AWGATE': 1, 'WGATE': 1, 'NRD': 0, 'NWR': 2, 'BURST': 2, 'NADDR': 1, 'STEPS': 1, 'GATES': 7, 'WAFTER': 0}], reach=('end', 'b')),
 T('full', [{'NRD': 60, 'NWR': 60, 'BURST': 60, 'NADDR': 1, 'QSIZE': 20, 'STEPS': 120, 'HOLD': 60, 'HOLDV': 3, 'DRAIN': 250}]),
 T('fullb', [{'NRD': 3, 'NWR': 3, 'BURST': 60, 'NADDR': 1, 'QSIZE': 20, 'STEPS': 60, 'LEN0': 3, 'XSIZE': 2, 'DRAIN': 800}]),
 T('held', [{'HELD': 1, 'NADDR': 2, 'NRD': 2, 'NWR': 2}]),
 T('heldfull', [{'HELD': 1, 'NADDR': 1, 'NRD': 60, 'NWR': 60, 'BURST': 60, 'QSIZE': 20, 'STEPS': 120, 'HOLD': 60, 'DRAIN': 200}], reach=()),
 T('ch2', [{'USED': 2, 'NADDR': 1, 'STEPS': 3}], ch=2),
 T('unified', [{'NADDR': 2, 'NRD': 4, 'NWR': 1, 'BURST': 4, 'RSTART': 50, 'RGAPS': 12, 'STEPS': 68, 'DRAIN': 90}, {'NADDR': 3, 'NRD': 1, 'NWR': 2}], uq='True', **SPREAD),
 T('closed', [{'NADDR': 4, 'NRD': 2, 'NWR': 1, 'STEPS': 3, 'BURST': 1}], rbp='CLOSE_PAGE', qs='PER_RANK'),
]
