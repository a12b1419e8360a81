import sys; sys.path.insert(0, __file__.rsplit('/', 1)[0])
from dramlib import *
PROP = 'P15'
def setup(ctx, d):
    os.symlink(DS + '/configs', d + '/configs')
    open(d + '/list.txt', 'w').write(''.join(f + '\n' for f in sorted(os.listdir(DS + '/configs')) if f.endswith('.ini')))
def setup2(ctx, d):
    os.makedirs(d + '/root/sim/dram/DRAMsim3'); os.makedirs(d + '/root/logs'); os.symlink(DS + '/configs', d + '/root/sim/dram/DRAMsim3/configs')
    open(d + '/list.txt', 'w').write(''.join(f[:-4] + '\n' for f in sorted(os.listdir(DS + '/configs')) if f.endswith('.ini') and 'HMC' not in f))
HARNESSES = [H('amap', 'amap.cpp', SRCS('configuration', 'common'), DSINC, quick=[{'PARTS': 8, 'PART': i} for i in range(8)], thorough=[], reach=['end', 'config'], cwd_setup=setup, flags=['-DFMT_HEADER_ONLY=1'], time=200, bounds='every .ini file in DRAMsim3/configs, all pairs of 64-bit addresses'),
 H('memmap', 'memmap.cpp', MC, SIMINC + DSINC, gen=gen_sys('memctl', noc_yml('memctl', adw=256, auw=64, pw=72), {'memctl.place': '', 'memctl.clks': ''}), systemc=True, quick=[{'PARTS': 8, 'PART': i} for i in range(8)], thorough=[], reach=['end', 'config'], cwd_setup=setup2, flags=['-DFMT_HEADER_ONLY=1'], time=200, bounds='every .ini file in DRAMsim3/configs except the HMC ones, first and last channel, all pairs of 64-bit addresses')]
