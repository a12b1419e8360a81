from vlib import *
PROP = 'P02'
def sysd(place, **kw):
    mods = sorted({l.split()[0].split('.')[0] for l in place.splitlines()})
    return gen_sys('axisnoc', noc_yml('axisnoc', **kw), {'axisnoc.place': place, 'axisnoc.clks': '\n'.join(f'{m} 0 0' for m in mods)})
DEF = dict(vcs=5, npt=5, mclk=4.0, aclk=1.0, nclk=1.0, pw=72, dw=64, adw=128, auw=64, afs=8, buf=8)
def N(n, place, q, t=None, nmm=2, nsl=2, reach=('end', 'ar', 'aw', 'w', 'r', 'b'), **kw):
    kw = {**DEF, **kw}; d = {'NMM': nmm, 'NSL': nsl, 'PERIOD': kw['mclk'], 'DW': kw['adw'], 'SENDERS': nmm, 'DESTS': nsl, 'NAR': 1, 'NAW': 1, 'WMAX': 1, 'RMAX': 1, 'BURST': 0, 'WGATE': 0, 'ONEAW': 0, 'STALL': 0, 'STRICT': 0, 'WAFTER': 0, 'WORDER': 0, 'ORDER': 1, 'HOLD': 0, 'HOLDV': 0, 'RHOLD': 0, 'RHOLDV': 0, 'STEPS': 2, 'DRAIN': 30}
    return H(n, 'aximm.cpp', noc_srcs(), SIMINC, gen=sysd(place, **kw), systemc=True, quick=[{**d, **v} for v in q], thorough=[{**d, **v} for v in (t or q)], reach=list(reach), time=300)
P4 = '\n'.join(f'm{i}_inst.p 0 {i} aximm' for i in range(4))
SR = '\n'.join(f'm{i}_inst.p 0 {(3,0,1,2)[i]} aximm' for i in range(4))
HARNESSES = [
 N('basic', P4, [{'SENDERS': 1, 'WMAX': 2, 'RMAX': 2, 'DESTS': 1, 'STEPS': 3}], [{'STEPS': 3}, {'WMAX': 2, 'RMAX': 2}]),
 N('two_r', P4, [{'NAW': 0}], [{}], pw=200, reach=('end', 'ar', 'r')),
 N('two_w', P4, [{'NAR': 0}], [{'NAR': 0, 'WMAX': 2}], pw=200, reach=('end', 'aw', 'w', 'b')),
 N('stall', P4, [{'SENDERS': 1, 'DESTS': 1, 'STALL': 1, 'BURST': 1, 'STEPS': 4, 'NAR': 2, 'NAW': 2}]),
 N('aws', P4, [{'SENDERS': 1, 'NAR': 0, 'NAW': 2, 'WGATE': 1, 'BURST': 2, 'STEPS': 5}], reach=('end', 'aw', 'w', 'b')),
 N('full', P4, [{'NAR': 4, 'NAW': 4, 'BURST': 4, 'DESTS': 1, 'STEPS': 20, 'HOLD': 25, 'HOLDV': 3, 'RHOLD': 45, 'RHOLDV': 3, 'DRAIN': 90}]),
 N('fastadp', P4, [{'NAR': 3, 'NAW': 3, 'BURST': 4, 'DESTS': 1, 'STEPS': 20, 'HOLD': 15, 'HOLDV': 1, 'RHOLD': 35, 'RHOLDV': 1, 'DRAIN': 80}], aclk=0.5),
 N('wide', P4, [{'SENDERS': 1}], pw=141),
 N('torus', SR, [{'SENDERS': 1, 'ORDER': 0}], [{'STEPS': 2, 'ORDER': 0}], mclk=5.0, aclk=1.25, topo='torus', vcs=10),
 N('vcs', P4, [{'NAR': 3, 'NAW': 3, 'BURST': 4, 'DESTS': 1, 'STEPS': 10, 'HOLD': 15, 'HOLDV': 3, 'DRAIN': 60, 'ORDER': 0}], vcs=10),
 N('worder', P4, [{'NAW': 2, 'NAR': 0, 'BURST': 2, 'DESTS': 1, 'STEPS': 3, 'WGATE': 1, 'WORDER': 1}], reach=('end', 'aw', 'w', 'b')),
 N('strict', P4, [{'SENDERS': 1, 'DESTS': 1, 'STALL': 1, 'STRICT': 1, 'BURST': 1, 'STEPS': 12, 'NAR': 2, 'NAW': 0}], reach=('end', 'ar')),
 N('wafter', P4, [{'NAR': 0, 'NAW': 3, 'BURST': 4, 'DESTS': 1, 'STEPS': 10, 'WAFTER': 1, 'HOLD': 15, 'HOLDV': 3, 'DRAIN': 60}], reach=('end', 'aw', 'w', 'b')),
 N('narrow', P4, [{'SENDERS': 1}], adw=256, pw=66),
 N('r15', P4, [{'SENDERS': 1, 'NAR': 2, 'NAW': 2, 'BURST': 4}], aclk=1.5, pw=200),
 N('r25', P4, [{'SENDERS': 1, 'NAR': 2, 'NAW': 2, 'BURST': 4, 'STEPS': 4, 'DRAIN': 40}], mclk=2.5, pw=200),
 N('eqclk', P4, [{'SENDERS': 1, 'NAR': 2, 'NAW': 2, 'BURST': 4, 'STEPS': 4, 'DRAIN': 60}], mclk=1.0, pw=200, reach=()),
]
