import sys; sys.path.insert(0, __file__.rsplit('/', 1)[0])
import P01
from vlib import *
from P01 import N, P4, P2x2, PP, PT, sysd
PROP = 'P14'
def T(n, place, q, t=None, k=2, torus=0, **kw):
    f = lambda v: {'SENDERS': 2, 'TELEM': k, 'TORUS': torus, **v}
    return N(n, place, [f(v) for v in q], t and [f(v) for v in t], reach=('end', 'beat', 'record'), **({'k': k} if k != 2 else {}), **kw)
import P02
def A(n, place, q, k=2, torus=0, reach=('end', 'record'), **kw):
    p = {**P02.DEF, **kw}['mclk']
    return P02.N('mm_' + n, place, [{'TELEM': k, 'TORUS': torus, 'TSLACK': p, **v} for v in q], reach=list(reach), **kw)
HARNESSES = [
 T('mesh', P4, [{'STEPS': 2, 'DRAIN': 30}], pw=32),
 T('stall', P4, [{'STEPS': 4, 'SENDERS': 1, 'DESTS': 1, 'STALL': 1, 'DRAIN': 20}], pw=32),
 T('full', P4, [{'STEPS': 45, 'SENDERS': 3, 'DESTS': 2, 'BURST': 6, 'MAXPK': 6, 'HOLD': 40, 'HOLDV': 3, 'DRAIN': 90}], pw=32),
 T('fastadp', P4, [{'STEPS': 2, 'DESTS': 2, 'DRAIN': 30}], pw=32, aclk=0.5),
 T('shared', P2x2, [{'STEPS': 2, 'DESTS': 3, 'DRAIN': 20}], pw=40),
 T('ports', PP, [{'NM': 2, 'NS': 2, 'STEPS': 1, 'SENDERS': 2, 'DESTS': 4, 'DRAIN': 25}], pw=40),
 T('widths', PP, [{'NM': 2, 'NS': 2, 'STEPS': 2, 'SENDERS': 2, 'DESTS': 4, 'DRAIN': 30, 'NARROW': 8}], pw=24),
 T('clocks', P4, [{'STEPS': 2, 'DRAIN': 10}], mclk=5.0, aclk=1.25, pw=24, vcs=2, npt=2),
 T('types', P4, [{'TYPES': 3, 'STEPS': 30, 'SENDERS': 3, 'DESTS': 2, 'BURST': 4, 'MAXPK': 4, 'HOLD': 25, 'HOLDV': 3, 'DRAIN': 60}], pw=32, vcs=3, npt=3),
 T('torus', PT, [{'STEPS': 1, 'DRAIN': 20, 'SENDERS': 3, 'DESTS': 4}], k=3, torus=1, pw=80, topo='torus', vcs=2, npt=1, rd=0),
 A('basic', P02.P4, [{'SENDERS': 1, 'WMAX': 2, 'RMAX': 2, 'DESTS': 1, 'STEPS': 3}]),
 A('two', P02.P4, [{'STEPS': 1}], pw=200),
 H('traces', 'traces.cpp', [SIM + '/radsim_telemetry.cpp', SIM + '/radsim_utils.cpp', SIM + '/radsim_config.cpp'], SIMINC, gen=sysd(P4), systemc=True, quick=[{'NT': 3, 'EVENTS': 3, 'PERIOD': 1.5}, {'NT': 2, 'EVENTS': 4, 'PERIOD': 2.0}], thorough=[{'NT': 3, 'EVENTS': 4, 'PERIOD': 1.5}], reach=['end']),
]
