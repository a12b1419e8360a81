from vlib import *
PROP = 'P01'
def sysd(place, **kw):
    mods = sorted({l.split()[0].split('.')[0] for l in place.splitlines()})
    return gen_sys('axisnoc', noc_yml('axisnoc', **kw), {'axisnoc.place': place, 'axisnoc.clks': '\n'.join(f'{m} 0 0' for m in mods)})
def N(n, place, q, t=None, reach=('end', 'beat'), **kw):
    d = {'NMOD': len({l.split()[0].split('.')[0] for l in place.splitlines()}), 'NM': 1, 'NS': 1, 'PERIOD': kw.get('mclk', 2.0), 'SENDERS': 2, 'DESTS': 2, 'MAXPK': 4, 'STALL': 0, 'HOLD': 0, 'HOLDV': 0, 'DW': kw.get('dw', 64), 'TYPES': 1, 'BURST': 0, 'ORDER': 1, 'STEPS': 3, 'DRAIN': 40}
    return H(n, 'axisnoc.cpp', noc_srcs(), SIMINC, gen=sysd(place, **kw), systemc=True, quick=[{**d, **v} for v in q], thorough=[{**d, **v} for v in (t or q)], reach=list(reach), time=300)
P4 = '\n'.join(f'm{i}_inst 0 {i} axis' for i in range(4))
P2x2 = '\n'.join(f'm{i}_inst 0 {i//2*3} axis' for i in range(4))
# adapters and NoC with everything at its smallest; every other dimension in some variant
PP = '\n'.join(f'm{i}_inst.{d}{j} 0 {i*3} axis' for i in range(2) for d in 'ms' for j in range(2))
PT = '\n'.join(f'm{i}_inst 0 {n} axis' for i, n in enumerate((0, 2, 5, 7)))
HARNESSES = [
 N('mesh', P4, [{'STEPS': 2, 'DRAIN': 30}], pw=32),
 N('stall', P4, [{'STEPS': 4, 'SENDERS': 1, 'DESTS': 1, 'STALL': 1, 'DRAIN': 20}, {'STEPS': 2, 'SENDERS': 2, 'DESTS': 1, 'STALL': 1, 'BURST': 2, 'DRAIN': 30}], [{'STEPS': 6, 'SENDERS': 1, 'DESTS': 1, 'STALL': 1}, {'STEPS': 3, 'SENDERS': 2, 'DESTS': 1, 'STALL': 1}], pw=32),
 N('full', P4, [{'STEPS': 45, 'SENDERS': 3, 'DESTS': 2, 'BURST': 8, 'MAXPK': 8, 'HOLD': 40, 'HOLDV': 7, 'DRAIN': 90}], pw=32),
 N('fastadp', P4, [{'STEPS': 30, 'SENDERS': 3, 'DESTS': 2, 'BURST': 8, 'MAXPK': 8, 'HOLD': 25, 'HOLDV': 3, 'DRAIN': 90}], pw=32, aclk=0.5),
 N('shared', P2x2, [{'STEPS': 2, 'DESTS': 3, 'DRAIN': 20}, {'STEPS': 2, 'DESTS': 1, 'STALL': 1, 'BURST': 2, 'DRAIN': 30}], [{'STEPS': 3, 'DESTS': 3}], pw=40),
 N('ports', PP, [{'NM': 2, 'NS': 2, 'STEPS': 2, 'SENDERS': 2, 'DESTS': 4, 'DRAIN': 25}], pw=40),
 N('widths', PP, [{'NM': 2, 'NS': 2, 'STEPS': 2, 'SENDERS': 2, 'DESTS': 4, 'DRAIN': 30, 'NARROW': 8}, {'NM': 2, 'NS': 2, 'STEPS': 3, 'SENDERS': 2, 'DESTS': 4, 'DRAIN': 40, 'NARROW': 8, 'BURST': 3}], pw=24),
 N('clocks', P4, [{'STEPS': 2, 'DRAIN': 10}], mclk=5.0, aclk=1.25, pw=24, vcs=2, npt=2),
 N('fastmod', P4, [{'STEPS': 3, 'DRAIN': 220, 'BURST': 1}], mclk=0.5, aclk=1.25, pw=24, ob=2),
 N('types', P4, [{'TYPES': 3, 'STEPS': 30, 'SENDERS': 3, 'DESTS': 2, 'BURST': 5, 'MAXPK': 5, 'HOLD': 25, 'HOLDV': 7, 'DRAIN': 60}], pw=32, vcs=3, npt=3),
 N('torus', PT, [{'STEPS': 2, 'DRAIN': 20, 'DESTS': 3}], pw=80, topo='torus', k=3, vcs=2, npt=1, rd=0),
 N('alloc', P4, [{'STEPS': 20, 'SENDERS': 3, 'DESTS': 3, 'BURST': 4, 'MAXPK': 4, 'HOLD': 15, 'HOLDV': 3, 'DRAIN': 60}], pw=32, va='separable_input_first', sa='wavefront', rd=0),
 N('vcs', P4, [{'STEPS': 20, 'SENDERS': 3, 'DESTS': 2, 'BURST': 5, 'MAXPK': 5, 'HOLD': 15, 'HOLDV': 3, 'DRAIN': 60, 'ORDER': 0}], pw=32, vcs=3, npt=1),
 N('narrow', P4, [{'STEPS': 2, 'DW': 16, 'DRAIN': 20}], pw=24),
]
