from vlib import *
import glob
PROP = 'P09'
SRC = [BS + '/module.cpp', BS + '/config_utils.cpp', BS + '/booksim_config.cpp', BS + '/y.tab.c', BS + '/lex.yy.c', BS + '/misc_utils.cpp'] + sorted(glob.glob(BS + '/arbiters/*.cpp') + glob.glob(BS + '/allocators/*.cpp'))
def A(name, type, n, rounds=2, pri=0, wait=None, old=0, skip=0, order=0, q=True, trounds=None):
    d = dict(AR_TYPE=type, AR_N=n, AR_ROUNDS=rounds, AR_PRI=pri, AR_WAIT=wait or n, AR_OLD=old, AR_SKIP=skip, AR_ORDER=order)
    return H('arb_' + name, 'arb.cpp', SRC, BSINC + [SIM], gen=gen_for('mlp'), quick=[d], thorough=[{**d, 'AR_ROUNDS': trounds or rounds}], reach=['end', 'contended', 'other'], time=60)
def L(name, type, i, o, rounds=1, hold=0, fair=0, pri=0, prio=0, maximal=0, maximum=0, iters=1, arb='round_robin', cfg=1, rev=0, two=0, first=0, trounds=None, q=1):
    d = dict(AL_TYPE=type, AL_IN=i, AL_OUT=o, AL_ROUNDS=rounds, AL_HOLD=hold, AL_FAIR=fair, AL_PRI=pri, AL_PRIO=prio, AL_MAXIMAL=maximal, AL_MAXIMUM=maximum, AL_ITERS=iters, AL_ARB=arb, AL_CFG=cfg, AL_REV=rev, AL_TWO=two, AL_FIRST=first)
    return H('alloc_' + name, 'alloc.cpp', SRC, BSINC + [SIM], gen=gen_for('mlp'), quick=[d] if q else [], thorough=[{**d, 'AL_ROUNDS': trounds or rounds}], reach=['end'] + (['several grants'] if min(i, o) > 1 else []), time=60)
ARBS = ('round_robin', 'matrix', 'tree(2,round_robin)', 'tree(2,matrix)')
HARNESSES = []
for k, t in enumerate(ARBS):
    HARNESSES += [A(f'{k}_fair', t, 3 if k < 2 else 4, rounds=3 if k < 2 else 2, trounds=4), A(f'{k}_pri', t, 3 if k < 2 else 4, rounds=1, pri=3, skip=1, trounds=2), A(f'{k}_hold', t, 3 if k < 2 else 4, rounds=2, skip=1, trounds=3 if k < 2 else 2)]
HARNESSES += [A('prio', 'old', 3, rounds=3, old=1, trounds=4), A('prio_pri', 'old', 3, rounds=1, old=1, pri=3, order=1, trounds=2)]
DET = [('islip', dict(fair=9)), ('separable_input_first', dict(fair=9)), ('separable_output_first', dict(fair=9)), ('wavefront', dict(fair=3, maximal=1)), ('rr_wavefront', dict(fair=9, maximal=1)), ('loa', {}), ('select', dict(fair=9)), ('max_size', dict(maximum=1, maximal=1))]
for n, kw in DET:
    w = {k: v for k, v in kw.items() if k != 'fair'}
    HARNESSES += [L(n + '_33', n, 3, 3, hold=10 if kw.get('fair') else 0, rounds=0 if kw.get('fair') else 1, **kw), L(n + '_22', n, 2, 2, rounds=2, trounds=3, **w), L(n + '_23', n, 2, 3, rounds=1, trounds=2, first=1, **w), L(n + '_32', n, 3, 2, rounds=1, trounds=2, rev=1, first=2, **w)]
for n in ('islip', 'select'):
    HARNESSES += [L(n + '_it3', n, 3, 3, iters=3, maximal=1), L(n + '_it2h', n + '(2)', 2, 2, cfg=0, rounds=1, first=1, maximal=1, trounds=2)]
HARNESSES += [L('pim', 'pim', 2, 2, rounds=1), L('pim_it2', 'pim(2)', 2, 2, cfg=0, maximal=1), L('pim_12', 'pim(2)', 1, 3, cfg=0), L('pim_31', 'pim', 3, 1), L('pim_23', 'pim', 2, 3, q=0), L('pim_32', 'pim', 3, 2, q=0)]
for n in ('separable_input_first', 'separable_output_first', 'wavefront', 'rr_wavefront', 'select'):
    w = int('wave' in n)
    HARNESSES += [L(n + '_pri', n, 2, 2 if w else 3, pri=2, prio=2 if w else 1, maximal=w), L(n + '_two', n, 2, 2, pri=1 if w else 2, two=1, prio=0 if w else 1)]
for n in ('separable_input_first', 'separable_output_first'):
    HARNESSES += [L(f'{n}_m{i}', f'{n}({arb})' if i else n, *io, arb=arb, cfg=0 if i else 1, rounds=0, hold=10, fair=9) for i, arb, io in ((0, 'matrix', (3, 2)), (1, 'matrix', (2, 3)))]
