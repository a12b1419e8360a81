import sys; sys.path.insert(0, __file__.rsplit('/', 1)[0])
from dramlib import *
PROP = 'P17'
A = [{'TXN': 3, 'GAP': 1}]; B = [{'TXN': 4, 'GAP': 1}, {'TXN': 3, 'GAP': 6}]; R = [{'TXN': 3, 'GAP': 1, 'GSTEP': 3}]; RB = [{'TXN': 4, 'GAP': 1, 'GSTEP': 3}]; S = [{'TXN': 3, 'GAP': 2, 'GSTEP': 4}]; SB = [{'TXN': 4, 'GAP': 2, 'GSTEP': 4}]
RF = ['end', 'refresh']; SR = ['end', 'sref', 'srefx']
HARNESSES = [T('open', A + [{'TXN': 2, 'GAP': 9}], B), T('close', A, B, rbp='CLOSE_PAGE'), T('perrank', A, B, rbp='CLOSE_PAGE', qs='PER_RANK', map='rorabgbachco'), T('unified', A, B, uq='True', qs='PER_RANK', map='rocorabgbach', tq=2, cq=2), T('uniclose', A, B, uq='True', rbp='CLOSE_PAGE'),
 T('chan2', [{'TXN': 3, 'GAP': 1, 'BANKS': 5}], B, ch=2), T('hbm', A, B, protocol='HBM2'),
 T('ref', R, RB, tREFI=24, reach=RF), T('refsim', R, RB, ref='RANK_LEVEL_SIMULTANEOUS', rbp='CLOSE_PAGE', tREFI=16, reach=RF), T('refb', R, RB, ref='BANK_LEVEL_STAGGERED', uq='True', tREFIb=9, tREFI=40, reach=RF),
 T('sref', S, SB, sref='True', reach=SR), T('srefref', S, SB, sref='True', rbp='CLOSE_PAGE', tREFI=22, reach=SR + ['refresh']),
 T('drain', [{'TXN': 2, 'WBURST': 12, 'GAP': 1, 'BOUND': 200}], [{'TXN': 3, 'WBURST': 12, 'BOUND': 200}], tq=12), T('drain2', [{'TXN': 2, 'WBURST': 6, 'BOUND': 200}], [{'TXN': 3, 'WBURST': 6, 'BOUND': 200}], tq=4),
 T('mix', [{'TXN': 0, 'MIX': 10, 'MIXA': a, 'MIXSYM': 2 if a < 8 else 1, 'MIXWP': w, 'MIXRP': r, 'BOUND': 400} for a, w, r in ((8, 1, 1), (3, 1, 1), (5, 1, 2), (5, 2, 1))], [{'TXN': 0, 'MIX': 20, 'MIXA': a, 'MIXSYM': 1 if a == 10 else 2, 'MIXWP': w, 'MIXRP': r, 'BOUND': 400} for a in (3, 5, 8, 10) for w, r in ((1, 1), (1, 2), (2, 1), (1, 3))], tq=4)]
