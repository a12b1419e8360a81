import sys; sys.path.insert(0, __file__.rsplit('/', 1)[0])
from dramlib import *
PROP = 'P19'
V = {'TXN': 2, 'GSTEP': 5, 'TAIL': 100, 'REFCHK': 30}
HARNESSES = [T('stag', [V], [{**V, 'TXN': 3}], tREFI=40, reach=['end', 'refresh']), T('stagclose', [V], [{**V, 'TXN': 3}], tREFI=40, rbp='CLOSE_PAGE', qs='PER_RANK', reach=['end', 'refresh']), T('sim', [V], [{**V, 'TXN': 3}], ref='RANK_LEVEL_SIMULTANEOUS', tREFI=40, reach=['end', 'refresh']), T('bank', [V], [{**V, 'TXN': 3}], ref='BANK_LEVEL_STAGGERED', tREFIb=12, tREFI=11, tRFC=3, reach=['end', 'refresh']), T('bankinterval', [{**V, 'TXN': 1}], [V], ref='BANK_LEVEL_STAGGERED', tREFIb=12, tREFI=80, tRFC=3),
 *[T('sref%d' % r, [{**V, 'TXN': 1, 'TAIL': 200, 'BUSY': 8, 'BUSYRANK': r}], [{**V, 'TAIL': 300, 'BUSY': b, 'BUSYRANK': r} for b in (3, 8)], sref='True', tREFI=40, sth=15, reach=['end', 'refresh', 'sref']) for r in (0, 1)],
 T('srefsim', [{**V, 'TXN': 1, 'TAIL': 200, 'BUSY': 8, 'BUSYRANK': 0}], [{**V, 'TAIL': 300, 'BUSY': 3, 'BUSYRANK': 1}], sref='True', ref='RANK_LEVEL_SIMULTANEOUS', rbp='CLOSE_PAGE', tREFI=40, sth=15, reach=['end', 'refresh', 'sref']),
 T('busy', [{**V, 'TXN': 1, 'TAIL': 200, 'BUSY': 2, 'BUSYRANK': 1}], [{**V, 'TAIL': 300, 'BUSY': 1, 'BUSYRANK': 1}], tREFI=40, reach=['end', 'refresh'])]
