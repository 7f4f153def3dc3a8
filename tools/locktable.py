"""prints the rows of tables/lock.txt for the current source (used once, then reviewed by hand)"""
import sys
sys.path.insert(0, '/verif')
from sa import common
from sa.access import origins
M = common.lib(headers=True, cse=True)
def sh(r): return 'a%d' % r[1] if r[0] == 'arg' else '@' + r[1] if r[0] == 'global' else 'hdr:' + sh(r[1])
for n, f in sorted(M.fns.items()):
    o = {}
    for c in f.calls('SASLock'):
        for x in origins(c.ops[0]):
            o[x] = c.ops[1].c
    on = [a.idx for a in f.args if getattr(a, 'name', '') == 'lock_on']
    for (r, k), m in sorted(o.items(), key=repr):
        print(n, sh(r), k, 'WR'[0] if m else 'R', *(['on=%d' % on[0]] if on else []))
