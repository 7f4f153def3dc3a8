"""prints tables/lockon.txt: internal functions with a lock choice parameter and its position"""
import sys
sys.path.insert(0, '/verif')
from sa import common
M = common.lib(headers=True, cse=True)
for n, f in sorted(M.fns.items()):
    for a in f.args:
        if getattr(a, 'name', '') == 'lock_on':
            print(n, a.idx)
