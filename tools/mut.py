#!/usr/bin/env python3
"""mut.py <ID[,ID..]> <file> <old> <new> [nth]: run checks on a copy of /repo with one textual change (development aid)"""
import sys, os, subprocess, tempfile, shutil
ids, fn, old, new = sys.argv[1:5]
nth = int(sys.argv[5]) if len(sys.argv) > 5 else 1
old = old.encode().decode('unicode_escape'); new = new.encode().decode('unicode_escape')
d = tempfile.mkdtemp(prefix='mut.')
try:
    shutil.copytree('/repo/src', d + '/src')
    for x in ('config.h.in', 'configure.ac'):
        if os.path.exists('/repo/' + x):
            shutil.copy('/repo/' + x, d)
    if os.path.isdir('/repo/_build'):
        os.makedirs(d + '/_build')
        for x in os.listdir('/repo/_build'):
            if os.path.isfile('/repo/_build/' + x):
                shutil.copy('/repo/_build/' + x, d + '/_build')
    p = d + '/src/' + fn
    s = open(p).read()
    pos = -1
    for _ in range(nth):
        pos = s.find(old, pos + 1)
        if pos < 0:
            sys.exit('text not found')
    open(p, 'w').write(s[:pos] + new + s[pos + len(old):])
    if ids == 'ALL':
        ids = ','.join(sorted(x[:-3].upper() for x in os.listdir('/verif/checks') if x.startswith('c') and x.endswith('.py')))
    for i in ids.split(','):
        r = subprocess.run(['python3', '/verif/check.py', i], env=dict(os.environ, SA_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        t = r.stdout.decode().split('\n')
        f = [l[:230] for l in t if 'FINDING' in l and 'KNOWN-F' not in l or 'BROKEN' in l or 'Error' in l]
        if r.returncode or not ids.count(',') > 5:
            print(i, 'rc %d' % r.returncode, *f[:4], sep='\n   ' if f else ' ', flush=True)
finally:
    shutil.rmtree(d)
