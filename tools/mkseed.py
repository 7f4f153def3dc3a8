#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE 'needs' 'breaks' < edits: builds seeded/ID/{patch.diff,demo.sh,meta.json}; demo.c is put there by hand.
edits on stdin: python list of (file, old, new[, nth])"""
import sys, os, subprocess, tempfile, shutil, json
REPO = os.environ.get('SEED_REPO', '/repo')
sid, prop, needs, breaks = sys.argv[1:5]
edits = eval(sys.stdin.read())
S = os.path.join('/verif/seeded', sid)
os.makedirs(S, exist_ok=True)
w = tempfile.mkdtemp(prefix='mk.')
subprocess.check_call(['git', '-C', REPO, 'worktree', 'add', '-q', '--detach', w + '/r', 'HEAD'])
try:
    for e in edits:
        fn, old, new = e[:3]
        n = e[3] if len(e) > 3 else 1
        p = w + '/r/src/' + fn
        s = open(p, encoding='latin-1').read()
        pos = -1
        for _ in range(n):
            pos = s.find(old, pos + 1)
            if pos < 0:
                sys.exit('text not found in %s: %r' % (fn, old))
        open(p, 'w', encoding='latin-1').write(s[:pos] + new + s[pos + len(old):])
    d = subprocess.check_output(['git', '-C', w + '/r', 'diff'])
    open(S + '/patch.diff', 'wb').write(d)
finally:
    subprocess.call(['git', '-C', REPO, 'worktree', 'remove', '--force', w + '/r'])
    shutil.rmtree(w)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(S + '/meta.json', 'w'), indent=1)
open(S + '/demo.sh', 'w').write('''#!/bin/bash
# build demo.c against the library in /repo and run it on a scratch store
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
gcc -g -O1 -w -D_GNU_SOURCE -I/repo/src -I/repo/_build/src "$D/demo.c" -o "$W/demo" -L/repo/_build/src/.libs -lsphde -lpthread -lrt -ldl || exit 3
mkdir "$W/store"
RUN="unshare -Uri"; $RUN true 2>/dev/null || RUN=
cd "$W" && SASSTOREPATH="$W/store" LD_LIBRARY_PATH=/repo/_build/src/.libs $RUN timeout -s KILL ${DEMO_TIMEOUT:-100} "$W/demo"
''')
os.chmod(S + '/demo.sh', 0o755)
print(d.decode('latin-1'))
