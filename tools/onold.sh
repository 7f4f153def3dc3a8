#!/bin/bash
# run one check against another commit of /repo: onold.sh <commit> <ID>
W=$(mktemp -d /tmp/onold.XXXX); git -C /repo worktree add -q --detach $W $1; (cd /verif; SA_REPO=$W python3 check.py $2 2>&1 | cut -c1-${3:-170}); git -C /repo worktree remove --force $W
