#!/bin/sh
# run every check (quick) in parallel and print the ones that are not quiet
cd "$(dirname "$0")/.."
for f in checks/c[0-9]*.py; do b=$(basename $f .py); echo $b | tr c C; done | xargs -P 8 -I{} sh -c 'python3 check.py {} quick >/tmp/all_{}.txt 2>&1; rc=$?; echo "{} rc=$rc $(tail -1 /tmp/all_{}.txt | cut -c1-150)"' | sort
