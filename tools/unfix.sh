#!/bin/bash
# unfix.sh <commit> <check>...: run checks against /repo with one repair undone
c=$1; shift
git -C /repo show $c | git -C /repo apply -R || exit 3
for k in "$@"; do python3 /verif/run.py $k quick 2>&1 | cut -c1-700; done
git -C /repo checkout -- .
