#!/bin/bash
# mkseed.sh ID WORKTREE: store the uncommitted change of WORKTREE as /verif/seeded/ID/patch.diff
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C $2 diff > $d/patch.diff
git -C $2 checkout -q -- .
wc -l $d/patch.diff
