#!/bin/bash
# engine V alone against each planted bug (or the given patches), on a scratch copy
cd /verif
S=/tmp/tryv; mkdir -p $S; cp -a /repo $S/r
for d in ${@:-seeded/*/patch.diff}; do
  git -C $S/r checkout -q -- . ; git -C $S/r apply $(realpath $d) || { echo "$d DOES NOT APPLY"; continue; }
  echo "== $d"; VERIF_REPO_DEV=$S/r python3 -m engines.v 2>&1 | grep -E "^(FAILED|UNDECIDED|Trace|engines|changed)|Undecided" | cut -c1-330
done
rm -rf /tmp/tryv
