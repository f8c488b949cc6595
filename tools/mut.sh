#!/bin/bash
# mut.sh FILE SED-EXPR CHECK...: try a mutation of /repo against checks, in place, undone afterwards. For development only.
f=$1; x=$2; shift 2
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
sed -i "$x" $f
git diff -U0 | grep '^[+-][^+-]' | cut -c1-150
git diff --quiet && { echo "no change"; exit 1; }
for c in "$@"; do
  (cd /verif; SA_EVIDENCE=/tmp/ev python3 -m sa.run $c 2>&1 | cut -c1-${COLS_OUT:-220} | tail -${LINES_OUT:-3} | sed "s/^/   $c: /")
done
