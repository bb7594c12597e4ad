#!/bin/sh
# all quick checks one after the other: sh tools/all.sh [SEED] [IDS...]
cd "$(dirname "$0")/.."
seed=${1:-1}; [ $# -gt 0 ] && shift
ids=${*:-$(ls pbt/props | sed -n 's/^c\([0-9]*\)\.py$/C\1/p')}
bad=0
for i in $ids; do
  s=$(date +%s.%N)
  VERIF_SEED=$seed VERIF_TIER=${TIER:-quick} python3-vt -m pbt.driver $i > /tmp/out.$$ 2>&1; rc=$?
  e=$(date +%s.%N)
  echo "$i rc=$rc $(echo "$e $s" | awk '{printf "%.1f", $1-$2}')s $(grep -E 'VIOLATION|KNOWN|Error' /tmp/out.$$ | head -2)"
  [ $rc = 0 ] || bad=1
done
rm -f /tmp/out.$$
exit $bad
