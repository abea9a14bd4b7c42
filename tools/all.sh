#!/bin/bash
# all.sh [tier]: runs every check and prints a line for each
cd "$(dirname "$0")/.." || exit 2
for d in harness/c[0-9]*; do
  p=$(basename $d | tr c C)
  t=$(date +%s)
  ./run.sh check $p ${1:-quick} > /tmp/all.$p.log 2>&1
  rc=$?
  echo "$p rc=$rc $(($(date +%s)-t))s $(tail -1 /tmp/all.$p.log)"
done
