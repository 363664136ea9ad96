#!/bin/bash
# Run all (or the named) checks in parallel; print one line each.
cd "$(dirname "$0")/.."
ids=${*:-$(ls checks | sed -n 's/^\(C[0-9]*\)\.py$/\1/p')}
run() { t=$(date +%s); out=$(timeout 900 python3 check.py "$1" 2>&1); rc=$?; echo "$1 rc=$rc $(( $(date +%s)-t ))s $(echo "$out" | grep -v '^   ok' | tail -3 | cut -c1-260 | tr '\n' '|')"; }
export -f run
echo $ids | tr ' ' '\n' | xargs -P 7 -I{} bash -c 'run {}'
