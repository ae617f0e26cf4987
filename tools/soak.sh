#!/bin/bash
# soak.sh "<props>" "<seeds>" [tier]: run checks with several seeds, print only trouble
for p in $1; do for s in $2; do
  o=$(VERIF_SEED=$s timeout 1500 "$(dirname "$0")/../check" $p ${3:-quick} 2>&1); r=$?
  if [ $r -ne 0 ] || [ -n "$VERBOSE" ]; then echo "== $p seed $s rc $r"; echo "$o" | head -${LINES_MAX:-40}; else echo "$o" | grep "distinct non-trivial"; fi
done; done
