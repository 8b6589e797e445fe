#!/bin/bash
# check.sh ID TIER: builds the check of one property from /repo's working tree and runs it.
# 0: held on everything explored; 1: VIOLATION printed; 2/3: no verdict.
set -u
cd "$(dirname "$0")" || exit 2
id=$1 tier=${2:-${VERIF_TIER:-quick}} seed=${VERIF_SEED:-1}
log=$(mktemp)
crate=harness
[ "$id" = C28 ] && crate=harness-eigs
feature=$(echo "$id" | tr A-Z a-z)
if ! (cd $crate && cargo build --release --offline --features "$feature") >"$log" 2>&1; then
  tail -40 "$log"; rm -f "$log"
  echo "INCONCLUSIVE property=$id the harness does not build against /repo"
  exit 2
fi
rm -f "$log"
ulimit -v 16000000 2>/dev/null
VERIF_DIR=$PWD ./$crate/target/release/pbt run "$id" "$tier" "$seed"
rc=$?
if [ $rc -eq 0 ] && [ -f known_findings.txt ]; then
  grep "^KNOWN-FINDING: property=$id " known_findings.txt
  exit 0
fi
exit $rc
