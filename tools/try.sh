#!/bin/bash
# try.sh ID [CASES] [SEED]: builds and runs one check
cd /verif/harness && cargo build --release --offline --features ${1,,} 2>&1 | grep -E '^error|^warning: unus' -A9
./target/release/pbt run $1 quick ${3:-1} $2; rc=$?
f=$(ls -t /verif/replays/$1-* 2>/dev/null | head -1); [ $rc -ne 0 ] && [ -n "$f" ] && cut -c1-1200 $f
exit $rc
