#!/bin/bash
# replay.sh <file.case>: re-run one saved case against /repo's current sources (exit 1 if it still fails).
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C
V=$(cd "$(dirname "$0")/.." && pwd)
P=$(awk '$1=="prop"{print $2; exit}' "$1")
FL=$(awk -v p="$P" '$1==p{print $2}' "$V/bin/flavors.txt")
BIN=$("$V/bin/build.sh" "${MBPBT_FLAVOR:-$FL}") || exit 3
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1 UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1
exec "$BIN" replay "$1" verbose
