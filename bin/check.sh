#!/bin/bash
# check.sh <property> [quick|thorough]: build from /repo's working tree and run the property's check.
# exit 0: held on everything explored; 1: VIOLATION line printed; 3: the check could not run.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C
V=$(cd "$(dirname "$0")/.." && pwd)
P=$1; TIER=${2:-${VERIF_TIER:-quick}}
FL=$(awk -v p="$P" '$1==p{print $2}' "$V/bin/flavors.txt")
[ -n "$FL" ] || { echo "unknown property $P" >&2; exit 3; }
BIN=$("$V/bin/build.sh" "$FL") || exit 3
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0 UBSAN_OPTIONS=print_stacktrace=1:halt_on_error=1
mkdir -p "$V/evidence" "$V/replays"
exec "$BIN" run "$P" --tier "$TIER" --seed "${VERIF_SEED:-1}" --evidence "$V/evidence/$P.json" --replays "$V/replays" --regress "$V/regress"
