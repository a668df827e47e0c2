#!/bin/bash
V=$(cd "$(dirname "$0")/.." && pwd)
rc=0
for f in $(awk '{print $2}' "$V/bin/flavors.txt" | sort -u); do "$V/bin/build.sh" $f >/dev/null || rc=3; done
exit $rc
