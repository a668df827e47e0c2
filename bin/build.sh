#!/bin/bash
# build.sh <flavor>: build the harness against /repo's current sources; prints the binary's path.
# Rebuilds whenever any source under /repo/src, /repo/binaries or /verif/harness differs (content hash).
set -u
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C
V=$(cd "$(dirname "$0")/.." && pwd)
R=${MBPBT_REPO:-/repo}
F=$1
DEF="-std=c++17 -g -D__LOCK_FREE__ -DMB_ENABLE_TRAVERSAL_LIMIT -fPIC -fno-omit-frame-pointer -w"
CXX=g++
LINK=""
case $F in
  opt)  FL="-O1"; for w in fallocate posix_fallocate ftruncate mmap open fwrite; do LINK="$LINK -Wl,--wrap=$w"; done ;;
  asan) FL="-O1 -fsanitize=address,undefined -fno-sanitize=alignment,nonnull-attribute,vptr -fno-sanitize-recover=undefined"; LINK="-fsanitize=address,undefined" ;;
  sched) CXX=clang++; FL="-O1"; REPOFL="-fsanitize-coverage=func,trace-pc-guard,trace-loads,trace-stores -fno-builtin-memcpy -fno-builtin-memset -fno-builtin-memmove -fno-builtin-memcmp -include $V/harness/sched_atomic.h" ;
LINK=""; for w in memcpy memset memmove memcmp pwrite pread pwrite64 pread64 mmap mmap64 munmap nanosleep usleep pthread_mutex_lock pthread_create poll; do LINK="$LINK -Wl,--wrap=$w"; done ;;
  tsan) CXX=clang++; FL="-O1 -fsanitize=thread"; LINK="-fsanitize=thread" ;;
  cov)  FL="-O0 --coverage"; LINK="--coverage" ;;
  *) echo "unknown flavor $F" >&2; exit 3 ;;
esac
REPOFL=${REPOFL:-}
B=$V/_build/$F
mkdir -p "$B" || exit 3
exec 9>"$B/.lock"; flock 9
HASH=$( { echo "$CXX $DEF $FL $REPOFL $LINK"; find "$R/src" "$R/binaries" "$R/swig" "$V/harness" -type f \( -name '*.cpp' -o -name '*.h' \) -not -path '*/test/*' -not -path '*/unittest/*' -print0 | sort -z | xargs -0 sha1sum; } | sha1sum | cut -d' ' -f1)
if [ -f "$B/hash" ] && [ "$(cat "$B/hash")" = "$HASH" ] && [ -x "$B/mbpbt" ]; then echo "$B/mbpbt"; exit 0; fi
rm -f "$B/hash"
ln -sfn "$R/src" "$B/mabain"; INC="-I$B -I$R/swig"
MK=$B/Makefile
{
  echo "all: $B/mbpbt"
  OBJS=""
  for f in "$R"/src/*.cpp "$R"/src/util/*.cpp "$R"/src/detail/*.cpp; do
    [ -f "$f" ] || continue
    o=$B/repo_$(basename "$f" .cpp).o
    OBJS="$OBJS $o"
    rfl=$REPOFL
    case "$f" in */free_list.cpp|*/mb_lsq.cpp|*/logger.cpp) rfl="" ;; esac # private memory only
    printf '%s: %s FORCE\n\t%s %s %s %s -I%s/src -I%s/src/util -c %s -o %s\n' "$o" "$f" "$CXX" "$DEF" "$FL" "$rfl" "$R" "$R" "$f" "$o"
  done
  for f in "$V"/harness/*.cpp "$V"/harness/props/*.cpp; do
    case "$(head -c 400 "$f")" in *"FLAVORS:"*) case "$(grep -m1 FLAVORS: "$f")" in *" $F"*) ;; *) continue ;; esac ;; esac
    o=$B/h_$(basename "$f" .cpp).o
    OBJS="$OBJS $o"
    printf '%s: %s FORCE\n\t%s %s %s -DFLAVOR_%s %s -I%s/harness -I%s/src -I%s/src/util -I%s/binaries -c %s -o %s\n' "$o" "$f" "$CXX" "$DEF" "$FL" "$F" "$INC" "$V" "$R" "$R" "$R" "$f" "$o"
  done
  RL=""
  if [ $F = asan ] || [ $F = cov ]; then # the shell
    RL=-lreadline
    for f in "$R"/binaries/*.cpp; do
      o=$B/bin_$(basename "$f" .cpp).o; OBJS="$OBJS $o"
      printf '%s: %s FORCE\n\t%s %s %s -Dmain=mbc_main -I%s/src -I%s/src/util -I%s/binaries -c %s -o %s\n' "$o" "$f" "$CXX" "$DEF" "$FL" "$R" "$R" "$R" "$f" "$o"
    done
  fi
  printf '%s: %s\n\t%s %s -o %s.tmp %s -ljemalloc %s -lpthread -ldl && mv %s.tmp %s\n' "$B/mbpbt" "$OBJS" "$CXX" "$LINK" "$B/mbpbt" "$OBJS" "$RL" "$B/mbpbt" "$B/mbpbt"
  echo "FORCE:"
} > "$MK"
if ! make -s -j8 -f "$MK" all > "$B/log" 2>&1; then
  echo "build of flavor $F failed:" >&2; tail -40 "$B/log" >&2; exit 3
fi
echo "$HASH" > "$B/hash"
echo "$B/mbpbt"
