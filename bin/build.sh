#!/bin/bash
# Builds the simulator with the real code of /repo's working tree.
#   build.sh [OUTDIR]      (default /verif/build; REPO=/repo)
# Everything goes to OUTDIR; /repo is only read.
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
REPO=${REPO:-/repo}
OUT=${1:-$HERE/build}
JOBS=${JOBS:-8}
mkdir -p "$OUT"
exec 9>"$OUT/.lock"
flock 9
# An unchanged tree needs no build; a changed one is built from scratch, so
# that file times never matter.
KEY=$( { cd "$REPO"; find CMakeLists.txt src apps cmake -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum; \
         cd "$HERE"; sha256sum sim/* bin/build.sh; echo "$REPO $SIM_OPT"; } | sha256sum | cut -d' ' -f1)
RKEY=$( { cd "$REPO"; find CMakeLists.txt src apps cmake -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum; } | sha256sum | cut -d' ' -f1)
if [ -x "$OUT/flprsim" ] && [ "$(cat "$OUT/.key" 2>/dev/null)" = "$KEY" ]; then exit 0; fi
rm -f "$OUT/.key"
if [ "$(cat "$OUT/.rkey" 2>/dev/null)" != "$RKEY" ]; then rm -rf "$OUT/repo" "$OUT/h" "$OUT/.rkey"; fi
export CC=/usr/bin/gcc CXX=/usr/bin/g++ LC_ALL=C
unset CXXFLAGS CFLAGS LDFLAGS || true
if [ -f "$OUT/repo/CMakeCache.txt" ] && ! grep -q "^CMAKE_HOME_DIRECTORY:INTERNAL=$REPO\$" "$OUT/repo/CMakeCache.txt"; then
  rm -rf "$OUT/repo"
fi
{
  # assert() stays on, as in the project's default (Debug) build type
  cmake -S "$REPO" -B "$OUT/repo" -G Ninja -DCMAKE_BUILD_TYPE=Debug \
        -DCMAKE_CXX_FLAGS_DEBUG="${SIM_OPT:--O1}" -DCMAKE_CXX_FLAGS="" \
        -DBUILD_SHARED_LIBS=OFF
} >"$OUT/cmake.log" 2>&1 || { tail -30 "$OUT/cmake.log" >&2; exit 3; }
PARTS="simrt ref rparse gen plan stubs main $(cd "$HERE/sim" && ls sc_*.cc | sed 's/\.cc$//' | tr '\n' ' ')"
APPS="caliper flpr-format parse_files module ext_demo flpr_show_cst"
# the harness objects need only /repo's headers (scan_fort.hh is private), so
# both builds run side by side
( set -e
  mkdir -p "$OUT/h"
  n=0
  for f in $PARTS; do
    src="$HERE/sim/$f.cc"; obj="$OUT/h/$f.o"
    [ -f "$src" ] || continue
    # harness parts that see /repo's headers are always rebuilt on change
    if [ -f "$obj" ] && [ -f "$obj.d" ] && make -s -q -f - "$obj" <<MK 2>/dev/null
$obj:
	false
include $obj.d
MK
    then continue; fi
    $CXX -std=c++17 -O1 -g0 -MMD -MP -MF "$obj.d" -MT "$obj" -I"$REPO/src" -I"$REPO" -I"$REPO/apps" \
        -c "$src" -o "$obj.tmp" && mv "$obj.tmp" "$obj" &
  done
  wait
) >"$OUT/harness.log" 2>&1 &
HP=$!
ninja -C "$OUT/repo" -j"$JOBS" flpr flprapp $APPS >"$OUT/ninja.log" 2>&1 || { wait $HP || true; grep -v '^\[' "$OUT/ninja.log" | head -40 >&2; exit 3; }
wait $HP || true
OBJS=""
for f in $PARTS; do
  [ -f "$HERE/sim/$f.cc" ] || continue
  if [ ! -f "$OUT/h/$f.o" ] || [ "$HERE/sim/$f.cc" -nt "$OUT/h/$f.o" ]; then
    head -60 "$OUT/harness.log" >&2
    case $f in sc_*) continue ;; *) exit 3 ;; esac
  fi
  OBJS="$OBJS $OUT/h/$f.o"
done
AO=""
for a in $APPS; do
  d="$OUT/repo/apps/CMakeFiles/$a.dir"
  s=app_main_$(echo "$a" | tr - _)
  ld -r -o "$OUT/h/app_$a.r.o" "$d"/*.o
  # strong symbols become local (several tools define e.g. write_file); weak
  # ones (inline functions, templates) stay shared
  nm --defined-only "$OUT/h/app_$a.r.o" | awk '$2 ~ /^[TDBRSG]$/ && $3 != "main" {print $3} END{print "no_such_symbol__"}' >"$OUT/h/app_$a.loc"
  objcopy --localize-symbols="$OUT/h/app_$a.loc" --redefine-sym main=$s "$OUT/h/app_$a.r.o" "$OUT/h/app_$a.o"
  AO="$AO $OUT/h/app_$a.o"
done
LIBA=$(find "$OUT/repo" -name libflprapp.a | head -1)
LIBF=$(find "$OUT/repo" -name libflpr.a | head -1)
$CXX -o "$OUT/flprsim.tmp" $OBJS $AO "$LIBA" "$LIBF" -ldl
mv "$OUT/flprsim.tmp" "$OUT/flprsim"
echo "$RKEY" >"$OUT/.rkey"
echo "$KEY" >"$OUT/.key"
