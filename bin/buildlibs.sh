#!/bin/bash
# buildlibs.sh FLAVOUR BUILDDIR TARGET... : configure and build /repo's own libraries, instrumented.
set -e
flav=$1; dir=$2; shift 2
REPO=${VERIF_REPO:-/repo}
here=$(cd "$(dirname "$0")/.." && pwd)
common="-g1 -w -fno-omit-frame-pointer -D_FORTIFY_SOURCE=0"
case $flav in
 san)  fl="-O1 $common -fsanitize=address,bounds,null,integer-divide-by-zero,unreachable,return,vla-bound,shift-exponent -fno-sanitize-recover=all" ;;
 asan) fl="-O1 $common -fsanitize=address,null,integer-divide-by-zero,unreachable,return,vla-bound,shift-exponent -fno-sanitize-recover=all" ;;
 fast) fl="-O2 $common" ;;
 tsan) fl="-O1 $common -fsanitize=thread" ;;
esac
mkdir -p "$dir"
[ -f "$dir/build.ninja" ] || cmake -S "$REPO" -B "$dir" -G Ninja -DCMAKE_BUILD_TYPE=Debug -DRUN_TESTS=OFF \
   -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DCMAKE_C_CPPCHECK= \
   -DCMAKE_PROJECT_INCLUDE="$here/cmake/no_postbuild.cmake" "-DCMAKE_C_FLAGS=$fl" "-DCMAKE_CXX_FLAGS=$fl" >"$dir.cmake.log" 2>&1 || { tail -20 "$dir.cmake.log"; exit 3; }
export ASAN_OPTIONS=detect_leaks=0
ninja -C "$dir" "$@" >"$dir.ninja.log" 2>&1 || { grep -B2 -A8 "FAILED\|error" "$dir.ninja.log" | head -60; exit 3; }
