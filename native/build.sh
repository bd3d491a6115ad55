#!/bin/bash
# build.sh OUTDIR : native harness from /repo's current sources; VC_CC: compiler and optimization level
set -e
D="$1"; SRC="${VC_SRC:-/repo/src}"; H="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$D"
ls "$SRC"/*.c | grep -v -e '/main.c$' -e '/rle8_ocl.c$' -e '/rle_fuzz.c$' | xargs -P 8 -I{} env "CC2=${VC_CC:-clang-18 -O2}" sh -c '$CC2 -m64 -mxsave -ffast-math -DSSE2 -D_CRT_SECURE_NO_WARNINGS -w -c "$1" -o "$2/$(basename "$1" .c).o"' _ {} "$D"
${VC_CC:-clang-18 -O2} -m64 -mxsave -DSSE2 -w -I"$SRC" -I"$H" "$H/search.c" "$D"/*.o -lm -o "$D/search"
