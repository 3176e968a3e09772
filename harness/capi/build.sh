#!/bin/bash
# build.sh OUTDIR LIBDIR: compiles the C programs against the published header
# and the static library.  What goes wrong is left in OUTDIR/error.
cd "$(dirname "$0")" || exit 2
O=$1
L=$2
I=/repo/libkoopa/include
mkdir -p "$O" || exit 2
rm -f "$O/walker" "$O/twice" "$O/error"
W="-Wall -Werror=incompatible-pointer-types -Werror=int-conversion -Werror=implicit-function-declaration -Werror=discarded-qualifiers -Werror=return-type"
{
  gcc -std=gnu11 -O1 -g $W -I "$I" walker.c "$L/libkoopa.a" -lpthread -ldl -lm -o "$O/walker" &&
    gcc -std=c99 -fsyntax-only -x c "$I/koopa.h" &&
    g++ -std=c++11 -Wall -I "$I" twice.cc "$L/libkoopa.a" -lpthread -ldl -lm -o "$O/twice" &&
    "$O/twice"
} >"$O/log" 2>&1 || mv "$O/log" "$O/error"
exit 0
