#!/bin/bash
# Builds the symbolic execution engine and its run-time support from the committed files (offline).
set -e
cd "$(dirname "$0")"; V=$PWD; B=$V/build; export TMPDIR=${TMPDIR:-/tmp}
mkdir -p "$B/inc/bits" "$B/inc/Balau" evidence work
sed 's/^# define _GLIBCXX_EXTERN_TEMPLATE 1/# define _GLIBCXX_EXTERN_TEMPLATE 0/' /usr/include/x86_64-linux-gnu/c++/13/bits/c++config.h > "$B/inc/bits/c++config.h.new"
cmp -s "$B/inc/bits/c++config.h.new" "$B/inc/bits/c++config.h" || mv "$B/inc/bits/c++config.h.new" "$B/inc/bits/c++config.h"
make -s -j4 -C engine OUT="$B" "$B/vpse" &
F="-std=c++17 -O1 -g1 -emit-llvm -c -fno-vectorize -fno-slp-vectorize -isystem $B/inc"
[ "$B/support.bc" -nt engine/rt/support.cpp ] || clang++ $F -fno-builtin engine/rt/support.cpp -o "$B/support.bc"
[ "$B/stdinst.bc" -nt engine/rt/stdinst.cpp ] || clang++ $F engine/rt/stdinst.cpp -o "$B/stdinst.bc"
[ "$B/replay.o" -nt engine/rt/replay.cpp ] || clang++ -std=c++17 -O1 -g -c engine/rt/replay.cpp -o "$B/replay.o"
wait %1
test -x "$B/vpse"
echo "setup done"
