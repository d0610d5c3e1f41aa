#!/bin/bash
# build.sh SRC OUT INCLUDES... -- FLAGS: code under test with access instrumentation, own runtime instead of libtsan/libgomp
src=$1; out=$2; shift 2; d=$(cd "$(dirname "$0")" && pwd)
g++ -std=c++17 -w -g1 -O1 -D_GLIBCXX_ASSERTIONS -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -fopenmp -DVERIF_CONC -include "$d/pre.hpp" -include harness/rng_seam.hpp -I"$d" $* -c "$src" -o "$out.o" || exit 1
g++ -std=c++17 -w -g1 -O2 -I"$d" -c "$d/rt.cpp" -o "$out.rt.o" || exit 1
g++ -rdynamic "$out.o" "$out.rt.o" -o "$out" -lpthread || exit 1
