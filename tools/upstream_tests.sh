#!/bin/bash
# Development aid: builds and runs the three upstream test binaries that the baseline leaves out
# (they need config_parser.cpp, which fmt 9 compiles only with mc/shim.hpp).  usage: upstream_tests.sh [repo]
R=${1:-/repo}; D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
F="-std=c++20 -O1 -w -include /verif/mc/shim.hpp -I$R/include $(pkg-config --cflags fmt tomlplusplus catch2-with-main)"
cd "$R"
for f in src/*.cpp src/*/*.cpp; do [ $f = src/main.cpp ] && continue; g++ $F -c $f -o $D/l_$(basename $f .cpp).o & done
for t in activity activity_inertial deffuant; do g++ $F -c test/test_$t.cpp -o $D/t_$t.o & done
wait
for t in activity activity_inertial deffuant; do
  g++ $D/t_$t.o $D/l_*.o -o $D/$t -lfmt -ltomlplusplus $(pkg-config --libs catch2-with-main) && (cd $R && timeout 100 $D/$t | tail -2) || echo FAILED $t
done
