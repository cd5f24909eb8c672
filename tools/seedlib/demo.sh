#!/bin/bash
# compiles demo.cc against the built library and runs it in a scratch directory
d=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
B=$R/_build
T=$(mktemp -d) || exit 99
trap 'cd /; rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -DLITTLE_ENDIAN_ARCHITECTURE -I"$R/src/include" -I"$B/src/include" -I"$R/3rdparty/Cuba-4.2.2" \
  -I"$R/3rdparty/einhard" -I"$R/3rdparty/yaml-cpp-0.8.0/include" -isystem /usr/include/eigen3 \
  "$d/demo.cc" -Wl,--start-group "$B/src/libsmash.a" $(find "$B/3rdparty" -name 'lib*.a') \
  -Wl,--end-group -lgsl -lgslcblas -lm -ldl -lpthread -lstdc++fs -o "$T/demo" || exit 98
cd "$T" && timeout 120 ./demo
