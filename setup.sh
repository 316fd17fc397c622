#!/bin/bash
# Configures the build and compiles the parts every check shares.
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence replays
[ -f build/build.ninja ] || cmake -S . -B build -G Ninja -DCMAKE_C_COMPILER=clang -DCMAKE_CXX_COMPILER=clang++ || exit 1
ninja -C build pbt s2e_base s2e_sim s2e_example
