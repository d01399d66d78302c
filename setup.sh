#!/bin/bash
# Builds the symbolic executor and the library stubs into /verif/build (nothing of /repo).
set -e
cd "$(dirname "$0")"; V=$PWD; mkdir -p build
exec 9>build/.lock; flock 9
stamp=$(cat $(find engine -maxdepth 1 -type f | sort) $(find stubs -type f | sort) harness/vp.h setup.sh | sha256sum | cut -d' ' -f1)
if [ -f build/stamp ] && [ "$(cat build/stamp)" = "$stamp" ] && [ -x build/vpsym ] && [ -f build/stubs.bc ]; then exit 0; fi
( cd engine && g++ -O2 -std=c++17 -Wno-parentheses -Wno-misleading-indentation $(llvm-config-18 --cppflags) vpsym.cpp -o "$V/build/vpsym.tmp" -L/usr/lib/llvm-18/lib -lLLVM-18 -lz3 ) &
( cd stubs && clang++-18 -std=gnu++17 -O0 -Xclang -disable-O0-optnone -g -ffp-contract=off -fno-threadsafe-statics -emit-llvm -I include -c vp_stubs.cpp -o "$V/build/stubs.tmp.bc" ) &
wait %1; wait %2
mv build/vpsym.tmp build/vpsym; mv build/stubs.tmp.bc build/stubs.bc; echo "$stamp" > build/stamp
