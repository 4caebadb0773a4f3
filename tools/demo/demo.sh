#!/bin/bash
# cwd: the repository, built. Exit 0: behaves as it should.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export PATH=/opt/vp/bin:$PATH LC_ALL=C
g++ -std=c++11 -O1 -g -w -fopenmp -DUSE_NUMA -DSTATISTICS -I. -Ilibkcommon -Ilibman -Ilibauto -I"$D" "$D/demo.cpp" -o "$T/demo" \
    libman/libman.a libauto/libauto.a libkcommon/libkcommon.a -lnuma -lpthread -lrt || exit 2
cd "$T" && timeout 200 ./demo
